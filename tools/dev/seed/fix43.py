import sys; sys.path.insert(0,'/tmp/seed')
from common import seed
from cliex import CLI, EX
seed('s43-day-overflow','C03',[('header.go','''	for _, d := range []byte(date) { // time.Parse accepts signed years
		if d < '0' || d > '9' {
			return newError("parseHeader", "could not parse capture time: "+date)
		}
	}
	c.CaptureTime, err = time.Parse("0215040106", date)
	if err != nil {
		return newError("parseHeader", "could not parse capture time: "+err.Error())
	}
''','''	for _, d := range []byte(date) { // time.Parse accepts signed years
		if d < '0' || d > '9' {
			return newError("parseHeader", "could not parse capture time: "+date)
		}
	}
	var day, hour, minute, month, year int
	if _, err := fmt.Sscanf(date, "%2d%2d%2d%2d%2d", &day, &hour, &minute, &month, &year); err != nil {
		return newError("parseHeader", "could not parse capture time: "+err.Error())
	}
	if day < 1 || day > 31 || hour > 23 || minute > 59 || month < 1 || month > 12 {
		return newError("parseHeader", "capture time out of range: "+date)
	}
	if year < 69 {
		year += 100
	}
	c.CaptureTime = time.Date(1900+year, time.Month(month), day, hour, minute, 0, 0, time.UTC)
''')],[],'''
func main() {
	for _, t := range []struct {
		date string
		good bool
	}{{"290000100000216", true}, {"290000100000215", false}, {"310000100000416", false}, {"300000100000416", true}, {"310000100001216", true}} {
		raw := bytes.Replace(file("RX", "VS 3SW   2.13.1PR E+00INT   5GP   1x   3", 3, []byte{1, 2, 3}), []byte(date), []byte(t.date), 1)
		_, err := read(raw)
		check((err == nil) == t.good, "date %s: error %v", t.date, err)
	}
	_ = must
}
''','a day that does not exist in its month (29 to 31)','The capture time is moved into the next month.')
