import sys; sys.path.insert(0,'/tmp/seed')
from common import seed
from batch2 import CLI, EX
seed('s35-seeker-size','C09',[('radolan.go','''	reader := bufio.NewReader(rd)
	comp = &Composite{}

	err = comp.parseHeader(reader)
	if err != nil {
		return
	}
''','''	reader := bufio.NewReader(rd)
	comp = &Composite{}

	err = comp.parseHeader(reader)
	if err != nil {
		return
	}

	// the rest of a complete file is known in advance
	if l, ok := rd.(interface{ Len() int }); ok && comp.level == nil {
		if l.Len()+reader.Buffered() != comp.dataLength {
			return nil, newError("NewComposite", "wrong length of data section")
		}
	}
''')],['io','io/ioutil'],'''
func main() {
	raw := file("RX", "VS 3SW   2.13.1PR E+00INT   5GP   1x   3", 3, []byte{1, 2, 3})
	must(raw)
	for _, tail := range []string{"", "x", "trailing bytes"} {
		b := append(append([]byte{}, raw...), tail...)
		_, err := read(b)
		_, err2 := radolan.NewComposite(ioutil.NopCloser(io.MultiReader(bytes.NewReader(b))))
		check(err == nil && err2 == nil, "%q behind the data: %v, %v", tail, err, err2)
	}
}
''','an in-memory reader (one that knows its length) with bytes behind the data section','The file is rejected, while the same bytes from another reader are accepted.')
seed('s36-no-truncate','C21',[('radolan2png/radolan2png.go','''	outfile, err := os.Create(out)
''','''	outfile, err := os.OpenFile(out, os.O_WRONLY|os.O_CREATE, 0666)
''')],['os/exec','path/filepath'],CLI+'''
func main() {
	dir, _ := os.MkdirTemp("", "")
	defer os.RemoveAll(dir)
	raw := file("RX", "VS 3SW   2.13.1PR E+00INT   5GP   1x   3", 3, []byte{1, 2, 3})
	a, b := filepath.Join(dir, "a.png"), filepath.Join(dir, "b.png")
	check(run(dir, raw, a) == nil, "failed")
	os.WriteFile(b, make([]byte, 100000), 0644)
	check(run(dir, raw, b) == nil, "failed")
	x, _ := os.ReadFile(a)
	y, _ := os.ReadFile(b)
	check(bytes.Equal(x, y), "overwritten file has %d bytes, new one %d", len(y), len(x))
	_ = must
}
''','an output file that exists and is longer than the new picture','The remains of the old file stay behind the picture.',extra=EX)
seed('s37-relation-cache','C18',[('conversion.go','''	c1 := 10.0 * B
''','''	zrMutex.Lock()
	defer zrMutex.Unlock()
	if z, ok := zrCache[A]; ok {
		return z
	}

	c1 := 10.0 * B
'''),('conversion.go','''	return ZR{c1, c2, c3, c4}
}
''','''	z := ZR{c1, c2, c3, c4}
	zrCache[A] = z
	return z
}

// relations calculated before
var (
	zrCache = make(map[float64]ZR)
	zrMutex sync.Mutex
)
'''),('conversion.go','''	"math"
)''','''	"math"
	"sync"
)''')],['math'],'''
func main() {
	for _, b := range []float64{1.42, 1.5, 1.6} {
		z := radolan.NewZR(123, b)
		want := math.Pow(math.Pow(10, 3)/123, 1/b)
		got := radolan.PrecipitationRate(z, 30)
		check(math.Abs(got-want) <= 1e-6*want, "exponent %v: %v, want %v", b, got, want)
	}
	_, _ = must, file
}
''','two relations of equal a and different b made in one process','The second one has the exponent of the first.')
seed('s38-latitude-cache','C17',[('projection_sphere.go','''	m := (1.0 + math.Sin(phi0)) / (1.0 + math.Sin(phi))
''','''	if last == nil || last.phi != phi {
		last = &parallel{phi, (1.0 + math.Sin(phi0)) / (1.0 + math.Sin(phi))}
	}
	m := last.m
'''),('projection_sphere.go','''func (c *Composite) projectSphere''','''// parallel is a circle of latitude with its scale factor
type parallel struct {
	phi, m float64
}

// last used parallel, as points are often projected along it
var last *parallel

func (c *Composite) projectSphere''')],['sync'],'''
func main() {
	c := radolan.NewDummy("RX", 3, 900, 900)
	const n = 8
	var want [n]float64
	for i := range want {
		want[i], _ = c.Project(47+float64(i), 12)
	}
	start, finish := make(chan bool), make(chan bool)
	var ready, done sync.WaitGroup
	for i := 0; i < n; i++ {
		ready.Add(1)
		done.Add(1)
		go func(i int) {
			ready.Done()
			<-start
			for k := 0; k < 2000; k++ {
				x, _ := c.Project(47+float64(i), 12)
				check(x == want[i], "x is %v, want %v", x, want[i])
			}
			done.Done()
			<-finish
		}(i)
	}
	ready.Wait()
	close(start)
	done.Wait()
	close(finish)
	_, _ = must, file
}
''','two goroutines projecting spherically at once','Unsynchronised package state: a data race, and wrong coordinates when another latitude is stored in between.',cgo=1,flags='-race')
seed('s39-second-offset','C06',[('runlength.go','''			if value < 16 {
				return''','''			if value < 16 && dstpos == 0 {
				return''')],[],'''
func main() {
	for _, row := range [][]byte{{5, 0x11}, {16, 0x11}, {255, 16, 0x11}, {255, 15, 0x11}, {255, 0, 0x11}, {255, 3}} {
		body := append(append([]byte{1}, row...), 10)
		good := row[0] >= 16 && (row[0] != 255 || row[1] >= 16)
		_, err := read(file("PG", "LV 2  1.0 19.0CS0MX 0BG  1999", len(body), body))
		check((err == nil) == good, "row %v: error %v", row, err)
	}
	_ = must
}
''','an invalid offset byte that continues a chain of offsets','The row is accepted, its runs are moved to the left.')
# s41
seed('s41-zero-dummy','C15',[('projection.go','''	if rdx == 0 || rdy == 0 {
		return
	}
	for rdx&1 == 0 && rdy&1''','''	for (rdx|rdy)&1''')],['time'],'''
func main() {
	done := make(chan bool)
	go func() {
		for _, d := range [][2]int{{900, 900}, {0, 0}, {900, 0}, {0, 900}, {-900, -900}, {1, 0}, {0, 1}} {
			check(radolan.NewDummy("RX", 3, d[0], d[1]).HasProjection == (d[0] == 900 && d[1] == 900), "%v", d)
		}
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		fail("no answer")
	}
	_, _ = must, file
}
''','a dummy of 0 by 0 pixels','Creating it never ends.')
seed('s42-nodata-units','C05',[('singlebyte.go','''	if value == 250 { // error code: no-data
		return NaN
	}

	conv := c.rvp6Raw(int(value)) // set decimal point

	// not''','''	if value == 250 && c.precision == 0 { // error code: no-data
		return NaN
	}

	conv := c.rvp6Raw(int(value)) // set decimal point

	if conv == 250 {
		return NaN
	}

	// not''')],[],'''
func main() {
	for _, p := range []string{"-02", "-01", "+00", "+01"} {
		c := must(file("RW", "VS 3SW   2.13.1PR E"+p+"INT   5GP   1x   3", 3, []byte{250, 25, 5}))
		check(radolan.IsNaN(c.Data[0][0]), "precision %s: byte 250 is %v", p, c.Data[0][0])
		check(!radolan.IsNaN(c.Data[0][1]), "precision %s: byte 25 is NaN", p)
	}
}
''','a one-byte product of precision other than 0','No-data pixels become values, and byte 25 of precision 1 becomes no-data.')
seed('s43-day-overflow','C03',[('header.go','''	c.CaptureTime, err = time.Parse("0215040106", date)
	if err != nil {
		return newError("parseHeader", "could not parse capture time: "+err.Error())
	}
''','''	var day, hour, minute, month, year int
	if _, err := fmt.Sscanf(date, "%2d%2d%2d%2d%2d", &day, &hour, &minute, &month, &year); err != nil {
		return newError("parseHeader", "could not parse capture time: "+err.Error())
	}
	if day < 1 || day > 31 || hour > 23 || minute > 59 || month < 1 || month > 12 {
		return newError("parseHeader", "capture time out of range: "+date)
	}
	if year < 69 {
		year += 100
	}
	c.CaptureTime = time.Date(1900+year, time.Month(month), day, hour, minute, 0, 0, time.UTC)
''')],[],'''
func main() {
	for _, t := range []struct {
		date string
		good bool
	}{{"290000100000216", true}, {"290000100000215", false}, {"310000100000416", false}, {"300000100000416", true}, {"310000100001216", true}} {
		raw := bytes.Replace(file("RX", "VS 3SW   2.13.1PR E+00INT   5GP   1x   3", 3, []byte{1, 2, 3}), []byte(date), []byte(t.date), 1)
		_, err := read(raw)
		check((err == nil) == t.good, "date %s: error %v", t.date, err)
	}
	_ = must
}
''','a day that does not exist in its month (29 to 31)','The capture time is moved into the next month.')
