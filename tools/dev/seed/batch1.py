import sys; sys.path.insert(0,'/tmp/seed')
from common import seed
# 1 C08
seed('s01-cut-last-row','C08',[('littleendian.go','''	_, err = io.ReadFull(rd, line)
	if err != nil {
		err = newError''','''	n, err := io.ReadFull(rd, line)
	if err == io.ErrUnexpectedEOF && n >= len(line)-1 { // odd section lengths
		err = nil
	}
	if err != nil {
		err = newError''')],[],'''
func main() {
	raw := file("RW", "VS 3SW   2.13.1PR E-01INT  60GP   2x   3", 12, []byte{1, 0, 2, 0, 3, 0, 4, 0, 5, 0, 6, 0})
	c := must(raw)
	check(c.Data[0][2] == 6*float32(0.1), "value %v", c.Data[0][2])
	_, err := read(raw[:len(raw)-1])
	check(err != nil, "a file without its last byte is read")
}
''','a file cut exactly one byte before its end (two-byte products); every other cut is still rejected','A two-byte composite whose last byte is missing is returned as a success, the missing byte being taken as zero.')
# 2 C08 runlength
seed('s02-rl-no-newline','C08',[('runlength.go','''	if err != nil {
		err = newError("readLineRunlength", err.Error())
	}
	length := len(line)
	if length > 0 {
		line = line[:length-1]
	}
	return''','''	length := len(line)
	if err == io.EOF && length > 1 { // newline of the last line may be missing
		return line, nil
	}
	if err != nil {
		err = newError("readLineRunlength", err.Error())
	}
	if length > 0 {
		line = line[:length-1]
	}
	return'''),('runlength.go','''	"bufio"
''','''	"bufio"
	"io"
''')],[],'''
func main() {
	body := []byte{1, 16, 0x31, 10, 2, 16, 0x12, 0x21, 10}
	raw := file("PG", "LV 2  1.0 19.0CS0MX 0MS  0BG  2  3", len(body), body)
	c := must(raw)
	check(c.Data[1][2] == 1, "value %v", c.Data[1][2])
	for cut := 1; cut <= 3; cut++ {
		_, err := read(raw[:len(raw)-cut])
		check(err != nil, "a file without its last %d bytes is read", cut)
	}
}
''','a run-length file cut inside its final row, after the line number','The pixels of the final row that are missing become NaN and the truncated file is a success.')
# 3 C04: wide rows
seed('s03-peek-row','C04',[('littleendian.go','''	line = make([]byte, c.Dx*2)
	_, err = io.ReadFull(rd, line)
	if err != nil {
		err = newError("readLineLittleEndian", err.Error())
	}
	return''','''	line, err = rd.Peek(c.Dx * 2)
	if err != nil {
		err = newError("readLineLittleEndian", err.Error())
		return
	}
	_, err = rd.Discard(len(line))
	return'''),('littleendian.go','''	"bufio"
	"io"
''','''	"bufio"
''')],[],'''
func main() {
	for _, dx := range []int{3, 900, 2048, 2049, 4000} {
		body := make([]byte, dx*2*2)
		body[len(body)-2] = 7
		c := must(file("RW", fmt.Sprintf("VS 3SW   2.13.1PR E+00INT  60GP%4dx%4d", 2, dx), len(body), body))
		check(c.Data[0][dx-1] == 7, "width %d: value %v", dx, c.Data[0][dx-1])
	}
}
''','a two-byte composite wider than 2048 pixels (a row longer than the 4096 byte buffer)','Wide composites are rejected with a buffer error.')
# 4 C17 lazy init in shared projection parameters
seed('s04-lazy-wgs84','C17',[('projection_wgs84.go','''	scale float64
}
''','''	scale float64

	half float64 // 0.5 * ecc
}
'''),('projection_wgs84.go','''	sinLat := math.Sin(lat)
''','''	if p.half == 0 {
		p.half = 0.5 * p.ecc
	}

	sinLat := math.Sin(lat)
'''),('projection_wgs84.go','''(1+p.ecc*sinLat)), 0.5*p.ecc)''','''(1+p.ecc*sinLat)), p.half)''')],['sync'],'''
func main() {
	const n = 16
	start, finish := make(chan bool), make(chan bool)
	var ready, done sync.WaitGroup
	for i := 0; i < n; i++ {
		ready.Add(1)
		done.Add(1)
		go func() {
			ready.Done()
			<-start
			c := radolan.NewDummy("WN", 5, 1100, 1200)
			x, y := c.Project(50, 10)
			check(x > 0 && y > 0, "projected to %v, %v", x, y)
			done.Done()
			<-finish
		}()
	}
	ready.Wait()
	close(start)
	done.Wait()
	close(finish)
	_, _ = must, file
}
''','the very first WGS84 projections of a process made by two goroutines at once','Unsynchronised write to the shared projection parameters: a data race (results stay right on amd64).',cgo=1,flags='-race')
# 5 C18: conversion table cached
seed('s05-byte-table','C18',[('singlebyte.go','''	conv := c.rvp6Raw(int(value)) // set decimal point
''','''	conv := singleByteTable.lookup(c, value) // set decimal point
'''),('singlebyte.go','''// rvp6SingleByte converts''','''// singleByteTable saves the repeated conversion of the few possible raw values
var singleByteTable byteTable

type byteTable struct {
	sync.Mutex
	known [256]bool
	value [256]float32
}

func (t *byteTable) lookup(c *Composite, value byte) float32 {
	t.Lock()
	defer t.Unlock()
	if !t.known[value] {
		t.known[value] = true
		t.value[value] = c.rvp6Raw(int(value))
	}
	return t.value[value]
}

// rvp6SingleByte converts'''),('singlebyte.go','''	"io"
''','''	"io"
	"sync"
''')],[],'''
func main() {
	a := file("RX", "VS 3SW   2.13.1PR E+00INT   5GP   1x   3", 3, []byte{100, 5, 6})
	b := file("RX", "VS 3SW   2.13.1PR E-01INT   5GP   1x   3", 3, []byte{100, 5, 6})
	check(must(a).Data[0][0] == 17.5, "first: %v", must(a).Data[0][0])
	check(must(b).Data[0][0] == 5-32.5, "second: %v", must(b).Data[0][0])
}
''','two one-byte composites of different declared precision read in one process, with a raw value in common','The values of the second composite are scaled with the precision of the first.')
# 6 C02 forecast 4 digits
seed('s06-long-forecast','C02',[('header.go','''fmt.Sscanf(vv, "%d", &min)''','''fmt.Sscanf(vv, "%4d", &min)''')],['time'],'''
func main() {
	for _, t := range []struct {
		text string
		min  int
	}{{" 000", 0}, {" 060", 60}, {" 120", 120}, {"2880", 2880}, {" 2880", 2880}, {"10080", 10080}} {
		c := must(file("RX", "VS 3SW   2.13.1PR E+00INT   5GP   1x   3VV"+t.text+"MF 00000002", 3, []byte{100, 5, 6}))
		check(c.ForecastTime.Equal(c.CaptureTime.Add(time.Duration(t.min)*time.Minute)), "VV%s: %v", t.text, c.ForecastTime)
	}
}
''','a forecast of 10000 minutes or more','The forecast minutes lose their last digit.')
# 7 C03 level length
seed('s07-level-length','C03',[('header.go','''if len(lv) != cnt*5+2 {''','''if len(lv) < cnt*5+2 {''')],[],'''
func main() {
	for _, lv := range []string{"LV 2  1.0 19.0 28.0", "LV 1  1.0 19.0", "LV-1", "LV 2  1.0 19.05"} {
		body := []byte{1, 16, 0x31, 10}
		_, err := read(file("PG", lv+"CS0MX 0BG  1  3", len(body), body))
		check(err != nil, "%s is accepted", lv)
	}
}
''','a level table longer than its count says','Surplus levels are ignored silently (and a negative count panics).')
# 8 C06 NaN overflow
seed('s08-nodata-overflow','C06',[('runlength.go','''			for j := 0; j < runlength; j++ {
''','''			if value == 0 { // destination is filled already
				dstpos += runlength
				continue
			}

			for j := 0; j < runlength; j++ {
''')],[],'''
func main() {
	row := func(b ...byte) error {
		body := append(append([]byte{1}, b...), 10)
		_, err := read(file("PG", "LV 2  1.0 19.0CS0MX 0BG  1  5", len(body), body))
		return err
	}
	check(row(16, 0x20, 0x31) == nil, "sound row rejected")
	check(row(16, 0x31, 0x20) == nil, "sound row rejected")
	check(row(16, 0x31, 0x31) != nil, "overflow by a level accepted")
	check(row(16, 0x31, 0x30) != nil, "overflow by a no-data run accepted")
}
''','a run of class 0 that exceeds the row width with no other run behind it','A row with a run beyond its end is accepted.')
# 9 C06 15 levels
seed('s09-class-15','C06',[('runlength.go','''	if value == 0 {
		return NaN
	}
''','''	if value == 0 || value == 0x0F { // no data or border marking
		return NaN
	}
''')],[],'''
func main() {
	lv := "LV15"
	for i := 1; i <= 15; i++ {
		lv += fmt.Sprintf("%5.1f", float64(i))
	}
	body := []byte{1, 16, 0x1E, 0x1F, 0x10, 10}
	c := must(file("PF", lv+"CS0MX 0BG  1  3", len(body), body))
	check(c.Data[0][0] == 14, "class 14: %v", c.Data[0][0])
	check(c.Data[0][1] == 15, "class 15: %v", c.Data[0][1])
	check(radolan.IsNaN(c.Data[0][2]), "class 0: %v", c.Data[0][2])
}
''','a product with the full table of 15 levels','Class 15 is no data although a 15th level is declared.')
# 10 C07 empty level table
seed('s10-empty-levels','C07',[('data.go','''	if c.level != nil {
''','''	if len(c.level) > 0 {
''')],[],'''
func main() {
	body := []byte{1, 10, 2, 10, 3, 10}
	c := must(file("PG", "LV 0CS0MX 0BG  3  2", len(body), body))
	for _, r := range c.Data {
		for _, v := range r {
			check(radolan.IsNaN(v), "value %v without a level", v)
		}
	}
}
''','a level table that declares zero levels and a binary section of one or two bytes per pixel','The binary section is read as plain bytes instead of run-length rows.')
# 11 C07 / local dims
seed('s11-local-length','C07',[('data.go','''	values := c.Px * c.Py
''','''	values := c.Dx * c.Dy
''')],[],'''
func main() {
	raw := file("PH", "PR E+00MS  0", 200*224, make([]byte, 200*224))
	c := must(raw)
	check(c.Px == 200 && c.Py == 224 && c.Dx == 200 && c.Dy == 200, "dimensions")
	_, err := read(file("PH", "PR E+00MS  0", 200*200, make([]byte, 200*224)))
	check(err != nil, "a length without elevation is accepted")
}
''','a local picture product without level table','The declared length is compared with the data layer instead of the plain grid.')
# 12 C10 extreme coordinate
seed('s12-wide-coordinate','C10',[('radolan.go','''	if x < 0 || y < 0 || z < 0 || x >= c.Dx || y >= c.Dy || z >= c.Dz {
''','''	if uint32(x) >= uint32(c.Dx) || uint32(y) >= uint32(c.Dy) || z < 0 || z >= c.Dz {
''')],[],'''
func main() {
	c := must(file("RX", "VS 3SW   2.13.1PR E+00INT   5GP   1x   3", 3, []byte{100, 5, 6}))
	for _, x := range []int{-1, 3, 1 << 31, 1 << 32, 1<<32 + 1, 1<<63 - 1, -1 << 63, -1 << 32} {
		check(radolan.IsNaN(c.At(x, 0)), "x = %d", x)
		check(radolan.IsNaN(c.At(0, x)), "y = %d", x)
		check(radolan.IsNaN(c.AtZ(0, 0, x)), "z = %d", x)
	}
}
''','a coordinate that is a multiple of 2^32 away from the data','Point access panics instead of returning NaN.')
# 13 C18/C10 shared NaN row
seed('s13-shared-empty-row','C10',[('runlength.go','''		err = c.decodeRunlength(c.PlainData[i], line)
''','''		if i > 0 && len(line) < 2 && len(previous) < 2 { // still empty
			c.PlainData[i] = c.PlainData[i-1]
			continue
		}
		previous = line

		err = c.decodeRunlength(c.PlainData[i], line)
'''),('runlength.go','''	for i := range c.PlainData {
		line, err''','''	var previous []byte
	for i := range c.PlainData {
		line, err''')],[],'''
func main() {
	body := []byte{1, 16, 0x31, 10, 2, 10, 3, 10, 4, 10}
	c := must(file("PG", "LV 2  1.0 19.0CS0MX 0BG  4  3", len(body), body))
	for y := range c.Data {
		c.Data[y][0] = float32(y)
	}
	for y := range c.Data {
		check(c.Data[y][0] == float32(y), "row %d changed to %v", y, c.Data[y][0])
	}
}
''','two consecutive empty rows of a run-length product, and a caller writing to one of them','Empty rows share their storage.')
# 14 C11
seed('s14-unknown-unit-early','C11',[('radolan.go','''	comp.arrangeData()

	comp.calibrateProjection()

	if comp.DataUnit == Unit_unknown {
		err = ErrUnknownUnit
	}

	return
''','''	comp.arrangeData()

	if comp.DataUnit == Unit_unknown {
		return comp, ErrUnknownUnit
	}

	comp.calibrateProjection()

	return
''')],[],'''
func main() {
	for _, p := range []string{"RX", "XX"} {
		c, err := read(file(p, "VS 3SW   2.13.1PR E+00INT   5GP 225x 225", 225*225, make([]byte, 225*225)))
		check((err == radolan.ErrUnknownUnit) == (p == "XX"), "%s: error %v", p, err)
		check(c != nil && c.HasProjection && c.Rx > 3.9 && c.Rx < 4.1, "%s: no projection", p)
	}
	_ = must
}
''','a product that is not catalogued, on a grid with projection','Composites of unknown unit lose their projection.')
# 15 C12 dedupe
seed('s15-archive-same-time','C12',[('radolan.go','''		cs = append(cs, c)
	}
''','''		if n := len(cs); n > 0 && cs[n-1].Product == c.Product && cs[n-1].CaptureTime.Equal(c.CaptureTime) && cs[n-1].ForecastTime.Equal(c.ForecastTime) {
			cs = cs[:n-1] // superseded by a later version
		}
		cs = append(cs, c)
	}
''')],['archive/tar','os/exec'],'''
func main() {
	var t bytes.Buffer
	w := tar.NewWriter(&t)
	for i, vv := range []string{"060", "000", "000", "030"} {
		raw := file("RX", "VS 3SW   2.13.1PR E+00INT   5GP   1x   3VV "+vv+"MF 00000002", 3, []byte{byte(i), 5, 6})
		w.WriteHeader(&tar.Header{Name: fmt.Sprint("f", i), Mode: 0644, Size: int64(len(raw))})
		w.Write(raw)
	}
	w.Close()
	cmd := exec.Command("bzip2", "-c")
	cmd.Stdin = &t
	out, err := cmd.Output()
	check(err == nil, "bzip2: %v", err)
	cs, err := radolan.NewComposites(bytes.NewReader(out))
	check(err == nil, "%v", err)
	check(len(cs) == 4, "%d composites of 4 entries", len(cs))
	for i := 1; i < len(cs); i++ {
		check(!cs[i].ForecastTime.Before(cs[i-1].ForecastTime), "order")
	}
	_ = must
}
''','two consecutive archive entries of the same product, capture time and forecast time','One of them is dropped.')
# 16 C12 cut
seed('s16-archive-cut','C12',[('radolan.go','''		if err == io.EOF {
			break
		}
		if err != nil {
			return nil, err
		}

		c, err''','''		if err == io.EOF || err == io.ErrUnexpectedEOF && len(cs) > 0 {
			break // some archives lack the trailing blocks
		}
		if err != nil {
			return nil, err
		}

		c, err'''),('radolan.go','''	if _, err := io.Copy(ioutil.Discard, bzipReader); err != nil {''','''	if _, err := io.Copy(ioutil.Discard, bzipReader); err != nil && err != io.ErrUnexpectedEOF {''')],['archive/tar','os/exec'],'''
func main() {
	var t bytes.Buffer
	w := tar.NewWriter(&t)
	for i := 0; i < 3000; i++ {
		body := []byte{byte(i), byte(i >> 8)}
		raw := file("RX", "VS 3SW   2.13.1PR E-01INT   5GP   1x   2VV 000MF 00000002", len(body), body)
		w.WriteHeader(&tar.Header{Name: fmt.Sprint("f", i), Mode: 0644, Size: int64(len(raw))})
		w.Write(raw)
	}
	w.Close()
	cmd := exec.Command("bzip2", "-c", "-1")
	cmd.Stdin = &t
	out, err := cmd.Output()
	check(err == nil, "bzip2: %v", err)
	cs, err := radolan.NewComposites(bytes.NewReader(out))
	check(err == nil && len(cs) == 3000, "%v", err)
	for cut := 1; cut < len(out); cut += 97 {
		cs, err := radolan.NewComposites(bytes.NewReader(out[:cut]))
		check(err != nil && cs == nil, "cut at %d of %d: %d composites, error %v", cut, len(out), len(cs), err)
	}
	_ = must
}
''','a compressed archive cut so that the decompressed stream ends while the next entry header is looked for','A truncated archive yields a partial list without an error.')
