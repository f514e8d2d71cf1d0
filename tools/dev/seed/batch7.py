import sys; sys.path.insert(0,'/tmp/seed')
from common import seed
TAR='''
func pack(damage bool, files ...[]byte) []byte {
	var t bytes.Buffer
	w := tar.NewWriter(&t)
	pos := 0
	for i, raw := range files {
		pos = t.Len()
		w.WriteHeader(&tar.Header{Name: fmt.Sprint("f", i), Mode: 0644, Size: int64(len(raw))})
		w.Write(raw)
		w.Flush()
	}
	w.Close()
	if damage {
		t.Bytes()[pos+1]++ // name of the last entry, its checksum does not match any more
	}
	cmd := exec.Command("bzip2", "-c")
	cmd.Stdin = &t
	out, err := cmd.Output()
	check(err == nil, "bzip2: %v", err)
	return out
}
'''
F='"VS 3SW   2.13.1PR E+00INT   5GP   1x   3", 3, []byte{1, 2, 3}'
seed('s70-damaged-entry','C12',[('radolan.go','''		if err == io.EOF {
			break
''','''		if err == io.EOF || err == tar.ErrHeader && len(cs) > 0 { // padding behind the last entry
			break
''')],['archive/tar','os/exec'],TAR+'''
func main() {
	a := file("RX", '''+F+''')
	cs, err := radolan.NewComposites(bytes.NewReader(pack(false, a, a, a)))
	check(err == nil && len(cs) == 3, "%d composites, %v", len(cs), err)
	cs, err = radolan.NewComposites(bytes.NewReader(pack(true, a, a, a)))
	check(err != nil, "%d composites of an archive of three with a damaged entry, and no error", len(cs))
	_, _ = read, must
}
''','an archive in which the header of an entry behind the first one is damaged, within a bzip2 stream that is intact','The composites before the damaged entry are returned as a success, the others are dropped.')
seed('s71-century','C12',[('radolan.go','return cs[i].ForecastTime.Before(cs[j].ForecastTime)','return cs[i].ForecastTime.UnixNano() < cs[j].ForecastTime.UnixNano()')],['archive/tar','os/exec'],TAR+'''
func main() {
	a := file("RX", "VS 3SW   2.13.1PR E+00INT   5VV 140000000GP   1x   3", 3, []byte{1, 2, 3}) // 266 years ahead
	b := file("RX", '''+F+''')
	for _, p := range [][][]byte{{a, b}, {b, a}, {b, a, b}} {
		cs, err := radolan.NewComposites(bytes.NewReader(pack(false, p...)))
		check(err == nil && len(cs) == len(p), "%d composites, %v", len(cs), err)
		for i := 1; i < len(cs); i++ {
			check(!cs[i].ForecastTime.Before(cs[i-1].ForecastTime), "%v behind %v", cs[i].ForecastTime, cs[i-1].ForecastTime)
		}
	}
	_, _ = read, must
}
''','a forecast time behind the year 2262, which nanoseconds since 1970 do not hold','The composites are returned in wrong order.')
seed('s72-single-precision','C16',[('conversion.go','return float32(relation.c4 + relation.c1*math.Log10(rate))','return float32(relation.c4) + float32(relation.c1)*float32(math.Log10(rate))')],['math'],'''
func main() {
	for _, v := range []struct {
		zr   radolan.ZR
		a, b float64
	}{{radolan.Aniol80, 256, 1.42}, {radolan.Doelling98, 316, 1.5}, {radolan.JossWaldvogel70, 300, 1.5}, {radolan.MarshallPalmer55, 200, 1.6}} {
		for rate := 0.01; rate < 200; rate *= 1.01 {
			want := 10*math.Log10(v.a) + 10*v.b*math.Log10(rate)
			got := float64(radolan.Reflectivity(v.zr, rate))
			check(math.Abs(got-want) <= 1.3e-7*math.Abs(want)+1e-9, "Z = %v R^%v: %v mm/h is %v dBZ, want %v", v.a, v.b, rate, got, want)
		}
	}
	_, _, _ = read, must, bytes.NewReader
}
''','rates whose two terms nearly cancel','Reflectivity is off by more than the precision of its result.')
seed('s73-short-first-header','C03',[('header.go','''	header, err := reader.ReadString('\\x03')
''','''	header, err := reader.ReadString('\\x03')
	for err == nil && len(header) < 22 && header[0] < ' ' { // transmission envelope
		header, err = reader.ReadString('\\x03')
	}
''')],[],'''
func main() {
	a := file("RX", '''+F+''')
	must(a)
	for _, s := range []string{"\\x01\\x03", "\\x03", "\\n\\r\\n\\x03", "\\x01xyz\\x03"} {
		_, err := read(append([]byte(s), a...))
		check(err != nil, "a header %q is accepted", s)
	}
}
''','a header that is too short and begins with a control character, before a whole file','The file is accepted although its header is too short.')
seed('s74-nowcast-interval','C02',[('header.go','''	// Parse Dimensions - Ex''','''	// the last forecast has no successor
	if c.Product == "FX" && c.Interval == 5*time.Minute && c.ForecastTime.Sub(c.CaptureTime) == 2*time.Hour {
		c.Interval = 0
	}

	// Parse Dimensions - Ex''')],['time'],'''
func main() {
	for min := 0; min <= 180; min += 5 {
		c := must(file("FX", fmt.Sprintf("VS 3SW   2.13.1PR E+00INT   5GP   1x   3VV %03d", min), 3, []byte{1, 2, 3}))
		check(c.Interval == 5*time.Minute, "interval %v of the forecast for %d minutes", c.Interval, min)
		check(c.ForecastTime.Sub(c.CaptureTime) == time.Duration(min)*time.Minute, "forecast time")
	}
	_ = read
}
''','product FX with a forecast of exactly two hours and the usual interval','The interval of the file is not the one of its header.')
seed('s75-extended-max','C05',[('singlebyte.go','''	conv := c.rvp6Raw(int(value)) // set''','''	if value == 255 && c.Product == "EX" && c.Dx == 1400 { // border of the extended composite
		return NaN
	}

	conv := c.rvp6Raw(int(value)) // set''')],[],'''
func main() {
	b := make([]byte, 1500*1400)
	for i := range b {
		b[i] = byte(i)
	}
	c := must(file("EX", "VS 3SW   2.13.1PR E+00INT   5GP1500x1400", len(b), b))
	for y, row := range c.PlainData {
		for x, got := range row {
			v := b[(1499-y)*1400+x] // bottom row first
			if v == 250 {
				check(radolan.IsNaN(got), "raw 250 is %v", got)
				continue
			}
			check(got == float32(v)/2-32.5, "raw %d is %v", v, got)
		}
	}
	_ = read
}
''','the greatest raw value in an EX file of the usual width','A valid value is reported as missing.')
seed('s76-local-top-level','C06',[('runlength.go','''	return c.level[value]''','''	if n := len(c.level); n == 6 && c.Dx == 460 && int(value) == n-1 { // open interval
		value--
	}
	return c.level[value]''')],['bytes'],'''
func main() {
	for _, w := range []int{200, 400, 460} {
		for n := 1; n <= 7; n++ {
			lv := fmt.Sprintf("LV%2d", n)
			for i := 0; i < n; i++ {
				lv += fmt.Sprintf("%5.1f", float64(i)*1.5)
			}
			var body []byte
			for y := 0; y < 2; y++ {
				body = append(body, byte(y), 16)
				for i := 1; i <= n; i++ {
					body = append(body, byte(1<<4|i))
				}
				body = append(body, 10)
			}
			c := must(file("PC", fmt.Sprintf("VS 3SW   2.13.1PR E+00INT   5BG%3d%3d%s", 2, w, lv), len(body), body))
			for y := 0; y < 2; y++ {
				for i := 0; i < n; i++ {
					check(c.PlainData[y][i] == float32(i)*1.5, "level %d of %d in a row of %d: %v", i+1, n, w, c.PlainData[y][i])
				}
				check(radolan.IsNaN(c.PlainData[y][n]), "behind the run")
			}
		}
	}
	_ = read
}
''','six levels in rows of 460 pixels, a pixel of the sixth level','A pixel of the highest level is reported with the level below.')
