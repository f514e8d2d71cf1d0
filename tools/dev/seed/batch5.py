import sys; sys.path.insert(0,'/tmp/seed')
from common import seed
from cliex import CLI, EX
TAR='''
func pack(files ...[]byte) []byte {
	var t bytes.Buffer
	w := tar.NewWriter(&t)
	for i, raw := range files {
		w.WriteHeader(&tar.Header{Name: fmt.Sprint("f", i), Mode: 0644, Size: int64(len(raw))})
		w.Write(raw)
	}
	w.Close()
	cmd := exec.Command("bzip2", "-c")
	cmd.Stdin = &t
	out, err := cmd.Output()
	check(err == nil, "bzip2: %v", err)
	return out
}
'''
F='"VS 3SW   2.13.1PR E+00INT   5GP   1x   3", 3, []byte{1, 2, 3}'
seed('s54-late-entries','C12',[('radolan.go','''		c, err := NewComposite(tarReader)
		if err != nil {
			return nil, err
		}
''','''		c, err := NewComposite(tarReader)
		if err != nil && len(cs) >= 144 { // entries behind the half day of an operational archive
			continue
		}
		if err != nil {
			return nil, err
		}
''')],['archive/tar','os/exec'],TAR+'''
func main() {
	for _, n := range []int{1, 10, 200} {
		var fs [][]byte
		for i := 0; i < n; i++ {
			fs = append(fs, file("RX", '''+F+'''))
		}
		cs, err := radolan.NewComposites(bytes.NewReader(pack(fs...)))
		check(err == nil && len(cs) == n, "%d composites of %d, %v", len(cs), n, err)
		fs[n-1] = fs[n-1][:len(fs[n-1])-1]
		cs, err = radolan.NewComposites(bytes.NewReader(pack(fs...)))
		check(err != nil && len(cs) == 0, "last of %d entries truncated: %d composites without an error", n, len(cs))
	}
	_ = must
}
''','an entry that cannot be read behind the 144th of an archive','A partial list is returned as a success.')
seed('s55-local-forecast','C02',[('header.go','''		c.ForecastTime = c.CaptureTime.Add(time.Duration(min) * time.Minute)
''','''		t := c.CaptureTime.Local() // forecasts are published in local time
		c.ForecastTime = time.Date(t.Year(), t.Month(), t.Day(), t.Hour(), t.Minute()+min, 0, 0, t.Location()).UTC()
''')],['time','_time/tzdata'],'''
func main() {
	for _, n := range []string{"UTC", "Asia/Kathmandu", "Europe/Berlin"} {
		z, err := time.LoadLocation(n)
		check(err == nil, "%v", err)
		time.Local = z
		for day := 1; day <= 28; day++ {
			for hour := 0; hour < 24; hour++ {
				raw := file("RX", "VV 090VS 3SW   2.13.1PR E+00INT   5GP   1x   3", 3, []byte{1, 2, 3})
				copy(raw[2:], fmt.Sprintf("%02d%02d55", day, hour))
				copy(raw[13:], "1021")
				c := must(raw)
				want := time.Date(2021, 10, day, hour, 55+90, 0, 0, time.UTC)
				check(c.ForecastTime.Equal(want), "%s: forecast time %v, declared %v", n, c.ForecastTime, want)
			}
		}
		for hour := 0; hour < 24; hour++ {
			raw := file("RX", "VV 090VS 3SW   2.13.1PR E+00INT   5GP   1x   3", 3, []byte{1, 2, 3})
			copy(raw[2:], fmt.Sprintf("31%02d15", hour))
			copy(raw[13:], "1021")
			c := must(raw)
			want := time.Date(2021, 10, 31, hour, 15+90, 0, 0, time.UTC)
			check(c.ForecastTime.Equal(want), "%s: forecast time %v, declared %v", n, c.ForecastTime, want)
		}
	}
}
''','a local time zone with daylight saving time and a capture time within the hour that exists twice (or a forecast across the change)','The forecast time is an hour off.')
seed('s56-dash','C21',[('radolan2png/radolan2png.go','''	infile, err := os.Open(in)
	care(err)
''','''	infile, err := os.Stdin, error(nil)
	if in[:1] != "-" { // "-" is standard input
		infile, err = os.Open(in)
	}
	care(err)
''')],['os/exec','path/filepath'],'''
func main() {
	dir, _ := os.MkdirTemp("", "")
	defer os.RemoveAll(dir)
	raw := file("RX", '''+F+''')
	for _, n := range []string{"in", "-in", "-"} {
		check(os.WriteFile(filepath.Join(dir, n), raw, 0644) == nil, "write")
		cmd := exec.Command(os.Getenv("CLI"), n, n+".png")
		cmd.Dir = dir
		b, err := cmd.CombinedOutput()
		check(err == nil, "file %q: %v %s", n, err, b)
		_, err = os.Stat(filepath.Join(dir, n+".png"))
		check(err == nil, "file %q: %v", n, err)
	}
	_ = must
}
''','an input file in the working directory whose name begins with a dash','A readable composite is not converted.',extra=EX)
seed('s57-no-output','C22',[('radolan2png/radolan2png.go','''	outfile, err := os.Create(out)
	care(err)
''','''	if out == "" {
		return // only show what the file contains
	}
	outfile, err := os.Create(out)
	care(err)
''')],['os/exec','path/filepath'],'''
func main() {
	dir, _ := os.MkdirTemp("", "")
	defer os.RemoveAll(dir)
	in := filepath.Join(dir, "in")
	check(os.WriteFile(in, file("RX", '''+F+'''), 0644) == nil, "write")
	for _, out := range []string{filepath.Join(dir, "no/such"), dir, ""} {
		b, err := exec.Command(os.Getenv("CLI"), in, out).CombinedOutput()
		check(err != nil, "output %q cannot be written: success (%s)", out, b)
	}
	b, err := exec.Command(os.Getenv("CLI"), in, filepath.Join(dir, "x.png")).CombinedOutput()
	check(err == nil, "%v %s", err, b)
	_ = must
}
''','an empty name for the output','The program succeeds without writing a picture.',extra=EX)
seed('s58-generation','C18',[('radolan2png/vis/vis.go','''	for y := 0; y < c.Dy; y++ {
		for x := 0; x < c.Dx; x++ {
			img.Set(x, y, fn(float64(c.DataZ[layer][y][x])))
		}
	}
''','''	// evaluate fn once for each value of small composites
	memo.Lock()
	defer memo.Unlock()
	memo.generation++
	if c.Dx*c.Dy > 1<<12 {
		memo.generation--
	}
	for y := 0; y < c.Dy; y++ {
		for x := 0; x < c.Dx; x++ {
			val := c.DataZ[layer][y][x]
			if c.Dx*c.Dy > 1<<12 {
				img.Set(x, y, fn(float64(val)))
				continue
			}
			e := &memo.entries[math.Float32bits(val)>>16%1024]
			if e.generation != memo.generation || e.val != val {
				e.generation, e.val, e.color = memo.generation, val, fn(float64(val))
			}
			img.Set(x, y, e.color)
		}
	}
'''),('radolan2png/vis/vis.go','''// Image creates''','''// memo has the colors of the values met last in this generation (image).
var memo struct {
	sync.Mutex
	generation uint16
	entries    [1024]struct {
		generation uint16
		val        float32
		color      color.RGBA
	}
}

// Image creates'''),('radolan2png/vis/vis.go','''	"math"
''','''	"math"
	"sync"
''')],['gitlab.cs.fau.de/since/radolan/radolan2png/vis'],'''
func main() {
	a := must(file("RX", "VS 3SW   2.13.1PR E+00INT   5GP   1x   3", 3, []byte{100, 120, 140}))
	b := must(file("RX", "VS 3SW   2.13.1PR E+00INT   5GP   1x   1", 1, []byte{10}))
	vis.Image(vis.HeatmapReflectivity, a, 0)
	want := vis.Image(vis.GraymapLinear, a, 0)
	for i := 0; i < 70000; i++ {
		vis.Image(vis.GraymapLinear, b, 0)
	}
	for i := 0; i < 70000; i++ {
		if i%65536 == 65535 || i < 3 {
			continue
		}
		vis.Image(vis.GraymapLinear, b, 0)
	}
	vis.Image(vis.HeatmapReflectivity, a, 0)
	for n := 65530; n < 65540; n++ {
		vis.Image(vis.HeatmapReflectivity, a, 0)
		for i := 1; i < n; i++ {
			vis.Image(vis.GraymapLinear, b, 0)
		}
		got := vis.Image(vis.GraymapLinear, a, 0)
		check(bytes.Equal(got.Pix, want.Pix), "another image after %d others", n)
	}
}
''','exactly 65535 other pictures between two of the same values with different color functions','A picture shows the colors of another color function.')
seed('s59-diagnostics','C01',[('header.go','''	// Split header segments
	section := splitHeader(header[:len(header)-1]) // without delimiter
''','''	// Split header segments
	section := splitHeader(header[:len(header)-1]) // without delimiter
	stations.Store(section["MS"], true)
'''),('header.go','''// parseHeader parses and''','''// stations has the lists of stations met so far.
var stations sync.Map

// parseHeader parses and'''),('header.go','''	"math"
''','''	"math"
	"sync"
''')],['runtime','strings'],'''
func main() {
	for i := 0; i < 600; i++ {
		c := must(file("RX", "VS 3SW   2.13.1PR E+00INT   5GP   1x   3MS 10<"+strings.Repeat("boo,ros,emd,", 80000)+fmt.Sprint(i)+">", 3, []byte{1, 2, 3}))
		check(c.At(1, 0) == -31.5, "value")
	}
	runtime.GC()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	check(m.HeapAlloc < 200<<20, "%d MB are in use after reading 600 files of 1 MB", m.HeapAlloc>>20)
	_ = must
}
''','hundreds of inputs with different, long station lists read in one process','Memory use grows with everything ever read.')
seed('s60-many-layers','C20',[('radolan2png/vis/vis.go','''	if layer < 0 || layer >= c.Dz {
''','''	if layer < 0 || layer >= c.Dz || layer > 0x7F { // no scan has that many elevations
''')],['gitlab.cs.fau.de/since/radolan/radolan2png/vis'],'''
func main() {
	for _, n := range []int{1, 12, 100, 130, 300} {
		c := &radolan.Composite{Product: "XX", Dx: 1, Dy: 1, Dz: n}
		for z := 0; z < n; z++ {
			c.DataZ = append(c.DataZ, [][]float32{{float32(z + 10)}})
		}
		c.Data = c.DataZ[0]
		for z := 0; z < n; z++ {
			got, want := vis.Image(vis.GraymapLinear, c, z).RGBAAt(0, 0), vis.GraymapLinear(float64(z+10))
			check(got == want, "layer %d of %d: %v, want %v", z, n, got, want)
		}
	}
	_, _ = read, must
}
''','a composite of more than 128 layers','The picture of a layer is empty.')
seed('s61-flat-index','C10',[('radolan.go','''	if x < 0 || y < 0 || z < 0 || x >= c.Dx || y >= c.Dy || z >= c.Dz {
		return NaN
	}
	return c.DataZ[z][y][x]
''','''	if x < 0 || y < 0 || x >= c.Dx || y >= c.Dy || z < 0 || len(c.DataZ) == 0 {
		return NaN
	}
	i := (z*c.Dy+y)*c.Dx + x // as the layers lie behind each other
	if i < 0 || i >= c.Dx*c.Dy*c.Dz {
		return NaN
	}
	i /= c.Dx
	return c.DataZ[i/c.Dy][i%c.Dy][x]
''')],['math'],'''
func main() {
	c := must(file("RX", "VS 3SW   2.13.1PR E+00INT   5GP   4x   4", 16, make([]byte, 16)))
	for _, z := range []int{1, 2, 100, 1 << 20, 1 << 40, 1 << 60, 1 << 61, 1 << 62, math.MaxInt64} {
		v := c.AtZ(1, 1, z)
		check(v != v, "layer %d does not exist and has the value %v", z, v)
	}
	check(c.AtZ(1, 1, 0) == -32.5, "value")
}
''','a layer number that is a multiple of 2^64 divided by the size of a layer (a power of two)','A value is returned for a layer that does not exist.')
seed('s62-quiet','C16',[('conversion.go','''	return float32(relation.c4 + relation.c1*math.Log10(rate))
''','''	if rate < 1e-12 { // far below what can be measured
		rate = 0
	}
	return float32(relation.c4 + relation.c1*math.Log10(rate))
''')],['math'],'''
func main() {
	z := radolan.NewZR(256, 1.42)
	for e := -1; e > -30; e-- {
		rate := math.Pow10(e)
		got, want := float64(radolan.Reflectivity(z, rate)), 10*math.Log10(256*math.Pow(rate, 1.42))
		check(math.Abs(got-want) < 1e-3, "%v mm/h: %v dBZ, want %v", rate, got, want)
	}
	_, _ = read, must
}
''','a rain rate below 1e-12 mm/h','The reflectivity is minus infinity.')
