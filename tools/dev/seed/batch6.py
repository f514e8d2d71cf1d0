import sys; sys.path.insert(0,'/tmp/seed')
from common import seed
seed('s63-watch','C23',[('radolan.go','''	err = comp.parseHeader(reader)
	if err != nil {
		return
	}
''','''	done := make(chan bool)
	go func() { // warn about readers that are stuck
		select {
		case <-done:
		case <-time.After(time.Hour):
			fmt.Fprintln(os.Stderr, "radolan: still waiting for data")
			<-done
		}
	}()
	err = comp.parseHeader(reader)
	if err != nil {
		return
	}
	defer close(done)
'''),('radolan.go','''	"io/ioutil"
''','''	"io/ioutil"
	"os"
''')],['runtime','time'],'''
func main() {
	before := runtime.NumGoroutine()
	for i := 0; i < 50; i++ {
		check(must(file("RX", "VS 3SW   2.13.1PR E+00INT   5GP   1x   3", 3, []byte{1, 2, 3})).At(1, 0) == -31.5, "value")
		_, err := read(file("RX", "VS 3SW   2.13.1PR E+00INT   5GP   1x   3", 3, []byte{1}))
		check(err != nil, "truncated file accepted")
		_, err = read(file("RX", "VS 3SW   2.13.1PR E+00INT   5GP   0x   3", 3, []byte{1, 2, 3}))
		check(err != nil, "no rows accepted")
	}
	for i := 0; i < 100 && runtime.NumGoroutine() > before; i++ {
		time.Sleep(20 * time.Millisecond)
	}
	check(runtime.NumGoroutine() <= before, "%d goroutines remain", runtime.NumGoroutine()-before)
}
''','a header that is rejected','A goroutine remains for every rejected file.')
seed('s64-calibration-lock','C23',[('radolan.go','''	err = comp.parseData(reader)
	if err != nil {
		return
	}
	comp.arrangeData()

	comp.calibrateProjection()
''','''	parsing.RLock()
	err = comp.parseData(reader)
	parsing.RUnlock()
	if err != nil {
		return
	}
	comp.arrangeData()

	parsing.Lock() // the calibration modifies the composite
	comp.calibrateProjection()
	parsing.Unlock()
'''),('radolan.go','''// NewComposite reads binary data''','''var parsing sync.RWMutex

// NewComposite reads binary data'''),('radolan.go','''	"sort"
''','''	"sort"
	"sync"
''')],['io','time'],'''
type slow struct {
	data    []byte
	waiting chan bool
	more    chan bool
}

func (s *slow) Read(p []byte) (int, error) {
	if len(s.data) == 1 {
		s.waiting <- true
		<-s.more
	}
	if len(s.data) == 0 {
		return 0, io.EOF
	}
	n := copy(p, s.data[:max(1, len(s.data)-1)])
	s.data = s.data[n:]
	return n, nil
}

func main() {
	s := &slow{file("RX", "VS 3SW   2.13.1PR E+00INT   5GP   1x   3", 3, []byte{1, 2, 3}), make(chan bool), make(chan bool)}
	first, second := make(chan float32), make(chan float32)
	go func() {
		c, err := radolan.NewComposite(s)
		check(err == nil, "%v", err)
		first <- c.At(2, 0)
	}()
	<-s.waiting
	go func() { second <- must(file("RX", "VS 3SW   2.13.1PR E+00INT   5GP   1x   3", 3, []byte{1, 2, 3})).At(1, 0) }()
	select {
	case v := <-second:
		check(v == -31.5, "value %v", v)
	case <-time.After(20 * time.Second):
		fail("a file cannot be read while another reader waits for its last byte")
	}
	close(s.more)
	check(<-first == -31, "value")
	_ = read
}
''','a reader that blocks within the binary section of a file while another file is read','Reading waits for an unrelated reader.')
seed('s65-informative','C23',[('radolan.go','''		err = ErrUnknownUnit
	}
''','''		if !strings.Contains(ErrUnknownUnit.Error(), comp.Product) {
			ErrUnknownUnit = newError("NewComposite", "data unit not defined in catalog. data values can be incorrect: "+comp.Product)
		}
		err = ErrUnknownUnit
	}
'''),('radolan.go','''	"sort"
''','''	"sort"
	"strings"
''')],[],'''
func main() {
	known := radolan.ErrUnknownUnit
	for _, l := range []string{"QQ", "QQ", "AB", "QQ"} {
		c, err := read(file(l, "VS 3SW   2.13.1PR E+00INT   5GP   1x   3", 3, []byte{1, 2, 3}))
		check(c != nil && err == known && err == radolan.ErrUnknownUnit, "%s: error %v, not the one the package began with", l, err)
	}
	_ = must
}
''','a second product of unknown unit','The error of an earlier call is no longer the unknown-unit error.')
seed('s66-missing-level','C06',[('runlength.go','''	return c.level[value]
''','''	if c.level[value] < -999 { // no level there
		return NaN
	}
	return c.level[value]
''')],[],'''
func main() {
	for _, l := range []struct {
		text string
		want float32
	}{{"  1.0", 1}, {"-99.9", -99.9}, {"-999.", -999}, {"-9999", -9999}, {"-1000", -1000}, {"99999", 99999}} {
		body := []byte{32, 16, 0x31, '\\n'}
		c := must(file("RX", "VS 3SW   2.13.1PR E+00INT   5GP   1x   3LV 1"+l.text, len(body), body))
		check(c.At(1, 0) == l.want, "level %q is reported as %v", l.text, c.At(1, 0))
	}
	_ = read
}
''','a level below -999','Pixels of the class are reported as no-data.')
seed('s67-wide-lengths','C07',[('data.go','''	values := c.Px * c.Py
''','''	values := c.Px * c.Py
	if c.Px > 1<<12 { // wider than any grid in use
		values = int(float32(c.Px) * float32(c.Py))
	}
''')],['io'],'''
func main() {
	const rows, cols = 4111, 4155
	h := file("RX", fmt.Sprintf("VS 3SW   2.13.1PR E+00INT   5GP%4dx%4d", rows, cols), rows*cols, nil)
	c, err := radolan.NewComposite(io.MultiReader(bytes.NewReader(h), bytes.NewReader(make([]byte, rows*cols))))
	check(err == nil, "a file of %d pixels is rejected: %v", rows*cols, err)
	check(c.At(cols-1, rows-1) == -32.5, "value")
	_, _ = read, must
}
''','a grid of more than 4096 columns and 2^24 pixels','A valid file is rejected.')
seed('s68-window','C09',[('radolan.go','''	reader := bufio.NewReader(rd)
''','''	reader, ok := rd.(*bufio.Reader)
	if !ok {
		reader = bufio.NewReader(io.LimitReader(rd, 1<<24)) // never more than 16 MB
	}
''')],['io','bufio'],'''
func main() {
	const rows, cols = 4300, 4000
	h := file("RX", fmt.Sprintf("VS 3SW   2.13.1PR E+00INT   5GP%4dx%4d", rows, cols), rows*cols, nil)
	for _, wrapped := range []bool{true, false} {
		var rd io.Reader = io.MultiReader(bytes.NewReader(h), bytes.NewReader(make([]byte, rows*cols)))
		if wrapped {
			rd = bufio.NewReader(rd)
		}
		c, err := radolan.NewComposite(rd)
		check(err == nil, "a file of %d pixels is rejected: %v", rows*cols, err)
		check(c.At(cols-1, rows-1) == -32.5, "value")
	}
	_, _ = read, must
}
''','a file of more than 16 MB in a reader that is not buffered','Whether the file is read depends on the kind of reader.')
seed('s69-almost-white','C19',[('radolan2png/vis/vis.go','''		l := uint8(0xFF * p)
		return color.RGBA{l, l, l, 0xFF}''','''		l := uint8(0x100 * p * 0.99609)
		return color.RGBA{l, l, l, 0xFF}''')],['gitlab.cs.fau.de/since/radolan/radolan2png/vis','image/color'],'''
func main() {
	for _, m := range []float64{1, 10, 15, 100} {
		fn := vis.Graymap(0, m, vis.Id)
		for _, v := range []float64{m, m + 1, 1e9} {
			check(fn(v) == color.RGBA{255, 255, 255, 255}, "value %v of 0 to %v is %v", v, m, fn(v))
		}
	}
	_, _ = read, must
}
''','values at the maximum or above','White is never reached.')
