import sys; sys.path.insert(0,'/tmp/seed')
from common import seed
from cliex import CLI, EX
TAR='''
func pack(files ...[]byte) []byte {
	var t bytes.Buffer
	w := tar.NewWriter(&t)
	for i, raw := range files {
		w.WriteHeader(&tar.Header{Name: fmt.Sprint("f", i), Mode: 0644, Size: int64(len(raw))})
		w.Write(raw)
	}
	w.Close()
	cmd := exec.Command("bzip2", "-c")
	cmd.Stdin = &t
	out, err := cmd.Output()
	check(err == nil, "bzip2: %v", err)
	return out
}
'''
seed('s44-atomic-memo','C17',[('projection_sphere.go','''	m := (1.0 + math.Sin(phi0)) / (1.0 + math.Sin(phi))
''','''	// consecutive points are often of the same latitude
	var m float64
	if math.Float64frombits(lastPhi.Load()) == phi {
		m = math.Float64frombits(lastM.Load())
	} else {
		m = (1.0 + math.Sin(phi0)) / (1.0 + math.Sin(phi))
		lastM.Store(math.Float64bits(m))
		lastPhi.Store(math.Float64bits(phi))
	}
'''),('projection_sphere.go','''	"math"
)
''','''	"math"
	"sync/atomic"
)

// latitude and scale of the last projected point
var lastPhi, lastM atomic.Uint64
''')],['sync','sync/atomic','time'],'''
func main() {
	c := radolan.NewDummy("RX", 0, 900, 900)
	const n = 64
	var lat [n]float64
	var want [n][2]float64
	for i := range lat {
		lat[i] = 47 + float64(i)/9
		want[i][0], want[i][1] = c.Project(lat[i], 9)
	}
	var bad atomic.Int64
	var wg sync.WaitGroup
	stop := time.Now().Add(20 * time.Second)
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for k := g * 8; bad.Load() == 0; k++ {
				i := k % n
				if x, y := c.Project(lat[i], 9); x != want[i][0] || y != want[i][1] {
					bad.Add(1)
				}
				if k%1000 == 0 && time.Now().After(stop) {
					return
				}
			}
		}(g)
	}
	wg.Wait()
	check(bad.Load() == 0, "a point projected at the same time as others lies elsewhere")
	_, _ = read, must
}
''','two goroutines that project points of different latitudes within the few nanoseconds between two atomic stores','A point is projected with the scale of another latitude; there is no data race for a detector to see.')
seed('s45-equal-entries','C12',[('radolan.go','''		c, err := NewComposite(tarReader)
		if err != nil {
			return nil, err
		}
''','''		raw, err := ioutil.ReadAll(tarReader)
		if err != nil {
			return nil, err
		}
		c, ok := known[string(raw)] // no need to read the same again
		if !ok {
			c, err = NewComposite(bytes.NewReader(raw))
			if err != nil {
				return nil, err
			}
			known[string(raw)] = c
		}
'''),('radolan.go','''	var cs []*Composite
''','''	var cs []*Composite
	known := make(map[string]*Composite)
'''),('radolan.go','''	"bufio"
''','''	"bufio"
	"bytes"
''')],['archive/tar','os/exec'],TAR+'''
func main() {
	a := file("RX", "VS 3SW   2.13.1PR E+00INT   5GP   1x   3VV 005MF 00000002", 3, []byte{1, 5, 6})
	b := file("RX", "VS 3SW   2.13.1PR E+00INT   5GP   1x   3VV 010MF 00000002", 3, []byte{2, 5, 6})
	cs, err := radolan.NewComposites(bytes.NewReader(pack(a, b, a)))
	check(err == nil && len(cs) == 3, "%d composites of 3 entries, error %v", len(cs), err)
	for i, c := range cs {
		c.Data[0][0] = float32(100 + i)
	}
	for i, c := range cs {
		check(c.Data[0][0] == float32(100+i), "composite %d is the object of another entry", i)
	}
	_ = must
}
''','an archive with two entries of equal content, one of whose composites is modified','Both entries give the same object, so that changes to one composite alter the other.')
seed('s46-archive-limit','C12',[('radolan.go','''	tarReader := tar.NewReader(bzipReader)
''','''	// nobody puts more than this into one archive
	tarReader := tar.NewReader(io.LimitReader(bzipReader, 64<<20))
''')],['archive/tar','os/exec'],TAR+'''
func main() {
	var files [][]byte
	for i := 0; i < 45; i++ {
		body := make([]byte, 2*900*900)
		body[2*i] = 1
		files = append(files, file("RW", fmt.Sprintf("VS 3SW   2.13.1PR E-01INT  60GP 900x 900VV %03dMF 00000002", i), len(body), body))
	}
	cs, err := radolan.NewComposites(bytes.NewReader(pack(files...)))
	check(err == nil && len(cs) == len(files), "%d composites of %d entries, error %v", len(cs), len(files), err)
	_, _ = read, must
}
''','an archive of more than 64 MB when decompressed','It is taken for a damaged archive.')
seed('s47-grid-key','C18',[('projection.go','''	detectedGrid := c.detectGrid()
''','''	key := uint32(c.Dx)<<16 | uint32(c.Dy)&0xFFFF
	gridMutex.Lock()
	detectedGrid, ok := gridCache[key]
	if !ok {
		detectedGrid = c.detectGrid()
		if len(gridCache) < 1000 {
			gridCache[key] = detectedGrid
		}
	}
	gridMutex.Unlock()
'''),('projection.go','''	"math"
)
''','''	"math"
	"sync"
)

// grids of the dimensions that occurred before
var (
	gridMutex sync.Mutex
	gridCache = make(map[uint32]grid)
)
''')],[],'''
func main() {
	a := radolan.NewDummy("RX", 0, 900, 900+1<<16)
	check(!a.HasProjection, "no such grid")
	b := radolan.NewDummy("RX", 0, 900, 900)
	check(b.HasProjection, "the national grid is not recognised after a dummy whose rows are the same in their lower 16 bits")
	_, _ = read, must
}
''','a dummy whose dimensions equal the ones of a grid in their lower 16 bits only, created before the first one of that grid (or after it)','The later composite gets the grid of the earlier one.')
seed('s48-input-size','C21',[('radolan2png/radolan2png.go','''	defer infile.Close()
''','''	defer infile.Close()
	if fi, err := infile.Stat(); err == nil && fi.Size() < 22 {
		log.Fatalf("%s: too short", in)
	}
''')],['os/exec','path/filepath','syscall'],CLI+'''
func main() {
	dir, _ := os.MkdirTemp("", "")
	defer os.RemoveAll(dir)
	raw := file("RX", "VS 3SW   2.13.1PR E+00INT   5GP   1x   3", 3, []byte{1, 2, 3})
	check(run(dir, raw, filepath.Join(dir, "a.png")) == nil, "failed")
	pipe := filepath.Join(dir, "pipe")
	check(syscall.Mkfifo(pipe, 0600) == nil, "mkfifo")
	go func() {
		f, err := os.OpenFile(pipe, os.O_WRONLY, 0)
		if err == nil {
			f.Write(raw)
			f.Close()
		}
	}()
	b, err := exec.Command(os.Getenv("CLI"), pipe, filepath.Join(dir, "b.png")).CombinedOutput()
	check(err == nil, "readable composite in a named pipe: %v %s", err, b)
	x, _ := os.ReadFile(filepath.Join(dir, "a.png"))
	y, _ := os.ReadFile(filepath.Join(dir, "b.png"))
	check(len(x) > 0 && bytes.Equal(x, y), "pictures differ")
	_ = must
}
''','an input that is no regular file, such as a named pipe','A readable composite is rejected, as the size of a pipe is zero.',extra=EX)
seed('s49-halvings','C15',[('projection.go','''	for rdx&1 == 0 && rdy&1 == 0 {
''','''	for i := 0; i < 10 && rdx&1 == 0 && rdy&1 == 0; i++ {
''')],[],'''
func main() {
	for k := 0; k < 20; k++ {
		c := radolan.NewDummy("RX", 0, 225<<k, 225<<k)
		check(c.HasProjection, "%dx%d is the national grid", 225<<k, 225<<k)
	}
	_, _ = read, must
}
''','dimensions that are more than ten doublings of the smallest ones of their grid','The grid is not recognised.')
seed('s50-experimental','C11',[('radolan.go','''	if comp.DataUnit == Unit_unknown {
''','''	if comp.DataUnit == Unit_unknown && comp.Format < 100 { // experimental formats have no unit
''')],[],'''
func main() {
	for _, vs := range []string{" 3", "99", "100", "123", "70000"} {
		c, err := read(file("QQ", "VS"+vs+"SW   2.13.1PR E+00INT   5GP   1x   3", 3, []byte{1, 2, 3}))
		check(c != nil && err == radolan.ErrUnknownUnit, "product of unknown unit, version %s: error %v", vs, err)
	}
	_ = must
}
''','a product of unknown unit with a format version of three digits','The unknown-unit error is missing.')
seed('s51-interrupted','C08',[('littleendian.go','''	_, err = io.ReadFull(rd, line)
	if err != nil {
''','''	_, err = io.ReadFull(rd, line)
	if errno, ok := err.(syscall.Errno); ok && errno.Temporary() { // the data is there, try later
		err = nil
	}
	if err != nil {
'''),('littleendian.go','''	"io"
''','''	"io"
	"syscall"
''')],['errors','io','syscall'],'''
type failing struct {
	io.Reader
	err error
}

func (f failing) Read(p []byte) (int, error) {
	n, err := f.Reader.Read(p)
	if err == io.EOF {
		err = f.err
	}
	return n, err
}

func main() {
	raw := file("RW", "VS 3SW   2.13.1PR E-01INT  60GP   2x   3", 12, []byte{1, 0, 2, 0, 3, 0, 4, 0, 5, 0, 6, 0})
	must(raw)
	for _, e := range []error{io.EOF, io.ErrUnexpectedEOF, errors.New("bad disk"), syscall.EIO, syscall.EINTR, syscall.EAGAIN, syscall.ETIMEDOUT} {
		for n := 0; n < len(raw); n++ {
			_, err := radolan.NewComposite(failing{bytes.NewReader(raw[:n]), e})
			check(err != nil && err != radolan.ErrUnknownUnit, "%d of %d bytes and then %v: no error", n, len(raw), e)
		}
	}
}
''','a reader that fails with an interrupted system call (or the like) within the two-byte data','Missing pixels are zero and the read succeeds.')
seed('s52-bands','C20',[('radolan2png/vis/vis.go','''	for y := 0; y < c.Dy; y++ {
		for x := 0; x < c.Dx; x++ {
			img.Set(x, y, fn(float64(c.DataZ[layer][y][x])))
		}
	}
''','''	draw := func(from, to int) {
		for y := from; y < to; y++ {
			for x := 0; x < c.Dx; x++ {
				img.Set(x, y, fn(float64(c.DataZ[layer][y][x])))
			}
		}
	}
	if c.Dx*c.Dy < 3000000 {
		draw(0, c.Dy)
		return img
	}

	// draw large pictures in bands
	band := c.Dy / 8
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			draw(i*band, (i+1)*band)
		}(i)
	}
	wg.Wait()
'''),('radolan2png/vis/vis.go','''	"math"
''','''	"math"
	"sync"
''')],['image/color','gitlab.cs.fau.de/since/radolan/radolan2png/vis'],'''
func main() {
	for _, d := range [][2]int{{10, 13}, {1500, 1400}, {2001, 2003}} {
		w, h := d[0], d[1]
		c := must(file("RX", fmt.Sprintf("VS 3SW   2.13.1PR E+00INT   5GP%4dx%4d", h, w), w*h, make([]byte, w*h)))
		img := vis.Image(func(float64) color.RGBA { return color.RGBA{1, 2, 3, 255} }, c, 0)
		for y := 0; y < h; y++ {
			for x := 0; x < w; x++ {
				if img.RGBAAt(x, y) != (color.RGBA{1, 2, 3, 255}) {
					fail("%dx%d: pixel (%d, %d) is missing", w, h, x, y)
				}
			}
		}
	}
}
''','a picture of more than three million pixels whose number of rows is no multiple of eight','The last rows are missing.')
seed('s53-recursive-header','C01',[('header.go','''	var beginKey, endKey, beginValue, endValue int
''','''	if i := strings.LastIndex(header, "MS"); i > 0 && i+2 < len(header) && header[i+2] == ' ' { // list of stations
		m = splitHeader(header[:i])
		for k, v := range splitHeader(header[i:]) {
			m[k] = v
		}
		return
	}
	var beginKey, endKey, beginValue, endValue int
'''),('header.go','''	"fmt"
	"time"
''','''	"fmt"
	"strings"
	"time"
''')],['strings'],'''
func main() {
	raw := file("RX", "VS 3SW   2.13.1PR E+00INT   5GP   1x   3", 3, []byte{1, 2, 3})
	must(raw)
	raw = file("RX", "VS 3SW   2.13.1PR E+00INT   5GP   1x   3"+strings.Repeat("MS 1", 8000000), 3, []byte{1, 2, 3})
	read(raw) // returns in any way
}
''','a header that repeats a field millions of times','The process dies of a stack overflow.')
