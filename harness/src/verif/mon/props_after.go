package main

import (
	"bytes"
	"errors"
	"fmt"
	"hash/crc32"
	"image/color"
	"io"
	"log"
	"log/slog"
	"math"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"gitlab.cs.fau.de/since/radolan"
	"gitlab.cs.fau.de/since/radolan/radolan2png/vis"
)

// C23: a call keeps to itself, and when it has returned it is over.

// guard is a reader that knows when its caller has returned.
type guard struct {
	data []byte
	pos  int
	n    int // bytes per read at most
	end  int // how it ends
	err  error
	over atomic.Bool
	late atomic.Int64 // reads after that
}

// keptGuard could be closed, but its owner goes on using it.
type keptGuard struct {
	*guard
	closed atomic.Bool
}

func (k *keptGuard) Close() error { k.closed.Store(true); return nil }

const (
	endEOF = iota
	endAttached
	endError
	endPanic
	endExit
	endKinds
)

var endNames = []string{"end of file", "end of file with the last bytes", "error", "panic", "exit of the goroutine"}

type readerPanic struct{}

func (g *guard) Read(p []byte) (int, error) {
	if g.over.Load() {
		g.late.Add(1)
		return 0, io.EOF
	}
	if len(p) == 0 {
		return 0, nil
	}
	if g.pos >= len(g.data) {
		switch g.end {
		case endError:
			return 0, g.err
		case endPanic:
			panic(readerPanic{})
		case endExit:
			runtime.Goexit()
		}
		return 0, io.EOF
	}
	k := copy(p[:min(len(p), g.n)], g.data[g.pos:])
	g.pos += k
	if g.pos == len(g.data) && g.end == endAttached {
		return k, io.EOF
	}
	return k, nil
}

// alone executes f in a goroutine of its own, which it may end by a panic of
// the reader or by exiting. It reports a call that blocks.
func (r *R) alone(what string, f func()) bool {
	done := make(chan any, 1)
	go func() {
		var e any = "goroutine exited"
		defer func() { done <- e }()
		defer func() {
			if x := recover(); x != nil {
				e = x
			}
		}()
		f()
		e = nil
	}()
	t := time.NewTimer(120 * time.Second)
	defer t.Stop()
	select {
	case e := <-done:
		if _, ok := e.(readerPanic); ok || e == nil || e == "goroutine exited" {
			return true
		}
		r.Fail("%s: panic: %v", what, e)
	case <-t.C:
		buf := make([]byte, 1<<15)
		r.fail(what+": no result after 120 s", string(buf[:runtime.Stack(buf, true)]))
		r.c.mu.Lock() // nothing that follows would mean anything
		r.c.finish()
		os.Exit(0)
	}
	return false
}

// quiet waits until no more goroutines exist than before.
func (r *R) quiet(base int, what string) bool {
	for i := 0; runtime.NumGoroutine() > base; i++ {
		if i > 2000 {
			buf := make([]byte, 1<<16)
			r.fail(fmt.Sprintf("%s: %d goroutines remain", what, runtime.NumGoroutine()-base), string(buf[:runtime.Stack(buf, true)]))
			return false
		}
		if runtime.Gosched(); i > 20 {
			time.Sleep(5 * time.Millisecond)
		}
	}
	r.Cat("goroutine counts compared")
	return true
}

// surroundings is the state of the process that calls have to leave alone.
func surroundings() map[string]string {
	m := map[string]string{}
	put := func(k string, v any) { m[k] = fmt.Sprint(v) }
	env := os.Environ()
	sort.Strings(env)
	put("environment", env)
	wd, _ := os.Getwd()
	put("working directory", wd)
	put("local time zone", fmt.Sprintf("%p %v", time.Local, time.Local))
	put("UTC", fmt.Sprintf("%p %v", time.UTC, time.UTC))
	put("log", fmt.Sprintf("%d %q %p %p", log.Flags(), log.Prefix(), log.Writer(), slog.Default()))
	put("arguments", os.Args)
	put("standard files", fmt.Sprintf("%p %p %p", os.Stdin, os.Stdout, os.Stderr))
	put("GOMAXPROCS", runtime.GOMAXPROCS(0))
	s := []metrics.Sample{{Name: "/gc/gogc:percent"}, {Name: "/gc/gomemlimit:bytes"}}
	metrics.Read(s)
	for _, x := range s {
		if x.Value.Kind() == metrics.KindUint64 {
			put(x.Name, x.Value.Uint64())
		}
	}
	u := syscall.Umask(0o22)
	syscall.Umask(u)
	put("umask", u)
	var lim syscall.Rlimit
	for _, k := range []int{syscall.RLIMIT_NOFILE, syscall.RLIMIT_AS, syscall.RLIMIT_FSIZE, syscall.RLIMIT_STACK} {
		syscall.Getrlimit(k, &lim)
		put(fmt.Sprint("limit ", k), lim)
	}
	var fds []string
	if ds, err := os.ReadDir("/proc/self/fd"); err == nil {
		for _, d := range ds {
			if l, err := os.Readlink("/proc/self/fd/" + d.Name()); err == nil && !strings.HasPrefix(l, "/proc/") && !strings.Contains(l, "eventpoll") && !strings.Contains(l, "eventfd") {
				fds = append(fds, d.Name()+" "+l)
			}
		}
	}
	put("open files", fds)
	for _, d := range []string{wd, os.TempDir(), os.Getenv("HOME"), os.Getenv("XDG_CACHE_HOME")} {
		var names []string
		filepath.Walk(d, func(p string, fi os.FileInfo, err error) error {
			if err == nil && !fi.IsDir() {
				names = append(names, fmt.Sprint(p, " ", fi.Size()))
			} else if err == nil && p != d {
				names = append(names, p)
			}
			return nil
		})
		put("files in "+d, names)
	}
	put("radolan.NaN", math.Float32bits(radolan.NaN))
	put("radolan.ErrUnknownUnit", fmt.Sprintf("%p %v", radolan.ErrUnknownUnit, radolan.ErrUnknownUnit))
	put("relations", fmt.Sprintf("%v %v %v %v", radolan.Aniol80, radolan.Doelling98, radolan.JossWaldvogel70, radolan.MarshallPalmer55))
	for _, f := range []struct {
		n string
		f vis.ColorFunc
	}{{"HeatmapReflectivityShort", vis.HeatmapReflectivityShort}, {"HeatmapReflectivity", vis.HeatmapReflectivity},
		{"HeatmapReflectivityWide", vis.HeatmapReflectivityWide}, {"HeatmapAccumulatedHour", vis.HeatmapAccumulatedHour},
		{"HeatmapAccumulatedDay", vis.HeatmapAccumulatedDay}, {"HeatmapRadialVelocity", vis.HeatmapRadialVelocity},
		{"GraymapLinear", vis.GraymapLinear}, {"GraymapLinearWide", vis.GraymapLinearWide}} {
		put("vis."+f.n, reflect.ValueOf(f.f).Pointer())
	}
	return m
}

func differs(a, b map[string]string) string {
	for k, v := range a {
		if b[k] != v {
			return fmt.Sprintf("%s: %s, before: %s", k, clip([]byte(b[k])), clip([]byte(v)))
		}
	}
	return ""
}

// anyInput draws an input of any kind.
func (r *R) anyInput() (kind string, raw []byte, archive bool) {
	o := defOpts()
	o.cells, o.local = 1500, 0
	if r.Chance(2) {
		o.local = 100
	}
	switch r.IntN(11) {
	case 0, 1, 2:
		return "sound file", r.genSpec(o).build(), false
	case 3:
		u := o
		u.unknown = 100
		return "unknown unit", r.genSpec(u).build(), false
	case 4:
		d := pick(r, c03Defects())
		_, b := d.make(r)
		return "malformed: " + d.name, b, false
	case 5:
		s := r.genSpec(o)
		b := r.mutate(s.build(), len(s.header))
		if huge(b) {
			b = b[:r.IntN(30)]
		}
		return "damaged file", b, false
	case 6:
		b := r.genSpec(o).build()
		return "truncated file", b[:r.IntN(len(b))], false
	case 7:
		return "sound archive", pick(r, r.c.archivePool()), true
	case 8:
		b := append([]byte{}, pick(r, r.c.archivePool())...)
		if r.Chance(50) {
			b = b[:r.IntN(len(b))]
		} else {
			b[r.IntN(len(b))] ^= 1 << r.IntN(8)
		}
		return "damaged archive", b, true
	case 9: // an entry that cannot be read
		_, files, names := r.archive(1+r.IntN(6), 40)
		k := r.IntN(len(files))
		files[k] = files[k][:r.IntN(len(files[k]))]
		return "archive with a bad entry", r.bz(r.tarFile(files, names)), true
	}
	b := make([]byte, r.IntN(600))
	for i := range b {
		b[i] = byte(r.IntN(256))
	}
	return "random bytes", b, r.Chance(30)
}

// readAny returns what reading gives, as a hash.
func readAny(rd io.Reader, archive bool) uint64 {
	if archive {
		cs, err := radolan.NewComposites(rd)
		h := hash64(fmt.Sprint(err), len(cs))
		for _, c := range cs {
			h = h*31 + fingerprint(c, nil)
		}
		return h
	}
	return fingerprint(radolan.NewComposite(rd))
}

func propC23(c *Ctx) {
	c.Rule("Calls of all kinds are executed on sound and broken inputs, with readers that end in every way (end of file, error, panic, exit of the goroutine), while others are blocked in the middle of reading, and from within readers, colour functions and compressions. Monitored: reads after the call has returned, goroutines that remain, output on standard output and error, and the surroundings (environment, working directory, time zones, log, arguments, standard files, open files, files in the working, temporary and home directory, runtime settings, limits, exported variables) before and after; memory in use after many calls whose results have been dropped, compared between the first and the second half of them; calls that do not end, or give another result than alone. Distinct: (input, way it ends).")
	time.Local = zones[0]
	for k, v := range map[string]string{"HOME": "home", "TMPDIR": "tmp", "XDG_CACHE_HOME": "cache"} {
		d := filepath.Join(c.work, v)
		must(os.MkdirAll(d, 0755))
		must(os.Setenv(k, d))
	}
	base := runtime.NumGoroutine() + 1
	before := surroundings()
	unchanged := func(r *R, what string) bool {
		if d := differs(before, surroundings()); d != "" {
			r.Fail("%s: %s", what, d)
			return false
		}
		r.Cat("surroundings compared")
		return true
	}
	c.Seq("aftermath", c.N(400, 10000), func(r *R) {
		var gs []*guard
		var kinds []string
		shared, _ := radolan.NewComposite(bytes.NewReader(r.tiny("RX").build()))
		for k := 0; k < 12; k++ {
			kind, raw, archive := r.anyInput()
			g := &guard{data: raw, n: 1 + r.Smart(1, 6000), end: r.IntN(endKinds), err: r.fault()}
			if g.end >= endError && r.Chance(60) {
				g.data = raw[:r.IntN(len(raw)+1)]
			}
			what := fmt.Sprintf("%s, reader with %s after %d of %d bytes", kind, endNames[g.end], len(g.data), len(raw))
			r.Input(raw)
			var rd io.Reader = g
			kept := &keptGuard{guard: g}
			done := func() string { return "" }
			switch {
			case r.Chance(30):
				rd = kept
			case g.end < endError && r.Chance(40):
				var by string
				rd, by, done = r.typedReader(g.data)
				what = fmt.Sprintf("%s, %s with %d of %d bytes", kind, by, len(g.data), len(raw))
				r.Cat("reader is " + by)
			}
			ok := r.alone(what, func() {
				defer g.over.Store(true)
				if r.i%2 == 1 {
					readAny(rd, archive)
				} else if archive {
					radolan.NewComposites(rd)
				} else {
					radolan.NewComposite(rd)
				}
			})
			m := done()
			if kept.closed.Load() {
				m = "the reader was closed"
			}
			if m != "" {
				r.Fail("%s: %s", what, m)
				return
			}
			r.Eval(1)
			if !ok {
				return
			}
			g.over.Store(true)
			r.Cat("reader ends by " + endNames[g.end])
			r.Distinct(hash64(raw, g.end, len(g.data)))
			gs = append(gs, g)
			kinds = append(kinds, what)
			switch {
			case r.Chance(30):
				if !r.quiet(base, what) {
					return
				}
			case r.Chance(15):
				if !unchanged(r, what) {
					return
				}
			}
		}
		ok := r.alone("other calls", func() {
			for k := 0; k < 6; k++ {
				r.opOf([]int{10, 11, 14, 16, 17, 10}[k], []*radolan.Composite{shared}, nil).run(r, func() {})
			}
		})
		if !ok || !r.quiet(base, "calls on "+strings.Join(kinds, "; ")) || !unchanged(r, "calls on "+strings.Join(kinds, "; ")) {
			return
		}
		for i, g := range gs {
			if n := g.late.Load(); n > 0 {
				r.Fail("%s: %d reads after the call has returned", kinds[i], n)
				return
			}
		}
		r.CatN("finished readers watched", len(gs))
	})
	// nobody waits for a reader that blocks
	c.Seq("blocked", c.N(6, 100), func(r *R) {
		type call struct {
			raw     []byte
			archive bool
			cut     int
			want    uint64
			got     uint64
			err     error
		}
		release := make(chan struct{})
		var waiting, all sync.WaitGroup
		var calls []*call
		for k := 0; k < 150; k++ {
			kind, raw, archive := r.anyInput()
			for kind != "sound file" && kind != "sound archive" && kind != "unknown unit" || len(raw) < 3 {
				kind, raw, archive = r.anyInput()
			}
			x := &call{raw: raw, archive: archive, cut: r.IntN(len(raw))}
			if r.Chance(20) {
				x.cut = 0
			}
			x.want = readAny(bytes.NewReader(raw), archive)
			if r.Chance(30) {
				x.err = r.fault()
			}
			calls = append(calls, x)
		}
		for _, x := range calls {
			waiting.Add(1)
			all.Add(1)
			go func() {
				defer all.Done()
				var once sync.Once
				reached := func() { once.Do(waiting.Done) }
				defer reached()
				pos := 0
				x.got = readAny(readFunc(func(p []byte) (int, error) {
					if pos == x.cut {
						reached()
						<-release
						if x.err != nil {
							return 0, x.err
						}
					}
					lim := len(x.raw)
					if pos < x.cut {
						lim = x.cut
					}
					if pos == len(x.raw) {
						return 0, io.EOF
					}
					n := copy(p, x.raw[pos:lim])
					pos += n
					return n, nil
				}), x.archive)
			}()
		}
		ok := r.alone("150 readings started at once", waiting.Wait)
		if ok {
			r.CatN("calls blocked", len(calls))
			shared, _ := radolan.NewComposite(bytes.NewReader(r.tiny("RX").build()))
			for k := 0; k < 40 && ok; k++ {
				kind, raw, archive := r.anyInput()
				var a, b uint64
				ok = r.alone(kind+" while 150 other calls are blocked", func() {
					a = readAny(bytes.NewReader(raw), archive)
					if k < 21 {
						r.opOf(k, []*radolan.Composite{shared}, [][]byte{raw}).run(r, func() {})
					}
					b = readAny(bytes.NewReader(raw), archive)
				})
				if ok && a != b {
					r.Fail("%s: two results for the same bytes", kind)
				}
				r.Eval(1)
			}
		}
		close(release)
		if !ok {
			return
		}
		if !r.alone("150 readings that continue", all.Wait) {
			return
		}
		for _, x := range calls {
			r.Eval(1)
			if x.err == nil && x.got != x.want {
				r.Fail("archive %v: another result after the reader was blocked at byte %d of %d", x.archive, x.cut, len(x.raw))
				return
			}
			r.Distinct(hash64(x.raw, x.cut, "blocked"))
		}
		r.quiet(base, "blocked calls have continued")
	})
	// calls from within readers and functions
	c.Seq("nested", c.N(120, 2000), func(r *R) {
		depth := 0
		budget := 60
		shared, _ := radolan.NewComposite(bytes.NewReader(r.tiny("RX").build()))
		big := r.sized(genOpts{cells: 1, enc: -1, unit: 1 + r.IntN(4)}, 6, 7)
		big.genBody(r, defOpts())
		grid, _ := read(big.build())
		var bad string
		var any func()
		any = func() {
			if depth > 6 || budget <= 0 || bad != "" {
				return
			}
			budget--
			depth++
			defer func() { depth-- }()
			switch r.IntN(7) {
			case 0, 1, 2:
				kind, raw, archive := r.anyInput()
				want := readAny(bytes.NewReader(raw), archive)
				pos := 0
				got := readAny(readFunc(func(p []byte) (int, error) {
					if r.Chance(20) {
						any()
					}
					if pos == len(raw) {
						return 0, io.EOF
					}
					n := copy(p[:min(len(p), 1+r.IntN(3000))], raw[pos:])
					pos += n
					return n, nil
				}), archive)
				r.Eval(1)
				if got != want {
					bad = kind + " read by a reader that makes calls itself gives another result"
				}
			case 3:
				f := pick(r, colorFuncs).fn
				want := vis.Image(f, grid, 0)
				img := vis.Image(func(v float64) color.RGBA {
					if r.Chance(10) {
						any()
					}
					return f(v)
				}, grid, 0)
				r.Eval(1)
				if crc32.ChecksumIEEE(img.Pix) != crc32.ChecksumIEEE(want.Pix) {
					bad = "an image whose colour function makes calls itself is another one"
				}
			case 4:
				comp := func(x float64) float64 {
					if r.Chance(10) {
						any()
					}
					return x * 2
				}
				v := r.Float64() * 100
				a, b := vis.Heatmap(1, 75, comp), vis.Heatmap(1, 75, func(x float64) float64 { return x * 2 })
				if r.Chance(50) {
					a, b = vis.Graymap(1, 75, comp), vis.Graymap(1, 75, func(x float64) float64 { return x * 2 })
				}
				r.Eval(1)
				if a(v) != b(v) {
					bad = "a gradient whose compression makes calls itself is another one"
				}
			default:
				r.opOf([]int{10, 12, 13, 14, 16, 17}[r.IntN(6)], []*radolan.Composite{shared}, nil).run(r, func() {
					if r.Chance(3) {
						any()
					}
				})
			}
			r.Cat("nested calls")
		}
		if !r.alone("calls from within readers and functions", any) {
			return
		}
		if bad != "" {
			r.Fail("%s", bad)
			return
		}
		r.Distinct(hash64("nested", r.i))
		r.quiet(base, "nested calls")
	})
	c.Seq("memory", c.Size(1, 3)*growthKinds, func(r *R) {
		name, n, limit, f := r.growth(r.i % growthKinds)
		used := func() int64 {
			var m runtime.MemStats
			for k := 0; k < 3; k++ {
				runtime.GC()
			}
			runtime.ReadMemStats(&m)
			return int64(m.HeapAlloc)
		}
		n *= c.Size(1, 4)
		debug.FreeOSMemory()
		for k := 0; k < n; k++ {
			f(k)
		}
		half := used()
		for k := n; k < 2*n; k++ {
			f(k)
		}
		end := used()
		r.Eval(2 * n)
		r.Bulk(2 * n)
		if d := end - half; d > limit*int64(c.Size(1, 4)) {
			r.Fail("%s: memory in use grows by %d bytes during %d calls whose results are dropped", name, d, n)
			return
		}
		r.CatN("dropped results: "+name, 2*n)
		unchanged(r, name)
		r.quiet(base, name)
	})
	for _, k := range []string{"goroutine counts compared", "surroundings compared", "finished readers watched", "calls blocked", "nested calls"} {
		c.Need(k, 100)
	}
}

type readFunc func(p []byte) (int, error)

func (f readFunc) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	return f(p)
}

const growthKinds = 10

var sink atomic.Uint64

var errGrowth = errors.New("reader fails")

// growth returns an operation to be repeated n times with ever new arguments,
// and how many bytes may still be in use for n of them: a fraction of what
// keeping anything of every call would take.
func (r *R) growth(kind int) (name string, n int, limit int64, f func(k int)) {
	use := func(v float64) { sink.Add(math.Float64bits(v)) }
	switch kind {
	case 0:
		s := r.sized(genOpts{cells: 1, enc: -1, unit: 1 + r.IntN(4)}, 220, 230)
		s.genBody(r, defOpts())
		return "files of 50000 pixels", 400, 4 << 20, func(k int) {
			s.Time = time.Date(2001, 1, 1, 0, k, 0, 0, time.UTC)
			comp, _ := read(s.build())
			use(float64(comp.Dx))
		}
	case 1:
		s := r.tiny("RX")
		return "small files", 150000, 1 << 20, func(k int) {
			s.Time = time.Date(2001, 1, 1, 0, k, 0, 0, time.UTC)
			s.WMO = fmt.Sprintf("%05d", k*7%100000)
			s.extra = []string{fmt.Sprintf("MS%3d<abc,%06x>", 12, k)}
			comp, _ := read(s.build())
			use(float64(comp.Dx))
		}
	case 2:
		s := r.tiny("RX")
		b := s.build()
		return "failing files", 250000, 1 << 20, func(k int) {
			raw := append([]byte(fmt.Sprintf("RX%06dXX%04d", k%1000000, k%10000)), b[min(len(b), 17):]...)
			switch k % 4 {
			case 0:
				raw = raw[:k/4%len(raw)]
			case 1:
				raw = b[:k/4%len(b)]
			case 2:
				raw = []byte(fmt.Sprintf("%s%dABC%dGP%d\x03", b[:17], k, k, k))
			}
			_, err := radolan.NewComposite(io.MultiReader(bytes.NewReader(raw), &faultReader{err: errGrowth}))
			if err != nil {
				use(1)
			}
		}
	case 3:
		return "dummies", 1500000, 1 << 20, func(k int) {
			d := radolan.NewDummy(string([]byte{'A' + byte(k%26), 'A' + byte(k/26%26)}), k%9, 1+k%5003, 1+k/7)
			use(d.Rx)
		}
	case 4:
		a, b := radolan.NewDummy("RX", 0, 900, 900), radolan.NewDummy("WN", 5, 1100, 1200)
		return "projections", 1500000, 1 << 20, func(k int) {
			lat, lon := 45+float64(k%1000003)/1e5, float64(k)/1e5
			x, _ := a.Project(lat, lon)
			y, _ := b.Project(lat, lon)
			use(x + y)
		}
	case 5:
		return "relations", 1000000, 1 << 20, func(k int) {
			z := radolan.NewZR(100+float64(k)/100, 1+float64(k%997)/1000)
			use(radolan.PrecipitationRate(z, float32(k)/2e4) + float64(radolan.Reflectivity(z, float64(k)/1e4)) + radolan.PrecipitationRate(radolan.Aniol80, float32(k)/3e4) + float64(radolan.Reflectivity(radolan.Aniol80, float64(k)/1e4)))
		}
	case 6:
		return "gradients", 500000, 1 << 20, func(k int) {
			lo, hi := float64(k)/1e6, 50+float64(k)/1e4
			v := float64(k) / 1e4
			switch k % 4 {
			case 1:
				v = float64(k)
			case 2:
				v = -float64(k) / 3
			}
			for _, g := range []vis.ColorFunc{vis.Heatmap(lo, hi, vis.Id), vis.Graymap(lo, hi, vis.Id), vis.Radialmap(-hi, hi, vis.Log)} {
				use(float64(g(v).R))
			}
			for _, p := range colorFuncs {
				use(float64(p.fn(v).G))
			}
		}
	case 7:
		ds := []*radolan.Composite{}
		for i := 1; i < 9; i++ {
			s := r.sized(genOpts{cells: 1, enc: -1, unit: 1 + r.IntN(4)}, i, 10-i)
			s.genBody(r, defOpts())
			d, _ := read(s.build())
			ds = append(ds, d)
		}
		return "pictures", 150000, 1 << 20, func(k int) {
			d := ds[k%len(ds)]
			x := float64(k)
			img := vis.Image(func(v float64) color.RGBA { return color.RGBA{uint8(v + x), 0, 0, 255} }, d, k/8%2)
			use(float64(len(img.Pix)))
		}
	case 8:
		pool := r.c.archivePool()
		return "archives", 1000, 1 << 20, func(k int) {
			b := pool[k%len(pool)]
			if k%3 == 1 {
				b = b[:len(b)-k%min(len(b), 97)]
			}
			cs, _ := radolan.NewComposites(bytes.NewReader(b))
			use(float64(len(cs)))
		}
	}
	s := r.sized(genOpts{cells: 1, enc: -1, unit: 1 + r.IntN(4)}, 5, 6)
	s.genBody(r, defOpts())
	b := s.build()
	return "composites, projected, accessed and drawn", 100000, 1 << 20, func(k int) {
		d := radolan.NewDummy("RX", k%7, 450, 450)
		x, _ := d.Project(50+float64(k)/1e6, 10)
		comp, _ := read(b)
		use(x + float64(comp.At(k%9-1, k%8-1)) + float64(comp.AtZ(k%6, k%5, k%2)))
		use(float64(len(vis.Image(vis.HeatmapReflectivity, comp, 0).Pix)))
	}
}
