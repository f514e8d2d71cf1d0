package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"hash/crc32"
	"image/color"
	"io"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"

	"gitlab.cs.fau.de/since/radolan"
	"gitlab.cs.fau.de/since/radolan/radolan2png/vis"
)

// fingerprint of everything a composite shows.
func fingerprint(c *radolan.Composite, err error) uint64 {
	if c == nil {
		return hash64("nil", fmt.Sprint(err))
	}
	h := uint64(14695981039346656037)
	mix := func(v uint64) { h = (h ^ v) * 1099511628211; h ^= h >> 29 }
	mixF := func(v float64) {
		if v != v {
			mix(1)
		} else {
			mix(math.Float64bits(v))
		}
	}
	mix(hash64(c.Product, fmt.Sprint(err), c.DataUnit.String()))
	mix(uint64(c.CaptureTime.Unix()))
	mix(uint64(c.ForecastTime.Unix()))
	mix(uint64(c.Interval))
	for _, v := range []int{c.Px, c.Py, c.Dx, c.Dy, c.Dz, c.Format, len(c.PlainData), len(c.DataZ), len(c.Data)} {
		mix(uint64(v))
	}
	if c.HasProjection {
		mix(7)
	}
	mixF(c.Rx)
	mixF(c.Ry)
	rows := func(rs [][]float32) {
		for _, row := range rs {
			mix(uint64(len(row)))
			for _, v := range row {
				if v != v {
					mix(2)
				} else {
					mix(uint64(math.Float32bits(v)))
				}
			}
		}
	}
	rows(c.PlainData)
	for _, l := range c.DataZ {
		rows(l)
	}
	rows(c.Data)
	for _, p := range [][2]float64{{51, 9}, {54.2, 13.7}, {46.5, 5.1}} {
		x, y := c.Project(p[0], p[1])
		mixF(x)
		mixF(y)
	}
	return h
}

// an operation with a result that depends on its own input only
type op struct {
	kind string
	run  func(r *R, yield func()) uint64
}

type yieldReader struct {
	r     io.Reader
	yield func()
	n     int
}

func (y *yieldReader) Read(p []byte) (int, error) {
	y.yield()
	if len(p) > y.n {
		p = p[:y.n]
	}
	return y.r.Read(p)
}

var zrs = []radolan.ZR{radolan.Aniol80, radolan.Doelling98, radolan.JossWaldvogel70, radolan.MarshallPalmer55}

var colorFuncs = []struct {
	name string
	fn   vis.ColorFunc
}{
	{"HeatmapReflectivityShort", vis.HeatmapReflectivityShort}, {"HeatmapReflectivity", vis.HeatmapReflectivity},
	{"HeatmapReflectivityWide", vis.HeatmapReflectivityWide}, {"HeatmapAccumulatedHour", vis.HeatmapAccumulatedHour},
	{"HeatmapAccumulatedDay", vis.HeatmapAccumulatedDay}, {"HeatmapRadialVelocity", vis.HeatmapRadialVelocity},
	{"GraymapLinear", vis.GraymapLinear}, {"GraymapLinearWide", vis.GraymapLinearWide},
}

func projections(c *radolan.Composite, lat, lon float64, n int, yield func()) uint64 {
	h := uint64(n)
	for i := 0; i < n; i++ {
		x, y := c.Project(lat+float64(i)*0.37, lon+float64(i)*0.21)
		h = h*1099511628211 ^ math.Float64bits(x) ^ math.Float64bits(y)<<1
		if i&7 == 0 {
			yield()
		}
	}
	return h
}

// archives are slow to write under the race detector: a pool is written once
func (c *Ctx) archivePool() [][]byte {
	c.poolOnce.Do(func() {
		r := &R{c: c, stage: "pool"}
		r.Rand = newRand(hash64(c.seed, "pool"))
		for i := 0; i < 16; i++ {
			_, files, names := r.archive(i%5, 40)
			c.pool = append(c.pool, r.bz(r.tarFile(files, names)))
		}
	})
	return c.pool
}

// genOp draws an operation; shared are composites all goroutines read.
func (r *R) genOp(shared []*radolan.Composite, raws [][]byte) op {
	return r.opOf(r.IntN(21), shared, raws)
}

// opOf draws an operation of kind k (0 to 20).
func (r *R) opOf(k int, shared []*radolan.Composite, raws [][]byte) op {
	pickC := func() *radolan.Composite { return shared[r.IntN(len(shared))] }
	parse := func(kind string, raw []byte, chunk int) op {
		return op{kind, func(_ *R, yield func()) uint64 {
			return fingerprint(radolan.NewComposite(&yieldReader{bytes.NewReader(raw), yield, chunk}))
		}}
	}
	switch k {
	case 0, 1, 2, 3:
		o := defOpts()
		o.cells, o.local = 400, 0
		if r.Chance(5) {
			o.local = 100
		}
		s := r.genSpec(o)
		return parse("parse private", s.build(), 1+r.Smart(1, 700))
	case 4, 5:
		return parse("parse common bytes", pick(r, raws), 1+r.Smart(1, 3000))
	case 6:
		s := r.genSpec(defOpts())
		b := r.mutate(s.build(), len(s.header))
		if huge(b) {
			b = b[:r.IntN(20)]
		}
		return parse("parse damaged", b, 1+r.IntN(300))
	case 7:
		d := pick(r, c03Defects())
		_, b := d.make(r)
		return parse("parse malformed header", b, 1+r.IntN(300))
	case 8, 9:
		b := pick(r, r.c.archivePool())
		return op{"archive", func(_ *R, yield func()) uint64 {
			cs, err := radolan.NewComposites(&yieldReader{bytes.NewReader(b), yield, 700})
			h := hash64(fmt.Sprint(err), len(cs))
			for _, c := range cs {
				yield()
				h = h*31 + fingerprint(c, nil)
			}
			return h
		}}
	case 10, 11:
		g := pick(r, gridDims)
		f, lab := r.IntN(7), pick(r, knownLabels)
		lat, lon := 45+r.Float64()*10, r.Float64()*20
		return op{"dummy and project", func(_ *R, yield func()) uint64 {
			c := radolan.NewDummy(lab, f, g[0], g[1])
			yield()
			return projections(c, lat, lon, 40, yield)
		}}
	case 12:
		c := pickC()
		lat, lon := 45+r.Float64()*10, r.Float64()*20
		return op{"project shared", func(_ *R, yield func()) uint64 { return projections(c, lat, lon, 60, yield) }}
	case 13:
		c := pickC()
		seed := r.Uint64()
		return op{"access shared", func(_ *R, yield func()) uint64 {
			h, s := seed, seed
			for i := 0; i < 200; i++ {
				s = s*6364136223846793005 + 1442695040888963407
				x, y, z := int(s>>40)%(c.Dx+2)-1, int(s>>20&0xfffff)%(c.Dy+2)-1, int(s>>10&0xff)%(c.Dz+1)
				a, b := c.At(x, y), c.AtZ(x, y, z)
				if a != a {
					a = 1e30
				}
				if b != b {
					b = 2e30
				}
				h = h*31 + uint64(math.Float32bits(a)) + uint64(math.Float32bits(b))<<20
				if i&15 == 0 {
					yield()
				}
			}
			return h
		}}
	case 14, 15:
		c := pickC()
		m := r.IntN(len(colorFuncs))
		z := r.IntN(c.Dz + 1)
		return op{"render shared", func(_ *R, yield func()) uint64 {
			yield()
			img := vis.Image(colorFuncs[m].fn, c, z)
			return hash64(crc32.ChecksumIEEE(img.Pix), img.Rect)
		}}
	case 16:
		zr := r.IntN(len(zrs))
		a, b, v := 100+r.Float64()*300, 1+r.Float64(), r.Float64()*80
		return op{"convert", func(_ *R, yield func()) uint64 {
			h := uint64(0)
			n := radolan.NewZR(a, b)
			for i := 0; i < 40; i++ {
				d := float32(v) - float32(i)
				h = h*31 + math.Float64bits(radolan.PrecipitationRate(zrs[zr], d)) + math.Float64bits(radolan.PrecipitationRate(n, d))
				h = h*31 + uint64(math.Float32bits(radolan.Reflectivity(n, v+float64(i))))
				if i&7 == 0 {
					yield()
				}
			}
			return h
		}}
	}
	switch k {
	case 18, 19: // every way to reject a binary section, and the unknown-unit warning
		o := defOpts()
		o.cells, o.local = 300, 0
		s := r.genSpec(o)
		b := *s
		what := "parse wrong length"
		switch r.IntN(4) {
		case 0:
			s.Enc = encLE
			s.HasLV, s.Levels = false, nil
			s.genBody(r, o)
			b = *s
			b.Body = append(append([]byte{}, s.Body...), make([]byte, 1+2*r.IntN(20))...)
		case 1:
			what = "parse truncated"
			b.Body = s.Body[:r.IntN(len(s.Body))]
		case 2:
			what = "parse bad row"
			s = r.sized(genOpts{cells: 1, enc: int(encRL), unit: -1}, 2+r.IntN(9), 1+r.IntN(30))
			s.genBody(r, o)
			b = *s
			b.Body = append([]byte{32, byte(r.IntN(9)), 0x11, '\n'}, s.Body...)
			if r.Chance(50) {
				b.Body = append([]byte{32, 16, 0xf1, 0xf1, 0xf1, '\n'}, s.Body...)
			}
		case 3:
			what = "parse unknown unit"
			b = *r.genSpec(genOpts{cells: 200, enc: -1, unit: -1, unknown: 100})
		}
		return parse(what, b.build(), 1+r.IntN(300))
	case 20: // archives that are rejected
		b := append([]byte{}, pick(r, r.c.archivePool())...)
		if r.Chance(50) {
			b = b[:r.IntN(len(b))]
		} else {
			b[r.IntN(len(b))] ^= 1 << r.IntN(8)
		}
		return op{"damaged archive", func(_ *R, yield func()) uint64 {
			cs, err := radolan.NewComposites(&yieldReader{bytes.NewReader(b), yield, 700})
			h := hash64(fmt.Sprint(err), len(cs))
			for _, c := range cs {
				h = h*31 + fingerprint(c, nil)
			}
			return h
		}}
	}
	min, max := r.Float64()*10+0.1, 20+r.Float64()*100
	kind := r.IntN(3)
	v := r.Float64() * 100
	return op{"gradient", func(_ *R, yield func()) uint64 {
		var fn vis.ColorFunc
		switch kind {
		case 0:
			fn = vis.Heatmap(min, max, vis.Log)
		case 1:
			fn = vis.Graymap(min, max, vis.Id)
		case 2:
			fn = vis.Radialmap(-max, max, vis.Log)
		}
		h := uint64(0)
		for i := 0; i < 60; i++ {
			h = h*31 + hashColor(fn(v-float64(i)*2))
			for _, p := range colorFuncs {
				h = h*31 + hashColor(p.fn(v-float64(i)*2))
			}
			if i&7 == 0 {
				yield()
			}
		}
		return h
	}}
}

func hashColor(c color.RGBA) uint64 {
	return uint64(c.R)<<24 | uint64(c.G)<<16 | uint64(c.B)<<8 | uint64(c.A)
}

// sharedSet reads a few composites that all goroutines use.
func (r *R) sharedSet() (cs []*radolan.Composite, raws [][]byte) {
	for i := 0; i < 4; i++ {
		o := defOpts()
		o.cells, o.local = 2000, 0
		s := r.genSpec(o)
		switch i {
		case 0:
			s = r.sized(genOpts{cells: 1, enc: -1, unit: -1}, 120, 115)
			s.Rows, s.Cols = 115, 115
			s.genBody(r, o)
		case 1:
			if r.IntN(5) > 0 {
				continue
			}
			s = r.sized(genOpts{cells: 1, enc: int(encRL), unit: -1}, 300, 275)
			s.VS = 5
			s.genBody(r, o)
		}
		raw := s.build()
		c, _ := read(raw)
		if c == nil || checkShape(c) != "" {
			continue
		}
		cs, raws = append(cs, c), append(raws, raw)
	}
	cs = append(cs, radolan.NewDummy("RX", 3, 900, 900))
	if len(raws) == 0 {
		raws = append(raws, nil)
	}
	// dummies have no data: only composites that can be rendered are shared, plus one dummy
	return
}

func propC17(c *Ctx) {
	c.Rule("Rounds of 2 to 12 goroutines, each executing a random list of operations (read private, common and damaged bytes through readers that yield in the middle of parsing, archives, dummies and projection, shared composites projected, accessed and rendered, conversions, gradients) under the race detector; every result is compared with the same operation executed alone before or after. Half of the rounds start the goroutines without any further synchronisation by the monitor, so that it cannot hide races; the others record the global order of yield points to count distinct interleavings. Distinct: rounds and interleavings.")
	c.Seq("rounds", c.N(160, 6000), func(r *R) {
		shared, raws := r.sharedSet()
		r.round(shared, raws, false)
	})
	// processes whose very first calls are concurrent
	c.Par("first-use", c.N(4*firstKinds, 60*firstKinds), func(r *R) {
		r.child(os.Args[0], "C17first", r.Uint64()/firstKinds*firstKinds+uint64(r.i%firstKinds))
	})
	// full speed, without the race detector; every process begins with another kind of operation
	c.Seq("tight-loops", c.N(tightKinds, 8*tightKinds), func(r *R) {
		r.child(c.cli, "C17tight", r.Uint64()/tightKinds*tightKinds+uint64(r.i%tightKinds))
	})
	c.Need("rounds of tight loops", 200)
	c.Need("goroutine switches between yield points", 1000)
	c.Need("rounds without monitor synchronisation", 50)
}

// child runs another property in a process of its own and takes over its findings.
func (r *R) child(bin, prop string, seed uint64) {
	dir := r.tempDir()
	defer os.RemoveAll(dir)
	out := filepath.Join(dir, "result")
	tier := "quick"
	if r.c.thorough {
		tier = "thorough"
	}
	cmd := exec.Command(bin, "-prop", prop, "-tier", tier, "-seed", fmt.Sprint(seed), "-src", r.c.src, "-work", dir, "-out", out)
	var se bytes.Buffer
	cmd.Stderr = &se
	err := cmd.Run()
	var res result
	if b, rerr := os.ReadFile(out); rerr == nil {
		json.Unmarshal(b, &res)
	}
	if !res.Done {
		text := se.String()
		if strings.Contains(text, "fatal error: ") || strings.Contains(text, "panic: ") {
			r.fail("process died in concurrent calls", text[:min(len(text), 6000)])
			return
		}
		panic(fmt.Sprintf("harness: child: %v %s", err, text))
	}
	for _, v := range res.Violations {
		r.fail(v.Msg, v.Detail)
	}
	r.evals += res.Evals
	for k, v := range res.Cats {
		r.cats[k] += v
	}
	r.Distinct(hash64("child", r.stage, r.i))
	r.Cat("fresh processes started with concurrent calls")
}

// firstKinds is the number of operations whose first use is made concurrent.
const firstKinds = 14

// firstOp draws the k-th kind of first operation.
func (r *R) firstOp(k int, shared []*radolan.Composite, raws [][]byte) op {
	parse := func(enc encKind, unit int) op {
		s := r.sized(genOpts{cells: 1, enc: int(enc), unit: unit}, 1+r.IntN(20), 1+r.IntN(20))
		s.genBody(r, defOpts())
		raw := s.build()
		return op{"first parse", func(_ *R, yield func()) uint64 { return fingerprint(read(raw)) }}
	}
	dummy := func(format int, dims [2]int) op {
		lat, lon := 45+r.Float64()*10, r.Float64()*20
		return op{"first projection", func(_ *R, yield func()) uint64 {
			c := radolan.NewDummy("RX", format, dims[0], dims[1])
			return projections(c, lat, lon, 3, yield) ^ math.Float64bits(c.Rx)
		}}
	}
	switch k {
	case 0:
		return parse(encLE, -1)
	case 1:
		return parse(encSB, uDBZ)
	case 2:
		return parse(encRL, -1)
	case 3: // local product
		s := r.genSpec(genOpts{cells: 1, enc: int(encRL), unit: -1})
		s.Product, s.DimKind = pick(r, localLabels), 0
		s.genBody(r, defOpts())
		raw := s.build()
		return op{"first parse of a local product", func(_ *R, yield func()) uint64 { return fingerprint(read(raw)) }}
	case 4:
		return dummy(r.IntN(5), pick(r, gridDims))
	case 5:
		return dummy(5+r.IntN(2), [2]int{1100, 1200})
	case 6:
		return r.opOf(7, shared, raws)
	case 7:
		return r.opOf(8, shared, raws)
	case 8:
		return r.opOf(13, shared, raws)
	case 9:
		return r.opOf(14, shared, raws)
	case 10:
		return r.opOf(16, shared, raws)
	case 11:
		return r.opOf(18, shared, raws)
	case 12:
		return r.opOf(20, shared, raws)
	}
	return r.opOf(17, shared, raws)
}

// propC17first is one round in a process that has not used the package before.
func propC17first(c *Ctx) {
	c.Seq("first", 1, func(r *R) {
		var raws [][]byte
		var shared []*radolan.Composite
		for i := 0; i < 3; i++ {
			o := defOpts()
			o.cells, o.local = 600, 0
			raws = append(raws, r.genSpec(o).build())
			comp := &radolan.Composite{Product: pick(r, knownLabels), Dx: 9, Dy: 7, Dz: 2}
			for z := 0; z < 2; z++ {
				var l [][]float32
				for y := 0; y < 7; y++ {
					row := make([]float32, 9)
					for x := range row {
						row[x] = float32(r.IntN(90))
					}
					l = append(l, row)
				}
				comp.DataZ = append(comp.DataZ, l)
			}
			comp.Data = comp.DataZ[0]
			shared = append(shared, comp)
		}
		r.round(shared, raws, true)
	})
}

// round executes operations concurrently and alone and compares the results.
func (r *R) round(shared []*radolan.Composite, raws [][]byte, first bool) {
	n := 2 + r.IntN(11)
	per := 2 + r.IntN(5)
	ops := make([][]op, n)
	for g := range ops {
		for k := 0; k < per; k++ {
			ops[g] = append(ops[g], r.genOp(shared, raws))
		}
	}
	if r.Chance(40) || first && r.Chance(60) { // everybody does the same
		for g := 1; g < n; g++ {
			ops[g] = ops[0]
		}
		r.Cat("rounds with identical operations")
	}
	if first { // the same kind of operation comes first everywhere
		kind := int(r.c.seed % firstKinds)
		o := r.firstOp(kind, shared, raws)
		same := r.Chance(60)
		for g := range ops {
			if !same && g > 0 {
				o = r.firstOp(kind, shared, raws)
			}
			ops[g] = append([]op{o}, ops[g]...)
		}
		per++
	}
	before := !first && r.Chance(50)
	want := make([][]uint64, n)
	alone := func() {
		for g := range ops {
			want[g] = nil
			for _, o := range ops[g] {
				want[g] = append(want[g], o.run(r, func() {}))
			}
		}
	}
	if before {
		alone()
	}
	sharedBefore := make([]uint64, len(shared))
	for i, s := range shared {
		if !first {
			sharedBefore[i] = fingerprint(s, nil)
		}
	}
	record := r.Chance(50) && !(first && r.Chance(70))
	got := make([][]uint64, n)
	panics := make([]string, n)
	traces := make([][]int32, n)
	var clock atomic.Int32
	// all goroutines exist from before the first to after the last operation: the
	// race detector may take a later goroutine for one that has ended before it
	start, finish := make(chan struct{}), make(chan struct{})
	var ready, wg sync.WaitGroup
	seeds := make([]uint64, n)
	for g := range seeds {
		seeds[g] = r.Uint64() | 1
	}
	procs := []int{1, 2, 4, 8, 8}[r.IntN(5)]
	if first {
		procs = 8
	}
	old := runtime.GOMAXPROCS(procs)
	for g := 0; g < n; g++ {
		wg.Add(1)
		ready.Add(1)
		go func(g int) {
			defer func() {
				wg.Done()
				<-finish
			}()
			defer func() {
				if e := recover(); e != nil {
					buf := make([]byte, 3000)
					panics[g] = fmt.Sprintf("%v\n%s", e, buf[:runtime.Stack(buf, false)])
				}
			}()
			s := seeds[g]
			yield := func() {
				if record && len(traces[g]) < 4000 {
					traces[g] = append(traces[g], clock.Add(1))
				}
				s ^= s << 13
				s ^= s >> 7
				s ^= s << 17
				if s&3 == 0 {
					runtime.Gosched()
				}
			}
			ready.Done()
			<-start
			for _, o := range ops[g] {
				got[g] = append(got[g], o.run(nil, yield))
			}
		}(g)
	}
	ready.Wait()
	close(start)
	wg.Wait()
	close(finish)
	runtime.GOMAXPROCS(old)
	if !before {
		alone()
	}
	for g := range ops {
		if panics[g] != "" {
			r.fail(fmt.Sprintf("goroutine %d of %d panics", g, n), panics[g])
			return
		}
		for k, o := range ops[g] {
			if got[g][k] != want[g][k] {
				r.Fail("goroutine %d of %d, operation %d (%s): result differs from the one executed alone", g, n, k, o.kind)
				return
			}
			r.Cat("operation: " + o.kind)
		}
	}
	for i, s := range shared {
		if !first && fingerprint(s, nil) != sharedBefore[i] {
			r.Fail("shared composite %d (%s) was modified", i, s.Product)
			return
		}
	}
	r.Eval(n * per)
	r.CatN("operations executed concurrently", n*per)
	r.Distinct(hash64(r.i, n, per))
	if record {
		// the interleaving: goroutine of every yield point in global order
		order := make([]byte, int(clock.Load())+1)
		for g := range traces {
			for _, t := range traces[g] {
				order[t] = byte(g + 1)
			}
		}
		sw := 0
		for i := 2; i < len(order); i++ {
			if order[i] != order[i-1] {
				sw++
			}
		}
		r.CatN("yield points recorded", len(order)-1)
		r.CatN("goroutine switches between yield points", sw)
		r.Distinct(hash64("interleaving", order))
		r.Cat("interleavings recorded")
	} else {
		r.Cat("rounds without monitor synchronisation")
	}
	r.Sample(func() any {
		var kinds []string
		for _, o := range ops[0] {
			kinds = append(kinds, o.kind)
		}
		return map[string]any{"goroutines": n, "processors": procs, "operations of the first": kinds}
	})
}

// ---- C18 ----

type kept struct {
	spec *Spec
	comp *radolan.Composite
	fp   uint64
	raw  []byte
	err  error
}

func canaries() (ops []op) {
	fixed := &R{c: &Ctx{dict: &Dict{}, seed: 99}}
	fixed.Rand = newRand(424242)
	shared, raws := fixed.sharedSet()
	kinds := map[string]int{}
	for len(ops) < 60 {
		o := fixed.genOp(shared, raws)
		if kinds[o.kind] < 6 {
			kinds[o.kind]++
			ops = append(ops, o)
		} else if len(kinds) >= 12 && fixed.IntN(10) == 0 {
			ops = append(ops, o)
		}
	}
	return
}

func propC18(c *Ctx) {
	c.Rule("Random histories: sound files of all kinds, truncated and malformed files, archives, dummies, renderings and conversions in random order; between them the caller overwrites whole composites it got earlier and the input buffers it passed. Monitored after every step: the step's own result against its meaning, every retained composite and every input against its fingerprint, and canary operations whose results were recorded in the fresh process. Families of operations with related and extreme arguments: each operation is executed alone as the first use of the package by a process, and again in other processes after random sequences of the others; the results have to be the same bits. Cheap operations of every kind are repeated up to millions of times in one process. Distinct: (history, step), sequence.")
	nothing := func() {}
	cans := canaries()
	want := make([]uint64, len(cans))
	for i, o := range cans {
		want[i] = o.run(nil, nothing)
	}
	canary := func(r *R, i int) bool {
		if got := cans[i].run(nil, nothing); got != want[i] {
			r.Fail("canary %d (%s) gives another result than in the fresh process", i, cans[i].kind)
			return false
		}
		r.Cat("canary runs")
		return true
	}
	c.endurance()
	c.periods()
	c.Seq("histories", c.N(900, 20000), func(r *R) {
		var keep []*kept
		// histories often stay with few labels and grids, so that anything remembered collides
		labels := []string{pick(r, knownLabels), pick(r, knownLabels), pick(r, localLabels)}
		dims := [][2]int{{1 + r.IntN(20), 1 + r.IntN(20)}, {115, 115}, {1 + r.IntN(20), 1 + r.IntN(20)}}
		steps := 6 + r.IntN(24)
		gen := func() *Spec {
			o := defOpts()
			o.cells, o.local, o.unknown = 500, 0, 5
			s := r.genSpec(o)
			if r.Chance(60) {
				s.Product = pick(r, labels)
				d := pick(r, dims)
				s.DimKind, s.Rows, s.Cols = 1, d[0], d[1]
				if r.Chance(3) {
					if _, ok := refLocal[s.Product]; ok {
						s.DimKind = 0
					}
				}
				s.genBody(r, o)
			}
			return s
		}
		check := func(what string) bool {
			for i, k := range keep {
				if fingerprint(k.comp, k.err) != k.fp {
					r.Fail("after %s: composite %d (%s), read earlier, has changed", what, i, k.spec.Product)
					return false
				}
			}
			return true
		}
		remember := func(s *Spec, raw []byte, comp *radolan.Composite, err error) {
			if len(keep) >= 6 {
				keep = keep[1:]
			}
			keep = append(keep, &kept{s, comp, fingerprint(comp, err), raw, err})
		}
		for k := 0; k < steps; k++ {
			what := ""
			switch x := r.IntN(20); {
			case x < 7:
				what = "reading a sound file"
				s := gen()
				raw := s.build()
				orig := append([]byte{}, raw...)
				r.Input(orig)
				comp, err := read(raw)
				if m := s.check(comp, err); m != "" {
					r.Fail("step %d: %s", k, m)
					return
				}
				if !bytes.Equal(raw, orig) {
					r.Fail("step %d: reading changed its input", k)
					return
				}
				remember(s, raw, comp, err)
			case x < 9:
				what = "reading a truncated file"
				raw := gen().build()
				raw = raw[:r.IntN(len(raw))]
				read(raw)
			case x < 11:
				what = "reading a malformed file"
				_, raw := pick(r, c03Defects()).make(r)
				read(raw)
			case x < 12:
				what = "reading an archive"
				specs, files, names := r.archive(1+r.IntN(4), 60)
				if r.Chance(40) { // one entry twice
					j := r.IntN(len(specs))
					specs, files, names = append(specs, specs[j]), append(files, files[j]), append(names, names[j])
				}
				raw := r.bz(r.tarFile(files, names))
				cs, err := radolan.NewComposites(bytes.NewReader(raw))
				if m := r.judge(specs, cs, err); m != "" {
					r.Fail("step %d: %s", k, m)
					return
				}
				for _, comp := range cs {
					remember(&Spec{Product: comp.Product}, nil, comp, nil)
				}
			case x < 14 && len(keep) > 0:
				what = "the caller overwriting a composite"
				i := r.IntN(len(keep))
				v := keep[i]
				keep = append(keep[:i:i], keep[i+1:]...)
				for y := range v.comp.PlainData {
					for x := range v.comp.PlainData[y] {
						v.comp.PlainData[y][x] = 4711
					}
				}
				for z := range v.comp.DataZ {
					for y := range v.comp.DataZ[z] {
						for x := range v.comp.DataZ[z][y] {
							v.comp.DataZ[z][y][x] = float32(r.IntN(100))
						}
						_ = append(v.comp.DataZ[z][y], 815) // beyond the row's end
					}
				}
				for y := range v.comp.PlainData {
					_ = append(v.comp.PlainData[y], 816)
				}
				v.comp.Product, v.comp.Dx, v.comp.Rx, v.comp.Ry, v.comp.Format = "??", 1, 77, 78, 99
				v.comp.Project(50, 10)
				if v.raw != nil && r.Chance(50) {
					raw := bytes.Clone(v.raw)
					comp, err := read(raw)
					if fingerprint(comp, err) != v.fp {
						r.Fail("step %d: reading the same bytes again gives another result after the caller has overwritten the first", k)
						return
					}
					remember(v.spec, raw, comp, err)
					r.Cat("files read again after their composite was overwritten")
				}
			case x < 15 && len(keep) > 0:
				what = "the caller overwriting an input buffer"
				v := pick(r, keep)
				for j := range v.raw {
					v.raw[j] = 0xAA
				}
				v.raw = nil
			case x < 16 && len(keep) > 0:
				what = "reading the same bytes again"
				v := pick(r, keep)
				if v.raw != nil {
					raw := bytes.Clone(v.raw)
					comp, err := read(raw)
					if m := v.spec.check(comp, err); m != "" {
						r.Fail("step %d: read again: %s", k, m)
						return
					}
					if fingerprint(comp, err) != v.fp {
						r.Fail("step %d: reading the same bytes again gives another result", k)
						return
					}
					remember(v.spec, raw, comp, err)
					r.Cat("files read again")
				}
			case x < 17 && len(keep) > 0:
				what = "projecting, accessing and rendering"
				v := pick(r, keep)
				for j := 0; j < 10; j++ {
					v.comp.Project(r.Float64()*90, r.Float64()*30)
					v.comp.At(r.IntN(30)-3, r.IntN(30)-3)
					v.comp.AtZ(r.IntN(30)-3, r.IntN(30)-3, r.IntN(4)-1)
				}
				vis.Image(pick(r, colorFuncs).fn, v.comp, r.IntN(v.comp.Dz+2)-1)
			case x < 18:
				what = "creating a dummy"
				g := pick(r, gridDims)
				f := r.IntN(7)
				comp := radolan.NewDummy(pick(r, labels), f, g[0], g[1])
				if ref := detectRef(g[0], g[1], f); ref != nil {
					for j := 0; j < 5; j++ {
						lat, lon := r.genLatLon(ref)
						if !r.point(comp, ref, g[0], g[1], lat, lon, "history") {
							return
						}
					}
				} else if x, _ := comp.Project(50, 10); comp.HasProjection || x == x {
					r.Fail("step %d: dummy %dx%d version %d has a projection", k, g[0], g[1], f)
					return
				}
				remember(&Spec{Product: "dummy"}, nil, comp, nil)
			default:
				what = "converting and colouring"
				radolan.NewZR(r.Float64()*400+1, 1+r.Float64())
				fn := vis.Heatmap(r.Float64()+0.1, 10+r.Float64()*300, vis.Log)
				for j := 0; j < 10; j++ {
					fn(r.Float64() * 100)
					pick(r, colorFuncs).fn(r.Float64() * 100)
				}
			}
			r.Eval(1)
			if !check(what) || !canary(r, r.IntN(len(cans))) {
				return
			}
			r.Cat("step: " + what)
			r.CatN("retained composites compared", len(keep))
			r.Distinct(hash64(r.i, k, what))
		}
		r.Sample(func() any { return map[string]any{"steps": steps, "labels": labels, "dimensions": dims} })
	})
	// calls that share some of their arguments with earlier ones, each judged on its own
	c.Seq("related-calls", c.N(2500, 50000), func(r *R) {
		two := func(lo, hi float64) [2]float64 { return [2]float64{r.SmartF(lo, hi), r.SmartF(lo, hi)} }
		as, bs, vs := two(1, 500), two(0.5, 4), two(-60, 90)
		mins, maxs := two(0.1, 10), two(20, 300)
		lats, lons := two(46, 56), two(-1, 19)
		d := [2][2]int{pick(r, gridDims), pick(r, gridDims)}
		for k := range d { // the same grid at another resolution
			for d[k][0]%2 == 0 && d[k][1]%2 == 0 && r.Chance(50) {
				d[k][0], d[k][1] = d[k][0]/2, d[k][1]/2
			}
		}
		specs := []*Spec{r.genSpec(defOpts())}
		for specs[0].DimKind == 0 || specs[0].Rows*specs[0].Cols > 3000 {
			specs[0] = r.genSpec(defOpts())
		}
		for k := 0; k < 3; k++ { // variations of one file
			s := *specs[0]
			switch r.IntN(4) {
			case 0:
				s.Product = pick(r, knownLabels)
			case 1:
				s.Prec = r.IntN(5) - 2
			case 2:
				s.Rows, s.Cols = s.Cols, s.Rows
			case 3:
				s.Time = r.genTime()
			}
			if s.Enc == encRL && r.Chance(50) {
				s.genLevels(r)
			}
			s.genBody(r, defOpts())
			specs = append(specs, &s)
		}
		for k := 0; k < 30; k++ {
			what := ""
			r.Eval(1)
			switch r.IntN(5) {
			case 0:
				what = "relation"
				a, b, v := as[r.IntN(2)], bs[r.IntN(2)], float32(vs[r.IntN(2)])
				zr := radolan.NewZR(a, b)
				want := math.Pow(10, (float64(v)/10-math.Log10(a))/b)
				if got := radolan.PrecipitationRate(zr, v); !(math.Abs(got-want) <= 1e-6*want) {
					r.Fail("call %d: relation a=%v b=%v: %v dBZ gives %v mm/h, want %v", k, a, b, v, got, want)
					return
				}
				rate := math.Abs(float64(v)) + 0.1
				wz := 10 * (math.Log10(a) + b*math.Log10(rate))
				if got := radolan.Reflectivity(zr, rate); !(math.Abs(float64(got)-wz) <= 1e-5*(10+math.Abs(wz))) {
					r.Fail("call %d: relation a=%v b=%v: %v mm/h gives %v dBZ, want %v", k, a, b, rate, got, wz)
					return
				}
			case 1:
				what = "gradient"
				cp := compressions[r.IntN(2)]
				g := gradient{min: mins[r.IntN(2)], max: maxs[r.IntN(2)], comp: cp.fn, compName: cp.name}
				switch r.IntN(3) {
				case 0:
					g.kind, g.fn = "heatmap", vis.Heatmap(g.min, g.max, g.comp)
				case 1:
					g.kind, g.fn = "graymap", vis.Graymap(g.min, g.max, g.comp)
				case 2:
					g.kind, g.fn = "radialmap", vis.Radialmap(g.min, g.max, g.comp)
				}
				for _, v := range vs {
					if m := g.judge(v); m != "" {
						r.Fail("call %d: %s", k, m)
						return
					}
				}
			case 2, 3:
				what = "projection"
				g, f := d[r.IntN(2)], pick(r, []int{0, 4, 5, 6})
				comp := radolan.NewDummy(pick(r, knownLabels), f, g[0], g[1])
				ref := detectRef(g[0], g[1], f)
				if comp.HasProjection != (ref != nil) {
					r.Fail("call %d: dummy %dx%d version %d: projection %t", k, g[0], g[1], f, comp.HasProjection)
					return
				}
				if ref != nil && !r.point(comp, ref, g[0], g[1], lats[r.IntN(2)], lons[r.IntN(2)], "related call") {
					return
				}
			case 4:
				what = "reading"
				s := pick(r, specs)
				raw := s.build()
				r.Input(raw)
				comp, err := read(raw)
				if m := s.check(comp, err); m != "" {
					r.Fail("call %d: %s [header %q]", k, m, clip(s.header))
					return
				}
			}
			r.Cat("related call: " + what)
		}
		r.Distinct(hash64(r.i, as, lats))
	})
	c.freshProcesses()
	c.Seq("all-canaries", 1, func(r *R) {
		for i := range cans {
			if !canary(r, i) {
				return
			}
		}
		r.Eval(len(cans))
	})
	c.Need("canary runs", 5000)
	c.Need("files read again", 200)
}
