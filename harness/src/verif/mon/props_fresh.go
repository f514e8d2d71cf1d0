package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"hash/crc32"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	"gitlab.cs.fau.de/since/radolan"
	"gitlab.cs.fau.de/since/radolan/radolan2png/vis"
)

// C18, fresh processes: a family of operations with related arguments. Each is
// executed alone, as the very first use of the package by a process, and in
// other processes after arbitrary others; its result has to be the same.

type family struct {
	labels, locals []string
	dims           [][2]int
	as, bs         [3]float64
	mins, maxs     [3]float64
	lats, lons     [3]float64
	specs          []*Spec
}

const familySize = 96

func (r *R) genFamily() *family {
	f := &family{}
	three := func(lo, hi float64) (v [3]float64) {
		for i := range v {
			v[i] = r.SmartF(lo, hi)
		}
		// close to each other, or equal but for a turn or the sign
		switch r.IntN(6) {
		case 0:
			v[1] = v[0] * (1 + math.Pow(10, -2-r.Float64()*12))
		case 1:
			v[1] = v[0] + math.Pow(10, -1-r.Float64()*10)
		case 2:
			v[1] = math.Nextafter(v[0], v[2])
		case 3:
			v[1] = float64(float32(v[0]))
		case 4:
			v[1] = math.Floor(v[0]) + 1
			v[2] = math.Floor(v[0]) + 1 + r.Float64()/100
		}
		return
	}
	for i := 0; i < 3; i++ {
		f.labels = append(f.labels, pick(r, knownLabels))
		f.locals = append(f.locals, pick(r, localLabels))
		d := pick(r, gridDims)
		f.dims = append(f.dims, d, [2]int{1 + r.IntN(30), 1 + r.IntN(30)})
		g := pick(r, sphereGrids)
		if i == 0 {
			g = wgsGrid
		}
		f.dims = append(f.dims, [2]int{g.cols << r.IntN(3), g.rows << r.IntN(3)})
	}
	f.as, f.bs = three(1, 500), three(0.5, 4)
	f.mins, f.maxs = three(0.1, 10), three(20, 300)
	f.lats, f.lons = three(46, 56), three(-1, 19)
	if r.Chance(20) {
		f.lons[1] = f.lons[0] + 360
	} else if r.Chance(20) {
		f.lons[1] = 20 - f.lons[0] // the other side of the central meridian
	} else if r.Chance(20) {
		f.lats[1] = -f.lats[0]
	}
	for i := 0; i < 4; i++ {
		o := defOpts()
		o.cells, o.local, o.unknown = 600, 0, 10
		s := r.genSpec(o)
		s.order = nil
		f.specs = append(f.specs, s)
	}
	return f
}

// vary changes one thing about a file of the family.
func (r *R) vary(f *family) *Spec {
	s := *pick(r, f.specs)
	s.extra = append([]string{}, s.extra...)
	for n := r.IntN(3); n >= 0; n-- {
		switch r.IntN(13) {
		case 10:
			s.Prec = max(s.Prec, 0) + pick(r, []int{-256, 256, 128, 64, -64, 100, -100})
		case 11: // equal in the lower bits or in the first digits only
			k := pick(r, []int{1 << 8, 1 << 12, 1 << 16, 1 << 32, 10000, 100000, 1000})
			switch r.IntN(3) {
			case 0:
				s.VV = max(s.VV, 0) + k
			case 1:
				s.INT = max(s.INT, 0) + k
			case 2:
				s.VS = max(s.VS, 0) + k
			}
		case 12:
			s.DimKind = 1
			switch k := pick(r, []int{16, 64, 128, 256, 512, 1024, 4096, 8192}); r.IntN(4) {
			case 0:
				s.Rows, s.Cols = 1+s.Rows%20+k, 1+s.Cols%4
			case 1:
				s.Rows, s.Cols = 1+s.Rows%4, 1+s.Cols%20+k
			case 2: // the same number of pixels, or the same text
				s.Rows, s.Cols = 1, s.Rows*s.Cols%9999+1
			case 3:
				s.Rows, s.Cols = pick(r, []int{1, 11, 111}), pick(r, []int{1, 11, 111})
			}
		case 0:
			s.Product = pick(r, f.labels)
		case 1:
			s.Prec = r.IntN(85) - 50
		case 2:
			s.Prec = r.IntN(7) - 4
		case 3:
			s.Rows, s.Cols = s.Cols, s.Rows
		case 4:
			d := f.dims[3*r.IntN(3)+1]
			s.DimKind, s.Cols, s.Rows = 1+r.IntN(2), d[0], d[1]
		case 5:
			s.Time = r.genTime()
		case 6:
			s.VV = pick(r, []int{absent, 0, r.IntN(1000), r.IntN(10000)})
		case 7:
			s.INT = pick(r, []int{absent, 0, r.IntN(10000)})
		case 8:
			s.VS = pick(r, []int{absent, 0, 4, 5, 6, r.IntN(1000), r.bigVersion()})
		case 9:
			s.extra = r.genExtras()
		}
	}
	s.Enc = encKind(r.IntN(3))
	s.HasLV, s.Levels = false, nil
	if s.Enc == encRL {
		s.genLevels(r)
	}
	s.genBody(r, defOpts())
	return &s
}

// freshOp is the k-th operation of a family; it makes its arguments without the
// package under test.
func (r *R) freshOp(f *family, k int) op {
	parse := func(kind string, raw []byte) op {
		return op{kind, func(_ *R, _ func()) uint64 { return fingerprint(read(raw)) }}
	}
	switch k % 16 {
	case 0, 1, 2, 3:
		return parse("parse", r.vary(f).build())
	case 4:
		s := r.genSpec(genOpts{cells: 1, enc: r.IntN(3), unit: -1})
		s.Product, s.DimKind = pick(r, f.locals), 0
		if k/16 > 2 { // large
			return parse("parse", r.vary(f).build())
		}
		s.genBody(r, defOpts())
		return parse("parse local", s.build())
	case 5:
		b := r.vary(f).build()
		return parse("parse cut", b[:r.IntN(len(b))])
	case 6:
		if r.Chance(50) {
			_, b := pick(r, c03Defects()).make(r)
			return parse("parse malformed header", b)
		}
		s := r.vary(f)
		b := r.mutate(s.build(), len(s.header))
		if huge(b) {
			b = b[:r.IntN(20)]
		}
		return parse("parse damaged", b)
	case 7, 8, 9:
		d := pick(r, f.dims)
		version := pick(r, []int{0, 3, 4, 5, 6, r.bigVersion(), -1})
		label := pick(r, append([]string{"", "QQ"}, append(f.labels, f.locals...)...))
		swap := r.Chance(10)
		d2 := d
		switch r.IntN(8) {
		case 0:
			d2[0] += r.alias()
		case 1:
			d2[1] += r.alias()
		case 2:
			d2[0], d2[1] = d[0]+r.alias(), d[1]+r.alias()
		case 3:
			k := 1 << r.IntN(5)
			d2[0], d2[1] = d[0]*k, d[1]/k
		case 4:
			version += r.alias()
		}
		d = d2
		return op{"dummy and projection", func(_ *R, _ func()) uint64 {
			if swap {
				d[0], d[1] = d[1], d[0]
			}
			c := radolan.NewDummy(label, version, d[0], d[1])
			h := hash64(c.HasProjection, c.Rx, c.Ry, c.Dx, c.Dy)
			for _, la := range f.lats {
				for _, lo := range f.lons {
					x, y := c.Project(la, lo)
					h = h*1099511628211 ^ math.Float64bits(x) ^ math.Float64bits(y)<<1
				}
			}
			return h
		}}
	case 10, 11:
		a, b := f.as[r.IntN(3)], f.bs[r.IntN(3)]
		std := r.IntN(2 * len(zrs))
		return op{"relation", func(_ *R, _ func()) uint64 {
			zr := radolan.ZR{}
			if std < len(zrs) {
				zr = zrs[std]
			} else {
				zr = radolan.NewZR(a, b)
			}
			h := uint64(0)
			for i := -40; i < 100; i += 3 {
				h = h*31 + math.Float64bits(radolan.PrecipitationRate(zr, float32(i)))
				h = h*31 + uint64(math.Float32bits(radolan.Reflectivity(zr, float64(i)*0.9+0.05)))
			}
			return h
		}}
	case 12, 13:
		lo, hi, kind, comp := f.mins[r.IntN(3)], f.maxs[r.IntN(3)], r.IntN(4), pick(r, compressions)
		fixed := pick(r, colorFuncs)
		return op{"gradient", func(_ *R, _ func()) uint64 {
			var fn vis.ColorFunc
			switch kind {
			case 0:
				fn = vis.Heatmap(lo, hi, comp.fn)
			case 1:
				fn = vis.Graymap(lo, hi, comp.fn)
			case 2:
				fn = vis.Radialmap(-hi, hi, comp.fn)
			case 3:
				fn = fixed.fn
			}
			h := uint64(0)
			for v := -1.2 * hi; v < 1.2*hi; v += hi / 50 {
				h = h*31 + hashColor(fn(v))
			}
			return h*31 + hashColor(fn(math.NaN()))
		}}
	case 14:
		if r.Chance(50) {
			_, files, names := r.archive(r.IntN(5), 60)
			b := r.bz(r.tarFile(files, names))
			if r.Chance(30) {
				b = b[:r.IntN(len(b))]
			}
			return op{"archive", func(_ *R, _ func()) uint64 {
				cs, err := radolan.NewComposites(bytes.NewReader(b))
				h := hash64(fmt.Sprint(err), len(cs))
				for _, c := range cs {
					h = h*31 + fingerprint(c, nil)
				}
				return h
			}}
		}
		raw := r.vary(f).build()
		return op{"parse and overwrite", func(_ *R, _ func()) uint64 {
			c, err := read(raw)
			h := fingerprint(c, err)
			if c != nil {
				for _, rows := range append(append([][][]float32{}, c.DataZ...), c.PlainData, c.Data) {
					for _, row := range rows {
						for i := range row {
							row[i] = 4711
						}
						_ = append(row, 815)
					}
				}
				c.Product, c.Dx, c.Dy, c.Dz, c.Rx, c.Ry, c.Format, c.DataUnit = "??", 3, 2, 9, 77, 78, 99, 0
			}
			return h
		}}
	}
	// a picture of a file, at all layers
	raw := r.vary(f).build()
	fn := pick(r, colorFuncs)
	return op{"parse, access and render", func(_ *R, _ func()) uint64 {
		c, _ := read(raw)
		if c == nil || checkShape(c) != "" {
			return 1
		}
		h := uint64(0)
		for z := -1; z <= c.Dz; z++ {
			img := vis.Image(fn.fn, c, z)
			h = h*31 + hash64(crc32.ChecksumIEEE(img.Pix), img.Rect)
			for x := -1; x <= c.Dx; x++ {
				if v := c.AtZ(x, x%c.Dy, z); v == v {
					h = h*31 + uint64(math.Float32bits(v))
				}
			}
		}
		return h
	}}
}

// propC18run executes the listed operations of a family and reports the results.
func propC18run(c *Ctx) {
	c.Seq("run", 1, func(r *R) {
		r.Rand = newRand(hash64(c.seed, "family"))
		f := r.genFamily()
		for pos, t := range strings.Split(c.list, ",") {
			k := 0
			fmt.Sscanf(t, "%d", &k)
			r.Rand = newRand(hash64(c.seed, "operation", k))
			o := r.freshOp(f, k)
			r.cats[fmt.Sprintf("%s#%d", o.kind, pos)] = int64(o.run(r, func() {}))
		}
	})
}

type opResult struct {
	kind string
	res  int64
}

// process executes operations of a family in a new process.
func (r *R) process(seed uint64, ops []int) []opResult {
	dir := r.tempDir()
	defer os.RemoveAll(dir)
	out := filepath.Join(dir, "result")
	list := strings.ReplaceAll(strings.Trim(fmt.Sprint(ops), "[]"), " ", ",")
	cmd := exec.Command(os.Args[0], "-prop", "C18run", "-seed", fmt.Sprint(seed), "-list", list, "-src", r.c.src, "-work", dir, "-out", out)
	var se bytes.Buffer
	cmd.Stderr = &se
	err := cmd.Run()
	var res result
	if b, rerr := os.ReadFile(out); rerr == nil {
		json.Unmarshal(b, &res)
	}
	if !res.Done {
		if text := se.String(); strings.Contains(text, "fatal error: ") || strings.Contains(text, "\npanic: ") || strings.HasPrefix(text, "panic: ") {
			r.fail(fmt.Sprintf("fresh process, operations %v: process died", ops), text[:min(len(text), 6000)])
			return nil
		}
		panic(fmt.Sprintf("harness: process: %v %s", err, se.String()))
	}
	if len(res.Violations) > 0 {
		v := res.Violations[0]
		r.fail(fmt.Sprintf("fresh process, operations %v: %s", ops, v.Msg), v.Detail)
		return nil
	}
	rs := make([]opResult, len(ops))
	for k, v := range res.Cats {
		kind, pos, _ := strings.Cut(k, "#")
		i := 0
		fmt.Sscanf(pos, "%d", &i)
		rs[i] = opResult{kind, v}
	}
	return rs
}

func (c *Ctx) freshProcesses() {
	families := c.N(10, 200)
	alone := make([]opResult, families*familySize)
	seed := func(fam int) uint64 { return hash64(c.seed, "fresh", fam) }
	c.Par("fresh-alone", families*familySize, func(r *R) {
		rs := r.process(seed(r.i/familySize), []int{r.i % familySize})
		if rs == nil {
			return
		}
		alone[r.i] = rs[0]
		r.Eval(1)
		r.Distinct(hash64("alone", r.i))
		r.Cat("operations executed as a process's first use of the package")
		r.Cat("first use: " + rs[0].kind)
	})
	c.Par("fresh-sequences", families*60, func(r *R) {
		fam := r.i / 60
		base := alone[fam*familySize : (fam+1)*familySize]
		ops := r.Perm(familySize)
		if n := 2 + r.IntN(6); r.Chance(50) { // short ones have many different first uses
			ops = ops[:n]
		}
		if c.only != "" { // replay of a single sequence
			for _, k := range ops {
				if rs := r.process(seed(fam), []int{k}); rs != nil {
					base[k] = rs[0]
				}
			}
		}
		for i, res := range r.process(seed(fam), ops) {
			k := ops[i]
			if base[k].kind == "" {
				continue // reported already
			}
			if res != base[k] {
				var before []string
				for _, p := range ops[:i] {
					before = append(before, fmt.Sprintf("%d (%s)", p, base[p].kind))
				}
				r.Fail("family %d: operation %d (%s) gives another result after the operations %s than as the first use of the package in a process",
					fam, k, res.kind, strings.Join(before, ", "))
				return
			}
			r.Eval(1)
		}
		r.CatN("operations repeated after others in a new process", len(ops))
		r.Distinct(hash64("sequence", fam, fmt.Sprint(ops)))
		r.Sample(func() any { return map[string]any{"family": fam, "operations": ops} })
	})
	c.Need("operations executed as a process's first use of the package", 200)
	c.Need("operations repeated after others in a new process", 5000)
}
