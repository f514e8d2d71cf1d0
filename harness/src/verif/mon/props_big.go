package main

import (
	"bytes"
	"io"
	"math"

	"gitlab.cs.fau.de/since/radolan"
)

// Grids of millions of pixels, whose meaning is not stored but given by a short
// pattern of words, bytes or rows that repeats itself.

type bigFile struct {
	*Spec
	raw  []byte
	want func(x, y int) (v, tol float64) // y from top to bottom
}

func (r *R) bigFile(enc encKind, rows, cols int) *bigFile {
	s := r.sized(genOpts{cells: 1, enc: int(enc), unit: -1, unknown: 5}, rows, cols)
	f := &bigFile{Spec: s}
	switch enc {
	case encLE, encSB:
		size, kinds := 1, 256
		if enc == encLE {
			size, kinds = 2, 65536
		}
		vals, tols := make([]float64, kinds), make([]float64, kinds)
		one := &Spec{Product: s.Product, Prec: s.Prec, Plain: make([]float64, 1), Tol: make([]float64, 1)}
		for w := range vals {
			one.Plain[0], one.Tol[0] = 0, 0
			if enc == encLE {
				one.setWord(0, 1, 1, uint16(w))
			} else {
				one.setByte(0, 1, 1, byte(w))
			}
			vals[w], tols[w] = one.Plain[0], one.Tol[0]
		}
		period := 10007 + r.IntN(100000)
		pat := make([]byte, period*size)
		words := make([]uint16, period)
		for k := range words {
			if enc == encLE {
				words[k] = r.genWord()
				pat[2*k], pat[2*k+1] = byte(words[k]), byte(words[k]>>8)
			} else {
				words[k] = uint16(r.IntN(256))
				pat[k] = byte(words[k])
			}
		}
		n := rows * cols * size
		s.Body = bytes.Repeat(pat, n/len(pat)+1)[:n]
		f.want = func(x, y int) (float64, float64) {
			w := words[((rows-1-y)*cols+x)%period]
			return vals[w], tols[w]
		}
	case encRL:
		lv := s.levelValues()
		pool := 7 + r.IntN(20)
		lines, plain := make([][]byte, pool), make([][]float64, pool)
		for k := range lines {
			plain[k] = make([]float64, cols)
			lines[k] = append(r.genRow(plain[k], lv, false), '\n')
			for x, v := range plain[k] {
				plain[k][x] = float64(float32(v))
			}
		}
		var buf bytes.Buffer
		for y := 0; y < rows; y++ {
			buf.Write(lines[y%pool])
		}
		s.Body = buf.Bytes()
		f.want = func(x, y int) (float64, float64) { return plain[y%pool][x], 0 }
	}
	f.raw = s.build()
	return f
}

func (f *bigFile) check(r *R, c *radolan.Composite, err error) bool {
	s := f.Spec
	switch {
	case c == nil:
		r.Fail("%dx%d: no composite (error: %v)", s.Cols, s.Rows, err)
		return false
	case s.unit() == uUnknown && err != radolan.ErrUnknownUnit, s.unit() != uUnknown && err != nil:
		r.Fail("%dx%d, product %s: error %v", s.Cols, s.Rows, s.Product, err)
		return false
	}
	m := s.checkMeta(c)
	if m == "" {
		m = checkShape(c)
	}
	if m != "" {
		r.Fail("%dx%d: %s [header %q]", s.Cols, s.Rows, m, clip(s.header))
		return false
	}
	for y, row := range c.PlainData {
		for x, g := range row {
			if v, tol := f.want(x, y); !sameF(g, v, tol) {
				r.Fail("%s %s: pixel (x=%d, y=%d) of %dx%d is %v, want %v", s.Product, encNames[s.Enc], x, y, s.Cols, s.Rows, g, v)
				return false
			}
			if h := c.Data[y][x]; math.Float32bits(h) != math.Float32bits(g) {
				r.Fail("%s %s: data (x=%d, y=%d) of %dx%d is %v, plain data %v", s.Product, encNames[s.Enc], x, y, s.Cols, s.Rows, h, g)
				return false
			}
		}
	}
	return true
}

// bigDims are the dimensions of grids of up to 100 million pixels.
func (r *R) bigDims(i int) (rows, cols int) {
	switch i {
	case 0:
		return 9999, 9999
	case 1:
		return 5800 + r.IntN(500), 5800 + r.IntN(500)
	case 2:
		return 2900 + r.IntN(600), 2900 + r.IntN(600)
	}
	n := 1 << (20 + r.IntN(6))
	rows = max(n/9999, 1) + r.IntN(9000)
	rows = min(rows, 9999)
	return rows, min(9999, n/rows+r.IntN(1000))
}

func (c *Ctx) bigStage(enc encKind) {
	c.par("millions-of-pixels", c.Size(5, 40), 4, func(r *R) {
		rows, cols := r.bigDims(r.i)
		f := r.bigFile(enc, rows, cols)
		comp, err := read(f.raw)
		r.Eval(1)
		if f.check(r, comp, err) {
			r.CatN("pixels compared", rows*cols)
			r.Cat("grids of millions of pixels")
			r.Distinct(hash64(f.header, rows, cols))
		}
	})
	c.Need("grids of millions of pixels", 4)
}

// bigCuts reads incomplete files of millions of pixels.
func (c *Ctx) bigCuts() {
	c.par("millions-of-pixels", c.Size(6, 40), 4, func(r *R) {
		rows, cols := r.bigDims(1 + r.i/3)
		f := r.bigFile(encKind(r.i%3), rows, cols)
		if comp, err := read(f.raw); comp != nil && (err == nil || err == radolan.ErrUnknownUnit) {
			r.Cat("complete file accepted")
		}
		n := len(f.raw)
		for k := 0; k < 6; k++ {
			cut := []int{n - 1, n - 2, n - 1 - r.IntN(cols), n - r.IntN(n/2), n/2 + r.IntN(3) - 1, n - r.IntN(n/9)}[k]
			fr := &faultReader{data: f.raw[:cut:cut], err: io.EOF, attach: r.Chance(40)}
			if r.Chance(40) {
				fr.err = r.fault()
			}
			comp, err := radolan.NewComposite(fr)
			r.Eval(1)
			if err == nil || err == radolan.ErrUnknownUnit {
				r.Fail("%v after %d of %d bytes of %dx%d pixels (%s): reading succeeded (composite %v) [header %q]",
					fr.err, cut, n, cols, rows, encNames[f.Enc], comp != nil, clip(f.header))
				return
			}
			r.Bulk(1)
			r.Cat("cut in files of millions of pixels")
		}
	})
	c.Need("cut in files of millions of pixels", 20)
}

// bulky reads archives of far more bytes than memory caches or size limits might be thought for.
func (c *Ctx) bulky() {
	c.par("bulky", c.Size(3, 9), 2, func(r *R) {
		// about 160 MB, or 400 in the second case
		n := 90 + r.IntN(20)
		if r.i%3 == 1 {
			n = 140 + r.IntN(20)
		}
		if r.i%3 == 2 { // few, but each very large
			n = 3
		}
		var specs []*Spec
		var files [][]byte
		var names []string
		rows, cols := 900, 900
		if r.i%3 == 1 {
			rows, cols = 1500, 900
		}
		if r.i%3 == 2 {
			rows, cols = 4000+r.IntN(500), 4500+r.IntN(500)
		}
		base := r.sized(genOpts{cells: 1, enc: int(encLE), unit: uMM}, rows, cols)
		base.Enc, base.HasLV, base.Levels = encLE, false, nil
		px, py, _, _, _ := base.geometry()
		base.Body = make([]byte, 2*px*py)
		base.Plain, base.Tol = make([]float64, px*py), make([]float64, px*py)
		for k := range base.Plain { // compresses well: a few values, then one
			w := uint16(0x2929)
			if k < 3000 {
				w = uint16(r.IntN(4096))
			}
			base.Body[2*k], base.Body[2*k+1] = byte(w), byte(w>>8)
			base.setWord(k, px, py, w)
		}
		for i := 0; i < n; i++ {
			s := *base
			s.VV = i
			specs, files, names = append(specs, &s), append(files, s.build()), append(names, s.Product+s.Time.Format("0601021504")+pad(i, 3, 1))
		}
		raw := bzip2Compress(r.tarFile(files, names), 9, 20000)
		size := len(files[0]) * n
		cs, err := radolan.NewComposites(bytes.NewReader(raw))
		r.Eval(1)
		if m := r.judge(specs, cs, err); m != "" {
			r.Fail("%d entries, %d MB in total: %s", n, size>>20, m)
			return
		}
		r.Distinct(hash64(raw))
		r.CatN("entries returned in order", n)
		r.Cat("archives of more than 100 MB")
	})
	c.Need("archives of more than 100 MB", 2)
}

// dense reads an archive of many megabytes even when compressed.
func (c *Ctx) dense() {
	c.par("dense", c.Size(1, 4), 2, func(r *R) {
		base := r.sized(genOpts{cells: 1, enc: int(encLE), unit: uMM}, 900, 900)
		base.Enc, base.HasLV, base.Levels = encLE, false, nil
		base.DimKind, base.Rows, base.Cols = 1, 900, 900
		const chunk = 30 * 900
		var words [chunk]uint16
		for k := range words {
			words[k] = uint16(r.IntN(4096))
		}
		base.Body = make([]byte, 2*900*900)
		base.Plain, base.Tol = make([]float64, 900*900), make([]float64, 900*900)
		for k := range base.Plain {
			w := words[k%chunk]
			base.Body[2*k], base.Body[2*k+1] = byte(w), byte(w>>8)
			base.setWord(k, 900, 900, w)
		}
		n := 16 + r.IntN(4)
		var specs []*Spec
		var files [][]byte
		var names []string
		for i := 0; i < n; i++ {
			s := *base
			s.VV = i
			specs, files, names = append(specs, &s), append(files, s.build()), append(names, s.Product+s.Time.Format("0601021504")+pad(i, 3, 1))
		}
		t := r.tarFile(files, names)
		var bounds []int
		for pos := 0; ; {
			k := bytes.Index(t[pos:], base.Body[:200])
			if k < 0 {
				break
			}
			pos += k
			bounds = append(bounds, pos)
			pos += 2 * chunk
			bounds = append(bounds, pos)
		}
		raw := bzParts(t, bounds)
		rd, by, done := r.typedReader(raw)
		r.Cat("dense archives from " + by)
		cs, err := radolan.NewComposites(rd)
		done()
		r.Eval(1)
		if m := r.judge(specs, cs, err); m != "" {
			r.Fail("%d entries, %d bytes compressed: %s", n, len(raw), m)
			return
		}
		r.Distinct(hash64(raw))
		r.CatN("entries returned in order", n)
		if len(raw) > 16<<20 {
			r.Cat("archives of more than 16 MB compressed")
		}
	})
}

// duplicates reads archives with equal entries: every one has a composite of its own.
func (c *Ctx) duplicates() {
	c.Par("duplicates", c.N(600, 10000), func(r *R) {
		specs, files, names := r.archive(1+r.IntN(6), 150)
		var ss []*Spec
		var fs [][]byte
		var ns []string
		for i := range specs {
			for k := 1 + r.IntN(3); k > 0; k-- {
				ss, fs = append(ss, specs[i]), append(fs, files[i])
				nm := names[i]
				if r.Chance(50) && len(nm) < 80 {
					nm += pad(k, 2, 1)
				}
				ns = append(ns, nm)
			}
		}
		r.Shuffle(len(ss), func(i, j int) { ss[i], ss[j] = ss[j], ss[i]; fs[i], fs[j] = fs[j], fs[i]; ns[i], ns[j] = ns[j], ns[i] })
		raw := r.bz(r.tarFile(fs, ns))
		r.Input(raw)
		cs, err := radolan.NewComposites(bytes.NewReader(raw))
		r.Eval(1)
		if m := r.judge(ss, cs, err); m != "" {
			r.Fail("%s", m)
			return
		}
		r.Distinct(hash64(raw))
		r.Cat("archives with equal entries")
	})
}

// apart tells whether the composites are different objects with storage of their own.
func apart(cs []*radolan.Composite) string {
	seen := map[any]int{}
	for i, c := range cs {
		keys := []any{c}
		for _, row := range c.PlainData {
			if len(row) > 0 {
				keys = append(keys, &row[0])
			}
		}
		if len(c.PlainData) > 0 {
			keys = append(keys, &c.PlainData[0])
		}
		if len(c.DataZ) > 0 {
			keys = append(keys, &c.DataZ[0])
		}
		for _, k := range keys {
			if j, ok := seen[k]; ok && j != i {
				return "two composites of an archive are one object or share their data"
			}
			seen[k] = i
		}
	}
	return ""
}
