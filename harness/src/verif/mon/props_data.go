package main

import (
	"bufio"
	"bytes"
	"compress/gzip"
	"context"
	"errors"
	"fmt"
	"io"
	"math"
	"net"
	"os"
	"strings"
	"syscall"
	"time"

	"gitlab.cs.fau.de/since/radolan"
)

// sized draws a spec for a fixed encoding and grid.
func (r *R) sized(o genOpts, rows, cols int) *Spec {
	s := r.genSpec(genOpts{cells: 1, enc: o.enc, unit: o.unit, unknown: o.unknown, noExtras: o.noExtras})
	s.DimKind, s.Rows, s.Cols = 1, rows, cols
	if rows <= 999 && cols <= 999 && r.Chance(30) {
		s.DimKind = 2
	}
	return s
}

func (r *R) noteData(s *Spec) {
	r.Distinct(s.key())
	r.Cat("encoding " + encNames[s.Enc])
	r.Cat("unit " + unitNames[s.unit()])
	if s.Enc != encRL {
		r.Cat(fmt.Sprintf("precision %d", max(s.Prec, -99)))
	}
	r.CatN("pixels compared", len(s.Plain))
	r.Sample(s.describe)
}

func (c *Ctx) dataStages(enc encKind) {
	o := defOpts()
	o.enc = int(enc)
	o.unknown = 5
	o.local = 0
	// small and medium grids in great variety
	c.Par("varied", c.N(16000, 300000), func(r *R) {
		o := o
		o.cells = 4000
		s := r.genSpec(o)
		if r.verify(s) {
			r.noteData(s)
		}
	})
	// large grids, including the real ones
	c.Par("large", c.N(72, 1500), func(r *R) {
		o := o
		g := gridDims[r.i%len(gridDims)]
		rows, cols := g[1], g[0]
		if r.i%3 == 1 {
			rows, cols = r.Smart(1, 1600), r.Smart(1, 1600)
		}
		s := r.sized(o, rows, cols)
		s.genBody(r, o)
		if r.verify(s) {
			r.noteData(s)
		}
	})
	c.bigStage(enc)
	// extreme shapes
	c.Par("extreme-shapes", c.N(200, 4000), func(r *R) {
		rows, cols := r.Smart(1, 9999), r.Smart(1, 8)
		if r.i%2 == 0 {
			rows, cols = cols, rows
		}
		if r.i < 8 {
			rows, cols = []int{1, 9999, 1, 2, 4096, 2048, 999, 9999}[r.i], []int{9999, 1, 1, 4096, 2, 3, 999, 3}[r.i]
		}
		s := r.sized(o, rows, cols)
		s.genBody(r, o)
		if r.verify(s) {
			r.noteData(s)
		}
	})
	// as many pixels or bytes as a number of the source, and one more or less
	var areas []int
	for _, n := range c.dict.ints {
		for d := -1; d <= 1; d++ {
			if n+d > 60 && n+d <= 1<<22 && n <= c.Size(1<<19, 1<<22) {
				areas = append(areas, n+d)
			}
		}
	}
	c.Par("areas", c.Size(1, 4)*len(areas), func(r *R) {
		n := areas[r.i%len(areas)]
		if enc == encLE && r.Chance(30) {
			n = (n + 1) / 2
		}
		var shapes [][2]int
		for d := 1; d <= 9999 && d <= n; d++ {
			if n%d == 0 && n/d <= 9999 {
				shapes = append(shapes, [2]int{d, n / d})
			}
		}
		if len(shapes) == 0 {
			return
		}
		g := pick(r, shapes)
		rows, cols := g[0], g[1]
		s := r.sized(o, rows, cols)
		s.genBody(r, o)
		if r.verify(s) {
			r.noteData(s)
		}
	})
	// every product as it is distributed
	c.Par("published", len(knownLabels)*c.Size(8, 80), func(r *R) {
		s := r.published(r.i, enc, true)
		s.genBody(r, genOpts{})
		if r.verify(s) {
			r.noteData(s)
		}
	})
	// local products with plain and data dimensions of their own
	c.Par("local", c.N(42, 600), func(r *R) {
		s := r.genSpec(genOpts{cells: 10, enc: int(enc), unit: -1})
		s.Product = localLabels[r.i%len(localLabels)]
		s.DimKind = 0
		s.genBody(r, o)
		if r.verify(s) {
			r.noteData(s)
			r.Cat("local " + s.Product)
		}
	})
}

func propC04(c *Ctx) {
	c.Rule("Two-byte files built pixel by pixel from a meaning and read back; every pixel compared. Enumerated: all 65536 words for every precision -9..9 and undeclared, in every unit class, on grids of changing shape so that every word meets many positions. Sampled: grid shapes from 1x1 to 9999 columns/rows and 1400x1500, sparse and dense data. Distinct: whole file.")
	units := []int{uUnknown, uMM, uDBZ, uKM, uMPS}
	c.Par("all-words", 20*len(units), func(r *R) {
		prec := r.i/len(units) - 10
		if prec == -10 {
			prec = absent
		}
		u := units[r.i%len(units)]
		for k := 0; k < c.N(1, 6); k++ {
			o := genOpts{cells: 1, enc: int(encLE), unit: u}
			if u == uUnknown {
				o.unit, o.unknown = -1, 100
			}
			w := r.IntN(17)
			s := r.sized(o, 1<<w, 1)
			if w > 13 {
				s = r.sized(o, 1<<13, 8)
			} else {
				s = r.sized(o, 1<<w, min(1<<(16-w), 9999))
			}
			s.Prec = prec
			px, py, _, _, _ := s.geometry()
			s.genBody(r, o)
			perm := uint16(r.IntN(32768))*2 + 1
			n := px * py
			for j := 0; j < n; j++ {
				wd := uint16(j)*perm + uint16(r.i)
				s.Body[2*j], s.Body[2*j+1] = byte(wd), byte(wd>>8)
				d := (py-1-j/px)*px + j%px
				s.Plain[d], s.Tol[d] = 0, 0
				s.setWord(j, px, py, wd)
			}
			if !r.verify(s) {
				return
			}
			if n == 65536 {
				r.Cat("complete word enumerations")
			}
			r.noteData(s)
		}
	})
	c.dataStages(encLE)
	// the two unused flag bits never change a value: same file with bits 12 and 15 toggled
	c.Par("unused-flags", c.N(2000, 40000), func(r *R) {
		o := defOpts()
		o.enc, o.cells, o.local = int(encLE), 600, 0
		s := r.genSpec(o)
		a, erra := read(s.build())
		for k := 1; k < len(s.Body); k += 2 {
			s.Body[k] ^= byte(r.IntN(4)&1)<<4 | byte(r.IntN(2))<<7
		}
		raw := s.build()
		r.Input(raw)
		b, errb := read(raw)
		r.Eval(1)
		if a == nil || b == nil || (erra == nil) != (errb == nil) {
			r.Fail("errors %v and %v", erra, errb)
			return
		}
		for y := range a.PlainData {
			for x := range a.PlainData[y] {
				p, q := a.PlainData[y][x], b.PlainData[y][x]
				if math.Float32bits(p) != math.Float32bits(q) && !(p != p && q != q) {
					r.Fail("flag bits 13/16 change pixel (%d,%d) from %v to %v", x, y, p, q)
					return
				}
			}
		}
		r.Distinct(s.key())
	})
	c.Need("pixels compared", 1000000)
}

func propC05(c *Ctx) {
	c.Rule("One-byte files built pixel by pixel from a meaning and read back; every pixel compared. Enumerated: all 256 bytes for every precision -9..9 and undeclared and every catalogued product label, on grids of changing shape. Sampled: grid shapes from 1x1 to 9999 columns/rows and 1400x1500. Distinct: whole file.")
	c.Par("all-bytes", 20*len(knownLabels), func(r *R) {
		prec := r.i/len(knownLabels) - 10
		if prec == -10 {
			prec = absent
		}
		w := r.IntN(9)
		for k := 0; k < c.N(2, 20); k++ {
			s := r.sized(genOpts{cells: 1, enc: int(encSB), unit: -1}, 1<<w, 1<<(8-w))
			s.Product = knownLabels[r.i%len(knownLabels)]
			s.Prec = prec
			px, py, _, _, _ := s.geometry()
			s.genBody(r, genOpts{})
			perm := byte(r.IntN(128))*2 + 1
			for j := 0; j < px*py; j++ {
				b := byte(j)*perm + byte(r.i)
				s.Body[j] = b
				d := (py-1-j/px)*px + j%px
				s.Plain[d], s.Tol[d] = 0, 0
				s.setByte(j, px, py, b)
			}
			if !r.verify(s) {
				return
			}
			r.Cat("complete byte enumerations")
			r.noteData(s)
		}
	})
	c.dataStages(encSB)
	c.Need("pixels compared", 1000000)
}

func propC06(c *Ctx) {
	c.Rule("Run-length files are written run by run from a meaning (level table, offset chains including 255 continuations, runs of 0 to 15 pixels of all classes, uncovered tails, any line-number byte except newline) and read back; every pixel compared. Invalid files get exactly one bad row (offset byte below 16 anywhere in the chain, or a run crossing the row end by 1 to 15 pixels) and have to be rejected. Enumerated: every offset 0..1500, every (count, class) run byte for every number of levels 0..15. Distinct: whole file.")
	c.dataStages(encRL)
	// every offset
	c.Par("every-offset", 1501, func(r *R) {
		off := r.i
		for k := 0; k < c.N(1, 4); k++ {
			w := off + 1 + r.IntN(40)
			s := r.sized(genOpts{cells: 1, enc: int(encRL), unit: -1, unknown: 5}, 1+r.IntN(4), w)
			s.genLevels(r)
			s.genBody(r, genOpts{})
			lv := s.levelValues()
			var body []byte
			for y := 0; y < s.Rows; y++ {
				row := s.Plain[y*w : (y+1)*w]
				line := r.offsetRow(row, lv, off)
				body = append(append(body, line...), '\n')
			}
			s.Body = body
			if !r.verify(s) {
				return
			}
			r.Distinct(s.key())
			r.Cat("offsets enumerated")
		}
	})
	// rows much longer than their pixels need: runs of no pixels, endless offsets without a run
	c.Par("long-rows", c.N(120, 2000), func(r *R) {
		w := 1 + r.IntN(60)
		if r.Chance(10) {
			w = 5000 + r.IntN(4900)
		}
		s := r.sized(genOpts{cells: 1, enc: int(encRL), unit: -1, unknown: 5}, 1+r.IntN(6), w)
		s.genLevels(r)
		s.genBody(r, genOpts{})
		lv := s.levelValues()
		var body []byte
		for y := 0; y < s.Rows; y++ {
			row := s.Plain[y*w : (y+1)*w]
			line := r.offsetRow(row, lv, r.IntN(w+1))
			head := 2 // behind the line number and all offsets
			for line[head-1] == 255 {
				head++
			}
			n := r.Smart(0, 9000)
			switch r.IntN(3) {
			case 0: // runs of no pixels at the end
				for i := 0; i < n; i++ {
					line = append(line, byte(r.IntN(10)))
				}
			case 1: // or before the first
				var f []byte
				for i := 0; i < n; i++ {
					f = append(f, byte(11+r.IntN(5)))
				}
				line = append(line[:head:head], append(f, line[head:]...)...)
			case 2: // nothing but an offset far beyond the row
				for x := range row {
					row[x] = math.NaN()
				}
				line = line[:1]
				for i := 0; i < n; i++ {
					line = append(line, 255)
				}
				line = append(line, byte(16+r.IntN(239)))
			}
			body = append(append(body, line...), '\n')
		}
		s.Body = body
		if !r.verify(s) {
			return
		}
		r.Distinct(s.key())
		r.Cat("files of long rows")
	})
	// a run behind an offset so far that a narrow counter would be back in the row
	c.Par("far-offsets", c.N(400, 4000), func(r *R) {
		w := 1 + r.IntN(2000)
		bits := 8 + r.IntN(13)
		if r.i < 4 {
			bits = 31 + r.i%2
		}
		off := 1<<bits*(1+r.IntN(3)) + r.IntN(w)
		if r.i < 4 {
			off = 1<<bits + r.IntN(w)
		}
		if off < w {
			off += w
		}
		s := r.sized(genOpts{cells: 1, enc: int(encRL), unit: -1}, 1+r.IntN(3), w)
		s.genLevels(r)
		s.genBody(r, genOpts{})
		lv := s.levelValues()
		bad := r.IntN(s.Rows)
		var body []byte
		for y := 0; y < s.Rows; y++ {
			row := s.Plain[y*w : (y+1)*w]
			line := r.offsetRow(row, lv, r.IntN(w+1))
			if y == bad {
				n, o := off/239, off%239
				line = append([]byte{40}, bytes.Repeat([]byte{255}, n)...)
				line = append(line, byte(16+o), byte(1+r.IntN(15))<<4|byte(1+r.IntN(9)))
				for k, b := range line {
					if b == '\n' && k > 0 {
						line[k] = 0x11
					}
				}
			}
			body = append(append(body, line...), '\n')
		}
		b := *s
		b.Body = body
		raw := b.build()
		comp, err := read(raw)
		r.Eval(1)
		if err == nil || err == radolan.ErrUnknownUnit {
			r.Fail("a run %d pixels behind the begin of a row of %d accepted (composite %v)", off, w, comp != nil)
			return
		}
		r.Distinct(hash64(w, off, bad))
		r.Cat("rejected: run far beyond the row")
	})
	// every run byte with every number of levels
	c.Par("every-run-byte", 16*16, func(r *R) {
		nl := r.i / 16
		cnt := r.i % 16
		for class := 0; class < 16; class++ {
			b := byte(cnt<<4 | class)
			if b == '\n' {
				continue
			}
			for k := 0; k < c.N(2, 10); k++ {
				w := cnt + 1 + r.IntN(20)
				s := r.sized(genOpts{cells: 1, enc: int(encRL), unit: -1, unknown: 5}, 1, w)
				s.genLevels(r)
				for len(s.Levels) < nl {
					s.Levels = append(s.Levels, fmt.Sprintf("%5.1f", float64(r.IntN(700))/10))
				}
				s.Levels = s.Levels[:nl]
				lv := s.levelValues()
				s.Plain = make([]float64, w)
				for x := range s.Plain {
					s.Plain[x] = math.NaN()
				}
				off := r.IntN(w - cnt + 1)
				s.Body = []byte{byte(32 + r.IntN(200)), byte(16 + off), b, '\n'}
				if class >= 1 && class <= nl {
					for x := off; x < off+cnt; x++ {
						s.Plain[x] = lv[class-1]
					}
				}
				if !r.verify(s) {
					return
				}
				r.Distinct(s.key())
				r.Cat("run byte x level count")
			}
		}
	})
	// rejected rows
	c.Par("invalid-row", c.N(20000, 300000), func(r *R) {
		o := defOpts()
		o.enc, o.cells, o.local = int(encRL), 3000, 0
		s := r.genSpec(o)
		raw := s.build()
		cg, err := read(raw)
		if cg != nil && (err == nil || err == radolan.ErrUnknownUnit) {
			r.Cat("baseline accepted")
		}
		lines := bytes.SplitAfter(s.Body, []byte("\n"))
		lines = lines[:len(lines)-1]
		y := r.IntN(len(lines))
		if r.Chance(20) {
			y = []int{0, len(lines) - 1}[r.IntN(2)]
		}
		px, _, _, _, _ := s.geometry()
		var line []byte
		kind := ""
		lineNo := byte(32 + r.IntN(200))
		switch r.IntN(4) {
		case 0: // bad offset, possibly after continuation bytes
			kind = "offset below 16"
			line = []byte{lineNo}
			n := r.IntN(4)
			if r.Chance(3) {
				n = r.Smart(4, 20000)
			}
			for ; n > 0; n-- {
				line = append(line, 255)
			}
			b := byte(r.IntN(16))
			if b == '\n' {
				b = 15
			}
			line = append(line, b)
			if r.Chance(50) {
				line = append(line, 0x11)
			}
		case 1: // runs cross the end by 1..15 pixels
			kind = "runs exceed the row"
			line = []byte{lineNo}
			off := r.IntN(px + 1)
			pos := off
			for off >= 239 {
				line = append(line, 255)
				off -= 239
			}
			line = append(line, byte(16+off))
			for pos <= px {
				n := 1 + r.IntN(15)
				if pos+n > px && r.Chance(50) {
					n = px - pos + 1 // exceeds by exactly one
				}
				if n > 15 {
					n = 15
				}
				b := byte(n<<4 | r.IntN(16))
				line = append(line, b)
				pos += n
			}
		case 2: // offset beyond the end followed by a run
			kind = "run starts beyond the row"
			off := px + r.IntN(300)
			line = []byte{lineNo}
			for off >= 239 {
				line = append(line, 255)
				off -= 239
			}
			line = append(line, byte(16+off), byte(1+r.IntN(15))<<4|byte(1+r.IntN(9)))
		case 3: // a complete row followed by one run too many
			kind = "one run too many"
			line = []byte{lineNo, 16}
			for pos := 0; pos < px; {
				n := min(15, px-pos)
				b := byte(n<<4 | 1)
				line = append(line, b)
				pos += n
			}
			line = append(line, byte(1+r.IntN(15))<<4|byte(r.IntN(10)))
		}
		for k, b := range line {
			if b == '\n' && k > 0 {
				line[k] = 0x11 // never a row end inside the bad row
			}
		}
		lines[y] = append(line, '\n')
		b := *s
		b.Body = bytes.Join(lines, nil)
		raw = b.build()
		r.Input(raw)
		comp, err := read(raw)
		r.Eval(1)
		if err == nil || err == radolan.ErrUnknownUnit {
			r.Fail("row %d of %d with %s accepted (%x, width %d, composite %v)", y, len(lines), kind, line, px, comp != nil)
			return
		}
		r.Distinct(b.key())
		r.Cat("rejected: " + kind)
	})
	c.Need("baseline accepted", 1000)
	c.Need("pixels compared", 1000000)
}

// offsetRow writes one row with the given offset and a few runs.
func (r *R) offsetRow(dst, lv []float64, off int) []byte {
	for i := range dst {
		dst[i] = math.NaN()
	}
	line := []byte{byte(32 + r.IntN(220))}
	pos := off
	for off >= 239 {
		line = append(line, 255)
		off -= 239
	}
	line = append(line, byte(16+off))
	for pos < len(dst) {
		n := min(1+r.IntN(15), len(dst)-pos)
		k := 1 + r.IntN(15)
		b := byte(n<<4 | k)
		if b == '\n' {
			continue
		}
		line = append(line, b)
		for j := 0; j < n; j++ {
			if k <= len(lv) {
				dst[pos] = lv[k-1]
			}
			pos++
		}
	}
	return line
}

// ---- C07 ----

func propC07(c *Ctx) {
	c.Rule("Headers with a declared binary length of every kind (exact one byte, exact two bytes per pixel, off by one to many, zero, negative, multiples, other grids' sizes), with and without level table, for declared and local dimensions, followed by more than enough payload for any reading; the payload is sometimes shaped like another encoding. The oracle says which encoding the header selects and what the pixels are, or that the file is rejected. Distinct: header and payload.")
	o := defOpts()
	o.local = 0
	c.Par("lengths", c.N(60000, 1000000), func(r *R) {
		o := o
		o.cells = 900
		o.enc = r.IntN(3)
		s := r.genSpec(o)
		if s.Enc == encRL && r.Chance(20) {
			s.Levels = nil // empty level table
			s.genBody(r, o)
		}
		r.lengthCase(s)
	})
	c.Par("lengths-local", c.N(500, 5000), func(r *R) {
		o := o
		o.enc = r.IntN(3)
		s := r.genSpec(genOpts{cells: 10, enc: o.enc, unit: -1})
		s.Product = localLabels[r.i%len(localLabels)]
		s.DimKind = 0
		s.genBody(r, o)
		r.lengthCase(s)
	})
	// lengths of more than 16 million pixels, where narrow numbers are not exact
	c.par("lengths-large", c.N(3, 30), 3, func(r *R) {
		rows, cols := 4100+r.IntN(400), 4100+r.IntN(400)
		if r.i%2 == 1 {
			rows = 3400 + r.IntN(600)
			cols = 1<<24/rows + 1 + r.IntN(900)
		}
		f := r.bigFile([]encKind{encSB, encLE}[r.i%2], rows, cols)
		comp, err := read(f.raw)
		r.Eval(1)
		if !f.check(r, comp, err) {
			return
		}
		n := rows * cols
		for _, d := range []int{n - 1, n + 1, 2*n - 1, 2*n + 1} {
			b := *f.Spec // the header alone
			b.Body, b.byDelta = nil, d
			h, body := b.build(), f.Body
			comp, err := radolan.NewComposite(io.MultiReader(bytes.NewReader(h), bytes.NewReader(body), bytes.NewReader(body), bytes.NewReader(body)))
			r.Eval(1)
			if err == nil || err == radolan.ErrUnknownUnit {
				r.Fail("declared length of %d bytes for %d pixels accepted (composite %v): header %q", d, n, comp != nil, h)
				return
			}
			r.Cat("lengths of large grids rejected")
			r.Bulk(1)
		}
	})
	// local products have more plain than layer data: no other area is a valid length
	c.Par("local-areas", len(localLabels)*2, func(r *R) {
		s := r.genSpec(genOpts{cells: 10, enc: int(encSB), unit: -1})
		s.Product, s.DimKind = localLabels[r.i/2], 0
		s.Enc, s.HasLV = encSB, false
		s.genBody(r, genOpts{})
		px, py, dx, dy, dz := s.geometry()
		for _, d := range []int{dx * dy, 2 * dx * dy, px*py - dx*dy, 2 * (px*py - dx*dy), px*py + dx*dy, dz * dx * dy, dx * dy * 12, dx * dy * 24, px, py, 0, px * py, 2 * px * py} {
			r.declared(s, d)
		}
	})
	// every deviation around both exact lengths for small grids
	c.Par("every-deviation", 40*40, func(r *R) {
		s := r.sized(genOpts{cells: 1, enc: int(encSB), unit: -1, unknown: 5}, 1+r.i/40, 1+r.i%40)
		s.genBody(r, genOpts{})
		n := s.Rows * s.Cols
		for declared := 0; declared <= 3*n+3; declared++ {
			if n > 200 && !(declared < 4 || (declared > n-6 && declared < n+6) || (declared > 2*n-6 && declared < 2*n+6)) {
				continue
			}
			r.declared(s, declared)
		}
	})
	c.Par("mid", c.N(400, 8000), func(r *R) {
		o := o
		o.cells = 60000
		s := r.genSpec(o)
		r.lengthCase(s)
	})
	// odd lengths for the grids in use
	c.Par("grids", len(gridDims)*c.N(1, 6), func(r *R) {
		g := gridDims[r.i%len(gridDims)]
		s := r.sized(genOpts{cells: 1, enc: int(encSB) - r.IntN(2), unit: -1, unknown: 5}, g[1], g[0])
		s.genBody(r, genOpts{})
		n := g[0] * g[1]
		for _, d := range []int{0, 1, 2, -1, -n, -2 * n, n - 1, n + 1, 2*n - 1, 2*n + 1, n + g[0], 2*n + 2*g[0], n - g[0], n + g[1], 3 * n, 4 * n, 8 * n, n / 2, n / 4, n / 8, n + 2, n + 3, n - 2,
			2*n + 2, 2*n - 2, n + r.IntN(n), r.IntN(n), 2*n + r.IntN(9*n), g[0], g[1], g[0] * 4, n + n/4, n + n/8, 2*n + n/4, n + 1<<32, 2*n + 1<<32, n, 2 * n} {
			if !r.Chance(25) && d != 0 {
				continue
			}
			r.declared(s, d)
			if h := pick(r, gridDims); r.Chance(10) && h[0]*h[1] != n && h[0]*h[1] != 2*n && 2*h[0]*h[1] != n {
				r.declared(s, h[0]*h[1])
				r.declared(s, 2*h[0]*h[1])
			}
		}
		r.Cat("grids in use with odd lengths")
	})
	c.Need("selected "+encNames[encRL], 100)
	c.Need("selected "+encNames[encLE], 100)
	c.Need("selected "+encNames[encSB], 100)
	c.Need("rejected length", 100)
}

// lengthCase replaces the declared length of a sound file.
func (r *R) lengthCase(s *Spec) {
	px, py, dx, dy, dz := s.geometry()
	n := px * py
	var d int
	switch r.IntN(10) {
	case 9: // what looks the same in fewer bits
		d = pick(r, []int{n, 2 * n, n + r.IntN(9) - 4, 0}) + pick(r, []int{1, -1, 1, -1, 3, -3})<<pick(r, []int{8, 15, 16, 20, 24, 28, 30, 31, 31, 32, 32, 33, 40, 48, 52, 53, 56, 60})
	case 0, 1:
		d = n
	case 2, 3:
		d = 2 * n
	case 4:
		d = n + r.IntN(9) - 4
	case 5:
		d = 2*n + r.IntN(9) - 4
	case 6:
		d = pick(r, []int{0, 1, -1, 3 * n, 4 * n, n / 2, (n + 1) / 2, py * px * 3 / 2, px, py, px * 2, py * 2, n + len(s.Body), 1 << 20, -n, -2 * n, n + 1<<32, 2*n + 1<<32, n + 1<<16, n + 1<<8,
			dx * dy, 2 * dx * dy, dx * dy * dz, n - dx*dy, n + dx*dy, px * dy, 2 * px * dy, 3 * dx * dy, n + py, 2*n + py, n + len(s.header), 2*n + len(s.header)})
	case 7:
		d = r.IntN(3*n + 10)
	case 8:
		d = n*r.IntN(6) + r.IntN(2)*px - r.IntN(2)*px
	}
	r.declared(s, d)
}

// declared reads the file with a declared binary length of d bytes.
func (r *R) declared(s *Spec, d int) {
	px, py, _, _, _ := s.geometry()
	n := px * py
	b := *s
	// payload: as given, extended so that it suffices for any encoding
	payload := append([]byte{}, s.Body...)
	for len(payload) < 2*n+64 {
		payload = append(payload, byte(r.IntN(256)))
	}
	b.Body = payload
	b.byDelta = d - len(payload)
	raw := b.build()
	if !s.HasLV {
		switch d {
		case n:
			b.Enc = encSB
			b.Plain, b.Tol = make([]float64, n), make([]float64, n)
			for k := 0; k < n; k++ {
				b.setByte(k, px, py, payload[k])
			}
		case 2 * n:
			b.Enc = encLE
			b.Plain, b.Tol = make([]float64, n), make([]float64, n)
			for k := 0; k < n; k++ {
				b.setWord(k, px, py, uint16(payload[2*k])|uint16(payload[2*k+1])<<8)
			}
		default:
			r.Input(raw)
			comp, err := read(raw)
			r.Eval(1)
			if err == nil || err == radolan.ErrUnknownUnit {
				r.Fail("declared length of %d bytes for %d pixels accepted (composite %v): header %q", d, n, comp != nil, clip(b.header))
				return
			}
			r.Distinct(hash64(b.header))
			r.Cat("rejected length")
			return
		}
	}
	r.Input(raw)
	comp, err := read(raw)
	r.Eval(1)
	if m := b.check(comp, err); m != "" {
		r.Fail("declared length %d for %d pixels, level table %v: %s [header %q]", d, n, s.HasLV, m, clip(b.header))
		return
	}
	r.Distinct(hash64(b.header))
	r.Cat("selected " + encNames[b.Enc])
	r.Sample(b.describe)
}

// ---- C08, C09: readers ----

var errInjected = errors.New("injected read error")

// faultReader delivers data in the given chunk pattern and ends with err.
type faultReader struct {
	data    []byte
	pos     int
	chunk   func() int // next chunk size
	err     error      // delivered at the end
	attach  bool       // error together with the last bytes
	resume  []byte     // data delivered after the error (a reader that recovers)
	empty   func() bool
	empties int
	events  int
}

func (f *faultReader) Read(p []byte) (int, error) {
	f.events++
	if len(p) == 0 {
		return 0, nil
	}
	if f.empty != nil && f.empties < 20 && f.empty() {
		f.empties++
		return 0, nil
	}
	f.empties = 0
	if f.pos >= len(f.data) {
		if f.resume != nil && f.events > 0 && f.err == nil {
			return 0, io.EOF
		}
		e := f.err
		if f.resume != nil {
			f.data, f.pos, f.err = f.resume, 0, nil
			f.resume = []byte{}
		}
		if e == nil {
			e = io.EOF
		}
		return 0, e
	}
	n := len(p)
	if f.chunk != nil {
		n = min(n, max(1, f.chunk()))
	}
	n = copy(p[:n], f.data[f.pos:])
	f.pos += n
	if f.pos == len(f.data) && f.attach && f.resume == nil {
		return n, f.err
	}
	return n, nil
}

// keptReader belongs to somebody who keeps using it.
type keptReader struct {
	*faultReader
	misused string
}

func (k *keptReader) Close() error { k.misused = "Close"; return nil }

func (r *R) chunker() func() int {
	switch r.IntN(9) {
	case 0:
		return func() int { return 1 }
	case 1:
		return func() int { return 2 }
	case 2:
		return func() int { return 1 + r.IntN(7) }
	case 3:
		return func() int { return 4095 + r.IntN(3) }
	case 4:
		k := 1 + r.IntN(64)
		return func() int { return k }
	case 5:
		return func() int { return 1 + r.IntN(5000) }
	case 6:
		return func() int { return 512 }
	case 7:
		first := 1 + r.IntN(300)
		return func() int { k := first; first = 1 << 20; return k }
	}
	return nil
}

// faults a reader may report
func (r *R) fault() error {
	return pick(r, []error{errInjected, errInjected, io.ErrUnexpectedEOF, io.ErrNoProgress, io.ErrShortBuffer, io.ErrClosedPipe,
		os.ErrDeadlineExceeded, syscall.EINTR, syscall.EAGAIN, fmt.Errorf("wrapped: %w", io.EOF), fmt.Errorf("EOF"),
		io.EOF, context.Canceled, context.DeadlineExceeded, &net.OpError{Op: "read", Net: "tcp", Err: os.ErrDeadlineExceeded}, &os.PathError{Op: "read", Path: "in", Err: syscall.EIO},
		errors.New(pick(r, []string{"timeout", "", "eof", "unexpected EOF", "short read", "temporary failure", "closed", "newline", "try again", "done", "nil"}))})
}

// typedReader delivers data through one of the standard readers, often one that
// has delivered something else before. done releases it and tells whether it was
// closed meanwhile.
func (r *R) typedReader(data []byte) (rd io.Reader, kind string, done func() string) {
	done = func() string { return "" }
	file := func(f *os.File) func() string {
		return func() string {
			_, err := f.Stat()
			io.Copy(io.Discard, f) // until a writer has finished
			f.Close()
			if err != nil {
				return "the file was closed: " + err.Error()
			}
			return ""
		}
	}
	pipe := func(p io.ReadCloser) func() string {
		return func() string {
			_, err := io.Copy(io.Discard, p)
			p.Close()
			if err == io.ErrClosedPipe {
				return "the reading end was closed"
			}
			return ""
		}
	}
	junk := make([]byte, r.Smart(1, 9000))
	for i := range junk {
		junk[i] = byte(r.IntN(256))
	}
	all := append(append(make([]byte, 0, len(junk)+len(data)), junk...), data...)
	skip := int64(len(junk))
	// feed writes in pieces, sometimes slowly
	feed := func(w io.WriteCloser) {
		f := &faultReader{data: data, err: io.EOF, chunk: r.branch(int(r.Uint32())).chunker()}
		rests := 0
		if r.Chance(25) {
			rests = 1 + r.IntN(4)
		}
		pause := time.Duration(r.IntN(4000)) * time.Microsecond
		go func() {
			b := make([]byte, 1<<16)
			for {
				n, err := f.Read(b)
				if n > 0 {
					if _, err := w.Write(b[:n]); err != nil {
						break
					}
				}
				if err != nil {
					break
				}
				if rests > 0 {
					rests--
					time.Sleep(pause)
				}
			}
			w.Close()
		}()
	}
	switch r.IntN(16) {
	case 11:
		pr, pw, err := os.Pipe()
		must(err)
		feed(pw)
		return pr, "os.Pipe", file(pr)
	case 12:
		a, b := net.Pipe()
		feed(b)
		return a, "net.Conn", pipe(a)
	case 13:
		var b bytes.Buffer
		z := gzip.NewWriter(&b)
		z.Write(data)
		z.Close()
		g, err := gzip.NewReader(&b)
		must(err)
		return g, "gzip.Reader", done
	case 14:
		f, err := os.CreateTemp(r.c.work, "in")
		must(err)
		os.Remove(f.Name())
		f.Write(data)
		f.Seek(0, io.SeekStart)
		return f, "os.File", file(f)
	case 0:
		return strings.NewReader(string(data)), "strings.Reader", done
	case 1:
		b := bytes.NewReader(all)
		b.Seek(skip, io.SeekStart)
		return b, "bytes.Reader in the middle", done
	case 2:
		b := strings.NewReader(string(all))
		io.CopyN(io.Discard, b, skip)
		return b, "strings.Reader in the middle", done
	case 3:
		b := bytes.NewBuffer(append([]byte{}, all...))
		b.Next(int(skip))
		return b, "bytes.Buffer", done
	case 4:
		b := bufio.NewReaderSize(bytes.NewReader(data), pick(r, []int{16, 64, 100, 4095, 4096, 4097, 70000}))
		return b, "bufio.Reader", done
	case 5:
		b := bufio.NewReaderSize(&faultReader{data: all, err: io.EOF, chunk: r.chunker()}, pick(r, []int{16, 300, 4096, 70000}))
		b.Discard(int(skip))
		b.Peek(r.IntN(20))
		return b, "bufio.Reader in the middle", done
	case 6:
		return io.NewSectionReader(bytes.NewReader(all), skip, int64(len(data))), "io.SectionReader", done
	case 7:
		return io.LimitReader(bytes.NewReader(append(append([]byte{}, data...), junk...)), int64(len(data))), "io.LimitReader", done
	case 8:
		k := r.IntN(len(data) + 1)
		return io.MultiReader(bytes.NewReader(data[:k]), strings.NewReader(""), bytes.NewBuffer(append([]byte{}, data[k:]...))), "io.MultiReader", done
	case 9:
		pr, pw := io.Pipe()
		f := &faultReader{data: data, err: io.EOF, chunk: r.branch(int(r.Uint32())).chunker()}
		go func() {
			_, err := io.Copy(pw, struct{ io.Reader }{f})
			pw.CloseWithError(err)
		}()
		return pr, "io.Pipe", pipe(pr)
	}
	f, err := os.CreateTemp(r.c.work, "in")
	if err != nil {
		panic("harness: " + err.Error())
	}
	os.Remove(f.Name())
	f.Write(all)
	f.Seek(skip, io.SeekStart)
	return f, "os.File in the middle", file(f)
}

func (r *R) tryCut(s *Spec, raw []byte, cut int) bool {
	f := &faultReader{data: raw[:cut:cut], err: io.EOF, chunk: r.chunker(), attach: r.Chance(40)}
	kind := "end of file"
	switch r.IntN(4) {
	case 0, 1:
		f.err, kind = r.fault(), "reader error"
	case 2:
		if r.Chance(30) {
			f.err, kind, f.attach = r.fault(), "reader error, later recovered", false
			f.resume = raw[cut:]
		}
	}
	var rd io.Reader = f
	done := func() string { return "" }
	if kind == "end of file" && r.Chance(20) {
		rd, kind, done = r.typedReader(raw[:cut:cut])
		kind = "end of file, " + kind
	}
	comp, err := radolan.NewComposite(rd)
	done()
	r.Eval(1)
	if err == nil || err == radolan.ErrUnknownUnit {
		r.Input(raw[:cut])
		r.Fail("%s after %d of %d bytes (header %d, %s): reading succeeded (composite %v, error %v) [header %q]",
			kind, cut, len(raw), len(s.header), encNames[s.Enc], comp != nil, err, clip(s.header))
		return false
	}
	r.Cat("reported: " + kind)
	switch {
	case cut < len(s.header):
		r.Cat("cut in header")
	case cut == len(s.header):
		r.Cat("cut after header")
	case cut == len(raw)-1:
		r.Cat("cut before last byte")
	default:
		r.Cat("cut in data " + encNames[s.Enc])
	}
	return true
}

func propC08(c *Ctx) {
	c.Rule("Complete files of all encodings are cut after k bytes, followed by EOF, unexpected EOF or another error, alone or together with the last bytes, in varying read sizes; sometimes the reader later delivers the rest. Reading has to fail with a real error. Small files: every k. Large files: every row boundary neighbourhood, 4096-byte buffer boundaries and random k. Distinct: (file, k).")
	o := defOpts()
	o.local = 0
	c.Par("every-cut", c.N(1500, 30000), func(r *R) {
		o := o
		o.cells = 300
		o.unknown = 20
		s := r.genSpec(o)
		raw := s.build()
		if comp, err := read(raw); s.check(comp, err) == "" {
			r.Cat("complete file accepted")
		}
		for k := 0; k < len(raw); k++ {
			if !r.tryCut(s, raw, k) {
				return
			}
		}
		r.Distinct(s.key())
		r.Bulk(len(raw) - 1)
		r.Sample(s.describe)
	})
	large := func(r *R, s *Spec) {
		raw := s.build()
		px, _, _, _, _ := s.geometry()
		if comp, err := read(raw); s.check(comp, err) == "" {
			r.Cat("complete file accepted")
		}
		cuts := map[int]bool{len(raw) - 1: true, len(raw) - 2: true, len(s.header): true, len(s.header) - 1: true, len(s.header) + 1: true}
		for j := 0; j < 25; j++ {
			cuts[r.IntN(len(raw))] = true
			cuts[4096*(1+r.IntN(1+len(raw)/4096))+r.IntN(3)-1] = true
			w := px
			if s.Enc == encLE {
				w *= 2
			}
			if s.Enc == encRL {
				from := r.IntN(len(raw))
				if i := bytes.IndexByte(raw[from:], '\n'); i >= 0 {
					cuts[from+i] = true
					cuts[from+i+1] = true
				}
			} else {
				cuts[len(s.header)+w*r.IntN(1+len(s.Body)/w)+r.IntN(3)-1] = true
				cuts[len(raw)-w+r.IntN(3)-1] = true
			}
		}
		// the last rows and the newline of each of the last rows
		for j := 0; j < 8; j++ {
			cuts[len(raw)-1-r.IntN(min(len(s.Body), 4*px+4))] = true
		}
		for k := range cuts {
			if k >= 0 && k < len(raw) {
				if !r.tryCut(s, raw, k) {
					return
				}
				r.Bulk(1)
			}
		}
	}
	c.Par("large", c.N(500, 9000), func(r *R) {
		o := o
		o.cells = 60000
		s := r.genSpec(o)
		large(r, s)
	})
	c.Par("grids", c.N(32, 500), func(r *R) {
		g := gridDims[r.i%len(gridDims)]
		s := r.sized(o, g[1], g[0])
		s.genBody(r, o)
		large(r, s)
	})
	c.Par("wide", c.N(120, 2000), func(r *R) {
		w := 2000 + r.IntN(8000)
		if r.Chance(30) {
			w = r.Smart(10000, 80000)
		}
		s := r.sized(o, 1+r.IntN(3), w)
		s.genBody(r, o)
		large(r, s)
	})
	c.Par("local", c.N(28, 500), func(r *R) {
		s := r.genSpec(genOpts{cells: 10, enc: r.i % 3, unit: -1})
		s.Product = localLabels[r.i%len(localLabels)]
		s.DimKind = 0
		s.genBody(r, o)
		large(r, s)
	})
	c.bigCuts()
	c.Need("complete file accepted", 500)
}

func compareComposites(a, b *radolan.Composite) string {
	if (a == nil) != (b == nil) {
		return "one result is nil"
	}
	if a == nil {
		return ""
	}
	fl := func(x, y float64) bool { return x == y || (x != x && y != y) }
	switch {
	case a.Product != b.Product || a.DataUnit != b.DataUnit || a.Format != b.Format:
		return "product, unit or version differ"
	case !a.CaptureTime.Equal(b.CaptureTime) || !a.ForecastTime.Equal(b.ForecastTime) || a.Interval != b.Interval:
		return "times differ"
	case a.Px != b.Px || a.Py != b.Py || a.Dx != b.Dx || a.Dy != b.Dy || a.Dz != b.Dz:
		return "dimensions differ"
	case !fl(a.Rx, b.Rx) || !fl(a.Ry, b.Ry) || a.HasProjection != b.HasProjection:
		return "resolution or projection differ"
	}
	if m := sameRows("plain data", a.PlainData, b.PlainData); m != "" {
		return m
	}
	if m := sameRows("data", a.Data, b.Data); m != "" {
		return m
	}
	if len(a.DataZ) != len(b.DataZ) {
		return "number of layers differs"
	}
	for z := range a.DataZ {
		if m := sameRows(fmt.Sprintf("layer %d", z), a.DataZ[z], b.DataZ[z]); m != "" {
			return m
		}
	}
	for _, p := range [][2]float64{{51, 9}, {54.2, 13.7}, {46.5, 5.1}} {
		ax, ay := a.Project(p[0], p[1])
		bx, by := b.Project(p[0], p[1])
		if !fl(ax, bx) || !fl(ay, by) {
			return "projected coordinates differ"
		}
	}
	return ""
}

func sameRows(what string, a, b [][]float32) string {
	if len(a) != len(b) {
		return what + ": number of rows differs"
	}
	for y := range a {
		if len(a[y]) != len(b[y]) {
			return fmt.Sprintf("%s: row %d differs in length", what, y)
		}
		for x := range a[y] {
			p, q := a[y][x], b[y][x]
			if p != q && !(p != p && q != q) {
				return fmt.Sprintf("%s: (x=%d, y=%d) is %v and %v", what, x, y, p, q)
			}
		}
	}
	return ""
}

func propC09(c *Ctx) {
	c.Rule("Each complete file is read in one piece and then through readers that deliver single bytes, fixed or random chunks, 4095-4097 byte chunks, empty reads in between, EOF or another error together with or after the last byte, and with random trailing bytes (newlines, terminators, another file). Every delivery has to give the pixels and metadata of the meaning. Distinct: (file, delivery pattern).")
	o := defOpts()
	o.local = 0
	one := func(r *R, s *Spec, patterns int) {
		raw := s.build()
		r.Input(raw)
		ref, rerr := read(raw)
		if m := s.check(ref, rerr); m != "" {
			r.Fail("in one piece: %s", m)
			return
		}
		for k := 0; k < patterns; k++ {
			data := raw
			kind := "exact"
			if r.Chance(40) {
				kind = "trailing"
				var t []byte
				switch r.IntN(7) {
				case 0:
					t = []byte{'\n'}
				case 1:
					t = []byte{3}
				case 2:
					t = raw
				case 3:
					t = make([]byte, r.IntN(9000))
				case 4:
					t = []byte(strings.Repeat("\n", 1+r.IntN(300)))
				default:
					t = make([]byte, 1+r.IntN(600))
					for j := range t {
						t[j] = byte(r.IntN(256))
					}
				}
				data = append(append([]byte{}, raw...), t...)
			}
			f := &faultReader{data: data, err: io.EOF, chunk: r.chunker(), attach: r.Chance(50)}
			if r.Chance(25) {
				f.err = r.fault()
				kind += ", error after the end"
			}
			if r.Chance(30) {
				f.empty = func() bool { return r.IntN(4) == 0 }
				kind += ", empty reads"
			}
			if f.attach {
				kind += ", attached"
			}
			var comp *radolan.Composite
			var err error
			if r.Chance(25) {
				rd, name, done := r.typedReader(data)
				kind = name
				comp, err = radolan.NewComposite(rd)
				if m := done(); m != "" {
					r.Fail("delivery %q: %s", kind, m)
					return
				}
			} else if r.Chance(20) {
				k := &keptReader{faultReader: f}
				comp, err = radolan.NewComposite(k)
				kind += ", with other methods"
				if k.misused != "" {
					r.Fail("delivery %q: %s called on the reader", kind, k.misused)
					return
				}
			} else {
				comp, err = radolan.NewComposite(f)
			}
			r.Eval(1)
			if err != rerr {
				r.Fail("delivery %q: error %v, in one piece %v [header %q]", kind, err, rerr, clip(s.header))
				return
			}
			if m := compareComposites(ref, comp); m != "" {
				r.Fail("delivery %q: %s", kind, m)
				return
			}
			if m := s.check(comp, err); m != "" {
				r.Fail("delivery %q: %s", kind, m)
				return
			}
			r.Cat("delivery: " + kind)
			r.CatN("reads delivered", f.events)
			r.Distinct(hash64(s.header, k, f.events, kind))
		}
		r.Sample(s.describe)
	}
	c.Par("small", c.N(6000, 120000), func(r *R) {
		o := o
		o.cells = 800
		one(r, r.genSpec(o), 8)
	})
	c.Par("medium", c.N(500, 9000), func(r *R) {
		o := o
		o.cells = 30000
		one(r, r.genSpec(o), 6)
	})
	c.Par("grids", c.N(24, 400), func(r *R) {
		g := gridDims[r.i%len(gridDims)]
		s := r.sized(o, g[1], g[0])
		s.genBody(r, o)
		one(r, s, 4)
	})
	c.Par("wide", c.N(80, 1500), func(r *R) {
		s := r.sized(o, 1+r.IntN(5), 1000+r.IntN(9000))
		s.genBody(r, o)
		one(r, s, 6)
	})
	c.par("millions-of-pixels", c.N(3, 20), 3, func(r *R) {
		f := r.bigFile(encKind(r.i%3), 3000+r.IntN(300), 5700+r.IntN(300))
		for k := 0; k < 3; k++ {
			fr := &faultReader{data: f.raw, err: io.EOF, attach: r.Chance(50)}
			if c := r.chunker(); k > 0 && c != nil {
				fr.chunk = func() int { return max(c(), 100) }
			}
			comp, err := radolan.NewComposite(fr)
			r.Eval(1)
			if !f.check(r, comp, err) {
				return
			}
			r.CatN("reads delivered", fr.events)
			r.Bulk(1)
		}
		r.Cat("grids of millions of pixels")
	})
	c.Par("local", c.N(28, 400), func(r *R) {
		s := r.genSpec(genOpts{cells: 10, enc: r.i % 3, unit: -1})
		s.Product = localLabels[r.i%len(localLabels)]
		s.DimKind = 0
		s.genBody(r, o)
		one(r, s, 4)
	})
}

// ---- C10 ----

// wraps draws an n for which the product of m and n is t in arithmetic of the
// given number of bits, or close to it if there is none.
func (r *R) wraps(m, t, bits int) int {
	k := 0
	for ; m&1 == 0; k++ {
		m >>= 1
	}
	t >>= k
	inv := m // inverse of an odd number: Newton's iteration
	for i := 0; i < 6; i++ {
		inv *= 2 - m*inv
	}
	n := t * inv
	if w := bits - k; w < 64 {
		n &= 1<<max(w, 0) - 1
		n += r.IntN(1<<min(r.IntN(20), 63-max(w, 0))) << max(w, 0)
	}
	return n
}

func propC10(c *Ctx) {
	c.Rule("Files of all encodings and products (single layer, stripped elevation, twelve layers) are read; every valid coordinate of every layer is accessed and compared with the meaning, and thousands of invalid coordinates (neighbours of the edges, random, extreme integers, combinations that would wrap) have to give NaN. Rows and layers are then overwritten one at a time to observe shared storage. Distinct: file.")
	extremes := []int{math.MinInt, math.MinInt + 1, -1 << 32, -1 << 31, -9999, -2, -1, 1 << 31, 1<<31 - 1, 1 << 32, math.MaxInt, math.MaxInt - 1}
	one := func(r *R, s *Spec) {
		raw := s.build()
		r.Input(raw)
		comp, err := read(raw)
		r.Eval(1)
		if m := s.check(comp, err); m != "" {
			r.Fail("%s [header %q]", m, clip(s.header))
			return
		}
		px, py, dx, dy, dz := s.geometry()
		for z := 0; z < dz; z++ {
			for y := 0; y < dy; y++ {
				p := z*dy + y
				if py%dy != 0 {
					p = py - dy + y
				}
				for x := 0; x < dx; x++ {
					v, tol := s.at(p, x, px)
					if g := comp.AtZ(x, y, z); !sameF(g, v, tol) {
						r.Fail("AtZ(%d, %d, %d) is %v, want %v", x, y, z, g, v)
						return
					}
					if z == 0 {
						if g := comp.At(x, y); !sameF(g, v, tol) {
							r.Fail("At(%d, %d) is %v, want %v", x, y, g, v)
							return
						}
					}
				}
			}
		}
		r.CatN("valid coordinates accessed", dx*dy*dz)
		bad := func(n, k int) int {
			switch k {
			case 0:
				return n
			case 1:
				return n + 1 + r.IntN(50)
			case 2:
				return -1 - r.IntN(50)
			case 3:
				return pick(r, extremes)
			case 4:
				return n + r.IntN(1<<30)
			}
			return 2 * n
		}
		for k := 0; k < 300; k++ {
			x, y, z := r.IntN(dx), r.IntN(dy), r.IntN(dz)
			m := 1 + r.IntN(7)
			if m&1 != 0 {
				x = bad(dx, r.IntN(6))
			}
			if m&2 != 0 {
				y = bad(dy, r.IntN(6))
			}
			if m&4 != 0 {
				z = bad(dz, r.IntN(6))
			}
			if k%4 == 0 { // an index computed from these in so many bits is one of an existing value
				m = 7
				bits := pick(r, []int{64, 64, 32, 16})
				x, y, z = r.IntN(dx), r.IntN(dy), r.IntN(dz)
				switch r.IntN(5) {
				case 0:
					z = r.wraps(dx*dy, r.IntN(dx*dy*dz)-y*dx-x, bits)
				case 1:
					z = r.wraps(dy, r.IntN(dy*dz)-y, bits)
				case 2:
					y = r.wraps(dx, r.IntN(dx*dy)-x, bits)
				case 3:
					y = r.wraps(1, r.IntN(dy), bits)
				case 4:
					x = r.wraps(1, r.IntN(dx), bits)
				}
				if x >= 0 && y >= 0 && z >= 0 && x < dx && y < dy && z < dz {
					continue
				}
				if x >= 0 && y >= 0 && x < dx && y < dy {
					m = 4
				}
				r.Cat("coordinates whose index wraps")
			}
			if g := comp.AtZ(x, y, z); g == g {
				r.Fail("AtZ(%d, %d, %d) outside %dx%dx%d is %v, not NaN", x, y, z, dx, dy, dz, g)
				return
			}
			if m&3 != 0 {
				if g := comp.At(x, y); g == g {
					r.Fail("At(%d, %d) outside %dx%d is %v, not NaN", x, y, dx, dy, g)
					return
				}
			}
		}
		r.CatN("invalid coordinates accessed", 300)
		// storage: give every layer cell a unique value and look for overwritten ones
		id := float32(1)
		for z := range comp.DataZ {
			for y := range comp.DataZ[z] {
				for x := range comp.DataZ[z][y] {
					comp.DataZ[z][y][x] = id
					id++
				}
			}
		}
		id = 1
		for z := range comp.DataZ {
			for y := range comp.DataZ[z] {
				for x := range comp.DataZ[z][y] {
					if comp.DataZ[z][y][x] != id || comp.AtZ(x, y, z) != id {
						r.Fail("layers or rows share storage: (x=%d, y=%d, z=%d)", x, y, z)
						return
					}
					if z == 0 && (comp.Data[y][x] != id || comp.At(x, y) != id) {
						r.Fail("two-dimensional data is not layer 0: (x=%d, y=%d)", x, y)
						return
					}
					id++
				}
			}
		}
		id = 1
		for y := range comp.PlainData {
			for x := range comp.PlainData[y] {
				comp.PlainData[y][x] = id
				id++
			}
		}
		id = 1
		for y := range comp.PlainData {
			for x := range comp.PlainData[y] {
				if comp.PlainData[y][x] != id {
					r.Fail("plain rows share storage: (x=%d, y=%d)", x, y)
					return
				}
				id++
			}
		}
		r.Distinct(s.key())
		r.Cat(fmt.Sprintf("layers %d", dz))
		r.Sample(s.describe)
	}
	o := defOpts()
	o.local = 0
	c.Par("varied", c.N(9000, 160000), func(r *R) {
		o := o
		o.cells = 2500
		one(r, r.genSpec(o))
	})
	c.Par("grids", c.N(32, 500), func(r *R) {
		g := gridDims[r.i%len(gridDims)]
		s := r.sized(o, g[1], g[0])
		s.genBody(r, o)
		one(r, s)
	})
	c.Par("published", len(knownLabels)*c.Size(3, 30), func(r *R) {
		s := r.published(r.i, encKind(r.i/len(knownLabels)%3), true)
		s.genBody(r, o)
		one(r, s)
	})
	c.Par("local", c.N(14*6, 14*80), func(r *R) {
		s := r.genSpec(genOpts{cells: 10, enc: r.i / 14 % 3, unit: -1})
		s.Product = localLabels[r.i%len(localLabels)]
		s.DimKind = 0
		s.genBody(r, o)
		one(r, s)
	})
	c.Par("dummies", c.N(4000, 40000), func(r *R) {
		rows, cols := r.genDims(1 << 22)
		d := radolan.NewDummy(pick(r, knownLabels), r.IntN(7), cols, rows)
		for k := 0; k < 40; k++ {
			x, y, z := r.IntN(cols+4)-2, r.IntN(rows+4)-2, r.IntN(4)-1
			if k%8 == 0 {
				x = pick(r, extremes)
			}
			if g := d.AtZ(x, y, z); g == g {
				r.Fail("dummy %dx%d AtZ(%d, %d, %d) is %v", cols, rows, x, y, z, g)
			}
			if g := d.At(x, y); g == g {
				r.Fail("dummy %dx%d At(%d, %d) is %v", cols, rows, x, y, g)
			}
		}
		r.Eval(80)
		r.Distinct(hash64(rows, cols))
		r.Cat("dummies accessed")
	})
	c.Seq("zero-value", 1, func(r *R) {
		var z radolan.Composite
		for _, x := range append(extremes, 0, 1) {
			if g := z.At(x, 0); g == g {
				r.Fail("composite without data: At(%d, 0) is %v", x, g)
			}
			if g := z.AtZ(0, 0, x); g == g {
				r.Fail("composite without data: AtZ(0, 0, %d) is %v", x, g)
			}
		}
		r.Eval(1)
		r.Bulk(1)
	})
}
