package main

import (
	"archive/tar"
	"bytes"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"strconv"
	"strings"

	"gitlab.cs.fau.de/since/radolan"
	"gitlab.cs.fau.de/since/radolan/radolan2png/vis"
)

var dimRE = regexp.MustCompile(`G[A-Z]?P? *([0-9]{1,9}) *x *([0-9]{1,9})`)

// huge tells whether the bytes may describe a grid of more than 3 million pixels.
func huge(raw []byte) bool {
	h := raw[:min(len(raw), 4000)]
	for _, m := range dimRE.FindAllSubmatch(h, -1) {
		a, _ := strconv.Atoi(string(m[1]))
		b, _ := strconv.Atoi(string(m[2]))
		if a*b > 3000000 {
			return true
		}
	}
	return false
}

// outcome checks that a call gave either a usable result or an error.
func (r *R) outcome(comp *radolan.Composite, err error) {
	r.Eval(1)
	if err != nil && err != radolan.ErrUnknownUnit {
		if err.Error() == "" {
			r.Fail("error without text")
		}
		r.Cat("outcome: error")
		return
	}
	if comp == nil {
		r.Fail("no result and no error")
		return
	}
	if m := checkShape(comp); m != "" {
		r.Fail("success with inconsistent composite: %s", m)
		return
	}
	// the result can be used
	for _, p := range [][3]int{{0, 0, 0}, {comp.Dx - 1, comp.Dy - 1, comp.Dz - 1}, {comp.Dx, comp.Dy, comp.Dz}, {-1, -1, -1}} {
		comp.At(p[0], p[1])
		comp.AtZ(p[0], p[1], p[2])
	}
	comp.Project(51, 9)
	_ = comp.DataUnit.String()
	if comp.Dx*comp.Dy < 3000 {
		vis.Image(vis.HeatmapReflectivity, comp, comp.Dz-1)
	}
	if err == nil {
		r.Cat("outcome: composite")
	} else {
		r.Cat("outcome: composite with unknown unit")
	}
}

var nastyNumbers = []string{"", "-", "+", "-0", "0", "00000", "-1", "+7", "1e9", "0x10", "1_0", "1.5", "9", "99", "999", "9999", "10000", "65535", "65536", "2147483647",
	"2147483648", "-2147483648", "4294967295", "4294967296", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "18446744073709551616",
	"99999999999999999999999999999999", "NaN", "Inf", "-Inf", " ", "      ", "\t5", "\n5", "٣", "１", "\xff", "\xc3", "\x00"}

// mutate damages a file.
func (r *R) mutate(raw []byte, hdr int) []byte {
	b := append([]byte{}, raw...)
	for n := 1 + r.IntN(6); n > 0; n-- {
		if len(b) == 0 {
			return b
		}
		p := r.IntN(len(b))
		if r.Chance(70) {
			p = r.IntN(min(len(b), hdr+8))
		}
		switch r.IntN(12) {
		case 0:
			b[p] ^= 1 << r.IntN(8)
		case 1:
			b[p] = byte(r.IntN(256))
		case 2:
			b = append(b[:p:p], b[min(len(b), p+1+r.IntN(6)):]...)
		case 3:
			b = append(b[:p:p], append([]byte{byte(r.IntN(256))}, b[p:]...)...)
		case 4: // duplicate a piece
			q := min(len(b), p+1+r.IntN(40))
			b = append(b[:q:q], append(append([]byte{}, b[p:q]...), b[q:]...)...)
		case 5: // replace a number
			q := p
			for q < len(b) && (b[q] < '0' || b[q] > '9') {
				q++
			}
			e := q
			for e < len(b) && b[e] >= '0' && b[e] <= '9' {
				e++
			}
			b = append(b[:q:q], append([]byte(pick(r, nastyNumbers)), b[e:]...)...)
		case 6:
			b = b[:p]
		case 7: // a field name
			k := pick(r, []string{"BY", "VV", "GP", "BG", "LV", "VS", "INT", "E", "MS", "A", "PR"})
			b = append(b[:p:p], append([]byte(k+pick(r, nastyNumbers)), b[p:]...)...)
		case 8: // move a piece
			q := min(len(b), p+1+r.IntN(30))
			piece := append([]byte{}, b[p:q]...)
			b = append(b[:p:p], b[q:]...)
			t := r.IntN(len(b) + 1)
			b = append(b[:t:t], append(piece, b[t:]...)...)
		case 9:
			b[p] = pick(r, []byte{3, '\n', 0, 255, 250, ' ', 'x', 'A'})
		case 10: // fill a stretch
			q := min(len(b), p+1+r.IntN(60))
			v := byte(r.IntN(256))
			for ; p < q; p++ {
				b[p] = v
			}
		case 11: // upper and lower case
			if b[p] >= 'a' && b[p] <= 'z' || b[p] >= 'A' && b[p] <= 'Z' {
				b[p] ^= 0x20
			}
		}
	}
	return b
}

// grammar assembles a header of adversarial fields.
func (r *R) grammar() []byte {
	var b strings.Builder
	lab := pick(r, append([]string{"ZZ", "W1", "PZ", "PE", "\xc3\x9c", "É", "  ", "00", "P", ""}, knownLabels...))
	b.WriteString(lab)
	if r.Chance(85) {
		b.WriteString(r.genTime().Format("021504") + "10000" + r.genTime().Format("0106"))
	} else {
		for n := r.IntN(20); n > 0; n-- {
			b.WriteByte(byte(r.IntN(256)))
		}
	}
	num := func() string {
		if r.Chance(60) {
			return fmt.Sprintf("%*d", 1+r.IntN(8), r.Smart(0, 300))
		}
		return pick(r, nastyNumbers)
	}
	for n := r.IntN(9); n >= 0; n-- {
		switch r.IntN(9) {
		case 0, 1:
			b.WriteString("BY" + num())
		case 2:
			b.WriteString("GP" + num() + pick(r, []string{"x", "x", "x", " ", "X", "xx"}) + num())
		case 3:
			b.WriteString("BG" + num() + num())
		case 4:
			b.WriteString("VV" + num())
		case 5:
			b.WriteString("INT" + num())
		case 6:
			b.WriteString("VS" + num())
		case 7:
			k := r.IntN(17)
			b.WriteString(fmt.Sprintf("LV%2d", k))
			for ; k > 0; k-- {
				b.WriteString(pick(r, []string{"  1.0", " 12.5", "-31.5", "  NaN", " +Inf", "1e+38", "1e999", "     ", "0x1p4"}))
			}
		case 8:
			b.WriteString("PR E" + pick(r, []string{"+00", "-01", "+99", "-99", "+38", "+999999999", "-2147483649", "x"}))
		}
	}
	if r.Chance(92) {
		b.WriteByte(3)
	}
	n := r.IntN(400)
	for ; n > 0; n-- {
		if r.IntN(12) == 0 {
			b.WriteByte('\n')
		} else {
			b.WriteByte(byte(r.IntN(256)))
		}
	}
	return []byte(b.String())
}

// measured runs f and returns the bytes it allocated.
func measured(f func()) uint64 {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	return b.TotalAlloc - a.TotalAlloc
}

func propC01(c *Ctx) {
	c.Rule("Arbitrary bytes, headers assembled from adversarial fields, well-formed files and archives damaged by bit flips, insertions, deletions, moves, number and field substitutions and cuts, delivered in one piece or through failing and dribbling readers; serial allocation bombs (huge, negative, overflowing and maximal dimensions, megabytes of header) whose allocated bytes are measured under an address space limit. Monitored: panic, process death, processor time per case, allocation, and that success comes with a consistent composite. Distinct: input bytes.")
	feed := func(r *R, raw []byte) {
		if huge(raw) && !r.Chance(2) {
			r.Cat("left to the serial stage")
			return
		}
		r.Input(raw)
		var rd io.Reader = bytes.NewReader(raw)
		switch r.IntN(8) {
		case 0:
			rd = &faultReader{data: raw, err: io.EOF, chunk: r.chunker(), attach: r.Chance(50)}
		case 1:
			rd = &faultReader{data: raw, err: errInjected, chunk: r.chunker(), attach: r.Chance(50), empty: func() bool { return r.IntN(3) == 0 }}
		}
		comp, err := radolan.NewComposite(rd)
		r.outcome(comp, err)
		r.Distinct(hash64(raw))
	}
	o := defOpts()
	o.cells, o.local, o.unknown = 600, 2, 10
	c.Par("random-bytes", c.N(60000, 2000000), func(r *R) {
		b := make([]byte, r.Smart(0, 3000))
		narrow := r.IntN(3)
		for i := range b {
			b[i] = byte(r.IntN(256))
			if narrow == 0 {
				b[i] = pick(r, []byte("ABGPVSINTLEYx0123456789 .-+\x03\n"))
			}
		}
		feed(r, b)
		r.Sample(func() any { return fmt.Sprintf("%.120q", b) })
	})
	c.Par("grammar", c.N(150000, 4000000), func(r *R) {
		b := r.grammar()
		feed(r, b)
		r.Sample(func() any { return fmt.Sprintf("%.200q", b) })
	})
	c.Par("mutated", c.N(150000, 4000000), func(r *R) {
		s := r.genSpec(o)
		raw := s.build()
		b := r.mutate(raw, len(s.header))
		feed(r, b)
		r.Sample(func() any { return fmt.Sprintf("%.200q", b) })
	})
	// binary sections of arbitrary bytes behind sound headers
	c.Par("body", c.N(60000, 1500000), func(r *R) {
		s := r.genSpec(o)
		body := make([]byte, r.IntN(2*len(s.Body)+40))
		mode := r.IntN(4)
		for i := range body {
			switch mode {
			case 0:
				body[i] = byte(r.IntN(256))
			case 1:
				body[i] = pick(r, []byte{'\n', 255, 16, 15, 250, 0, 0xF1, 0x10})
			case 2:
				body[i] = '\n'
			default:
				body[i] = 255
			}
		}
		feed(r, append(append([]byte{}, s.build()[:len(s.header)]...), body...))
	})
	c.Par("archives", c.N(6000, 150000), func(r *R) {
		_, files, names := r.archive(r.IntN(5), 60)
		for i, f := range files {
			if r.Chance(30) {
				files[i] = r.mutate(f, 80)
				if huge(files[i]) {
					files[i] = nil
				}
			}
		}
		t := r.tarFile(files, names)
		if r.Chance(40) {
			for n := 1 + r.IntN(4); n > 0; n-- {
				t[r.IntN(len(t))] = byte(r.IntN(256))
			}
		}
		raw := r.bz(t)
		if r.Chance(50) {
			for n := r.IntN(4); n >= 0; n-- {
				raw[r.IntN(len(raw))] ^= 1 << r.IntN(8)
			}
		}
		if r.Chance(20) {
			raw = raw[:r.IntN(len(raw))]
		}
		r.Input(raw)
		cs, err := radolan.NewComposites(bytes.NewReader(raw))
		r.Eval(1)
		if err == nil {
			for _, comp := range cs {
				if comp == nil {
					r.Fail("success with a nil composite")
					return
				}
				r.outcome(comp, nil)
			}
			r.Cat("archive read")
		} else {
			r.Cat("archive rejected")
		}
		r.Distinct(hash64(raw))
	})
	c.bombs()
	c.Need("outcome: error", 1000)
	c.Need("outcome: composite", 1000)
	c.Need("allocation measured", 50)
}

func (c *Ctx) bombs() {
	// the largest grid the format can express has 9999 x 9999 pixels of four bytes
	const budget = 9999*9999*4*2 + 200<<20
	type bomb struct {
		text string
		make func(r *R) []byte
	}
	hdr := func(product, by, fields string) []byte {
		return []byte(product + "282105100000716BY" + by + "VS 3SW   2.13.1PR E-01INT   5" + fields + "MS  0\x03")
	}
	var bs []bomb
	nums := []string{"9999", "10000", "19999", "32768", "65535", "65536", "99999", "100000", "999999", "1000000", "16777216", "2147483647", "2147483648",
		"4294967295", "4294967296", "4294967297", "3037000500", "9223372036854775807", "18446744073709551615", "-1", "-9999", "-2147483648",
		"-4294967296", "-9223372036854775808", "1", "0"}
	for _, a := range nums {
		for _, b := range nums {
			if a == "9999" && b == "9999" {
				continue
			}
			bs = append(bs, bomb{"GP " + a + "x" + b, nil})
		}
	}
	body := make([]byte, 4096)
	c.Seq("dimension-bombs", len(bs)*3, func(r *R) {
		b := bs[r.i%len(bs)]
		var raw []byte
		switch r.i / len(bs) {
		case 0:
			raw = append(hdr("RX", fmt.Sprint(100000), b.text), body...)
		case 1: // run-length rows need no consistent length
			raw = append(hdr("PG", "100000", b.text+"LV 2  1.0  2.0"), bytes.Repeat([]byte{'\n'}, 3000)...)
		case 2: // declared length consistent with the product in wrapping arithmetic
			var x, y int
			if n, _ := fmt.Sscanf(b.text, "GP %dx%d", &y, &x); n != 2 {
				return
			}
			n := x * y * (1 + r.IntN(2))
			h := len(hdr("RX", fmt.Sprintf("%20d", 0), b.text))
			raw = append(hdr("RX", fmt.Sprintf("%20d", n+h), b.text), body...)
		}
		r.bomb(raw, budget)
	})
	c.Seq("largest-grid", c.N(4, 24), func(r *R) {
		var raw []byte
		switch r.i % 4 {
		case 0:
			raw = append(hdr("RX", "99980101", "GP9999x9999"), body...)
		case 1:
			raw = append(hdr("PG", "100000", "GP9999x9999LV 2  1.0  2.0"), bytes.Repeat([]byte{'\n'}, 9999)...)
		case 2:
			raw = append(hdr("WN", "199960102", "GP9999x9999"), body...)
		case 3:
			raw = hdr("RX", "1", "GP9999x9999")
		}
		r.bomb(raw, budget)
	})
	c.Seq("long-headers", c.N(24, 200), func(r *R) {
		n := r.Smart(100000, 3000000)
		if r.i >= 12 && r.i < 18 {
			n = 12000000 + r.IntN(12000000)
		}
		var unit string
		switch r.i % 6 {
		case 0:
			unit = "A1"
		case 1:
			unit = "Aa"
		case 2:
			unit = "BY1"
		case 3:
			unit = "9"
		case 4:
			unit = "\xc3\x84a"
		case 5:
			unit = " "
		}
		raw := []byte("RX282105100000716BY 100GP 2x 2" + strings.Repeat(unit, n/len(unit)))
		if r.i/6%2 == 0 {
			raw = append(raw, 3)
		}
		r.bomb(append(raw, 1, 2, 3, 4), 64<<20)
	})
	// one field repeated millions of times
	keys := []string{"MS", "SW", "VS", "BY", "INT", "GP", "BG", "PR", "E", "LV", "VV", "MF", "A", "QN"}
	c.Seq("repeated-fields", c.N(14, 100), func(r *R) {
		k := keys[r.i%len(keys)]
		if n := len(r.c.dict.keys); n > 0 && r.Chance(20) && r.i >= len(keys) {
			k = r.c.dict.keys[r.IntN(n)]
		}
		unit := k + []string{" 1", "1", " ", "1x1", " 1x 1", "<a>"}[r.i/len(keys)%6]
		n := 30000000 + r.IntN(10000000)
		raw := []byte("RX282105100000716BY 100GP 2x 2" + strings.Repeat(unit, n/len(unit)) + "\x03")
		r.bomb(append(raw, 1, 2, 3, 4), 64<<20)
		r.Cat("fields repeated millions of times")
	})
	// hundreds of thousands of different fields
	c.Seq("distinct-fields", c.N(3, 20), func(r *R) {
		var b bytes.Buffer
		b.WriteString("RX282105100000716BY 100GP 2x 2")
		for k := 0; k < 400000; k++ {
			var key [5]byte
			x := k * 29
			for j := range key {
				key[j] = 'A' + byte(x%26)
				x /= 26
			}
			b.Write(key[:])
			b.WriteString([]string{"1", " 12<a> ", "a"}[r.i%3])
		}
		b.WriteByte(3)
		r.bomb(append(b.Bytes(), 1, 2, 3, 4), 256<<20)
		r.Cat("headers of many different fields")
	})
	// what has been read is not kept: the memory in use after hundreds of megabytes
	c.Seq("retention", c.Size(6, 24), func(r *R) {
		inUse := func() uint64 {
			var m runtime.MemStats
			runtime.GC()
			runtime.GC()
			runtime.ReadMemStats(&m)
			return m.HeapAlloc + m.StackInuse
		}
		kind := []string{"long headers", "long rejected headers", "two-byte files", "run-length files", "archives", "cut files"}[r.i%6]
		head := func(k int, product, by, fields string, pad int) []byte {
			return []byte(product + "282105100000716BY" + by + "VS 3SW   2.13.1PR E-01INT   5" + fields + "MS 99<" + strings.Repeat(" ", pad) + fmt.Sprintf("%09d", k) + ">\x03")
		}
		full := func(k int, product, fields string, pad, body int) []byte {
			n := len(head(k, product, "0000000", fields, pad))
			return append(head(k, product, fmt.Sprintf("%7d", n+body), fields, pad), make([]byte, body)...)
		}
		make1 := func(k int) []byte {
			switch r.i % 6 {
			case 0:
				return full(k, "RX", "GP 2x 2", 1000000, 4)
			case 1:
				return head(k, "RX", "1000000", "GP 2x x", 1000000)
			case 2:
				return full(k, "RW", "GP 700x 700", 0, 2*700*700)
			case 3:
				return append(head(k, "PG", "1000000", "GP 700x 700LV 2  1.0  2.0", 0), bytes.Repeat(append([]byte{1, 16}, append(bytes.Repeat([]byte{0x12}, 700), 10)...), 700)...)
			case 4:
				f := full(k, "RX", "GP 500x 500", 0, 500*500)
				t := r.tarFile([][]byte{f, f, f}, []string{"1", "2", "3"})
				return bzip2Compress(t, 9, 800000)
			}
			raw := full(k, "RW", "GP 700x 700", 0, 2*700*700)
			return raw[:len(raw)-k]
		}
		sound := 0
		read := func(k int) {
			raw := make1(k)
			if r.i%6 == 4 {
				if cs, err := radolan.NewComposites(bytes.NewReader(raw)); err == nil {
					sound += len(cs)
				}
			} else if _, err := radolan.NewComposite(bytes.NewReader(raw)); err == nil {
				sound++
			}
		}
		read(1)
		n := 300
		before := inUse()
		for k := 2; k <= n; k++ {
			read(k)
		}
		after := inUse()
		r.Eval(n)
		if after > before+100<<20 {
			r.Fail("after reading %d inputs (%s) and dropping the results %d MB are in use, %d MB before", n, kind, after>>20, before>>20)
		}
		r.Cat("memory in use compared: " + kind)
		r.CatN("composites read and dropped", sound)
		r.Distinct(hash64("retention", r.i))
		r.Sample(func() any {
			return map[string]any{"kind": kind, "inputs": n, "composites": sound, "before": before, "after": after}
		})
	})
	c.Seq("level-bombs", 60, func(r *R) {
		n := pick(r, []string{"99", "-1", "-9", "+9", " 0", "2147483647", "9999999999", "1e"})
		raw := append(hdr("PG", "100000", "GP 3x 3LV"+n+strings.Repeat("  1.0", r.IntN(100))), body...)
		r.bomb(raw, 16<<20)
	})
	c.Seq("archive-size-bombs", c.N(60, 600), func(r *R) {
		// entries that claim far more bytes than the archive has
		var buf bytes.Buffer
		w := tar.NewWriter(&buf)
		for n := r.IntN(3); n > 0; n-- {
			raw := r.genSpec(genOpts{cells: 20, enc: -1, unit: -1}).build()
			w.WriteHeader(&tar.Header{Name: "sound", Mode: 0644, Size: int64(len(raw))})
			w.Write(raw)
		}
		w.Flush()
		size := pick(r, []int64{3 << 30, 20 << 30, 1<<33 - 1, 1 << 40, 1 << 62, 1<<63 - 1})
		t := tar.NewWriter(&buf)
		if err := t.WriteHeader(&tar.Header{Name: "huge", Mode: 0644, Size: size}); err != nil {
			panic(fmt.Sprint("harness: ", err))
		}
		t.Write(r.genSpec(genOpts{cells: 20, enc: -1, unit: -1}).build())
		tarred := buf.Bytes()
		if r.Chance(50) {
			tarred = append(tarred, make([]byte, 512*r.IntN(5))...)
		}
		raw := bzip2Compress(tarred, 9, 100000)
		r.Input(raw)
		used := measured(func() { radolan.NewComposites(bytes.NewReader(raw)) })
		r.Eval(1)
		if used > 500<<20 {
			r.Fail("an archive of %d bytes with an entry that claims %d bytes makes reading allocate %d MB", len(raw), size, used>>20)
		}
		r.Cat("archive entries that claim gigabytes")
		r.Distinct(hash64(raw))
	})
	c.Seq("long-rows", c.N(12, 60), func(r *R) {
		// megabytes in one run-length row
		raw := append(hdr("PG", "100000", "GP 3x 3LV 1  1.0"), bytes.Repeat([]byte{pick(r, []byte{255, 16, 1, 0, 250, 0xF1})}, r.Smart(1000, 4000000))...)
		if r.Chance(50) {
			raw = append(raw, "\n\n\n\n"...)
		}
		r.bomb(raw, 64<<20)
	})
}

// bomb reads raw and bounds what it allocates.
func (r *R) bomb(raw []byte, budget uint64) {
	// the driver finds the input here if the process dies
	os.WriteFile(filepath.Join(r.c.work, "current"), []byte(fmt.Sprintf("%s:%d %.300q", r.stage, r.i, raw[:min(len(raw), 300)])), 0644)
	r.Input(raw)
	var comp *radolan.Composite
	var err error
	used := measured(func() { comp, err = radolan.NewComposite(bytes.NewReader(raw)) })
	r.outcome(comp, err)
	limit := budget + 200*uint64(len(raw))
	if used > limit {
		r.Fail("reading %d bytes allocated %d MB (bound %d MB): %.200q", len(raw), used>>20, limit>>20, raw[:min(len(raw), 200)])
	}
	r.Cat("allocation measured")
	if used > 100<<20 {
		r.Cat("allocations above 100 MB")
	}
	r.Distinct(hash64(raw))
	comp = nil
	if used > 50<<20 {
		runtime.GC()
	}
	r.Sample(func() any {
		return map[string]any{"header": fmt.Sprintf("%.120q", raw[:min(len(raw), 120)]), "allocated": used, "error": fmt.Sprint(err)}
	})
}
