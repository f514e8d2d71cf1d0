package main

import (
	"archive/tar"
	"bytes"
	"compress/bzip2"
	"fmt"
	"io"
	"slices"
	"strings"
	"time"

	"gitlab.cs.fau.de/since/radolan"
)

// archive draws an archive of n well-formed entries with distinct identities.
func (r *R) archive(n, cells int) (specs []*Spec, files [][]byte, names []string) {
	o := defOpts()
	o.cells, o.local, o.unknown = cells, 0, 0
	mode := r.IntN(7)
	base := r.genTime()
	prod := pick(r, knownLabels)
	for i := 0; i < n; i++ {
		s := r.genSpec(o)
		switch mode {
		case 0: // a nowcast: one capture time, forecasts in steps
			s.Time = base
			s.Product = prod
			s.VV = 5 * i
		case 1: // one forecast distance, different capture times
			s.Time = base.Add(time.Duration(5*i) * time.Minute)
			s.VV = 60
		case 2: // capture order opposite to forecast order
			s.Time = base.Add(-time.Duration(5*i) * time.Minute)
			s.VV = 10 * i
		case 3: // many equal forecast times
			s.Time = base
			s.VV = 5 * r.IntN(3)
		case 6: // forecasts centuries away from each other, as far as a duration reaches
			s.Time = base
			s.VV = pick(r, []int{5 * i, 1 + r.IntN(153722867), 153722867 - r.IntN(9), r.IntN(200) * 525600, -r.IntN(153722867), -153722867 + r.IntN(9)})
		case 4: // around a year's end
			s.Time = time.Date(base.Year(), 12, 31, 23, r.IntN(60), 0, 0, time.UTC)
			s.VV = r.IntN(120)
		}
		if s.Time.Year() > 2068 || s.Time.Year() < 2000 {
			s.Time = base
		}
		s.genBody(r, o) // the unit may have changed
		specs = append(specs, s)
	}
	r.Shuffle(n, func(i, j int) { specs[i], specs[j] = specs[j], specs[i] })
	style := r.IntN(6)
	trailing := r.Chance(15)
	for i, s := range specs {
		files = append(files, s.build())
		nm := fmt.Sprintf("%s_%s_%03d", s.Product, s.Time.Format("0601021504"), i)
		switch style {
		case 1:
			nm = fmt.Sprintf("%03d", n-i)
		case 2:
			nm = fmt.Sprintf("dir/%c/%s", 'a'+r.IntN(26), nm)
		case 3:
			nm = strings.Repeat("x", 10+r.IntN(60)) + nm
		case 5: // anything else a file may be called
			nm = pick(r, []string{".", "._", "./", "../", "/", "README ", "a b/", "PaxHeaders.0/", "ü/", "-", "", "__MACOSX/", "_", "#"}) + nm +
				pick(r, []string{"", ".txt", ".bin", ".png", ".tmp", "~", ".gz", ".tar.bz2", ".buf", ".md5", ".sha256", ".bak", ".part", "---bin", ".asc", ".xml", ".h5", ".hdf5", ".tar", ".json", ".crc"})
			if t := r.text(); r.Chance(60) && strings.Trim(t, "/. ") != "" { // texts of the source, not a directory's name
				switch r.IntN(3) {
				case 0:
					nm = t + nm
				case 1:
					nm += strings.TrimRight(t, "/")
				case 2:
					nm = strings.TrimRight(t, "/") // entries may have the same name
				}
			}
		case 4: // beyond what a plain header holds
			nm = strings.Repeat("y", 100+r.IntN(200)) + nm
		}
		if trailing && r.Chance(50) { // bytes behind the composite belong to nobody
			junk := make([]byte, 1+r.Smart(0, 6000))
			for j := range junk {
				junk[j] = byte(r.IntN(256))
			}
			files[i] = append(files[i], junk...)
		}
		names = append(names, nm)
	}
	return
}

// judge matches the composites of an archive with its entries.
func (r *R) judge(specs []*Spec, cs []*radolan.Composite, err error) string {
	if err != nil {
		return fmt.Sprintf("archive of %d sound entries: error %v", len(specs), err)
	}
	if len(cs) != len(specs) {
		return fmt.Sprintf("archive of %d sound entries gives %d composites", len(specs), len(cs))
	}
	for i, c := range cs {
		if c == nil {
			return fmt.Sprintf("composite %d is nil", i)
		}
		if i > 0 && cs[i].ForecastTime.Before(cs[i-1].ForecastTime) {
			return fmt.Sprintf("composite %d of %d has forecast time %v, before its predecessor's %v", i, len(cs), c.ForecastTime, cs[i-1].ForecastTime)
		}
	}
	used := make([]bool, len(specs))
	first := ""
	for i, c := range cs {
		ok := false
		why := ""
		for j, s := range specs {
			if used[j] {
				continue
			}
			_, fc, _ := s.times()
			if s.Product != c.Product || !fc.Equal(c.ForecastTime) {
				continue
			}
			if m := s.check(c, nil); m != "" {
				why = m
				continue
			}
			used[j], ok = true, true
			break
		}
		if !ok && first == "" {
			first = fmt.Sprintf("composite %d (%s forecast %v) matches no entry %s", i, c.Product, c.ForecastTime, why)
		}
	}
	if first == "" {
		first = apart(cs)
	}
	return first
}

// tarDamage tells whether a tar stream is cut within an entry.
func tarDamage(t []byte) error {
	tr := tar.NewReader(bytes.NewReader(t))
	for {
		if _, err := tr.Next(); err == io.EOF {
			return nil
		} else if err != nil {
			return err
		}
		if _, err := io.Copy(io.Discard, tr); err != nil {
			return err
		}
	}
}

func propC12(c *Ctx) {
	c.Rule("Archives written by the harness (own bzip2 compressor with one or many blocks; USTAR, PAX and GNU tar; 0 to 120 entries of mixed products, shuffled; nowcast series, reversed capture order, equal times, turns of the year) are read; the composites have to match the entries one to one, in ascending forecast time. Broken archives (cut at k, one byte changed, one entry unreadable, not an archive) must give an error and no composites; only if the checksums do not notice the damage (padding bits) or the tar stream ends exactly between entries may the complete list be returned. Distinct: archive.")
	c.Par("sound", c.N(1600, 30000), func(r *R) {
		n := r.IntN(12)
		cells := 300
		switch r.IntN(8) {
		case 0:
			n, cells = 13+r.IntN(108), 40
		case 1:
			n, cells = 1+r.IntN(4), 8000
		}
		if r.i%400 == 7 {
			n, cells = 200+r.IntN(900), 3
		}
		if r.i%800 == 9 {
			n, cells = 2500+r.IntN(1500), 3
		}
		specs, files, names := r.archive(n, cells)
		if r.i%1600 == 9 { // far from sorted
			slices.SortStableFunc(specs, func(a, b *Spec) int {
				_, x, _ := a.times()
				_, y, _ := b.times()
				return y.Compare(x)
			})
			for i := range files {
				files[i] = specs[i].build()
			}
			r.Cat("archives in descending order")
		}
		t := r.tarFile(files, names)
		raw := r.bz(t)
		if r.Chance(10) {
			raw = r.bzMulti(t)
			r.Cat("archives of two compressed streams")
		}
		r.Input(raw)
		var rd io.Reader = bytes.NewReader(raw)
		if r.Chance(50) {
			rd = &faultReader{data: raw, err: io.EOF, chunk: r.chunker(), attach: r.Chance(50)}
		}
		by, done := "", func() string { return "" }
		if r.Chance(40) {
			rd, by, done = r.typedReader(raw)
			r.Cat("archives from " + by)
		}
		cs, err := radolan.NewComposites(rd)
		done()
		r.Eval(1)
		if m := r.judge(specs, cs, err); m != "" {
			r.Fail("%s (reader %s)", m, by)
			return
		}
		r.Distinct(hash64(raw))
		r.CatN("entries returned in order", n)
		switch {
		case n == 0:
			r.Cat("archives without entries")
		case n > 199:
			r.Cat("archives with more than 199 entries")
		case n > 12:
			r.Cat("archives with more than 12 entries")
		default:
			r.Cat("archives with 1-12 entries")
		}
		r.Sample(func() any {
			return map[string]any{"entries": n, "bytes": len(raw), "names": names[:min(len(names), 3)]}
		})
	})
	c.Par("full-size", c.N(6, 60), func(r *R) {
		var specs []*Spec
		var files [][]byte
		var names []string
		for i := 0; i < 3; i++ {
			s := r.sized(genOpts{cells: 1, enc: r.i % 3, unit: uDBZ}, 225*(1+r.IntN(2)), 225)
			if r.i == 0 && i == 1 { // the largest grid in use
				s = r.sized(genOpts{cells: 1, enc: int(encLE), unit: uMM}, 1500, 1400)
			}
			s.genBody(r, genOpts{})
			specs, files, names = append(specs, s), append(files, s.build()), append(names, fmt.Sprint(i))
		}
		raw := r.bz(r.tarFile(files, names))
		cs, err := radolan.NewComposites(bytes.NewReader(raw))
		r.Eval(1)
		if m := r.judge(specs, cs, err); m != "" {
			r.Fail("%s", m)
			return
		}
		r.Distinct(hash64(raw))
		r.CatN("entries returned in order", 3)
	})
	c.duplicates()
	c.bulky()
	c.dense()
	// allOrError accepts an error without composites or, if the compressed data is intact
	// (as far as its checksums tell), the complete list
	allOrError := func(r *R, what string, specs []*Spec, raw []byte, rd io.Reader) bool {
		cs, err := radolan.NewComposites(rd)
		r.Eval(1)
		if err == nil {
			if _, derr := io.Copy(io.Discard, bzip2.NewReader(bytes.NewReader(raw))); derr != nil {
				r.Fail("%s: success with %d composites, but the compressed data is damaged: %v", what, len(cs), derr)
				return false
			}
		}
		if err != nil {
			if len(cs) != 0 {
				r.Fail("%s: error %v together with %d composites", what, err, len(cs))
				return false
			}
			r.Cat("error: " + strings.SplitN(what, ":", 2)[0])
			return true
		}
		if m := r.judge(specs, cs, err); m != "" {
			r.Fail("%s: success, but %s", what, m)
			return false
		}
		r.Cat("complete despite: " + strings.SplitN(what, ":", 2)[0])
		return true
	}
	c.Par("cut", c.N(160, 3000), func(r *R) {
		specs, files, names := r.archive(1+r.IntN(6), 100)
		raw := r.bz(r.tarFile(files, names))
		for k := 0; k < 60; k++ {
			cut := r.IntN(len(raw))
			if k == 0 {
				cut = 0
			}
			if k >= 1 && k < 12 {
				cut = max(0, len(raw)-k*2)
			}
			f := &faultReader{data: raw[:cut:cut], err: io.EOF, chunk: r.chunker(), attach: r.Chance(40)}
			if r.Chance(40) {
				f.err = errInjected
			}
			r.Input(raw[:cut])
			if !allOrError(r, fmt.Sprintf("compressed archive cut: %d of %d bytes", cut, len(raw)), specs, raw[:cut:cut], f) {
				return
			}
			r.Bulk(1)
		}
	})
	// compressed in many small blocks, so that the decompressed stream of a cut
	// archive ends anywhere: in headers, in padding, inside and between entries
	c.Par("cut-blocks", c.N(160, 3000), func(r *R) {
		specs, files, names := r.archive(2+r.IntN(30), 1+r.IntN(150))
		t := r.tarFile(files, names)
		raw := bzip2Compress(t, 1+r.IntN(9), r.Smart(60, 3000))
		for k := 0; k < 40; k++ {
			cut := r.IntN(len(raw))
			f := &faultReader{data: raw[:cut:cut], err: io.EOF, chunk: r.chunker(), attach: r.Chance(40)}
			if r.Chance(20) {
				f.err = errInjected
			}
			r.Input(raw[:cut])
			if !allOrError(r, fmt.Sprintf("archive of small blocks cut: %d of %d bytes", cut, len(raw)), specs, raw[:cut:cut], f) {
				return
			}
			r.Bulk(1)
		}
	})
	// the tar stream itself is cut (valid compression around it)
	c.Par("cut-tar", c.N(500, 10000), func(r *R) {
		specs, files, names := r.archive(1+r.IntN(6), 100)
		t := r.tarFile(files, names)
		cut := r.IntN(len(t))
		if r.Chance(30) {
			cut = 512 * r.IntN(len(t)/512)
		} else if r.Chance(40) { // inside of a block that may be the header of a later entry
			cut = min(len(t)-1, 512*r.IntN(len(t)/512)+pick(r, []int{1, 511, 100, 148, 257, r.IntN(512)}))
		}
		damage := tarDamage(t[:cut])
		// entries before a cut at an entry boundary form a sound shorter archive
		raw := r.bz(t[:cut])
		r.Input(raw)
		cs, err := radolan.NewComposites(bytes.NewReader(raw))
		r.Eval(1)
		if err != nil {
			if len(cs) != 0 {
				r.Fail("tar cut at %d of %d: error together with %d composites", cut, len(t), len(cs))
			}
			r.Cat("error: tar cut")
		} else if damage != nil {
			r.Fail("tar cut at %d of %d (%v): success with %d composites", cut, len(t), damage, len(cs))
			return
		} else {
			for _, comp := range cs {
				if comp == nil || checkShape(comp) != "" {
					r.Fail("tar cut at %d of %d: incomplete composite", cut, len(t))
					return
				}
			}
			if m := r.judge(specs[:min(len(cs), len(specs))], cs, err); m != "" {
				r.Fail("tar cut at %d of %d: %s", cut, len(t), m)
				return
			}
			r.Cat("shorter archive: tar cut between entries")
		}
		r.Distinct(hash64(raw))
	})
	c.Par("corrupt", c.N(3000, 60000), func(r *R) {
		specs, files, names := r.archive(1+r.IntN(3), 60)
		raw := r.bz(r.tarFile(files, names))
		for k := 0; k < 4; k++ {
			bad := append([]byte{}, raw...)
			p := r.IntN(len(bad))
			if r.Chance(25) { // in the last checksums
				p = len(bad) - 1 - r.IntN(min(len(bad), 24))
			}
			bad[p] ^= 1 << r.IntN(8)
			r.Input(bad)
			if !allOrError(r, fmt.Sprintf("one bit changed: byte %d of %d", p, len(bad)), specs, bad, bytes.NewReader(bad)) {
				return
			}
			r.Distinct(hash64(bad))
		}
	})
	// tar programs fill up their last record, and more
	c.Par("padded", c.N(300, 6000), func(r *R) {
		specs, files, names := r.archive(1+r.IntN(3), 60)
		fill := 512 * r.Smart(1, 20)
		if r.Chance(40) {
			fill = 512 * r.Smart(1, 4000)
		}
		tarred := append(r.tarFile(files, names), make([]byte, fill)...)
		raw := r.bz(tarred)
		cs, err := radolan.NewComposites(bytes.NewReader(raw))
		r.Eval(1)
		if m := r.judge(specs, cs, err); m != "" {
			r.Fail("%d bytes of padding: %s", fill, m)
			return
		}
		r.Cat("archives with padding")
		for k := 0; k < 6; k++ {
			bad := append([]byte{}, raw...)
			p := r.IntN(len(bad))
			if k < 4 {
				p = len(bad) - 1 - r.IntN(min(len(bad), 60))
			}
			what := "one bit changed in a padded archive"
			if k%2 == 0 {
				bad[p] ^= 1 << r.IntN(8)
			} else {
				bad, what = bad[:p], "padded archive cut"
			}
			if !allOrError(r, fmt.Sprintf("%s: byte %d of %d", what, p, len(raw)), specs, bad, bytes.NewReader(bad)) {
				return
			}
			r.Distinct(hash64(bad))
		}
	})
	// sound compression around a tar stream with a damaged header
	c.Par("tar-headers", c.N(1500, 30000), func(r *R) {
		n := 1 + r.IntN(6)
		_, files, names := r.archive(n, 60)
		t := r.tarFile(files, names)
		var heads []int
		for k := 0; k+512 <= len(t); k += 512 {
			if bytes.HasPrefix(t[k+257:], []byte("ustar")) {
				heads = append(heads, k)
			}
		}
		h := t[pick(r, heads):][:512]
		if r.Chance(30) {
			h = t[heads[len(heads)-1]:][:512]
		}
		kind := ""
		switch r.IntN(4) {
		case 0:
			h[r.IntN(148)] ^= 1 << r.IntN(8)
			kind = "one bit of a tar header changed"
		case 1:
			for k := range h {
				h[k] = byte(r.IntN(256))
			}
			kind = "tar header replaced by junk"
		case 2:
			copy(h[148:156], fmt.Sprintf("%06o\x00 ", r.IntN(1<<15)))
			kind = "checksum of a tar header changed"
		case 3:
			clear(h)
			kind = "tar header blank"
		}
		damage := tarDamage(t)
		if damage == nil {
			return
		}
		raw := r.bz(t)
		r.Input(raw)
		cs, err := radolan.NewComposites(bytes.NewReader(raw))
		r.Eval(1)
		if err == nil || len(cs) != 0 {
			r.Fail("%s (%d entries; %v): %d composites, error %v", kind, n, damage, len(cs), err)
			return
		}
		r.Distinct(hash64(raw))
		r.Cat("error: " + kind)
	})
	ds := c03Defects()
	c.Par("bad-entry", c.N(3000, 60000), func(r *R) {
		n := 1 + r.IntN(8)
		cells := 60
		if r.Chance(15) {
			n = 12 + r.IntN(20)
		} else if r.Chance(5) {
			n, cells = 100+r.IntN(200), 3
		}
		if r.i%200 == 7 {
			n, cells = 600+r.IntN(1200), 3
		}
		specs, files, names := r.archive(n, cells)
		i := r.IntN(n)
		if r.Chance(20) {
			i = n - 1 - r.IntN(min(n, 3))
		}
		if r.i%400 == 7 {
			i = 500 + r.IntN(n-500)
		}
		if i > 99 {
			r.Cat("bad entries behind the hundredth")
		}
		kind := ""
		switch r.IntN(5) {
		case 0:
			f := specs[i].build()
			files[i] = f[:r.IntN(len(f))]
			kind = "entry truncated"
		case 4: // neither files nor composites
			files[i] = nil
			r.oddEntry, r.oddType = i+1, pick(r, []byte{tar.TypeLink, tar.TypeSymlink, tar.TypeChar, tar.TypeBlock, tar.TypeDir, tar.TypeFifo})
			kind = "entry that is not a file"
		case 1:
			files[i] = nil
			kind = "entry empty"
		case 2:
			d := pick(r, ds)
			_, files[i] = d.make(r)
			kind = "entry with defective header"
		case 3:
			b := make([]byte, r.IntN(600))
			for j := range b {
				b[j] = byte(r.IntN(256))
			}
			files[i] = b
			kind = "entry of random bytes"
		}
		raw := r.bz(r.tarFile(files, names))
		r.Input(raw)
		cs, err := radolan.NewComposites(bytes.NewReader(raw))
		r.Eval(1)
		if err == nil || len(cs) != 0 {
			r.Fail("%s (entry %d of %d): %d composites, error %v", kind, i, n, len(cs), err)
			return
		}
		r.Distinct(hash64(raw))
		r.Cat("error: " + kind)
	})
	// entries of products without catalogued unit: an error, or every entry
	c.Par("unknown-unit-entry", c.N(300, 6000), func(r *R) {
		n := 1 + r.IntN(6)
		specs, files, names := r.archive(n, 60)
		i := r.IntN(n)
		u := r.genSpec(genOpts{cells: 60, enc: -1, unit: -1, unknown: 100})
		specs[i], files[i] = u, u.build()
		raw := r.bz(r.tarFile(files, names))
		r.Input(raw)
		cs, err := radolan.NewComposites(bytes.NewReader(raw))
		r.Eval(1)
		if err != nil {
			if len(cs) != 0 {
				r.Fail("entry of unknown unit: error %v together with %d composites", err, len(cs))
			}
		} else if len(cs) != n {
			r.Fail("entry of unknown unit: %d of %d composites without an error", len(cs), n)
		}
		r.Distinct(hash64(raw))
		r.Cat("archives with an entry of unknown unit")
	})
	c.Par("not-an-archive", c.N(3000, 60000), func(r *R) {
		var raw []byte
		switch r.IntN(5) {
		case 0:
			raw = make([]byte, r.IntN(200))
			for j := range raw {
				raw[j] = byte(r.IntN(256))
			}
		case 1:
			raw = r.genSpec(genOpts{cells: 50, enc: -1, unit: -1}).build()
		case 2:
			_, f, n := r.archive(1, 20)
			raw = r.tarFile(f, n)
		case 3:
			junk := make([]byte, 1+r.IntN(3000))
			for j := range junk {
				junk[j] = byte(r.IntN(256)) | 1
			}
			raw = bzip2Compress(junk, 1, 50000)
		case 4:
			raw = append([]byte("BZh9"), make([]byte, r.IntN(60))...)
		}
		r.Input(raw)
		cs, err := radolan.NewComposites(bytes.NewReader(raw))
		r.Eval(1)
		if err == nil || len(cs) != 0 {
			r.Fail("%d bytes that are not an archive: %d composites, error %v", len(raw), len(cs), err)
			return
		}
		r.Distinct(hash64(raw))
		r.Cat("error: not an archive")
	})
	c.Need("archives with more than 12 entries", 20)
	c.Need("error: entry that is not a file", 20)
	c.Need("error: tar header replaced by junk", 20)
	c.Need("archives of more than 16 MB compressed", 1)
	c.Need("archives with more than 199 entries", 2)
	c.Need("bad entries behind the hundredth", 20)
	c.Need("archives without entries", 5)
}
