package main

import (
	"fmt"
	"math"
	"strings"
	"time"
	"unicode"

	"gitlab.cs.fau.de/since/radolan"
)

// tiny is a minimal spec: one pixel, one byte, catalogued unit.
func (r *R) tiny(product string) *Spec {
	s := &Spec{Product: product, Time: time.Date(2016, 7, 28, 21, 5, 0, 0, time.UTC), WMO: "10000",
		VV: absent, INT: absent, VS: absent, Prec: absent, DimKind: 1, Rows: 1, Cols: 1, Enc: encSB}
	s.Body = []byte{17}
	s.Plain, s.Tol = []float64{0}, []float64{0}
	s.Plain[0], s.Tol[0] = s.value(17)
	return s
}

// verify reads the file of a spec and compares everything.
func (r *R) verify(s *Spec) bool {
	raw := s.build()
	r.Input(raw)
	c, err := read(raw)
	r.Eval(1)
	if m := s.check(c, err); m != "" {
		r.Fail("%s [header %q]", m, clip(s.header))
		return false
	}
	return true
}

// verifyMeta reads the file and compares the metadata only.
func (r *R) verifyMeta(s *Spec) bool {
	raw := s.build()
	r.Input(raw)
	c, err := read(raw)
	r.Eval(1)
	m := ""
	switch {
	case c == nil:
		m = fmt.Sprintf("no composite (error: %v)", err)
	case err != nil && err != radolan.ErrUnknownUnit:
		m = fmt.Sprintf("well-formed file rejected: %v", err)
	default:
		m = s.checkMeta(c)
	}
	if m != "" {
		r.Fail("%s [header %q]", m, clip(s.header))
		return false
	}
	return true
}

// isW tells whether the product declares its interval in tens of minutes.
func isW(p string) bool { return p == "W1" || p == "W2" || p == "W3" || p == "W4" }

func clip(b []byte) string {
	if len(b) > 300 {
		return string(b[:300]) + "..."
	}
	return string(b)
}

func propC02(c *Ctx) {
	c.Rule("Well-formed headers written from a structured meaning (label, time, site, forecast, interval, version, dimensions, precision, levels, unrelated fields; random field order and padding) and read back; the oracle is the meaning itself. Enumerated: every calendar day of 2000-2068, every minute of the day, every forecast 0-9999, every interval 0-9999, every version 0-99, all GP dimension pairs along both axes. Distinct: header text (sampled stages) or enumerated value.")
	// every calendar day of 69 years, at a random time of day, compact and sampled encodings
	days := int(time.Date(2069, 1, 1, 0, 0, 0, 0, time.UTC).Sub(time.Date(2000, 1, 1, 0, 0, 0, 0, time.UTC)).Hours() / 24)
	c.Par("every-day", days, func(r *R) {
		reps := c.N(4, 24)
		for k := 0; k < reps; k++ {
			s := r.tiny(pick(r, knownLabels))
			s.Time = time.Date(2000, 1, 1, r.IntN(24), r.IntN(60), 0, 0, time.UTC).AddDate(0, 0, r.i)
			if r.Chance(50) {
				s.VV = r.Smart(0, 999)
			}
			if !r.verifyMeta(s) {
				return
			}
		}
		r.Bulk(1)
		r.Cat("calendar days")
	})
	c.Par("every-minute", 1440, func(r *R) {
		for _, d := range []time.Time{time.Date(2019, 12, 31, 0, 0, 0, 0, time.UTC), time.Date(2020, 2, 28, 0, 0, 0, 0, time.UTC), r.genTime()} {
			s := r.tiny(pick(r, knownLabels))
			s.Time = time.Date(d.Year(), d.Month(), d.Day(), r.i/60, r.i%60, 0, 0, time.UTC)
			s.VV = r.Smart(0, 999)
			if !r.verifyMeta(s) {
				return
			}
		}
		r.Bulk(1)
		r.Cat("minutes of the day")
	})
	c.Par("every-forecast", 10000, func(r *R) {
		s := r.tiny(pick(r, knownLabels))
		s.Time = r.genTime()
		s.VV = r.i
		for k := range s.pads {
			s.pads[k] = r.IntN(6)
		}
		if r.verifyMeta(s) {
			r.Bulk(1)
		}
		r.Cat("forecast minutes")
	})
	c.Par("every-interval", 10000, func(r *R) {
		for _, p := range []string{pick(r, knownLabels), pick(r, []string{"W1", "W2", "W3", "W4"})} {
			s := r.tiny(p)
			s.INT = r.i
			for k := range s.pads {
				s.pads[k] = r.IntN(6)
			}
			if r.Chance(30) {
				s.VV = r.IntN(120)
			}
			if !r.verifyMeta(s) {
				return
			}
		}
		r.Bulk(2)
		r.Cat("intervals")
	})
	c.Par("long-values", c.N(4000, 40000), func(r *R) {
		s := r.tiny(pick(r, knownLabels))
		s.Time = r.genTime()
		if r.Chance(70) {
			s.VV = 1000 + r.IntN([]int{9000, 99000, 5000000}[r.IntN(3)])
		}
		if r.Chance(50) {
			s.INT = 1000 + r.IntN([]int{9000, 99000, 5000000}[r.IntN(3)])
		}
		if r.Chance(20) {
			s.VS = 100 + r.IntN(100000)
		}
		const limit = int(math.MaxInt64 / int64(time.Minute))
		if r.Chance(5) { // up to the longest duration
			s.VV = limit - r.IntN(1<<r.IntN(27))
		}
		if r.Chance(5) && s.Product[0] != 'W' {
			s.INT = limit - r.IntN(1<<r.IntN(27))
		}
		if r.Chance(60) { // station lists longer than any buffer
			n := []int{40, 1000, 4000, 4096, 5000, 9000, 70000}[r.IntN(7)] + r.IntN(100)
			k := pick(r, []string{"MS", "MS", "MF", "SW", "ST", "MX", "CS", "U", "QN", "KOMMENTAR"})
			s.extra = append(s.extra, k+fmt.Sprintf("%3d<%s>", n%1000, strings.Repeat("boo,ros,emd,", n/12+1)[:n]))
		}
		for j := range s.pads {
			s.pads[j] = r.IntN(6)
		}
		s.order = r.Perm(48)
		if r.verifyMeta(s) {
			r.Distinct(hash64(s.header))
			r.Cat("values of many digits, long headers")
		}
	})
	// every label with every combination of declared optional fields
	c.Par("label-x-fields", len(knownLabels)*32, func(r *R) {
		for k := 0; k < c.N(3, 20); k++ {
			s := r.tiny(knownLabels[r.i/32])
			m := r.i % 32
			s.Time = r.genTime()
			if m&1 != 0 {
				s.VV = r.Smart(0, 999)
			}
			if m&2 != 0 {
				s.INT = r.Smart(0, 9999)
			}
			if m&4 != 0 {
				s.VS = r.Smart(0, 99)
			}
			if m&8 != 0 {
				s.Prec = r.IntN(7) - 3
				s.Plain[0], s.Tol[0] = s.value(17)
			}
			if m&16 != 0 {
				s.extra = r.genExtras()
			}
			s.order = r.Perm(48)
			for j := range s.pads {
				s.pads[j] = r.IntN(6)
			}
			s.WMO = fmt.Sprintf("%05d", r.IntN(100000))
			if !r.verify(s) {
				return
			}
			r.Distinct(hash64(s.header))
			r.Sample(s.describe)
		}
		r.Cat("label x field subset")
	})
	// dimensions: every value on both axes, and random pairs, all notations
	c.Par("dimensions", 9999, func(r *R) {
		d := r.i + 1
		pairs := [][2]int{{d, 1 + r.IntN(6)}, {1 + r.IntN(6), d}}
		if d <= 999 {
			pairs = append(pairs, [2]int{d, r.Smart(1, 90)}, [2]int{r.Smart(1, 90), d})
		}
		for k, p := range pairs {
			s := r.tiny(pick(r, knownLabels))
			s.Rows, s.Cols = p[0], p[1]
			if d <= 999 && k >= 2 {
				s.DimKind = 2
			}
			for j := range s.pads {
				s.pads[j] = r.IntN(6)
			}
			s.genBody(r, genOpts{})
			s.order = r.Perm(48)
			if !r.verifyMeta(s) {
				return
			}
			r.Distinct(hash64(s.header))
		}
		r.Cat("dimension values")
	})
	c.Par("versions", 100, func(r *R) {
		for _, k := range []int{0, 1, 2, 3, 4, 5} {
			s := r.tiny(pick(r, knownLabels))
			s.VS = r.i
			s.pads[0] = k
			if !r.verifyMeta(s) {
				return
			}
		}
		r.Bulk(1)
	})
	c.Par("bg-dimensions", c.N(4000, 40000), func(r *R) {
		s := r.tiny(pick(r, knownLabels))
		s.DimKind = 2
		for {
			s.Rows, s.Cols = r.Smart(1, 999), r.Smart(1, 999)
			if s.Rows*s.Cols <= 4000 || (r.IntN(300) == 0) {
				break
			}
		}
		for j := range s.pads {
			s.pads[j] = r.IntN(6)
		}
		s.genBody(r, genOpts{})
		if r.verifyMeta(s) {
			r.Distinct(hash64(s.header))
		}
	})
	// as distributed
	c.Par("published", c.N(400000, 4000000), func(r *R) {
		s := r.published(r.i, encSB, false)
		s.genBody(r, genOpts{})
		if r.verifyMeta(s) {
			r.Distinct(hash64(s.header))
		}
	})
	c.Par("published-grids", len(knownLabels)*c.Size(120, 1000), func(r *R) {
		s := r.published(r.i, encRL, true)
		px, py, _, _, _ := s.geometry()
		s.Body = nil // blank rows
		for k := 0; k < py; k++ {
			s.Body = append(s.Body, byte(k)|16, '\n')
		}
		s.Plain, s.Tol = make([]float64, px*py), make([]float64, px*py)
		for k := range s.Plain {
			s.Plain[k] = math.NaN()
		}
		if r.verifyMeta(s) {
			r.Distinct(hash64(s.header))
		}
	})
	// any character that is no upper case letter may be part of a value
	c.Par("letters", 0x250+c.N(1000, 12000), func(r *R) {
		x := rune(r.i)
		if r.i >= 0x250 {
			x = rune(0x250 + r.IntN(0x10000-0x250))
		}
		if unicode.IsUpper(x) || unicode.IsTitle(x) || x == 3 || x >= 0xd800 && x < 0xe000 {
			return
		}
		s := r.tiny(pick(r, knownLabels))
		s.VV, s.INT, s.VS = r.IntN(999), r.IntN(999), r.IntN(9)
		s.extra = []string{"MS" + fmt.Sprintf("%3d<%cboo,%c,%c", r.IntN(99), x, x, x), "SW " + string(x), "MF" + " " + string(x) + "x"}
		s.order = r.Perm(48)
		if r.verifyMeta(s) {
			r.Bulk(1)
		}
		r.Cat("characters in values")
	})
	o := defOpts()
	o.cells = 3000
	c.Par("mixed", c.N(60000, 1200000), func(r *R) {
		s := r.genSpec(o)
		if !r.verifyMeta(s) {
			return
		}
		r.Distinct(hash64(s.header))
		r.Cat("encoding " + encNames[s.Enc])
		r.Cat(fmt.Sprintf("dimension kind %d", s.DimKind))
		if s.order != nil {
			r.Cat("shuffled field order")
		}
		r.Sample(s.describe)
	})
	if c.thorough {
		// every minute of every day of four years around a leap day
		c.Par("every-minute-of-4-years", 1461, func(r *R) {
			d := time.Date(2015, 1, 1, 0, 0, 0, 0, time.UTC).AddDate(0, 0, r.i)
			for m := 0; m < 1440; m++ {
				s := r.tiny("RX")
				s.Time = d.Add(time.Duration(m) * time.Minute)
				s.VV = r.Smart(0, 240)
				if !r.verifyMeta(s) {
					return
				}
			}
			r.Bulk(1440)
		})
	}
}

// ---- C03 ----

type defect struct {
	name string
	make func(r *R) (s *Spec, bad []byte) // s is the sound baseline, bad the defective file
}

// base draws a sound spec with a small grid in which every field is declared.
func (r *R) base() *Spec {
	o := defOpts()
	o.cells = 400
	o.local = 0
	o.noETX = true
	s := r.genSpec(o)
	s.VV, s.INT, s.VS = r.Smart(0, 999), r.Smart(0, 9999), r.Smart(0, 9)
	if s.Prec == absent {
		s.Prec = 0
	}
	s.genBody(r, o)
	for k := range s.pads {
		s.pads[k] = r.IntN(6)
	}
	return s
}

// baseRL is base with a run-length section, whose reading needs no length.
func (r *R) baseRL() *Spec {
	s := r.base()
	s.Enc = encRL
	s.genLevels(r)
	s.genBody(r, genOpts{noETX: true})
	return s
}

func withOverride(key string, text func(r *R, s *Spec) string) func(r *R) (*Spec, []byte) {
	return func(r *R) (*Spec, []byte) {
		s := r.base()
		if key == "GP" || key == "BG" {
			s.DimKind = 1
			if key == "BG" {
				s.DimKind = 2
			}
			if s.Rows > 999 || s.Cols > 999 {
				s.Rows, s.Cols = 1+r.IntN(20), 1+r.IntN(20)
				s.genBody(r, genOpts{noETX: true})
			}
		}
		if key == "LV" && !s.HasLV {
			s.Enc = encRL
			s.genLevels(r)
			s.genBody(r, genOpts{noETX: true})
		}
		b := *s
		b.override = map[string]string{key: text(r, s)}
		return s, b.build()
	}
}

// atEnd moves the field with the given prefix to the end of the header.
func atEnd(key, text string) func(r *R) (*Spec, []byte) {
	return func(r *R) (*Spec, []byte) {
		s := r.base()
		if key == "GP" {
			s.DimKind = 1
		}
		if key == "BG" {
			s.DimKind = 2
			if s.Rows > 999 || s.Cols > 999 {
				s.Rows, s.Cols = 1+r.IntN(20), 1+r.IntN(20)
				s.genBody(r, genOpts{noETX: true})
			}
		}
		s.order = nil
		b := *s
		b.override = map[string]string{key: ""}
		b.extra = append(append([]string{}, s.extra...), text)
		if text == "BY" {
			// the length field cannot be in two places: write the header by hand
			b.override["BY"] = ""
		}
		return s, b.build()
	}
}

func badNumber(r *R) string {
	switch r.IntN(4) {
	case 0: // not a digit, not a sign, not a blank first
		b := make([]byte, 1+r.IntN(9))
		for i := range b {
			for {
				b[i] = byte(r.IntN(256))
				if b[i] >= 'A' && b[i] <= 'Z' || b[i] == 3 || b[i] == '\n' || b[i] >= 0x80 {
					continue
				}
				if i == 0 && (b[i] >= '0' && b[i] <= '9' || b[i] == '+' || b[i] == '-' || b[i] <= ' ') {
					continue
				}
				break
			}
		}
		return strings.Repeat(" ", r.IntN(4)) + string(b)
	case 1: // beyond any integer
		return strings.Repeat(" ", r.IntN(3)) + pick(r, []string{"", "-"}) + pick(r, []string{"9223372036854775809", "99999999999999999999", "18446744073709551617", "1" + strings.Repeat("0", 19+r.IntN(300))})
	}
	return pick(r, []string{" ", "  ", "   ", " abc", "x", " x12", "-", " -", "+", "--5", ".", " .5", ",", " <12>", "a1", "/", " e", "_1"})
}

// beyondDuration draws minutes that fit an integer, but no time.Duration.
func beyondDuration(r *R) string {
	const limit = math.MaxInt64 / int64(time.Minute)
	n := limit + 1 + r.Int64N(1<<r.IntN(62)+1)
	if n < 0 || r.Chance(20) {
		n = pick(r, []int64{limit + 1, 1 << 32, 1 << 40, 1 << 58, math.MaxInt64, math.MaxInt64 / 6, 307445734561825861, 1000000000000})
	}
	if r.Chance(20) {
		n = -n
	}
	return strings.Repeat(" ", r.IntN(3)) + fmt.Sprint(n)
}

func lvText(r *R, s *Spec, n int, vals []string) string {
	return fmt.Sprintf("LV%2d%s", n, strings.Join(vals, ""))
}

func hugeNumber(r *R) string {
	return pick(r, []string{"10000", "10001", "99999", "65536", "65535", "1000000", "2147483647", "2147483648", "4294967296", "4294967297",
		"9223372036854775807", "9223372036854775808", "18446744073709551616", "99999999999999999999999", fmt.Sprint(10000 + r.IntN(1<<30))})
}

func c03Defects() []defect {
	num := func(key, prefix string) defect {
		return defect{key + " unreadable", withOverride(key, func(r *R, s *Spec) string { return prefix + badNumber(r) })}
	}
	ds := []defect{
		{"no terminator", func(r *R) (*Spec, []byte) {
			s := r.base()
			raw := s.build()
			h := len(s.header)
			return s, append(append([]byte{}, raw[:h-1]...), raw[h:]...)
		}},
		{"empty input", func(r *R) (*Spec, []byte) { s := r.base(); return s, nil }},
		{"header too short", func(r *R) (*Spec, []byte) {
			s := r.base()
			raw := s.build()
			n := r.IntN(21)
			return s, append(append(append([]byte{}, raw[:n]...), 3), raw[len(s.header):]...)
		}},
		{"no product label", withOverride("FIXED", func(r *R, s *Spec) string {
			f := s.Product + s.Time.Format("021504") + s.WMO + s.Time.Format("0106")
			return pick(r, []string{" ", "0", "9", "x", "r", "-", "_", "\x00", "\xff", "\n"}) + f[1:]
		})},
		{"too short a header before the header", func(r *R) (*Spec, []byte) {
			s := r.base()
			raw := s.build()
			pre := make([]byte, r.IntN(21))
			for k := range pre {
				for pre[k] = byte(r.IntN(256)); pre[k] == 3; {
					pre[k] = byte(r.IntN(256))
				}
				if r.Chance(50) {
					pre[k] = pick(r, []byte("\x00\x01\x02\r\n 012"))
				}
			}
			return s, append(append(pre, 3), raw...)
		}},
		{"text before the header", func(r *R) (*Spec, []byte) {
			s := r.base()
			raw := s.build()
			pre := pick(r, []string{"\x01\r\r\n", "\x02", "\xef\xbb\xbf", "\x00", "\x01\r\r\n123 \r\r\n", "\r\n", "\n", " ", "\x01"})
			return s, append([]byte(pre), raw...)
		}},
		{"no length", withOverride("BY", func(r *R, s *Spec) string { return "" })},
		num("BY", "BY"), num("VV", "VV"), num("INT", "INT"), num("VS", "VS"),
		{"VV beyond any duration", withOverride("VV", func(r *R, s *Spec) string { return "VV" + beyondDuration(r) })},
		{"INT beyond any duration", withOverride("INT", func(r *R, s *Spec) string {
			if len(s.Product) == 2 && s.Product[0] == 'W' && s.Product[1] >= '1' && s.Product[1] <= '4' && r.Chance(60) { // tens of minutes
				return fmt.Sprintf("INT%d", math.MaxInt64/int64(time.Minute)/10+1+r.Int64N(1<<r.IntN(27)+1))
			}
			return "INT" + beyondDuration(r)
		})},
		{"E unreadable", withOverride("E", func(r *R, s *Spec) string { return "PR E" + badNumber(r) })},
		{"VV empty at the end", atEnd("VV", "VV")},
		{"INT empty at the end", atEnd("INT", "INT")},
		{"VS empty at the end", atEnd("VS", "VS")},
		{"E empty at the end", atEnd("E", "PR E")},
		{"GP empty at the end", atEnd("GP", "GP")},
		{"BG empty at the end", atEnd("BG", "BG")},
		{"BY empty at the end", atEnd("BY", "BY")},
		{"GP unreadable", withOverride("GP", func(r *R, s *Spec) string {
			return "GP" + pick(r, []string{" ", " 450", "450x", " x450", " abcxdef", "450,450", " 450 450", "x", "450xabc", "450x ", "-x-", " 450y 450"})
		})},
		{"BG unreadable", withOverride("BG", func(r *R, s *Spec) string {
			return "BG" + pick(r, []string{" ", "460", "46", " abcdef", "abc460", "460abc", "460   ", "   460", "4", "------"})
		})},
		{"GP unreadable although BG is given", func(r *R) (*Spec, []byte) {
			s := r.base()
			s.DimKind, s.Rows, s.Cols = 1, 1+r.IntN(30), 1+r.IntN(30)
			s.genBody(r, genOpts{noETX: true})
			b := *s
			b.override = map[string]string{"GP": "GP" + pick(r, []string{" ", "x", " abcxdef", "-x-", "450", " 450 450", badNumber(r) + "x" + fmt.Sprint(s.Cols)})}
			b.extra = append(append([]string{}, s.extra...), fmt.Sprintf("BG%03d%03d", s.Rows, s.Cols))
			return s, b.build()
		}},
		{"dimensions of a local product unreadable", func(r *R) (*Spec, []byte) {
			s := r.base()
			for s.Product = pick(r, localLabels); strings.HasSuffix(s.Product, "U") || strings.HasSuffix(s.Product, "Z"); {
				s.Product = pick(r, localLabels)
			}
			s.DimKind = 0
			if s.Enc == encLE && r.Chance(70) {
				s.Enc = encSB
			}
			s.genBody(r, genOpts{noETX: true})
			b := *s
			f := "GP" + pick(r, []string{" ", "x", "  ", " abcxdef", "-x-", "   0x   0", " 224x   0", "  -1x 200", badNumber(r)})
			if r.Chance(40) {
				f = "BG" + pick(r, []string{" ", "x", "  ", " abcxdef", "-x-", "000000", "224000", "000200", "   200", "224   "})
			}
			b.extra = append(append([]string{}, s.extra...), f)
			return s, b.build()
		}},
		{"no dimensions", func(r *R) (*Spec, []byte) {
			s := r.base()
			for {
				if _, local := refLocal[s.Product]; !local {
					break
				}
				s.Product = pick(r, knownLabels)
			}
			s.genBody(r, genOpts{noETX: true})
			b := *s
			k := "GP"
			if s.DimKind == 2 {
				k = "BG"
			}
			b.override = map[string]string{k: ""}
			return s, b.build()
		}},
		{"zero dimension", func(r *R) (*Spec, []byte) {
			s := r.base()
			b := *s
			a, z := fmt.Sprint(s.Rows), "0"
			switch r.IntN(3) {
			case 0:
				a, z = "0", fmt.Sprint(s.Cols)
			case 1:
				a = "0"
			}
			key, text := "GP", "GP "+a+"x "+z
			if s.DimKind == 2 {
				key, text = "BG", "BG"+strings.Repeat("0", 3-len(a))+a+strings.Repeat("0", 3-len(z))+z
			}
			b.override = map[string]string{key: text}
			if r.Chance(50) { // declared length consistent with no pixels at all
				b.Body = nil
			}
			return s, b.build()
		}},
		{"negative dimension", func(r *R) (*Spec, []byte) {
			s := r.base()
			b := *s
			row, col := s.Rows, s.Cols
			switch r.IntN(3) {
			case 0:
				row = -row
			case 1:
				col = -col
			case 2:
				row, col = -row, -col // the product is positive again
			}
			key, text := "GP", fmt.Sprintf("GP%4dx%4d", row, col)
			if s.DimKind == 2 && row >= -99 && col >= -99 {
				key, text = "BG", fmt.Sprintf("BG%03d%03d", row, col)
				if r.Chance(50) {
					text = fmt.Sprintf("BG%3d%3d", row, col)
				}
			} else if s.DimKind == 2 {
				key = "BG"
			}
			b.override = map[string]string{key: text}
			return s, b.build()
		}},
		{"unrepresentable dimension", func(r *R) (*Spec, []byte) {
			s := r.base()
			b := *s
			row, col := fmt.Sprint(s.Rows), fmt.Sprint(s.Cols)
			switch r.IntN(3) {
			case 0:
				row = hugeNumber(r)
			case 1:
				col = hugeNumber(r)
			case 2:
				row, col = hugeNumber(r), hugeNumber(r)
			}
			// the allocation bombs proper are run in a process of their own (C01)
			if len(row) > 5 {
				row = strings.Repeat("9", 20)
			}
			if len(col) > 5 {
				col = strings.Repeat("9", 20)
			}
			if len(row) == 5 && len(col) == 5 {
				col = "1"
			}
			key := "GP"
			if s.DimKind == 2 {
				key = "BG"
			}
			b.override = map[string]string{key: "GP" + row + "x" + col}
			return s, b.build()
		}},
		{"LV empty at the end", func(r *R) (*Spec, []byte) {
			s := r.base()
			if s.HasLV || r.Chance(40) {
				s.Enc = encRL
				s.genLevels(r)
				s.genBody(r, genOpts{noETX: true})
			}
			s.order = nil
			b := *s
			b.override = map[string]string{"LV": ""}
			b.extra = append(append([]string{}, s.extra...), "LV")
			return s, b.build()
		}},
		{"level table too short", withOverride("LV", func(r *R, s *Spec) string {
			return pick(r, []string{"LV ", "LV6", "LV 6", "LV12", "LV 1", "LV 1  ", "LV 2  1.0"})
		})},
		{"level count differs", withOverride("LV", func(r *R, s *Spec) string {
			n := len(s.Levels)
			k := n
			for k == n || k < 0 || k > 99 {
				k = n + r.IntN(9) - 4
			}
			return lvText(r, s, k, s.Levels)
		})},
		{"level table length off", withOverride("LV", func(r *R, s *Spec) string {
			t := lvText(r, s, len(s.Levels), s.Levels)
			if r.Chance(50) && len(s.Levels) > 0 {
				return t[:len(t)-1-r.IntN(4)]
			}
			return t + pick(r, []string{" ", "0", "  ", "    ", ".0"})
		})},
		{"level count unreadable", withOverride("LV", func(r *R, s *Spec) string {
			return "LV" + pick(r, []string{"  ", "xx", "-a", "a1", ".5"}) + strings.Join(s.Levels, "")
		})},
		{"level count negative", withOverride("LV", func(r *R, s *Spec) string {
			return "LV-" + fmt.Sprint(1+r.IntN(9)) + strings.Join(s.Levels, "")
		})},
		{"level value unreadable", withOverride("LV", func(r *R, s *Spec) string {
			vals := append([]string{}, s.Levels...)
			bad := pick(r, []string{"     ", "  abc", "  x.0", " ,1.0", "-----", "  -  "})
			if len(vals) == 0 {
				vals = []string{bad}
			} else {
				vals[r.IntN(len(vals))] = bad
			}
			return lvText(r, s, len(vals), vals)
		})},
	}
	date := func(name string, f func(r *R, s *Spec) string) {
		ds = append(ds, defect{name, func(r *R) (*Spec, []byte) {
			s := r.base()
			b := *s
			t := s.Time.Format("0215040106") // day hour minute month year
			d := []byte(t)
			x := f(r, s)
			switch {
			case len(x) == 10:
				copy(d, x)
			case strings.HasPrefix(name, "day"):
				copy(d[0:], x)
			case strings.HasPrefix(name, "hour"):
				copy(d[2:], x)
			case strings.HasPrefix(name, "minute"):
				copy(d[4:], x)
			case strings.HasPrefix(name, "month"):
				copy(d[6:], x)
			}
			b.override = map[string]string{"FIXED": s.Product + string(d[:6]) + s.WMO + string(d[6:])}
			return s, b.build()
		}})
	}
	two := func(lo, hi int) func(r *R, s *Spec) string {
		return func(r *R, s *Spec) string { return fmt.Sprintf("%02d", lo+r.IntN(hi-lo+1)) }
	}
	date("day zero", func(r *R, s *Spec) string { return "00" })
	date("day beyond 31", two(32, 99))
	date("hour beyond 23", two(24, 99))
	date("minute beyond 59", two(60, 99))
	date("month zero", func(r *R, s *Spec) string { return "00" })
	date("month beyond 12", two(13, 99))
	date("impossible date", func(r *R, s *Spec) string {
		y := r.IntN(69)
		md := pick(r, []string{"3002", "3102", "3104", "3106", "3109", "3111"})
		if y%4 != 0 && r.Chance(40) {
			md = "2902"
		}
		return fmt.Sprintf("%s%02d%02d%s%02d", md[:2], r.IntN(24), r.IntN(60), md[2:], y)
	})
	ds = append(ds, defect{"date not numeric", func(r *R) (*Spec, []byte) {
		s := r.base()
		b := *s
		d := []byte(s.Time.Format("0215040106"))
		d[r.IntN(10)] = pick(r, []byte(" x:.\x00/"))
		b.override = map[string]string{"FIXED": s.Product + string(d[:6]) + s.WMO + string(d[6:])}
		return s, b.build()
	}})
	return ds
}

func propC03(c *Ctx) {
	ds := c03Defects()
	c.Rule(fmt.Sprintf("A sound file with every field declared is drawn, one defect of %d classes is planted in its header (length field recomputed so that nothing else is wrong), and reading has to fail with an error other than the unknown-unit warning. The sound baseline is read as well and has to be accepted, so that the rejection is due to the defect. Distinct: defective file.", len(ds)))
	per := c.N(700, 14000)
	c.Par("defects", per*len(ds), func(r *R) {
		d := ds[r.i%len(ds)]
		s, bad := d.make(r)
		good := s.build()
		r.Input(good)
		if cg, err := read(good); err == nil || err == radolan.ErrUnknownUnit {
			if cg != nil {
				r.Cat("baseline accepted")
			}
		}
		r.Input(bad)
		comp, err := read(bad)
		r.Eval(1)
		if err == nil || err == radolan.ErrUnknownUnit {
			dim := ""
			if comp != nil {
				dim = fmt.Sprintf(" (got %s %v forecast %v interval %v, %dx%d version %d)", comp.Product, comp.CaptureTime, comp.ForecastTime, comp.Interval, comp.Dx, comp.Dy, comp.Format)
			}
			r.Fail("defect %q accepted: header %q%s", d.name, clip(bad[:min(len(bad), 260)]), dim)
			return
		}
		r.Distinct(hash64(bad))
		r.Cat("rejected: " + d.name)
		r.Sample(func() any {
			return map[string]any{"defect": d.name, "bytes": fmt.Sprintf("%q", bad[:min(len(bad), 200)]), "error": err.Error()}
		})
	})
	c.Need("baseline accepted", int64(per*len(ds)*9/10))
	// every combination of day and month, hour and minute, in which something is impossible
	days := []int{31, 29, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}
	reject := func(r *R, s *Spec, d string) bool {
		b := *s
		b.override = map[string]string{"FIXED": s.Product + d[:6] + s.WMO + d[6:]}
		bad := b.build()
		r.Input(bad)
		comp, err := read(bad)
		r.Eval(1)
		if err == nil || err == radolan.ErrUnknownUnit {
			r.Fail("impossible time %q (day hour minute month year) accepted (composite %v): header %q", d, comp != nil, clip(bad[:min(len(bad), 200)]))
			return false
		}
		r.Bulk(1)
		r.Cat("impossible times rejected")
		return true
	}
	c.Par("impossible-times", 100, func(r *R) {
		s := r.base()
		t := s.Time.Format("0215040106")
		for k := 0; k < 100; k++ {
			if r.i >= 24 || k >= 60 { // hour r.i, minute k
				if !reject(r, s, t[:2]+fmt.Sprintf("%02d%02d", r.i, k)+t[6:]) {
					return
				}
			}
			for _, y := range []int{r.IntN(69), 4 * r.IntN(17), 0} { // month r.i, day k
				if r.i < 1 || r.i > 12 || k < 1 || k > days[r.i-1] || r.i == 2 && k == 29 && y%4 != 0 {
					if !reject(r, s, fmt.Sprintf("%02d%s%02d%02d", k, t[2:6], r.i, y)) {
						return
					}
				}
			}
		}
	})
	c.Par("time-digits", 256, func(r *R) { // any other byte in any place of the time
		if r.i >= '0' && r.i <= '9' {
			return
		}
		for k := 0; k < 10; k++ {
			s := r.base()
			d := []byte(s.Time.Format("0215040106"))
			d[k] = byte(r.i)
			if !reject(r, s, string(d)) {
				return
			}
		}
	})
}

// ---- C11 ----

func propC11(c *Ctx) {
	c.Rule("All two-character product labels (A-Z, A-Z0-9; labels equal to header field names excluded) with declared dimensions, in all three encodings; all local labels without declared dimensions with full-size data in all three encodings; the oracle is the published catalogue. Distinct: label x encoding x variation.")
	var labels []string
	for a := 'A'; a <= 'Z'; a++ {
		for _, b := range "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789" {
			if l := string([]rune{a, b}); validLabel(l) {
				labels = append(labels, l)
			}
		}
	}
	o := defOpts()
	o.cells = 120
	o.local = 0
	c.Par("all-labels", len(labels), func(r *R) {
		for k := 0; k < c.N(60, 600); k++ {
			o := o
			o.enc = k % 3
			s := r.genSpec(o)
			s.Product = labels[r.i]
			if s.Enc == encRL && len(s.Levels) == 0 {
				s.genLevels(r)
			}
			s.genBody(r, o)
			if !r.verify(s) {
				return
			}
			r.Distinct(s.key())
			if s.unit() == uUnknown {
				r.Cat("unknown-unit warnings with complete data")
			} else {
				r.Cat("unit " + unitNames[s.unit()])
			}
			r.Sample(s.describe)
		}
	})
	// catalogued labels are matched exactly: in lower case they are unknown
	c.Par("lower-case", c.N(3000, 30000), func(r *R) {
		s := r.genSpec(o)
		for s.Product = "EX"; s.Product[0] == 'E' || s.Product[1] < 'A'; {
			s.Product = pick(r, knownLabels)
		}
		s.Product = s.Product[:1] + strings.ToLower(s.Product[1:])
		s.genBody(r, o)
		if r.verify(s) {
			r.Distinct(s.key())
			r.Cat("labels in lower case")
		}
	})
	// a product of unknown unit is as complete as one of a known unit without conversion
	c.Par("unknown-complete", c.N(1500, 15000), func(r *R) {
		s := r.sized(genOpts{cells: 1, enc: -1, unit: uMM}, 25, 25)
		g := gridDims[r.IntN(len(gridDims))]
		for s.Cols, s.Rows = g[0], g[1]; s.Cols*s.Rows > 140000 && s.Cols%2 == 0 && s.Rows%2 == 0; {
			s.Cols, s.Rows = s.Cols/2, s.Rows/2
		}
		if s.Cols*s.Rows > 140000 || r.Chance(20) {
			s.Cols, s.Rows = r.Smart(1, 80), r.Smart(1, 80)
		}
		s.genBody(r, o)
		known, kerr := read(s.build())
		for {
			s.Product = string([]byte{'A' + byte(r.IntN(26)), 'A' + byte(r.IntN(26))})
			if validLabel(s.Product) && s.unit() == uUnknown {
				break
			}
		}
		raw := s.build()
		r.Input(raw)
		got, err := read(raw)
		r.Eval(1)
		if kerr != nil {
			r.Fail("well-formed file rejected: %v", kerr)
			return
		}
		if err != radolan.ErrUnknownUnit || got == nil {
			r.Fail("product %s: error is %v (composite %t), want the unknown-unit error", s.Product, err, got != nil)
			return
		}
		if int(got.DataUnit) != uUnknown || got.Product != s.Product {
			r.Fail("product %s reported as %s with unit %v", s.Product, got.Product, got.DataUnit)
			return
		}
		got.Product, got.DataUnit = known.Product, known.DataUnit
		if isW(known.Product) {
			got.Interval = known.Interval
		}
		if m := compareComposites(got, known); m != "" {
			r.Fail("product %s of unknown unit is not read like a known one: %s [header %q]", s.Product, m, clip(s.header))
			return
		}
		if got.HasProjection {
			r.Cat("unknown products with projection")
		}
		r.Distinct(s.key())
	})
	c.Need("unknown products with projection", 100)
	// truncated or malformed files of unknown products must not use the unknown-unit error
	c.Par("unknown-and-broken", c.N(8000, 80000), func(r *R) {
		o := o
		o.unknown = 100
		s := r.genSpec(o)
		raw := s.build()
		cut := r.IntN(len(raw))
		r.Input(raw[:cut])
		_, err := read(raw[:cut])
		r.Eval(1)
		if err == nil || err == radolan.ErrUnknownUnit {
			r.Fail("product %s cut after %d of %d bytes: error is %v", s.Product, cut, len(raw), err)
			return
		}
		r.Cat("broken unknown products reported as broken")
		r.Distinct(hash64(raw[:cut]))
	})
	per := c.N(9, 60)
	c.Par("local", len(localLabels)*per, func(r *R) {
		o := defOpts()
		o.enc = r.i % 3
		s := r.genSpec(genOpts{cells: 10, enc: o.enc, unit: -1})
		s.Product = localLabels[r.i/per]
		s.DimKind = 0
		s.genBody(r, o)
		raw := s.build()
		r.Input(raw[:len(s.header)])
		comp, err := read(raw)
		r.Eval(1)
		if m := s.check(comp, err); m != "" {
			r.Fail("local product: %s [header %q]", m, clip(s.header))
			return
		}
		res := refLocal[s.Product].res
		if comp.Rx != res || comp.Ry != res {
			r.Fail("local product %s reports resolution %v x %v km, catalogued %v", s.Product, comp.Rx, comp.Ry, res)
			return
		}
		x, y := comp.Project(50, 10)
		if comp.HasProjection || !math.IsNaN(x) || !math.IsNaN(y) {
			r.Fail("local product %s claims a projection (%v %v)", s.Product, x, y)
			return
		}
		r.Distinct(s.key())
		r.Cat("local " + s.Product)
		r.Sample(s.describe)
	})
	// the unit of a local label does not depend on whether dimensions are declared, and
	// declared dimensions win over the catalogue
	c.Par("local-declared", c.N(4000, 40000), func(r *R) {
		s := r.genSpec(o)
		s.Product = pick(r, localLabels)
		s.genBody(r, o)
		if r.verify(s) {
			r.Distinct(s.key())
			r.Cat("local label with declared dimensions")
		}
	})
	c.Seq("unit-names", 5, func(r *R) {
		if got := radolan.Unit(r.i).String(); got != unitNames[r.i] {
			r.Fail("unit %d is named %q, want %q", r.i, got, unitNames[r.i])
		}
		r.Eval(1)
		r.Bulk(1)
	})
}
