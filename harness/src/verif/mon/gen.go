package main

import (
	"bytes"
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
	"time"
	"unicode"

	"gitlab.cs.fau.de/since/radolan"
)

var (
	refUnit     = map[string]int{}
	knownLabels []string
	localLabels []string
	unitLabels  = map[int][]string{}
)

// labels that collide with the names of header fields
var reserved = map[string]bool{"BY": true, "VV": true, "GP": true, "BG": true, "LV": true, "VS": true}

func validLabel(s string) bool {
	if len(s) != 2 || s[0] < 'A' || s[0] > 'Z' || reserved[s] {
		return false
	}
	if s[1] >= '0' && s[1] <= '9' {
		return s[0] != 'E' // single letter field name of the precision
	}
	return s[1] >= 'A' && s[1] <= 'Z'
}

func init() {
	for u, s := range map[int]string{uMM: refMM, uDBZ: refDBZ, uKM: refKM, uMPS: refMPS} {
		for _, p := range strings.Fields(s) {
			refUnit[p] = u
			knownLabels = append(knownLabels, p)
			unitLabels[u] = append(unitLabels[u], p)
		}
	}
	sort.Strings(knownLabels)
	for p := range refLocal {
		localLabels = append(localLabels, p)
	}
	sort.Strings(localLabels)
	for _, l := range unitLabels {
		sort.Strings(l)
	}
}

type encKind int

const (
	encRL encKind = iota
	encLE
	encSB
)

var encNames = []string{"runlength", "two-byte", "one-byte"}

const absent = -1 << 40

// Spec describes a well-formed product file by its meaning. build writes the
// file, want says what reading it has to give.
type Spec struct {
	Product    string
	Time       time.Time
	WMO        string
	VV         int // absent if not declared
	INT        int
	VS         int
	Prec       int
	DimKind    int // 0 none (local product), 1 GP, 2 BG
	Rows, Cols int
	HasLV      bool
	Levels     []string
	Enc        encKind
	Body       []byte
	Plain      []float64 // expected plain data, rows top to bottom
	Tol        []float64 // nil: compare exactly after conversion to float32

	order    []int             // order of the fields
	pads     [16]int           // padding choices
	extra    []string          // unrelated fields, complete
	override map[string]string // raw text instead of a field ("" removes it)
	byDelta  int               // error added to the declared length
	header   []byte            // filled by build
}

func (s *Spec) unit() int { return refUnit[s.Product] }

func pad(n, w, mode int) string {
	if mode == 5 { // wider than usual, such as "GP 1500x1400"
		return fmt.Sprintf("%*d", w+1+n&3, n)
	}
	switch mode % 3 {
	case 0:
		return fmt.Sprintf("%*d", w, n)
	case 1:
		return fmt.Sprintf("%0*d", w, n)
	}
	return fmt.Sprintf(" %d", n)
}

// fields returns the field texts of the header; BY is given the total length.
func (s *Spec) fields(total string) []string {
	var fs []string
	add := func(key, text string) {
		if o, ok := s.override[key]; ok {
			text = o
		}
		if text != "" {
			fs = append(fs, text)
		}
	}
	add("BY", "BY"+total)
	if s.VS != absent {
		add("VS", "VS"+pad(s.VS, 2, s.pads[0]))
	} else {
		add("VS", "")
	}
	if s.Prec != absent {
		f := "PR E%+03d"
		switch s.pads[7] {
		case 4: // wider than usual
			f = "PR E%+06d"
		case 5:
			f = "PR E  %+d"
		}
		add("E", fmt.Sprintf(f, s.Prec))
	} else {
		add("E", "")
	}
	if s.INT != absent {
		add("INT", "INT"+pad(s.INT, 4, s.pads[1]))
	} else {
		add("INT", "")
	}
	switch s.DimKind {
	case 1:
		add("GP", "GP"+pad(s.Rows, 4, s.pads[2])+"x"+pad(s.Cols, 4, s.pads[3]))
	case 2:
		f := "BG%03d%03d"
		if s.pads[2]%3 == 0 {
			f = "BG%3d%3d"
		}
		add("BG", fmt.Sprintf(f, s.Rows, s.Cols))
	default:
		add("GP", "")
	}
	if s.VV != absent {
		add("VV", "VV"+pad(s.VV, 4, s.pads[4]))
	} else {
		add("VV", "")
	}
	if s.HasLV {
		f := "LV%2d%s"
		if s.pads[8] == 1 && s.pads[9] < 2 { // zero padded
			f = "LV%02d%s"
		}
		add("LV", fmt.Sprintf(f, len(s.Levels), strings.Join(s.Levels, "")))
	} else {
		add("LV", "")
	}
	fs = append(fs, s.extra...)
	if s.order != nil {
		out := make([]string, 0, len(fs))
		for _, k := range s.order {
			if k < len(fs) {
				out = append(out, fs[k])
			}
		}
		fs = out
	}
	return fs
}

// build assembles the complete file.
func (s *Spec) build() []byte {
	fixed := s.Product + s.Time.Format("021504") + s.WMO + s.Time.Format("0106")
	if o, ok := s.override["FIXED"]; ok {
		fixed = o
	}
	// the length field is wide enough for any length, so it does not change the length
	w := 7 + s.pads[5]%3
	mk := func(total int) string {
		t := fmt.Sprintf("%*d", w, total)
		if s.pads[6]%3 == 1 && total >= 0 {
			t = fmt.Sprintf("%0*d", w, total)
		}
		return fixed + strings.Join(s.fields(t), "") + "\x03"
	}
	var h string
	for total := 0; ; {
		h = mk(total)
		t := len(h) + len(s.Body) + s.byDelta
		if t == total {
			break
		}
		total = t
	}
	s.header = []byte(h)
	return append([]byte(h), s.Body...)
}

// geometry returns plain and data dimensions and the number of layers.
func (s *Spec) geometry() (px, py, dx, dy, dz int) {
	if s.DimKind == 0 {
		l := refLocal[s.Product]
		px, py, dx, dy = l.px, l.py, l.dx, l.dy
	} else {
		px, py, dx, dy = s.Cols, s.Rows, s.Cols, s.Rows
	}
	dz = 1
	if py%dy == 0 {
		dz = py / dy
	}
	return
}

// value is the meaning of a raw number in the product.
func (s *Spec) value(raw int) (v, tol float64) {
	p := s.Prec
	if p == absent {
		p = 0
	}
	v = float64(raw) * math.Pow(10, float64(p))
	tol = 5e-7*math.Abs(v) + 1e-41
	if s.unit() == uDBZ {
		v = v/2 - 32.5
		tol += 2e-5
	}
	return
}

func sameF(got float32, want, tol float64) bool {
	if math.IsNaN(want) {
		return got != got
	}
	g := float64(got)
	if g == want {
		return true
	}
	return math.Abs(g-want) <= tol
}

// check compares a composite with the meaning of the spec. It returns "" or a
// description of the first difference.
func (s *Spec) check(c *radolan.Composite, err error) string {
	if c == nil {
		return fmt.Sprintf("no composite (error: %v)", err)
	}
	if s.unit() == uUnknown {
		if err != radolan.ErrUnknownUnit {
			return fmt.Sprintf("product %s: error is %v, want the unknown-unit error", s.Product, err)
		}
	} else if err != nil {
		return fmt.Sprintf("well-formed file rejected: %v", err)
	}
	if m := s.checkMeta(c); m != "" {
		return m
	}
	return s.checkData(c)
}

func (s *Spec) times() (cap, fc time.Time, interval time.Duration) {
	cap, fc = s.Time, s.Time
	if s.VV != absent {
		fc = cap.Add(time.Duration(s.VV) * time.Minute)
	}
	if s.INT != absent {
		interval = time.Duration(s.INT) * time.Minute
		switch s.Product {
		case "W1", "W2", "W3", "W4":
			interval *= 10
		}
	}
	return
}

func (s *Spec) checkMeta(c *radolan.Composite) string {
	if c.Product != s.Product {
		return fmt.Sprintf("product %q, declared %q", c.Product, s.Product)
	}
	if int(c.DataUnit) != s.unit() {
		return fmt.Sprintf("product %s: unit %v, catalogued %s", s.Product, c.DataUnit, unitNames[s.unit()])
	}
	cap, fc, iv := s.times()
	if !c.CaptureTime.Equal(cap) {
		return fmt.Sprintf("capture time %v, declared %v", c.CaptureTime, cap)
	}
	if _, off := c.CaptureTime.Zone(); off != 0 {
		return fmt.Sprintf("capture time %v not in UTC", c.CaptureTime)
	}
	if !c.ForecastTime.Equal(fc) {
		return fmt.Sprintf("forecast time %v, declared %v", c.ForecastTime, fc)
	}
	if _, off := c.ForecastTime.Zone(); off != 0 {
		return fmt.Sprintf("forecast time %v not in UTC", c.ForecastTime)
	}
	if c.Interval != iv {
		return fmt.Sprintf("product %s: interval %v, declared %v", s.Product, c.Interval, iv)
	}
	vs := s.VS
	if vs == absent {
		vs = 0
	}
	if c.Format != vs {
		return fmt.Sprintf("format version %d, declared %d", c.Format, vs)
	}
	px, py, dx, dy, dz := s.geometry()
	if c.Px != px || c.Py != py || c.Dx != dx || c.Dy != dy || c.Dz != dz {
		return fmt.Sprintf("dimensions plain %dx%d data %dx%dx%d (columns x rows), want plain %dx%d data %dx%dx%d",
			c.Px, c.Py, c.Dx, c.Dy, c.Dz, px, py, dx, dy, dz)
	}
	return ""
}

// checkShape verifies that plain data, layers and the two-dimensional view have
// the shape the composite's own dimensions say.
func checkShape(c *radolan.Composite) string {
	if c.Px <= 0 || c.Py <= 0 || c.Dx <= 0 || c.Dy <= 0 || c.Dz <= 0 {
		return fmt.Sprintf("non-positive dimensions plain %dx%d data %dx%dx%d", c.Px, c.Py, c.Dx, c.Dy, c.Dz)
	}
	if len(c.PlainData) != c.Py {
		return fmt.Sprintf("plain data has %d rows, want %d", len(c.PlainData), c.Py)
	}
	for y, row := range c.PlainData {
		if len(row) != c.Px {
			return fmt.Sprintf("plain data row %d has %d columns, want %d", y, len(row), c.Px)
		}
	}
	if len(c.DataZ) != c.Dz {
		return fmt.Sprintf("%d layers, want %d", len(c.DataZ), c.Dz)
	}
	for z, l := range c.DataZ {
		if len(l) != c.Dy {
			return fmt.Sprintf("layer %d has %d rows, want %d", z, len(l), c.Dy)
		}
		for y, row := range l {
			if len(row) != c.Dx {
				return fmt.Sprintf("layer %d row %d has %d columns, want %d", z, y, len(row), c.Dx)
			}
		}
	}
	if len(c.Data) != c.Dy {
		return fmt.Sprintf("two-dimensional data has %d rows, want %d", len(c.Data), c.Dy)
	}
	return ""
}

func (s *Spec) at(y, x, px int) (v, tol float64) {
	k := y*px + x
	v = s.Plain[k]
	if s.Tol != nil {
		tol = s.Tol[k]
	} else {
		v = float64(float32(v))
	}
	return
}

func (s *Spec) checkData(c *radolan.Composite) string {
	if m := checkShape(c); m != "" {
		return m
	}
	px, py, _, dy, dz := s.geometry()
	for y := 0; y < py; y++ {
		row := c.PlainData[y]
		for x := 0; x < px; x++ {
			if v, tol := s.at(y, x, px); !sameF(row[x], v, tol) {
				return fmt.Sprintf("%s %s: pixel (x=%d, y=%d) of %dx%d is %v, want %v (%s)",
					s.Product, encNames[s.Enc], x, y, px, py, row[x], v, s.rawAt(y, x))
			}
		}
	}
	for z := 0; z < dz; z++ {
		for y := 0; y < dy; y++ {
			p := z*dy + y
			if py%dy != 0 {
				p = py - dy + y
			}
			row := c.DataZ[z][y]
			for x := range row {
				if v, tol := s.at(p, x, px); !sameF(row[x], v, tol) {
					return fmt.Sprintf("%s: layer %d (x=%d, y=%d) is %v, want %v", s.Product, z, x, y, row[x], v)
				}
			}
		}
	}
	for y, row := range c.Data {
		for x := range row {
			if math.Float32bits(row[x]) != math.Float32bits(c.DataZ[0][y][x]) {
				return fmt.Sprintf("2D data (x=%d, y=%d) is %v, layer 0 has %v", x, y, row[x], c.DataZ[0][y][x])
			}
		}
	}
	return ""
}

func (s *Spec) rawAt(y, x int) string {
	px, py, _, _, _ := s.geometry()
	switch s.Enc {
	case encLE:
		k := 2 * ((py-1-y)*px + x)
		return fmt.Sprintf("word %02x%02x, precision %d", s.Body[k+1], s.Body[k], s.Prec)
	case encSB:
		return fmt.Sprintf("byte %d, precision %d", s.Body[(py-1-y)*px+x], s.Prec)
	}
	return "runs"
}

// ---- generators ----

type genOpts struct {
	cells    int // upper bound for the number of pixels
	enc      int // -1 any
	unit     int // -1 any
	noExtras bool
	local    int  // percent of local products
	noETX    bool // no 0x03 in the binary section
	unknown  int  // percent of labels without catalogued unit
}

func defOpts() genOpts { return genOpts{cells: 20000, enc: -1, unit: -1, local: 1, unknown: 6} }

func (r *R) genTime() time.Time {
	// every day of the period 2000 to 2068 which the two-digit year can express
	var y, mo, d int
	switch r.IntN(8) {
	case 0: // ends of months and years
		y, mo = 2000+r.IntN(69), 1+r.IntN(12)
		d = time.Date(y, time.Month(mo)+1, 0, 0, 0, 0, 0, time.UTC).Day()
	case 1:
		y, mo, d = 2000+r.IntN(69), []int{1, 2, 3, 12}[r.IntN(4)], 1
	case 2:
		y, mo, d = 2000+4*r.IntN(18), 2, 29
		if y > 2068 {
			y = 2064
		}
	default:
		t := time.Date(2000, 1, 1, 0, 0, 0, 0, time.UTC).AddDate(0, 0, r.IntN(69*365))
		y, mo, d = t.Year(), int(t.Month()), t.Day()
	}
	h, m := r.IntN(24), r.IntN(60)
	if r.Chance(15) {
		h = []int{0, 23, 12}[r.IntN(3)]
	}
	if r.Chance(25) {
		m = []int{0, 59, 50, 55}[r.IntN(4)]
	}
	return time.Date(y, time.Month(mo), d, h, m, 0, 0, time.UTC)
}

func (r *R) genLabel(o genOpts) string {
	if r.Chance(o.unknown) {
		for {
			p := string([]byte{byte('A' + r.IntN(26)), pick(r, []byte("ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"))})
			if validLabel(p) && refUnit[p] == uUnknown {
				return p
			}
		}
	}
	if n := len(r.c.dict.labels); n > 0 && o.unit < 0 && r.Chance(10) {
		return r.c.dict.labels[r.IntN(n)]
	}
	if o.unit > 0 {
		return pick(r, unitLabels[o.unit])
	}
	return pick(r, knownLabels)
}

var gridDims = [][2]int{ // columns, rows
	{900, 900}, {450, 450}, {225, 225}, {920, 920}, {460, 460}, {230, 230}, {115, 115},
	{900, 1100}, {450, 550}, {225, 275}, {1100, 1200}, {550, 600}, {275, 300},
	{1400, 1500}, {700, 750}, {350, 375},
}

func (r *R) genDims(cells int) (rows, cols int) {
	for {
		switch k := r.IntN(20); {
		case k < 4:
			rows, cols = 1+r.IntN(6), 1+r.IntN(6)
		case k < 10:
			rows, cols = r.Smart(1, 60), r.Smart(1, 60)
		case k < 11: // as many pixels as a number of the source
			n := r.Smart(1, cells)
			for rows = 1 + r.IntN(min(n, 99)); n%rows != 0; {
				rows--
			}
			if cols = n / rows; r.Chance(50) {
				rows, cols = cols, rows
			}
			if rows > 9999 || cols > 9999 {
				continue
			}
		case k < 13:
			rows, cols = r.Smart(1, 1100), r.Smart(1, 1100)
		case k < 15: // few very wide rows
			rows, cols = r.Smart(1, 4), r.Smart(1, 9999)
		case k < 17: // narrow and tall
			rows, cols = r.Smart(1, 9999), r.Smart(1, 4)
		case k < 18:
			rows = r.Smart(1, 300)
			cols = rows
		default:
			g := pick(r, gridDims)
			cols, rows = g[0], g[1]
		}
		if rows*cols <= cells {
			return
		}
		if r.Chance(30) {
			if rows > cols {
				rows = max(1, cells/cols)
			} else {
				cols = max(1, cells/rows)
			}
			if rows*cols <= cells && rows <= 9999 && cols <= 9999 {
				return
			}
		}
	}
}

func (r *R) genText() string {
	const alpha = "abcdefghijklmnopqrstuvwxyz ,.0123456789<>-_/"
	n := 1 + r.IntN(60)
	b := make([]byte, n)
	for i := range b {
		b[i] = alpha[r.IntN(len(alpha))]
	}
	return string(b)
}

func (r *R) genExtras() []string {
	pool := []string{
		"SW   2.13.1", "SW 1.7.2", "SW  18.3.0", "MF 00000002", "MF 00000000", "QN 001", "CS0", "CS1",
		"MX 0", "MX12", "MS 66<boo,ros,emd,hnr,umd,pro,ess,drs,neu,nhb,oft,eis,tur,isn,fbg,mem>",
		"MS 88<boo,ros,emd,hnr,umd,pro,ess,fld,drs,neu,nhb,oft,eis,tur,isn,fbg,mem> are used, ",
		"ST120<boo 12,ros 12,emd 12>", "HPR 1", "RZ 0.1", "U0", "TX 3", "CO1", "CD0", "QL 12", "SC 1",
	}
	var out []string
	n := r.IntN(4)
	if r.Chance(4) {
		n += r.IntN(30)
	}
	for ; n > 0; n-- {
		if r.Chance(70) {
			out = append(out, pick(r, pool))
		} else {
			k := pick(r, []string{"MS", "MF", "ZZ", "XA", "QQQ", "KOMMENTAR", "U", "A", "IN", "INTX", "VVV", "LVL", "BYT", "GPS", "EE"})
			if n := len(r.c.dict.keys); n > 0 && r.Chance(30) {
				k = r.c.dict.keys[r.IntN(n)]
			}
			t := r.genText()
			for r.Chance(25) && len(t) < 3000 {
				t += t + r.genText()
			}
			if r.Chance(6) { // names of stations outside of ASCII
				for k := 1 + r.IntN(4); k > 0; k-- {
					x := rune(0xa0 + r.IntN(0x160))
					if r.Chance(30) {
						x = rune(0xa0 + r.IntN(0x3000))
					}
					if !unicode.IsUpper(x) && !unicode.IsTitle(x) {
						t += string(x)
					}
				}
				if r.Chance(50) {
					t += r.genText()
				}
			}
			out = append(out, k+t)
		}
	}
	return out
}

// genSpec draws a complete well-formed file.
func (r *R) genSpec(o genOpts) *Spec {
	s := &Spec{}
	for i := range s.pads {
		s.pads[i] = r.IntN(6)
	}
	s.Time = r.genTime()
	s.WMO = fmt.Sprintf("%05d", []int{10000, 10132, 0, 99999, r.IntN(100000)}[r.IntN(5)])
	s.VV, s.INT, s.VS, s.Prec = absent, absent, absent, absent
	if r.Chance(60) {
		s.VV = r.Smart(0, 999)
		if r.Chance(50) {
			s.VV = 5 * r.IntN(40)
		}
	}
	if r.Chance(60) {
		s.INT = pick(r, []int{0, 5, 10, 15, 60, 1440, 1008, 144, 720, 2880, r.Smart(0, 9999)})
	}
	if r.Chance(60) {
		s.VS = r.Smart(0, 12)
		if r.Chance(5) {
			s.VS = r.Smart(0, 200)
		} else if r.Chance(2) {
			s.VS = r.Smart(0, 1<<31)
		}
	}
	if r.Chance(65) {
		s.Prec = r.IntN(6) - 3
		if r.Chance(6) {
			s.Prec = r.IntN(19) - 9
		} else if r.Chance(3) { // far beyond the published ones, but float32 can still express the values
			s.Prec = r.IntN(85) - 50
			if r.Chance(30) { // every value is zero
				s.Prec = -51 - r.Smart(0, 500)
			}
		}
	}
	if o.local > 0 && r.Chance(o.local) {
		s.Product = pick(r, localLabels)
		if o.unit >= 0 {
			for refUnit[s.Product] != o.unit {
				s.Product = pick(r, localLabels)
			}
		}
		s.DimKind = 0
	} else {
		s.Product = r.genLabel(o)
		s.DimKind = 1
		s.Rows, s.Cols = r.genDims(o.cells)
		if s.Rows <= 999 && s.Cols <= 999 && r.Chance(35) {
			s.DimKind = 2
		}
	}
	s.Enc = encKind(r.IntN(3))
	if o.enc >= 0 {
		s.Enc = encKind(o.enc)
	}
	if s.Enc == encRL {
		s.genLevels(r)
	}
	s.genBody(r, o)
	if !o.noExtras {
		s.extra = r.genExtras()
	}
	if r.Chance(60) {
		s.order = r.Perm(48)
	}
	return s
}

func (s *Spec) genLevels(r *R) {
	s.HasLV = true
	n := 1 + r.IntN(14)
	switch r.IntN(10) {
	case 0:
		n = r.IntN(3)
	case 1:
		n = 13 + r.IntN(5)
	case 2:
		n = r.IntN(100)
	case 3:
		n = 6
	}
	s.Levels = nil
	for i := 0; i < n; i++ {
		var t string
		switch r.IntN(6) {
		case 0:
			t = fmt.Sprintf("%5.1f", float64(r.IntN(2000)-1000)/10)
		case 2:
			t = fmt.Sprintf("%5.2f", float64(r.IntN(2000)-999)/100)
			if r.Chance(25) { // anything five columns can hold
				t = pick(r, []string{fmt.Sprintf("%5.3f", r.Float64()*9.99), fmt.Sprintf("%5d", r.IntN(109999)-9999), fmt.Sprintf("%4d.", r.IntN(10999)-999),
					fmt.Sprintf("%5.1f", r.Float64()*1099-99), "-9999", "99999", "-999.", "0.001", "-.001", " -0.0", "    0"})
			}
		default:
			t = fmt.Sprintf("%5.1f", 1.0+float64(i)*4.5+float64(r.IntN(30))/10)
		}
		if len(t) != 5 {
			t = "  1.0"
		}
		s.Levels = append(s.Levels, t)
	}
}

func (s *Spec) levelValues() []float64 {
	var out []float64
	for _, l := range s.Levels {
		v, err := strconv.ParseFloat(strings.TrimSpace(l), 32)
		if err != nil {
			panic(err)
		}
		out = append(out, v)
	}
	return out
}

func (r *R) genWord() uint16 {
	switch r.IntN(12) {
	case 0:
		return 0
	case 1: // no-data words
		return pick(r, []uint16{0x29C4, 0x2000, 0x2FFF, 0x09C4, 0x0FFF, 0x4000, 0x4001, 0x6000, 0x8001, 0x1001})
	case 2:
		return uint16(r.Smart(0, 4095))
	case 3, 4, 5:
		return uint16(r.IntN(4096))
	}
	return uint16(r.IntN(65536))
}

func (s *Spec) genBody(r *R, o genOpts) {
	px, py, _, _, _ := s.geometry()
	n := px * py
	s.Plain = make([]float64, n)
	s.Tol = nil
	switch s.Enc {
	case encLE:
		s.Tol = make([]float64, n)
		s.Body = make([]byte, 2*n)
		sparse := r.IntN(3) == 0
		for k := 0; k < n; k++ {
			w := uint16(0x29C4)
			if !sparse || r.IntN(8) == 0 {
				w = r.genWord()
			}
			if o.noETX && (byte(w) == 3 || byte(w>>8) == 3) {
				w = 0x29C4
			}
			s.Body[2*k], s.Body[2*k+1] = byte(w), byte(w>>8)
			s.setWord(k, px, py, w)
		}
	case encSB:
		s.Tol = make([]float64, n)
		s.Body = make([]byte, n)
		for k := 0; k < n; k++ {
			b := byte(r.IntN(256))
			if r.IntN(8) == 0 {
				b = pick(r, []byte{250, 249, 251, 255, 0, 1, 10, 127, 128})
			}
			if o.noETX && b == 3 {
				b = 4
			}
			s.Body[k] = b
			s.setByte(k, px, py, b)
		}
	case encRL:
		lv := s.levelValues()
		var buf bytes.Buffer
		for y := 0; y < py; y++ {
			line := r.genRow(s.Plain[y*px:(y+1)*px], lv, o.noETX)
			buf.Write(line)
			buf.WriteByte('\n')
		}
		s.Body = buf.Bytes()
	}
}

// setWord stores the meaning of word w at stream position k.
func (s *Spec) setWord(k, px, py int, w uint16) {
	d := (py-1-k/px)*px + k%px
	if w&0x2000 != 0 {
		s.Plain[d] = math.NaN()
		return
	}
	raw := int(w & 0x0FFF)
	if w&0x4000 != 0 {
		raw = -raw
	}
	s.Plain[d], s.Tol[d] = s.value(raw)
}

func (s *Spec) setByte(k, px, py int, b byte) {
	d := (py-1-k/px)*px + k%px
	if b == 250 {
		s.Plain[d] = math.NaN()
		return
	}
	s.Plain[d], s.Tol[d] = s.value(int(b))
}

// genRow writes one run-length row and its meaning.
func (r *R) genRow(dst []float64, lv []float64, noETX bool) []byte {
	for i := range dst {
		dst[i] = math.NaN()
	}
	okb := func(b byte) bool { return b != '\n' && !(noETX && b == 3) }
	var line []byte
	for {
		b := byte(r.IntN(256))
		if okb(b) {
			line = append(line, b)
			break
		}
	}
	if r.IntN(8) == 0 {
		return line // empty row
	}
	w := len(dst)
	var off int
	switch r.IntN(4) {
	case 0:
		off = 0
	case 1:
		off = r.Smart(0, w)
	case 2:
		off = r.IntN(min(w, 20) + 1)
	default:
		off = pick(r, []int{238, 239, 240, 478, r.IntN(w + 1)})
	}
	if off > w && r.IntN(10) > 0 {
		off = w
	}
	pos := off
	for off >= 239 {
		line = append(line, 255)
		off -= 239
	}
	line = append(line, byte(16+off))
	maxClass := 16
	stop := w
	if r.IntN(3) == 0 && pos < w {
		stop = pos + r.IntN(w-pos+1)
	}
	long := r.IntN(2) == 0
	for pos < stop {
		k := r.IntN(maxClass)
		if r.IntN(3) == 0 {
			k = min(15, r.IntN(len(lv)+2))
		}
		n := 1 + r.IntN(15)
		if long && r.IntN(3) > 0 {
			n = 15
		}
		if r.IntN(40) == 0 {
			n = 0
		}
		n = min(n, stop-pos)
		b := byte(n<<4 | k)
		if !okb(b) {
			continue
		}
		line = append(line, b)
		for j := 0; j < n; j++ {
			if k >= 1 && k <= len(lv) {
				dst[pos] = lv[k-1]
			}
			pos++
		}
	}
	return line
}

// describe is a short text of the file for the evidence.
func (s *Spec) describe() any {
	h := string(s.header)
	if len(h) > 240 {
		h = h[:240] + "..."
	}
	return map[string]any{"header": h, "encoding": encNames[s.Enc], "body_bytes": len(s.Body)}
}

// structural identity of the case
func (s *Spec) key() uint64 { return hash64(s.header, s.Body) }

func read(b []byte) (*radolan.Composite, error) { return radolan.NewComposite(bytes.NewReader(b)) }
