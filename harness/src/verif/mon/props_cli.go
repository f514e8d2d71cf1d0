package main

import (
	"bytes"
	"compress/gzip"
	_ "embed"
	"errors"
	"fmt"
	"image"
	"image/color"
	"image/png"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"

	"gitlab.cs.fau.de/since/radolan/radolan2png/vis"
)

// snapshot of the published German border points (latitude longitude)
//
//go:embed border.txt.gz
var borderGz []byte

func borderPoints() (pts [][2]float64) {
	z, err := gzip.NewReader(bytes.NewReader(borderGz))
	if err != nil {
		panic(err)
	}
	for {
		var a, b float64
		if n, err := fmt.Fscan(z, &a, &b); n != 2 || err != nil {
			return
		}
		pts = append(pts, [2]float64{a, b})
	}
}

type runResult struct {
	status         int
	stdout, stderr string
}

// cliRun executes the program in dir. It is given paths below dir only: what a
// changed program removes or replaces is scratch.
func (r *R) cliRun(dir string, args ...string) runResult {
	return r.cliLimited(-1, dir, args...)
}

// cliLimited executes the program so that writing to any file fails beyond the
// given number of KiB (as on a full device); negative: no limit.
func (r *R) cliLimited(kib int, dir string, args ...string) runResult {
	cmd := exec.Command(r.c.cli, args...)
	if kib >= 0 {
		cmd = exec.Command("/bin/bash", append([]string{"-c", fmt.Sprintf(`ulimit -f %d || exit 99; exec "$0" "$@"`, kib), r.c.cli}, args...)...)
	}
	cmd.Dir = dir
	if r.Chance(30) { // standard input is none of the program's business
		cmd.Stdin = bytes.NewReader(r.tiny("RX").build())
	}
	home := r.home
	if home == "" {
		home = dir
	}
	cmd.Env = []string{"TZ=" + pick(r, []string{"UTC", "Asia/Kathmandu", "America/New_York", ""}), "HOME=" + home, "TMPDIR=" + home, "PATH=/usr/bin:/bin"}
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	if err := cmd.Start(); err != nil {
		panic(fmt.Sprint("harness: ", err))
	}
	t := time.AfterFunc(80*time.Second, func() { cmd.Process.Kill() })
	err := cmd.Wait()
	if !t.Stop() {
		return runResult{-9, so.String(), "killed after 80 s"}
	}
	st := 0
	if err != nil {
		st = -1
		var ee *exec.ExitError
		if errors.As(err, &ee) {
			st = ee.ExitCode()
		}
	}
	return runResult{st, so.String(), se.String()}
}

func (r *R) tempDir() string {
	d, err := os.MkdirTemp(r.c.work, "cli")
	must(err)
	return d
}

// fifo offers data to the first reader of a new named pipe. The function it
// returns ends the offer.
func (r *R) fifo(path string, data []byte) func() {
	must(syscall.Mkfifo(path, 0644))
	ended := make(chan struct{})
	go func() {
		defer close(ended)
		if f, err := os.OpenFile(path, os.O_WRONLY, 0); err == nil {
			f.Write(data)
			f.Close()
		}
	}()
	return func() {
		for { // release a writer nobody has read from
			f, err := os.OpenFile(path, os.O_RDONLY|syscall.O_NONBLOCK, 0)
			if err != nil {
				return // the pipe is gone
			}
			select {
			case <-ended:
				f.Close()
				return
			case <-time.After(20 * time.Millisecond):
			}
			f.Close()
		}
	}
}

// overlay computes where border and mesh must and may appear.
type overlay struct{ borderMust, borderMay, meshMust, meshMay []bool }

func (s *Spec) overlay(g *gridRef, border [][2]float64) *overlay {
	n := s.Cols * s.Rows
	o := &overlay{make([]bool, n), make([]bool, n), make([]bool, n), make([]bool, n)}
	mark := func(lat, lon float64, mustSet, maySet []bool) {
		x, y := g.pixel(lat, lon, s.Cols, s.Rows)
		first, same := 0, true
		for i, d := range [][2]float64{{-1e-4, -1e-4}, {-1e-4, 1e-4}, {1e-4, -1e-4}, {1e-4, 1e-4}} {
			px, py := int(math.Floor(x+d[0])), int(math.Floor(y+d[1]))
			k := -1
			if px >= 0 && py >= 0 && px < s.Cols && py < s.Rows {
				k = py*s.Cols + px
				maySet[k] = true
			}
			if i == 0 {
				first = k
			}
			same = same && k == first
		}
		if same && first >= 0 {
			mustSet[first] = true
		}
	}
	for _, b := range border {
		mark(b[0], b[1], o.borderMust, o.borderMay)
	}
	// the mesh: every tenth of a degree from 1E to below 16E, 46N to below 55N where longitude or
	// latitude is a whole number of degrees
	for i := 0; i < 150; i++ {
		for j := 0; j < 90; j++ {
			if i%10 == 0 || j%10 == 0 {
				mark(46+float64(j)/10, 1+float64(i)/10, o.meshMust, o.meshMay)
			}
		}
	}
	return o
}

// unitGradient returns the colours the program has to use.
func (s *Spec) unitGradient() gradient {
	switch s.unit() {
	case uMM:
		_, _, iv := s.times()
		m := 200.0
		if iv <= time.Hour {
			m = 100
		}
		if iv >= 7*24*time.Hour {
			m = 400
		}
		return gradient{"heatmap", 0.1, m, vis.Log, "Log", nil}
	case uDBZ:
		return gradient{"heatmap", 1, 75, vis.Id, "Id", nil}
	case uKM:
		return gradient{"graymap", 0, 15, vis.Id, "Id", nil}
	}
	return gradient{"radialmap", -31.5, 31.5, vis.Log, "Log", nil}
}

func (g *gradient) right(got color.RGBA, v, tol float64) bool {
	if v != v {
		return got == black
	}
	// the value itself is known to a tolerance only: accept any colour between
	try := func(v float64) bool {
		if g.kind != "radialmap" && v < g.min {
			return got == black
		}
		ch, _ := g.want(v)
		if v == 0 && g.kind == "radialmap" && closeColor(got, [3]float64{ch[1], ch[0], ch[0]}) {
			return true
		}
		return closeColor(got, ch)
	}
	return try(v) || try(v-tol) || try(v+tol) || try(v-4*tol) || try(v+4*tol)
}

func (r *R) checkPicture(s *Spec, raw []byte, border [][2]float64) bool {
	dir := r.tempDir()
	defer os.RemoveAll(dir)
	if r.home != "" && r.Chance(60) {
		dir = r.home
	}
	in, out := filepath.Join(dir, "in"), filepath.Join(dir, "out.png")
	if r.home != "" { // among files of other runs
		// never the name of another run in use
		stem := pick(r, []string{"a", "out", "in"})
		in, out = filepath.Join(dir, stem+"."+r.name+"i"), filepath.Join(dir, stem+"."+r.name)
		os.Remove(in)
		os.Remove(filepath.Join(dir, "real"+r.name))
	} else if r.Chance(20) { // other names
		in = filepath.Join(dir, pick(r, []string{"a file", "in.gz", "raa01-rw_10000-1605010050-dwd---bin", "RX", "out.png.in", ".in", "ü", "in.png"}))
		out = filepath.Join(dir, pick(r, []string{"out", "a picture.png", "out.PNG", "out.tmp", ".png", "out.jpg", "ö.png", "in.png.png"}))
	}
	how := ""
	done := func() {}
	relative := r.Chance(20)          // to the working directory
	if r.home == "" && r.Chance(12) { // names a program may take for something else
		relative = true
		odd := []string{"-", "--", "-x", "-h", "--help", "-o", "-v", "--version", "stdin", "stdout", "NUL", "http:", "@in", "%d", "%s", "*", "?", "~", "$HOME", "a=b", "-1", "0", " ", "help", "/dev/stdin", "file:in", "in\n"}
		name := func() string {
			if r.Chance(25) && r.text() != "" {
				if t := strings.Trim(r.text(), "/. \x00"); t != "" && len(t) < 100 && !strings.ContainsAny(t, "/\x00") {
					return t
				}
			}
			return strings.ReplaceAll(pick(r, odd), "/", "_")
		}
		a, b := name(), name()
		if r.Chance(50) {
			in = filepath.Join(dir, a)
		}
		if r.Chance(60) && b != filepath.Base(in) {
			out = filepath.Join(dir, b)
		}
		if out == in {
			out = filepath.Join(dir, "out.png")
		}
		r.Cat("unusual file names")
	}
	switch r.IntN(14) {
	case 0, 1:
		how = " from a named pipe"
		done = r.fifo(in, raw)
	case 2:
		how = " behind a symbolic link"
		must(os.WriteFile(filepath.Join(dir, "real"+r.name), raw, 0644))
		must(os.Symlink("real"+r.name, in))
	case 3:
		how = " onto itself"
		out = in
		must(os.WriteFile(in, raw, 0644))
	default:
		must(os.WriteFile(in, raw, 0644))
	}
	if out != in && r.Chance(40) { // an older picture is replaced
		old := out
		if r.Chance(15) {
			old = filepath.Join(dir, "linked"+r.name)
			os.Remove(out)
			must(os.Symlink("linked"+r.name, out))
			how += ", output behind a symbolic link"
		}
		must(os.WriteFile(old, bytes.Repeat([]byte("old"), r.IntN(100000)), 0644))
		r.Cat("output existed before")
	}
	what := fmt.Sprintf("%s %dx%d interval %d version %d%s", s.Product, s.Cols, s.Rows, s.INT, s.VS, how)
	pin, pout := in, out
	if relative {
		pin, pout = filepath.Base(in), filepath.Base(out)
	}
	what += fmt.Sprintf(" [%q %q]", filepath.Base(in), filepath.Base(out))
	res := r.cliRun(dir, pin, pout)
	done()
	if how != "" {
		r.Cat("converted" + how)
	}
	r.Eval(1)
	if res.status != 0 {
		r.Fail("%s: exit status %d: %s", what, res.status, res.stderr)
		return false
	}
	_, fc, _ := s.times()
	for _, w := range []string{s.Product, unitNames[s.unit()], fc.Format("2006-01-02 15:04")} {
		if !strings.Contains(res.stdout, w) {
			r.Fail("%s: output %q does not contain %q", what, res.stdout, w)
			return false
		}
	}
	b, err := os.ReadFile(out)
	if err != nil {
		r.Fail("%s: no picture: %v", what, err)
		return false
	}
	rd := bytes.NewReader(b)
	img, err := png.Decode(rd)
	if err != nil {
		r.Fail("%s: picture unreadable: %v", what, err)
		return false
	}
	if rd.Len() != 0 {
		r.Fail("%s: %d bytes after the picture", what, rd.Len())
		return false
	}
	px, py, dx, dy, _ := s.geometry()
	if s.DimKind != 0 {
		if g := detectRef(dx, dy, max(s.VS, 0)); g != nil {
			if w := fmt.Sprintf("%d.0 km * %d.0 km", g.cols, g.rows); !strings.Contains(res.stdout, w) {
				r.Fail("%s: output %q does not contain %q", what, res.stdout, w)
				return false
			}
		}
	}
	if img.Bounds() != image.Rect(0, 0, dx, dy) {
		r.Fail("%s: picture is %v, want %dx%d", what, img.Bounds(), dx, dy)
		return false
	}
	var ov *overlay
	vs := max(s.VS, 0)
	grid := (*gridRef)(nil)
	if s.DimKind != 0 {
		grid = detectRef(dx, dy, vs)
	}
	if grid != nil {
		ov = s.overlay(grid, border)
	}
	g := s.unitGradient()
	yellow, green := color.RGBA{0xFF, 0xFF, 0, 0xFF}, color.RGBA{0x33, 0xFF, 0x22, 0xFF}
	nb, nm := 0, 0
	for y := 0; y < dy; y++ {
		p := y
		if py%dy != 0 {
			p = py - dy + y
		}
		for x := 0; x < dx; x++ {
			cr, cg, cb, ca := img.At(x, y).RGBA()
			got := color.RGBA{byte(cr >> 8), byte(cg >> 8), byte(cb >> 8), byte(ca >> 8)}
			if ov != nil {
				k := y*dx + x
				if ov.meshMust[k] {
					if got != green {
						r.Fail("%s: mesh pixel (%d, %d) is %v", what, x, y, got)
						return false
					}
					nm++
					continue
				}
				if ov.meshMay[k] && got == green {
					continue
				}
				if ov.borderMust[k] {
					if got != yellow {
						r.Fail("%s: border pixel (%d, %d) is %v", what, x, y, got)
						return false
					}
					nb++
					continue
				}
				if ov.borderMay[k] && got == yellow {
					continue
				}
			}
			v, tol := s.at(p, x, px)
			if !g.right(got, v, tol+1e-6*math.Abs(v)) {
				r.Fail("%s: pixel (%d, %d) with value %v is %v [%s %v..%v]", what, x, y, v, got, g.kind, g.min, g.max)
				return false
			}
		}
	}
	r.CatN("pixels compared", dx*dy)
	r.CatN("border pixels seen", nb)
	r.CatN("mesh pixels seen", nm)
	if grid != nil {
		r.Cat("pictures with overlay: " + grid.name)
	} else {
		r.Cat("pictures without overlay")
	}
	r.Cat("unit " + unitNames[s.unit()])
	r.Distinct(s.key())
	r.Sample(func() any {
		return map[string]any{"file": s.describe(), "stdout": res.stdout, "border_pixels": nb, "mesh_pixels": nm}
	})
	return true
}

// genPicture fills the spec with values that exercise the whole colour range.
func (r *R) genPicture(s *Spec) {
	s.genBody(r, genOpts{})
	px, py, _, _, _ := s.geometry()
	if s.Enc == encLE && r.Chance(60) {
		for k := 0; k < px*py; k++ {
			w := uint16(math.Pow(10, r.Float64()*3.6))
			if w > 4095 {
				w = 4095
			}
			if r.IntN(6) == 0 {
				w = 0x29C4
			}
			s.Body[2*k], s.Body[2*k+1] = byte(w), byte(w>>8)
			d := (py-1-k/px)*px + k%px
			s.Tol[d] = 0
			s.setWord(k, px, py, w)
		}
	}
}

func propC21(c *Ctx) {
	border := borderPoints()
	c.Rule(fmt.Sprintf("The built program converts generated files of every unit, interval class and grid (five grids at several resolutions, spherical and WGS84, and grids without projection) to PNG; exit status, output text, dimensions and every pixel are compared with the file's meaning, an independent colour model and the reference projection of %d border points and the degree mesh. Distinct: input file.", len(border)))
	ivs := []int{absent, 0, 5, 59, 60, 61, 1440, 10079, 10080, 9999, 1439, 720, 6, 120, 1008, 1007, 144, 1009}
	c.Par("small", c.N(2500, 30000), func(r *R) {
		o := defOpts()
		o.cells, o.local, o.unknown = 3000, 0, 0
		s := r.genSpec(o)
		for refUnit[s.Product] == uUnknown {
			s.Product = pick(r, knownLabels)
		}
		u := []int{uMM, uDBZ, uMM, uKM, uMPS, uMM}[r.i%6]
		s.Product = pick(r, unitLabels[u])
		if r.Chance(15) && u == uMM {
			s.Product = pick(r, []string{"W1", "W2", "W3", "W4"})
		}
		if r.Chance(70) {
			s.INT = pick(r, ivs)
			if r.Chance(25) { // up to centuries
				s.INT = int(math.Pow(10, r.Float64()*8))
				if s.Product[0] == 'W' {
					s.INT /= 10 // tens of minutes
				}
			}
		}
		if r.Chance(70) {
			s.Prec = []int{-2, -1, -1, 0}[r.IntN(4)]
		}
		r.genPicture(s)
		raw := s.build()
		r.Input(raw)
		r.checkPicture(s, raw, border)
	})
	grids := [][3]int{{900, 900, 0}, {460, 460, 3}, {920, 920, 0}, {450, 450, 0}, {900, 1100, 2}, {1100, 1200, 5}, {1100, 1200, 3}, {1400, 1500, 0},
		{225, 225, 0}, {550, 600, 6}, {900, 900, 5}, {700, 750, 4}, {115, 115, 0}, {275, 300, 5}, {230, 230, 1}, {225, 275, 0}, {350, 375, 0}, {450, 550, 1}, {275, 300, 4}}
	c.Par("grids", c.N(95, 1900), func(r *R) {
		g := grids[r.i%len(grids)]
		s := r.sized(genOpts{cells: 1, enc: -1, unit: 1 + r.i%4}, g[1], g[0])
		s.VS = g[2]
		s.INT = pick(r, ivs)
		r.genPicture(s)
		raw := s.build()
		r.checkPicture(s, raw, border)
	})
	// every product as it is distributed
	c.Par("published", len(knownLabels)*c.Size(2, 20), func(r *R) {
		s := r.published(r.i, encKind(1+r.IntN(2)), true)
		s.genBody(r, genOpts{})
		if r.Chance(50) {
			r.genPicture(s)
		}
		r.checkPicture(s, s.build(), border)
	})
	// high resolutions
	high := [][3]int{{3600, 3600, 0}, {2200, 2400, 5}, {1800, 1800, 1}, {3680, 3680, 0}, {1800, 2200, 4}, {2800, 3000, 0}, {2200, 2400, 3}, {1840, 1840, 2},
		{4400, 4800, 6}, {3600, 4400, 0}, {5600, 6000, 0}, {7200, 7200, 0}, {4400, 4800, 3}, {8800, 9600, 5}}
	c.Par("high-resolution", c.N(5, 140), func(r *R) {
		g := high[(r.i+int(r.c.seed))%len(high)]
		if !c.thorough {
			g = high[(r.i+int(r.c.seed))%8]
			if r.i == 0 {
				g = high[[]int{8, 12, 10}[r.c.seed%3]] // more than 16 million pixels
			}
		}
		s := r.sized(genOpts{cells: 1, enc: int(encSB), unit: 1 + r.i%4}, g[1], g[0])
		s.VS = g[2]
		s.INT = pick(r, ivs)
		r.genPicture(s)
		raw := s.build()
		if r.checkPicture(s, raw, border) {
			r.Cat("pictures of high resolution")
		}
	})
	// several runs in one place, one after another and at the same time
	c.Par("shared-place", c.N(60, 1000), func(r *R) {
		r.home = r.tempDir()
		defer os.RemoveAll(r.home)
		defer func() { r.home = "" }()
		for round := 0; round < 5; round++ {
			k := []int{1, 1, 3, 1, 4}[(round+r.i)%5]
			var wg sync.WaitGroup
			kids := make([]*R, k)
			for j := range kids {
				w := r.branch(round*8 + j)
				w.name = fmt.Sprint(j)
				if r.Chance(20) {
					w.name = string(rune('a' + round*8 + j))
				}
				kids[j] = w
				wg.Add(1)
				go func() {
					defer wg.Done()
					defer func() {
						if e := recover(); e != nil {
							w.Fail("panic: %v", e)
						}
					}()
					g := [][3]int{{115, 115, 0}, {230, 230, 0}, {225, 225, 0}, {275, 300, 5}, {275, 300, 3}, {225, 275, 2}, {230, 230, 5}, {8, 8, 0}, {1, 1, 0}}
					d := pick(w, g)
					s := w.sized(genOpts{cells: 1, enc: -1, unit: 1 + w.IntN(4)}, d[1], d[0])
					s.VS = d[2]
					s.INT = pick(w, ivs)
					w.genPicture(s)
					w.checkPicture(s, s.build(), border)
				}()
			}
			wg.Wait()
			for _, w := range kids {
				r.join(w)
			}
			r.Cat(fmt.Sprintf("%d runs at a time in one place", k))
		}
	})
	c.Par("local", c.N(28, 400), func(r *R) {
		s := r.genSpec(genOpts{cells: 10, enc: -1, unit: -1})
		s.Product = localLabels[r.i%len(localLabels)]
		s.DimKind = 0
		r.genPicture(s)
		r.checkPicture(s, s.build(), border)
	})
	c.Need("pixels compared", 100000)
	c.Need("border pixels seen", 10000)
	c.Need("mesh pixels seen", 2000)
	c.Need("pictures without overlay", 100)
}

func propC22(c *Ctx) {
	ds := c03Defects()
	c.Rule("The built program is run on missing, unreadable, truncated (every region of the file), malformed (all header defect classes) and unknown-unit inputs and on random bytes, with a fresh, an existing and an unwritable output, and with too few arguments, under unusual names and with a sound file on standard input; exit status, standard error and the bytes of every file in the scratch directory are compared before and after. Sound inputs in between must succeed. Distinct: (input, output situation).")
	snapshot := func(dir string) map[string]string {
		m := map[string]string{}
		filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
			if err == nil && fi.Mode()&os.ModeNamedPipe != 0 {
				m[p] = "named pipe"
			} else if err == nil && fi.Mode()&os.ModeSymlink != 0 {
				m[p], _ = os.Readlink(p)
			} else if err == nil && !fi.IsDir() {
				b, _ := os.ReadFile(p)
				m[p] = string(b)
			} else if err == nil {
				m[p] = "directory"
			}
			return nil
		})
		return m
	}
	same := func(a, b map[string]string) string {
		for k, v := range a {
			w, ok := b[k]
			if !ok {
				return "removed " + filepath.Base(k)
			}
			if v != w {
				return fmt.Sprintf("changed %s (%d to %d bytes)", filepath.Base(k), len(v), len(w))
			}
		}
		for k := range b {
			if _, ok := a[k]; !ok {
				return "created " + filepath.Base(k)
			}
		}
		return ""
	}
	c.Par("bad-input", c.N(2400, 40000), func(r *R) {
		dir := r.tempDir()
		defer os.RemoveAll(dir)
		in, out := filepath.Join(dir, "input"), filepath.Join(dir, "picture.png")
		kind := ""
		o := defOpts()
		o.cells, o.local, o.unknown = 600, 0, 0
		var raw []byte
		switch r.i % 8 {
		case 0:
			kind = "missing input"
		case 1:
			kind = "input is a directory"
			must(os.Mkdir(in, 0755))
		case 2, 3:
			kind = "truncated input"
			s := r.genSpec(o)
			raw = s.build()
			cut := r.IntN(len(raw))
			if r.Chance(40) {
				cut = len(raw) - 1 - r.IntN(min(len(raw), 3))
			}
			raw = raw[:cut]
		case 4:
			d := pick(r, ds)
			kind = "malformed: " + d.name
			_, raw = d.make(r)
		case 5:
			kind = "unknown unit"
			u := o
			u.unknown = 100
			raw = r.genSpec(u).build()
			if r.Chance(30) { // on a grid with projection
				s := r.sized(genOpts{cells: 1, enc: int(encSB), unit: -1, unknown: 100}, 115, 115)
				s.genBody(r, o)
				raw = s.build()
			}
		case 6:
			kind = "random bytes"
			raw = make([]byte, r.IntN(500))
			for i := range raw {
				raw[i] = byte(r.IntN(256))
			}
		case 7:
			kind = "declared length off"
			s := r.genSpec(o)
			for s.HasLV {
				s = r.genSpec(o)
			}
			px, py, _, _, _ := s.geometry()
			n := px * py
			for s.byDelta = 0; s.byDelta == 0 || s.byDelta+len(s.Body) == n || s.byDelta+len(s.Body) == 2*n; {
				s.byDelta = r.IntN(4*n+9) - 2*n - 4
			}
			raw = s.build()
		}
		if r.i%8 >= 2 && r.Chance(12) { // names a program may take for something else
			in = filepath.Join(dir, pick(r, []string{"-", "--", "-x", "-h", "--help", "stdin", "help", "-version", "--version", "*", "%s"}))
		}
		done := func() {}
		if r.i%8 >= 2 {
			if r.Chance(6) {
				kind += ", from a named pipe"
				done = r.fifo(in, raw)
			} else {
				must(os.WriteFile(in, raw, 0644))
			}
			r.Input(raw)
		}
		situation := "output absent"
		old := bytes.Repeat([]byte{byte(r.IntN(256))}, r.IntN(5000))
		switch r.IntN(5) {
		case 0, 1:
			situation = "output exists"
			must(os.WriteFile(out, old, 0644))
			if r.Chance(10) {
				must(os.Chmod(out, 0444))
			}
		case 3:
			switch r.IntN(5) {
			case 0:
				situation = "output is the input"
				out = in
			case 1:
				situation = "output is a link to an existing file"
				must(os.WriteFile(filepath.Join(dir, "linked"), old, 0644))
				must(os.Symlink("linked", out))
			case 2:
				situation = "output is a link to a missing file"
				must(os.Symlink("linked", out))
			case 3:
				if fi, err := os.Lstat(in); err == nil && fi.Mode().IsRegular() {
					situation = "output is a link to the input"
					if r.Chance(50) {
						must(os.Symlink(filepath.Base(in), out))
					} else {
						must(os.Link(in, out))
					}
				}
			case 4:
				situation = "existing files around the output"
				for _, n := range []string{"picture.png.tmp", "picture.png~", "picture.tmp", ".picture.png", "picture.png.bak", "picture"} {
					must(os.WriteFile(filepath.Join(dir, n), old, 0644))
				}
				if r.Chance(50) {
					must(os.WriteFile(out, old, 0644))
				}
			}
		case 2:
			if r.Chance(30) {
				situation = "output unwritable"
				out = filepath.Join(dir, "no", "such", "directory.png")
			}
		}
		before := snapshot(dir)
		if situation == "output absent" && r.Chance(10) {
			out = filepath.Join(dir, pick(r, []string{"-", "--", "-x", "-h", "--help", "stdout", "help", "-version", "--version", "*", "%s"}))
			if out == in {
				out += ".png"
			}
			situation = "output has an unusual name"
		}
		pin, pout := in, out
		if filepath.Dir(out) == dir && (r.Chance(20) || filepath.Base(in) != "input" || situation == "output has an unusual name") {
			pin, pout = filepath.Base(in), filepath.Base(out)
		}
		if r.i%8 == 0 && r.Chance(50) {
			pin = pick(r, []string{"", "-", "--", "-h", "--help", "help", "-version", "stdin", " ", "-i", "."})
			if pin == "." {
				kind = "input is a directory"
			}
			if pin == "" && r.Chance(30) {
				pout = ""
				situation = "no names"
			}
		}
		if r.i%8 == 0 && pin != "" && kind == "missing input" && r.Chance(50) {
			n := r.i/8%600 + 1 // of every length
			pin = strings.Repeat(pick(r, []string{"n", "/", "./", "n/", "ü", "9"}), 600)[:n]
			if strings.Trim(pin, "./") == "" {
				pin = "m" + pin
			}
			r.Cat("names of every length")
		}
		res := r.cliRun(dir, pin, pout)
		done()
		r.Eval(1)
		after := snapshot(dir)
		if res.status == 0 {
			r.Fail("%s, %s: exit status 0 (stdout %q, stderr %q)", kind, situation, res.stdout, res.stderr)
			return
		}
		if res.status == -9 {
			r.Fail("%s, %s: program does not end", kind, situation)
			return
		}
		if strings.TrimSpace(res.stderr) == "" {
			r.Fail("%s, %s: no message on standard error", kind, situation)
			return
		}
		if strings.Contains(res.stderr, "goroutine ") && strings.Contains(res.stderr, "panic") {
			r.Fail("%s, %s: program panics: %s", kind, situation, res.stderr)
			return
		}
		if m := same(before, after); m != "" {
			r.Fail("%s, %s: the program %s", kind, situation, m)
			return
		}
		r.Distinct(hash64(raw, kind, situation))
		r.Cat("failed loudly: " + strings.SplitN(kind, ":", 2)[0])
		r.Cat(situation)
		r.Sample(func() any {
			return map[string]any{"input": kind, "output": situation, "status": res.status, "stderr": res.stderr}
		})
	})
	c.Par("unwritable", c.N(160, 2000), func(r *R) {
		dir := r.tempDir()
		defer os.RemoveAll(dir)
		o := defOpts()
		o.cells, o.local, o.unknown = 600, 0, 0
		s := r.genSpec(o)
		for s.unit() == uUnknown {
			s = r.genSpec(o)
		}
		if r.i%4 == 3 {
			s = r.sized(genOpts{cells: 1, enc: int(encLE), unit: uDBZ}, 115, 115)
			s.genBody(r, o)
		}
		in := filepath.Join(dir, "input")
		must(os.WriteFile(in, s.build(), 0644))
		out, kind, limit := filepath.Join(dir, "picture.png"), "full device", -1
		switch r.i % 6 {
		case 5:
			out, kind = "", "the empty name"
		case 1:
			out, kind = filepath.Join(dir, "no", "such.png"), "missing directory"
		case 2:
			out, kind = dir, "a directory"
		case 3:
			out, kind = filepath.Join(in, "x.png"), "below a file"
		default: // no space from the beginning, or somewhere in the middle
			limit = 0
			if r.Chance(50) {
				// the picture has to be larger: incompressible data of at least 115x115 pixels
				s = r.sized(genOpts{cells: 1, enc: int(encSB), unit: uDBZ}, 115+r.IntN(120), 115+r.IntN(120))
				s.Prec = 0
				s.genBody(r, o)
				must(os.WriteFile(in, s.build(), 0644))
				limit = r.IntN(6)
				if r.Chance(30) { // only the last bytes are missing
					ok := filepath.Join(dir, "complete.png")
					if res := r.cliRun(dir, in, ok); res.status != 0 {
						r.Fail("sound %s file: exit status %d: %s", s.Product, res.status, res.stderr)
						return
					}
					fi, err := os.Stat(ok)
					if err != nil || fi.Size() < 2 {
						r.Fail("sound %s file: no picture", s.Product)
						return
					}
					limit = int(fi.Size()-1) / 1024
				}
				kind = "device full in the middle"
			}
			if r.Chance(30) {
				must(os.WriteFile(out, []byte("old picture"), 0644))
			}
		}
		before := snapshot(dir)
		res := r.cliLimited(limit, dir, in, out)
		r.Eval(1)
		if res.status == 99 && limit >= 0 {
			panic("harness: ulimit: " + res.stderr)
		}
		if res.status == 0 {
			r.Fail("output is %s (%d KiB): exit status 0", kind, limit)
			return
		}
		if strings.TrimSpace(res.stderr) == "" {
			r.Fail("output is %s: no message on standard error", kind)
			return
		}
		if limit < 0 {
			if m := same(before, snapshot(dir)); m != "" {
				r.Fail("output is %s: the program %s", kind, m)
				return
			}
		}
		r.Distinct(hash64(s.key(), kind))
		r.Cat("unwritable: " + kind)
	})
	c.Par("sound", c.N(120, 2000), func(r *R) {
		dir := r.tempDir()
		defer os.RemoveAll(dir)
		o := defOpts()
		o.cells, o.local, o.unknown = 600, 0, 0
		s := r.genSpec(o)
		for s.unit() == uUnknown {
			s = r.genSpec(o)
		}
		in, out := filepath.Join(dir, "input"), filepath.Join(dir, "picture.png")
		raw := s.build()
		must(os.WriteFile(in, raw, 0644))
		for _, n := range []string{"picture.png.tmp", "picture.png~", "picture.tmp", ".picture.png", ".picture.png.tmp", "picture.png.bak", "picture.png.part", "picture.png.new", "picture", "picture.pgw", "picture.png.lock", "input.tmp", "input~", "tmp"} {
			if r.Chance(70) {
				must(os.WriteFile(filepath.Join(dir, n), []byte(n), 0644))
			}
		}
		if r.Chance(40) {
			must(os.WriteFile(out, []byte("old picture"), 0644))
		}
		before := snapshot(dir)
		res := r.cliRun(dir, in, out)
		r.Eval(1)
		after := snapshot(dir)
		delete(before, out)
		delete(after, out)
		if m := same(before, after); m != "" {
			r.Fail("sound %s file: the program %s", s.Product, m)
			return
		}
		r.CatN("other files compared", len(before))
		b, err := os.ReadFile(out)
		if res.status != 0 || err != nil {
			r.Fail("sound %s file: exit status %d, %v, %s", s.Product, res.status, err, res.stderr)
			return
		}
		if _, err := png.Decode(bytes.NewReader(b)); err != nil {
			r.Fail("sound %s file: picture: %v", s.Product, err)
			return
		}
		if now, _ := os.ReadFile(in); !bytes.Equal(now, raw) {
			r.Fail("the program changed its input")
			return
		}
		r.Distinct(s.key())
		r.Cat("sound input converted")
	})
	c.Par("usage", c.N(24, 100), func(r *R) {
		dir := r.tempDir()
		defer os.RemoveAll(dir)
		in := filepath.Join(dir, "input")
		s := r.tiny("RX")
		must(os.WriteFile(in, s.build(), 0644))
		before := snapshot(dir)
		var args []string
		switch r.i % 3 {
		case 1:
			args = []string{in}
		case 2:
			args = []string{filepath.Join(dir, "missing")}
		}
		res := r.cliRun(dir, args...)
		r.Eval(1)
		if res.status != 0 {
			r.Fail("%d arguments: exit status %d: %s", len(args), res.status, res.stderr)
			return
		}
		if !strings.Contains(strings.ToLower(res.stdout+res.stderr), "usage") {
			r.Fail("%d arguments: no usage text: %q", len(args), res.stdout+res.stderr)
			return
		}
		if m := same(before, snapshot(dir)); m != "" {
			r.Fail("%d arguments: the program %s", len(args), m)
			return
		}
		r.Bulk(1)
		r.Cat("usage shown")
	})
	c.Need("failed loudly: truncated input", 100)
	c.Need("failed loudly: unknown unit", 50)
	c.Need("output exists", 100)
	c.Need("sound input converted", 50)
}
