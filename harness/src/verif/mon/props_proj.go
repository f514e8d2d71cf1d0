package main

import (
	"fmt"
	"math"

	"gitlab.cs.fau.de/since/radolan"
)

func near(a, b, tol float64) bool { return math.Abs(a-b) <= tol }

// scaledDims returns the grid's dimensions at a random resolution.
func (r *R) scaledDims(g *gridRef) (dx, dy int) {
	dx, dy = g.minC, g.minR
	for n := r.IntN(7); n > 0; n-- {
		dx, dy = dx*2, dy*2
	}
	if r.Chance(40) {
		dx, dy = g.cols, g.rows
	}
	return
}

func (r *R) genLatLon(g *gridRef) (lat, lon float64) {
	switch r.IntN(9) {
	case 8: // towards the pole
		return 90 - math.Pow(10, 1.5-r.Float64()*14), r.SmartF(-180, 180)
	case 0: // anywhere
		lo := -60.0
		if g.wgs {
			lo = 0
		} else if r.Chance(30) {
			lo = -89.9
		}
		return r.SmartF(lo, 89.9), r.SmartF(-180, 180)
	case 1: // on the boundary of the grid
		w, h := g.extent()
		ox, oy := g.xy(g.nwLat, g.nwLon)
		switch r.IntN(4) {
		case 0:
			return g.inv(ox, oy+r.Float64()*h)
		case 1:
			return g.inv(ox+w, oy+r.Float64()*h)
		case 2:
			return g.inv(ox+r.Float64()*w, oy)
		}
		return g.inv(ox+r.Float64()*w, oy+h)
	case 2, 3: // Germany and neighbours
		return r.SmartF(44, 57), r.SmartF(0, 20)
	case 4: // special meridians and parallels
		if r.Chance(30) { // round numbers, as in tables and meshes
			d := pick(r, []float64{1, 2, 4, 10, 60, 100})
			return math.Round(r.Float64()*90*d) / d, math.Round((r.Float64()*2-1)*180*d) / d
		}
		return pick(r, []float64{60, 51, 50, 45, 47, 48, 52, 53, 54, 55, 56.5, 89, 90, 45.5, 30, 10, 0, 59.999999, 60.000001}), pick(r, []float64{10, 0, 9, 11, 20, -1, -0.5, 5, 15, 18, 180, -170, 9.999999, 10.000001})
	}
	w, h := g.extent()
	ox, oy := g.xy(g.nwLat, g.nwLon)
	return g.inv(ox+(r.Float64()*1.4-0.2)*w, oy+(r.Float64()*1.4-0.2)*h)
}

// point checks one projected point of a calibrated composite.
func (r *R) point(comp *radolan.Composite, g *gridRef, dx, dy int, lat, lon float64, what string) bool {
	x, y := comp.Project(lat, lon)
	ex, ey := g.pixel(lat, lon, dx, dy)
	tol := 1e-6 + 1e-9*(math.Abs(ex)+math.Abs(ey))
	if !near(x, ex, tol) || !near(y, ey, tol) {
		r.Fail("%s %dx%d (%s): Project(%v, %v) = (%v, %v), want (%v, %v)", g.name, dx, dy, what, lat, lon, x, y, ex, ey)
		return false
	}
	return true
}

func (c *Ctx) projStages(grids []gridRef, formats func(r *R) int) {
	corners := map[string][][4]float64{ // published corner coordinates and their positions (fractions)
		"national":          {{54.5877, 2.0715, 0, 0}, {54.7405, 15.7208, 1, 0}, {46.9526, 3.5889, 0, 1}, {47.0705, 14.6209, 1, 1}},
		"national picture":  {{54.66218275, 1.900684377, 0, 0}, {54.81884457, 15.88724008, 1, 0}, {46.86029310, 3.481345126, 0, 1}, {46.98044293, 14.73300934, 1, 1}},
		"extended national": {{55.5482, 3.0889, 0, 0}, {55.5342, 17.1128, 1, 0}, {46.1929, 4.6759, 0, 1}, {46.1827, 15.4801, 1, 1}},
		"DE1200":            {{55.86584289, 1.435612143, 0, 0}, {55.84848692, 18.76728172, 1, 0}, {45.69587048, 3.551921296, 0, 1}, {45.68358331, 16.60186543, 1, 1}},
		"middle european":   {{56.5423, -0.8654, 0, 0}, {56.4505, 21.6986, 1, 0}, {43.9336, 2.3419, 0, 1}, {43.8736, 18.2536, 1, 1}},
		"DE1200 WGS84":      {{55.86208711, 1.463301510, 0, 0}, {55.84543856, 18.73161645, 1, 0}, {45.68460578, 16.58086935, 1, 1}, {45.69642538, 3.566994635, 0, 1}},
	}
	c.Par("points", c.N(30000, 600000), func(r *R) {
		g := &grids[r.i%len(grids)]
		dx, dy := r.scaledDims(g)
		f := formats(r)
		comp := radolan.NewDummy(pick(r, knownLabels), f, dx, dy)
		if !comp.HasProjection {
			r.Fail("%s %dx%d version %d has no projection", g.name, dx, dy, f)
			return
		}
		for k := 0; k < 40; k++ {
			lat, lon := r.genLatLon(g)
			if !r.point(comp, g, dx, dy, lat, lon, fmt.Sprint("version ", f)) {
				return
			}
			// the same meridian
			x, y := comp.Project(lat, lon)
			turns := 1 - 2*r.IntN(2)
			if r.Chance(20) {
				turns = r.IntN(41) - 20
			}
			ex, ey := comp.Project(lat, lon+360*float64(turns))
			tol := 1e-6 + 1e-9*(math.Abs(x)+math.Abs(y))
			if !near(x, ex, tol) || !near(y, ey, tol) {
				r.Fail("%s %dx%d: (%v, %v) and %d turns further differ: (%v, %v), (%v, %v)", g.name, dx, dy, lat, lon, turns, x, y, ex, ey)
				return
			}
			r.Distinct(hash64(dx, dy, f, lat, lon))
		}
		r.Eval(40)
		r.CatN("points on "+g.name, 40)
		r.Cat(fmt.Sprintf("resolution %dx%d", dx, dy))
		r.Sample(func() any {
			lat, lon := r.genLatLon(g)
			x, y := comp.Project(lat, lon)
			return map[string]any{"grid": g.name, "columns": dx, "rows": dy, "lat": lat, "lon": lon, "x": x, "y": y}
		})
	})
	// DWD pixel coordinate definition: pixel corners and centres at their cartesian coordinates
	c.Par("pixel-definition", len(grids)*c.N(64, 1500), func(r *R) {
		g := &grids[r.i%len(grids)]
		comp := radolan.NewDummy(pick(r, knownLabels), formats(r), g.cols, g.rows)
		for k := 0; k < 2000; k++ {
			px, py := float64(r.IntN(g.cols+1)), float64(r.IntN(g.rows+1))
			if k%2 == 0 {
				px, py = px+0.5, py+0.5
			}
			lat, lon := g.inv(g.x0+px, g.y0+py)
			x, y := comp.Project(lat, lon)
			// 30 m; the published corners of the older grids have four decimals
			tol := 0.03
			if g.wgs {
				tol = 0.001
			}
			if math.Hypot(x-px, y-py) > tol {
				r.Fail("%s: pixel position (%v, %v) at (%v, %v) is projected to (%v, %v)", g.name, px, py, lat, lon, x, y)
				return
			}
			r.Distinct(hash64(g.name, px, py))
		}
		r.Eval(2000)
		r.CatN("pixel positions of "+g.name, 2000)
	})
	// orientation and smoothness inside the grid
	c.Par("orientation", c.N(20000, 200000), func(r *R) {
		g := &grids[r.i%len(grids)]
		dx, dy := r.scaledDims(g)
		comp := radolan.NewDummy(pick(r, knownLabels), formats(r), dx, dy)
		lat, lon := 46+r.Float64()*9, 3+r.Float64()*11
		x, y := comp.Project(lat, lon)
		xe, _ := comp.Project(lat, lon+0.05)
		_, yn := comp.Project(lat+0.05, lon)
		if !(xe > x) || !(yn < y) {
			r.Fail("%s %dx%d at (%v, %v): x does not grow eastwards or y southwards", g.name, dx, dy, lat, lon)
		}
		r.Eval(1)
		r.Distinct(hash64(dx, dy, lat, lon))
	})
	c.Par("corners", len(grids)*8, func(r *R) {
		g := &grids[r.i%len(grids)]
		for dx, dy := g.minC, g.minR; dx <= 8*g.cols; dx, dy = dx*2, dy*2 {
			comp := radolan.NewDummy(pick(r, knownLabels), formats(r), dx, dy)
			for k, p := range corners[g.name] {
				x, y := comp.Project(p[0], p[1])
				km := math.Hypot((x-p[2]*float64(dx))*float64(g.cols)/float64(dx), (y-p[3]*float64(dy))*float64(g.rows)/float64(dy))
				tol := 0.03
				if g.wgs {
					tol = 0.001
				}
				if p[2] == p[3] {
					tol = 1e-6 // used for calibration
					if g.wgs {
						tol = 1e-5
					}
				}
				if !(km <= tol) {
					r.Fail("%s %dx%d: corner %d (%v, %v) at (%v, %v), off by %v km", g.name, dx, dy, k, p[0], p[1], x, y, km)
					return
				}
			}
			r.Eval(4)
			r.Bulk(4)
		}
		r.Cat("corner sets")
	})
	// parsed files
	c.Par("parsed", c.N(48, 600), func(r *R) {
		g := &grids[r.i%len(grids)]
		dx, dy := g.minC, g.minR
		if r.i%3 != 0 {
			dx, dy = g.cols, g.rows
		}
		s := r.sized(genOpts{cells: 1, enc: int(encSB), unit: -1}, dy, dx)
		s.VS = max(0, formats(r))
		if s.VS == 0 && r.Chance(50) {
			s.VS = absent
		}
		s.genBody(r, genOpts{})
		raw := s.build()
		comp, err := read(raw)
		if m := s.check(comp, err); m != "" {
			r.Fail("%s", m)
			return
		}
		if !comp.HasProjection {
			r.Fail("file on %s %dx%d version %d has no projection", g.name, dx, dy, s.VS)
			return
		}
		for k := 0; k < 200; k++ {
			lat, lon := r.genLatLon(g)
			if !r.point(comp, g, dx, dy, lat, lon, "parsed file") {
				return
			}
		}
		r.Eval(200)
		r.Distinct(s.key())
		r.Cat("parsed files on " + g.name)
	})
}

func (r *R) bigVersion() int {
	return pick(r, []int{100, 127, 128, 129, 255, 256, 257, 260, 261, 512, 1000, 1023, 1024, 9999, 32767, 32768, 65535, 65536, 65540,
		99999, math.MaxInt32, 1 << 31, 1 << 32, 1<<32 + 3, math.MaxInt64, r.Smart(100, 1<<20)})
}

// alias is a multiple of a power of two, which vanishes in a narrower type.
func (r *R) alias() int {
	return (1 - 2*r.IntN(2)) * (1 + r.IntN(3)) << pick(r, []int{7, 8, 10, 12, 14, 15, 16, 20, 24, 31, 32, 33, 40, 48})
}

func propC13(c *Ctx) {
	c.Rule("Five spherical grids at every power-of-two resolution, format versions 0-4 and negative ones, all product labels; points inside, on the boundary of and around the grid and anywhere north of 89.9S; oracles: an independent closed form of the projection with the published corners (to 1e-6 pixel), the DWD pixel coordinate definition in cartesian coordinates (to 30 m), periodicity and orientation. Distinct: (resolution, version, point).")
	c.projStages(sphereGrids, func(r *R) int {
		if r.Chance(5) { // no published version, but below 5
			return pick(r, []int{-1, -5, -128, -251, -256, -65536, math.MinInt32, math.MinInt64})
		}
		return r.IntN(5)
	})
	c.Need("corner sets", 8)
}

func propC14(c *Ctx) {
	c.Rule("DE1200 at every power-of-two resolution, format version 5 and all kinds of greater numbers; points inside, on the boundary of and around the grid and on the whole northern hemisphere; oracles: Snyder's ellipsoidal polar stereographic formulas on WGS84 with the published corners (to 1e-6 pixel), the cartesian pixel definition with DWD's false easting and northing (to 1 m), periodicity and orientation; versions below 5 against the spherical definition. Distinct: (resolution, version, point).")
	c.projStages([]gridRef{wgsGrid}, func(r *R) int {
		switch k := r.IntN(20); {
		case k < 10:
			return 5
		case k < 12:
			return r.bigVersion()
		}
		return r.Smart(5, 99)
	})
	c.Par("below-5", c.N(4000, 40000), func(r *R) {
		g := &sphereGrids[3]
		dx, dy := r.scaledDims(g)
		f := r.IntN(5)
		comp := radolan.NewDummy(pick(r, knownLabels), f, dx, dy)
		for k := 0; k < 20; k++ {
			lat, lon := r.genLatLon(g)
			if !r.point(comp, g, dx, dy, lat, lon, fmt.Sprint("version ", f)) {
				return
			}
		}
		r.Eval(20)
		r.Distinct(hash64(dx, dy, f))
		r.Cat("spherical DE1200 below version 5")
	})
}

func propC15(c *Ctx) {
	n := c.Size(2400, 6000)
	c.Rule(fmt.Sprintf("Blank dummies of all dimension pairs from 0x0 to %dx%d in format versions below and from 5 (exhaustive), plus all scalings of the five grids and near misses up to 2^20, versions far beyond the published ones and negative dimensions; presence of a projection, resolution, extent and corner positions against the published grids. Parsed files of the same dimensions, with different labels and contents, have to project identically to dummies. Distinct: (columns, rows, version).", n, n))
	checkDummy := func(r *R, label string, dx, dy, f int) bool {
		comp := radolan.NewDummy(label, f, dx, dy)
		g := detectRef(dx, dy, f)
		if comp.HasProjection != (g != nil) {
			r.Fail("%s %dx%d version %d: projection %v, want %v", label, dx, dy, f, comp.HasProjection, g != nil)
			return false
		}
		if g == nil {
			if !math.IsNaN(comp.Rx) || !math.IsNaN(comp.Ry) {
				r.Fail("%s %dx%d version %d has no grid, but resolution %v x %v", label, dx, dy, f, comp.Rx, comp.Ry)
				return false
			}
			if x, y := comp.Project(51, 9); !math.IsNaN(x) || !math.IsNaN(y) {
				r.Fail("%s %dx%d version %d has no grid, but projects to (%v, %v)", label, dx, dy, f, x, y)
				return false
			}
			return true
		}
		w, h := g.extent()
		if !near(comp.Rx*float64(dx), w, 1e-6) || !near(comp.Ry*float64(dy), h, 1e-6) || !near(w, float64(g.cols), 0.05) || !near(h, float64(g.rows), 0.05) {
			r.Fail("%s %s %dx%d version %d: resolution %v x %v km gives an extent of %v x %v km, want %v x %v", g.name, label, dx, dy, f,
				comp.Rx, comp.Ry, comp.Rx*float64(dx), comp.Ry*float64(dy), w, h)
			return false
		}
		ax, ay := comp.Project(g.nwLat, g.nwLon)
		bx, by := comp.Project(g.seLat, g.seLon)
		if !near(ax, 0, 1e-6) || !near(ay, 0, 1e-6) || !near(bx, float64(dx), 1e-6*float64(dx)) || !near(by, float64(dy), 1e-6*float64(dy)) {
			r.Fail("%s %dx%d version %d: corners at (%v, %v) and (%v, %v)", g.name, dx, dy, f, ax, ay, bx, by)
			return false
		}
		r.Cat("recognised " + g.name)
		return true
	}
	c.Par("all-dimensions", n+1, func(r *R) {
		label := knownLabels[r.i%len(knownLabels)]
		for dy := 0; dy <= n; dy++ {
			for _, f := range []int{r.IntN(5), 5 + r.IntN(3)} {
				if !checkDummy(r, label, r.i, dy, f) {
					return
				}
			}
		}
		r.Eval(2 * (n + 1))
		r.Bulk(2 * (n + 1))
		r.CatN("dimension pairs enumerated", n+1)
	})
	c.Par("families", c.N(200000, 600000), func(r *R) {
		g := pick(r, sphereGrids)
		dx, dy := g.minC, g.minR
		k := r.IntN(12)
		if r.Chance(5) {
			k = r.IntN(42)
		}
		dx, dy = dx<<k, dy<<k
		switch r.IntN(10) {
		case 0: // near misses
			dx += r.IntN(5) - 2
		case 1:
			dy += r.IntN(5) - 2
		case 2:
			dx, dy = dy, dx
		case 3:
			dx *= 3
			dy *= 3
		case 4:
			dx *= 2
		case 5:
			dx, dy = -dx, -dy
		case 6:
			dx, dy = r.Smart(-10, 20000), r.Smart(-10, 20000)
		case 7: // equal in the lower bits only
			d := r.alias()
			if r.Chance(70) {
				dx += d
			}
			if r.Chance(50) {
				dy += d
			}
		}
		f := r.Smart(0, 99)
		if r.Chance(50) {
			f = r.IntN(7)
		} else if r.Chance(10) {
			f = r.bigVersion()
		} else if r.Chance(5) {
			f = -r.bigVersion()
		}
		label := pick(r, knownLabels)
		if r.Chance(20) {
			label = pick(r, []string{"", "??", "ZZ", "wx", "LONG"})
		}
		if checkDummy(r, label, dx, dy, f) {
			r.Distinct(hash64(dx, dy, f))
		}
		r.Eval(1)
		r.Sample(func() any { return map[string]any{"label": label, "columns": dx, "rows": dy, "version": f} })
	})
	// parsed files and dummies agree, whatever the label and the content
	parsed := func(r *R, s *Spec) {
		s.genBody(r, genOpts{})
		raw := s.build()
		r.Input(raw[:len(s.header)])
		comp, err := read(raw)
		r.Eval(1)
		if m := s.check(comp, err); m != "" {
			r.Fail("%s", m)
			return
		}
		vs := max(s.VS, 0)
		d := radolan.NewDummy(pick(r, knownLabels), vs, s.Cols, s.Rows)
		g := detectRef(s.Cols, s.Rows, vs)
		fl := func(a, b float64) bool { return a == b || (a != a && b != b) }
		if comp.HasProjection != d.HasProjection || comp.HasProjection != (g != nil) || !fl(comp.Rx, d.Rx) || !fl(comp.Ry, d.Ry) {
			r.Fail("%s %dx%d version %d: parsed file (projection %v, %v x %v km) and dummy (%v, %v x %v km) differ", s.Product, s.Cols, s.Rows, vs, comp.HasProjection, comp.Rx, comp.Ry, d.HasProjection, d.Rx, d.Ry)
			return
		}
		for k := 0; k < 30; k++ {
			lat, lon := r.SmartF(-60, 89), r.SmartF(-180, 180)
			ax, ay := comp.Project(lat, lon)
			bx, by := d.Project(lat, lon)
			if !fl(ax, bx) || !fl(ay, by) {
				r.Fail("%s %dx%d version %d: parsed file projects (%v, %v) to (%v, %v), dummy to (%v, %v)", s.Product, s.Cols, s.Rows, vs, lat, lon, ax, ay, bx, by)
				return
			}
			if g != nil {
				if !r.point(comp, g, s.Cols, s.Rows, math.Abs(lat), lon, "parsed file") {
					return
				}
			} else if !math.IsNaN(ax) || !math.IsNaN(ay) {
				r.Fail("%s %dx%d version %d projects without a grid", s.Product, s.Cols, s.Rows, vs)
				return
			}
		}
		if g != nil {
			r.Cat("parsed files with projection")
		} else {
			r.Cat("parsed files without projection")
		}
		r.Distinct(s.key())
	}
	c.Par("parsed-grids", c.N(96, 1200), func(r *R) {
		g := gridDims[r.i%len(gridDims)]
		s := r.sized(genOpts{cells: 1, enc: -1, unit: -1, unknown: 5}, g[1], g[0])
		if s.VS == absent && r.Chance(60) {
			s.VS = r.IntN(8)
		}
		parsed(r, s)
	})
	c.Par("parsed-other", c.N(12000, 60000), func(r *R) {
		o := defOpts()
		o.cells, o.local = 2500, 0
		parsed(r, r.genSpec(o))
	})
	// local products keep their catalogued resolution in every version
	c.Par("parsed-local", len(localLabels)*c.N(8, 80), func(r *R) {
		s := r.genSpec(genOpts{cells: 10, enc: r.IntN(3), unit: -1})
		s.Product, s.DimKind = localLabels[r.i%len(localLabels)], 0
		s.VS = r.i / len(localLabels)
		if r.Chance(10) {
			s.VS = absent
		}
		s.genBody(r, genOpts{})
		comp, err := read(s.build())
		r.Eval(1)
		if m := s.check(comp, err); m != "" {
			r.Fail("%s", m)
			return
		}
		l := refLocal[s.Product]
		x, y := comp.Project(51, 9)
		if comp.HasProjection || comp.Rx != l.res || comp.Ry != l.res || x == x || y == y {
			r.Fail("local product %s version %d: projection %v, resolution %v x %v, 51N 9E at (%v, %v)", s.Product, s.VS, comp.HasProjection, comp.Rx, comp.Ry, x, y)
			return
		}
		r.Distinct(s.key())
		r.Cat("local products with catalogued resolution")
	})
	c.Need("parsed files with projection", 20)
	c.Need("parsed files without projection", 20)
}

// ---- C16 ----

func propC16(c *Ctx) {
	c.Rule("Reflectivities and rates as far as all intermediate results of the formulas exist (up to 3000 dBZ, rates of 1e-305 to 1e305), coefficient pairs a in 1e-3..1e5, b in 0.2..5 and the four predefined relations; oracle: logarithmic form in double precision, both directions, round trips, order of neighbouring values. NaN test: all exponent/mantissa patterns by stride, including every NaN class. Distinct: (relation, value).")
	type rel struct {
		name string
		a, b float64
		zr   radolan.ZR
	}
	pre := []rel{
		{"Aniol80", 256, 1.42, radolan.Aniol80}, {"Doelling98", 316, 1.5, radolan.Doelling98},
		{"JossWaldvogel70", 300, 1.5, radolan.JossWaldvogel70}, {"MarshallPalmer55", 200, 1.6, radolan.MarshallPalmer55},
	}
	judge := func(r *R, q rel, dbz float32) bool {
		rate := radolan.PrecipitationRate(q.zr, dbz)
		lw := (float64(dbz)/10 - math.Log10(q.a)) / q.b // log10 of the rate
		want := math.Pow(10, lw)
		if !(math.Abs(rate-want) <= 1e-9*want*(1+math.Abs(lw))) {
			r.Fail("%s (a=%v, b=%v): %v dBZ gives %v mm/h, want %v", q.name, q.a, q.b, dbz, rate, want)
			return false
		}
		if back := radolan.Reflectivity(q.zr, rate); !(math.Abs(float64(back)-float64(dbz)) <= 1.3e-7*math.Abs(float64(dbz))+1e-9) {
			r.Fail("%s (a=%v, b=%v): %v dBZ gives %v mm/h, which gives %v dBZ", q.name, q.a, q.b, dbz, rate, back)
			return false
		}
		return true
	}
	rateJudge := func(r *R, q rel, rate float64) bool {
		got := radolan.Reflectivity(q.zr, rate)
		want := 10 * (math.Log10(q.a) + q.b*math.Log10(rate))
		if !(math.Abs(float64(got)-want) <= 1.3e-7*math.Abs(want)+1e-9) { // single precision
			r.Fail("%s (a=%v, b=%v): %v mm/h gives %v dBZ, want %v", q.name, q.a, q.b, rate, got, want)
			return false
		}
		return true
	}
	special := func(r *R, q rel) {
		nan := float32(math.NaN())
		if v := radolan.PrecipitationRate(q.zr, nan); v == v {
			r.Fail("%s: rate of NaN is %v", q.name, v)
		}
		if v := radolan.PrecipitationRate(q.zr, radolan.NaN); v == v {
			r.Fail("%s: rate of no-data is %v", q.name, v)
		}
		if v := radolan.Reflectivity(q.zr, math.NaN()); v == v {
			r.Fail("%s: reflectivity of NaN is %v", q.name, v)
		}
		if v := radolan.Reflectivity(q.zr, 0); !math.IsInf(float64(v), -1) {
			r.Fail("%s: reflectivity of rate zero is %v", q.name, v)
		}
		if v := radolan.PrecipitationRate(q.zr, float32(math.Inf(-1))); v != 0 {
			r.Fail("%s: rate of minus infinity is %v", q.name, v)
		}
		r.Eval(5)
	}
	// every value a raw product can hold, through every predefined relation
	c.Par("product-values", 4*4096, func(r *R) {
		q := pre[r.i%4]
		raw := float64(r.i / 4)
		for _, dbz := range []float32{float32(raw/20 - 32.5), float32(raw/2 - 32.5), float32(min(raw, 3000))} {
			if !judge(r, q, dbz) {
				return
			}
		}
		if !rateJudge(r, q, raw/10+0.01) || !rateJudge(r, q, raw+1) {
			return
		}
		r.Eval(5)
		r.Bulk(5)
		r.Cat("predefined " + q.name)
	})
	c.Seq("special", 1, func(r *R) {
		for _, q := range pre {
			special(r, q)
		}
		r.Bulk(20)
	})
	c.Par("relations", c.N(60000, 1000000), func(r *R) {
		q := pre[r.IntN(4)]
		if r.Chance(75) {
			q = rel{name: "NewZR", a: math.Pow(10, r.Float64()*8-3), b: 0.2 + r.Float64()*4.8}
			if r.Chance(30) {
				q.a, q.b = float64(r.Smart(1, 1000)), float64(r.IntN(46)+5)/10
			}
			q.zr = radolan.NewZR(q.a, q.b)
			special(r, q)
		}
		for k := 0; k < 20; k++ {
			dbz := float32(r.SmartF(-60, 100))
			if k == 0 {
				dbz = float32(r.Float64()*600 - 300)
			}
			if k == 1 { // far out, as far as all intermediate results exist
				lw := r.Float64()*500 - 250
				dbz = float32(max(-3000, min(3000, 10*(lw*q.b+math.Log10(q.a)))))
			}
			if !judge(r, q, dbz) {
				return
			}
			// order
			up := dbz + float32(r.Float64()*10)
			if radolan.PrecipitationRate(q.zr, up) < radolan.PrecipitationRate(q.zr, dbz) {
				r.Fail("%s (a=%v b=%v): rate of %v dBZ is below that of %v", q.name, q.a, q.b, up, dbz)
				return
			}
			rate := math.Pow(10, r.Float64()*8-4)
			switch k {
			case 1:
				rate = math.Pow(10, r.Float64()*60-30)
			case 3:
				rate = math.Pow(10, (r.Float64()*2-1)*min(305, 280/q.b))
			case 2:
				rate = r.SmartF(0.001, 500)
			}
			if !rateJudge(r, q, rate) {
				return
			}
			if radolan.Reflectivity(q.zr, rate*(1+r.Float64())) < radolan.Reflectivity(q.zr, rate) {
				r.Fail("%s: reflectivity not increasing at %v", q.name, rate)
				return
			}
			r.Distinct(hash64(q.a, q.b, dbz))
		}
		r.Eval(60)
		r.Cat("relation " + q.name)
		r.Sample(func() any { return map[string]any{"relation": q.name, "a": q.a, "b": q.b} })
	})
	// NaN test over all bit patterns by stride
	c.Par("nan-test", 4096, func(r *R) {
		const step = uint32(1)
		for m := uint32(0); m < 1<<20; m += step {
			v := math.Float32frombits(uint32(r.i)<<20 | m)
			if radolan.IsNaN(v) != (v != v) {
				r.Fail("IsNaN of bit pattern %08x is %v", uint32(r.i)<<20|m, radolan.IsNaN(v))
				return
			}
		}
		r.Eval(1 << 20 / int(step))
		r.Bulk(1 << 20 / int(step))
		r.CatN("bit patterns", 1<<20/int(step))
	})
	c.Seq("nan-constant", 1, func(r *R) {
		if radolan.NaN == radolan.NaN {
			r.Fail("the no-data constant is not NaN")
		}
		r.Eval(1)
	})
}
