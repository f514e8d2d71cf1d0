package main

import (
	"bytes"
	"fmt"
	"image"
	"image/color"
	"math"

	"gitlab.cs.fau.de/since/radolan"
	"gitlab.cs.fau.de/since/radolan/radolan2png/vis"
)

// ---- reference gradients ----

// hsl converts hue (degrees), saturation 1 and lightness to channels in 0..255.
func hsl(h, l float64) [3]float64 {
	f := func(n float64) float64 {
		k := math.Mod(n+h/30, 12)
		a := math.Min(l, 1-l)
		return 255 * (l - a*math.Max(-1, math.Min(math.Min(k-3, 9-k), 1)))
	}
	return [3]float64{f(0), f(8), f(4)}
}

type gradient struct {
	kind     string
	min, max float64
	comp     func(float64) float64
	compName string
	fn       vis.ColorFunc
}

var black = color.RGBA{0, 0, 0, 255}

// fraction of the compressed range, clamped
func (g *gradient) fraction(v float64) float64 {
	a, b := g.comp(g.min), g.comp(g.max)
	p := (g.comp(v) - a) / (b - a)
	return math.Max(0, math.Min(1, p))
}

// want returns the channels in 0..255 of a value in the domain, and whether it is black.
func (g *gradient) want(v float64) (ch [3]float64, dark bool) {
	switch g.kind {
	case "heatmap":
		p := g.fraction(v)
		return hsl(math.Mod(240-330*p+720, 360), 0.25+0.5*p), false
	case "graymap":
		p := 255 * g.fraction(v)
		return [3]float64{p, p, p}, false
	}
	base := math.Max(math.Abs(g.min), math.Abs(g.max))
	lev := 255 * math.Min(1, g.comp(math.Abs(v))/g.comp(base))
	non := 0.0
	if math.Abs(v) <= 1 {
		lev, non = 255, 0xCC
	}
	if v < 0 {
		return [3]float64{non, lev, lev}, false
	}
	return [3]float64{lev, non, non}, false
}

func closeColor(got color.RGBA, ch [3]float64) bool {
	return got.A == 255 && math.Abs(float64(got.R)-ch[0]) < 1.02 && math.Abs(float64(got.G)-ch[1]) < 1.02 && math.Abs(float64(got.B)-ch[2]) < 1.02
}

// judge checks the colour of one value; "" if it is right.
func (g *gradient) judge(v float64) string {
	got := g.fn(v)
	name := fmt.Sprintf("%s(%v, %v, %s)(%v) = %v", g.kind, g.min, g.max, g.compName, v, got)
	if got.A != 255 {
		return name + ": not opaque"
	}
	if v != v {
		if got != black {
			return name + ": no-data is not black"
		}
		return ""
	}
	if g.kind != "radialmap" {
		if v < g.min-1e-9*(math.Abs(g.min)+1) {
			if got != black {
				return name + ": below the minimum is not black"
			}
			return ""
		}
		if v < g.min {
			return "" // not distinguishable from the minimum after compression
		}
		if v > g.max {
			if top := g.fn(g.max); got != top {
				return fmt.Sprintf("%s: above the maximum differs from the maximum's colour %v", name, top)
			}
			if g.kind == "graymap" && got != (color.RGBA{255, 255, 255, 255}) {
				return name + ": above the maximum is not white"
			}
		}
	}
	ch, _ := g.want(v)
	if v == 0 && g.kind == "radialmap" {
		if !closeColor(got, ch) && !closeColor(got, [3]float64{ch[1], ch[0], ch[0]}) {
			return name + ": zero is not pale"
		}
		return ""
	}
	if !closeColor(got, ch) {
		return fmt.Sprintf("%s: want about (%.1f, %.1f, %.1f)", name, ch[0], ch[1], ch[2])
	}
	return ""
}

var compressions = []struct {
	name string
	fn   func(float64) float64
	pos  bool // domain is positive
}{
	{"Id", vis.Id, false}, {"Log", vis.Log, true},
	{"sqrt", math.Sqrt, true}, {"cube", func(x float64) float64 { return x * x * x }, false},
	{"log10", math.Log10, true}, {"atan", math.Atan, false}, {"2x-3", func(x float64) float64 { return 2*x - 3 }, false},
}

func predefined() []gradient {
	id, lg := vis.Id, vis.Log
	return []gradient{
		{"heatmap", 5, 75, id, "Id", vis.HeatmapReflectivityShort}, {"heatmap", 1, 75, id, "Id", vis.HeatmapReflectivity},
		{"heatmap", -32.5, 75, id, "Id", vis.HeatmapReflectivityWide}, {"heatmap", 0.1, 100, lg, "Log", vis.HeatmapAccumulatedHour},
		{"heatmap", 0.1, 200, lg, "Log", vis.HeatmapAccumulatedDay}, {"radialmap", -31.5, 31.5, lg, "Log", vis.HeatmapRadialVelocity},
		{"graymap", 0, 409.5, id, "Id", vis.GraymapLinear}, {"graymap", 0, 4095, id, "Id", vis.GraymapLinearWide},
	}
}

func (r *R) genGradient() gradient {
	cp := compressions[0]
	if k := r.IntN(10); k >= 4 && k < 8 {
		cp = compressions[1]
	} else if k >= 8 {
		cp = pick(r, compressions[2:])
	}
	g := gradient{comp: cp.fn, compName: cp.name}
	switch r.IntN(3) {
	case 0:
		g.kind = "heatmap"
	case 1:
		g.kind = "graymap"
	default:
		g.kind = "radialmap"
	}
	if g.kind == "radialmap" {
		if cp.name == "2x-3" || cp.name == "atan" {
			g.comp, g.compName = vis.Id, "Id"
		}
		g.max = 1.5 + r.SmartF(0, 100)
		g.min = -g.max
		if r.Chance(40) { // unsymmetric
			g.min = -(1.5 + r.SmartF(0, 100))
		}
		if r.Chance(10) {
			g.min = r.Float64() * g.max
		}
		g.fn = vis.Radialmap(g.min, g.max, g.comp)
		return g
	}
	g.min = r.SmartF(-100, 100)
	if cp.pos {
		g.min = math.Abs(g.min) + 0.001
		if r.Chance(30) {
			g.min = math.Pow(10, r.Float64()*4-3)
		}
	}
	if cp.name == "atan" {
		g.min /= 50
	}
	g.max = g.min + 0.5 + r.SmartF(0, 500)
	if cp.name == "atan" {
		g.max = g.min + 0.5 + r.Float64()*2
	}
	if g.kind == "heatmap" {
		g.fn = vis.Heatmap(g.min, g.max, g.comp)
	} else {
		g.fn = vis.Graymap(g.min, g.max, g.comp)
	}
	return g
}

func (r *R) genValue(g *gradient) float64 {
	switch r.IntN(12) {
	case 0:
		return pick(r, []float64{math.NaN(), math.Inf(1), math.Inf(-1), 0, math.Copysign(0, -1), 1, -1, math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, float64(math.MaxFloat32)})
	case 1:
		return pick(r, []float64{g.min, g.max})
	case 2:
		return g.min - math.Pow(10, r.Float64()*6-4)
	case 3:
		return g.max + math.Pow(10, r.Float64()*6-4)
	case 4:
		return float64(float32(r.SmartF(-200, 500)))
	case 5:
		return r.SmartF(-3, 3)
	case 6: // positions of hue changes and lightness extremes
		p := float64(r.IntN(67))/66 + (r.Float64()-0.5)*0.002
		return g.min + p*(g.max-g.min)
	}
	return g.min + r.Float64()*(g.max-g.min)
}

func propC19(c *Ctx) {
	c.Rule("Predefined maps over all values of their products (0.1 steps over and beyond the range) and random gradients of all kinds with seven compression functions over values inside, at and outside the bounds, NaN, infinities and extremes; oracle: an independent HSL conversion and direct formulas, each channel within one step, plus exact black, saturation and opacity. Distinct: (gradient, value).")
	pre := predefined()
	c.Par("predefined", len(pre)*64, func(r *R) {
		g := &pre[r.i/64]
		n := 0
		span := g.max - g.min
		for k := r.i % 64; k < 16384; k += 64 {
			v := g.min - 0.25*span + 1.5*span*float64(k)/16384
			for _, v := range []float64{v, float64(float32(math.Round(v*10) / 10)), math.Round(v*2)/2 - 32.5} {
				if m := g.judge(v); m != "" {
					r.Fail("%s", m)
					return
				}
				n++
			}
		}
		r.Eval(n)
		r.Bulk(n / 3)
		r.CatN("predefined "+g.kind, n)
	})
	c.Par("random", c.N(60000, 1500000), func(r *R) {
		g := r.genGradient()
		if r.Chance(15) {
			g = pick(r, pre)
		}
		for k := 0; k < 40; k++ {
			v := r.genValue(&g)
			if m := g.judge(v); m != "" {
				r.Fail("%s", m)
				return
			}
			if v != v || math.IsInf(v, 0) {
				r.Cat("special values")
			}
			r.Distinct(hash64(g.kind, g.min, g.max, g.compName, v))
		}
		if m := g.judge(math.NaN()); m != "" {
			r.Fail("%s", m)
			return
		}
		r.Eval(41)
		r.Cat(g.kind + " " + g.compName)
		r.Sample(func() any {
			v := r.genValue(&g)
			return map[string]any{"gradient": fmt.Sprintf("%s(%v, %v, %s)", g.kind, g.min, g.max, g.compName), "value": fmt.Sprint(v), "colour": fmt.Sprint(g.fn(v))}
		})
	})
	c.Par("order", c.N(20000, 300000), func(r *R) {
		// the graymap never darkens and the radial map's brightness never falls with growing magnitude
		g := r.genGradient()
		for k := 0; k < 30; k++ {
			a, b := r.genValue(&g), r.genValue(&g)
			if a != a || b != b {
				continue
			}
			switch g.kind {
			case "graymap":
				if a > b {
					a, b = b, a
				}
				if x, y := g.fn(a), g.fn(b); x.R > y.R {
					r.Fail("graymap(%v, %v, %s): %v gives %v, %v gives %v", g.min, g.max, g.compName, a, x, b, y)
					return
				}
			case "radialmap":
				a, b = math.Abs(a), math.Abs(b)
				if a > b {
					a, b = b, a
				}
				if a <= 1 {
					continue
				}
				if x, y := g.fn(-a), g.fn(-b); x.G > y.G || x.B != x.G || x.R != 0 {
					r.Fail("radialmap(%v, %v, %s): %v gives %v, %v gives %v", g.min, g.max, g.compName, -a, x, -b, y)
					return
				}
			}
			r.Eval(1)
		}
		r.Distinct(hash64(g.kind, g.min, g.max, r.i))
	})
	c.Par("compression", c.N(2000, 20000), func(r *R) {
		for k := 0; k < 50; k++ {
			v := r.SmartF(-1000, 1000)
			if vis.Id(v) != v {
				r.Fail("Id(%v) = %v", v, vis.Id(v))
				return
			}
			if v > 0 && math.Abs(vis.Log(v)-math.Log10(v)*math.Ln10) > 1e-12*(1+math.Abs(math.Log(v))) {
				r.Fail("Log(%v) = %v", v, vis.Log(v))
				return
			}
		}
		r.Eval(50)
		r.Distinct(hash64(r.i))
	})
	c.Need("special values", 1000)
}

// ---- C20 ----

func propC20(c *Ctx) {
	c.Rule("Composites read from files of all products (one and twelve layers, stripped elevation), hand-made composites with unique values, and dummies are rendered for every layer and layers out of range with colour functions that encode the value itself, gradients, and translucent or constant functions; every pixel compared, composite fingerprint before and after. Distinct: (composite, layer, function).")
	encode := func(v float64) color.RGBA { // injective for float32
		b := math.Float32bits(float32(v))
		return color.RGBA{byte(b), byte(b >> 8), byte(b >> 16), byte(b >> 24)}
	}
	fns := []struct {
		name string
		fn   vis.ColorFunc
	}{{"value itself", encode}, {"constant", func(float64) color.RGBA { return color.RGBA{1, 2, 3, 4} }},
		{"transparent", func(float64) color.RGBA { return color.RGBA{} }}}
	for _, p := range colorFuncs {
		fns = append(fns, struct {
			name string
			fn   vis.ColorFunc
		}{p.name, p.fn})
	}
	one := func(r *R, comp *radolan.Composite) {
		fp := uint64(0)
		if comp.Dz > 0 {
			fp = fingerprint(comp, nil)
		}
		layers := []int{-1, comp.Dz, comp.Dz + 1 + r.IntN(20), math.MinInt, math.MaxInt, -1 - r.IntN(2000), comp.Dz + r.IntN(3000)}
		for k := 0; k < 3; k++ { // numbers that small types do not hold
			p := 1<<r.IntN(63) + r.IntN(2*comp.Dz+3) - comp.Dz - 1
			layers = append(layers, pick(r, []int{p, -p, p + comp.Dz, math.MinInt + r.IntN(comp.Dz+2)}))
		}
		for z := 0; z < comp.Dz; z++ {
			layers = append(layers, z)
		}
		for _, z := range layers {
			f := fns[0]
			if r.Chance(50) {
				f = pick(r, fns)
			}
			img := vis.Image(f.fn, comp, z)
			if img == nil {
				r.Fail("no image")
				return
			}
			if img.Bounds() != image.Rect(0, 0, comp.Dx, comp.Dy) {
				r.Fail("%dx%d composite, layer %d: image bounds %v", comp.Dx, comp.Dy, z, img.Bounds())
				return
			}
			valid := z >= 0 && z < comp.Dz
			if !valid && comp.Dx*comp.Dy > 5000 { // all bytes are zero
				for k, b := range img.Pix {
					if b != 0 {
						r.Fail("%dx%dx%d composite, layer %d: byte %d of the image is %d", comp.Dx, comp.Dy, comp.Dz, z, k, b)
						return
					}
				}
				r.Eval(1)
				r.Cat("missing layer")
				continue
			}
			for y := 0; y < comp.Dy; y++ {
				for x := 0; x < comp.Dx; x++ {
					want := color.RGBA{}
					if valid {
						want = f.fn(float64(comp.DataZ[z][y][x]))
					}
					if got := img.RGBAAt(x, y); got != want {
						r.Fail("%dx%dx%d composite, layer %d, function %s: pixel (%d, %d) is %v, want %v", comp.Dx, comp.Dy, comp.Dz, z, f.name, x, y, got, want)
						return
					}
				}
			}
			r.Eval(1)
			r.CatN("pixels compared", comp.Dx*comp.Dy)
			if valid {
				r.Cat("existing layer")
				r.Distinct(hash64(fp, z, f.name, comp.Dx, comp.Dy))
			} else {
				r.Cat("missing layer")
			}
		}
		if comp.Dz > 0 && fingerprint(comp, nil) != fp {
			r.Fail("rendering modified the composite")
		}
		r.Sample(func() any {
			return map[string]any{"columns": comp.Dx, "rows": comp.Dy, "layers": comp.Dz, "product": comp.Product}
		})
	}
	o := defOpts()
	o.local = 0
	c.Par("parsed", c.N(2500, 60000), func(r *R) {
		o := o
		o.cells = 3000
		raw := r.genSpec(o).build()
		comp, _ := read(raw)
		if comp == nil || checkShape(comp) != "" {
			return
		}
		r.Input(raw)
		one(r, comp)
	})
	c.Par("grids", c.N(16, 200), func(r *R) {
		g := gridDims[r.i%len(gridDims)]
		s := r.sized(genOpts{cells: 1, enc: -1, unit: -1}, g[1], g[0])
		s.genBody(r, o)
		comp, _ := read(s.build())
		if comp == nil || checkShape(comp) != "" {
			return
		}
		one(r, comp)
	})
	c.Par("local", c.N(14, 300), func(r *R) {
		s := r.genSpec(genOpts{cells: 10, enc: -1, unit: -1})
		s.Product = localLabels[r.i%len(localLabels)]
		s.DimKind = 0
		s.genBody(r, o)
		comp, _ := read(s.build())
		if comp == nil || checkShape(comp) != "" {
			return
		}
		one(r, comp)
	})
	c.Par("hand-made", c.N(3000, 60000), func(r *R) {
		w, h, d := r.Smart(1, 90), r.Smart(1, 90), 1+r.IntN(4)
		if r.Chance(6) { // more layers than any product has
			w, h, d = r.Smart(1, 12), r.Smart(1, 12), 5+r.Smart(0, 300)
			r.Cat("composites of many layers")
		}
		comp := &radolan.Composite{Product: "XX", Dx: w, Dy: h, Dz: d}
		id := float32(0)
		for z := 0; z < d; z++ {
			var l [][]float32
			for y := 0; y < h; y++ {
				row := make([]float32, w)
				for x := range row {
					id++
					row[x] = id
					switch r.IntN(30) {
					case 0:
						row[x] = radolan.NaN
					case 1:
						row[x] = -id
					case 2:
						row[x] = float32(math.Inf(1))
					}
				}
				l = append(l, row)
			}
			comp.DataZ = append(comp.DataZ, l)
		}
		comp.Data = comp.DataZ[0]
		one(r, comp)
	})
	// pictures of millions of pixels, and pictures as narrow as a composite can be
	c.par("large-pictures", c.Size(8, 60), 4, func(r *R) {
		rows, cols := r.Smart(1500, 3600), r.Smart(1500, 3600)
		switch r.i {
		case 0:
			rows, cols = 9999, 1
		case 1:
			rows, cols = 1, 9999
		case 2:
			rows, cols = 3, 9999
		case 3:
			rows, cols = 9000+r.IntN(1000), 4000+r.IntN(900)
		case 4:
			rows, cols = 2000+r.IntN(600), 2000+r.IntN(600)
		}
		f := r.bigFile(encKind(r.i%3), rows, cols)
		comp, _ := read(f.raw)
		if comp == nil || checkShape(comp) != "" {
			return
		}
		fn := encode
		if r.Chance(50) {
			fn = pick(r, fns[3:]).fn
		}
		for _, z := range []int{0, 1} {
			img := vis.Image(fn, comp, z)
			r.Eval(1)
			if img == nil || img.Bounds() != image.Rect(0, 0, comp.Dx, comp.Dy) {
				r.Fail("%dx%d composite, layer %d: no image of this size", comp.Dx, comp.Dy, z)
				return
			}
			last, lastC, known := float32(0), color.RGBA{}, false
			for y := 0; y < comp.Dy; y++ {
				for x := 0; x < comp.Dx; x++ {
					want := color.RGBA{}
					if z == 0 {
						v := comp.DataZ[0][y][x]
						if !known || math.Float32bits(v) != math.Float32bits(last) {
							last, lastC, known = v, fn(float64(v)), v == v
						}
						want = lastC
					}
					if got := img.RGBAAt(x, y); got != want {
						r.Fail("%dx%d composite, layer %d: pixel (%d, %d) is %v, want %v", comp.Dx, comp.Dy, z, x, y, got, want)
						return
					}
				}
			}
			r.CatN("pixels compared", comp.Dx*comp.Dy)
		}
		r.Cat("large pictures")
		r.Distinct(hash64(rows, cols, r.i))
	})
	c.Need("large pictures", 6)
	c.Par("dummies", c.N(300, 4000), func(r *R) {
		rows, cols := r.genDims(40000)
		one(r, radolan.NewDummy("RX", 0, cols, rows))
	})
	c.Par("format-chain", c.N(200, 2000), func(r *R) {
		// the same composite rendered twice gives two independent images
		raw := r.genSpec(genOpts{cells: 2000, enc: -1, unit: -1}).build()
		comp, _ := read(raw)
		if comp == nil || checkShape(comp) != "" {
			return
		}
		a := vis.Image(encode, comp, 0)
		keep := append([]byte{}, a.Pix...)
		b := vis.Image(func(float64) color.RGBA { return color.RGBA{9, 9, 9, 9} }, comp, 0)
		if !bytes.Equal(a.Pix, keep) {
			r.Fail("a later image changed an earlier one")
		}
		if len(b.Pix) > 0 && b.Pix[0] != 9 {
			r.Fail("second image not drawn")
		}
		r.Eval(1)
	})
	c.Need("pixels compared", 1000000)
	c.Need("missing layer", 1000)
}
