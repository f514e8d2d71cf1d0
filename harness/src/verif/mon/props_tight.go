package main

import (
	"bytes"
	"fmt"
	"hash/crc32"
	"math"
	"runtime"
	"runtime/debug"
	"sync"
	"sync/atomic"
	"time"

	"gitlab.cs.fau.de/since/radolan"
	"gitlab.cs.fau.de/since/radolan/radolan2png/vis"
)

// C17, tight loops: what the race detector cannot see (values combined from
// several synchronised steps) shows as a wrong result. The monitor runs without
// the race detector here, so that operations overlap at full speed.

const tightKinds = 16

// tightOps draws a few cheap operations of one kind with different, related
// arguments. f is executed by all goroutines and returns a hash of what it got.
func (r *R) tightOps(kind int) (name string, ops []func() uint64) {
	n := 2 + r.IntN(5)
	add := func(f func() uint64) { ops = append(ops, f) }
	mix := func(h uint64, v float64) uint64 {
		if v != v {
			v = 12345.678
		}
		return (h^math.Float64bits(v))*1099511628211 ^ h>>31
	}
	point := func() (float64, float64) { return 46 + r.Float64()*9, r.Float64() * 17 }
	points := func(c *radolan.Composite, lat, lon float64) uint64 {
		x, y := c.Project(lat, lon)
		x2, y2 := c.Project(lat, lon+1)
		return mix(mix(mix(mix(1, x), y), x2), y2)
	}
	file := func(enc int, s *Spec) *Spec {
		f := *s
		f.Enc = encKind(enc)
		f.HasLV, f.Levels = false, nil
		if f.Enc == encRL {
			f.genLevels(r)
		}
		f.genBody(r, defOpts())
		return &f
	}
	switch kind {
	case 0, 1, 2:
		name = "one composite, projection"
		g := [2]int{900, 900}
		version := 0
		switch kind {
		case 1:
			g, version = [2]int{1100, 1200}, 5
		case 2:
			g = pick(r, gridDims)
		}
		c := radolan.NewDummy("RX", version, g[0], g[1])
		for i := 0; i < n; i++ {
			lat, lon := point()
			add(func() uint64 { return points(c, lat, lon) })
		}
	case 3:
		name = "new dummies, projection"
		lat, lon := point()
		for i := 0; i < n; i++ {
			g, version, label := pick(r, gridDims), r.IntN(7), pick(r, knownLabels)
			if r.Chance(40) {
				g = [2]int{1100, 1200}
			}
			add(func() uint64 {
				c := radolan.NewDummy(label, version, g[0], g[1])
				return mix(mix(points(c, lat, lon), c.Rx), c.Ry) + uint64(c.Dx+c.Dy)
			})
		}
	case 4, 5:
		name = "composites of several grids, projection"
		lat, lon := point()
		for i := 0; i < n; i++ {
			g, version := pick(r, gridDims), r.IntN(7)
			if kind == 5 && i%2 == 0 {
				g, version = [2]int{1100 >> r.IntN(3), 1200 >> r.IntN(3)}, 5
			}
			c := radolan.NewDummy("WX", version, g[0], g[1])
			add(func() uint64 { return points(c, lat, lon) })
		}
	case 6:
		name = "relations"
		a, b := 1+r.Float64()*400, 0.7+r.Float64()*2
		for i := 0; i < n; i++ {
			z := radolan.NewZR(a, b)
			if r.Chance(50) {
				z = pick(r, zrs)
			} else if r.Chance(50) {
				a = 1 + r.Float64()*400
			} else {
				b = 0.7 + r.Float64()*2
			}
			v := r.Float64() * 70
			add(func() uint64 {
				return mix(mix(3, radolan.PrecipitationRate(z, float32(v))), float64(radolan.Reflectivity(z, v)))
			})
		}
	case 7:
		name = "new relations"
		a, b, v := 1+r.Float64()*400, 0.7+r.Float64()*2, r.Float64()*70
		for i := 0; i < n; i++ {
			a, b := a, b
			switch r.IntN(3) {
			case 0:
				a = 1 + r.Float64()*400
			case 1:
				b = 0.7 + r.Float64()*2
			}
			add(func() uint64 {
				z := radolan.NewZR(a, b)
				return mix(mix(3, radolan.PrecipitationRate(z, float32(v))), float64(radolan.Reflectivity(z, v)))
			})
		}
	case 8:
		name = "colours"
		same := pick(r, colorFuncs)
		for i := 0; i < n; i++ {
			fn, v := same, r.Float64()*120-30
			if r.Chance(40) {
				fn = pick(r, colorFuncs)
			}
			add(func() uint64 { return hashColor(fn.fn(v)) + hashColor(fn.fn(v+3))<<32 })
		}
	case 9:
		name = "gradients"
		lo, hi, v := 0.1+r.Float64()*5, 20+r.Float64()*200, r.Float64()*90
		for i := 0; i < n; i++ {
			lo, hi, cp, kind := lo, hi, pick(r, compressions), r.IntN(3)
			if r.Chance(50) {
				lo = 0.1 + r.Float64()*5
			}
			if r.Chance(50) {
				hi = 20 + r.Float64()*200
			}
			mk := func() vis.ColorFunc {
				switch kind {
				case 0:
					return vis.Heatmap(lo, hi, cp.fn)
				case 1:
					return vis.Graymap(lo, hi, cp.fn)
				}
				return vis.Radialmap(-hi, hi, cp.fn)
			}
			fixed := mk()
			fresh := r.Chance(50)
			add(func() uint64 {
				fn := fixed
				if fresh {
					fn = mk()
				}
				return hashColor(fn(v)) + hashColor(fn(v/2))<<32
			})
		}
	case 10, 11:
		name = "pictures"
		var first *radolan.Composite
		n++
		for i := 0; i < n; i++ {
			c := &radolan.Composite{Product: "RX", Dx: 3 + r.IntN(12), Dy: 2 + r.IntN(9), Dz: 1 + r.IntN(2)}
			for z := 0; z < c.Dz; z++ {
				var l [][]float32
				for y := 0; y < c.Dy; y++ {
					row := make([]float32, c.Dx)
					for x := range row {
						row[x] = float32(r.Float64()*120 - 20)
					}
					l = append(l, row)
				}
				c.DataZ = append(c.DataZ, l)
			}
			c.Data = c.DataZ[0]
			if first == nil {
				first = c
			} else if i < n-1 && (kind == 11 || r.Chance(30)) { // another picture of the same composite
				c = first
			}
			fn, z := pick(r, colorFuncs), r.IntN(c.Dz)
			x, y := r.IntN(c.Dx), r.IntN(c.Dy)
			add(func() uint64 {
				img := vis.Image(fn.fn, c, z)
				return uint64(crc32.ChecksumIEEE(img.Pix)) ^ uint64(img.Rect.Dx())<<40 ^ uint64(math.Float32bits(c.AtZ(x, y, z)))<<20 ^ uint64(math.Float32bits(c.At(x, y)))
			})
		}
	case 12, 13, 14:
		name = "files"
		o := defOpts()
		o.cells, o.local, o.unknown = 60, 0, 3
		base := r.genSpec(o)
		for base.DimKind == 0 || base.Rows*base.Cols > 400 {
			base = r.genSpec(o)
		}
		for i := 0; i < n; i++ {
			s := *base
			switch r.IntN(5) {
			case 0:
				s.Product = pick(r, knownLabels)
			case 1:
				s.Prec = r.IntN(5) - 2
			case 2:
				s.Rows, s.Cols = s.Cols, s.Rows
			case 3:
				s.Time = r.genTime()
			}
			enc := kind - 12
			if r.Chance(20) {
				enc = r.IntN(3)
			}
			raw := file(enc, &s).build()
			switch r.IntN(8) {
			case 0:
				raw = raw[:r.IntN(len(raw))]
			case 1:
				_, raw = pick(r, c03Defects()).make(r)
			}
			add(func() uint64 {
				return fingerprint(radolan.NewComposite(bytes.NewReader(raw)))
			})
		}
	default:
		name = "archives"
		for i := 0; i < min(n, 3); i++ {
			_, files, names := r.archive(1+r.IntN(3), 20)
			b := r.bz(r.tarFile(files, names))
			if r.Chance(20) {
				b = b[:r.IntN(len(b))]
			}
			add(func() uint64 {
				cs, err := radolan.NewComposites(bytes.NewReader(b))
				h := hash64(fmt.Sprint(err), len(cs))
				for _, c := range cs {
					h = h*31 + fingerprint(c, nil)
				}
				return h
			})
		}
	}
	return
}

// propC17tight runs rounds of tight loops in a process of its own.
func propC17tight(c *Ctx) {
	first := int(c.seed % tightKinds)
	dur := 40 * time.Millisecond
	if c.thorough {
		dur = 120 * time.Millisecond
	}
	c.Seq("tight", 2*tightKinds, func(r *R) {
		kind := (first + r.i) % tightKinds
		name, ops := r.tightOps(kind)
		want := make([]uint64, len(ops))
		alone := func() {
			for i, f := range ops {
				want[i] = f()
			}
		}
		before := r.i > 0 && r.Chance(70) // the process's first operations are concurrent
		if before {
			alone()
		}
		workers := pick(r, []int{4, 8, 8, 16, 32})
		gc := r.Chance(30)
		if gc {
			defer debug.SetGCPercent(debug.SetGCPercent(10))
		}
		got := make([][]map[uint64]int, workers)
		panics := make([]string, workers)
		counts := make([]int, workers)
		seeds := make([]uint64, workers)
		for g := range seeds {
			seeds[g] = r.Uint64() | 1
		}
		yields := r.Chance(30)
		var stop atomic.Bool
		var wg sync.WaitGroup
		start := make(chan struct{})
		for g := 0; g < workers; g++ {
			wg.Add(1)
			got[g] = make([]map[uint64]int, len(ops))
			for i := range got[g] {
				got[g][i] = map[uint64]int{}
			}
			go func() {
				defer wg.Done()
				defer func() {
					if e := recover(); e != nil {
						buf := make([]byte, 3000)
						panics[g] = fmt.Sprintf("%v\n%s", e, buf[:runtime.Stack(buf, false)])
					}
				}()
				s := seeds[g]
				last := make([]uint64, len(ops))
				seen := make([]bool, len(ops))
				<-start
				for !stop.Load() {
					s ^= s << 13
					s ^= s >> 7
					s ^= s << 17
					i := int(s>>33) % len(ops)
					h := ops[i]()
					counts[g]++
					if !seen[i] || h != last[i] {
						seen[i], last[i] = true, h
						if len(got[g][i]) < 50 {
							got[g][i][h]++
						}
					}
					if yields && s&7 == 0 {
						runtime.Gosched()
					}
				}
			}()
		}
		close(start)
		time.Sleep(dur)
		stop.Store(true)
		wg.Wait()
		if !before {
			alone()
		}
		total := 0
		for g := range got {
			if panics[g] != "" {
				r.fail(fmt.Sprintf("tight loops of %d goroutines (%s): panic", workers, name), panics[g])
				return
			}
			total += counts[g]
			for i := range ops {
				for h := range got[g][i] {
					if h != want[i] {
						r.Fail("tight loops of %d goroutines (%s): an operation gives a result that differs from the one executed alone", workers, name)
						return
					}
				}
			}
		}
		r.Eval(total)
		r.CatN("operations in tight loops: "+name, total)
		r.Cat("rounds of tight loops")
		if gc {
			r.Cat("rounds of tight loops under frequent garbage collection")
		}
		r.Distinct(hash64("tight", c.seed, r.i))
	})
}
