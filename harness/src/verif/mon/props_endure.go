package main

// endurance repeats a few cheap operations up to millions of times in one
// process: what is counted, collected or worn out in between must not show. All
// results are compared with the first one of the same operation.
func (c *Ctx) endurance() {
	c.Seq("endurance", c.Size(1, 3)*tightKinds, func(r *R) {
		name, fs := r.tightOps(r.i % tightKinds)
		total := c.Size(1, 8)
		switch name {
		case "archives":
			total *= 2500
		case "files", "pictures":
			total *= 150_000
		default:
			total *= 1_500_000
		}
		want := make([]uint64, len(fs))
		for i, f := range fs {
			want[i] = f()
		}
		s := r.Uint64() | 1
		for n := len(fs); n < total; n++ {
			s ^= s << 13
			s ^= s >> 7
			s ^= s << 17
			i := int(s>>33) % len(fs)
			if fs[i]() != want[i] {
				r.Fail("%s: operation %d gives another result than at first, after %d operations of this kind", name, i, n)
				return
			}
		}
		r.Eval(total)
		r.CatN("operations repeated: "+name, total)
		r.Distinct(hash64(r.i))
	})
}

// periods looks for what is counted in few bits: between two operations that
// have something in common lie as many others as such a counter has values.
func (c *Ctx) periods() {
	c.Seq("periods", c.Size(1, 12)*tightKinds, func(r *R) {
		name, fs := r.tightOps(r.i % tightKinds)
		want := make([]uint64, len(fs))
		for i, f := range fs {
			want[i] = f()
		}
		widths := []int{4, 8, 12, 16}
		if name == "archives" {
			widths = widths[:2]
		}
		total := 0
		for _, w := range widths {
			for d := -3; d <= 2; d++ {
				filler := len(fs) - 1
				a, b := r.IntN(filler), r.IntN(filler)
				if r.Chance(20) {
					filler = r.IntN(len(fs))
				} else if a == b {
					b = (a + 1) % filler
				}
				fs[a]()
				for n := 1<<w + d; n > 0; n-- {
					fs[filler]()
				}
				if fs[b]() != want[b] {
					r.Fail("%s: operation %d gives another result than at first, after operation %d and then %d times operation %d", name, b, a, 1<<w+d, filler)
					return
				}
				total += 1<<w + d + 2
			}
		}
		r.Eval(total)
		r.CatN("periods: "+name, len(widths)*6)
		r.Distinct(hash64("periods", r.i))
	})
}
