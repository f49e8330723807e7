package harness

import "bytes"

// C14, mode "crowd": very many buffers alive at once, and very many decoded
// results and written arguments kept, so that whatever is handed out again
// after a while (a ring, an arena, a pool) is still in use.

var profCrowd = prof(8, 3, 45, ambient.with(weights{"w": 8, "r": 16, "grow": 5, "refresh": 0}))

func genCrowd(g g) *Case {
	c := &Case{Prop: "C14", Mode: "crowd", P: map[string]int64{}}
	c.Kinds = []string{pickS(g, allKinds)}
	if g.pct(30) {
		c.Kinds = append(c.Kinds, pickS(g, allKinds))
	}
	for k := 1 + g.n(3); k > 0; k-- {
		p := *profCrowd
		p.sizes = 120
		init, ops := g.history(&p, c.Kinds...)
		c.Init = append(c.Init, init)
		c.Ops = append(c.Ops, ops...)
	}
	if g.pct(35) { // one kind of typed read and nothing else
		var only []Op
		for _, o := range c.Ops {
			if o.K == "r" && elemSize(o.T) > 1 && o.N > 0 && o.N <= 12 && (only == nil || o.T == only[0].T && o.E == only[0].E) {
				only = append(only, o)
			}
		}
		if only != nil {
			c.Ops = only
		}
	}
	if most := pickS(g, []int{1, 2, 3, 5, 24}); len(c.Ops) > most {
		at := g.n(len(c.Ops) - most + 1)
		c.Ops = c.Ops[at : at+most]
	}
	for i := range c.Ops {
		if o := &c.Ops[i]; o.K == "grow" && o.N > 16 {
			o.N = 1 + o.N%pickS(g, []int64{4, 16, 64})
		}
	}
	n := int64(2) << g.n(11)
	c.P["n"] = n + g.in(0, n)
	c.P["calls"] = minI(12000, c.P["n"]*(1+g.in(0, 5))+g.in(0, 300))
	if g.pct(25) {
		c.P["calls"] = 12000
	}
	return c
}

func runCrowd(c *Case, r *Run) *Failure {
	n, calls := maxI(2, minI(5000, c.P["n"])), maxI(0, minI(20000, c.P["calls"]))
	r.trivial = true
	if len(c.Init) == 0 || len(c.Kinds) == 0 || len(c.Ops) == 0 {
		return nil
	}
	ims, states := make([]*Impl, n), make([]State, n)
	for k := range ims {
		s := buildAll(c.Init[k%len(c.Init)], nil)
		for _, b := range s {
			for j := 0; j < len(b) && j < 2; j++ {
				b[j] ^= byte(k >> (8 * j))
			}
		}
		ims[k] = newImpl(c.Kinds[k%len(c.Kinds)], s...)
		states[k] = ims[k].observe()
		if want := concat(s); !bytes.Equal(want, states[k].Buf) {
			return nil // another property's
		}
	}
	type kept struct {
		k    int
		o    *Op
		s    any
		vals []uint64
	}
	var outs, args []kept
	for t := int64(0); t < calls; t++ {
		k := int(t % n)
		if t >= n && t%3 == 0 {
			k = int(mix(uint64(t)) % uint64(n))
		}
		im, o := ims[k], &c.Ops[int(t+t/n)%len(c.Ops)]
		x := spec(im.traits, &states[k], o)
		if x.Undefined || !x.Ok && o.K == "grow" || o.K == "grow" && len(states[k].Buf) > 400 {
			continue
		}
		pre := im.observe()
		if d := diffState(&states[k], &pre, nil); len(d) > 0 {
			return failf(-1, "%s: buffer %d of %d changed while only others were used: %s", im.name, k, n, d[0].msg)
		}
		entering(true)
		res := im.apply(o)
		entering(false)
		r.steps++
		if im.lockHeld() {
			return nil
		}
		r.judged++
		r.trivial = false
		states[k] = im.observe()
		if res.out != nil && !im.mini && len(res.Vals) > 0 {
			outs = append(outs, kept{k, o, res.out, append([]uint64(nil), res.Vals...)})
		}
		if o.K == "w" && res.arg != nil && len(o.D) > 0 {
			args = append(args, kept{k, o, res.arg, rawBits(res.arg)})
		}
	}
	r.label("buffers alive " + sizeClass(n))
	r.label("results kept " + sizeClass(int64(len(outs))))
	for k, im := range ims {
		now := im.observe()
		if d := diffState(&states[k], &now, nil); len(d) > 0 {
			return failf(-1, "%s: buffer %d of %d changed while only others were used: %s", im.name, k, n, d[0].msg)
		}
	}
	for _, w := range outs {
		if now := rawBits(w.s); !eqU64(now, w.vals) {
			return failf(-1, "%s: the elements decoded by %v (buffer %d of %d) changed later: %s", ims[w.k].name, w.o, w.k, n, describeVals(w.vals, now))
		}
	}
	for _, w := range args {
		if now := rawBits(w.s); !eqU64(now, w.vals) {
			return failf(-1, "%s: the argument of %v (buffer %d of %d) changed later: %s", ims[w.k].name, w.o, w.k, n, describeVals(w.vals, now))
		}
	}
	return nil
}
