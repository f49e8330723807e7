package harness

import (
	"bytes"
	"fmt"
	"runtime/debug"
	"sort"
	"syscall"
)

// Size changes and fills of buffers of 256 MiB to more than 4 GiB, where a
// size in bits or in bytes does not fit 32 bits. The expected contents are kept
// as runs of one byte plus exceptions. Calls: grow, truncl, truncr, reset,
// fills, one-byte writes, seeks, refresh.

const (
	hugeFull = int64(1)<<29 + 1<<20 // up to here contents are compared completely
	hugeBit  = int64(1) << 28       // 2^31 bits
)

type hugeRun struct {
	n int64
	b byte
}

type sparse struct {
	runs []hugeRun
	ex   map[int64]byte
	off  int64
	boff int64
}

func (s *sparse) size() (n int64) {
	for _, r := range s.runs {
		n += r.n
	}
	return
}

// apply gives the state after o, and whether o is one this mode can judge.
func (s *sparse) apply(o *Op) bool {
	L := s.size()
	switch o.K {
	case "grow":
		if o.N < 0 {
			return false
		}
		s.runs = append(s.runs, hugeRun{o.N, 0})
	case "truncl", "truncr":
		if o.N < 0 || o.N > L {
			return false
		}
		keepLo, keepHi := int64(0), L-o.N
		if o.K == "truncl" {
			keepLo, keepHi = o.N, L
		}
		var out []hugeRun
		at := int64(0)
		for _, r := range s.runs {
			lo, hi := maxI(at, keepLo), minI(at+r.n, keepHi)
			if lo < hi {
				out = append(out, hugeRun{hi - lo, r.b})
			}
			at += r.n
		}
		ex := map[int64]byte{}
		for p, v := range s.ex {
			if p >= keepLo && p < keepHi {
				ex[p-keepLo] = v
			}
		}
		s.runs, s.ex = out, ex
	case "reset":
		*s = sparse{ex: map[int64]byte{}}
	case "clear", "set", "flip":
		if L > hugeFull {
			return false
		}
		if o.K == "flip" {
			for i := range s.runs {
				s.runs[i].b = 0xFF - s.runs[i].b
			}
			for p, v := range s.ex {
				s.ex[p] = 0xFF - v
			}
			break
		}
		b := byte(0)
		if o.K == "set" {
			b = 0xFF
		}
		s.runs, s.ex = []hugeRun{{L, b}}, map[int64]byte{}
	case "w":
		if o.T != "1" || o.Next || o.Off < 0 || o.Off >= L || len(o.D) != 1 {
			return false
		}
		s.ex[o.Off] = byte(o.D[0])
	case "seek":
		s.off = o.Off
	case "seekbit":
		s.boff = o.Off
	case "refresh":
	default:
		return false
	}
	return true
}

func (s *sparse) at(p int64) byte {
	if v, ok := s.ex[p]; ok {
		return v
	}
	at := int64(0)
	for _, r := range s.runs {
		if at += r.n; p < at {
			return r.b
		}
	}
	return 0
}

var hugeBlocks = map[byte][]byte{}

func hugeBlock(b byte) []byte {
	if hugeBlocks[b] == nil {
		hugeBlocks[b] = bytes.Repeat([]byte{b}, 1<<18)
	}
	return hugeBlocks[b]
}

// diff compares contents; completely up to hugeFull bytes, else around the
// places something can have happened at.
func (s *sparse) diff(got []byte) string {
	L := s.size()
	bad := func(p int64) string {
		return fmt.Sprintf("byte %d is %#02x, expected %#02x (size %d)", p, got[p], s.at(p), L)
	}
	around := func(p int64) string {
		for q := maxI(0, p-40); q < p+40 && q < L; q++ {
			if got[q] != s.at(q) {
				return bad(q)
			}
		}
		return ""
	}
	var pts []int64
	for p := range s.ex {
		pts = append(pts, p)
	}
	at := int64(0)
	for _, r := range s.runs {
		pts = append(pts, at, at+r.n)
		at += r.n
	}
	for k := uint(8); k < 34; k++ {
		pts = append(pts, 1<<k)
	}
	sort.Slice(pts, func(i, j int) bool { return pts[i] < pts[j] })
	for _, p := range pts {
		if b := around(p); b != "" {
			return b
		}
	}
	if L > hugeFull {
		return ""
	}
	at = 0
	for _, r := range s.runs {
		blk := hugeBlock(r.b)
		for p := at; p < at+r.n; p += int64(len(blk)) {
			q := minI(at+r.n, p+int64(len(blk)))
			if bytes.Equal(got[p:q], blk[:q-p]) {
				continue
			}
			for i := p; i < q; i++ {
				if got[i] != s.at(i) {
					return bad(i)
				}
			}
		}
		at += r.n
	}
	return ""
}

func hugeMode(prop string, ks []string, ops []string, own owner) *mode {
	return &mode{name: "huge", solo: true,
		gen: func(g g) *Case {
			k := pickS(g, ks)
			tr := kinds[k].traits
			c := one(prop, k, nil, nil)
			c.P = map[string]int64{"start": int64(g.n(60))}
			if g.pct(60) && tr.ver == 3 || g.pct(35) {
				c.P["start"] = pickS(g, []int64{hugeBit, hugeBit, 2 * hugeBit, 8 * hugeBit, 16 * hugeBit}) + g.in(-9, 9)
			}
			s := &sparse{runs: []hugeRun{{c.P["start"], 0}}, ex: map[int64]byte{}}
			emit := func(o Op) {
				if !tr.supports(&o) || !hugeAllowed(s, c, &o) || !s.apply(&o) {
					return
				}
				c.Ops = append(c.Ops, o)
			}
			write := func() {
				if L := s.size(); L > 0 {
					emit(Op{K: "w", T: "1", Off: pickS(g, []int64{0, L - 1, minI(L-1, g.in(0, 70)), maxI(0, L-1-g.in(0, 70)), L / 2, minI(L-1, hugeBit), minI(L-1, 2*hugeBit)}), D: []uint64{uint64(1 + g.n(255))}})
				}
			}
			for i := g.n(4); i > 0; i-- {
				write()
			}
			for n := 1 + g.n(4); n > 0; n-- {
				L := s.size()
				switch op := pickS(g, ops); op {
				case "grow":
					if L < 1<<20 {
						emit(Op{K: "grow", N: pickS(g, []int64{hugeBit, hugeBit, hugeBit, hugeBit, 2 * hugeBit, 2 * hugeBit, 8 * hugeBit, 16 * hugeBit}) + g.in(-9, 9)})
					} else {
						emit(Op{K: "grow", N: g.in(0, 5000)})
					}
				case "truncl", "truncr":
					t := pickS(g, []int64{0, 1, 7, L / 2, L, L - 1, L - hugeBit, hugeBit, 8 * hugeBit, 16 * hugeBit}) + g.in(-3, 3)
					emit(Op{K: op, N: maxI(0, minI(L, t))})
				case "seek":
					emit(Op{K: op, Off: g.in(0, 1<<33)})
				case "seekbit":
					emit(Op{K: op, Off: g.in(0, 1<<36)})
				default:
					emit(Op{K: op})
				}
				if g.pct(40) {
					write()
				}
			}
			return c
		},
		run: func(c *Case, r *Run) *Failure { return runHuge(c, r, own) },
	}
}

// hugeAllowed keeps memory and time within bounds: what a growth copies or
// clears stays below about 1 GiB, except for one growth from small.
func hugeAllowed(s *sparse, c *Case, o *Op) bool {
	if o.K != "grow" {
		return true
	}
	L := s.size()
	if L+o.N <= hugeFull {
		return L == c.P["start"] || L < hugeFull/2 || o.N < 1<<16
	}
	if L > 1<<20 {
		return false
	}
	for i := range c.Ops {
		if resizes(c.Ops[i].K) {
			return false
		}
	}
	return c.P["start"] <= 1<<20
}

func runHuge(c *Case, r *Run, own owner) *Failure {
	r.trivial = true
	name := c.Kinds[0]
	start := c.P["start"]
	var store []byte
	if start > 1<<20 {
		mem := far()
		if mem == nil || start > int64(len(mem)) {
			r.label("no memory mapping")
			return nil
		}
		const dontneed = 4
		if err := syscall.Madvise(mem, dontneed); err != nil {
			r.label("no memory mapping")
			return nil
		}
		defer syscall.Madvise(mem, dontneed)
		store = mem[:start:start]
	} else {
		store = make([]byte, start)
	}
	defer debug.FreeOSMemory()
	im := newImpl(name, store)
	if start > 1<<20 && !farStorage(im, store) {
		farMem = nil
		r.label("storage was copied")
		return nil
	}
	s := &sparse{runs: []hugeRun{{start, 0}}, ex: map[int64]byte{}}
	for i := range c.Ops {
		o := &c.Ops[i]
		if !im.traits.supports(o) || !hugeAllowed(s, &Case{P: c.P, Ops: c.Ops[:i]}, o) || !s.apply(o) {
			continue // in a cut-down case
		}
		x := Expect{Ok: true}
		owned := own(im.traits, o, &x, "call")
		entering(owned)
		res := im.apply(o)
		entering(false)
		r.steps++
		L := s.size()
		if owned {
			r.judged++
			r.label(o.K)
			switch {
			case L >= 16*hugeBit:
				r.label("4 GiB or more afterwards")
			case L >= hugeBit:
				r.label("256 MiB or more afterwards")
			default:
				r.label("less than 256 MiB afterwards")
			}
		}
		if im.lockHeld() {
			return nil
		}
		var d []diff
		if res.Panicked {
			d = append(d, diff{"outcome", "panicked with " + res.errName(im.kindOf)})
		} else {
			b := im.bytes()
			if int64(len(b)) != L {
				d = append(d, diff{"len", fmt.Sprintf("contents are %d bytes long, expected %d", len(b), L)})
			} else if m := s.diff(b); m != "" {
				d = append(d, diff{"buf", m})
			}
			for _, q := range []struct {
				a string
				v int64
			}{{"off", s.off}, {"boff", s.boff}, {"cap", int64(len(b))}, {"bcap", 8 * int64(len(b))}} {
				if got := im.getter(q.a, -7); got != q.v {
					d = append(d, diff{q.a, fmt.Sprintf("%s is %d, expected %d", map[string]string{"off": "byte cursor", "boff": "bit cursor", "cap": "reported byte size", "bcap": "reported bit size"}[q.a], got, q.v)})
				}
			}
		}
		for _, d := range d {
			if own(im.traits, o, &x, d.aspect) {
				return failf(i, "%s created with %d bytes: %v: %s", name, start, o, d.msg)
			}
		}
		if len(d) > 0 {
			return nil
		}
	}
	r.trivial = r.judged == 0
	return nil
}
