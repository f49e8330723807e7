package harness

import (
	"bytes"
	"fmt"
	"syscall"
)

// Buffers of more than 4 GiB: positions there do not fit 32 bits, neither as
// bytes nor as bits. The storage is a private mapping of which only a few
// pages are ever touched; calls stay inside one 256-byte window of it and all
// windows (which are congruent modulo powers of two) are compared after each
// call.

const (
	farWin  = 256
	farSize = int64(1)<<32 + 1<<16
)

var farBases = []int64{0, 1<<28 - farWin/2, 1<<29 - farWin/2, 1<<31 - farWin/2, 1<<32 - farWin/2, 1 << 32, farSize - farWin, 1<<16 - farWin}

var mapSize = farSize // what a mapping is made of where int has 64 bits

var farMem []byte
var farTried bool

func far() []byte {
	if !farTried {
		farTried = true
		const noreserve = 0x4000
		m, err := syscall.Mmap(-1, 0, int(mapSize), syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_PRIVATE|syscall.MAP_ANON|noreserve)
		if err == nil {
			farMem = m
		}
	}
	return farMem
}

// farStorage reports whether im uses mem itself: otherwise every case would
// copy gigabytes, and looking into mem would not show the contents.
func farStorage(im *Impl, mem []byte) bool {
	b := im.bytes()
	return len(b) == len(mem) && len(b) > 0 && &b[0] == &mem[0]
}

func farMode(prop string, ks []string, w weights, own owner) *mode {
	p := prof(10, 4, 45, w.with(weights{"refresh": 1}))
	return &mode{name: "far", weight: 3,
		gen: func(g g) *Case {
			k := pickS(g, ks)
			h := &hist{g: g, trs: kindTraits(k), p: p}
			content := g.bytes(farWin)
			h.s = newState(content)
			for n := 1 + g.n(p.maxOps); n > 0; n-- {
				h.step()
			}
			c := one(prop, k, []SliceSpec{{D: content}}, h.ops)
			c.P = map[string]int64{"base": farBases[g.n(len(farBases))]}
			return c
		},
		run: func(c *Case, r *Run) *Failure { return runFar(c, r, own) },
	}
}

func runFar(c *Case, r *Run, own owner) *Failure {
	mem := far()
	if mem == nil {
		r.label("no memory mapping")
		r.trivial = true
		return nil
	}
	base := c.P["base"]
	for i, b := range farBases {
		w := mem[b : b+farWin]
		for j := range w {
			w[j] = byte(i*37 + j*11 + 1)
		}
	}
	copy(mem[base:base+farWin], c.Init[0][0].D)
	im := newImpl(c.Kinds[0], mem)
	if !farStorage(im, mem) {
		farMem = nil
		r.label("storage was copied")
		r.trivial = true
		return nil
	}
	look := func() (s State, others [][]byte) {
		s = State{Buf: append(make([]byte, 0, farWin), mem[base:base+farWin]...),
			Off: im.getter("off", 0) - base, Boff: im.getter("boff", 0) - 8*base,
			Cap: im.getter("cap", 0) - (farSize - farWin), Bcap: im.getter("bcap", 0) - 8*(farSize-farWin)}
		for _, b := range farBases {
			if b >= base+farWin || b+farWin <= base {
				others = append(others, append(make([]byte, 0, farWin), mem[b:b+farWin]...))
			}
		}
		return
	}
	im.apply(&Op{K: "seek", Off: base})
	im.apply(&Op{K: "seekbit", Off: 8 * base})
	if im.lockHeld() {
		return nil
	}
	pre, rest := look()
	for i := range c.Ops {
		o := &c.Ops[i]
		tr := im.traits
		x := spec(tr, &pre, o)
		if x.Undefined || resizes(o.K) || isFill(o.K) || o.K == "poke" {
			continue
		}
		if !x.Ok {
			start, unit, limit := o.span(&pre)
			over, under := rangeOf(start, o.count(), unit, limit)
			if !isAccess(o.K) || o.K == "sbit" && o.V > 1 ||
				!(over && !under && base+farWin == farSize) && !(under && !over && base == 0) {
				continue // out of the window, not out of the buffer
			}
			if tooFar(start, o.count()) || o.count() > 1<<40 {
				continue
			}
		}
		abs := *o
		switch {
		case o.K == "after" || o.K == "afterbit":
			if o.K == "after" {
				x.Vals[0] += uint64(farSize - farWin - base)
				abs.Off += base
			} else {
				x.Vals[0] += 8 * uint64(farSize-farWin-base)
				abs.Off += 8 * base
			}
		case isBitKind(o.K) || o.K == "seekbit" && !o.Rel:
			abs.Off += 8 * base
		case isAccess(o.K) || o.K == "seek" && !o.Rel:
			abs.Off += base
		}
		if o.K == "alignbyte" && pre.Boff+8*base < 0 {
			continue
		}
		owned := own(tr, o, &x, "call")
		entering(owned)
		res := im.apply(&abs)
		entering(false)
		r.steps++
		if owned {
			r.judged++
			r.label("beyond 4 GiB or its aliases")
			r.label(o.K)
		}
		if im.lockHeld() {
			return nil
		}
		post, others := look()
		d := compare(im.kindOf, o, &pre, &x, &res, &post)
		for j := range rest {
			if !bytes.Equal(rest[j], others[j]) {
				d = append(d, diff{"buf", fmt.Sprintf("bytes far from the addressed ones changed (window %d)", j)})
			}
		}
		for _, d := range d {
			if own(tr, o, &x, d.aspect) {
				return failf(i, "%s of %d bytes: %v with positions counted from byte %d: %s (positions and sizes relative)", im.name, farSize, o, base, d.msg)
			}
		}
		if len(others) != len(rest) || res.Panicked != !x.Ok {
			return nil
		}
		pre, rest = post, others
	}
	r.trivial = r.judged == 0
	return nil
}
