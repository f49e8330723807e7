package harness

import (
	"bytes"
	"fmt"
	"reflect"
	"runtime/debug"
	"syscall"
	"unsafe"
)

// C25: calls stay inside the memory they were given.
//
// Mode "neighbours": storage, write arguments and MiniBuffer destinations are
// cut out of larger arrays holding garbage. The garbage has to survive every
// call, and the same history amid other garbage has to give the same results.
//
// Mode "guard": they lie flush against unmapped pages, so that touching a
// single byte outside faults, and in memory mapped read-only for the time of
// any call that has nothing to store there.

func garbage(salt uint64, i int) byte { return byte(mix(salt+uint64(i)) >> 13) }

// loan is a slice handed to a call, with the larger array it was cut from.
type loan struct {
	role   string // arg: only read; old: an out variable's previous slice; dst: a destination
	big    any
	lo, hi int
	snap   []uint64
}

func (l *loan) check() string {
	for i, v := range rawBits(l.big) {
		if v != l.snap[i] && (l.role != "dst" || i < l.lo || i >= l.hi) {
			what := map[string]string{"arg": "the argument", "old": "the slice the out variable held", "dst": "the destination"}[l.role]
			if i < l.lo || i >= l.hi {
				return fmt.Sprintf("element %d counted from the start of %s (%d elements), outside of it, changed from %#x to %#x", i-l.lo, what, l.hi-l.lo, l.snap[i], v)
			}
			return fmt.Sprintf("element %d of %s changed from %#x to %#x", i-l.lo, what, l.snap[i], v)
		}
	}
	return ""
}

type arena struct {
	mem, snap []byte
}

// world is one run of a history amid one kind of garbage.
type world struct {
	im     *Impl
	salt   uint64
	pre    int
	post   int
	arenas []arena
	spare  arena // capacity behind the contents where that is in no arena
	loans  []loan
	st     State
	lo, hi int // of the contents in arenas[in]
	in     int
}

func newWorld(c *Case, salt uint64) (w *world, f *Failure) {
	w = &world{salt: salt, pre: int(c.P["pre"]), post: int(c.P["post"])}
	var in [][]byte
	for k, s := range c.Init[0] {
		if s.Nil {
			in = append(in, nil)
			continue
		}
		n := len(s.D)
		mem := make([]byte, w.pre+n+len(s.Spare)+w.post)
		for i := range mem {
			mem[i] = garbage(salt+uint64(k)<<32, i)
		}
		copy(mem[w.pre:], s.D)
		in = append(in, mem[w.pre:w.pre+n:w.pre+n+len(s.Spare)])
		w.arenas = append(w.arenas, arena{mem, append([]byte(nil), mem...)})
	}
	w.im = newImpl(c.Kinds[0], in...)
	w.im.lend = w.lend
	for k, a := range w.arenas {
		if !bytes.Equal(a.mem, a.snap) {
			return w, failf(-1, "%s: creation changes the slice it is given (number %d) or the bytes around it", w.im.name, k)
		}
	}
	w.look()
	return w, nil
}

// lend cuts a slice out of a larger array.
func (w *world) lend(role, t string, d []uint64) any {
	lo := w.pre % 9
	behind := w.post % 11
	all := make([]uint64, lo+len(d)+behind)
	for i := range all {
		all[i] = maskType(t, mix(w.salt^uint64(i)*977))
	}
	copy(all[lo:], d)
	big := mkSlice(t, all)
	all = rawBits(big)
	w.loans = append(w.loans, loan{role, big, lo, lo + len(d), all})
	end := lo + len(d)
	if w.pre%2 == 0 {
		end = len(all)
	}
	return reflect.ValueOf(big).Slice3(lo, lo+len(d), end).Interface()
}

// look notes where the contents are now and what lies around them.
func (w *world) look() {
	w.st = w.im.observe()
	b := w.im.bytes()
	w.in = -1
	w.spare = arena{}
	for k := range w.arenas {
		a := &w.arenas[k]
		copy(a.snap, a.mem)
		if len(b) == 0 || len(a.mem) == 0 {
			continue
		}
		p, q := uintptr(unsafe.Pointer(&b[0])), uintptr(unsafe.Pointer(&a.mem[0]))
		if p >= q && p < q+uintptr(len(a.mem)) {
			w.in, w.lo, w.hi = k, int(p-q), int(p-q)+len(b)
		}
	}
	if w.in < 0 && cap(b) > len(b) {
		s := b[len(b):cap(b)]
		w.spare = arena{s, append([]byte(nil), s...)}
	}
}

func (w *world) check() string {
	for k, a := range w.arenas {
		for i, v := range a.mem {
			if v != a.snap[i] && !(k == w.in && i >= w.lo && i < w.hi) {
				if k == w.in {
					return fmt.Sprintf("the byte %d counted from the start of the contents (%d bytes), outside of them, changed from %#02x to %#02x", i-w.lo, w.hi-w.lo, a.snap[i], v)
				}
				return fmt.Sprintf("byte %d of a slice that is not the buffer's storage changed from %#02x to %#02x", i-w.pre, a.snap[i], v)
			}
		}
	}
	for i, v := range w.spare.mem {
		if v != w.spare.snap[i] {
			return fmt.Sprintf("the byte %d behind the contents changed from %#02x to %#02x", i, w.spare.snap[i], v)
		}
	}
	for i := range w.loans {
		if s := w.loans[i].check(); s != "" {
			return s
		}
	}
	return ""
}

var profMem = prof(14, 4, 40, ambient.with(weights{"w": 10, "r": 12, "rbits": 4, "sbits": 6, "fill": 8, "trunc": 6, "grow": 2, "rej": 3, "inv": 1}))
var profGuard = prof(14, 4, 40, ambient.with(weights{"w": 10, "r": 12, "rbit": 3, "rbits": 8, "sbits": 6, "fill": 4, "trunc": 3, "grow": 0, "reset": 0, "rej": 3, "inv": 1}))

var margins = []int64{0, 1, 2, 3, 7, 8, 9, 15, 16, 40, 64, 129}

func genNeighbours(g g) *Case {
	k := pickS(g, allKinds)
	init, ops := g.history(profMem, k)
	c := one("C25", k, init, ops)
	c.P = map[string]int64{"pre": pickS(g, margins), "post": pickS(g, margins)}
	return c
}

func genGuard(g g) *Case {
	k := pickS(g, allKinds)
	init, ops := g.history(profGuard, k)
	c := one("C25", k, init, ops)
	c.P = map[string]int64{"side": int64(g.n(2)), "args": int64(g.n(4))}
	return c
}

// judgedMem tells which calls C25 speaks about: those that leave the size alone.
func judgedMem(tr traits, o *Op, x *Expect) bool {
	return o.K != "poke" && !resizes(o.K) && (x.Ok || !tr.mini)
}

func runNeighbours(c *Case, r *Run) *Failure {
	a, f := newWorld(c, 0x1234567)
	if f != nil {
		return f
	}
	b, f := newWorld(c, 0xFEDCBA987)
	if f != nil {
		return f
	}
	moved := 0
	for i := range c.Ops {
		o := &c.Ops[i]
		tr := a.im.traits
		x := spec(tr, &a.st, o)
		if x.Undefined || len(diffState(&a.st, &b.st, nil)) > 0 || o.K == "grow" && len(a.st.Buf) > 1<<21 {
			continue
		}
		owned := judgedMem(tr, o, &x)
		var res [2]Result
		for j, w := range []*world{a, b} {
			w.loans = w.loans[:0]
			entering(owned)
			res[j] = w.im.apply(o)
			entering(false)
			if w.im.lockHeld() {
				return nil
			}
			if !owned {
				continue
			}
			at := func() string {
				return fmt.Sprintf("%s: %v at byte cursor %d, bit cursor %d, size %d", w.im.name, o, w.st.Off, w.st.Boff, len(w.st.Buf))
			}
			if s := w.check(); s != "" {
				return failf(i, "%s: %s", at(), s)
			}
			if s := res[j].TailBad + res[j].ArgBad; s != "" && x.Ok {
				return failf(i, "%s: %s", at(), s)
			}
		}
		r.steps++
		was := a.st
		a.look()
		b.look()
		if owned {
			r.judged++
			classify(r, tr, o, &x, &was)
			if isFill(o.K) || o.count() > 0 {
				moved++
				if a.in >= 0 {
					r.label("storage amid other bytes")
				}
			}
			at := fmt.Sprintf("%s: %v at byte cursor %d, bit cursor %d, size %d depends on bytes outside the contents and the arguments: ", a.im.name, o, was.Off, was.Boff, len(was.Buf))
			if res[0].Panicked != res[1].Panicked || res[0].errName(a.im.kindOf) != res[1].errName(b.im.kindOf) {
				return failf(i, "%spanicked=%v %s, or panicked=%v %s", at, res[0].Panicked, res[0].errName(a.im.kindOf), res[1].Panicked, res[1].errName(b.im.kindOf))
			}
			if !eqU64(res[0].Vals, res[1].Vals) {
				return failf(i, "%s%s", at, describeVals(res[0].Vals, res[1].Vals))
			}
			if d := diffState(&a.st, &b.st, nil); len(d) > 0 {
				return failf(i, "%s%s", at, d[0].msg)
			}
		}
	}
	r.trivial = moved == 0
	return nil
}

/* guard pages */

const regionSize = 1 << 16

// region is memory with an unmapped page on both sides.
type region struct {
	mem []byte
	ro  bool
}

var guards []*region
var guardsTried bool

func guardRegions() []*region {
	if guardsTried {
		return guards
	}
	guardsTried = true
	page := syscall.Getpagesize()
	for k := 0; k < 3; k++ {
		m, err := syscall.Mmap(-1, 0, regionSize+2*page, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_PRIVATE|syscall.MAP_ANON)
		if err != nil || syscall.Mprotect(m[:page], syscall.PROT_NONE) != nil || syscall.Mprotect(m[page+regionSize:], syscall.PROT_NONE) != nil {
			return nil
		}
		guards = append(guards, &region{mem: m[page : page+regionSize : page+regionSize]})
	}
	return guards
}

func (g *region) protect(ro bool) {
	if g.ro == ro {
		return
	}
	p := syscall.PROT_READ | syscall.PROT_WRITE
	if ro {
		p = syscall.PROT_READ
	}
	if err := syscall.Mprotect(g.mem, p); err != nil {
		panic(err)
	}
	g.ro = ro
}

// at cuts n elements of the type out of the region, flush with one end of it.
func (g *region) at(t string, d []uint64, side int64) any {
	u := int(elemSize(t))
	size := len(d) * u
	if size > len(g.mem) {
		return mkSlice(t, d)
	}
	g.protect(false)
	lo := 0
	if side == 0 {
		lo = len(g.mem) - size
	}
	var s any
	var p unsafe.Pointer
	if len(d) > 0 {
		p = unsafe.Pointer(&g.mem[lo])
	} else {
		return mkSlice(t, d)
	}
	switch t {
	case "b", "c8", "1":
		s = unsafe.Slice((*byte)(p), len(d))
	case "u16":
		s = unsafe.Slice((*uint16)(p), len(d))
	case "u32":
		s = unsafe.Slice((*uint32)(p), len(d))
	case "u64":
		s = unsafe.Slice((*uint64)(p), len(d))
	case "i16":
		s = unsafe.Slice((*int16)(p), len(d))
	case "i32":
		s = unsafe.Slice((*int32)(p), len(d))
	case "i64":
		s = unsafe.Slice((*int64)(p), len(d))
	case "f32":
		s = unsafe.Slice((*float32)(p), len(d))
	case "f64":
		s = unsafe.Slice((*float64)(p), len(d))
	}
	reflect.Copy(reflect.ValueOf(s), reflect.ValueOf(mkSlice(t, d)))
	return s
}

// faulted tells that a panic comes from touching memory.
func faulted(p any) bool {
	_, ok := p.(interface{ Addr() uintptr })
	return ok
}

func runGuard(c *Case, r *Run) (f *Failure) {
	rs := guardRegions()
	if rs == nil {
		r.label("no memory mapping")
		r.trivial = true
		return nil
	}
	defer debug.SetPanicOnFault(debug.SetPanicOnFault(true))
	defer func() {
		for _, g := range rs {
			g.protect(false)
		}
	}()
	side := c.P["side"]
	var in [][]byte
	for k, s := range c.Init[0] {
		switch {
		case s.Nil:
			in = append(in, nil)
		case k < 2 && len(s.D) <= regionSize:
			d := make([]uint64, len(s.D))
			for i, v := range s.D {
				d[i] = uint64(v)
			}
			in = append(in, rs[k].at("b", d, side).([]byte))
		default:
			in = append(in, s.build())
		}
	}
	rs[0].protect(true)
	rs[1].protect(true)
	var im *Impl
	if p := func() (p any) {
		defer func() { p = recover() }()
		entering(true)
		im = newImpl(c.Kinds[0], in...)
		entering(false)
		return
	}(); p != nil {
		if faulted(p) {
			return failf(-1, "%s: creation writes to the slices it is given or touches memory outside them: %v", c.Kinds[0], p)
		}
		entering(false)
		return nil
	}
	step := 0
	im.lend = func(role, t string, d []uint64) any {
		s := rs[2].at(t, d, (c.P["args"]+int64(step))/2%2)
		if role != "dst" {
			rs[2].protect(true)
		}
		return s
	}
	pre := im.observe()
	moved := 0
	for i := range c.Ops {
		o := &c.Ops[i]
		step = i
		if o.K == "r" && (c.P["args"]+int64(i))%2 == 0 {
			e := *o
			e.Pad = 0
			o = &e
		}
		x := spec(im.traits, &pre, o)
		if x.Undefined || o.K == "grow" || o.K == "reset" {
			continue
		}
		stores := isWriteKind(o.K) && (o.count() > 0) || isFill(o.K) || resizes(o.K) || o.K == "poke"
		if !x.Ok && !x.Partial {
			stores = false
		}
		rs[0].protect(!stores)
		rs[1].protect(!stores)
		owned := x.Ok || !im.mini
		entering(owned)
		res := im.apply(o)
		entering(false)
		for _, g := range rs {
			g.protect(false)
		}
		r.steps++
		if faulted(res.Panic) && owned {
			return failf(i, "%s: %v at byte cursor %d, bit cursor %d, size %d touches memory outside the contents and the arguments, or stores where it has nothing to store: %v", im.name, o, pre.Off, pre.Boff, len(pre.Buf), res.Panic)
		}
		if im.lockHeld() || x.Ok && res.Panicked {
			return nil
		}
		if owned {
			r.judged++
			classify(r, im.traits, o, &x, &pre)
			if isFill(o.K) || o.count() > 0 {
				moved++
			}
			if !stores {
				r.label("contents read-only during the call")
			}
		}
		if pre = im.look(o.Look, &x.Post); x.Partial && !x.Ok {
			pre = im.observe()
		}
	}
	r.trivial = moved == 0
	return nil
}
