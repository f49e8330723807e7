package harness

import (
	"bytes"
	"fmt"
	"reflect"
)

func prof(maxOps, zero, next int, w weights) *profile {
	return &profile{w: w.table(), maxOps: maxOps, zero: zero, next: next}
}

// what other calls surround the ones a property is about
var ambient = weights{"w": 6, "r": 2, "rbit": 1, "sbit": 2, "fbit": 2, "rbits": 2, "sbits": 3, "fill": 1, "seek": 3, "seekbit": 3, "align": 2, "after": 1, "grow": 3, "trunc": 2, "reset": 1, "refresh": 1, "poke": 1}

func one(prop, kind string, init []SliceSpec, ops []Op) *Case {
	return &Case{Prop: prop, Kinds: []string{kind}, Init: [][]SliceSpec{init}, Ops: ops}
}

// histMode checks calls one by one against the specification.
func histMode(prop string, ks []string, p *profile, own owner) *mode {
	return &mode{name: "history", weight: 100,
		gen: func(g g) *Case {
			k := pickS(g, ks)
			init, ops := g.history(p, k)
			c := one(prop, k, init, ops)
			c.Mode = "history"
			if g.n(1024) == 1023 {
				g.lasting(c)
			}
			return c
		},
		run: func(c *Case, r *Run) *Failure { return runHistory(c, r, own) },
	}
}

// lasting makes a history short and makes it many times over, its
// cursor-relative calls from the same place each time.
func (g g) lasting(c *Case) {
	s := newState(concat(buildAll(c.Init[0], c.Back)))
	if len(s.Buf) > 700 {
		return
	}
	repeat := pickS(g, []int64{40, 130, 300, 300, 1100, 1100, 5000, 20000})
	most := map[bool]int{true: 6, false: 2}[repeat <= 1100]
	var ops []Op
	for i := range c.Ops {
		o := c.Ops[i]
		x := spec(kinds[c.Kinds[0]].traits, &s, &o)
		if i < most && !x.Undefined {
			if o.Look = 0; o.K == "grow" {
				o.N = minI(o.N, 3)
				repeat = minI(repeat, 5000)
			}
			if o.Next {
				if isBitKind(o.K) {
					ops = append(ops, Op{K: "seekbit", Off: s.Boff})
				} else {
					ops = append(ops, Op{K: "seek", Off: s.Off})
				}
			}
			if o.K != "truncl" && o.K != "truncr" && o.K != "reset" || g.pct(30) {
				ops = append(ops, o)
			}
		}
		if x.Ok {
			s = x.Post
		}
	}
	if len(ops) == 0 || len(s.Buf) > 1500 {
		return
	}
	if c.P == nil {
		c.P = map[string]int64{}
	}
	c.Ops, c.P["repeat"] = ops, repeat
}

func ownCalls(calls func(tr traits, o *Op, x *Expect) bool, aspects ...string) owner {
	m := map[string]bool{"call": true}
	for _, a := range aspects {
		m[a] = true
	}
	return func(tr traits, o *Op, x *Expect, a string) bool { return m[a] && calls(tr, o, x) }
}

const ruleHist = "One case is a buffer of a generated kind, initial slices (sizes 0..5000, one in a thousand up to 400 KB, spare capacity holding garbage) and a generated sequence of calls, each judged against an independent reference semantics from the state the buffer is actually in. Mode 'far': calls around multiples of 2^28..2^32 in a mapped buffer of more than 4 GiB. Non-trivial: at least one executed call is one this property speaks about; distinct by a 64-bit hash of the whole case. "

const ruleHuge = "Mode 'huge': size changes, fills and one-byte writes on buffers of 256 MiB to more than 4 GiB (contents compared completely up to 513 MiB, above that around every place of interest). "

func init() {
	add := func(id, rule string, ms ...*mode) *property {
		p := &property{id: id, modes: ms, rule: rule}
		for _, m := range ms {
			if m.weight == 0 {
				m.weight = 100
			}
		}
		properties[id] = p
		return p
	}

	own01 := ownCalls(func(tr traits, o *Op, x *Expect) bool { return o.K == "w" && x.Ok && len(o.D) > 0 }, "outcome", "buf", "len")
	add("C01", ruleHist+"Spoken about: in-range writes of at least one element.",
		histMode("C01", allKinds, prof(9, 2, 40, ambient.with(weights{"rej": 2, "inv": 1, "w": 40})),
			own01),
		farMode("C01", allKinds, weights{"w": 20, "seek": 3}, own01))

	own02 := ownCalls(func(tr traits, o *Op, x *Expect) bool { return o.K == "r" && x.Ok && o.count() > 0 }, "outcome", "vals", "tail", "buf", "len")
	add("C02", ruleHist+"Spoken about: in-range reads of at least one element.",
		histMode("C02", allKinds, prof(9, 2, 40, ambient.with(weights{"rej": 2, "inv": 1, "r": 40})),
			own02),
		farMode("C02", allKinds, weights{"r": 20, "w": 3, "seek": 3}, own02))

	own03 := ownCalls(func(tr traits, o *Op, x *Expect) bool { return any3(o.K, "rbit", "sbit", "fbit") && x.Ok }, "outcome", "vals", "buf", "len")
	add("C03", ruleHist+"Spoken about: in-range single-bit reads, sets, clears and flips.",
		histMode("C03", allKinds, prof(16, 2, 40, ambient.with(weights{"rej": 2, "inv": 1, "rbit": 14, "sbit": 20, "fbit": 16})),
			own03),
		farMode("C03", allKinds, weights{"rbit": 10, "sbit": 10, "fbit": 10, "seekbit": 3}, own03))

	own04 := ownCalls(func(tr traits, o *Op, x *Expect) bool { return any3(o.K, "rbits", "sbits") && x.Ok }, "outcome", "vals", "buf", "len")
	add("C04", ruleHist+"Spoken about: in-range bit-field reads and sets of 0 to 64 bits; a set is followed by a read of the same field half of the time.",
		histMode("C04", allKinds, prof(14, 4, 40, ambient.with(weights{"rej": 2, "inv": 1, "rbits": 25, "sbits": 25})),
			own04),
		farMode("C04", allKinds, weights{"rbits": 10, "sbits": 10, "seekbit": 3}, own04))

	own05 := ownCalls(func(tr traits, o *Op, x *Expect) bool { return isFill(o.K) }, "outcome", "buf", "len", "off", "boff", "cap", "bcap")
	add("C05", ruleHist+ruleHuge+"Spoken about: clear-all, set-all and flip-all.",
		histMode("C05", allKinds, prof(10, 2, 40, ambient.with(weights{"rej": 2, "inv": 1, "fill": 25, "reset": 3, "trunc": 4})),
			own05),
		hugeMode("C05", allKinds, []string{"clear", "set", "set", "flip", "flip", "grow", "truncl", "truncr", "seek", "seekbit"}, own05))

	add("C06", ruleHist+"Spoken about: in-range reads, writes and bit calls; each cursor-relative one is also compared with its explicit-offset counterpart on a copy of the buffer.",
		&mode{name: "history", gen: histMode("C06", allKinds, prof(14, 4, 75, ambient.with(weights{"rej": 2, "inv": 1, "w": 12, "r": 10, "rbit": 6, "sbit": 5, "fbit": 5, "rbits": 6, "sbits": 6})), nil).gen, run: runC06},
		farMode("C06", allKinds, weights{"w": 8, "r": 8, "rbit": 4, "sbit": 4, "fbit": 4, "rbits": 6, "sbits": 6, "seek": 3, "seekbit": 3}, ownCursors))

	own07 := ownCalls(func(tr traits, o *Op, x *Expect) bool {
		return any3(o.K, "seek", "seekbit", "alignbit", "alignbyte", "after", "afterbit")
	}, "outcome", "vals", "buf", "len", "off", "boff", "cap", "bcap")
	add("C07", ruleHist+"Spoken about: seeks, aligns and 'after' queries.",
		histMode("C07", allKinds, prof(18, 2, 60, ambient.with(weights{"rej": 2, "inv": 1, "seek": 14, "seekbit": 14, "align": 16, "after": 16})),
			own07),
		farMode("C07", allKinds, weights{"seek": 8, "seekbit": 8, "align": 10, "after": 16}, own07))

	own08 := ownCalls(func(tr traits, o *Op, x *Expect) bool {
		return isAccess(o.K) && o.count() > 0 && !(o.K == "sbit" && o.V > 1)
	}, "outcome", "noreject", "errval")
	c08 := histMode("C08", bufKinds, prof(12, 2, 40, ambient.with(weights{"rej": 40, "r": 6})), own08)
	run08 := c08.run
	c08.run = func(c *Case, r *Run) *Failure {
		if f := distinctErrors(kinds[c.Kinds[0]]); f != nil {
			return f
		}
		return run08(c, r)
	}
	add("C08", ruleHist+"Spoken about: accesses of at least one element or bit on a Buffer, in range and out of range.", c08,
		farMode("C08", bufKinds, weights{"w": 4, "r": 4, "rbits": 2, "sbits": 2, "rbit": 1, "sbit": 1, "fbit": 1, "rej": 30, "seek": 2, "seekbit": 2}, own08))

	ownRejected := ownCalls(func(tr traits, o *Op, x *Expect) bool { return !tr.mini && !x.Ok }, "lock", "buf", "len", "off", "boff", "cap", "bcap")
	add("C09", ruleHist+"Spoken about: calls on a Buffer that are refused (out of range or invalid arguments). Mode 'without': the same history with the refused calls left out has to give the other calls the same results.",
		histMode("C09", bufKinds, prof(12, 2, 40, ambient.with(weights{"rej": 30, "inv": 14})), ownRejected),
		&mode{name: "without", weight: 60,
			gen: histMode("C09", bufKinds, prof(14, 2, 40, ambient.with(weights{"rej": 20, "inv": 10})), nil).gen, run: runWithout})

	add("C10", ruleHist+"Spoken about: calls with an invalid bit value, integer size, byte count or data type, and oversized truncations.",
		histMode("C10", []string{"v1.Buffer", "v1.MiniBuffer", "v2.Buffer", "v2.MiniBuffer", "v3.Buffer"}, prof(12, 2, 40, ambient.with(weights{"inv": 40})),
			ownCalls(func(tr traits, o *Op, x *Expect) bool {
				switch o.K {
				case "sbit":
					return o.V > 1 && !x.Ok && len(x.Errs) == 1 && x.Errs[0] == "InvalidBit"
				case "rbad", "wbad", "wmis":
					return true
				case "grow", "truncl", "truncr":
					return !x.Ok
				}
				return false
			}, "noreject", "errval", "buf", "len", "off", "boff", "cap", "bcap")))

	own11 := ownCalls(func(tr traits, o *Op, x *Expect) bool {
		return any3(o.K, "grow", "truncl", "truncr", "reset") && x.Ok
	}, "outcome", "buf", "len", "off", "boff")
	hugeOps := []string{"grow", "grow", "truncl", "truncr", "truncl", "truncr", "reset", "set", "flip", "seek", "seekbit", "refresh"}
	add("C11", ruleHist+ruleHuge+"Spoken about: growing by n >= 0, truncating within the size, resetting.",
		histMode("C11", allKinds, prof(14, 2, 40, ambient.with(weights{"rej": 2, "inv": 1, "grow": 30, "trunc": 20, "reset": 6, "w": 10, "sbits": 4, "fill": 4, "poke": 4})),
			own11),
		hugeMode("C11", allKinds, hugeOps, own11))

	add("C12", ruleHist+ruleHuge+"Spoken about: every call (sizes compared after it), non-trivial only when the history changes the size or has a refused call.",
		&mode{name: "history", gen: histMode("C12", allKinds, prof(14, 4, 40, ambient.with(weights{"grow": 12, "trunc": 12, "reset": 5, "refresh": 14, "rej": 6, "inv": 5})), nil).gen, run: runC12},
		farMode("C12", allKinds, weights{"w": 3, "r": 3, "seek": 2, "seekbit": 2, "align": 1, "rbits": 1, "sbits": 1, "refresh": 6}, func(tr traits, o *Op, x *Expect, a string) bool {
			return a == "call" && o.K == "refresh" || a == "cap" || a == "bcap"
		}),
		hugeMode("C12", allKinds, hugeOps, func(tr traits, o *Op, x *Expect, a string) bool {
			return a == "call" || a == "cap" || a == "bcap"
		}))

	add("C15", ruleHist+"Spoken about: requests for zero bytes, elements or bits, growing and truncating by zero, fills of an empty buffer.",
		histMode("C15", allKinds, prof(12, 30, 40, ambient.with(weights{"zero": 50, "reset": 3, "trunc": 4})),
			ownCalls(func(tr traits, o *Op, x *Expect) bool {
				if !x.Ok {
					return false
				}
				switch o.K {
				case "w", "r", "rbits", "sbits":
					return o.count() == 0
				case "grow", "truncl", "truncr":
					return o.N == 0
				case "clear", "set", "flip":
					return len(x.Post.Buf) == 0
				}
				return false
			}, "outcome", "vals", "tail", "arg", "lock", "buf", "len", "off", "boff", "cap", "bcap")))

	add("C13", "One case is 0 to 5 initial slices (nil, empty, with spare capacity, some overlapping in one backing array) and a history of calls with pokes through the exposed slice. Checked: initial contents and cursors, slices untouched by creation and (two or more) by later calls and independent of later changes to them, and a slice obtained from the buffer stays its live storage until the next resize. Non-trivial: at least one slice; distinct by hash of the case.",
		&mode{name: "construct", gen: genC13, run: runC13})

	add("C14", "Mode 'interleave': 2 to 3 buffers of any kinds, one generated history each, run alone and interleaved; results, panics and states have to agree call by call. Mode 'copies': every written argument is overwritten after the call and every decoded slice is overwritten or kept to the end while the history goes on. Non-trivial: at least two buffers with calls / at least one write or typed read; distinct by hash of the case.",
		&mode{name: "interleave", gen: genInterleave, run: runInterleave},
		&mode{name: "copies", gen: histMode("C14", allKinds, prof(12, 3, 40, ambient.with(weights{"rej": 1, "inv": 1, "w": 16, "r": 20})), nil).gen, run: runCopies})

	add("C16", "One case is a group of types (all six, the pair of one version, the three Buffers, v2 and v3), one initial content and a history of in-range calls that all of them have; results, contents, sizes and cursors have to agree call by call. Non-trivial: at least two calls; distinct by hash of the case.",
		&mode{name: "differential", gen: genC16, run: runC16})

	add("C20", "One case is a MiniBuffer and a history; it runs with three different prior contents of every out variable and destination slice (one run keeps passing the same variables) and the results have to agree call by call; explicit-position reads are repeated. Non-trivial: at least one call stores through an out pointer; distinct by hash of the case.",
		&mode{name: "twins", gen: histMode("C20", miniKinds, prof(12, 4, 40, ambient.with(weights{"r": 20, "rbit": 8, "rbits": 14, "after": 8})), nil).gen, run: runC20})

	add("C25", "Mode 'neighbours': storage, write arguments and MiniBuffer destinations are cut out of larger arrays of garbage; after every call that leaves the size alone the garbage is as before, and the same history amid other garbage gives the same results and states. Mode 'guard': they lie flush against unmapped pages, in memory mapped read-only for the time of every call that has nothing to store there; no call may fault. Non-trivial: at least one fill or access of at least one element or bit; distinct by hash of the case.",
		&mode{name: "neighbours", gen: genNeighbours, run: runNeighbours},
		&mode{name: "guard", gen: genGuard, run: runGuard})

	add("C26", "Mode 'large': a buffer over 64 MiB of untouched memory and a history of small accesses anywhere in it; the memory each call allocates is compared with what it is asked to move, and the pages of the storage it brought into memory with those it is to access. Mode 'again': a history of up to 12 calls made tens of thousands of times; memory in use may not keep growing and no goroutine may remain. Non-trivial: at least one judged call; distinct by hash of the case.",
		&mode{name: "large", weight: 150, gen: genLarge, run: runLarge},
		&mode{name: "again", weight: 1, gen: genAgain, run: runAgain})

	defer initGen()
	initRegen()
	defer initConc()
	for id, p := range properties {
		for _, m := range p.modes {
			gen, name := m.gen, m.name
			m.gen = func(g g) *Case {
				c := gen(g)
				c.Prop, c.Mode = id, name
				return c
			}
		}
	}
}

func distinctErrors(k *kindOf) *Failure {
	for i, a := range errOrder {
		ea, ok := k.errs[a]
		if !ok {
			continue
		}
		e, isErr := ea.(error)
		if !isErr || e.Error() == "" {
			return failf(-1, "%s: exported error %s is not an error with a message", k.name, a)
		}
		for _, b := range errOrder[i+1:] {
			if eb, ok := k.errs[b]; ok && eb == ea {
				return failf(-1, "%s: exported errors %s and %s are equal", k.name, a, b)
			}
		}
	}
	return nil
}

func explicitOf(o *Op, s *State) Op {
	e := *o
	e.Next = false
	e.Off = s.Off
	if isBitKind(o.K) {
		e.Off = s.Boff
	}
	return e
}

var ownCursors = ownCalls(func(tr traits, o *Op, x *Expect) bool { return isAccess(o.K) && x.Ok }, "off", "boff")

// ownNext also owns what a cursor-relative call does, if the explicit-position
// call does as specified on a buffer of its own.
func ownNext(tr traits, o *Op, x *Expect, a string) bool {
	if ownCursors(tr, o, x, a) {
		return true
	}
	if a == "call" || !o.Next || !isAccess(o.K) || !x.Ok || !any3(a, "outcome", "vals", "tail", "buf", "len") {
		return false
	}
	pre := &judging.pre
	twin := newImpl(judging.im.name, append(make([]byte, 0, len(pre.Buf)), pre.Buf...))
	e := explicitOf(o, pre)
	one := newState(append([]byte(nil), pre.Buf...))
	y := spec(tr, &one, &e)
	if !y.Ok {
		return false
	}
	res := twin.apply(&e)
	if twin.lockHeld() {
		return false
	}
	post := twin.observe()
	return len(compare(twin.kindOf, &e, &one, &y, &res, &post)) == 0
}

func runC06(c *Case, r *Run) *Failure {
	own := ownCursors
	if len(c.Ops) > 0 && c.repeats() == 1 {
		own = ownNext
	}
	st := caseStepper(c, own, r).blaming(c)
	for j := range int(c.repeats()) * len(c.Ops) {
		i := j % len(c.Ops)
		o := &c.Ops[i]
		pre := st.pre
		if f := st.do(i, o); f != nil {
			return f
		}
		if !st.made || st.dead || !isAccess(o.K) || !o.Next || !st.x.Ok || o.Look != 0 || st.again != nil && st.seen != len(st.log) {
			continue
		}
		twin := newImpl(c.Kinds[0], append(make([]byte, 0, len(pre.Buf)), pre.Buf...))
		e := explicitOf(o, &pre)
		tr := twin.apply(&e)
		if twin.lockHeld() {
			continue
		}
		where := fmt.Sprintf("%s: %v at byte cursor %d, bit cursor %d", st.im.name, o, pre.Off, pre.Boff)
		if tr.Panicked != st.res.Panicked {
			return failf(i, "%s: panicked=%v (%s), but %v: panicked=%v (%s)", where, st.res.Panicked, st.res.errName(st.im.kindOf), &e, tr.Panicked, tr.errName(st.im.kindOf))
		}
		if tr.Panicked {
			continue
		}
		if !eqU64(tr.Vals, st.res.Vals) {
			return failf(i, "%s: differs from %v: %s", where, &e, describeVals(tr.Vals, st.res.Vals))
		}
		if got := twin.bytes(); !bytes.Equal(got, st.pre.Buf) {
			return failf(i, "%s: contents afterwards differ from those after %v", where, &e)
		}
	}
	r.trivial = r.labels["cursor-relative"] == 0
	return st.settle()
}

func resizes(k string) bool { return any3(k, "grow", "truncl", "truncr", "reset") }

func runC12(c *Case, r *Run) *Failure {
	own := func(tr traits, o *Op, x *Expect, a string) bool { return a == "call" }
	st := caseStepper(c, own, r)
	im := st.im
	interesting := false
	check := func(i int, after string) *Failure {
		s := &st.pre
		if s.Cap != int64(len(s.Buf)) {
			return failf(i, "%s: after %s the reported byte size is %d but the exposed slice has %d bytes", im.name, after, s.Cap, len(s.Buf))
		}
		if s.Bcap != 8*s.Cap {
			return failf(i, "%s: after %s the reported bit size is %d, the byte size %d", im.name, after, s.Bcap, s.Cap)
		}
		for _, n := range []string{"cap", "bcap", "off", "boff"} {
			a, b := im.getter(n, 0), im.getter(n, -12345)
			if a != b {
				return failf(i, "%s: after %s getter %s answered %d, then %d", im.name, after, n, a, b)
			}
		}
		if b := im.bytes(); !bytes.Equal(b, s.Buf) || im.lockHeld() {
			return failf(i, "%s: after %s a second look at the contents gave another answer", im.name, after)
		}
		return nil
	}
	if len(c.Ops) == 0 || c.Ops[0].Look != 1 {
		if f := check(-1, "creation"); f != nil {
			return f
		}
	}
	unseen, known := false, len(st.pre.Buf) // known: the size nobody has changed since, or -1
	for j := range int(c.repeats()) * len(c.Ops) {
		i := j % len(c.Ops)
		o := &c.Ops[i]
		pre := st.pre
		if st.do(i, o); !st.made {
			continue
		}
		if st.dead {
			break
		}
		if st.x.Ok && st.res.Panicked || !st.x.Ok && !st.res.Panicked {
			continue // another property's violation
		}
		if st.res.Panicked || resizes(o.K) {
			interesting = true
		}
		if resizes(o.K) && !st.res.Panicked {
			known = -1
		}
		if o.Look != 0 {
			unseen = true
			if o.Look == 2 && st.pre.Cap == st.x.Post.Cap || o.Look == 3 && st.pre.Bcap == st.x.Post.Bcap || o.Look > 3 || o.Look == 1 {
				continue
			}
			if b := im.bytes(); len(b) == len(st.pre.Buf) { // as it should be
				return failf(i, "%s: after %v the reported sizes are %d and %d but the exposed slice has %d bytes", im.name, o, st.pre.Cap, st.pre.Bcap, len(b))
			}
			st.pre = im.observe()
			continue
		}
		if known >= 0 && known != len(st.pre.Buf) {
			return failf(i, "%s: %v, or a call before it that changes no size, changed the size from %d to %d", im.name, o, known, len(st.pre.Buf))
		}
		known = len(st.pre.Buf)
		if unseen {
			pre, unseen = st.pre, false
		}
		if f := check(i, o.String()); f != nil {
			return f
		}
		if (!resizes(o.K) || st.res.Panicked) && len(st.pre.Buf) != len(pre.Buf) {
			return failf(i, "%s: %v changed the size from %d to %d", im.name, o, len(pre.Buf), len(st.pre.Buf))
		}
		if o.K == "refresh" {
			if d := diffState(&pre, &st.pre, nil); len(d) > 0 {
				return failf(i, "%s: refresh: %s", im.name, d[0].msg)
			}
		}
	}
	r.trivial = !interesting
	if unseen && !st.dead {
		st.pre = im.observe()
		return check(len(c.Ops)-1, "the last call")
	}
	return nil
}

// runWithout compares a history on a Buffer with the same history minus its
// refused calls.
func runWithout(c *Case, r *Run) *Failure {
	none := func(tr traits, o *Op, x *Expect, a string) bool { return a == "call" && !x.Ok }
	full, less := caseStepper(c, none, r), caseStepper(c, none, &Run{labels: map[string]int{}})
	refused := false
	for i := range c.Ops {
		o := &c.Ops[i]
		x := spec(full.im.traits, &full.pre, o)
		if x.Undefined || x.Partial && !x.Ok {
			continue
		}
		full.do(i, o)
		if full.res.Panicked != !x.Ok {
			return nil // another property's violation
		}
		if full.dead {
			if !x.Ok {
				return failf(i, "%s: %v: the buffer's lock is still held after the refused call", full.im.name, o)
			}
			return nil
		}
		if !x.Ok {
			refused = true
			less.pre = less.im.look(o.Look, &less.pre)
			continue
		}
		less.do(i, o)
		if less.dead || !less.made {
			return nil
		}
		if refused {
			if less.res.Panicked {
				return nil
			}
			if !eqU64(full.res.Vals, less.res.Vals) {
				return failf(i, "%s: %v gives another result when refused calls came before it: %s", full.im.name, o, describeVals(less.res.Vals, full.res.Vals))
			}
			if d := diffState(&less.pre, &full.pre, nil); len(d) > 0 {
				return failf(i, "%s: after %v, with refused calls before it: %s", full.im.name, o, d[0].msg)
			}
		}
	}
	r.trivial = !refused
	if refused {
		a, b := less.im.observe(), full.im.observe()
		if d := diffState(&a, &b, nil); len(d) > 0 {
			return failf(len(c.Ops)-1, "%s: in the end, with refused calls among the others: %s", full.im.name, d[0].msg)
		}
	}
	return nil
}

/* C13 */

var profC13 = prof(8, 3, 40, ambient.with(weights{"rej": 1, "inv": 1, "poke": 12}))

func genC13(g g) *Case {
	k := pickS(g, allKinds)
	n := g.n(6)
	if g.pct(3) {
		n = 6 + g.n(60)
		if v, ok := g.lit(300); ok && g.pct(40) {
			n = int(v)
		}
	}
	c := &Case{Kinds: []string{k}}
	var in []SliceSpec
	if n >= 2 && g.pct(45) { // slices of one backing array
		c.Back = g.bytes(4 + g.n(60))
		for i := 0; i < n; i++ {
			lo := g.n(len(c.Back) + 1)
			m := g.n(len(c.Back) - lo + 1)
			sp := g.n(len(c.Back) - lo - m + 1)
			in = append(in, SliceSpec{D: append([]byte(nil), c.Back[lo:lo+m]...), Spare: make([]byte, sp), Ov: lo + 1})
		}
	} else {
		for i := 0; i < n; i++ {
			m := g.size(0)
			if n > 6 {
				m = g.n(20)
			}
			s := SliceSpec{D: g.bytes(m)}
			if m == 0 && g.pct(50) {
				s.Nil = true
			} else if g.pct(60) {
				s.Spare = g.bytes(1 + g.n(40))
			}
			in = append(in, s)
		}
	}
	c.Init = [][]SliceSpec{in}
	var content []byte
	for _, s := range in {
		content = append(content, s.D...)
	}
	c.Ops = g.historyOn(profC13, content, k)
	return c
}

func runC13(c *Case, r *Run) *Failure {
	back := append([]byte(nil), c.Back...)
	in := buildAll(c.Init[0], back)
	want := concat(in)
	before := make([][]byte, len(in))
	for i := range in {
		before[i] = append([]byte(nil), in[i]...)
	}
	same := func(when string) *Failure {
		for i := range in {
			if !bytes.Equal(in[i], before[i]) {
				return failf(-1, "%s: slice %d of %d changed %s", c.Kinds[0], i, len(in), when)
			}
		}
		return nil
	}
	entering(true)
	own := func(tr traits, o *Op, x *Expect, a string) bool { return false }
	st := newStepper(c.Kinds[0], in, own, r)
	entering(false)
	im := st.im
	fresh := true // view is the current storage
	r.judged++
	r.label(fmt.Sprintf("%d slices", len(in)))
	if !bytes.Equal(st.pre.Buf, want) {
		return failf(-1, "%s: created from %d slices holding %d bytes, contents differ from their concatenation (got %d bytes)", c.Kinds[0], len(in), len(want), len(st.pre.Buf))
	}
	if st.pre.Off != 0 || st.pre.Boff != 0 {
		return failf(-1, "%s: new buffer has cursors %d and %d", c.Kinds[0], st.pre.Off, st.pre.Boff)
	}
	if f := same("when the buffer was created"); f != nil {
		return f
	}
	view := im.bytes()
	for i := range c.Ops {
		o := &c.Ops[i]
		if st.dead {
			return nil
		}
		pre := st.pre
		if o.K == "poke" {
			if !fresh {
				view, fresh = im.bytes(), true
			}
			if o.Off < 0 || o.Off >= int64(len(view)) {
				continue
			}
			if o.Look != 0 { // one read before and the same after, and nothing else
				around := readsAround(im.traits, o.Off, int64(len(view)), o.V)
				e := &around[int(mix(o.V^uint64(o.Off)))&0xFFFF%len(around)]
				now := newState(append([]byte(nil), view...))
				x := spec(im.traits, &now, e)
				if x.Undefined || !x.Ok {
					continue
				}
				b := im.apply(e)
				if im.lockHeld() {
					return nil
				}
				view[o.Off] = byte(o.V)
				r.judged++
				now = newState(append([]byte(nil), view...))
				st.pre.Buf = now.Buf
				if b.Panicked || !eqU64(b.Vals, x.Vals) {
					continue
				}
				x = spec(im.traits, &now, e)
				b = im.apply(e)
				if b.Panicked || !eqU64(b.Vals, x.Vals) {
					return failf(i, "%s: byte %d set through a slice exposed before is not seen by %v", im.name, o.Off, e)
				}
				continue
			}
			all := Op{K: "r", T: "b", N: int64(len(view))}
			a := im.apply(&all)
			if im.lockHeld() {
				return nil
			}
			saw := !a.Panicked && eqU64(a.Vals, rawBits(view))
			// and through other reads that cover the byte
			around := readsAround(im.traits, o.Off, int64(len(view)), o.V)
			right := make([]bool, len(around))
			for j := range around {
				now := newState(append([]byte(nil), view...))
				x := spec(im.traits, &now, &around[j])
				if x.Undefined || !x.Ok {
					continue
				}
				b := im.apply(&around[j])
				if im.lockHeld() {
					return nil
				}
				right[j] = !b.Panicked && eqU64(b.Vals, x.Vals)
			}
			view[o.Off] = byte(o.V)
			r.judged++
			if saw && o.V%3 != 0 { // before anybody asks for the contents again
				a = im.apply(&all)
				if a.Panicked || !eqU64(a.Vals, rawBits(view)) {
					return failf(i, "%s: byte %d set through the exposed slice is not seen by a read", im.name, o.Off)
				}
			}
			st.pre = im.observe()
			if !bytes.Equal(st.pre.Buf, view) {
				return failf(i, "%s: byte %d set through the exposed slice is not in the contents", im.name, o.Off)
			}
			if saw {
				a = im.apply(&all)
				if a.Panicked || !eqU64(a.Vals, rawBits(view)) {
					return failf(i, "%s: byte %d set through the exposed slice is not seen by a read", im.name, o.Off)
				}
			}
			for j := range around {
				if !right[j] {
					continue
				}
				now := newState(append([]byte(nil), view...))
				x := spec(im.traits, &now, &around[j])
				b := im.apply(&around[j])
				if b.Panicked || !eqU64(b.Vals, x.Vals) {
					return failf(i, "%s: byte %d set through the exposed slice is not seen by %v", im.name, o.Off, &around[j])
				}
			}
			continue
		}
		st.do(i, o)
		if st.dead {
			return nil
		}
		if resizes(o.K) && st.made {
			if fresh = o.Look == 0; fresh {
				view = im.bytes()
			}
			continue
		}
		if !st.made || !fresh {
			continue
		}
		if o.Look != 0 {
			if !st.x.Partial && !bytes.Equal(view, st.x.Post.Buf) {
				if st.pre = im.observe(); bytes.Equal(st.pre.Buf, st.x.Post.Buf) {
					return failf(i, "%s: %v is visible through the slice exposed before only once the contents are asked for again", im.name, o)
				}
			}
			continue
		}
		if len(pre.Buf) != len(st.pre.Buf) {
			return nil // C12
		}
		if !bytes.Equal(view, st.pre.Buf) {
			return failf(i, "%s: %v is not visible through the slice exposed before", im.name, o)
		}
	}
	if len(in) >= 2 {
		if f := same("by later calls on the buffer"); f != nil {
			return f
		}
		if st.dead {
			return nil
		}
		now := im.observe()
		for i := range in {
			scramble(in[i])
		}
		if got := im.bytes(); !bytes.Equal(got, now.Buf) {
			return failf(-1, "%s: changing the slices it was created from changes the buffer", im.name)
		}
	}
	r.trivial = len(in) == 0
	return nil
}

// readsAround lists reads of different kinds that cover byte p of n.
func readsAround(tr traits, p, n int64, salt uint64) (o []Op) {
	for _, t := range elemTypes {
		u := elemSize(t)
		e := []string{"LE", "BE"}
		if u == 1 {
			e = []string{""}
		}
		if t == "c8" {
			e = []string{"LE"}
		}
		for _, e := range e {
			r := Op{K: "r", T: t, E: e, Off: maxI(0, minI(p-int64(salt%uint64(u)), n-u)), N: 1}
			if salt&0x80 != 0 && t != "1" && r.Off+2*u <= n {
				r.N = 2
			}
			if r.Off+u <= n && tr.supports(&r) {
				o = append(o, r)
			}
		}
	}
	return append(o, Op{K: "rbit", Off: 8*p + int64(salt%8)}, Op{K: "rbits", Off: maxI(0, 8*p-int64(salt%50)), N: minI(64, 8*n-maxI(0, 8*p-int64(salt%50)))})
}

/* C14 */

var profInter = prof(10, 4, 40, ambient.with(weights{"w": 8, "r": 8, "grow": 6, "trunc": 4, "rej": 2, "inv": 1}))

func genInterleave(g g) *Case {
	n := 2 + g.n(2)
	c := &Case{}
	left := [][]Op{}
	same := g.pct(60)
	total := 0
	for i := 0; i < n; i++ {
		k := pickS(g, allKinds)
		if same && i > 0 {
			k = c.Kinds[0]
		}
		init, ops := g.history(profInter, k)
		if same && i > 0 && g.pct(30) { // the same calls on other contents
			init = nil
			for _, s := range c.Init[0] {
				s.D = g.bytes(len(s.D))
				init = append(init, s)
			}
			ops = append([]Op(nil), left[0]...)
		}
		c.Kinds = append(c.Kinds, k)
		c.Init = append(c.Init, init)
		left = append(left, ops)
		total += len(ops)
	}
	for total > 0 {
		i := g.n(n)
		for len(left[i]) == 0 {
			i = (i + 1) % n
		}
		c.Ops = append(c.Ops, left[i][0])
		c.Which = append(c.Which, i)
		left[i] = left[i][1:]
		total--
	}
	return c
}

type outcome struct {
	made     bool
	panicked bool
	err      string
	vals     []uint64
	post     State
}

func runInterleave(c *Case, r *Run) *Failure {
	none := func(tr traits, o *Op, x *Expect, a string) bool { return a == "call" }
	alone := make([]outcome, len(c.Ops))
	last := make([]State, len(c.Kinds))
	used := map[int]bool{}
	// at these points the storage is noted down
	noted := func(i int) bool {
		return i+1 == len(c.Ops) || c.Ops[i].Look == 0 && (resizes(c.Ops[i+1].K) || c.Ops[i].K == "grow")
	}
	for b := range c.Kinds {
		st := newStepper(c.Kinds[b], buildAll(c.Init[b], nil), none, &Run{labels: map[string]int{}})
		for i := range c.Ops {
			if c.Which[i] != b {
				continue
			}
			st.do(i, &c.Ops[i])
			if st.dead {
				break
			}
			alone[i] = outcome{st.made, st.res.Panicked, st.res.errName(st.im.kindOf), st.res.Vals, st.pre}
			if noted(i) {
				st.im.bytes()
			}
		}
		if !st.dead {
			last[b] = st.im.observe()
		}
	}
	sts := make([]*stepper, len(c.Kinds))
	touch := make([][][]byte, len(c.Kinds)) // storage a user of each buffer has seen
	for b := range c.Kinds {
		touch[b] = buildAll(c.Init[b], nil)
		var prev any // MiniBuffers are created through one variable, while the earlier ones are in use
		for _, st := range sts[:b] {
			if st.im.name == c.Kinds[b] {
				prev = st.im.b
			}
		}
		sts[b] = newStepperOver(prev, c.Kinds[b], touch[b], none, r)
	}
	for b, st := range sts {
		now := st.im.observe()
		if d := diffState(&st.pre, &now, nil); len(d) > 0 {
			return failf(-1, "%s: creating other buffers changes buffer %d: %s", st.im.name, b, d[0].msg)
		}
	}
	for i := range c.Ops {
		b := c.Which[i]
		st := sts[b]
		a := &alone[i]
		if !a.made {
			continue
		}
		st.do(i, &c.Ops[i])
		if !st.made || st.dead {
			return failf(i, "%s: %v (buffer %d) cannot be made or left the lock held only when other buffers are in use", st.im.name, &c.Ops[i], b)
		}
		used[b] = true
		where := fmt.Sprintf("%s: %v (buffer %d), interleaved with calls on other buffers", st.im.name, &c.Ops[i], b)
		if st.res.Panicked != a.panicked || st.res.errName(st.im.kindOf) != a.err {
			return failf(i, "%s: panicked=%v %s, alone: panicked=%v %s", where, st.res.Panicked, st.res.errName(st.im.kindOf), a.panicked, a.err)
		}
		if !eqU64(st.res.Vals, a.vals) {
			return failf(i, "%s: %s (expected: what it gives alone)", where, describeVals(a.vals, st.res.Vals))
		}
		if d := diffState(&a.post, &st.pre, nil); len(d) > 0 {
			return failf(i, "%s: %s (expected: what it is alone)", where, d[0].msg)
		}
		if noted(i) {
			touch[b] = append(touch[b], st.im.bytes())
		}
	}
	// nobody's contents may have changed behind their back
	for b, st := range sts {
		if st.dead {
			continue
		}
		if now := st.im.observe(); len(diffState(&last[b], &now, nil)) > 0 {
			return failf(len(c.Ops), "%s: buffer %d changed through calls on other buffers: %s", st.im.name, b, diffState(&last[b], &now, nil)[0].msg)
		}
	}
	// nor may the slices one was made of, or exposed at any time, reach another
	for b, st := range sts {
		if st.dead || len(touch[b]) == 0 {
			continue
		}
		before := make([][]byte, len(sts))
		for o, other := range sts {
			before[o] = append(before[o], other.im.bytes()...)
		}
		for _, t := range touch[b] {
			for i := range t {
				t[i] ^= 0xFF
			}
			for o, other := range sts {
				if o != b && !other.dead && !bytes.Equal(before[o], other.im.bytes()) {
					return failf(-1, "%s: changing a slice buffer %d (%s) was made of or has exposed changes buffer %d", other.im.name, b, st.im.name, o)
				}
			}
		}
	}
	r.trivial = len(used) < 2
	return nil
}

// scrambleSpare does what appending to a decoded slice would do in place.
func scrambleSpare(out any) {
	if v := reflect.ValueOf(out); v.Cap() > v.Len() {
		scramble(v.Slice(v.Len(), v.Cap()).Interface())
	}
}

func runCopies(c *Case, r *Run) *Failure {
	f, end, wrong := copies(c, r, true)
	if f == nil && wrong {
		_, alone, wrong := copies(c, &Run{labels: map[string]int{}}, false)
		if !wrong {
			return failf(-1, "%s: changing the slices passed or decoded, while nobody looks at the buffer, changes what later calls give: %s", c.Kinds[0], append(diffState(&alone, &end, nil), diff{"", "their results differ"})[0].msg)
		}
	}
	return f
}

// copies makes the calls and changes their arguments and results, or leaves
// them. It reports the state in the end and, when some call was not looked
// after, whether anything was not as specified.
func copies(c *Case, r *Run, change bool) (_ *Failure, end State, wrong bool) {
	scramble := func(s any) {
		if change {
			scramble(s)
		}
	}
	scrambleSpare := func(s any) {
		if change {
			scrambleSpare(s)
		}
	}
	unseen := false
	fail := func(f *Failure) (*Failure, State, bool) { return f, end, false }
	own := ownCalls(func(tr traits, o *Op, x *Expect) bool {
		return o.K == "w" && x.Ok && len(o.D) > 0 || o.K == "r" && x.Ok && elemSize(o.T) > 1
	}, "arg")
	st := caseStepper(c, own, r)
	im := st.im
	type kept struct {
		i    int
		out  any
		vals []uint64
	}
	var keep []kept
	for i := range c.Ops {
		o := &c.Ops[i]
		if o.K == "r" && o.Arg != 0 { // what is decoded is kept
			e := *o
			e.Arg = 0
			o = &e
		}
		if f := st.do(i, o); f != nil {
			return fail(f)
		}
		if st.dead {
			break
		}
		unseen = unseen || st.made && o.Look != 0
		wrong = wrong || st.made && len(st.diffs) > 0
		if !st.made || !st.x.Ok || st.res.Panicked {
			continue
		}
		switch {
		case o.K == "w" && st.res.arg != nil:
			scramble(st.res.arg)
			if o.Look != 0 {
				break
			}
			if got := im.bytes(); !bytes.Equal(got, st.pre.Buf) {
				return fail(failf(i, "%s: changing the slice passed to %v changes the buffer", im.name, o))
			}
		case o.K == "r" && st.res.out != nil && reflect.ValueOf(st.res.out).Len() > 0:
			if i%2 == 0 {
				scramble(st.res.out)
				if got := st.glance(o); !bytes.Equal(got, st.pre.Buf) {
					return fail(failf(i, "%s: changing the elements decoded by %v changes the buffer", im.name, o))
				}
			}
			keep = append(keep, kept{i, st.res.out, rawBits(st.res.out)})
			if i%4 == 3 && !im.mini {
				scrambleSpare(st.res.out)
				if got := st.glance(o); !bytes.Equal(got, st.pre.Buf) {
					return fail(failf(i, "%s: appending to the elements decoded by %v changes the buffer", im.name, o))
				}
			}
		}
	}
	for _, k := range keep {
		if !im.mini {
			scrambleSpare(k.out)
		}
	}
	if got := im.bytes(); !unseen && !st.dead && !bytes.Equal(got, st.pre.Buf) {
		return fail(failf(-1, "%s: appending to decoded elements changes the buffer", im.name))
	}
	for _, k := range keep {
		if now := rawBits(k.out); !eqU64(now, k.vals) {
			return fail(failf(k.i, "%s: the elements decoded by %v changed later: %s", im.name, &c.Ops[k.i], describeVals(k.vals, now)))
		}
	}
	r.trivial = r.judged == 0
	if !unseen || st.dead {
		return fail(nil)
	}
	end = im.observe()
	return nil, end, wrong || len(diffState(&st.pre, &end, nil)) > 0
}

// glance gives the contents, as expected where nobody is to look.
func (s *stepper) glance(o *Op) []byte {
	if o.Look != 0 {
		return s.pre.Buf
	}
	return s.im.bytes()
}

/* C16 */

var groups = [][]string{
	allKinds, allKinds, bufKinds, miniKinds,
	{"v1.Buffer", "v1.MiniBuffer"}, {"v2.Buffer", "v2.MiniBuffer"}, {"v3.Buffer", "v3.MiniBuffer"}, {"v3.Buffer", "v3.MiniBuffer"},
	{"v2.Buffer", "v2.MiniBuffer", "v3.Buffer", "v3.MiniBuffer"},
}

var profC16 = prof(12, 4, 45, ambient.with(weights{"w": 14, "r": 12, "rbit": 4, "sbit": 4, "fbit": 4, "rbits": 6, "sbits": 6}))

func genC16(g g) *Case {
	ks := pickS(g, groups)
	c := &Case{Kinds: append([]string(nil), ks...)}
	init, ops := g.history(profC16, ks...)
	c.Init = [][]SliceSpec{init}
	c.Ops = ops
	return c
}

func runC16(c *Case, r *Run) *Failure {
	f, _ := variants(c, r)
	if f == nil {
		return nil
	}
	// all of them wrong in the same way before they differ?
	for n := 1; n <= len(c.Ops); n++ {
		if c.Ops[n-1].Look == 0 && n < len(c.Ops) {
			continue
		}
		d := *c
		d.Ops = append([]Op(nil), c.Ops[:n]...)
		d.Ops[n-1].Look = 0
		if g, wrong := variants(&d, &Run{labels: map[string]int{}}); g != nil {
			return f
		} else if wrong {
			return nil
		}
	}
	return f
}

// variants makes the same calls on all kinds. It reports whether the first of
// them is, in the end, not as specified.
func variants(c *Case, r *Run) (_ *Failure, wrong bool) {
	ims := make([]*Impl, len(c.Kinds))
	for i, k := range c.Kinds {
		ims[i] = newImpl(k, buildAll(c.Init[0], c.Back)...)
		ims[i].recycle = true
	}
	s0 := newState(concat(buildAll(c.Init[0], c.Back)))
	first := 0
	if len(c.Ops) > 0 && c.Ops[0].Look == 1 {
		first = 1
	}
	s0 = ims[0].look(first, &s0)
	for _, im := range ims[1:] {
		s := im.look(first, &s0)
		if d := diffState(&s0, &s, nil); len(d) > 0 {
			return failf(-1, "new %s and %s differ: %s", ims[0].name, im.name, d[0].msg), true
		}
	}
	for i := range c.Ops {
		o := &c.Ops[i]
		for _, im := range ims {
			if x := spec(im.traits, &s0, o); x.Undefined || !x.Ok {
				goto next
			}
		}
		{
			var first Result
			for j, im := range ims {
				entering(true)
				res := im.apply(o)
				entering(false)
				r.steps++
				if im.lockHeld() {
					return nil, true
				}
				if j == 0 {
					first = res
					continue
				}
				at := fmt.Sprintf("%v at byte cursor %d, bit cursor %d, size %d: %s and %s disagree: ", o, s0.Off, s0.Boff, len(s0.Buf), ims[0].name, im.name)
				if res.Panicked != first.Panicked {
					return failf(i, "%spanicked=%v (%s) and panicked=%v (%s)", at, first.Panicked, first.errName(ims[0].kindOf), res.Panicked, res.errName(im.kindOf)), true
				}
				if !res.Panicked && !eqU64(res.Vals, first.Vals) {
					return failf(i, "%s%s", at, describeVals(first.Vals, res.Vals)), true
				}
			}
			r.judged++
			classify(r, ims[0].traits, o, &Expect{Ok: true}, &s0)
			x := spec(ims[0].traits, &s0, o)
			n0 := ims[0].look(o.Look, &x.Post)
			for _, im := range ims[1:] {
				s := im.look(o.Look, &x.Post)
				if d := diffState(&n0, &s, nil); len(d) > 0 {
					return failf(i, "after %v at byte cursor %d, bit cursor %d, size %d: %s and %s (expected: the former) disagree: %s", o, s0.Off, s0.Boff, len(s0.Buf), ims[0].name, im.name, d[0].msg), true
				}
			}
			if first.Panicked {
				return nil, true
			}
			wrong = len(diffState(&x.Post, &n0, nil)) > 0
			s0 = n0
		}
	next:
	}
	r.trivial = r.judged < 2
	if n := len(c.Ops); n > 0 && c.Ops[n-1].Look != 0 {
		s0 = ims[0].observe()
		for _, im := range ims[1:] {
			s := im.observe()
			if d := diffState(&s0, &s, nil); len(d) > 0 {
				return failf(n-1, "in the end %s and %s (expected: the former) disagree: %s", ims[0].name, im.name, d[0].msg), true
			}
		}
	}
	return nil, wrong
}

/* C20 */

func runC20(c *Case, r *Run) *Failure {
	none := func(tr traits, o *Op, x *Expect, a string) bool { return a == "call" && x.Vals != nil && x.Ok }
	mk := func(rr *Run) *stepper { return caseStepper(c, none, rr) }
	a, b, k := mk(r), mk(&Run{labels: map[string]int{}}), mk(&Run{labels: map[string]int{}})
	k.im.reuse = true
	for i := range c.Ops {
		o := &c.Ops[i]
		other := *o
		other.Pre = ^o.Pre
		if o.Pre == ^uint64(0) {
			other.Pre = 0x5A5A5A5A5A5A5A5B
		}
		other.Pad = (o.Pad + 3) % 8
		a.do(i, o)
		b.do(i, &other)
		k.do(i, o)
		if a.dead || b.dead || k.dead {
			return nil
		}
		if !a.made && !b.made && !k.made {
			continue
		}
		at := fmt.Sprintf("%s: %v", a.im.name, o)
		if a.made != b.made || a.made != k.made {
			return failf(i, "%s: earlier calls left different states depending on what the out variables held", at)
		}
		if a.res.Panicked != b.res.Panicked || a.res.Panicked != k.res.Panicked {
			return failf(i, "%s: whether it panics depends on what the out variable held", at)
		}
		if a.res.Panicked {
			return nil
		}
		for _, s := range []*stepper{a, b, k} {
			if s.res.TailBad != "" {
				return failf(i, "%s: %s", at, s.res.TailBad)
			}
		}
		if !eqU64(a.res.Vals, b.res.Vals) {
			return failf(i, "%s: result depends on what the out variable held: %s (held %#x and %#x)", at, describeVals(a.res.Vals, b.res.Vals), o.Pre, other.Pre)
		}
		if !eqU64(a.res.Vals, k.res.Vals) {
			return failf(i, "%s: result differs when the out variable is one used before: %s", at, describeVals(a.res.Vals, k.res.Vals))
		}
		for _, s := range []*stepper{b, k} {
			if d := diffState(&a.pre, &s.pre, nil); len(d) > 0 {
				return failf(i, "%s: state afterwards depends on what the out variable held: %s", at, d[0].msg)
			}
		}
		if o.Look != 0 {
			continue
		}
		if isAccess(o.K) && !isWriteKind(o.K) && !o.Next {
			res := k.im.apply(o)
			if res.Panicked || !eqU64(res.Vals, a.res.Vals) || res.TailBad != "" {
				return failf(i, "%s: repeated with the same variable: panicked=%v, %s", at, res.Panicked, describeVals(a.res.Vals, res.Vals))
			}
		}
		for _, n := range []string{"cap", "bcap", "off", "boff"} {
			if x, y := a.im.getter(n, 0), a.im.getter(n, -7); x != y {
				return failf(i, "%s: getter %s then gives %d or %d depending on what the variable held", at, n, x, y)
			}
		}
		held := []byte{1, 2, 3, 4, 5, 6, 7, 8, 9}
		p := held[:5]
		a.im.b.(interface{ Bytes(*[]byte) }).Bytes(&p)
		if !bytes.Equal(p, a.pre.Buf) {
			return failf(i, "%s: the exposed contents then depend on what the variable held", at)
		}
	}
	s := a.im.observe()
	for _, t := range []*stepper{b, k} {
		now := t.im.observe()
		if d := diffState(&s, &now, nil); len(d) > 0 {
			return failf(-1, "%s: the final state depends on what the out variables held: %s", a.im.name, d[0].msg)
		}
	}
	r.trivial = r.judged == 0
	return nil
}
