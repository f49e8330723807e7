package harness

import (
	"bytes"
	"fmt"
	"hash/fnv"
	"sync/atomic"
)

// Failure is one violation of a property by one case.
type Failure struct {
	Msg  string `json:"msg"`
	Step int    `json:"step"`
}

func failf(step int, f string, a ...any) *Failure {
	return &Failure{fmt.Sprintf(f, a...), step}
}

// Run is what executing one case reports besides a violation.
type Run struct {
	labels  map[string]int
	steps   int // calls made
	judged  int // calls the property makes a statement about
	trivial bool
	c       *Case
}

func (r *Run) label(s string) { r.labels[s]++ }

// what the watchdog looks at
var (
	curSteps atomic.Uint64
	curOwned atomic.Bool // the call in flight is one the property speaks about
)

// called before (with ownership) and after (false) every call on a buffer
var onEnter func(owned bool)

func entering(owned bool) {
	if onEnter != nil {
		onEnter(owned)
	}
	curOwned.Store(owned)
	curSteps.Add(1)
}

// Progress inside a concurrent section. One counter per goroutine: a shared
// one would order their calls in the eyes of the race detector.
var ticks [64]struct {
	n atomic.Uint64
	_ [7]uint64
}

func tick(gr int) { ticks[gr%len(ticks)].n.Add(1) }

func progress() (s uint64) {
	for i := range ticks {
		s += ticks[i].n.Load()
	}
	return s<<32 + curSteps.Load()
}

// property is one line of properties.jsonl with its generator and oracle.
type property struct {
	id    string
	modes []*mode
	rule  string
}

type mode struct {
	name   string
	race   bool // runs in the race-detector build, the others in the plain one
	weight int  // share of the cases
	solo   bool // runs only when VERIF_MODES names it
	gen    func(g) *Case
	run    func(*Case, *Run) *Failure
}

var properties = map[string]*property{}

func (p *property) mode(name string) *mode {
	for _, m := range p.modes {
		if m.name == name {
			return m
		}
	}
	return nil
}

// execute runs one case. A panic of the harness itself is not caught here.
func (p *property) execute(c *Case) (*Failure, *Run) {
	r := &Run{labels: map[string]int{}, c: c}
	m := p.mode(c.Mode)
	if m == nil {
		panic("no mode " + c.Mode)
	}
	return m.run(c, r), r
}

/* comparison of one call with its specification */

type diff struct{ aspect, msg string }

func diffState(exp, got *State, partial func(i int) byte) (d []diff) {
	if len(exp.Buf) != len(got.Buf) {
		d = append(d, diff{"len", fmt.Sprintf("contents are %d bytes long, expected %d", len(got.Buf), len(exp.Buf))})
	} else if !bytes.Equal(exp.Buf, got.Buf) {
		for i := range exp.Buf {
			m := byte(0)
			if partial != nil {
				m = partial(i)
			}
			if (exp.Buf[i]^got.Buf[i])&^m != 0 {
				d = append(d, diff{"buf", fmt.Sprintf("byte %d is %#02x, expected %#02x (size %d)", i, got.Buf[i], exp.Buf[i], len(exp.Buf))})
				break
			}
		}
	}
	if exp.Off != got.Off {
		d = append(d, diff{"off", fmt.Sprintf("byte cursor is %d, expected %d", got.Off, exp.Off)})
	}
	if exp.Boff != got.Boff {
		d = append(d, diff{"boff", fmt.Sprintf("bit cursor is %d, expected %d", got.Boff, exp.Boff)})
	}
	if exp.Cap != got.Cap {
		d = append(d, diff{"cap", fmt.Sprintf("reported byte size is %d, expected %d", got.Cap, exp.Cap)})
	}
	if exp.Bcap != got.Bcap {
		d = append(d, diff{"bcap", fmt.Sprintf("reported bit size is %d, expected %d", got.Bcap, exp.Bcap)})
	}
	return
}

func compare(k *kindOf, o *Op, pre *State, x *Expect, r *Result, post *State) (d []diff) {
	switch {
	case x.Ok && r.Panicked:
		return []diff{{"outcome", "panicked with " + r.errName(k)}}
	case x.Ok:
		if x.Vals != nil && !eqU64(x.Vals, r.Vals) {
			d = append(d, diff{"vals", describeVals(x.Vals, r.Vals)})
		}
		if r.TailBad != "" {
			d = append(d, diff{"tail", r.TailBad})
		}
		d = append(d, diffState(&x.Post, post, nil)...)
	case !r.Panicked:
		return []diff{{"noreject", "returned normally, expected a panic"}}
	default:
		name := r.errName(k)
		if len(x.Errs) > 0 {
			ok := false
			for _, e := range x.Errs {
				ok = ok || e == name
			}
			if !ok {
				d = append(d, diff{"errval", fmt.Sprintf("panicked with %s, expected %v", name, x.Errs)})
			} else if e, isErr := r.Panic.(error); !isErr || e.Error() == "" {
				d = append(d, diff{"errval", fmt.Sprintf("panic value %#v is not an error with a message", r.Panic)})
			}
		}
		var partial func(int) byte
		if x.Partial {
			start, _, limit := o.span(pre)
			partial = func(i int) byte {
				m := byte(0)
				for b := 0; b < 8; b++ {
					if p := int64(i*8 + b); p >= start && p < limit && p-start < o.N {
						m |= 0x80 >> uint(b)
					}
				}
				return m
			}
		}
		d = append(d, diffState(&x.Post, post, partial)...)
	}
	if r.ArgBad != "" {
		d = append(d, diff{"arg", r.ArgBad})
	}
	return
}

func describeVals(exp, got []uint64) string {
	if len(exp) != len(got) {
		return fmt.Sprintf("result has %d elements, expected %d", len(got), len(exp))
	}
	for i := range exp {
		if exp[i] != got[i] {
			return fmt.Sprintf("result element %d of %d is %#x, expected %#x", i, len(exp), got[i], exp[i])
		}
	}
	return "?"
}

// owner decides which (call, aspect) pairs a property makes a statement about.
// aspect "call" asks whether the property speaks about the call at all.
type owner func(tr traits, o *Op, x *Expect, aspect string) bool

func any3(a string, l ...string) bool {
	for _, s := range l {
		if a == s {
			return true
		}
	}
	return false
}

func isState(a string) bool { return any3(a, "buf", "len", "off", "boff", "cap", "bcap") }

// stepper runs a history against the specification, judging with own. Each
// call is judged from the state the buffer was actually in, as far as it has
// been looked at since; a call's Look says what is asked after it.
type stepper struct {
	im   *Impl
	own  owner
	r    *Run
	pre  State
	dead bool // the rest of the history cannot be run
	// what happened in the last do
	x     Expect
	res   Result
	made  bool
	diffs []diff
	// calls made, and how many of them when everything was last looked at
	again func() *stepper // nil: nobody asks which call a difference comes from
	log   []logged
	seen  int
}

type logged struct {
	i int
	o *Op
}

func newStepper(kind string, slices [][]byte, own owner, r *Run) *stepper {
	return newStepperOver(nil, kind, slices, own, r)
}

func newStepperOver(prev any, kind string, slices [][]byte, own owner, r *Run) *stepper {
	s := &stepper{im: newImplOver(prev, kind, slices...), own: own, r: r}
	s.im.recycle = true
	s.pre = s.im.observe()
	return s
}

// caseStepper starts on the only buffer of a case. When nobody looks after the
// first call, nobody looks before it either.
func caseStepper(c *Case, own owner, r *Run) *stepper {
	slices := buildAll(c.Init[0], c.Back)
	if len(c.Ops) == 0 || c.Ops[0].Look != 1 {
		return newStepper(c.Kinds[0], slices, own, r)
	}
	content := concat(slices)
	s := &stepper{im: newImpl(c.Kinds[0], slices...), own: own, r: r}
	s.im.recycle = true
	s.pre, s.seen = newState(content), -1
	return s
}

var judging *stepper // whose differences are being judged

// blaming makes differences that appear after unseen calls be judged as the
// first of them after which they can be seen.
func (s *stepper) blaming(c *Case) *stepper {
	for i := range c.Ops {
		if c.Ops[i].Look != 0 && c.repeats() == 1 {
			s.again = func() *stepper {
				return caseStepper(c, func(traits, *Op, *Expect, string) bool { return false }, &Run{labels: map[string]int{}})
			}
			break
		}
	}
	return s
}

func (s *stepper) judge(i int, o *Op) *Failure {
	judging = s
	for _, d := range s.diffs {
		if s.own(s.im.traits, o, &s.x, d.aspect) {
			return failf(i, "%s: %v at byte cursor %d, bit cursor %d, size %d: %s", s.im.name, o, s.pre.Off, s.pre.Boff, len(s.pre.Buf), d.msg)
		}
	}
	return nil
}

// blame finds the call a difference comes from: calls before it are made again,
// and everything is looked at.
func (s *stepper) blame(i int, o *Op) *Failure {
	for p := maxInt(0, s.seen); p <= len(s.log); p++ {
		t := s.again()
		for _, l := range s.log[:maxInt(0, p-1)] {
			t.do(l.i, l.o)
		}
		if p == 0 {
			now := t.im.observe()
			if len(diffState(&t.pre, &now, nil)) > 0 {
				return nil // wrong from the start
			}
			continue
		}
		l := s.log[p-1]
		e := *l.o
		if p < len(s.log) || o == nil {
			e.Look = 0
		}
		t.diffs, t.own = nil, s.own
		pre := t.pre
		t.do(l.i, &e)
		if len(t.diffs) > 0 {
			t.pre = pre
			return t.judge(l.i, l.o)
		}
	}
	return nil
}

// settle looks at everything.
func (s *stepper) settle() *Failure {
	if s.dead || s.seen == len(s.log) && s.again != nil {
		return nil
	}
	post := s.im.observe()
	s.diffs = diffState(&s.pre, &post, nil)
	var f *Failure
	if len(s.diffs) > 0 && s.again != nil {
		f = s.blame(0, nil)
	}
	s.pre = post
	s.seen = len(s.log)
	return f
}

func (s *stepper) do(i int, o *Op) *Failure {
	s.made = false
	if s.dead {
		return nil
	}
	tr := s.im.traits
	if o.K == "grow" && len(s.pre.Buf) > 1<<21 {
		return nil // a history made many times over
	}
	s.x = spec(tr, &s.pre, o)
	if s.x.Undefined {
		return nil
	}
	s.made = true
	owned := s.own(tr, o, &s.x, "call")
	entering(owned)
	s.res = s.im.apply(o)
	entering(false)
	s.r.steps++
	if owned {
		s.r.judged++
	}
	if owned && s.r.steps < 5000 {
		classify(s.r, tr, o, &s.x, &s.pre)
	}
	if s.im.lockHeld() {
		s.dead = true
		if s.own(tr, o, &s.x, "lock") {
			return failf(i, "%s: %v: the buffer's lock is still held after the call", s.im.name, o)
		}
		return nil
	}
	look := o.Look
	if s.x.Partial && !s.x.Ok {
		look = 0
	}
	post := s.im.look(look, &s.x.Post)
	s.diffs = compare(s.im.kindOf, o, &s.pre, &s.x, &s.res, &post)
	var f *Failure
	if s.again == nil {
		f = s.judge(i, o)
	} else {
		s.log = append(s.log, logged{i, o})
		if look != 0 {
			s.r.label("not looked at completely")
		}
		if len(s.diffs) > 0 {
			if s.seen == len(s.log)-1 {
				f = s.judge(i, o)
			} else {
				f = s.blame(i, o)
			}
			if f == nil {
				post = s.im.observe()
				look = 0
			}
		}
		if complete(look) {
			s.seen = len(s.log)
		}
	}
	s.pre = post
	return f
}

func runHistory(c *Case, r *Run, own owner) *Failure {
	st := caseStepper(c, own, r).blaming(c)
	for rep := c.repeats(); rep > 0; rep-- {
		for i := range c.Ops {
			if f := st.do(i, &c.Ops[i]); f != nil {
				return f
			}
		}
	}
	r.trivial = r.judged == 0
	return st.settle()
}

// repeats tells how many times over a history is made, on the same buffer.
func (c *Case) repeats() int64 { return maxI(1, minI(1<<18, c.P["repeat"])) }

func sizeClass(n int64) string {
	switch {
	case n == 0:
		return "0"
	case n == 1:
		return "1"
	case n <= 8:
		return "2-8"
	case n <= 64:
		return "9-64"
	case n <= 512:
		return "65-512"
	}
	if n <= 40000 {
		return "513-40000"
	}
	return ">40000"
}

// classify counts what the judged calls look like.
func classify(r *Run, tr traits, o *Op, x *Expect, pre *State) {
	what := o.K
	if o.T != "" {
		what += ":" + o.T + o.E
	}
	r.label(what)
	if o.Next {
		r.label("cursor-relative")
	}
	if !x.Ok {
		r.label("rejected")
	}
	if isAccess(o.K) {
		start, unit, limit := o.span(pre)
		n := o.count()
		r.label("count " + sizeClass(n))
		if x.Ok && start+n*unit == limit {
			r.label("touches the end")
		}
		if x.Ok && start%8 != 0 {
			r.label("unaligned")
		}
	} else {
		r.label("size " + sizeClass(int64(len(pre.Buf))))
	}
}

func hashCase(c *Case) uint64 {
	h := fnv.New64a()
	fmt.Fprint(h, c.Mode, c.Kinds, c.Which)
	for k := range c.P {
		_ = k
	}
	fmt.Fprint(h, c.P) // fmt sorts map keys
	for _, in := range c.Init {
		for _, s := range in {
			h.Write(s.D)
			fmt.Fprint(h, s.Nil, len(s.D), s.Ov, len(s.Spare))
		}
	}
	var b [8]byte
	w := func(v uint64) {
		for i := range b {
			b[i] = byte(v >> uint(8*i))
		}
		h.Write(b[:])
	}
	for i := range c.Ops {
		o := &c.Ops[i]
		h.Write([]byte(o.K))
		h.Write([]byte(o.T))
		h.Write([]byte(o.E))
		f := uint64(0)
		if o.Next {
			f |= 1
		}
		if o.Rel {
			f |= 2
		}
		if o.Has {
			f |= 4
		}
		w(f | uint64(o.Look)<<8 | uint64(o.Arg)<<16)
		w(uint64(o.Off))
		w(uint64(o.N))
		w(o.V)
		w(o.Pre)
		w(uint64(o.Size))
		for _, v := range o.D {
			w(v)
		}
	}
	for _, t := range c.Text {
		h.Write([]byte(t))
		h.Write([]byte{0})
	}
	h.Write(c.Back)
	return h.Sum64()
}
