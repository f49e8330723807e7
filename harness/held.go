package harness

import (
	"bytes"
	"fmt"
	"reflect"
	"runtime"
	"sync"
	"sync/atomic"
	"time"
	"unsafe"
)

// Schedules forced through the embedded lock of a v1/v2 Buffer: a call is held
// up at the lock while something else happens to the buffer.

// lockState gives access to the state word of the embedded mutex, which tells
// how many goroutines wait for it; nil when there is no such mutex.
func lockState(b any) *int32 {
	v := reflect.ValueOf(b)
	if v.Kind() != reflect.Pointer || v.Elem().Kind() != reflect.Struct {
		return nil
	}
	f := v.Elem().FieldByName("Mutex")
	if !f.IsValid() || !f.CanAddr() || f.Type() != reflect.TypeFor[sync.Mutex]() {
		return nil
	}
	return (*int32)(unsafe.Pointer(f.UnsafeAddr()))
}

const (
	mutexStarving    = 4
	mutexWaiterShift = 3
)

// a caller makes calls on request, on a goroutine of its own.
type caller struct {
	req  chan *Op
	resp chan Result
	done atomic.Bool // the call requested last has returned
}

func newCaller(im *Impl) *caller {
	c := &caller{req: make(chan *Op), resp: make(chan Result, 1)}
	go func() {
		for o := range c.req {
			r := im.apply(o)
			c.done.Store(true)
			c.resp <- r
		}
	}()
	return c
}

func (c *caller) start(o *Op) {
	c.done.Store(false)
	c.req <- o
}

// settle waits until n goroutines wait for the lock or the call has returned.
// What it returns only says how well the schedule was forced.
func settle(state *int32, n int32, c *caller) bool {
	if state == nil {
		for i := 0; i < 20 && !c.done.Load(); i++ {
			time.Sleep(20 * time.Microsecond)
		}
		return false
	}
	var t0 time.Time
	for i := 0; ; i++ {
		if atomic.LoadInt32(state)>>mutexWaiterShift >= n {
			return true
		}
		if c.done.Load() {
			return false
		}
		if i%64 == 63 {
			if t0.IsZero() {
				t0 = time.Now()
			} else if time.Since(t0) > 3*time.Millisecond {
				return false
			}
		}
		runtime.Gosched()
	}
}

// xor changes the storage through an exposed slice.
func xor(s []byte, o *Op) {
	if len(s) == 0 {
		return
	}
	at := int(uint64(o.Off) % uint64(len(s)))
	for i := 0; i < len(o.D) && i < len(s); i++ {
		s[(at+i)%len(s)] ^= byte(o.D[i])
	}
}

/* C27 */

var profHeld = prof(12, 3, 40, ambient.with(weights{"w": 8, "r": 9, "rbit": 4, "rbits": 4, "sbit": 4, "fbit": 4, "sbits": 4, "fill": 4, "rej": 2, "poke": 0, "trunc": 0}))

func genHeld(g g) *Case {
	k := pickS(g, lockKinds)
	init, ops := g.history(profHeld, k)
	c := one("C27", k, init, nil)
	c.Mode = "held"
	for _, o := range ops {
		if o.K == "bytes" || o.K == "poke" {
			continue
		}
		if g.pct(85) {
			x := Op{K: "xor", Off: o.Off}
			if o.K == "rbit" || o.K == "sbit" || o.K == "fbit" || o.K == "rbits" || o.K == "sbits" {
				x.Off = o.Off / 8
			}
			if g.pct(30) {
				x.Off = g.in(0, 5000)
			}
			n := 1 + g.n(12)
			if g.pct(20) {
				n = 1 + g.n(200)
			}
			same := byte(0)
			if g.pct(40) {
				same = 0xFF
			}
			for i := 0; i < n; i++ {
				v := same
				if v == 0 {
					v = byte(1 + g.n(255))
				}
				x.D = append(x.D, uint64(v))
			}
			if o.Next || g.pct(10) { // wherever the cursor is
				x.Off, x.D = 0, nil
				for i := 0; i < 256; i++ {
					x.D = append(x.D, uint64(1+g.n(255)))
				}
			}
			c.Ops = append(c.Ops, x)
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}

// runHeld makes every call while the lock is held, changes the contents
// through the exposed slice, and only then gives the lock back. A second
// buffer, where the change is simply made before the call, says what the call
// has to do.
func runHeld(c *Case, r *Run) *Failure {
	name := c.Kinds[0]
	r.trivial = true
	im, twin := newImpl(name, buildAll(c.Init[0], c.Back)...), newImpl(name, buildAll(c.Init[0], c.Back)...)
	l, ok := im.b.(locker)
	if !ok {
		return nil
	}
	im.noView, twin.noView = true, true
	state := lockState(im.b)
	w := newCaller(im)
	defer func() { close(w.req) }()
	pre := im.observe()
	var xors []*Op
	var view, tview []byte
	for i := range c.Ops {
		o := &c.Ops[i]
		if o.K == "xor" {
			xors = append(xors, o)
			continue
		}
		if x := spec(im.traits, &pre, o); x.Undefined || o.K == "poke" || o.K == "bytes" || o.K == "grow" && o.N > 1<<20 {
			continue
		}
		if view == nil {
			view, tview = im.bytes(), twin.bytes()
		}
		changed, was := false, append([]byte(nil), view...)
		for _, x := range xors {
			xor(tview, x)
		}
		changed = !bytes.Equal(was, tview)
		now := newState(append([]byte(nil), tview...))
		now.Off, now.Boff = pre.Off, pre.Boff
		x := spec(im.traits, &now, o)
		look := o.Look
		if x.Undefined || x.Partial && !x.Ok {
			look = 0
		}
		exp := twin.apply(o)
		if twin.lockHeld() {
			return nil
		}
		want := twin.look(look, &x.Post)

		races := raceErrors()
		l.Lock()
		entering(true)
		w.start(o)
		forced := settle(state, 1, w)
		early := !bytes.Equal(view, was)
		if !early {
			for _, x := range xors {
				xor(view, x)
			}
		}
		l.Unlock()
		got := <-w.resp
		entering(false)
		xors = nil
		r.steps++
		if early {
			return failf(i, "%s: %v changed the contents while somebody else held the buffer's lock", name, o)
		}
		if im.lockHeld() {
			return nil
		}
		if raceErrors() > races {
			return failf(i, "%s: data race between %v and a change made under the buffer's lock (in %s)", name, o, raceReport())
		}
		if changed {
			r.judged++
			r.trivial = false
			r.label(o.K)
			if forced {
				r.label("waited for the lock")
			}
		}
		if got.Panicked != exp.Panicked || got.Panicked && got.errName(im.kindOf) != exp.errName(im.kindOf) {
			return failf(i, "%s: %v, made while somebody else held the lock: %s; expected, as when made after its release: %s", name, o, ending(&got, im), ending(&exp, im))
		}
		if !eqU64(got.Vals, exp.Vals) {
			return failf(i, "%s: %v, made while somebody else held the lock and changed the contents: %s (expected: what the call gives after the release)", name, o, describeVals(exp.Vals, got.Vals))
		}
		post := im.look(look, &x.Post)
		if resizes(o.K) || o.Look == 0 {
			view = nil
		}
		if d := diffState(&want, &post, nil); len(d) > 0 {
			return failf(i, "%s: %v, made while somebody else held the lock and changed the contents: %s (expected: the state as when made after the release)", name, o, d[0].msg)
		}
		pre = post
	}
	want, post := twin.observe(), im.observe()
	if d := diffState(&want, &post, nil); len(d) > 0 {
		return failf(-1, "%s: in the end, after calls made while somebody else held the lock and changed the contents: %s (expected: the state as when made after the release)", name, d[0].msg)
	}
	return nil
}

func ending(r *Result, im *Impl) string {
	if r.Panicked {
		return "it panics with " + r.errName(im.kindOf)
	}
	return "it returns"
}

/* C17, mode "orders" */

func genOrders(g g) *Case {
	size := 1 + g.n(40)
	if g.pct(10) {
		size += g.n(2000)
	}
	c := concCase(g, lockKinds, size)
	content := c.Init[0][0].D
	c.P["others"] = pickS(g, []int64{1, 1, 2, 2, 3})
	c.P["off"], c.P["boff"] = g.in(0, 20), g.in(0, 99)
	p := prof(8, 0, 0, weights{"w": 10, "r": 12, "rbit": 5, "sbit": 6, "fbit": 6, "fill": 8, "seek": 5, "seekbit": 5, "align": 6})
	q := prof(8, 0, 0, weights{"w": 5, "sbit": 3, "fbit": 3, "fill": 10, "seek": 5, "seekbit": 5, "align": 5, "r": 1})
	for k := 0; k < 3; {
		a := pickOp(g, p, content, c.Kinds[0])
		if a == nil {
			continue
		}
		k++
		c.Ops = append(c.Ops, *a)
		for i := int64(0); i < c.P["others"]; {
			if b := pickOp(g, q, content, c.Kinds[0]); b != nil {
				i++
				g.meet(a, b)
				c.Ops = append(c.Ops, *b)
			}
		}
	}
	return c
}

// meet changes b so that it is more likely to matter to a.
func (g g) meet(a, b *Op) {
	switch a.K {
	case "w", "r":
		if b.K == "w" && a.T == b.T && g.pct(60) { // the same range
			b.Off = a.Off
			if n := a.count(); n < b.count() {
				b.D = b.D[:n]
			}
		} else if g.pct(20) {
			*b = Op{K: pickS(g, []string{"flip", "clear", "set"})}
		}
	case "rbit", "sbit", "fbit":
		switch {
		case g.pct(25):
			*b = Op{K: "fbit", Off: a.Off}
		case g.pct(33):
			*b = Op{K: "fbit", Off: a.Off ^ 1}
		case g.pct(50):
			*b = Op{K: "flip"}
		}
	case "seek", "seekbit", "alignbit", "alignbyte":
		switch {
		case g.pct(60):
			*b = Op{K: pickS(g, []string{"seek", "seekbit"}), Rel: g.pct(60), Off: g.in(-9, 60)}
		case g.pct(30):
			*b = Op{K: pickS(g, []string{"alignbit", "alignbyte"})}
		}
	}
}

// pickOp takes a call an atomicity claim is made for.
func pickOp(g g, p *profile, content []byte, kind string) *Op {
	ops := g.historyOn(p, content, kind)
	for _, i := range []int{len(ops) - 1, 0} {
		if i >= 0 && atomicOp(&ops[i]) {
			o := ops[i]
			return &o
		}
	}
	return nil
}

func atomicOp(o *Op) bool {
	switch o.K {
	case "w":
		return !o.Next
	case "r":
		return !o.Next && o.T != "b" && o.T != "c8"
	case "rbit", "sbit", "fbit":
		return !o.Next
	case "clear", "set", "flip", "seek", "seekbit", "alignbit", "alignbyte":
		return true
	}
	return false
}

// runOrders makes a call at the same time as another goroutine makes one or
// more others, and sees to it that, should the first give the lock back before
// it is done, the other goroutine gets it before the first can have it again.
// Together they have to do what they do when the first is made before, between
// or after the others.
func runOrders(c *Case, r *Run) *Failure {
	name := c.Kinds[0]
	r.trivial = true
	others := int(maxI(1, minI(8, c.P["others"])))
	pre := newState(concat(buildAll(c.Init[0], nil)))
	pre.Off, pre.Boff = c.P["off"], c.P["boff"]
	for i := 0; i+1 < len(c.Ops); i += 1 + others {
		a, bs := &c.Ops[i], c.Ops[i+1:minInt(len(c.Ops), i+1+others)]
		if g := runGroup(c, r, name, &pre, a, bs); g != "" {
			return failf(i, "%s at byte cursor %d, bit cursor %d, size %d: %v at the same time as %v: %s", name, pre.Off, pre.Boff, len(pre.Buf), a, bs, g)
		}
	}
	return nil
}

func runGroup(c *Case, r *Run, name string, pre *State, a *Op, bs []Op) string {
	all := append([]Op{*a}, bs...)
	for i := range all {
		if x := spec(kinds[name].traits, pre, &all[i]); !atomicOp(&all[i]) || x.Undefined || !x.Ok {
			return ""
		}
	}
	mk := func() *Impl {
		im := newImpl(name, append([]byte(nil), pre.Buf...))
		im.apply(&Op{K: "seek", Off: pre.Off})
		im.apply(&Op{K: "seekbit", Off: pre.Boff})
		return im
	}
	type outcome struct {
		res []Result // of a, then of bs
		s   State
	}
	var serial []outcome // a is made before bs[k]
	for k := 0; k <= len(bs); k++ {
		im := mk()
		o := outcome{res: make([]Result, len(all))}
		for j := 0; j <= len(bs); j++ {
			if j == k {
				o.res[0] = im.apply(a)
			}
			if j < len(bs) {
				o.res[j+1] = im.apply(&bs[j])
			}
		}
		if im.lockHeld() || anyPanic(o.res) >= 0 {
			return ""
		}
		o.s = im.observe()
		serial = append(serial, o)
	}
	im := mk()
	l, isLocker := im.b.(locker)
	if !isLocker || im.lockHeld() {
		return ""
	}
	state := lockState(im.b)
	first, second := newCaller(im.share()), newCaller(im.share())
	defer func() { close(first.req); close(second.req) }()
	got := outcome{res: make([]Result, len(all))}
	races := raceErrors()
	l.Lock()
	entering(true)
	first.start(a)
	forced := settle(state, 1, first)
	started := false
	if forced {
		// a call that has waited for more than a millisecond and finds the lock
		// taken again is handed it directly, and so is the next one in the queue
		if len(bs) == 1 {
			second.start(&bs[0])
			forced = settle(state, 2, second)
			started = true
		}
		time.Sleep(1200 * time.Microsecond)
		l.Unlock()
		if l.TryLock() {
			t0 := time.Now()
			for atomic.LoadInt32(state)&mutexStarving == 0 && time.Since(t0) < 3*time.Millisecond {
				runtime.Gosched()
			}
			forced = forced && atomic.LoadInt32(state)&mutexStarving != 0
			if len(bs) > 1 {
				// Once the next in the queue, which has not waited long, has the lock,
				// the usual rules apply again: it can take the lock many times before
				// one that waits wakes up.
				turn := make(chan bool)
				go func() {
					l.Lock()
					l.Unlock()
					for j := range bs {
						got.res[1+j] = im.share().apply(&bs[j])
					}
					close(turn)
				}()
				forced = settle(state, 2, first) && forced
				l.Unlock()
				<-turn
				started = true
			} else {
				l.Unlock()
			}
		} else {
			forced = false
		}
	} else {
		l.Unlock()
	}
	if len(bs) == 1 {
		if !started {
			second.start(&bs[0])
		}
		got.res[1] = <-second.resp
	} else if !started {
		for j := range bs {
			second.start(&bs[j])
			got.res[1+j] = <-second.resp
		}
	}
	got.res[0] = <-first.resp
	entering(false)
	r.steps += len(all)
	r.judged += len(all)
	r.trivial = false
	for i := range bs {
		r.label(a.K + " with " + bs[i].K)
	}
	if forced {
		r.label(fmt.Sprintf("lock handed over to the others (%d)", len(bs)))
	}
	if raceErrors() > races {
		return "data race (in " + raceReport() + ")"
	}
	if im.lockHeld() {
		return "the buffer's lock is held afterwards"
	}
	got.s = im.observe()
	if j := anyPanic(got.res); j >= 0 {
		return fmt.Sprintf("%v panics", &all[j])
	}
	why := ""
	for k := range serial {
		why = ""
		s := &serial[k]
		for j := range all {
			if !eqU64(s.res[j].Vals, got.res[j].Vals) {
				why = fmt.Sprintf("%v gave something else than in any order (%s)", &all[j], describeVals(s.res[j].Vals, got.res[j].Vals))
			}
		}
		if d := diffState(&s.s, &got.s, nil); why == "" && len(d) > 0 {
			why = "the outcome is that of no order: " + d[0].msg
		}
		if why == "" {
			break
		}
	}
	if why == "" {
		*pre = got.s
	}
	return why
}

func init() {
	properties["C27"] = &property{id: "C27", rule: "One case is a history on a v1 or v2 Buffer. Every call is made while another goroutine holds the buffer's lock; once the call waits for the lock (or has returned), the holder changes the contents through the exposed slice and releases it. The result and the state have to be those of a second buffer on which the change is made before the call. The same in a race-detector build, where any look at the contents outside the lock is a race with the holder's change. Non-trivial: the holder's change altered a byte; distinct by hash of the case.",
		modes: []*mode{
			{name: "held", weight: 100, gen: genHeld, run: runHeld},
			{name: "heldrace", race: true, weight: 100, gen: func(g g) *Case { c := genHeld(g); c.Mode = "heldrace"; return c }, run: runHeld},
		}}
}
