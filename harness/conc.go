package harness

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
)

// Concurrent cases. Op.Which says which goroutine makes a call; every
// goroutine makes its calls in order, P["rep"] times over.

func (c *Case) split() [][]int {
	n := 0
	for _, w := range c.Which {
		if w+1 > n {
			n = w + 1
		}
	}
	o := make([][]int, n)
	for i, w := range c.Which {
		o[w] = append(o[w], i)
	}
	return o
}

// together runs one function per goroutine after a common start.
func together(n int, f func(gr int)) {
	var ready, wg sync.WaitGroup
	start := make(chan struct{})
	ready.Add(n)
	wg.Add(n)
	for i := 0; i < n; i++ {
		go func(i int) {
			defer wg.Done()
			ready.Done()
			<-start
			f(i)
		}(i)
	}
	ready.Wait()
	close(start)
	wg.Wait()
}

// share makes a second handle on the same buffer, for another goroutine.
func (im *Impl) share() *Impl {
	return &Impl{kindOf: im.kindOf, b: im.b, noView: im.noView}
}

var frameRe = regexp.MustCompile(`(?m)^\s+\S*crunch\S*\.(\S+)\(`)

// raceReport extracts the calls involved from the newest race report.
func raceReport() string {
	fs, _ := filepath.Glob(filepath.Join(os.Getenv("VERIF_SCRATCH"), "race.[0-9]*"))
	sort.Strings(fs)
	if len(fs) == 0 {
		return ""
	}
	b, _ := os.ReadFile(fs[len(fs)-1])
	s := string(b)
	if i := strings.LastIndex(s, "WARNING: DATA RACE"); i >= 0 {
		s = s[i:]
	}
	seen := map[string]bool{}
	var o []string
	for _, m := range frameRe.FindAllStringSubmatch(s, -1) {
		if !seen[m[1]] {
			seen[m[1]] = true
			o = append(o, m[1])
		}
	}
	return strings.Join(o, ", ")
}

// concRun runs the goroutines of c against im; res[i] gets the result of the
// last repetition of call i. check, when set, sees every result.
func concRun(c *Case, ims []*Impl, locked bool, check func(i int, r *Result) string) (res []Result, bad string, races int) {
	res = make([]Result, len(c.Ops))
	gs := c.split()
	rep := int(c.P["rep"])
	if rep < 1 {
		rep = 1
	}
	bads := make([]string, len(gs))
	before := raceErrors()
	entering(true)
	together(len(gs), func(gr int) {
		im := ims[gr%len(ims)].share()
		l, _ := im.b.(locker)
		for k := 0; k < rep; k++ {
			for _, i := range gs[gr] {
				if locked {
					l.Lock()
				}
				r := im.apply(&c.Ops[i])
				if locked {
					l.Unlock()
				}
				tick(gr)
				if check != nil && bads[gr] == "" {
					bads[gr] = check(i, &r)
				}
				res[i] = r
			}
		}
	})
	entering(false)
	races = raceErrors() - before
	for _, b := range bads {
		if b != "" {
			bad = b
			break
		}
	}
	return
}

// seqRun makes the same calls one goroutine after the other.
func seqRun(c *Case, im *Impl, locked bool, r *Run, check func(i int, r *Result) string) (res []Result, bad string, held int) {
	res = make([]Result, len(c.Ops))
	held = -1
	rep := int(c.P["rep"])
	if rep < 1 {
		rep = 1
	}
	for _, g := range c.split() {
		for k := 0; k < rep; k++ {
			for _, i := range g {
				if locked {
					im.b.(locker).Lock()
				}
				entering(true)
				x := im.apply(&c.Ops[i])
				entering(false)
				if locked {
					im.b.(locker).Unlock()
				}
				res[i] = x
				if im.lockHeld() {
					held = i
					return
				}
				if check != nil && bad == "" {
					bad = check(i, &x)
				}
			}
		}
	}
	return
}

// refused tells which calls have to be refused: those at an explicit position
// out of range, and bit values other than 0 and 1. The size stays as it is in
// these cases, so that does not depend on the schedule.
func (c *Case) refused() []bool {
	tr := kinds[c.Kinds[0]].traits
	s := newState(concat(buildAll(c.Init[0], nil)))
	o := make([]bool, len(c.Ops))
	if tr.mini {
		return o
	}
	for i := range c.Ops {
		if op := &c.Ops[i]; isAccess(op.K) && !op.Next && tr.supports(op) {
			x := spec(tr, &s, op)
			o[i] = !x.Ok && !x.Undefined && !x.Partial
		}
	}
	return o
}

// mixRefused puts calls that are refused between those of some goroutines.
func (c *Case) mixRefused(g g, lists [][]Op) {
	if kinds[c.Kinds[0]].mini || !g.pct(35) {
		return
	}
	for w := range lists {
		var more []Op
		for _, o := range g.historyOn(profRefused, concat(buildAll(c.Init[0], nil)), c.Kinds[0]) {
			d := Case{Kinds: c.Kinds, Init: c.Init, Ops: []Op{o}}
			if d.refused()[0] {
				more = append(more, o)
			}
		}
		for _, o := range more {
			at := g.n(len(lists[w]) + 1)
			lists[w] = append(lists[w][:at:at], append([]Op{o}, lists[w][at:]...)...)
		}
	}
}

var profRefused = prof(4, 0, 0, weights{"rej": 1})

func anyPanic(rs []Result) int {
	for i := range rs {
		if rs[i].Panicked {
			return i
		}
	}
	return -1
}

// conc runs c sequentially and then concurrently. expectFinal checks the final
// state, check every result; both are first tried on the sequential run: what
// already fails there is some other property's violation.
func conc(c *Case, r *Run, locked, compareRes bool, check func(i int, r *Result) string, final func(s *State) string) *Failure {
	name := c.Kinds[0]
	gs := c.split()
	r.trivial = true
	n := 0
	for _, g := range gs {
		if len(g) > 0 {
			n++
		}
	}
	if n < 2 {
		return nil
	}
	mk := func() *Impl {
		im := newImpl(name, buildAll(c.Init[0], nil)...)
		im.noView = c.P["noview"] != 0
		return im
	}
	im := mk()
	seq, bad, held := seqRun(c, im, locked, r, check)
	refused := c.refused()
	unlike := func(rs []Result) int {
		for i := range rs {
			if rs[i].Panicked != refused[i] {
				return i
			}
		}
		return -1
	}
	if held >= 0 && refused[held] {
		return nil // another property's
	}
	if held >= 0 {
		return failf(held, "%s: %v: the buffer's lock is held after the call", name, &c.Ops[held])
	}
	if bad != "" || unlike(seq) >= 0 {
		return nil
	}
	s := im.observe()
	if final != nil && final(&s) != "" {
		return nil
	}
	im = mk()
	res, bad, races := concRun(c, []*Impl{im}, locked, check)
	r.steps += len(c.Ops)
	r.judged += len(c.Ops)
	r.trivial = false
	for i := range c.Ops {
		o := &c.Ops[i]
		w := o.K
		if o.T != "" {
			w += ":" + o.T
		}
		if refused[i] {
			w = "refused"
		}
		r.label(w)
	}
	r.label(fmt.Sprintf("%d goroutines", n))
	if races > 0 {
		return failf(-1, "%s: data race between concurrent calls (in %s)", name, raceReport())
	}
	if im.lockHeld() {
		return failf(-1, "%s: the buffer's lock is held after all concurrent calls returned", name)
	}
	if i := unlike(res); i >= 0 && refused[i] {
		return failf(i, "%s: %v is refused, but under concurrency it is not", name, &c.Ops[i])
	} else if i >= 0 {
		return failf(i, "%s: %v panicked with %s under concurrency only", name, &c.Ops[i], res[i].errName(im.kindOf))
	}
	if bad != "" {
		return failf(-1, "%s: %s", name, bad)
	}
	if compareRes {
		for i := range res {
			if !eqU64(res[i].Vals, seq[i].Vals) {
				return failf(i, "%s: %v: under concurrency %s", name, &c.Ops[i], describeVals(seq[i].Vals, res[i].Vals))
			}
		}
	}
	if final != nil {
		s := im.observe()
		if b := final(&s); b != "" {
			return failf(-1, "%s: after all concurrent calls: %s", name, b)
		}
	}
	return nil
}

/* C17 */

var lockKinds = []string{"v1.Buffer", "v2.Buffer"}

func concCase(g g, ks []string, size int) *Case {
	c := &Case{Kinds: []string{pickS(g, ks)}, P: map[string]int64{}}
	c.Init = [][]SliceSpec{{{D: g.bytes(size)}}}
	return c
}

// interleaveInto appends per-goroutine lists; the order across goroutines in
// the case is immaterial.
func (c *Case) adopt(lists [][]Op) {
	for w, l := range lists {
		for _, o := range l {
			c.Ops = append(c.Ops, o)
			c.Which = append(c.Which, w)
		}
	}
}

type segment struct{ lo, hi int64 } // bits

// genRegions: every goroutine owns some segments of the bit space, cut at
// arbitrary bits so that neighbours share bytes.
func genRegions(g g) *Case {
	size := 2 + g.n(60)
	base := 0
	if g.pct(40) { // the goroutines meet further on
		base = g.size(0)
		size += base
	}
	c := concCase(g, lockKinds, size+g.n(8))
	n := 2 + g.n(3)
	own := make([][]segment, n)
	lo := int64(base) * 8
	for i := 0; lo < int64(size)*8; i++ {
		hi := minI(int64(size)*8, lo+1+g.in(0, 40))
		if g.pct(25) {
			hi = minI(int64(size)*8, lo+1+g.in(0, 160))
		}
		w := i % n
		if i >= n {
			w = g.n(n)
		}
		own[w] = append(own[w], segment{lo, hi})
		lo = hi
	}
	tr := kinds[c.Kinds[0]].traits
	lists := make([][]Op, n)
	for w := range lists {
		if len(own[w]) == 0 {
			continue
		}
		h := &hist{g: g, trs: []traits{tr}, p: &profile{}}
		for k := 2 + g.n(14); k > 0; k-- {
			s := pickS(g, own[w])
			b0, b1 := (s.lo+7)/8, s.hi/8
			var o Op
			if b1 > b0 && g.pct(55) {
				o.K = pickS(g, []string{"w", "w", "r"})
				o.T = pickS(g, h.types(o.K))
				if elemSize(o.T) > b1-b0 {
					o.T = "b"
				}
				if elemSize(o.T) > 1 || o.T == "c8" {
					o.E = pickS(g, []string{"LE", "BE"})
				}
				u := elemSize(o.T)
				m := g.in(1, (b1-b0)/u)
				if o.T == "1" {
					m = 1
				}
				o.Off = b0 + g.in(0, b1-b0-m*u)
				h.fillIn(&o, m)
			} else {
				o.K = pickS(g, []string{"rbit", "sbit", "sbit", "fbit", "fbit", "rbits", "sbits"})
				m := int64(1)
				if o.K == "rbits" || o.K == "sbits" {
					m = g.in(1, minI(64, s.hi-s.lo))
				}
				o.Off = g.in(s.lo, s.hi-m)
				h.fillIn(&o, m)
			}
			lists[w] = append(lists[w], o)
			if g.pct(12) {
				lists[w] = append(lists[w], Op{K: pickS(g, []string{"seek", "seekbit"}), Rel: true, Off: g.in(-9, 9)})
			}
		}
	}
	c.mixRefused(g, lists)
	c.adopt(lists)
	c.P["rep"] = g.in(1, 6)
	return c
}

// separate reports whether the outcome of c does not depend on the schedule:
// its calls are flips and relative seeks, or touch bits only one goroutine
// touches. Generated cases are; cut-down ones need not be.
func (c *Case) separate() bool {
	counts := true
	refused := c.refused()
	for i := range c.Ops {
		if refused[i] {
			continue
		}
		switch o := &c.Ops[i]; o.K {
		case "seek", "seekbit":
			if !o.Rel {
				return false
			}
		case "flip", "fbit":
		default:
			counts = false
		}
	}
	if counts {
		return true
	}
	owner := map[int64]int{}
	for i := range c.Ops {
		o := &c.Ops[i]
		if refused[i] {
			continue
		}
		var lo, hi int64
		switch o.K {
		case "seek", "seekbit":
			continue
		case "w", "r":
			lo = o.Off * 8
			hi = lo + o.count()*elemSize(o.T)*8
		case "rbit", "sbit", "fbit":
			lo, hi = o.Off, o.Off+1
		case "rbits", "sbits":
			lo, hi = o.Off, o.Off+o.N
		default:
			return false
		}
		if o.Next || hi-lo > 1<<20 {
			return false
		}
		for b := lo; b < hi; b++ {
			if w, ok := owner[b]; ok && w != c.Which[i] {
				return false
			}
			owner[b] = c.Which[i]
		}
	}
	return true
}

func runRegions(c *Case, r *Run) *Failure {
	if !c.separate() {
		r.trivial = true
		r.label("not separate")
		return nil
	}
	tr := kinds[c.Kinds[0]].traits
	exp := newState(concat(buildAll(c.Init[0], nil)))
	vals := make([][]uint64, len(c.Ops))
	refused := c.refused()
	for _, g := range c.split() {
		for k := int64(0); k < maxI(1, c.P["rep"]); k++ {
			for _, i := range g {
				if refused[i] {
					continue
				}
				x := spec(tr, &exp, &c.Ops[i])
				if x.Undefined || !x.Ok {
					return nil
				}
				exp = x.Post
				vals[i] = x.Vals
			}
		}
	}
	return conc(c, r, false, true, nil, func(s *State) string {
		if d := diffState(&exp, s, nil); len(d) > 0 {
			return d[0].msg + " (each goroutine changed only bits of its own)"
		}
		return ""
	})
}

// genCounts: flips and relative seeks, none of which may get lost.
func genCounts(g g) *Case {
	size := 1 + g.n(12)
	base := 0
	if g.pct(50) {
		base = g.size(0)
	}
	c := concCase(g, lockKinds, base+size)
	n := 2 + g.n(4)
	few := 1 + g.n(size*8)
	lists := make([][]Op, n)
	for w := range lists {
		for k := 1 + g.n(5); k > 0; k-- {
			switch g.n(8) {
			case 0:
				lists[w] = append(lists[w], Op{K: "flip"})
			case 1, 2:
				lists[w] = append(lists[w], Op{K: "seek", Rel: true, Off: g.in(-5, 9)})
			case 3:
				lists[w] = append(lists[w], Op{K: "seekbit", Rel: true, Off: g.in(-5, 9)})
			default:
				lists[w] = append(lists[w], Op{K: "fbit", Off: int64(base)*8 + g.in(0, int64(few)-1)})
			}
		}
	}
	c.mixRefused(g, lists)
	c.adopt(lists)
	c.P["rep"] = 2*g.in(1, 60) + 1
	return c
}

// genUniform: writes of one repeated byte over one range, fills, and reads of
// that range, which may never see two different bytes.
func genUniform(g g) *Case {
	r := 8 * (1 + g.n(16))
	if g.pct(30) {
		r = 8 * (1 + g.n(200))
	}
	lo := g.n(20)
	c := concCase(g, lockKinds, lo+r+g.n(20))
	d := c.Init[0][0].D
	for i := 0; i < r; i++ {
		d[lo+i] = 0x11
	}
	c.P["lo"], c.P["r"] = int64(lo), int64(r)
	n := 2 + g.n(3)
	lists := make([][]Op, n)
	tr := kinds[c.Kinds[0]].traits
	for w := range lists {
		for k := 1 + g.n(4); k > 0; k-- {
			switch x := g.n(8); {
			case x == 0:
				lists[w] = append(lists[w], Op{K: pickS(g, []string{"clear", "set", "flip", "flip"})})
			case x < 5:
				o := Op{K: "w", Off: int64(lo), T: pickS(g, []string{"b", "u16", "u32", "u64", "u64", "c8"}), E: pickS(g, []string{"LE", "BE"})}
				if o.T == "c8" && tr.ver != 1 {
					o.T = "b"
				}
				if o.T == "b" {
					o.E = ""
				}
				tag := uint64(1+g.n(254)) * 0x0101010101010101
				for i := int64(0); i < int64(r)/elemSize(o.T); i++ {
					o.D = append(o.D, maskType(o.T, tag))
				}
				lists[w] = append(lists[w], o)
			default:
				o := Op{K: "r", Off: int64(lo), T: pickS(g, []string{"u16", "u32", "u64"}), E: pickS(g, []string{"LE", "BE"})}
				o.N = int64(r) / elemSize(o.T)
				lists[w] = append(lists[w], o)
			}
		}
	}
	c.adopt(lists)
	c.P["rep"] = g.in(1, 40)
	return c
}

func runUniform(c *Case, r *Run) *Failure {
	lo, n := c.P["lo"], c.P["r"]
	for i := range c.Ops {
		o := &c.Ops[i]
		ok := o.K == "clear" || o.K == "set" || o.K == "flip"
		if o.K == "w" || o.K == "r" {
			ok = o.Off == lo && o.count()*elemSize(o.T) == n && !o.Next
			for _, d := range o.D {
				ok = ok && d == maskType(o.T, (o.D[0]&0xFF)*0x0101010101010101)
			}
		}
		if !ok { // a cut-down case that the argument below does not cover
			r.trivial = true
			return nil
		}
	}
	return conc(c, r, false, false, func(i int, res *Result) string {
		o := &c.Ops[i]
		if o.K != "r" || res.Panicked {
			return ""
		}
		if int64(len(res.Vals)) != o.N {
			return fmt.Sprintf("%v gave %d elements", o, len(res.Vals))
		}
		want := maskType(o.T, (res.Vals[0]&0xFF)*0x0101010101010101)
		for j, v := range res.Vals {
			if v != want {
				return fmt.Sprintf("%v saw a torn state: element %d is %#x, element 0 is %#x (every write and fill makes all bytes equal)", o, j, v, res.Vals[0])
			}
		}
		return ""
	}, func(s *State) string {
		if int64(len(s.Buf)) < lo+n {
			return "the buffer shrank"
		}
		for j := lo; j < lo+n; j++ {
			if s.Buf[j] != s.Buf[lo] {
				return fmt.Sprintf("bytes %d and %d are %#02x and %#02x, although every write and fill makes all of them equal", lo, j, s.Buf[lo], s.Buf[j])
			}
		}
		return ""
	})
}

// genMixed: anything the property covers, overlapping at will.
func genMixed(g g) *Case {
	size := 1 + g.n(40)
	if g.pct(10) {
		size += g.n(2000)
	}
	c := concCase(g, lockKinds, size)
	n := 2 + g.n(4)
	lists := make([][]Op, n)
	p := prof(8, 0, 0, weights{"w": 10, "r": 10, "rbit": 6, "sbit": 6, "fbit": 6, "rbits": 5, "sbits": 5, "fill": 5, "seek": 4, "seekbit": 4, "align": 4})
	for w := range lists {
		for _, o := range g.historyOn(p, c.Init[0][0].D, c.Kinds[0]) {
			lists[w] = append(lists[w], o)
		}
	}
	c.mixRefused(g, lists)
	c.adopt(lists)
	c.P["rep"] = g.in(1, 8)
	c.P["noview"] = 1
	return c
}

func runMixed(c *Case, r *Run) *Failure { return conc(c, r, false, false, nil, nil) }

/* C18 */

func genReaders(g g) *Case {
	c := concCase(g, allKinds, 1+g.size(1200))
	k := c.Kinds[0]
	n := 2 + g.n(4)
	lists := make([][]Op, n)
	p := prof(8, 3, 0, weights{"r": 10, "rbit": 5, "rbits": 5, "after": 4})
	for w := range lists {
		lists[w] = g.historyOn(p, c.Init[0][0].D, k)
		for j := g.n(3); j > 0; j-- {
			o := Op{K: "get", V: uint64(g.n(4))}
			if g.pct(20) {
				o = Op{K: "bytes"}
			}
			lists[w] = append(lists[w], o)
		}
	}
	c.mixRefused(g, lists)
	c.adopt(lists)
	c.P["rep"] = g.in(1, 5)
	// the cursors the readers find
	c.P["off"], c.P["boff"] = g.in(0, 20), g.in(0, 99)
	return c
}

func runReaders(c *Case, r *Run) *Failure {
	gs := c.split()
	r.trivial = true
	im := newImpl(c.Kinds[0], buildAll(c.Init[0], nil)...)
	im.apply(&Op{K: "seek", Off: c.P["off"]})
	im.apply(&Op{K: "seekbit", Off: c.P["boff"]})
	if im.lockHeld() || len(gs) < 2 {
		return nil
	}
	before := im.observe()
	one := *c
	one.P = map[string]int64{"rep": 1}
	seq, _, held := seqRun(&one, im, false, r, nil)
	refused := c.refused()
	if held >= 0 {
		return nil
	}
	for i := range seq {
		if seq[i].Panicked != refused[i] {
			return nil
		}
	}
	mid := im.observe()
	if len(diffState(&before, &mid, nil)) > 0 {
		return nil // reads that write: other properties
	}
	seqVals := make([][]uint64, len(seq))
	for i := range seq {
		seqVals[i] = append([]uint64(nil), seq[i].Vals...)
	}
	_, bad, races := concRun(c, []*Impl{im}, false, func(i int, x *Result) string {
		if refused[i] && x.Panicked && x.errName(im.kindOf) == seq[i].errName(im.kindOf) {
			return ""
		}
		if refused[i] && !x.Panicked {
			return fmt.Sprintf("%v is refused, but not while others read", &c.Ops[i])
		}
		if x.Panicked {
			return fmt.Sprintf("%v panicked with %s only while others read", &c.Ops[i], x.errName(im.kindOf))
		}
		if !eqU64(x.Vals, seqVals[i]) {
			return fmt.Sprintf("%v while others read: %s", &c.Ops[i], describeVals(seqVals[i], x.Vals))
		}
		return ""
	})
	r.steps += len(c.Ops)
	r.judged += len(c.Ops)
	r.trivial = false
	r.label(fmt.Sprintf("%d goroutines", len(gs)))
	for i := range c.Ops {
		if refused[i] {
			r.label("refused")
			continue
		}
		r.label(c.Ops[i].K)
	}
	if races > 0 {
		return failf(-1, "%s: data race between concurrent reads (in %s)", im.name, raceReport())
	}
	if bad != "" {
		return failf(-1, "%s: %s", im.name, bad)
	}
	after := im.observe()
	if d := diffState(&before, &after, nil); len(d) > 0 {
		return failf(-1, "%s: after concurrent reads: %s", im.name, d[0].msg)
	}
	return nil
}

/* C19 */

var miniLock = []string{"v1.MiniBuffer", "v2.MiniBuffer"}

var profC19 = prof(12, 3, 45, ambient.with(weights{"w": 8, "r": 8, "rbit": 4, "rbits": 4, "inv": 6, "zero": 3, "fill": 3, "align": 4, "after": 3, "grow": 4, "reset": 2, "refresh": 3}))

func genLockSeq(g g) *Case {
	k := pickS(g, miniLock)
	init, ops := g.history(profC19, k)
	c := one("C19", k, init, ops)
	for i := 0; i < 2; i++ {
		at := g.n(len(c.Ops) + 1)
		o := Op{K: "get", V: uint64(g.n(4))}
		if g.pct(30) {
			o = Op{K: "bytes"}
		}
		c.Ops = append(c.Ops[:at:at], append([]Op{o}, c.Ops[at:]...)...)
	}
	c.P = map[string]int64{"held": int64(g.n(2))}
	return c
}

func runLockSeq(c *Case, r *Run) *Failure {
	im := newImpl(c.Kinds[0], buildAll(c.Init[0], nil)...)
	l := im.b.(locker)
	pre := im.observe()
	held := c.P["held"] != 0
	r.label(fmt.Sprintf("lock held by the caller: %v", held))
	for i := range c.Ops {
		o := &c.Ops[i]
		if o.K != "get" && o.K != "bytes" {
			if x := spec(im.traits, &pre, o); x.Undefined {
				continue
			}
		}
		if held {
			l.Lock()
		}
		entering(true)
		im.apply(o)
		entering(false)
		r.steps++
		r.judged++
		r.label(o.K)
		free := l.TryLock()
		if free != !held {
			if free {
				return failf(i, "%s: %v, made while the caller held the lock, released it", im.name, o)
			}
			return failf(i, "%s: %v took the lock and left it held", im.name, o)
		}
		l.Unlock()
		pre = im.observe()
	}
	r.trivial = r.judged == 0
	return nil
}

// runGuarded makes every call under the lock while somebody else keeps trying
// for it: it must not come free before the caller gives it back.
func runGuarded(c *Case, r *Run) *Failure {
	if n := runtime.GOMAXPROCS(0); n < 2 {
		runtime.GOMAXPROCS(2)
		defer runtime.GOMAXPROCS(n)
	}
	im := newImpl(c.Kinds[0], buildAll(c.Init[0], nil)...)
	l := im.b.(locker)
	pre := im.observe()
	var (
		inside, caught atomic.Int64 // number of the call being made, of one that gave the lock up
		ready, stop    atomic.Bool
		trying         atomic.Bool
		done           = make(chan bool)
	)
	go func() {
		defer close(done)
		for !stop.Load() {
			ready.Store(true)
			trying.Store(true)
			if k := inside.Load(); k != 0 && l.TryLock() {
				if inside.Load() == k {
					caught.Store(k)
				}
				l.Unlock()
			}
			trying.Store(false)
		}
	}()
	defer func() { stop.Store(true); <-done }()
	for !ready.Load() {
		runtime.Gosched()
	}
	for i := range c.Ops {
		o := &c.Ops[i]
		if o.K != "get" && o.K != "bytes" {
			if x := spec(im.traits, &pre, o); x.Undefined {
				continue
			}
		}
		l.Lock()
		inside.Store(int64(i + 1))
		entering(true)
		im.apply(o)
		entering(false)
		inside.Store(0)
		for trying.Load() { // from now on nobody else touches the lock
			runtime.Gosched()
		}
		r.steps++
		r.judged++
		r.label(o.K)
		if k := caught.Load(); k != 0 {
			stop.Store(true)
			return failf(int(k)-1, "%s: %v, made while the caller held the lock, gave it up for a while", im.name, &c.Ops[k-1])
		}
		if l.TryLock() {
			l.Unlock()
			return failf(i, "%s: %v, made while the caller held the lock, released it", im.name, o)
		}
		pre = im.observe()
		l.Unlock()
	}
	r.trivial = r.judged == 0
	return nil
}

// genAppend: goroutines append tagged elements at the cursor under the lock.
func genAppend(g g) *Case {
	k := pickS(g, miniLock)
	tr := kinds[k].traits
	n := 2 + g.n(4)
	rep := g.in(1, 12)
	lists := make([][]Op, n)
	total := int64(0)
	for w := range lists {
		for j := 1 + g.n(3); j > 0; j-- {
			o := Op{K: "w", Next: true, T: pickS(g, []string{"b", "u16", "u32", "u64"}), E: pickS(g, []string{"LE", "BE"})}
			if o.T == "b" {
				o.E = ""
			}
			m := g.in(1, 5)
			for ; m > 0; m-- {
				o.D = append(o.D, maskType(o.T, uint64(w+1)*0x0101010101010101))
			}
			total += int64(len(o.D)) * elemSize(o.T) * rep
			lists[w] = append(lists[w], o)
			if g.pct(30) {
				lists[w] = append(lists[w], Op{K: "fbit", Next: true})
				total += 0
			}
		}
	}
	_ = tr
	c := &Case{Kinds: []string{k}, P: map[string]int64{"rep": rep}}
	c.adopt(lists)
	// room for every append and every flipped bit (flips go to a tail of their own)
	flips := int64(0)
	for i := range c.Ops {
		if c.Ops[i].K == "fbit" {
			flips += rep
		}
	}
	c.P["tail"] = total
	c.Init = [][]SliceSpec{{{D: make([]byte, total+flips/8+1)}}}
	return c
}

func runAppend(c *Case, r *Run) *Failure {
	name := c.Kinds[0]
	r.trivial = true
	gs := c.split()
	if len(gs) < 2 {
		return nil
	}
	total := c.P["tail"]
	run := func(conc bool) (string, *Failure) {
		im := newImpl(name, buildAll(c.Init[0], nil)...)
		im.apply(&Op{K: "seekbit", Off: total * 8})
		counts := make([]int64, len(gs)+1)
		flips := int64(0)
		for i := range c.Ops {
			o := &c.Ops[i]
			if o.K == "fbit" {
				flips += c.P["rep"]
			} else {
				counts[c.Which[i]+1] += int64(len(o.D)) * elemSize(o.T) * c.P["rep"]
			}
		}
		if conc {
			_, _, races := concRun(c, []*Impl{im}, true, nil)
			if races > 0 {
				return "", failf(-1, "%s: data race although every call is made under the buffer's lock (in %s)", name, raceReport())
			}
		} else if _, _, held := seqRun(c, im, true, r, nil); held >= 0 {
			return "", failf(held, "%s: %v: lock held after the caller released it", name, &c.Ops[held])
		}
		if im.lockHeld() {
			return "", failf(-1, "%s: lock held after every caller released it", name)
		}
		s := im.observe()
		sum := int64(0)
		got := make([]int64, 256)
		for _, b := range s.Buf[:minI(total, int64(len(s.Buf)))] {
			got[b]++
		}
		for w := range counts {
			sum += counts[w]
			if w > 0 && got[w] != counts[w] {
				return fmt.Sprintf("%d bytes appended by goroutine %d are there, it wrote %d", got[w], w-1, counts[w]), nil
			}
		}
		if s.Off != sum || s.Boff != total*8+flips {
			return fmt.Sprintf("cursors are %d and %d, expected %d and %d", s.Off, s.Boff, sum, total*8+flips), nil
		}
		if total+flips/8 < int64(len(s.Buf)) {
			want := make([]byte, len(s.Buf)-int(total))
			for i := int64(0); i < flips; i++ {
				putBit(want, i, 1)
			}
			if !bytes.Equal(want, s.Buf[total:]) {
				return "bits flipped at the bit cursor are not each flipped once", nil
			}
		}
		return "", nil
	}
	msg, f := run(false)
	if f != nil {
		return f
	}
	if msg != "" {
		return nil // wrong even without concurrency
	}
	msg, f = run(true)
	r.steps += len(c.Ops)
	r.judged += len(c.Ops)
	r.trivial = false
	r.label(fmt.Sprintf("%d goroutines", len(gs)))
	if f != nil {
		return f
	}
	if msg != "" {
		return failf(-1, "%s: calls under the caller's lock: %s", name, msg)
	}
	return nil
}

/* C14: different buffers used from different goroutines */

func genParallel(g g) *Case {
	c := genInterleave(g)
	c.P = map[string]int64{"rep": 1}
	return c
}

func runParallel(c *Case, r *Run) *Failure {
	r.trivial = true
	none := func(tr traits, o *Op, x *Expect, a string) bool { return a == "call" }
	alone := make([]outcome, len(c.Ops))
	d := *c
	d.Ops, d.Which = nil, nil
	final := make([]State, len(c.Kinds))
	used := map[int]bool{}
	for b := range c.Kinds {
		st := newStepper(c.Kinds[b], buildAll(c.Init[b], nil), none, &Run{labels: map[string]int{}})
		for i := range c.Ops {
			if c.Which[i] != b {
				continue
			}
			e := c.Ops[i]
			e.Look = 1
			st.do(i, &e)
			if st.dead {
				return nil
			}
			if st.made {
				alone[len(d.Ops)] = outcome{true, st.res.Panicked, st.res.errName(st.im.kindOf), append([]uint64(nil), st.res.Vals...), State{}}
				d.Ops = append(d.Ops, c.Ops[i])
				d.Which = append(d.Which, b)
				used[b] = true
			}
		}
		final[b] = st.im.observe()
	}
	if len(used) < 2 {
		return nil
	}
	ims := make([]*Impl, len(c.Kinds))
	for b := range ims {
		ims[b] = newImpl(c.Kinds[b], buildAll(c.Init[b], nil)...)
	}
	res, _, races := concRun(&d, ims, false, nil)
	r.trivial = false
	r.steps += len(d.Ops)
	r.judged += len(d.Ops)
	r.label("parallel")
	if races > 0 {
		return failf(-1, "data race between calls on different buffers %v (in %s)", c.Kinds, raceReport())
	}
	for i := range d.Ops {
		a, k := &alone[i], kinds[c.Kinds[d.Which[i]]]
		where := fmt.Sprintf("%s: %v, while other buffers are used by other goroutines", k.name, &d.Ops[i])
		if res[i].Panicked != a.panicked || res[i].errName(k) != a.err {
			return failf(i, "%s: panicked=%v %s, alone: panicked=%v %s", where, res[i].Panicked, res[i].errName(k), a.panicked, a.err)
		}
		if !eqU64(res[i].Vals, a.vals) {
			return failf(i, "%s: %s (expected: what it gives alone)", where, describeVals(a.vals, res[i].Vals))
		}
	}
	for b, im := range ims {
		s := im.observe()
		if df := diffState(&final[b], &s, nil); len(df) > 0 {
			return failf(-1, "%s: buffer %d, used in parallel with others: %s", im.name, b, df[0].msg)
		}
	}
	return nil
}

func initConc() {
	wrap := func(id string, ms ...*mode) {
		for _, m := range ms {
			gen, name := m.gen, m.name
			m.gen = func(g g) *Case {
				c := gen(g)
				c.Prop, c.Mode = id, name
				return c
			}
		}
	}
	const ruleConc = " Every case is first run one goroutine after the other (to have the expected results and to leave sequential defects to their own properties), then concurrently in a race-detector build. Non-trivial: at least two goroutines made calls; distinct by hash of the case."
	properties["C17"] = &property{id: "C17", rule: "One case is a v1 or v2 Buffer and 2 to 5 goroutines with generated explicit-position calls, fills, seeks and aligns. Modes: regions (each goroutine owns bit segments, results and contents exact), counts (flips and relative seeks, none lost), uniform (equal-byte writes, fills and reads of one range, never torn), mixed (everything overlapping; no race, panic, deadlock or held lock), orders (one call against one to three of another goroutine, which is given the lock as soon as the first lets go of it: results and state are those of some order)." + ruleConc,
		modes: []*mode{
			{name: "regions", race: true, weight: 30, gen: genRegions, run: runRegions},
			{name: "counts", race: true, weight: 20, gen: genCounts, run: runRegions},
			{name: "uniform", race: true, weight: 20, gen: genUniform, run: runUniform},
			{name: "mixed", race: true, weight: 30, gen: genMixed, run: runMixed},
			{name: "orders", solo: true, weight: 100, gen: genOrders, run: runOrders},
		}}
	properties["C18"] = &property{id: "C18", rule: "One case is a buffer of any type and 2 to 5 goroutines making generated explicit-position reads, 'after' queries and getter calls; every result has to be the one it gives alone." + ruleConc,
		modes: []*mode{{name: "readers", race: true, weight: 100, gen: genReaders, run: runReaders}}}
	properties["C19"] = &property{id: "C19", rule: "Mode 'lock': one v1 or v2 MiniBuffer and a history, each call made with the lock held by the caller or free, and the lock inspected after it. Mode 'guarded': the same with the lock held and a second goroutine trying for it all the time; it must not get it during a call. Mode 'append': goroutines append tagged elements and flip bits at the cursors under the lock; every one has to be there once." + ruleConc,
		modes: []*mode{
			{name: "lock", weight: 100, gen: genLockSeq, run: runLockSeq},
			{name: "append", race: true, weight: 100, gen: genAppend, run: runAppend},
			{name: "guarded", solo: true, weight: 100, gen: genLockSeq, run: runGuarded},
		}}
	for _, id := range []string{"C17", "C18", "C19"} {
		wrap(id, properties[id].modes...)
	}
	par := &mode{name: "parallel", race: true, weight: 100, gen: genParallel, run: runParallel}
	wrap("C14", par)
	properties["C14"].modes = append(properties["C14"].modes, par)
	properties["C14"].modes = append(properties["C14"].modes, &mode{name: "crowd", solo: true, weight: 100, gen: genCrowd, run: runCrowd})
	properties["C14"].rule += " Mode 'crowd': up to several thousand buffers alive at once, calls on all of them in turn, every decoded result and written argument kept and looked at again in the end."
	properties["C14"].rule += " Mode 'parallel': the same histories, each buffer used by its own goroutine, in a race-detector build."
}
