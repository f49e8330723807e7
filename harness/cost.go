package harness

import (
	"fmt"
	"runtime"
	"syscall"
	"time"
	"unsafe"
)

// C26: calls cost in proportion to what they move, and leave nothing behind.
//
// Mode "large": a buffer over 64 MiB of memory nobody has touched yet. After
// every small access, the memory the call allocated is compared with what it
// was asked to move, and the pages of the storage that are in memory now with
// those it was to access.
//
// Mode "again": one history made tens of thousands of times on one buffer; the
// memory in use afterwards may not keep growing, nor may goroutines remain.

const (
	costSize = int64(64) << 20
	costKeep = 16 // pages outside the accessed ones that nobody asks about
	costFree = 64 << 10
)

var costMem []byte
var costTried, costPages bool

func costRegion() []byte {
	if costTried {
		return costMem
	}
	costTried = true
	const noreserve, nohuge = 0x4000, 15
	m, err := syscall.Mmap(-1, 0, int(costSize), syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_PRIVATE|syscall.MAP_ANON|noreserve)
	if err != nil {
		return nil
	}
	syscall.Madvise(m, nohuge)
	// does this system tell which pages are in memory?
	none, ok := resident(m, 0, 0)
	if ok && none == 0 {
		m[5<<20] = 1
		one, _ := resident(m, 0, 0)
		x := m[9<<20]
		two, _ := resident(m, 0, 0)
		err := syscall.Madvise(m, syscall.MADV_DONTNEED)
		zero, _ := resident(m, 0, 0)
		costPages = one == 1 && two == 2 && x == 0 && err == nil && zero == 0
	}
	costMem = m
	return costMem
}

var residentVec []byte

// resident counts the pages of m that are in memory, outside [lo, hi).
func resident(m []byte, lo, hi int64) (n int, ok bool) {
	page := int64(syscall.Getpagesize())
	pages := (int64(len(m)) + page - 1) / page
	if int64(len(residentVec)) < pages {
		residentVec = make([]byte, pages)
	}
	v := residentVec[:pages]
	if _, _, e := syscall.Syscall(syscall.SYS_MINCORE, uintptr(unsafe.Pointer(&m[0])), uintptr(len(m)), uintptr(unsafe.Pointer(&v[0]))); e != 0 {
		return 0, false
	}
	for i, x := range v {
		if at := int64(i) * page; x&1 != 0 && (at+page <= lo || at >= hi) {
			n++
		}
	}
	return n, true
}

var allocStats runtime.MemStats

func allocated() uint64 {
	runtime.ReadMemStats(&allocStats) // exact: it stops the world
	return allocStats.TotalAlloc
}

func genLarge(g g) *Case {
	k := pickS(g, allKinds)
	win := 256
	if g.pct(20) {
		win = 1 << 14
	}
	w := weights{"w": 10, "r": 14, "rbit": 3, "sbit": 4, "fbit": 3, "rbits": 5, "sbits": 5, "seek": 3, "seekbit": 3, "align": 2, "after": 2, "refresh": 1, "rej": 5, "inv": 1, "zero": 2}
	h := &hist{g: g, trs: kindTraits(k), p: prof(10, 4, 45, w)}
	content := g.bytes(win)
	h.s = newState(content)
	for n := 1 + g.n(10); n > 0; n-- {
		h.step()
	}
	c := one("C26", k, []SliceSpec{{D: content}}, h.ops)
	base := pickS(g, []int64{0, costSize - int64(win), costSize / 2, 1 << 16, g.in(0, costSize-int64(win))})
	c.P = map[string]int64{"base": base}
	return c
}

func runLarge(c *Case, r *Run) *Failure {
	mem := costRegion()
	if mem == nil {
		r.label("no memory mapping")
		r.trivial = true
		return nil
	}
	syscall.Madvise(mem, syscall.MADV_DONTNEED)
	base, content := c.P["base"], c.Init[0][0].D
	win := int64(len(content))
	copy(mem[base:], content)
	im := newImpl(c.Kinds[0], mem)
	if !farStorage(im, mem) {
		r.label("storage was copied")
		r.trivial = true
		return nil
	}
	look := func() State {
		return State{Buf: append(make([]byte, 0, win), mem[base:base+win]...),
			Off: im.getter("off", 0) - base, Boff: im.getter("boff", 0) - 8*base,
			Cap: im.getter("cap", 0) - (costSize - win), Bcap: im.getter("bcap", 0) - 8*(costSize-win)}
	}
	im.apply(&Op{K: "seek", Off: base})
	im.apply(&Op{K: "seekbit", Off: 8 * base})
	if im.lockHeld() {
		return nil
	}
	pre := look()
	for i := range c.Ops {
		o := &c.Ops[i]
		x := spec(im.traits, &pre, o)
		if x.Undefined || resizes(o.K) || isFill(o.K) || o.K == "poke" || o.K == "bytes" {
			continue
		}
		if !x.Ok && isAccess(o.K) {
			start, unit, limit := o.span(&pre)
			over, under := rangeOf(start, o.count(), unit, limit)
			if o.K == "sbit" && o.V > 1 ||
				!(over && !under && base+win == costSize) && !(under && !over && base == 0) {
				continue // out of the window, not out of the buffer
			}
			if tooFar(start, o.count()) || o.count() > 1<<40 {
				continue
			}
		} else if !x.Ok && !any3(o.K, "rbad", "wbad", "wmis", "rord", "word") {
			continue
		}
		abs := *o
		switch {
		case o.K == "after":
			abs.Off += base
		case isBitKind(o.K) || o.K == "afterbit" || o.K == "seekbit" && !o.Rel:
			abs.Off += 8 * base
		case isAccess(o.K) || o.K == "seek" && !o.Rel || any3(o.K, "rbad", "wbad", "wmis", "rord", "word"):
			abs.Off += base
		}
		if o.K == "alignbyte" && pre.Boff+8*base < 0 {
			continue
		}
		entering(true)
		before := allocated()
		res := im.apply(&abs)
		used := int64(allocated() - before)
		entering(false)
		r.steps++
		r.judged++
		classify(r, im.traits, o, &x, &pre)
		// what the harness and the result need: a few words for every element
		moved := int64(len(o.D)) * 8
		if x.Ok && isAccess(o.K) && !isBitKind(o.K) {
			moved += (o.count() + int64(o.Pad)) * 8
		}
		at := fmt.Sprintf("%s of %d bytes: %v with positions counted from byte %d", im.name, costSize, o, base)
		if limit := costFree + 32*moved; used > limit {
			return failf(i, "%s: the call allocates %d bytes to move at most %d (limit %d)", at, used, moved, limit)
		}
		if costPages {
			if n, ok := resident(mem, base, base+win); ok && n > costKeep {
				return failf(i, "%s: the call reads or writes the storage in %d pages it has no business in", at, n)
			}
		} else {
			r.label("touched pages unknown here")
		}
		if im.lockHeld() || res.Panicked != !x.Ok {
			return nil
		}
		pre = look()
	}
	r.trivial = r.judged == 0
	return nil
}

func genAgain(g g) *Case {
	k := pickS(g, allKinds)
	w := ambient.with(weights{"w": 10, "r": 10, "rej": 4, "inv": 2, "poke": 0, "bytes": 0})
	if kinds[k].ver == 1 { // nothing there undoes growing
		w = w.with(weights{"grow": 0})
	}
	p := prof(7, 4, 40, w)
	p.sizes = 300
	init, ops := g.history(p, k)
	if len(ops) > 12 {
		ops = ops[:12]
	}
	return one("C26", k, init, ops)
}

func heapInUse() int64 {
	var m runtime.MemStats
	runtime.GC()
	runtime.GC()
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc)
}

func runAgain(c *Case, r *Run) *Failure {
	gone := runtime.NumGoroutine()
	im := newImpl(c.Kinds[0], buildAll(c.Init[0], c.Back)...)
	pre := im.observe()
	n0 := int64(len(pre.Buf))
	// which calls can be made, from a state every round can be brought back to
	reset := im.ver >= 2
	round := []Op{}
	if reset {
		round = append(round, Op{K: "reset"}, Op{K: "grow", N: n0})
	}
	round = append(round, Op{K: "seek"}, Op{K: "seekbit"})
	var ops []Op
	for i := -len(round); i < len(c.Ops); i++ {
		var o *Op
		if i < 0 {
			o = &round[i+len(round)]
		} else {
			o = &c.Ops[i]
		}
		x := spec(im.traits, &pre, o)
		if x.Undefined || o.K == "poke" || resizes(o.K) && !reset || o.K == "grow" && o.N > 1<<12 || len(o.D) > 1<<12 || o.count() > 1<<12 && x.Ok {
			continue
		}
		entering(true)
		res := im.apply(o)
		entering(false)
		if im.lockHeld() || res.Panicked != !x.Ok {
			break // of another property
		}
		e := *o
		e.D = append(make([]uint64, 0, len(o.D)), o.D...)
		ops = append(ops, e)
		pre = im.observe()
		r.judged++
		classify(r, im.traits, o, &x, &pre)
	}
	if len(ops) <= len(round) || im.lockHeld() {
		r.trivial = true
		return nil
	}
	again := buildAll(c.Init[0], c.Back)
	rounds := 40000 / len(ops)
	grew := []int64{}
	last := heapInUse()
	made := 0
	for len(grew) < 6 {
		// as often as before: whatever grows by doubling grows again
		for end := maxInt(2*made, rounds); made < end; made++ {
			n := made
			if n%4 == 0 { // and a buffer nobody keeps
				entering(true)
				newImpl(c.Kinds[0], again...)
				entering(false)
			}
			for i := range ops {
				// other values every time, as far as the outcome does not depend on them
				switch o := &ops[i]; o.K {
				case "w":
					if len(o.D) > 0 {
						o.D[n%len(o.D)] = maskType(o.T, mix(uint64(n+i)))
					}
				case "sbits":
					o.V = mix(uint64(n + i))
				case "after", "afterbit":
					o.Off = int64(mix(uint64(n)) >> 24)
				}
				entering(true)
				im.apply(&ops[i])
				entering(false)
				r.steps++
			}
			if im.lockHeld() {
				return nil
			}
		}
		now := heapInUse()
		grew = append(grew, now-last)
		last = now
		if len(grew) == 1 {
			for wait := 0; runtime.NumGoroutine() > gone; wait++ {
				if wait > 200 {
					return failf(0, "%s: after %d rounds of the same %d calls %d goroutines remain", im.name, made, len(ops), runtime.NumGoroutine()-gone)
				}
				time.Sleep(10 * time.Millisecond)
			}
		}
		if grew[len(grew)-1] <= 4<<10 {
			break
		}
	}
	if n := len(grew); n == 6 && grew[n-1] > 96<<10 {
		return failf(0, "%s: making the same %d calls %d times, and each time as often again, keeps %d more bytes in use", im.name, len(ops), rounds, grew)
	}
	runtime.KeepAlive(im)
	return nil
}

func maxInt(a, b int) int {
	if a > b {
		return a
	}
	return b
}
