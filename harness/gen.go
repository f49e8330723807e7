package harness

import (
	"encoding/json"
	"math"
	"math/bits"
	"sort"

	"pgregory.net/rapid"
)

// SliceSpec is one slice handed to a constructor: its contents and the garbage
// in its spare capacity.
type SliceSpec struct {
	Nil   bool   `json:"nil,omitempty"`
	D     []byte `json:"d,omitempty"`
	Spare []byte `json:"spare,omitempty"`
	// Ov > 0: the slice starts Ov-1 bytes into the (shared) backing array of the
	// case instead of having its own
	Ov int `json:"ov,omitempty"`
}

func (s SliceSpec) build() []byte {
	if s.Nil {
		return nil
	}
	b := make([]byte, 0, len(s.D)+len(s.Spare))
	b = append(append(b, s.D...), s.Spare...)
	return b[:len(s.D)]
}

// Case is one generated input, complete: running it needs no generator.
type Case struct {
	Prop  string           `json:"prop"`
	Mode  string           `json:"mode,omitempty"` // engine within the property
	Kinds []string         `json:"kinds"`
	Init  [][]SliceSpec    `json:"init"`            // per buffer
	Ops   []Op             `json:"ops"`             // calls in order
	Which []int            `json:"which,omitempty"` // which buffer (or goroutine) each call is for
	P     map[string]int64 `json:"p,omitempty"`     // engine parameters
	Text  []string         `json:"text,omitempty"`  // generator checks: template pieces, file names
	Back  []byte           `json:"back,omitempty"`  // shared backing array of overlapping slices
}

func (c *Case) json() []byte {
	b, err := json.Marshal(c)
	if err != nil {
		panic(err)
	}
	return b
}

func mix(x uint64) uint64 {
	x += 0x9E3779B97F4A7C15
	x = (x ^ x>>30) * 0xBF58476D1CE4E5B9
	x = (x ^ x>>27) * 0x94D049BB133111EB
	return x ^ x>>31
}

// g draws every choice from rapid.
type g struct{ t *rapid.T }

var (
	genBool = rapid.Bool()
	genU64  = rapid.Uint64()
)

// n draws uniformly from [0, k).
func (g g) n(k int) int {
	if k <= 1 {
		return 0
	}
	nb := bits.Len(uint(k - 1))
	if k&(k-1) != 0 {
		nb += 3
	}
	if nb > 14 {
		return int(mix(genU64.Draw(g.t, "u")) % uint64(k))
	}
	v := 0
	for i := 0; i < nb; i++ {
		v <<= 1
		if genBool.Draw(g.t, "b") {
			v |= 1
		}
	}
	return v % k
}

func (g g) in(lo, hi int64) int64 { return lo + int64(g.n(int(hi-lo+1))) }
func (g g) pct(p int) bool        { return g.n(128)*100 < (p*128) && p > 0 }
func (g g) u64() uint64           { return genU64.Draw(g.t, "v") }

func pickS[T any](g g, s []T) T { return s[g.n(len(s))] }

// weighted choice over a map with sorted keys
type weights map[string]int

func (w weights) with(o weights) weights {
	r := weights{}
	for k, v := range w {
		r[k] = v
	}
	for k, v := range o {
		r[k] = v
	}
	return r
}

type wtable struct {
	keys []string
	cum  []int
}

func (w weights) table() *wtable {
	t := &wtable{}
	for k, v := range w {
		if v > 0 {
			t.keys = append(t.keys, k)
		}
	}
	sort.Strings(t.keys)
	c := 0
	for _, k := range t.keys {
		c += w[k]
		t.cum = append(t.cum, c)
	}
	return t
}

func (t *wtable) pick(g g) string {
	x := g.n(t.cum[len(t.cum)-1])
	for i, c := range t.cum {
		if x < c {
			return t.keys[i]
		}
	}
	panic("unreachable")
}

// profile says what histories to generate.
type profile struct {
	w      *wtable
	sizes  int // 0: the usual mix, otherwise the largest size
	maxOps int
	zero   int  // percent of accesses that ask for nothing
	next   int  // percent of cursor-relative accesses
	big    bool // buffers of 60 KiB to 400 KiB
}

// expand makes n elements from a drawn pattern.
func (g g) expand(n int, t string) []uint64 {
	if n == 0 {
		return []uint64{}
	}
	d := make([]uint64, n)
	if n <= 3 && g.n(8) != 7 {
		for i := range d {
			d[i] = maskType(t, g.special())
		}
		return d
	}
	base := g.u64()
	mode := g.n(16)
	for i := range d {
		h := mix(base + uint64(i))
		switch mode {
		case 8: // ordinary numbers in sequence, up or down
			d[i] = ordinary(t, int64(int16(base>>16))+int64(i)*int64(int8(base>>8))/8)
		case 9: // ordinary numbers
			d[i] = ordinary(t, int64(h%2048)-int64(base%1024))
		case 10: // neighbours of one number, whose high half they share
			d[i] = base + uint64(i)*(base>>61)
		case 11: // the same one, or two in turn
			d[i] = mix(base + uint64(i)&(base>>63))
		case 12: // the same backwards
			d[i] = mix(base + uint64(minInt(i, n-1-i)))
		case 13: // runs
			d[i] = mix(base + uint64(i)/(2+base>>61))
		case 14: // each the opposite of the one before
			d[i] = mix(base+uint64(i/2)) ^ -uint64(i&1)
		case 0, 1, 2, 15:
			d[i] = h
		case 3: // ascending bytes, so that any two positions differ
			d[i] = 0x0101010101010101*uint64(i) + 0x0001020304050607 + base
		case 4:
			d[i] = specials[h%uint64(len(specials))]
		case 5:
			if h%3 == 0 {
				d[i] = h
			} else {
				d[i] = specials[h%uint64(len(specials))]
			}
		case 6:
			d[i] = ^uint64(0)
		case 7:
			d[i] = h & mix(h) & mix(h+1)
		}
		d[i] = maskType(t, d[i])
	}
	return d
}

var specials = []uint64{
	0, 1, 0xFF, 0x80, 0x7F, 0x8000, 0x7FFF, 0xFFFF, 0x0102, 0x0201, 0xFF00, 0x00FF,
	0x80000000, 0x7FFFFFFF, 0xFFFFFFFF, 0x01020304, 0x04030201, 0x0000FFFF, 0xFFFF0000, 0x00800000,
	0x8000000000000000, 0x7FFFFFFFFFFFFFFF, 0xFFFFFFFFFFFFFFFF, 0x0102030405060708, 0x0807060504030201,
	0x00000000FFFFFFFF, 0xFFFFFFFF00000000, 0x0000000100000000, 0x5555555555555555, 0xAAAAAAAAAAAAAAAA,
	0x7FC00000, 0x7F800000, 0xFF800000, 0x7F800001, 0xFFC12345, 0x7FA00001, 0x80000001, 0x00000001, 0x3F800000,
	0x7FF0000000000000, 0xFFF0000000000000, 0x7FF8000000000000, 0x7FF0000000000001, 0xFFF4000000000123, 0x8000000000000001, 0x3FF0000000000000,
}

func (g g) special() uint64 {
	if g.pct(45) {
		return specials[g.n(len(specials))]
	}
	return mix(g.u64())
}

// ordinary gives x in type t, floats with a fraction: what programs store, as
// opposed to random bits.
func ordinary(t string, x int64) uint64 {
	switch t {
	case "f32":
		return uint64(math.Float32bits(float32(x) / 8))
	case "f64":
		return math.Float64bits(float64(x) / 8)
	}
	return uint64(x)
}

func (g g) bytes(n int) []byte {
	if n >= 8 && g.n(4) == 3 { // numbers of some type
		t, e := pickS(g, []string{"u16", "u32", "u64", "i16", "f32", "f64", "f32", "f64"}), pickS(g, []string{"LE", "BE"})
		unit := int(elemSize(t))
		lo := g.n(unit)
		b := make([]byte, n)
		for i, v := range g.expand((n-lo)/unit, t) {
			encode(b[lo+i*unit:], v, t, e)
		}
		return b
	}
	d := g.expand(n, "b")
	b := make([]byte, n)
	for i, v := range d {
		b[i] = byte(v)
	}
	return b
}

func (g g) size(max int) int {
	var s int
	switch x := g.n(64); {
	case x < 3:
		s = 0
	case x < 32:
		s = 1 + g.n(16)
	case x < 52:
		s = 17 + g.n(64)
	case x < 61:
		s = 81 + g.n(520)
	case x < 63:
		v, ok := g.lit(9000)
		if s = int(v); !ok {
			s = 1 + g.n(40)
		}
	default:
		s = 601 + g.n(4400)
	}
	if max > 0 && s > max {
		s %= max + 1
	}
	return s
}

func (g g) init(max int) (s []SliceSpec) {
	one := func() (x SliceSpec) {
		n := g.size(max)
		if n == 0 && g.pct(50) {
			x.Nil = true
			return
		}
		x.D = g.bytes(n)
		switch g.n(4) {
		case 1:
			x.Spare = g.bytes(1 + g.n(12))
		case 2:
			x.Spare = g.bytes(g.n(200))
		}
		return
	}
	switch g.n(16) {
	case 0:
		return []SliceSpec{}
	case 1, 2, 3:
		k := 2 + g.n(3)
		if g.n(32) == 31 {
			k = 5 + g.n(40)
			max = 40
		}
		for i := 0; i < k; i++ {
			s = append(s, one())
		}
		return
	}
	return []SliceSpec{one()}
}

func buildAll(s []SliceSpec, back []byte) [][]byte {
	o := make([][]byte, len(s))
	for i := range s {
		if s[i].Ov > 0 {
			lo := s[i].Ov - 1
			o[i] = back[lo : lo+len(s[i].D) : lo+len(s[i].D)+len(s[i].Spare)]
			continue
		}
		o[i] = s[i].build()
	}
	return o
}

func concat(s [][]byte) []byte {
	var o []byte
	for _, x := range s {
		o = append(o, x...)
	}
	return o
}

// hist generates a history on one buffer (or on several types at once, when
// the operations have to exist in all of them).
type hist struct {
	g
	trs []traits
	p   *profile
	s   State
	was State // before the last call
	ops []Op
}

var (
	elemTypes = []string{"b", "1", "u16", "u32", "u64", "i16", "i32", "i64", "f32", "f64", "c8"}
	typeCache = map[string][]string{}
)

func (h *hist) types(k string) (ts []string) {
	key := k
	for _, tr := range h.trs {
		key += string(rune('0' + tr.ver*2))
		if tr.mini {
			key += "m"
		}
	}
	if ts, ok := typeCache[key]; ok {
		return ts
	}
	for _, t := range elemTypes {
		ok := true
		for _, tr := range h.trs {
			ok = ok && tr.supports(&Op{K: k, T: t})
		}
		if ok {
			ts = append(ts, t)
		}
	}
	typeCache[key] = ts
	return
}

func (h *hist) supported(o *Op) bool {
	for _, tr := range h.trs {
		if !tr.supports(o) {
			return false
		}
	}
	return true
}

// emit appends op and advances the predicted state.
func (h *hist) emit(o Op) {
	if o.K == "w" && o.T == "b" && len(o.D) > 0 && h.g.n(16) == 0 {
		h.fromSelf(&o)
	}
	x := spec(h.trs[0], &h.s, &o)
	if x.Undefined {
		return
	}
	h.was = h.s
	if x.Ok {
		h.s = x.Post
	}
	h.ops = append(h.ops, o)
}

// fromSelf makes the write take its bytes from elsewhere in the buffer.
func (h *hist) fromSelf(o *Op) {
	n, size := int64(len(o.D)), int64(len(h.s.Buf))
	at := o.Off
	if o.Next {
		at = h.s.Off
	}
	if at < 0 || at > size-n {
		return
	}
	var src int64
	switch before, behind := at-n, size-at-2*n; {
	case before >= 0 && (behind < 0 || h.g.pct(50)):
		src = h.g.in(0, before)
	case behind >= 0:
		src = at + n + h.g.in(0, behind)
	default:
		return
	}
	o.Arg, o.Src = 2, src
	o.D = append([]uint64(nil), rawBits(h.s.Buf[src:src+n])...)
}

func (h *hist) within(limit int64) int64 {
	if limit <= 0 {
		return 0
	}
	switch h.n(8) {
	case 0:
		return 0
	case 1:
		return limit
	case 2:
		return minI(limit, h.in(0, 9))
	case 3:
		return maxI(0, limit-h.in(0, 9))
	case 4:
		if h.n(4) == 3 {
			if v, ok := h.lit(limit); ok {
				return v
			}
		}
	}
	return h.in(0, limit)
}

func minInt(a, b int) int { return int(minI(int64(a), int64(b))) }

func minI(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}

func maxI(a, b int64) int64 {
	if a > b {
		return a
	}
	return b
}

// some count out of max possible
func (h *hist) howMany(max int64) int64 {
	if max <= 0 || h.pct(h.p.zero) {
		return 0
	}
	switch h.n(16) {
	case 0, 1, 2, 3, 4:
		return 1
	case 5, 6:
		return minI(2, max)
	case 7, 8, 9, 10:
		return minI(max, h.in(1, 9))
	case 11:
		return minI(max, h.in(9, 40))
	case 12:
		return max
	case 13:
		if v, ok := h.lit(max); ok && v > 0 {
			return v
		}
	}
	return h.in(1, max)
}

// access makes an in-range read, write or bit call.
func (h *hist) access(k string) {
	o := Op{K: k}
	bit := isBitKind(k)
	if k == "w" || k == "r" {
		o.T = pickS(h.g, h.types(k))
		if o.T == "b" && h.pct(60) { // favour the typed ones
			o.T = pickS(h.g, h.types(k))
		}
		if elemSize(o.T) > 1 {
			o.E = pickS(h.g, []string{"LE", "BE"})
		} else if o.T == "c8" {
			o.E = pickS(h.g, []string{"LE", "BE"})
		}
		if o.E != "" && h.pct(15) {
			for _, tr := range h.trs {
				if tr.ver == 1 {
					o.Ord = 1 + h.n(2)
					break
				}
			}
		}
	}
	o.Next = h.pct(h.p.next)
	_, unit, limit := o.span(&h.s)
	avail := limit
	if o.Next {
		cur := h.s.Off
		if bit {
			cur = h.s.Boff
		}
		if cur < 0 || cur > limit || (cur == limit && h.pct(85)) || h.pct(6) {
			h.seekTo(bit, h.within(maxI(0, limit-unit)))
		}
		avail = limit
		if bit {
			avail -= h.s.Boff
		} else {
			avail -= h.s.Off
		}
	}
	max := avail / unit
	single := k == "rbit" || k == "sbit" || k == "fbit" || o.T == "1"
	var n int64
	switch {
	case single:
		n = 1
		if max < 1 {
			return
		}
	case bit:
		n = h.fieldWidth(minI(64, max))
	default:
		n = h.howMany(max)
		if n > 0 && h.n(16) == 15 {
			if v := h.related(&o, n); v > 0 && v <= max {
				n = v
			}
		}
		if n > 600 && !h.p.big && h.pct(80) {
			n = 600
		}
	}
	if !o.Next {
		o.Off = h.within(avail - n*unit)
		if h.n(16) == 15 {
			if v := h.related(&o, n); v >= 0 && v <= avail-n*unit {
				o.Off = v
			}
		}
	}
	h.fillIn(&o, n)
	if o.K == "w" && len(o.D) > 0 && h.n(16) == 15 {
		h.coincide(&o)
	} else if o.K == "sbits" && h.n(16) == 15 {
		o.V = uint64(h.related(&o, n))
	}
	h.emit(o)
}

// related gives a number that something else already is, or is next to one:
// counts that equal offsets, values that equal positions, and the like.
func (h *hist) related(o *Op, n int64) int64 {
	start, unit, limit := o.span(&h.s)
	v := int64(0)
	k := h.n(16)
	var last Op
	if len(h.ops) > 0 {
		last = h.ops[len(h.ops)-1]
	}
	switch k {
	case 0:
		v = n
	case 1:
		v = n * unit
	case 2:
		v = n * unit * (1 + h.in(1, 4))
	case 3:
		v = n * (1 + h.in(1, 4))
	case 4:
		v = h.s.Off
	case 5:
		v = h.s.Boff
	case 6:
		v = h.s.Off * 8
	case 7:
		v = h.s.Boff / 8
	case 8:
		v = start
	case 9:
		v = start + n*unit
	case 10:
		v = limit - start - n*unit
	case 11:
		v = limit
	case 12:
		v = limit / 2
	case 13:
		v = last.Off
	case 14:
		v = last.Off + last.N*elemSize(last.T) + int64(len(last.D))*elemSize(last.T)
	case 15:
		v = last.N + int64(len(last.D))
	}
	switch h.n(8) {
	case 6:
		v++
	case 7:
		v--
	}
	return v
}

// coincide makes data to be written agree with something: elements that equal
// a position or a count, or what the buffer holds there or elsewhere already.
func (h *hist) coincide(o *Op) {
	start, unit, limit := o.span(&h.s)
	n := int64(len(o.D))
	o.D = append([]uint64(nil), o.D...)
	switch h.n(4) {
	case 0, 1:
		v := h.related(o, n)
		x := maskType(o.T, uint64(v))
		if h.n(4) == 3 {
			x = ordinary(o.T, v*8)
		}
		switch h.n(4) {
		case 0, 1:
			o.D[0] = x
		case 2:
			o.D[h.in(0, n-1)] = x
		case 3:
			for i := range o.D {
				o.D[i] = x
			}
		}
		return
	case 2: // from elsewhere
		start = h.in(0, limit-n*unit)
	}
	if start < 0 || start+n*unit > limit {
		return
	}
	for i := range o.D {
		o.D[i] = decode(h.s.Buf[start+int64(i)*unit:], o.T, o.E)
	}
	if h.n(4) == 3 { // almost
		o.D[h.in(0, n-1)] = maskType(o.T, h.special())
	}
}

func (h *hist) fieldWidth(max int64) int64 {
	if max <= 0 || h.pct(h.p.zero) {
		return 0
	}
	if max == 64 && h.pct(12) {
		return 64
	}
	if h.pct(12) {
		return minI(max, pickS(h.g, []int64{1, 7, 8, 9, 31, 32, 33, 63, 64}))
	}
	return h.in(1, max)
}

// fillIn completes an access of n elements or bits.
func (h *hist) fillIn(o *Op, n int64) {
	switch o.K {
	case "w":
		o.D = h.expand(int(n), o.T)
	case "r":
		o.N = n
		h.outs(o)
	case "rbit":
		h.outs(o)
	case "sbit":
		o.V = uint64(h.n(2))
	case "rbits":
		o.N = n
		h.outs(o)
	case "sbits":
		o.N = n
		o.V = h.special()
		if h.pct(10) {
			o.V = uint64(h.n(2)) * ^uint64(0)
		}
	}
}

// outs chooses what a MiniBuffer's destination holds before the call.
func (h *hist) outs(o *Op) {
	any := false
	for _, tr := range h.trs {
		any = any || tr.mini
	}
	if !any {
		return
	}
	switch h.n(4) {
	case 0:
	case 1:
		o.Pre = 1
	case 2:
		o.Pre = ^uint64(0)
	case 3:
		o.Pre = mix(h.u64())
	}
	if h.pct(40) {
		o.Pad = 1 + h.n(7)
	}
}

func (h *hist) seekTo(bit bool, to int64) {
	o := Op{K: "seek", Off: to}
	cur := h.s.Off
	if bit {
		o.K, cur = "seekbit", h.s.Boff
	}
	if h.pct(35) && !tooFar(cur, to) {
		o.Rel, o.Off = true, to-cur
	}
	h.emit(o)
}

func (h *hist) wild() int64 {
	switch h.n(8) {
	case 0:
		return -1 - int64(h.n(20))
	case 1:
		return int64(len(h.s.Buf)) + int64(h.n(12))
	case 2:
		return int64(len(h.s.Buf))*8 + int64(h.n(12))
	case 3:
		return int64(1)<<uint(h.in(31, 50)) + h.in(-3, 3)
	case 4:
		return -(int64(1) << uint(h.in(31, 50))) + h.in(-3, 3)
	case 5:
		if v, ok := h.lit(1 << 50); ok {
			return v
		}
	}
	return h.in(0, maxI(1, int64(len(h.s.Buf))*9))
}

var hugeCounts = []int64{math.MaxInt64, math.MaxInt64 - 1, math.MaxInt64 / 2, math.MaxInt64/2 + 1, math.MaxInt64/4 + 1, math.MaxInt64/8 + 1, math.MaxInt64/8 + 2, 1 << 61, 1<<61 + 1, 1 << 62, 1<<62 + 1, 1 << 60, 1 << 49, 1 << 52}

var edgeOffs = []int64{math.MinInt64, math.MinInt64 + 1, math.MinInt64 / 2, math.MinInt64 / 8, -(1 << 32), -(1 << 31), math.MaxInt64, math.MaxInt64 - 1, math.MaxInt64 - 7, math.MaxInt64 - 8, math.MaxInt64 / 2, math.MaxInt64/8 + 1, 1 << 61, 1 << 62, 1 << 32, 1 << 31, 1<<32 + 1}

// reject makes an out-of-range access (checked Buffers only).
func (h *hist) reject() {
	k := pickS(h.g, []string{"w", "r", "w", "r", "rbit", "sbit", "fbit", "rbits", "sbits"})
	o := Op{K: k}
	bit := isBitKind(k)
	if k == "w" || k == "r" {
		o.T = pickS(h.g, h.types(k))
		if elemSize(o.T) > 1 || o.T == "c8" {
			o.E = pickS(h.g, []string{"LE", "BE"})
		}
	}
	o.Next = h.pct(30)
	_, unit, limit := o.span(&h.s)
	single := k == "rbit" || k == "sbit" || k == "fbit" || o.T == "1"
	n := int64(1)
	if !single {
		switch h.n(8) {
		case 0, 1:
			n = 1
		case 2, 3, 4:
			n = h.in(1, 12)
		case 5, 6:
			n = minI(limit/unit+h.in(0, 3), 3000) // about the whole buffer
			if n < 1 {
				n = 1
			}
		case 7:
			if k == "r" || k == "rbits" {
				n = pickS(h.g, hugeCounts)
			} else {
				n = h.in(1, 64)
			}
		}
	}
	if bit && n > 64 && n < 1<<40 {
		n = 1 + n%64
	}
	var off int64
	last := int64(math.MaxInt64)
	if n <= limit/unit {
		last = limit - n*unit // greatest acceptable start
	}
	huge := last == math.MaxInt64 && n > 5000
	switch x := h.n(16); {
	case huge:
		off = pickS(h.g, []int64{0, 1, limit, limit - 1, limit / 2})
		if h.pct(25) {
			off = pickS(h.g, edgeOffs)
		}
	case x < 3:
		off = -1
	case x < 4:
		off = -h.in(1, 70)
	case x < 6:
		off = -n * unit
	case x < 7:
		off = pickS(h.g, edgeOffs)
	default:
		if last == math.MaxInt64 {
			off = h.within(limit)
		} else if x < 13 {
			off = last + h.in(1, unit+1)
		} else {
			off = last + 1 + h.within(limit)
		}
	}
	if o.Next {
		h.seekTo(bit, off)
	} else {
		o.Off = off
	}
	h.fillInReject(&o, n)
	x := spec(h.trs[0], &h.s, &o)
	if x.Ok {
		return
	}
	h.emit(o)
	if o.Next && h.pct(70) {
		h.seekTo(bit, h.within(limit))
	}
}

func (h *hist) fillInReject(o *Op, n int64) {
	if o.K == "w" {
		o.D = h.expand(int(n), o.T)
		return
	}
	h.fillIn(o, n)
	if o.K == "sbit" && h.pct(20) && h.trs[0].ver != 3 {
		o.V = 2 + uint64(h.n(200))
	}
}

// invalid makes a call whose arguments are refused for another reason than range.
func (h *hist) invalid() {
	tr := h.trs[0]
	L := int64(len(h.s.Buf))
	neg := func() int64 {
		return pickS(h.g, []int64{-1, -2, -3, -8, -L, -L - 1, math.MinInt64, math.MinInt64 + 1, -(1 << 32), -(1 << 31), -1, -1})
	}
	var c []string
	if tr.ver != 3 {
		c = append(c, "sbit", "sbit")
	}
	if tr.ver == 1 {
		c = append(c, "rbad", "wbad", "wmis")
		if !tr.mini {
			c = append(c, "rord", "word")
		}
	}
	if !tr.mini {
		c = append(c, "grow")
		if tr.ver == 3 {
			c = append(c, "truncl", "truncr", "truncbig")
		}
	}
	if len(c) == 0 {
		return
	}
	sizes := []int64{0, 3, 5, 6, 7, 9, 16, 32, 64, -1, -2, -8, 255, math.MaxInt64, math.MinInt64, 10, 12, 24}
	switch k := pickS(h.g, c); k {
	case "sbit":
		if L == 0 {
			return
		}
		o := Op{K: "sbit", V: 2 + uint64(h.n(254)), Next: h.pct(40)}
		if o.Next {
			if h.s.Boff < 0 || h.s.Boff >= L*8 {
				h.seekTo(true, h.in(0, L*8-1))
			}
		} else {
			o.Off = h.in(0, L*8-1)
		}
		h.emit(o)
	case "rbad", "wbad":
		o := Op{K: k, Next: h.pct(40), E: pickS(h.g, []string{"LE", "BE"}), Size: pickS(h.g, sizes)}
		if o.Next && (h.s.Off < 0 || h.s.Off > L) {
			h.seekTo(false, h.within(L))
		}
		max := L / 8
		if o.Next {
			max = (L - h.s.Off) / 8
		}
		n := int64(0)
		if max > 0 {
			n = h.in(1, minI(max, 6))
		} else if h.pct(70) {
			return
		}
		if !o.Next {
			o.Off = h.within(L - n*8)
		}
		if k == "rbad" {
			o.N = n
			h.outs(&o)
		} else {
			o.T = pickS(h.g, []string{"u16", "u32", "u64", "c8"})
			o.D = h.expand(int(n), o.T)
		}
		h.emit(o)
	case "rord", "word":
		o := Op{K: k, T: pickS(h.g, []string{"u16", "u32", "u64"}), E: pickS(h.g, []string{"LE", "BE"}), Next: h.pct(40), Ord: 3 + h.n(2)}
		unit := elemSize(o.T)
		if o.Next && (h.s.Off < 0 || h.s.Off > L-unit) {
			if L < unit {
				return
			}
			h.seekTo(false, h.within(L-unit))
		}
		max := L / unit
		if o.Next {
			max = (L - h.s.Off) / unit
		}
		if max <= 0 {
			return
		}
		n := h.in(1, minI(max, 6))
		if !o.Next {
			o.Off = h.within(L - n*unit)
		}
		if k == "rord" {
			o.N = n
		} else {
			o.D = h.expand(int(n), o.T)
		}
		h.emit(o)
	case "wmis":
		o := Op{K: k, E: pickS(h.g, []string{"LE", "BE"}), Next: h.pct(40)}
		ts := []string{"c8", "u16", "u32", "u64"}
		a, b := h.n(4), 1+h.n(3)
		o.Size = elemSize(ts[a])
		o.T = ts[(a+b)%4]
		if h.pct(25) {
			o.T = pickS(h.g, []string{"i16", "i32", "i64", "f32", "f64"})
		}
		if o.Next && (h.s.Off < 0 || h.s.Off > L) {
			h.seekTo(false, h.within(L))
		}
		max := L / 8
		if o.Next {
			max = (L - h.s.Off) / 8
		}
		if max == 0 {
			return
		}
		n := h.in(1, minI(max, 5))
		if !o.Next {
			o.Off = h.within(L - n*8)
		}
		switch h.n(12) {
		case 0:
			o.T = "nil"
		case 1:
			o.T, o.V = "one", h.u64()
		default:
			o.D = h.expand(int(n), o.T)
		}
		h.emit(o)
	case "truncbig":
		h.emit(Op{K: pickS(h.g, []string{"truncl", "truncr"}), N: L + pickS(h.g, []int64{1, 2, 7, 100, 1 << 31, 1 << 32, 1 << 60, math.MaxInt64 - L})})
	default:
		h.emit(Op{K: k, N: neg()})
	}
}

// nothing makes a request for zero elements, bits or bytes.
func (h *hist) nothing() {
	L := int64(len(h.s.Buf))
	k := pickS(h.g, []string{"w", "w", "w", "r", "r", "r", "rbits", "sbits", "rbits", "sbits", "grow", "truncl", "truncr", "fill"})
	switch k {
	case "grow", "truncl", "truncr":
		o := Op{K: k}
		if h.supported(&o) {
			h.emit(o)
		}
		return
	case "fill":
		if L != 0 {
			if o := (Op{K: "reset"}); h.supported(&o) && L < 4 {
				h.emit(o)
			} else if o := (Op{K: "truncl", N: L}); h.supported(&o) && L < 4 {
				h.emit(o)
			} else {
				return
			}
		}
		h.emit(Op{K: pickS(h.g, []string{"clear", "set", "flip"})})
		return
	}
	o := Op{K: k}
	if k == "w" || k == "r" {
		for {
			o.T = pickS(h.g, h.types(k))
			if o.T != "1" {
				break
			}
		}
		if elemSize(o.T) > 1 || o.T == "c8" {
			o.E = pickS(h.g, []string{"LE", "BE"})
		}
	}
	limit := L
	if isBitKind(k) {
		limit *= 8
	}
	at := h.within(limit)
	if h.pct(25) {
		at = limit
	}
	if o.Next = h.pct(45); o.Next {
		h.seekTo(isBitKind(k), at)
	} else {
		o.Off = at
	}
	h.fillIn(&o, 0)
	h.emit(o)
}

func (h *hist) step() { h.make(h.p.w.pick(h.g)) }

// sandwich makes a call, one or two others that may change what it gives, and
// the call again, perhaps from where it was made before.
func (h *hist) sandwich() {
	n := len(h.ops)
	h.make(h.p.w.pickOf(h.g, "r", "r", "r", "rbit", "rbits", "rbits", "after", "w", "sbits"))
	if len(h.ops) == n {
		return
	}
	x, was := h.ops[len(h.ops)-1], h.was
	if !isAccess(x.K) && x.K != "after" && x.K != "afterbit" {
		return
	}
	for i := 1 + h.n(6)/5; i > 0; i-- {
		h.make(h.p.w.pickOf(h.g, "w", "w", "w", "sbit", "fbit", "sbits", "fill", "fill", "fill", "grow", "trunc", "reset", "refresh", "poke", "poke", "seek", "seekbit", "align", "rej", "r", "rbits"))
	}
	if x.Next && h.pct(50) {
		if isBitKind(x.K) {
			h.seekTo(true, was.Boff)
		} else {
			h.seekTo(false, was.Off)
		}
	}
	h.emit(x)
}

// pickOf picks among the kinds named which the table has.
func (t *wtable) pickOf(g g, ks ...string) string {
	var in []string
	for _, k := range ks {
		for _, l := range t.keys {
			if k == l {
				in = append(in, k)
			}
		}
	}
	if in == nil {
		return t.pick(g)
	}
	return pickS(g, in)
}

func (h *hist) make(k string) {
	L := int64(len(h.s.Buf))
	switch k {
	case "w", "r", "rbit", "sbit", "fbit", "rbits", "sbits":
		h.access(k)
	case "fill":
		h.emit(Op{K: pickS(h.g, []string{"clear", "set", "flip"})})
	case "seek", "seekbit":
		if h.pct(70) {
			l := L
			if k == "seekbit" {
				l *= 8
			}
			h.seekTo(k == "seekbit", h.within(l))
		} else {
			o := Op{K: k, Off: h.wild(), Rel: h.pct(40)}
			h.emit(o)
		}
	case "align":
		h.emit(Op{K: pickS(h.g, []string{"alignbit", "alignbyte"})})
	case "after":
		o := Op{K: pickS(h.g, []string{"after", "afterbit"})}
		if h.pct(55) {
			o.Has = true
			o.Off = h.wild()
		}
		h.outs(&o)
		o.Pad = 0
		h.emit(o)
	case "grow":
		if L > 12000 && !h.p.big || L > 1<<20 {
			return
		}
		o := Op{K: k}
		switch h.n(8) {
		case 0:
			o.N = 1
		case 1, 2, 3:
			o.N = h.in(1, 16)
		case 4, 5:
			o.N = h.in(1, 80)
		case 6:
			o.N = h.in(0, maxI(1, L*2))
		case 7:
			o.N = h.in(0, 1500)
			if v, ok := h.lit(70000); ok && h.n(4) == 0 {
				o.N = v
			}
			if h.p.big {
				o.N = h.in(0, 200000)
			}
		}
		if h.n(16) == 15 {
			if v := h.related(&Op{K: "r", T: "b"}, o.N); v >= 0 && v <= 2*L+100 {
				o.N = v
			}
		}
		h.emit(o)
	case "trunc":
		o := Op{K: pickS(h.g, []string{"truncl", "truncr"})}
		if !h.supported(&o) {
			return
		}
		switch h.n(8) {
		case 0:
			o.N = L
		case 1, 2, 3, 4:
			o.N = minI(L, h.in(0, 9))
		default:
			o.N = h.within(L)
		}
		if h.n(16) == 15 {
			if v := h.related(&Op{K: "r", T: "b"}, o.N); v >= 0 && v <= L {
				o.N = v
			}
		}
		h.emit(o)
	case "reset", "refresh":
		o := Op{K: k}
		if h.supported(&o) {
			h.emit(o)
		}
	case "poke":
		if L > 0 {
			h.emit(Op{K: k, Off: h.within(L - 1), V: h.special() & 0xFF, Rel: h.pct(60)})
		}
	case "rej":
		if !h.trs[0].mini {
			h.reject()
		}
	case "inv":
		h.invalid()
	case "zero":
		h.nothing()
	}
}

func kindTraits(ks ...string) (ts []traits) {
	for _, k := range ks {
		ts = append(ts, kinds[k].traits)
	}
	return
}

// history draws an initial content and a sequence of calls.
func (g g) history(p *profile, ks ...string) ([]SliceSpec, []Op) {
	if p.sizes == 0 && g.n(1024) == 1023 { // sizes and counts that do not fit 16 bits
		q := *p
		q.big = true
		q.maxOps = minInt(p.maxOps, 5)
		init := []SliceSpec{{D: g.bytes(60000 + g.n(340000))}}
		return init, g.historyOn(&q, concat(buildAll(init, nil)), ks...)
	}
	init := g.init(p.sizes)
	return init, g.historyOn(p, concat(buildAll(init, nil)), ks...)
}

func (g g) historyOn(p *profile, content []byte, ks ...string) []Op {
	h := &hist{g: g, trs: kindTraits(ks...), p: p}
	h.s = newState(content)
	n := 1 + g.n(p.maxOps)
	if g.pct(4) && !p.big {
		n *= 4
		if len(content) < 500 && g.n(32) == 0 { // a long life
			n = 150 + g.n(700)
		}
	}
	for i := 0; i < n; i++ {
		if len(h.ops) > 0 && g.n(16) == 0 { // the same call again
			back := 1 + g.n(5)
			if back > len(h.ops) {
				back = 1 + g.n(len(h.ops))
			}
			if o := h.ops[len(h.ops)-back]; o.K != "grow" || o.N < 100 {
				if o.K == "w" && g.pct(30) { // with other values
					o.D, o.Arg = nil, 0
					h.fillIn(&o, int64(len(h.ops[len(h.ops)-back].D)))
				}
				h.emit(o)
				continue
			}
		}
		if h.g.n(20) == 0 {
			h.sandwich()
		} else {
			h.step()
		}
	}
	g.looks(h.ops)
	g.args(h.ops)
	return h.ops
}

// args decides which calls are given the slices and variables earlier ones were.
func (g g) args(ops []Op) {
	share := uint64(0)
	switch {
	case g.pct(50):
	case g.pct(50):
		share = 8
	default:
		share = uint64(1 + g.n(7))
	}
	s := uint64(g.in(0, 1<<40))
	for i := range ops {
		o := &ops[i]
		if v := mix(s + uint64(i)); o.Arg == 0 && o.K != "poke" && v%8 < share {
			if o.Arg = 1; o.K == "w" && len(o.D) == 0 && v>>32%2 == 0 {
				o.Arg = 3
			}
		}
	}
}

// looks decides what is asked of the buffer after the calls: a call may rely on
// things that looking at the buffer brings about.
func (g g) looks(ops []Op) {
	switch {
	case g.pct(55):
	case g.pct(40):
		for i := range ops {
			ops[i].Look = 1
		}
	default:
		s, m := uint64(g.in(0, 1<<40)), uint64(2+g.n(14))
		for i := range ops {
			if v := mix(s + uint64(i)); v%m != 0 {
				if ops[i].Look = 1; v>>32%4 == 0 {
					ops[i].Look = 2 + int(v>>40%6)
				}
			}
		}
	}
}
