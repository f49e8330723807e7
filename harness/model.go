// Package harness decides the properties in /verif/properties.jsonl by
// generated-input search. Everything here talks to crunch through its public
// API only; the oracle (spec in this file) is written from the documentation
// and does not share code with crunch.
package harness

import (
	"encoding/binary"
	"fmt"
	"strings"
)

// Op is one call on a buffer, as plain data: a failing history is a list of
// these and replays without any generator.
type Op struct {
	K    string   `json:"k"`              // kind, see the switch in spec
	T    string   `json:"t,omitempty"`    // element type: b (bytes), 1 (one byte), c8 (v1 complex bytes), u16 .. f64
	E    string   `json:"e,omitempty"`    // LE, BE
	Ord  int      `json:"ord,omitempty"`  // v1: which implementation of that byte order
	Next bool     `json:"next,omitempty"` // cursor-relative variant
	Off  int64    `json:"off,omitempty"`  // explicit offset (ignored for Next), seek target, poke index
	N    int64    `json:"n,omitempty"`    // element or bit count, grow/truncate count
	D    []uint64 `json:"d,omitempty"`    // elements to write, as raw bits
	V    uint64   `json:"v,omitempty"`    // value of bit operations
	Rel  bool     `json:"rel,omitempty"`  // relative seek
	Has  bool     `json:"has,omitempty"`  // "after" with an explicit position
	Pre  uint64   `json:"pre,omitempty"`  // what a MiniBuffer out variable holds before the call
	Pad  int      `json:"pad,omitempty"`  // extra elements in a MiniBuffer out slice
	Size int64    `json:"size,omitempty"` // v1: the (invalid) integer size
	Look int      `json:"look,omitempty"` // what is asked of the buffer after the call, see Impl.look
	Arg  int      `json:"arg,omitempty"`  // where the slice or variable passed comes from, see Impl.slice
	Src  int64    `json:"src,omitempty"`  // which bytes of the buffer itself are written
}

func (o Op) String() string {
	var s strings.Builder
	fmt.Fprintf(&s, "%s", o.K)
	if o.T != "" {
		fmt.Fprintf(&s, ":%s%s", o.T, o.E)
	}
	if o.Ord != 0 {
		s.WriteString([]string{"", "(foreign)", "(native)", "(nil)", "(refusing)"}[o.Ord%5])
	}
	if o.Next {
		s.WriteString(" next")
	}
	fmt.Fprintf(&s, " off=%d", o.Off)
	if o.N != 0 {
		fmt.Fprintf(&s, " n=%d", o.N)
	}
	if len(o.D) > 0 {
		if len(o.D) <= 4 {
			fmt.Fprintf(&s, " d=%x", o.D)
		} else {
			fmt.Fprintf(&s, " d=%x..(%d)", o.D[:2], len(o.D))
		}
	}
	if o.V != 0 {
		fmt.Fprintf(&s, " v=%#x", o.V)
	}
	if o.Rel {
		s.WriteString(" rel")
	}
	if o.Has {
		s.WriteString(" explicit")
	}
	if o.Pre != 0 || o.Pad != 0 {
		fmt.Fprintf(&s, " pre=%#x pad=%d", o.Pre, o.Pad)
	}
	if o.Size != 0 {
		fmt.Fprintf(&s, " size=%d", o.Size)
	}
	switch o.Arg {
	case 1:
		s.WriteString(" [slice or variable passed before]")
	case 2:
		fmt.Fprintf(&s, " [bytes of the buffer itself from %d]", o.Src)
	case 3:
		s.WriteString(" [nil slice]")
	}
	if o.Look != 0 {
		s.WriteString([]string{"", " [unseen]", " [only Cap asked]", " [only BitCap asked]", " [only Off asked]", " [only BitOff asked]", " [only Bytes asked]", " [Bytes asked last]"}[o.Look%8])
	}
	return s.String()
}

// State is what a caller can observe of a buffer.
type State struct {
	Buf  []byte
	Off  int64
	Boff int64
	Cap  int64
	Bcap int64
}

func (s *State) clone() State {
	c := *s
	c.Buf = append([]byte(nil), s.Buf...)
	return c
}

func newState(b []byte) State {
	return State{Buf: append([]byte(nil), b...), Cap: int64(len(b)), Bcap: int64(len(b)) * 8}
}

// Expect is what the specification says about one call in one state.
type Expect struct {
	Undefined bool     // outside every property: the call is not made
	Ok        bool     // must return normally
	Errs      []string // acceptable exported errors when rejected; empty: any panic
	Vals      []uint64 // result
	Post      State    // state afterwards, when Ok
	Partial   bool     // rejected, but may have stored leading bits
}

func elemSize(t string) int64 {
	switch t {
	case "u16", "i16":
		return 2
	case "u32", "i32", "f32":
		return 4
	case "u64", "i64", "f64":
		return 8
	}
	return 1
}

func isAccess(k string) bool {
	switch k {
	case "w", "r", "rbit", "sbit", "fbit", "rbits", "sbits":
		return true
	}
	return false
}

func isFill(k string) bool { return k == "clear" || k == "set" || k == "flip" }

func isBitKind(k string) bool {
	switch k {
	case "rbit", "sbit", "fbit", "rbits", "sbits":
		return true
	}
	return false
}

func isWriteKind(k string) bool {
	switch k {
	case "w", "sbit", "fbit", "sbits":
		return true
	}
	return false
}

// count is how many elements or bits an access asks for.
func (o *Op) count() int64 {
	switch o.K {
	case "w":
		return int64(len(o.D))
	case "r":
		if o.T == "1" {
			return 1
		}
		return o.N
	case "rbit", "sbit", "fbit":
		return 1
	case "rbits", "sbits":
		return o.N
	}
	return 0
}

// span reports where an access starts, its unit size and the limit of its
// address space (bytes or bits).
func (o *Op) span(s *State) (start, unit, limit int64) {
	limit = int64(len(s.Buf))
	unit = 1
	start = o.Off
	if isBitKind(o.K) {
		limit *= 8
		if o.Next {
			start = s.Boff
		}
	} else {
		unit = elemSize(o.T)
		if o.Next {
			start = s.Off
		}
	}
	return
}

// rangeOf classifies [start, start+n*unit) against [0, limit) without ever
// overflowing.
func rangeOf(start, n, unit, limit int64) (over, under bool) {
	under = start < 0
	over = n > limit/unit || start > limit-n*unit
	return
}

// tooFar tells that arithmetic on these would leave (or get near) 64 bits.
func tooFar(a, b int64) bool {
	const lim = 1 << 59
	return a > lim || a < -lim || b > lim || b < -lim
}

func getBit(b []byte, k int64) uint64 {
	if b[k/8]&(0x80>>uint(k%8)) != 0 {
		return 1
	}
	return 0
}

func putBit(b []byte, k int64, v uint64) {
	m := byte(0x80) >> uint(k%8)
	if v == 0 {
		b[k/8] &^= m
	} else {
		b[k/8] |= m
	}
}

func decode(b []byte, t, e string) uint64 {
	var o binary.ByteOrder = binary.LittleEndian
	if e == "BE" {
		o = binary.BigEndian
	}
	switch elemSize(t) {
	case 2:
		return uint64(o.Uint16(b))
	case 4:
		return uint64(o.Uint32(b))
	case 8:
		return o.Uint64(b)
	}
	return uint64(b[0])
}

func encode(b []byte, v uint64, t, e string) {
	var o binary.ByteOrder = binary.LittleEndian
	if e == "BE" {
		o = binary.BigEndian
	}
	switch elemSize(t) {
	case 2:
		o.PutUint16(b, uint16(v))
	case 4:
		o.PutUint32(b, uint32(v))
	case 8:
		o.PutUint64(b, v)
	default:
		b[0] = byte(v)
	}
}

// traits is what spec needs to know about the type under test.
type traits struct {
	ver  int  // 1, 2, 3
	mini bool // MiniBuffer
	// generated arrangements: the typed methods it was generated without, as
	// "|ReadU16LE|WriteF64BE|"
	drop string
}

// supports tells whether the type has the operation at all.
func (tr traits) supports(o *Op) bool {
	if tr.drop != "" && o.E != "" && (o.K == "w" || o.K == "r") {
		m := "Read"
		if o.K == "w" {
			m = "Write"
		}
		if strings.Contains(tr.drop, "|"+m+strings.ToUpper(o.T)+o.E+"|") {
			return false
		}
	}
	switch o.K {
	case "w", "r":
		switch o.T {
		case "b":
			return true
		case "1":
			return !tr.mini
		case "c8":
			return tr.ver == 1
		case "u16", "u32", "u64":
			return true
		default:
			return tr.ver == 3
		}
	case "truncl", "truncr":
		return tr.ver == 3
	case "reset":
		return tr.ver >= 2
	case "rbad", "wbad", "wmis":
		return tr.ver == 1
	case "rord", "word":
		return tr.ver == 1 && !tr.mini
	case "sbit":
		return tr.ver != 3 || o.V <= 1
	}
	return true
}

// spec is the reference semantics of one call.
func spec(tr traits, pre *State, o *Op) (x Expect) {
	x.Post = *pre // Buf shared until modified
	own := func() {
		x.Post.Buf = append([]byte(nil), pre.Buf...)
	}
	resize := func(b []byte) {
		x.Post.Buf = b
		x.Post.Cap = int64(len(b))
		x.Post.Bcap = x.Post.Cap * 8
	}
	reject := func(errs ...string) Expect {
		if tr.mini && !(len(errs) == 1 && (errs[0] == "InvalidBit" || errs[0] == "InvalidIntegerSize")) {
			return Expect{Undefined: true, Post: *pre}
		}
		return Expect{Errs: errs, Post: *pre}
	}
	if !tr.supports(o) {
		x.Undefined = true
		return
	}
	L := int64(len(pre.Buf))
	switch {
	case isAccess(o.K):
		start, unit, limit := o.span(pre)
		n := o.count()
		if n < 0 || (o.T == "1" && o.K == "w" && n != 1) {
			x.Undefined = true
			return
		}
		over, under := rangeOf(start, n, unit, limit)
		if out := over || under; n == 0 && out || isBitKind(o.K) && n > 64 && !out {
			x.Undefined = true // nothing addressed, nowhere; or a field wider than its value
			return
		}
		if over || under {
			kind := "read"
			if isWriteKind(o.K) {
				kind = "write"
			}
			var errs []string
			if over {
				errs = append(errs, "Over"+kind)
			}
			if under {
				errs = append(errs, "Under"+kind)
			}
			if isBitKind(o.K) && under && n > 1 {
				errs = []string{"Over" + kind, "Under" + kind}
				if !over {
					errs = errs[1:]
				}
			}
			if o.K == "sbit" && o.V > 1 {
				errs = append(errs, "InvalidBit", "Over"+kind)
			}
			r := reject(errs...)
			r.Partial = o.K == "sbits" && !under
			return r
		}
		if o.K == "sbit" && o.V > 1 {
			return reject("InvalidBit")
		}
		x.Ok = true
		switch o.K {
		case "w":
			own()
			for i, v := range o.D {
				encode(x.Post.Buf[start+int64(i)*unit:], v, o.T, o.E)
			}
		case "r":
			x.Vals = make([]uint64, n)
			for i := range x.Vals {
				x.Vals[i] = decode(pre.Buf[start+int64(i)*unit:], o.T, o.E)
			}
		case "rbit":
			x.Vals = []uint64{getBit(pre.Buf, start)}
		case "sbit":
			own()
			putBit(x.Post.Buf, start, o.V)
		case "fbit":
			own()
			putBit(x.Post.Buf, start, 1-getBit(pre.Buf, start))
		case "rbits":
			v := uint64(0)
			for i := int64(0); i < n; i++ {
				v = v*2 + getBit(pre.Buf, start+i)
			}
			x.Vals = []uint64{v}
		case "sbits":
			own()
			for i := int64(0); i < n; i++ {
				putBit(x.Post.Buf, start+n-1-i, o.V>>uint(i)&1)
			}
		}
		if o.Next {
			if isBitKind(o.K) {
				x.Post.Boff += n
			} else {
				x.Post.Off += n * unit
			}
		}
		return
	case isFill(o.K):
		x.Ok = true
		own()
		for i, b := range x.Post.Buf {
			switch o.K {
			case "clear":
				x.Post.Buf[i] = 0
			case "set":
				x.Post.Buf[i] = 0xFF
			case "flip":
				x.Post.Buf[i] = 0xFF - b
			}
		}
		return
	}
	x.Ok = true
	switch o.K {
	case "seek":
		if o.Rel && tooFar(pre.Off, o.Off) {
			return Expect{Undefined: true, Post: *pre}
		}
		if o.Rel {
			x.Post.Off += o.Off
		} else {
			x.Post.Off = o.Off
		}
	case "seekbit":
		if o.Rel && tooFar(pre.Boff, o.Off) {
			return Expect{Undefined: true, Post: *pre}
		}
		if o.Rel {
			x.Post.Boff += o.Off
		} else {
			x.Post.Boff = o.Off
		}
	case "alignbit":
		if tooFar(pre.Off, 0) {
			return Expect{Undefined: true, Post: *pre}
		}
		x.Post.Boff = pre.Off * 8
	case "alignbyte":
		if pre.Boff < 0 {
			return Expect{Undefined: true, Post: *pre}
		}
		x.Post.Off = pre.Boff / 8
	case "after":
		p := pre.Off
		if o.Has {
			p = o.Off
		}
		if tooFar(p, 0) {
			return Expect{Undefined: true, Post: *pre}
		}
		x.Vals = []uint64{uint64(L - p - 1)}
	case "afterbit":
		p := pre.Boff
		if o.Has {
			p = o.Off
		}
		if tooFar(p, 0) {
			return Expect{Undefined: true, Post: *pre}
		}
		x.Vals = []uint64{uint64(L*8 - p - 1)}
	case "grow":
		if o.N < 0 {
			return reject("InvalidByteCount")
		}
		resize(append(append([]byte(nil), pre.Buf...), make([]byte, o.N)...))
	case "truncl":
		if o.N < 0 {
			return reject("InvalidByteCount")
		}
		if o.N > L {
			return reject()
		}
		resize(append([]byte(nil), pre.Buf[o.N:]...))
	case "truncr":
		if o.N < 0 {
			return reject("InvalidByteCount")
		}
		if o.N > L {
			return reject()
		}
		resize(append([]byte(nil), pre.Buf[:L-o.N]...))
	case "reset":
		resize([]byte{})
		x.Post.Off, x.Post.Boff = 0, 0
	case "refresh":
	case "poke": // through the slice returned by Bytes
		if o.Off < 0 || o.Off >= L {
			return Expect{Undefined: true, Post: *pre}
		}
		own()
		x.Post.Buf[o.Off] = byte(o.V)
	case "rbad", "wbad":
		// v1, unsupported integer size; N elements of up to 8 bytes are in range
		start := o.Off
		if o.Next {
			start = pre.Off
		}
		over, under := rangeOf(start, o.count8(), 8, L)
		if over || under {
			return Expect{Undefined: true, Post: *pre}
		}
		return reject("InvalidIntegerSize")
	case "wmis": // v1, data of another type than Size says
		if tr.mini {
			return Expect{Errs: nil, Post: *pre}
		}
		return reject()
	case "rord", "word": // v1, in range, but without a usable byte order
		start, n := o.Off, o.N
		if o.Next {
			start = pre.Off
		}
		if o.K == "word" {
			n = int64(len(o.D))
		}
		if over, under := rangeOf(start, n, elemSize(o.T), L); over || under || n == 0 || tr.mini {
			return Expect{Undefined: true, Post: *pre}
		}
		return reject()
	default:
		panic("unknown op kind " + o.K)
	}
	return
}

func (o *Op) count8() int64 {
	if o.K == "wbad" {
		return int64(len(o.D))
	}
	return o.N
}
