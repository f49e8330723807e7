package harness

import (
	"encoding/binary"
	"fmt"
	"math"
	"reflect"

	v2 "github.com/superwhiskers/crunch/v2"
	v3 "github.com/superwhiskers/crunch/v3"
	v1 "verif.local/crunch1"
)

// kindOf describes one buffer type under test.
type kindOf struct {
	name string
	traits
	mk   func(prev any, slices ...[]byte) any // prev: what the out variable of a MiniBuffer holds
	errs map[string]any                       // exported errors by short name
}

var kinds = map[string]*kindOf{}

func reg(name string, ver int, mini bool, errs map[string]any, mk func(prev any, slices ...[]byte) any) {
	kinds[name] = &kindOf{name, traits{ver: ver, mini: mini}, mk, errs}
}

func init() {
	e1 := map[string]any{
		"Overread": v1.BufferOverreadError, "Underread": v1.BufferUnderreadError,
		"Overwrite": v1.BufferOverwriteError, "Underwrite": v1.BufferUnderwriteError,
		"InvalidIntegerSize": v1.BufferInvalidIntegerSizeError, "InvalidEndianness": v1.BufferInvalidEndiannessError,
		"InvalidByteCount": v1.BufferInvalidByteCountError, "InvalidBit": v1.BufferInvalidBitError,
	}
	e2 := map[string]any{
		"Overread": v2.BufferOverreadError, "Underread": v2.BufferUnderreadError,
		"Overwrite": v2.BufferOverwriteError, "Underwrite": v2.BufferUnderwriteError,
		"InvalidByteCount": v2.BufferInvalidByteCountError, "InvalidBit": v2.BufferInvalidBitError,
	}
	e3 := map[string]any{
		"Overread": v3.BufferOverreadError, "Underread": v3.BufferUnderreadError,
		"Overwrite": v3.BufferOverwriteError, "Underwrite": v3.BufferUnderwriteError,
		"InvalidByteCount": v3.BufferInvalidByteCountError, "NegativeRead": v3.BytesBufNegativeReadError,
	}
	reg("v1.Buffer", 1, false, e1, func(_ any, s ...[]byte) any { return v1.NewBuffer(s...) })
	reg("v1.MiniBuffer", 1, true, e1, func(prev any, s ...[]byte) any {
		m, _ := prev.(*v1.MiniBuffer)
		v1.NewMiniBuffer(&m, s...)
		return m
	})
	reg("v2.Buffer", 2, false, e2, func(_ any, s ...[]byte) any { return v2.NewBuffer(s...) })
	reg("v2.MiniBuffer", 2, true, e2, func(prev any, s ...[]byte) any {
		m, _ := prev.(*v2.MiniBuffer)
		v2.NewMiniBuffer(&m, s...)
		return m
	})
	reg("v3.Buffer", 3, false, e3, func(_ any, s ...[]byte) any { return v3.NewBuffer(s...) })
	reg("v3.MiniBuffer", 3, true, e3, func(prev any, s ...[]byte) any {
		m, _ := prev.(*v3.MiniBuffer)
		v3.NewMiniBuffer(&m, s...)
		return m
	})
}

var (
	allKinds  = []string{"v1.Buffer", "v1.MiniBuffer", "v2.Buffer", "v2.MiniBuffer", "v3.Buffer", "v3.MiniBuffer"}
	bufKinds  = []string{"v1.Buffer", "v2.Buffer", "v3.Buffer"}
	miniKinds = []string{"v1.MiniBuffer", "v2.MiniBuffer", "v3.MiniBuffer"}
)

// Impl is one buffer under test.
type Impl struct {
	*kindOf
	b any

	lend func(role, t string, d []uint64) any // where the slices passed to calls come from

	view []byte // what Bytes gave a poke, until the size changes

	noView bool // never look into byte slices that view the storage

	// variables a MiniBuffer caller would keep and pass again and again
	reuse   bool // always
	recycle bool // where a call says so
	keep    map[string]any
	args    map[string]any
	obit    byte
	obits   uint64
	oi64    int64
	obyte   []byte
	oany    interface{}
}

func newImpl(kind string, slices ...[]byte) *Impl { return newImplOver(nil, kind, slices...) }

// newImplOver creates a buffer; the out variable of a MiniBuffer held prev.
func newImplOver(prev any, kind string, slices ...[]byte) *Impl {
	k := kinds[kind]
	if k == nil {
		panic("unknown kind " + kind)
	}
	b := k.mk(prev, slices...)
	return &Impl{kindOf: k, b: b}
}

func (im *Impl) slice(role, t string, d []uint64) any {
	if im.lend != nil {
		return im.lend(role, t, d)
	}
	return mkSlice(t, d)
}

// arg is the slice a write is given: a new one, the one the write before it of
// such elements was given, with other elements in it now, or a nil one.
func (im *Impl) arg(o *Op) any {
	if !im.recycle || im.lend != nil || o.Arg == 0 {
		return im.slice("arg", o.T, o.D)
	}
	if o.Arg == 3 && len(o.D) == 0 {
		return reflect.Zero(reflect.TypeOf(mkSlice(o.T, nil))).Interface()
	}
	if im.args == nil {
		im.args = map[string]any{}
	}
	now := mkSlice(o.T, o.D)
	old, ok := im.args[o.T]
	if !ok || reflect.ValueOf(old).Cap() < len(o.D) {
		im.args[o.T] = now
		return now
	}
	v := reflect.ValueOf(old).Slice(0, len(o.D))
	reflect.Copy(v, reflect.ValueOf(now))
	im.args[o.T] = v.Interface()
	return im.args[o.T]
}

// ownBytes are bytes of the buffer, outside of those the write goes to, that
// have the values to write.
func (im *Impl) ownBytes(o *Op) []byte {
	if !im.recycle || im.lend != nil || o.Arg != 2 || o.Src < 0 {
		return nil
	}
	at := o.Off
	if o.Next {
		at = im.getter("off", 0)
	}
	n := int64(len(o.D))
	b := im.bytes()
	if o.Src+n > int64(len(b)) || o.Src < at+n && at < o.Src+n {
		return nil
	}
	s := b[o.Src : o.Src+n]
	for i, v := range o.D {
		if s[i] != byte(v) {
			return nil
		}
	}
	return s
}

func (im *Impl) again(o *Op) bool { return im.reuse || im.recycle && im.lend == nil && o.Arg == 1 }

// Result is the outcome of one call.
type Result struct {
	Panicked bool
	Panic    any
	Vals     []uint64
	TailBad  string // MiniBuffer destination damaged beyond the request
	ArgBad   string // write argument modified by the call

	arg any // slice passed in (writes)
	out any // slice of decoded elements (typed reads), as the library made or filled it
}

func (r *Result) errName(k *kindOf) string {
	if !r.Panicked {
		return ""
	}
	if r.Panic != nil && reflect.TypeOf(r.Panic).Comparable() {
		for _, n := range errOrder {
			if e, ok := k.errs[n]; ok && e == r.Panic {
				return n
			}
		}
	}
	return fmt.Sprintf("(%T) %v", r.Panic, r.Panic)
}

var errOrder = []string{"Overread", "Underread", "Overwrite", "Underwrite", "InvalidIntegerSize", "InvalidEndianness", "InvalidByteCount", "InvalidBit", "NegativeRead"}

func (im *Impl) bytes() (b []byte) {
	if x, ok := im.b.(interface{ Bytes() []byte }); ok {
		return x.Bytes()
	}
	im.b.(interface{ Bytes(*[]byte) }).Bytes(&b)
	return
}

func get(b any, names ...string) int64 {
	switch x := b.(type) {
	case interface{ Capacity() int64 }:
		if names[0] == "cap" {
			return x.Capacity()
		}
	case interface{ ByteCapacity() int64 }:
		if names[0] == "cap" {
			return x.ByteCapacity()
		}
	}
	switch names[0] {
	case "bcap":
		return b.(interface{ BitCapacity() int64 }).BitCapacity()
	case "off":
		if x, ok := b.(interface{ Offset() int64 }); ok {
			return x.Offset()
		}
		return b.(interface{ ByteOffset() int64 }).ByteOffset()
	case "boff":
		return b.(interface{ BitOffset() int64 }).BitOffset()
	}
	panic("no getter " + names[0])
}

// getters of MiniBuffer store into a variable that held pre before
func getMini(b any, name string, pre int64) int64 {
	o := pre
	switch name {
	case "cap":
		if x, ok := b.(interface{ Capacity(*int64) }); ok {
			x.Capacity(&o)
		} else {
			b.(interface{ ByteCapacity(*int64) }).ByteCapacity(&o)
		}
	case "bcap":
		b.(interface{ BitCapacity(*int64) }).BitCapacity(&o)
	case "off":
		if x, ok := b.(interface{ Offset(*int64) }); ok {
			x.Offset(&o)
		} else {
			b.(interface{ ByteOffset(*int64) }).ByteOffset(&o)
		}
	case "boff":
		b.(interface{ BitOffset(*int64) }).BitOffset(&o)
	}
	return o
}

func (im *Impl) getter(name string, pre int64) int64 {
	if im.mini {
		return getMini(im.b, name, pre)
	}
	return get(im.b, name)
}

func (im *Impl) observe() State {
	b := im.bytes()
	return State{
		Buf: append(make([]byte, 0, len(b)), b...),
		Off: im.getter("off", 0), Boff: im.getter("boff", 0),
		Cap: im.getter("cap", 0), Bcap: im.getter("bcap", 0),
	}
}

// look asks some of what observe asks, and takes the rest to be as expected.
func (im *Impl) look(how int, exp *State) State {
	s := *exp
	switch how {
	case 0:
		return im.observe()
	case 1:
	case 2:
		s.Cap = im.getter("cap", 0)
	case 3:
		s.Bcap = im.getter("bcap", 0)
	case 4:
		s.Off = im.getter("off", 0)
	case 5:
		s.Boff = im.getter("boff", 0)
	case 6:
		b := im.bytes()
		s.Buf = append(make([]byte, 0, len(b)), b...)
	default:
		s.Bcap, s.Cap = im.getter("bcap", 0), im.getter("cap", 0)
		s.Boff, s.Off = im.getter("boff", 0), im.getter("off", 0)
		b := im.bytes()
		s.Buf = append(make([]byte, 0, len(b)), b...)
	}
	return s
}

// complete tells whether that look asks everything.
func complete(how int) bool { return how == 0 || how > 6 }

var getters = []string{"cap", "bcap", "off", "boff"}

type locker interface {
	Lock()
	Unlock()
	TryLock() bool
}

// lockHeld tells whether the v1/v2 mutex is held right now.
func (im *Impl) lockHeld() bool {
	l, ok := im.b.(locker)
	if !ok {
		return false
	}
	if l.TryLock() {
		l.Unlock()
		return false
	}
	return true
}

/* slices of elements <-> raw bits */

func mkSlice(t string, d []uint64) any {
	switch t {
	case "b", "c8", "1":
		s := make([]byte, len(d))
		for i, v := range d {
			s[i] = byte(v)
		}
		return s
	case "u16":
		s := make([]uint16, len(d))
		for i, v := range d {
			s[i] = uint16(v)
		}
		return s
	case "u32":
		s := make([]uint32, len(d))
		for i, v := range d {
			s[i] = uint32(v)
		}
		return s
	case "u64":
		return append(make([]uint64, 0, len(d)), d...)
	case "i16":
		s := make([]int16, len(d))
		for i, v := range d {
			s[i] = int16(v)
		}
		return s
	case "i32":
		s := make([]int32, len(d))
		for i, v := range d {
			s[i] = int32(v)
		}
		return s
	case "i64":
		s := make([]int64, len(d))
		for i, v := range d {
			s[i] = int64(v)
		}
		return s
	case "f32":
		s := make([]float32, len(d))
		for i, v := range d {
			s[i] = math.Float32frombits(uint32(v))
		}
		return s
	case "f64":
		s := make([]float64, len(d))
		for i, v := range d {
			s[i] = math.Float64frombits(v)
		}
		return s
	}
	panic("type " + t)
}

func rawBits(s any) []uint64 {
	switch s := s.(type) {
	case []byte:
		o := make([]uint64, len(s))
		for i, v := range s {
			o[i] = uint64(v)
		}
		return o
	case []uint16:
		o := make([]uint64, len(s))
		for i, v := range s {
			o[i] = uint64(v)
		}
		return o
	case []uint32:
		o := make([]uint64, len(s))
		for i, v := range s {
			o[i] = uint64(v)
		}
		return o
	case []uint64:
		return append(make([]uint64, 0, len(s)), s...)
	case []int16:
		o := make([]uint64, len(s))
		for i, v := range s {
			o[i] = uint64(uint16(v))
		}
		return o
	case []int32:
		o := make([]uint64, len(s))
		for i, v := range s {
			o[i] = uint64(uint32(v))
		}
		return o
	case []int64:
		o := make([]uint64, len(s))
		for i, v := range s {
			o[i] = uint64(v)
		}
		return o
	case []float32:
		o := make([]uint64, len(s))
		for i := range s {
			o[i] = uint64(math.Float32bits(s[i]))
		}
		return o
	case []float64:
		o := make([]uint64, len(s))
		for i := range s {
			o[i] = math.Float64bits(s[i])
		}
		return o
	case nil:
		return nil
	}
	panic(fmt.Sprintf("unexpected result type %T", s))
}

// scramble overwrites every element of a slice.
func scramble(s any) {
	v := reflect.ValueOf(s)
	n := v.Len()
	for i := 0; i < n; i++ {
		e := v.Index(i)
		switch e.Kind() {
		case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			e.SetUint(^e.Uint() & (1<<uint(e.Type().Bits()-1)<<1 - 1))
		case reflect.Int16, reflect.Int32, reflect.Int64:
			e.SetInt(^e.Int())
		case reflect.Float32:
			e.Set(reflect.ValueOf(math.Float32frombits(^math.Float32bits(e.Interface().(float32)))))
		case reflect.Float64:
			e.Set(reflect.ValueOf(math.Float64frombits(^math.Float64bits(e.Float()))))
		}
	}
}

func eqU64(a, b []uint64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func maskType(t string, v uint64) uint64 {
	switch elemSize(t) {
	case 1:
		return v & 0xFF
	case 2:
		return v & 0xFFFF
	case 4:
		return v & 0xFFFFFFFF
	}
	return v
}

// foreignLE and foreignBE are byte orders from outside encoding/binary.
type foreignLE struct{ pad int }

func (foreignLE) Uint16(b []byte) uint16 { return uint16(b[0]) | uint16(b[1])<<8 }
func (foreignLE) Uint32(b []byte) uint32 {
	return uint32(b[0]) | uint32(b[1])<<8 | uint32(b[2])<<16 | uint32(b[3])<<24
}
func (o foreignLE) Uint64(b []byte) uint64 {
	return uint64(o.Uint32(b)) | uint64(o.Uint32(b[4:]))<<32
}
func (foreignLE) PutUint16(b []byte, v uint16) { b[0], b[1] = byte(v), byte(v>>8) }
func (o foreignLE) PutUint32(b []byte, v uint32) {
	o.PutUint16(b, uint16(v))
	o.PutUint16(b[2:], uint16(v>>16))
}
func (o foreignLE) PutUint64(b []byte, v uint64) {
	o.PutUint32(b, uint32(v))
	o.PutUint32(b[4:], uint32(v>>32))
}
func (foreignLE) String() string { return "little" }

type foreignBE struct{ pad int }

func (foreignBE) Uint16(b []byte) uint16 { return uint16(b[1]) | uint16(b[0])<<8 }
func (foreignBE) Uint32(b []byte) uint32 {
	return uint32(b[3]) | uint32(b[2])<<8 | uint32(b[1])<<16 | uint32(b[0])<<24
}
func (o foreignBE) Uint64(b []byte) uint64 {
	return uint64(o.Uint32(b[4:])) | uint64(o.Uint32(b))<<32
}
func (foreignBE) PutUint16(b []byte, v uint16) { b[1], b[0] = byte(v), byte(v>>8) }
func (o foreignBE) PutUint32(b []byte, v uint32) {
	o.PutUint16(b[2:], uint16(v))
	o.PutUint16(b, uint16(v>>16))
}
func (o foreignBE) PutUint64(b []byte, v uint64) {
	o.PutUint32(b[4:], uint32(v))
	o.PutUint32(b, uint32(v>>32))
}
func (foreignBE) String() string { return "big" }

// refusingOrder is a byte order that can neither encode nor decode.
type refusingOrder struct{}

func (refusingOrder) Uint16([]byte) uint16     { panic("byte order refuses") }
func (refusingOrder) Uint32([]byte) uint32     { panic("byte order refuses") }
func (refusingOrder) Uint64([]byte) uint64     { panic("byte order refuses") }
func (refusingOrder) PutUint16([]byte, uint16) { panic("byte order refuses") }
func (refusingOrder) PutUint32([]byte, uint32) { panic("byte order refuses") }
func (refusingOrder) PutUint64([]byte, uint64) { panic("byte order refuses") }
func (refusingOrder) String() string           { return "none" }

func (o *Op) endian() binary.ByteOrder {
	one := [2]byte{1, 0}
	switch {
	case (o.K == "rord" || o.K == "word") && o.Ord == 4:
		return refusingOrder{}
	case o.K == "rord" || o.K == "word":
		return nil
	case o.Ord == 1 && o.E == "BE":
		return foreignBE{}
	case o.Ord == 1:
		return foreignLE{}
	case o.Ord == 2 && (o.E == "BE") == (binary.NativeEndian.Uint16(one[:]) != 1):
		return binary.NativeEndian
	case o.E == "BE":
		return v1.BigEndian
	}
	return v1.LittleEndian
}

// apply makes the call described by op, recovering a panic.
func (im *Impl) apply(o *Op) (r Result) {
	defer func() {
		if p := recover(); p != nil {
			r.Panicked, r.Panic = true, p
			r.Vals = nil
		}
		if r.arg != nil && o.K == "w" && r.ArgBad == "" {
			for i, v := range rawBits(r.arg) {
				if v != maskType(o.T, o.D[i]) {
					r.ArgBad = fmt.Sprintf("element %d of the argument changed to %#x", i, v)
					break
				}
			}
		}
	}()
	if im.view != nil && resizes(o.K) {
		im.view = nil
	}
	switch o.K {
	case "w":
		im.write(o, &r)
	case "r":
		im.read(o, &r)
	case "rbit":
		if im.mini {
			p := &im.obit
			if !im.again(o) {
				x := byte(o.Pre)
				p = &x
			}
			if o.Next {
				im.b.(interface{ ReadBitNext(*byte) }).ReadBitNext(p)
			} else {
				im.b.(interface{ ReadBit(*byte, int64) }).ReadBit(p, o.Off)
			}
			r.Vals = []uint64{uint64(*p)}
		} else if o.Next {
			r.Vals = []uint64{uint64(im.b.(interface{ ReadBitNext() byte }).ReadBitNext())}
		} else {
			r.Vals = []uint64{uint64(im.b.(interface{ ReadBit(int64) byte }).ReadBit(o.Off))}
		}
	case "sbit":
		switch {
		case im.ver != 3 && o.Next:
			im.b.(interface{ SetBitNext(byte) }).SetBitNext(byte(o.V))
		case im.ver != 3:
			im.b.(interface{ SetBit(int64, byte) }).SetBit(o.Off, byte(o.V))
		case o.V == 1 && o.Next:
			im.b.(interface{ SetBitNext() }).SetBitNext()
		case o.V == 1:
			im.b.(interface{ SetBit(int64) }).SetBit(o.Off)
		case o.Next:
			im.b.(interface{ ClearBitNext() }).ClearBitNext()
		default:
			im.b.(interface{ ClearBit(int64) }).ClearBit(o.Off)
		}
	case "fbit":
		if o.Next {
			im.b.(interface{ FlipBitNext() }).FlipBitNext()
		} else {
			im.b.(interface{ FlipBit(int64) }).FlipBit(o.Off)
		}
	case "rbits":
		if im.mini {
			p := &im.obits
			if !im.again(o) {
				x := o.Pre
				p = &x
			}
			if o.Next {
				im.b.(interface{ ReadBitsNext(*uint64, int64) }).ReadBitsNext(p, o.N)
			} else {
				im.b.(interface{ ReadBits(*uint64, int64, int64) }).ReadBits(p, o.Off, o.N)
			}
			r.Vals = []uint64{*p}
		} else if o.Next {
			r.Vals = []uint64{im.b.(interface{ ReadBitsNext(int64) uint64 }).ReadBitsNext(o.N)}
		} else {
			r.Vals = []uint64{im.b.(interface{ ReadBits(int64, int64) uint64 }).ReadBits(o.Off, o.N)}
		}
	case "sbits":
		if o.Next {
			im.b.(interface{ SetBitsNext(uint64, int64) }).SetBitsNext(o.V, o.N)
		} else {
			im.b.(interface {
				SetBits(int64, uint64, int64)
			}).SetBits(o.Off, o.V, o.N)
		}
	case "clear":
		im.b.(interface{ ClearAllBits() }).ClearAllBits()
	case "set":
		im.b.(interface{ SetAllBits() }).SetAllBits()
	case "flip":
		im.b.(interface{ FlipAllBits() }).FlipAllBits()
	case "seek":
		if x, ok := im.b.(interface{ Seek(int64, bool) }); ok {
			x.Seek(o.Off, o.Rel)
		} else {
			im.b.(interface{ SeekByte(int64, bool) }).SeekByte(o.Off, o.Rel)
		}
	case "seekbit":
		im.b.(interface{ SeekBit(int64, bool) }).SeekBit(o.Off, o.Rel)
	case "alignbit":
		im.b.(interface{ AlignBit() }).AlignBit()
	case "alignbyte":
		im.b.(interface{ AlignByte() }).AlignByte()
	case "after", "afterbit":
		var a []int64
		if o.Has {
			a = []int64{o.Off}
		}
		if im.mini {
			p := &im.oi64
			if !im.again(o) {
				x := int64(o.Pre)
				p = &x
			}
			if o.K == "afterbit" {
				im.b.(interface{ AfterBit(*int64, ...int64) }).AfterBit(p, a...)
			} else if x, ok := im.b.(interface{ After(*int64, ...int64) }); ok {
				x.After(p, a...)
			} else {
				im.b.(interface{ AfterByte(*int64, ...int64) }).AfterByte(p, a...)
			}
			r.Vals = []uint64{uint64(*p)}
		} else if o.K == "afterbit" {
			r.Vals = []uint64{uint64(im.b.(interface{ AfterBit(...int64) int64 }).AfterBit(a...))}
		} else if x, ok := im.b.(interface{ After(...int64) int64 }); ok {
			r.Vals = []uint64{uint64(x.After(a...))}
		} else {
			r.Vals = []uint64{uint64(im.b.(interface{ AfterByte(...int64) int64 }).AfterByte(a...))}
		}
	case "grow":
		im.b.(interface{ Grow(int64) }).Grow(o.N)
	case "truncl":
		im.b.(interface{ TruncateLeft(int64) }).TruncateLeft(o.N)
	case "truncr":
		im.b.(interface{ TruncateRight(int64) }).TruncateRight(o.N)
	case "reset":
		im.b.(interface{ Reset() }).Reset()
	case "refresh":
		im.b.(interface{ Refresh() }).Refresh()
	case "get":
		r.Vals = []uint64{uint64(im.getter(getters[o.V%4], int64(o.Pre)))}
	case "bytes":
		r.Vals = rawBits(im.bytes())
	case "poke":
		if !o.Rel || int64(len(im.view)) <= o.Off {
			im.view = im.bytes()
		}
		im.view[o.Off] = byte(o.V)
	case "rbad":
		im.complexRead(o, v1.IntegerSize(o.Size), &r)
	case "wbad", "wmis":
		switch o.T {
		case "nil":
			im.complexWrite(o, nil, v1.IntegerSize(o.Size))
			return
		case "one": // an element in place of a slice of them
			im.complexWrite(o, reflect.ValueOf(mkSlice(map[int64]string{1: "b", 2: "u16", 4: "u32", 8: "u64"}[o.Size], []uint64{o.V})).Index(0).Interface(), v1.IntegerSize(o.Size))
			return
		}
		r.arg = im.arg(o)
		im.complexWrite(o, r.arg, v1.IntegerSize(o.Size))
	case "rord":
		im.complexRead(o, v1.IntegerSize(elemSize(o.T)), &r)
	case "word":
		r.arg = im.arg(o)
		im.complexWrite(o, r.arg, v1.IntegerSize(elemSize(o.T)))
	default:
		panic("unknown op kind " + o.K)
	}
	return
}

func (im *Impl) complexWrite(o *Op, data any, size v1.IntegerSize) {
	if o.Next {
		im.b.(interface {
			WriteComplexNext(interface{}, v1.IntegerSize, binary.ByteOrder)
		}).WriteComplexNext(data, size, o.endian())
	} else {
		im.b.(interface {
			WriteComplex(int64, interface{}, v1.IntegerSize, binary.ByteOrder)
		}).WriteComplex(o.Off, data, size, o.endian())
	}
}

func (im *Impl) complexRead(o *Op, size v1.IntegerSize, r *Result) {
	var out interface{}
	if im.mini {
		p := &im.oany
		if !im.again(o) {
			var x interface{}
			if o.Pre != 0 {
				x = im.slice("old", []string{"u16", "u32", "u64", "b"}[o.Pre%4], make([]uint64, o.Pad))
			}
			p = &x
		}
		if o.Next {
			im.b.(interface {
				ReadComplexNext(*interface{}, int64, v1.IntegerSize, binary.ByteOrder)
			}).ReadComplexNext(p, o.N, size, o.endian())
		} else {
			im.b.(interface {
				ReadComplex(*interface{}, int64, int64, v1.IntegerSize, binary.ByteOrder)
			}).ReadComplex(p, o.Off, o.N, size, o.endian())
		}
		out = *p
	} else if o.Next {
		out = im.b.(interface {
			ReadComplexNext(int64, v1.IntegerSize, binary.ByteOrder) interface{}
		}).ReadComplexNext(o.N, size, o.endian())
	} else {
		out = im.b.(interface {
			ReadComplex(int64, int64, v1.IntegerSize, binary.ByteOrder) interface{}
		}).ReadComplex(o.Off, o.N, size, o.endian())
	}
	want := mkSlice(map[v1.IntegerSize]string{1: "b", 2: "u16", 4: "u32", 8: "u64"}[size], nil)
	if reflect.TypeOf(out) != reflect.TypeOf(want) {
		r.TailBad = fmt.Sprintf("result has type %T, expected %T", out, want)
		return
	}
	if im.noView && size == 1 {
		return
	}
	r.Vals = rawBits(out)
	if size != 1 {
		r.out = out
	}
}

func (im *Impl) write(o *Op, r *Result) {
	switch o.T {
	case "b":
		s := im.ownBytes(o)
		if s == nil {
			s = im.arg(o).([]byte)
			r.arg = s
		}
		if o.Next {
			im.b.(interface{ WriteBytesNext([]byte) }).WriteBytesNext(s)
		} else {
			im.b.(interface{ WriteBytes(int64, []byte) }).WriteBytes(o.Off, s)
		}
		return
	case "1":
		if o.Next {
			im.b.(interface{ WriteByteNext(byte) }).WriteByteNext(byte(o.D[0]))
		} else {
			im.b.(interface{ WriteByte(int64, byte) }).WriteByte(o.Off, byte(o.D[0]))
		}
		return
	}
	r.arg = im.arg(o)
	if im.ver == 1 {
		im.complexWrite(o, r.arg, v1.IntegerSize(elemSize(o.T)))
		return
	}
	typedWrite(im.b, o.T+o.E, o.Next, o.Off, r.arg)
}

func (im *Impl) read(o *Op, r *Result) {
	switch o.T {
	case "b":
		var out []byte
		if im.mini {
			p := &im.obyte
			if !im.again(o) {
				x := []byte(nil)
				if o.Pre != 0 {
					x = im.slice("old", "b", make([]uint64, o.Pad)).([]byte)
				}
				p = &x
			}
			if o.Next {
				im.b.(interface{ ReadBytesNext(*[]byte, int64) }).ReadBytesNext(p, o.N)
			} else {
				im.b.(interface{ ReadBytes(*[]byte, int64, int64) }).ReadBytes(p, o.Off, o.N)
			}
			out = *p
		} else if o.Next {
			out = im.b.(interface{ ReadBytesNext(int64) []byte }).ReadBytesNext(o.N)
		} else {
			out = im.b.(interface{ ReadBytes(int64, int64) []byte }).ReadBytes(o.Off, o.N)
		}
		if im.noView {
			return
		}
		r.Vals = rawBits(out)
		return
	case "1":
		if o.Next {
			r.Vals = []uint64{uint64(im.b.(interface{ ReadByteNext() byte }).ReadByteNext())}
		} else {
			r.Vals = []uint64{uint64(im.b.(interface{ ReadByte(int64) byte }).ReadByte(o.Off))}
		}
		return
	}
	if im.ver == 1 {
		im.complexRead(o, v1.IntegerSize(elemSize(o.T)), r)
		return
	}
	te := o.T + o.E
	if !im.mini {
		r.out = typedRead(im.b, te, o.Next, o.Off, o.N)
		r.Vals = rawBits(r.out)
		return
	}
	// the destination of a MiniBuffer: N elements and Pad more, holding Pre
	total := int(o.N) + o.Pad
	pre := make([]uint64, total)
	for i := range pre {
		pre[i] = maskType(o.T, o.Pre+uint64(i)*0x9E3779B97F4A7C15*(o.Pre&1))
	}
	var dst any
	if im.again(o) {
		if q, ok := im.keep[o.T]; ok && sliceLen(q) >= int(o.N) {
			dst = q
			total = sliceLen(q)
			pre = rawBits(q)
		}
	}
	if dst == nil {
		dst = im.slice("dst", o.T, pre)
	}
	dst = typedReadMini(im.b, te, o.Next, o.Off, o.N, dst)
	if im.again(o) {
		if im.keep == nil {
			im.keep = map[string]any{}
		}
		im.keep[o.T] = dst
	}
	got := rawBits(dst)
	if len(got) != total {
		r.TailBad = fmt.Sprintf("destination slice has length %d, had %d", len(got), total)
		if int64(len(got)) < o.N {
			r.Vals = got
			return
		}
	} else {
		for i := int(o.N); i < total; i++ {
			if got[i] != pre[i] {
				r.TailBad = fmt.Sprintf("destination element %d (past the %d requested) changed from %#x to %#x", i, o.N, pre[i], got[i])
				break
			}
		}
	}
	r.out = dst
	r.Vals = got[:o.N]
}

func sliceLen(s any) int { return reflect.ValueOf(s).Len() }
