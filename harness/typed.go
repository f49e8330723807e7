// Code generated by tools/mktyped.py. DO NOT EDIT.

package harness

func typedWrite(b any, te string, next bool, off int64, d any) {
	switch te {
	case "u16LE":
		if next {
			b.(interface{ WriteU16LENext([]uint16) }).WriteU16LENext(d.([]uint16))
		} else {
			b.(interface{ WriteU16LE(int64, []uint16) }).WriteU16LE(off, d.([]uint16))
		}
	case "u16BE":
		if next {
			b.(interface{ WriteU16BENext([]uint16) }).WriteU16BENext(d.([]uint16))
		} else {
			b.(interface{ WriteU16BE(int64, []uint16) }).WriteU16BE(off, d.([]uint16))
		}
	case "u32LE":
		if next {
			b.(interface{ WriteU32LENext([]uint32) }).WriteU32LENext(d.([]uint32))
		} else {
			b.(interface{ WriteU32LE(int64, []uint32) }).WriteU32LE(off, d.([]uint32))
		}
	case "u32BE":
		if next {
			b.(interface{ WriteU32BENext([]uint32) }).WriteU32BENext(d.([]uint32))
		} else {
			b.(interface{ WriteU32BE(int64, []uint32) }).WriteU32BE(off, d.([]uint32))
		}
	case "u64LE":
		if next {
			b.(interface{ WriteU64LENext([]uint64) }).WriteU64LENext(d.([]uint64))
		} else {
			b.(interface{ WriteU64LE(int64, []uint64) }).WriteU64LE(off, d.([]uint64))
		}
	case "u64BE":
		if next {
			b.(interface{ WriteU64BENext([]uint64) }).WriteU64BENext(d.([]uint64))
		} else {
			b.(interface{ WriteU64BE(int64, []uint64) }).WriteU64BE(off, d.([]uint64))
		}
	case "i16LE":
		if next {
			b.(interface{ WriteI16LENext([]int16) }).WriteI16LENext(d.([]int16))
		} else {
			b.(interface{ WriteI16LE(int64, []int16) }).WriteI16LE(off, d.([]int16))
		}
	case "i16BE":
		if next {
			b.(interface{ WriteI16BENext([]int16) }).WriteI16BENext(d.([]int16))
		} else {
			b.(interface{ WriteI16BE(int64, []int16) }).WriteI16BE(off, d.([]int16))
		}
	case "i32LE":
		if next {
			b.(interface{ WriteI32LENext([]int32) }).WriteI32LENext(d.([]int32))
		} else {
			b.(interface{ WriteI32LE(int64, []int32) }).WriteI32LE(off, d.([]int32))
		}
	case "i32BE":
		if next {
			b.(interface{ WriteI32BENext([]int32) }).WriteI32BENext(d.([]int32))
		} else {
			b.(interface{ WriteI32BE(int64, []int32) }).WriteI32BE(off, d.([]int32))
		}
	case "i64LE":
		if next {
			b.(interface{ WriteI64LENext([]int64) }).WriteI64LENext(d.([]int64))
		} else {
			b.(interface{ WriteI64LE(int64, []int64) }).WriteI64LE(off, d.([]int64))
		}
	case "i64BE":
		if next {
			b.(interface{ WriteI64BENext([]int64) }).WriteI64BENext(d.([]int64))
		} else {
			b.(interface{ WriteI64BE(int64, []int64) }).WriteI64BE(off, d.([]int64))
		}
	case "f32LE":
		if next {
			b.(interface{ WriteF32LENext([]float32) }).WriteF32LENext(d.([]float32))
		} else {
			b.(interface{ WriteF32LE(int64, []float32) }).WriteF32LE(off, d.([]float32))
		}
	case "f32BE":
		if next {
			b.(interface{ WriteF32BENext([]float32) }).WriteF32BENext(d.([]float32))
		} else {
			b.(interface{ WriteF32BE(int64, []float32) }).WriteF32BE(off, d.([]float32))
		}
	case "f64LE":
		if next {
			b.(interface{ WriteF64LENext([]float64) }).WriteF64LENext(d.([]float64))
		} else {
			b.(interface{ WriteF64LE(int64, []float64) }).WriteF64LE(off, d.([]float64))
		}
	case "f64BE":
		if next {
			b.(interface{ WriteF64BENext([]float64) }).WriteF64BENext(d.([]float64))
		} else {
			b.(interface{ WriteF64BE(int64, []float64) }).WriteF64BE(off, d.([]float64))
		}
	default:
		panic("type " + te)
	}
}

func typedRead(b any, te string, next bool, off, n int64) any {
	switch te {
	case "u16LE":
		if next {
			return b.(interface{ ReadU16LENext(int64) []uint16 }).ReadU16LENext(n)
		}
		return b.(interface{ ReadU16LE(int64, int64) []uint16 }).ReadU16LE(off, n)
	case "u16BE":
		if next {
			return b.(interface{ ReadU16BENext(int64) []uint16 }).ReadU16BENext(n)
		}
		return b.(interface{ ReadU16BE(int64, int64) []uint16 }).ReadU16BE(off, n)
	case "u32LE":
		if next {
			return b.(interface{ ReadU32LENext(int64) []uint32 }).ReadU32LENext(n)
		}
		return b.(interface{ ReadU32LE(int64, int64) []uint32 }).ReadU32LE(off, n)
	case "u32BE":
		if next {
			return b.(interface{ ReadU32BENext(int64) []uint32 }).ReadU32BENext(n)
		}
		return b.(interface{ ReadU32BE(int64, int64) []uint32 }).ReadU32BE(off, n)
	case "u64LE":
		if next {
			return b.(interface{ ReadU64LENext(int64) []uint64 }).ReadU64LENext(n)
		}
		return b.(interface{ ReadU64LE(int64, int64) []uint64 }).ReadU64LE(off, n)
	case "u64BE":
		if next {
			return b.(interface{ ReadU64BENext(int64) []uint64 }).ReadU64BENext(n)
		}
		return b.(interface{ ReadU64BE(int64, int64) []uint64 }).ReadU64BE(off, n)
	case "i16LE":
		if next {
			return b.(interface{ ReadI16LENext(int64) []int16 }).ReadI16LENext(n)
		}
		return b.(interface{ ReadI16LE(int64, int64) []int16 }).ReadI16LE(off, n)
	case "i16BE":
		if next {
			return b.(interface{ ReadI16BENext(int64) []int16 }).ReadI16BENext(n)
		}
		return b.(interface{ ReadI16BE(int64, int64) []int16 }).ReadI16BE(off, n)
	case "i32LE":
		if next {
			return b.(interface{ ReadI32LENext(int64) []int32 }).ReadI32LENext(n)
		}
		return b.(interface{ ReadI32LE(int64, int64) []int32 }).ReadI32LE(off, n)
	case "i32BE":
		if next {
			return b.(interface{ ReadI32BENext(int64) []int32 }).ReadI32BENext(n)
		}
		return b.(interface{ ReadI32BE(int64, int64) []int32 }).ReadI32BE(off, n)
	case "i64LE":
		if next {
			return b.(interface{ ReadI64LENext(int64) []int64 }).ReadI64LENext(n)
		}
		return b.(interface{ ReadI64LE(int64, int64) []int64 }).ReadI64LE(off, n)
	case "i64BE":
		if next {
			return b.(interface{ ReadI64BENext(int64) []int64 }).ReadI64BENext(n)
		}
		return b.(interface{ ReadI64BE(int64, int64) []int64 }).ReadI64BE(off, n)
	case "f32LE":
		if next {
			return b.(interface{ ReadF32LENext(int64) []float32 }).ReadF32LENext(n)
		}
		return b.(interface{ ReadF32LE(int64, int64) []float32 }).ReadF32LE(off, n)
	case "f32BE":
		if next {
			return b.(interface{ ReadF32BENext(int64) []float32 }).ReadF32BENext(n)
		}
		return b.(interface{ ReadF32BE(int64, int64) []float32 }).ReadF32BE(off, n)
	case "f64LE":
		if next {
			return b.(interface{ ReadF64LENext(int64) []float64 }).ReadF64LENext(n)
		}
		return b.(interface{ ReadF64LE(int64, int64) []float64 }).ReadF64LE(off, n)
	case "f64BE":
		if next {
			return b.(interface{ ReadF64BENext(int64) []float64 }).ReadF64BENext(n)
		}
		return b.(interface{ ReadF64BE(int64, int64) []float64 }).ReadF64BE(off, n)
	}
	panic("type " + te)
}

func typedReadMini(b any, te string, next bool, off, n int64, dst any) any {
	switch te {
	case "u16LE":
		p := dst.([]uint16)
		if next {
			b.(interface{ ReadU16LENext(*[]uint16, int64) }).ReadU16LENext(&p, n)
		} else {
			b.(interface{ ReadU16LE(*[]uint16, int64, int64) }).ReadU16LE(&p, off, n)
		}
		return p
	case "u16BE":
		p := dst.([]uint16)
		if next {
			b.(interface{ ReadU16BENext(*[]uint16, int64) }).ReadU16BENext(&p, n)
		} else {
			b.(interface{ ReadU16BE(*[]uint16, int64, int64) }).ReadU16BE(&p, off, n)
		}
		return p
	case "u32LE":
		p := dst.([]uint32)
		if next {
			b.(interface{ ReadU32LENext(*[]uint32, int64) }).ReadU32LENext(&p, n)
		} else {
			b.(interface{ ReadU32LE(*[]uint32, int64, int64) }).ReadU32LE(&p, off, n)
		}
		return p
	case "u32BE":
		p := dst.([]uint32)
		if next {
			b.(interface{ ReadU32BENext(*[]uint32, int64) }).ReadU32BENext(&p, n)
		} else {
			b.(interface{ ReadU32BE(*[]uint32, int64, int64) }).ReadU32BE(&p, off, n)
		}
		return p
	case "u64LE":
		p := dst.([]uint64)
		if next {
			b.(interface{ ReadU64LENext(*[]uint64, int64) }).ReadU64LENext(&p, n)
		} else {
			b.(interface{ ReadU64LE(*[]uint64, int64, int64) }).ReadU64LE(&p, off, n)
		}
		return p
	case "u64BE":
		p := dst.([]uint64)
		if next {
			b.(interface{ ReadU64BENext(*[]uint64, int64) }).ReadU64BENext(&p, n)
		} else {
			b.(interface{ ReadU64BE(*[]uint64, int64, int64) }).ReadU64BE(&p, off, n)
		}
		return p
	case "i16LE":
		p := dst.([]int16)
		if next {
			b.(interface{ ReadI16LENext(*[]int16, int64) }).ReadI16LENext(&p, n)
		} else {
			b.(interface{ ReadI16LE(*[]int16, int64, int64) }).ReadI16LE(&p, off, n)
		}
		return p
	case "i16BE":
		p := dst.([]int16)
		if next {
			b.(interface{ ReadI16BENext(*[]int16, int64) }).ReadI16BENext(&p, n)
		} else {
			b.(interface{ ReadI16BE(*[]int16, int64, int64) }).ReadI16BE(&p, off, n)
		}
		return p
	case "i32LE":
		p := dst.([]int32)
		if next {
			b.(interface{ ReadI32LENext(*[]int32, int64) }).ReadI32LENext(&p, n)
		} else {
			b.(interface{ ReadI32LE(*[]int32, int64, int64) }).ReadI32LE(&p, off, n)
		}
		return p
	case "i32BE":
		p := dst.([]int32)
		if next {
			b.(interface{ ReadI32BENext(*[]int32, int64) }).ReadI32BENext(&p, n)
		} else {
			b.(interface{ ReadI32BE(*[]int32, int64, int64) }).ReadI32BE(&p, off, n)
		}
		return p
	case "i64LE":
		p := dst.([]int64)
		if next {
			b.(interface{ ReadI64LENext(*[]int64, int64) }).ReadI64LENext(&p, n)
		} else {
			b.(interface{ ReadI64LE(*[]int64, int64, int64) }).ReadI64LE(&p, off, n)
		}
		return p
	case "i64BE":
		p := dst.([]int64)
		if next {
			b.(interface{ ReadI64BENext(*[]int64, int64) }).ReadI64BENext(&p, n)
		} else {
			b.(interface{ ReadI64BE(*[]int64, int64, int64) }).ReadI64BE(&p, off, n)
		}
		return p
	case "f32LE":
		p := dst.([]float32)
		if next {
			b.(interface{ ReadF32LENext(*[]float32, int64) }).ReadF32LENext(&p, n)
		} else {
			b.(interface {
				ReadF32LE(*[]float32, int64, int64)
			}).ReadF32LE(&p, off, n)
		}
		return p
	case "f32BE":
		p := dst.([]float32)
		if next {
			b.(interface{ ReadF32BENext(*[]float32, int64) }).ReadF32BENext(&p, n)
		} else {
			b.(interface {
				ReadF32BE(*[]float32, int64, int64)
			}).ReadF32BE(&p, off, n)
		}
		return p
	case "f64LE":
		p := dst.([]float64)
		if next {
			b.(interface{ ReadF64LENext(*[]float64, int64) }).ReadF64LENext(&p, n)
		} else {
			b.(interface {
				ReadF64LE(*[]float64, int64, int64)
			}).ReadF64LE(&p, off, n)
		}
		return p
	case "f64BE":
		p := dst.([]float64)
		if next {
			b.(interface{ ReadF64BENext(*[]float64, int64) }).ReadF64BENext(&p, n)
		} else {
			b.(interface {
				ReadF64BE(*[]float64, int64, int64)
			}).ReadF64BE(&p, off, n)
		}
		return p
	}
	panic("type " + te)
}
