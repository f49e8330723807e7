#!/usr/bin/env python3
"""Writes harness/typed.go: direct calls of the v2/v3 typed methods. (reflect's
frame pool would order the goroutines of concurrent cases behind their back.)"""
import os
T = [("u16", "uint16"), ("u32", "uint32"), ("u64", "uint64"), ("i16", "int16"), ("i32", "int32"), ("i64", "int64"), ("f32", "float32"), ("f64", "float64")]
o = ["// Code generated by tools/mktyped.py. DO NOT EDIT.", "", "package harness", ""]
o.append("func typedWrite(b any, te string, next bool, off int64, d any) {\n\tswitch te {")
for t, g in T:
    for e in ("LE", "BE"):
        m = f"Write{t.upper()}{e}"
        o.append(f'''	case "{t}{e}":
		if next {{
			b.(interface{{ {m}Next([]{g}) }}).{m}Next(d.([]{g}))
		}} else {{
			b.(interface{{ {m}(int64, []{g}) }}).{m}(off, d.([]{g}))
		}}''')
o.append('\tdefault:\n\t\tpanic("type " + te)\n\t}\n}\n')
o.append("func typedRead(b any, te string, next bool, off, n int64) any {\n\tswitch te {")
for t, g in T:
    for e in ("LE", "BE"):
        m = f"Read{t.upper()}{e}"
        o.append(f'''	case "{t}{e}":
		if next {{
			return b.(interface{{ {m}Next(int64) []{g} }}).{m}Next(n)
		}}
		return b.(interface{{ {m}(int64, int64) []{g} }}).{m}(off, n)''')
o.append('\t}\n\tpanic("type " + te)\n}\n')
o.append("func typedReadMini(b any, te string, next bool, off, n int64, dst any) any {\n\tswitch te {")
for t, g in T:
    for e in ("LE", "BE"):
        m = f"Read{t.upper()}{e}"
        o.append(f'''	case "{t}{e}":
		p := dst.([]{g})
		if next {{
			b.(interface{{ {m}Next(*[]{g}, int64) }}).{m}Next(&p, n)
		}} else {{
			b.(interface{{ {m}(*[]{g}, int64, int64) }}).{m}(&p, off, n)
		}}
		return p''')
o.append('\t}\n\tpanic("type " + te)\n}\n')
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness", "typed.go")
open(p, "w").write("\n".join(o))
