"""A fuzzing dictionary: the integer and string literals of the code under test.

Like an AFL or libFuzzer dictionary it only steers generation (sizes, positions,
counts, values and names near the constants the code mentions get drawn more
often); no verdict depends on it. Without it the generators draw from a default.
"""
import base64, glob, os, re

INT = r"(?:0[xX][0-9a-fA-F_]+|0[bB][01_]+|0[oO][0-7_]+|\d[\d_]*)"
TOKEN = re.compile(r"""//[^\n]*|/\*.*?\*/|"((?:[^"\\\n]|\\.)*)"|`([^`]*)`|'(?:[^'\\]|\\.)+'""", re.S)


def value(s):
    s = s.replace("_", "")
    try:
        return int(s, 8) if re.fullmatch(r"0[0-7]+", s) else int(s, 0)
    except ValueError:
        return None


SIMPLE = {"a": 7, "b": 8, "f": 12, "n": 10, "r": 13, "t": 9, "v": 11, "\\": 92, "'": 39, '"': 34}


def unescape(s):
    """the bytes of an interpreted Go string literal"""

    def rep(m):
        e = m.group(1)
        if e[0] in "uU":
            c = int(e[1:], 16)
            return (chr(c) if c < 0x110000 and not 0xD800 <= c < 0xE000 else "?").encode().decode("latin-1")
        if e[0] == "x":
            return chr(int(e[1:], 16))
        if e[0].isdigit():
            return chr(int(e, 8) & 255)
        return chr(SIMPLE.get(e[0], ord(e[0])))

    s = s.encode().decode("latin-1")
    return re.sub(r"\\(u[0-9a-fA-F]{4}|U[0-9a-fA-F]{8}|x[0-9a-fA-F]{2}|[0-7]{3}|.)", rep, s, flags=re.S).encode("latin-1")


def literals(paths):
    ints, strs = set(), set()
    for p in sorted(paths):
        try:
            text = open(p, encoding="utf-8", errors="replace").read()
        except OSError:
            continue

        def cut(m):
            quoted, raw = m.groups()
            for s in (unescape(quoted) if quoted else b"", raw.encode() if raw else b""):
                if s and len(s) < 200:
                    strs.add(base64.b64encode(s).decode())
            if m.group(0)[0] == "'" and len(m.group(0)) == 3:
                ints.add(ord(m.group(0)[1]))
            return " "

        text = TOKEN.sub(cut, text)
        for m in re.finditer(rf"(?<![\w.]){INT}(?![\w.])", text):
            v = value(m.group(0))
            if v is not None:
                ints.add(v)
        for m in re.finditer(rf"(?=(?<![\w.])({INT})\s*(<<|\*|\+|-)\s*({INT})(?![\w.]))", text):
            a, op, b = value(m.group(1)), m.group(2), value(m.group(3))
            if a is None or b is None or op == "<<" and b > 63:
                continue
            ints.add({"<<": lambda: a << b, "*": lambda: a * b, "+": lambda: a + b, "-": lambda: a - b}[op]())
    return sorted(v for v in ints if -1 << 63 <= v < 1 << 64), sorted(strs)


def dictionary(repo):
    code = [f for d in ("v1", "v2", "v3") for f in glob.glob(os.path.join(repo, d, "*.go")) if not f.endswith("_test.go")]
    gen = [f for f in glob.glob(os.path.join(repo, "generation", "*.go")) if not f.endswith("_test.go")]
    ints, _ = literals(code)
    gints, gstrs = literals(gen)
    return {"ints": [v - (1 << 64) if v >= 1 << 63 else v for v in ints], "gen_ints": [v for v in gints if 0 < v <= 1 << 22], "gen_strings": gstrs}


if __name__ == "__main__":
    import json
    print(json.dumps(dictionary("/repo")))
