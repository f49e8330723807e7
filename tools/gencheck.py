"""C21 and C24: packages written by the generator of the tree under test.

Both copy v3's non-test sources and templates to scratch directories, run the
generator there, compile what comes out and build the harness with an overlay
file that registers the resulting types as further kinds.
"""
import glob, json, os, random, re, shutil, subprocess, time

REPO = "/repo"
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
HARNESS = os.path.join(HERE, "harness")
V3 = os.path.join(REPO, "v3")
DIRECTIVE = re.compile(r"^//generator:complex (Buffer|MiniBuffer) (Read|Write) ([UIF]) (16|32|64) (LE|BE)$")
ALL = [f"//generator:complex {r} {w} {k} {e}" for r in ("Buffer", "MiniBuffer") for w in ("Read", "Write")
       for k in ("U 16", "U 32", "U 64", "I 16", "I 32", "I 64", "F 32", "F 64") for e in ("LE", "BE")]
DECOYS = ["// generator:complex Buffer Read U 16 LE", "//generator:complex Buffer Read U 16", "//generator:complex  MiniBuffer Write U 16 LE",
          "//generator:complex Buffer Read U 16 LE // twice", "//generator:simple Buffer Read U 16 LE", "//generator:complex MiniBuffer Write I 32 BE ",
          "//Generator:complex Buffer Write F 64 LE", "\t//generator:complex Buffer Write F 64 LE", "//generator:complex", "///generator:complex Buffer Read U 16 LE"]
INVALID = ["//generator:complex Bufer Read U 16 LE", "//generator:complex Buffer Raed U 16 LE", "//generator:complex MiniBuffer Write S 16 LE",
           "//generator:complex Buffer Read U 8 LE", "//generator:complex MiniBuffer Read U 128 BE", "//generator:complex Buffer Write F 64 ME",
           "//generator:complex buffer Read U 16 LE", "//generator:complex Buffer Read U 16 be"]

ERRS = dict(Overread="BufferOverreadError", Underread="BufferUnderreadError", Overwrite="BufferOverwriteError",
            Underwrite="BufferUnderwriteError", InvalidByteCount="BufferInvalidByteCountError", NegativeRead="BytesBufNegativeReadError")


class GenError(Exception):
    """The generator or the compiler refused."""


def sources():
    """v3's hand-written files and its templates, by name."""
    files, templates = {}, {}
    for f in sorted(glob.glob(os.path.join(V3, "*.go"))):
        n = os.path.basename(f)
        if n.endswith("_test.go") or n.endswith(".generated.go"):
            continue
        (templates if n.startswith("_") else files)[n] = open(f, newline="").read()
    return files, templates


def output_name(n):
    return n[1:-len(".go")] + ".generated.go"


def module(d, path):
    mod = open(os.path.join(V3, "go.mod")).read()
    mod = re.sub(r"(?m)^module .*$", "module " + path, mod, count=1)
    open(os.path.join(d, "go.mod"), "w").write(mod)
    if os.path.exists(os.path.join(V3, "go.sum")):
        shutil.copy(os.path.join(V3, "go.sum"), d)


def write_package(c, d, files, templates):
    """Writes one package and runs the generator on it."""
    os.makedirs(d)
    for n, t in {**files, **templates}.items():
        open(os.path.join(d, n), "w", newline="").write(t)
    r = run(c, [c.build.generator(), "-directory", d, "-generation", "complex"], d)
    for n in templates:
        if not os.path.exists(os.path.join(d, output_name(n))):
            raise GenError(f"the generator wrote no {output_name(n)}: " + r.stdout[-600:])


def run(c, args, cwd):
    import __main__ as m
    try:
        return m.sh(args, cwd=cwd, timeout=300)
    except subprocess.TimeoutExpired:
        raise GenError(f"{os.path.basename(args[0])} did not end within 300 s")


def compile_all(c, root, pkgs):
    """Compiles packages; returns {package: error text}."""
    r = run(c, ["go", "build"] + ["./" + p for p in pkgs], root)
    if r.returncode == 0:
        return {}
    bad = {}
    for part in re.split(r"(?m)^# ", r.stdout)[1:]:
        head, _, body = part.partition("\n")
        bad[head.split()[0].rsplit("/", 1)[-1]] = body.strip()[:1500]
    if not bad:  # not an error of a package: import of something missing and the like
        for p in pkgs:
            q = run(c, ["go", "build", "./" + p], root)
            if q.returncode != 0:
                bad[p] = q.stdout.strip()[:1500]
    return bad


def registration(imports, body):
    return "package harness\n\nimport (\n" + "".join(f'\t{a} "{p}"\n' for a, p in imports) + ")\n\nfunc init() {\n" + body + "}\n"


def register(alias, prefix, drops):
    errs = ", ".join(f'"{k}": {alias}.{v}' for k, v in ERRS.items())
    return (f"\t{{\n\t\te := map[string]any{{{errs}}}\n"
            f'\t\tregDropped("{prefix}.Buffer", 3, false, {json.dumps(drops["Buffer"])}, e, func(s ...[]byte) any {{ return {alias}.NewBuffer(s...) }})\n'
            f'\t\tregDropped("{prefix}.MiniBuffer", 3, true, {json.dumps(drops["MiniBuffer"])}, e, func(s ...[]byte) any {{ var m *{alias}.MiniBuffer; {alias}.NewMiniBuffer(&m, s...); return m }})\n\t}}\n')


def harness_with(c, name, reg, modpath, moddir):
    f = os.path.join(c.tmp, name + "_zz.go")
    open(f, "w").write(reg)
    return c.build.harness(name, overlay={os.path.join(HARNESS, "zz_" + name + ".go"): f}, replaces={modpath: moddir})


def violation(msg, case, build):
    case = dict(case, build=build)
    return dict(status="violation", msg=msg, case=case, cases=1, steps=0, judged=0, labels={}, modes={}, hashes=[], samples=[])


NODROPS = {"Buffer": "", "MiniBuffer": ""}

# ---- C24


def build_regen(c):
    root = os.path.join(c.tmp, "regen")
    files, templates = sources()
    if not templates:
        raise GenError("v3 has no templates")
    write_package(c, root, files, templates)
    module(root, "verif.local/regen")
    r = run(c, ["go", "build", "."], root)
    if r.returncode != 0:
        raise GenError("the regenerated package does not compile:\n" + r.stdout[:1500])
    return harness_with(c, "regen", registration([("r3", "verif.local/regen")], register("r3", "r3", NODROPS)), "verif.local/regen", root)


def regen(c, ph):
    c.build.harness("plain")  # the shipped package compiles, or the check cannot say anything
    try:
        binary = build_regen(c)
    except GenError as e:
        c.violation = violation(f"regenerating v3 from its templates: {e}", dict(prop="C24", mode="build", kinds=[], init=[], ops=[]), "regen")
        c.reports.append(c.violation)
        return
    c.shards(binary, {}, ph[c.tier], ph["shards"], "regen")
    if c.violation:
        c.violation["case"]["build"] = "regen"


# ---- C21


def method(d):
    a = d.split()
    return a[2] + a[3] + a[4] + a[5]


def strip(template):
    """Template lines without directives, and the places where one may stand."""
    lines, gaps = [], []
    for line in template.split("\n"):
        if DIRECTIVE.match(line):
            gaps.append(len(lines))
            continue
        lines.append(line)
        if line in ("}", ")"):
            gaps.append(len(lines))
    # not between the imports and not before them
    body = max([i for i, l in enumerate(lines) if l.startswith("import ") or l.startswith("package ")], default=0)
    if lines[body].startswith("import ("):
        body = lines.index(")", body)
    gaps = sorted({g for g in gaps if g > body} | {body + 1, len(lines)})
    if re.search(r'(?m)^(import )?\s*"unsafe"$', template):
        lines.append("var _ unsafe.Pointer")
        gaps.append(len(lines))
    return lines, gaps


def assemble(stripped, placed):
    """placed: {template: [(gap index, [line, ...])]} in order."""
    out = {}
    for n, (lines, gaps) in stripped.items():
        at = {}
        for g, ls in placed.get(n, []):
            at.setdefault(gaps[g], []).extend(ls)
        text = []
        for i in range(len(lines) + 1):
            text += at.get(i, [])
            if i < len(lines):
                text.append(lines[i])
        out[n] = "\n".join(text)
    return out


def stripped_templates(rng):
    _, templates = sources()
    st = {n: strip(t) for n, t in templates.items()}
    if rng is not None and rng.random() < 0.5:
        st["_" + rng.choice(["more", "zzz", "a", "x_y"]) + ".go"] = strip('package v3\n\nimport "unsafe"\n')
    return st


def arrangement(rng, subsets):
    """One random arrangement: templates and dropped methods."""
    st = stripped_templates(rng)
    keep = list(ALL)
    rng.shuffle(keep)
    if subsets and rng.random() < 0.7:
        keep = keep[:rng.choice([1, 2, 3, 5, 8, 16, 24, 32, 48, 60])]
    style = rng.choice(["blank", "tight", "mixed"])
    clump = rng.random() < 0.3
    placed = {n: [] for n in st}
    spots = [(n, g) for n in st for g in range(len(st[n][1]))]
    few = rng.sample(spots, min(len(spots), 3))
    todo = [(d, True) for d in keep] + [(rng.choice(DECOYS + INVALID), False) for _ in range(rng.randrange(0, 12))]
    rng.shuffle(todo)
    for d, _ in todo:
        n, g = rng.choice(few if clump else spots)
        blank = style == "blank" or style == "mixed" and rng.random() < 0.5
        placed[n].append((g, ["", d, ""] if blank else [d]))
    return dict(templates=assemble(st, placed), keep=sorted(keep))


def drops(keep):
    return {r: "".join("|" + method(d) for d in ALL if d.split()[1] == r and d not in keep) + "|" if any(d.split()[1] == r and d not in keep for d in ALL) else ""
            for r in ("Buffer", "MiniBuffer")}


def build_arr(c, arrs, tag):
    """arrs: {name: arrangement}. Returns ({name: error}, root)."""
    root = os.path.join(c.tmp, tag)
    os.makedirs(root)
    module(root, "verif.local/arr")
    files, _ = sources()
    bad = {}
    for n, a in arrs.items():
        try:
            write_package(c, os.path.join(root, n), files, a["templates"])
        except GenError as e:
            bad[n] = str(e)
    rest = [n for n in arrs if n not in bad]
    if rest:
        bad.update(compile_all(c, root, rest))
    return bad, root


def arr_harness(c, arrs, root, tag):
    imports = [(n, "verif.local/arr/" + n) for n in arrs]
    body = "".join(register(n, n, drops(a["keep"])) for n, a in arrs.items())
    return harness_with(c, tag, registration(imports, body), "verif.local/arr", root)


def baseline():
    """The templates without any directive, to tell template from generator problems."""
    return dict(templates=assemble(stripped_templates(None), {}), keep=[])


def reduce(c, a, budget=60):
    """Fewer directives while it still does not compile."""
    end = time.time() + budget
    k = [0]

    def fails(keep):
        t = {n: "\n".join(l for l in x.split("\n") if not (DIRECTIVE.match(l) and l not in keep)) for n, x in a["templates"].items()}
        b = dict(templates=t, keep=sorted(keep))
        k[0] += 1
        bad, root = build_arr(c, {"a0": b}, f"reduce{k[0]}")
        shutil.rmtree(root, ignore_errors=True)
        return (b, bad["a0"]) if bad else None

    best, n = None, len(a["keep"])
    keep = list(a["keep"])
    size = (n + 1) // 2
    while size >= 1 and time.time() < end:
        i = 0
        while i < len(keep) and time.time() < end:
            cand = keep[:i] + keep[i + size:]
            f = fails(cand)
            if f:
                best, keep = f, cand
            else:
                i += size
        size //= 2
    return best


def arranged(c, ph):
    c.build.harness("plain")
    import __main__ as m
    rng = random.Random(m.mix("C21", c.seed, c.tier))
    bad, root = build_arr(c, {"a0": baseline()}, "base")
    shutil.rmtree(root, ignore_errors=True)
    subsets = not bad
    total, left = 0, ph["arrangements"][0 if c.tier == "quick" else 1]
    sizes, rounds = [], 0
    while left > 0 and not c.violation:
        k = min(left, 24)
        arrs = {f"a{i}": arrangement(rng, subsets) for i in range(k)}
        bad, root = build_arr(c, arrs, f"arr{rounds}")
        if bad and not subsets:
            c.notes.append("the v3 templates do not compile even without directives: arrangements that fail to compile are not judged")
            for n in bad:
                arrs.pop(n)
            if not arrs:
                c.reports.append(dict(status="done", cases=0, steps=0, judged=0, labels={}, modes={}, hashes=[], samples=[]))
                break
        elif bad:
            n = sorted(bad)[0]
            a, err = reduce(c, arrs[n]) or (arrs[n], bad[n])
            c.violation = violation(f"the output for {len(a['keep'])} valid directives does not compile: {err}",
                                    dict(prop="C21", mode="compile", kinds=[], init=[], ops=[], arrangement=a), "arr")
            c.reports.append(c.violation)
            break
        total += len(arrs)
        sizes += [len(a["keep"]) for a in arrs.values()]
        binary = arr_harness(c, arrs, root, f"arr{rounds}")
        c.shards(binary, {}, ph[c.tier], ph["shards"], f"arr{rounds}")
        if c.violation:
            case = c.violation["case"]
            case["build"] = "arr"
            case["arrangement"] = arrs[case["kinds"][0].split(".")[0]]
        shutil.rmtree(root, ignore_errors=True)
        os.remove(binary)
        left -= k
        rounds += 1
    c.extra["arrangements_generated_and_compiled"] = total
    c.extra["directives_per_arrangement"] = sorted(sizes)


PHASES = {"regen": regen, "arr": arranged}


def replay(c, build, path):
    import __main__ as m
    case = json.load(open(path))["case"]
    try:
        if build == "regen":
            binary = build_regen(c)
            if case.get("mode") == "build":
                return None
        else:
            a = case["arrangement"]
            name = (case["kinds"] or ["a0.x"])[0].split(".")[0]
            bad, root = build_arr(c, {name: a}, "replay")
            if bad:
                raise GenError("does not compile: " + bad[name])
            if case.get("mode") == "compile":
                return None
            binary = arr_harness(c, {name: a}, root, "replaybin")
    except GenError as e:
        return dict(msg=str(e))
    rep, rc, text = m.run_shard(binary, dict(VERIF_PROP=c.prop, VERIF_REPLAY=path, VERIF_SCRATCH=c.tmp), os.path.join(c.tmp, "report.json"), 300, c.tmp)
    if rep is None:
        f = m.FATAL.search(text)
        if not f:
            raise m.CheckError(f"replay ended with {rc}:\n{text[-3000:]}")
        return dict(msg="the call ends the process: " + f.group(0)[:300])
    return rep if rep["status"] == "violation" else None
