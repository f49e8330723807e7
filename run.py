#!/usr/bin/env python3
"""Runs one check: run.py <property> quick|thorough, or run.py --replay FILE.

Builds the harness against the working tree of /repo, runs it in shards seeded
from VERIF_SEED, writes evidence/<property>.json and prints VIOLATION /
KNOWN-FINDING lines. Exit 0: held; 1: violation; 2: the check itself failed.
"""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
HARNESS = os.path.join(HERE, "harness")
sys.path.insert(0, os.path.join(HERE, "tools"))
import gencheck  # noqa: E402
from dictionary import dictionary  # noqa: E402

ENV = dict(os.environ)
ENV["PATH"] = "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + ENV.get("PATH", "")
ENV.update(HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", GO111MODULE="on")
for k in ("GORACE", "GODEBUG", "GOMAXPROCS", "GOGC", "GOEXPERIMENT"):
    ENV.pop(k, None)

MASK = (1 << 64) - 1


def mix(*xs):
    h = hashlib.sha256(repr(xs).encode()).digest()
    return int.from_bytes(h[:8], "big") or 1


class CheckError(Exception):
    pass


# phases of a check: (build, cases per shard, shards) for quick and thorough
def P(build="plain", q=100000, t=2500000, shards=8, tshards=8, modes=None, only=False):
    d = dict(build=build, quick=q, thorough=t, shards=shards, tshards=tshards)
    if modes:
        d["modes"] = modes
        d["only"] = only
    return d


CONF = {f"C{i:02d}": [P()] for i in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15)}
for i in ("C05", "C11", "C12"):
    CONF[i].append(P(q=25, t=500, shards=4, tshards=4, modes=["huge"], only=True))
CONF["C14"] = [P(q=50000, t=1000000, modes=["interleave", "copies"]), P("race", q=3000, t=60000, shards=4, tshards=4, modes=["parallel"]), P(q=600, t=20000, modes=["crowd"], only=True)]
CONF["C17"] = [P("race", q=5000, t=150000, shards=4, tshards=4, modes=["regions", "counts", "uniform", "mixed"]), P(q=1500, t=100000, modes=["orders"], only=True)]
CONF["C27"] = [P(q=20000, t=600000, modes=["held"]), P("race", q=2500, t=80000, modes=["heldrace"])]
CONF["C18"] = [P("race", q=8000, t=250000, shards=4, tshards=4)]
CONF["C19"] = [P(q=40000, t=1000000, modes=["lock"]), P("race", q=6000, t=150000, shards=4, tshards=4, modes=["append"]), P(q=6000, t=300000, shards=3, tshards=3, modes=["guarded"], only=True)]
CONF["C16"] = [P(q=50000, t=1000000)]
CONF["C20"] = [P(q=60000, t=1000000)]
CONF["C22"] = [P("generator", q=600, t=15000)]
CONF["C21"] = [dict(build="arr", quick=12000, thorough=60000, shards=8, arrangements=(48, 480))]
CONF["C24"] = [P("regen", q=40000, t=1000000)]
CONF["C23"] = [P("generator", q=250, t=6000)]
CONF["C25"] = [P(q=60000, t=1500000)]
CONF["C26"] = [P(q=15000, t=400000)]


# the same histories where int has 32 bits; thorough runs only
for i in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 19, 20, 25):
    CONF[f"C{i:02d}"].append(P("386", q=0, t=100000, modes=["interleave", "copies"] if i == 14 else ["lock"] if i == 19 else None, only=i in (14, 19)))


def sh(args, **kw):
    return subprocess.run(args, env=kw.pop("env", ENV), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


class Builder:
    """Builds harness binaries in a scratch directory."""

    def __init__(self, tmp):
        self.tmp = tmp
        self.done = {}

    def harness(self, name, race=False, overlay=None, replaces=None, arch=None):
        if name in self.done:
            return self.done[name]
        mod = open(os.path.join(HARNESS, "go.mod")).read()
        for path, d in (replaces or {}).items():
            mod = mod.replace("require (", f"require (\n\t{path} v1.0.0", 1)
            mod += f"\nreplace {path} => {d}\n"
        modfile = os.path.join(self.tmp, f"{name}.mod")
        open(modfile, "w").write(mod)
        shutil.copy(os.path.join(HARNESS, "go.sum"), os.path.join(self.tmp, f"{name}.sum"))
        out = os.path.join(self.tmp, f"{name}.test")
        cmd = ["go", "test", "-modfile=" + modfile, "-vet=off", "-c", "-o", out]
        if race:
            cmd.append("-race")
        if overlay:
            f = os.path.join(self.tmp, f"{name}.overlay.json")
            json.dump({"Replace": overlay}, open(f, "w"))
            cmd += ["-overlay", f]
        r = sh(cmd + ["."], cwd=HARNESS, env=dict(ENV, GOARCH=arch) if arch else ENV)
        if r.returncode != 0 or not os.path.exists(out):
            raise CheckError("building the harness failed:\n" + r.stdout[-4000:])
        self.done[name] = out
        return out


    def generator(self):
        if "generator" not in self.done:
            out = os.path.join(self.tmp, "generator.bin")
            r = sh(["go", "build", "-o", out, "."], cwd=os.path.join(REPO, "generation"))
            if r.returncode != 0 or not os.path.exists(out):
                raise CheckError("building the generator failed:\n" + r.stdout[-4000:])
            self.done["generator"] = out
        return self.done["generator"]


def run_shard(binary, env, out, timeout, cwd):
    """Runs one harness process; returns (report or None, exit code, output tail)."""
    e = dict(ENV)
    e.update(env)
    e["VERIF_OUT"] = out
    with tempfile.TemporaryFile() as log:
        p = subprocess.Popen([binary, "-test.run=^TestVerif$", "-test.timeout=0"], env=e, stdout=log, stderr=subprocess.STDOUT, cwd=cwd)
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            rc = "timeout"
        log.seek(0)
        text = log.read().decode(errors="replace")
    rep = None
    if os.path.exists(out):
        rep = json.load(open(out))
    return rep, rc, text


FATAL = re.compile(r"^(fatal error: .*|panic: .*|unexpected fault address.*|SIGSEGV.*)", re.M)


class Check:
    def __init__(self, prop, tier, seed, tmp):
        self.prop, self.tier, self.seed, self.tmp = prop, tier, seed, tmp
        self.build = Builder(tmp)
        self.t0 = time.time()
        self.reports, self.notes, self.violation = [], [], None
        self.extra = {}

    def binary(self, kind):
        if kind == "plain":
            return self.build.harness("plain"), {}
        if kind == "race":
            return self.build.harness("race", race=True), {"VERIF_RACE": "1"}
        if kind == "generator":
            return self.build.harness("plain"), {"VERIF_GENBIN": self.build.generator()}
        if kind == "386":
            return self.build.harness("386", arch="386"), {}
        raise CheckError("unknown build " + kind)

    def phase(self, idx, ph):
        if not ph[self.tier]:
            return
        if ph["build"] == "386":
            try:
                binary, env = self.binary("386")
                if sh([binary, "-test.run=^$"]).returncode:
                    raise OSError("it does not start")
            except (CheckError, OSError) as e:
                self.notes.append("no run as a 32-bit program: " + str(e)[-300:])
                return
        binary, env = self.binary(ph["build"])
        if ph.get("only"):
            env = dict(env, VERIF_MODES=",".join(ph["modes"]))
        n = ph[self.tier]
        shards = ph["shards"] if self.tier == "quick" else ph["tshards"]
        self.shards(binary, env, n, shards, f"p{idx}")
        if self.violation and ph["build"] == "386":
            self.violation["case"]["build"] = "386"

    def shards(self, binary, env, n, shards, tag, timeout=None):
        timeout = timeout or (600 if self.tier == "quick" else 3600)
        results = [None] * shards

        def work(i):
            d = os.path.join(self.tmp, f"{tag}-{i}")
            os.makedirs(d, exist_ok=True)
            e = dict(env, VERIF_PROP=self.prop, VERIF_N=str(n), VERIF_RSEED=str(mix(self.prop, tag, self.seed, i)),
                     VERIF_SCRATCH=d, VERIF_TIER=self.tier,
                     GORACE=f"log_path={d}/race exitcode=0 halt_on_error=0 suppress_equal_stacks=0 suppress_equal_addresses=0 history_size=3")
            special = {}
            if i % 2 == 1 and "VERIF_RACE" not in env:  # a goroutine that a call leaves behind has not run yet when the call is judged
                special["GOMAXPROCS"] = "1"
            if i % 4 == 2:  # memory is collected all the time, and what was freed is overwritten
                special.update(GOGC="5", GODEBUG="clobberfree=1")
            e.update(special)
            rep, rc, text = run_shard(binary, e, os.path.join(d, "report.json"), timeout, d)
            if rep is None and rc != "timeout":
                # the process died: find the case that kills it
                e["VERIF_JOURNAL"] = os.path.join(d, "journal.json")
                rep2, rc2, text2 = run_shard(binary, e, os.path.join(d, "report2.json"), timeout, d)
                m = FATAL.search(text2)
                if rep2 is None and rc2 not in ("timeout", -9) and m and os.path.exists(e["VERIF_JOURNAL"]):
                    j = json.load(open(e["VERIF_JOURNAL"]))
                    owned = open(e["VERIF_JOURNAL"] + ".owned").read().strip() if os.path.exists(e["VERIF_JOURNAL"] + ".owned") else "0"
                    if "harness" in m.group(0) or "out of memory" in text2:
                        results[i] = (None, rc2, text2)
                    elif owned == "1":
                        rep = dict(status="violation", msg="the call ends the process: " + m.group(0)[:300], case=j, cases=1, steps=0, judged=0, labels={}, modes={}, hashes=[], samples=[])
                    else:
                        rep = dict(status="done", cases=0, steps=0, judged=0, labels={}, modes={}, hashes=[], samples=[],
                                   notes=["a shard died in a call this property does not speak about: " + m.group(0)[:200]])
                else:
                    rep, rc, text = rep2, rc2, text2
            if special and rep and rep["status"] == "violation":
                rep["case"]["env"] = special
            results[i] = (rep, rc, text)

        threads = [threading.Thread(target=work, args=(i,)) for i in range(shards)]
        for t in threads:
            t.start()
        for t in threads:
            t.join()
        for rep, rc, text in results:
            if rep is None:
                if not any(r and r[0] and r[0]["status"] == "violation" for r in results):
                    raise CheckError(f"a harness process ended with {rc} and no report:\n{text[-3000:]}")
                continue
            self.reports.append(rep)
            self.notes += rep.get("notes") or []
            if rep["status"] == "violation" and not self.violation:
                self.violation = rep

    def coverage(self):
        labels, modes, hashes, samples = {}, {}, set(), []
        for r in self.reports:
            for k, v in r["labels"].items():
                labels[k] = labels.get(k, 0) + v
            for k, v in r["modes"].items():
                modes[k] = modes.get(k, 0) + v
            hashes.update(r.get("hashes") or [])
        for k in range(5):
            for r in self.reports:
                s = r.get("samples") or []
                if k < len(s) and len(samples) < 6:
                    samples.append(s[k])
        rule = next((r.get("rule") for r in self.reports if r.get("rule")), "")
        cov = dict(evaluations=sum(r["cases"] for r in self.reports), distinct_nontrivial=len(hashes), rule=rule,
                   samples=samples or ["none: stopped at the first case"], calls_made=sum(r["steps"] for r in self.reports),
                   calls_judged=sum(r["judged"] for r in self.reports), cases_per_mode=modes, distribution=dict(sorted(labels.items())))
        cov.update(self.extra)
        if self.notes:
            cov["notes"] = sorted(set(self.notes))[:20]
        return cov


def evidence(c):
    ev = dict(property=c.prop, tier=c.tier, seed=c.seed, level="exploration", coverage=c.coverage(),
              assumptions=["the reference semantics in harness/model.go", "the Go toolchain and runtime", "rapid's generators"],
              wall_s=round(time.time() - c.t0, 2), violations=1 if c.violation else 0)
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    json.dump(ev, open(os.path.join(d, c.prop + ".json"), "w"), indent=1)


def save_replay(prop, violation):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    body = json.dumps(dict(property=prop, msg=violation["msg"], case=violation["case"]), indent=1)
    path = os.path.join(d, f"{prop}-{hashlib.sha256(body.encode()).hexdigest()[:12]}.json")
    open(path, "w").write(body)
    return path


def known_findings(prop):
    f = os.path.join(HERE, "known-findings.txt")
    out = []
    if os.path.exists(f):
        for line in open(f):
            line = line.strip()
            if line.startswith("finding: property=" + prop + " "):
                out.append(line[len("finding: property=" + prop + " "):])
    return out


def main():
    if sys.argv[1:] == ["--build"]:
        tmp = tempfile.mkdtemp(prefix="verif-")
        try:
            b = Builder(tmp)
            b.harness("plain")
            b.harness("race", race=True)
            return 0
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    if len(sys.argv) != 3 or sys.argv[1] not in CONF or sys.argv[2] not in ("quick", "thorough"):
        print("usage: run.py <property> quick|thorough | --replay FILE; properties:", " ".join(sorted(CONF)), file=sys.stderr)
        return 2
    prop, tier = sys.argv[1:]
    seed = int(os.environ.get("VERIF_SEED") or 1)
    tmp = tempfile.mkdtemp(prefix="verif-")
    os.chmod(tmp, 0o711)  # C23 runs the generator as an unprivileged user too
    ENV["VERIF_DICT"] = os.path.join(tmp, "dictionary.json")
    json.dump(dictionary(REPO), open(ENV["VERIF_DICT"], "w"))
    try:
        c = Check(prop, tier, seed, tmp)
        for i, ph in enumerate(CONF[prop]):
            if ph["build"] in gencheck.PHASES:
                gencheck.PHASES[ph["build"]](c, ph)
            else:
                c.phase(i, ph)
            if c.violation:
                break
        evidence(c)
        cov = c.coverage()
        print(f"{prop} {tier} seed={seed}: {cov['evaluations']} cases, {cov['distinct_nontrivial']} distinct non-trivial, {cov['calls_made']} calls, {time.time() - c.t0:.1f} s")
        for n in cov.get("notes", []):
            print("note:", n)
        for k in known_findings(prop):
            m = re.match(r"case=(\S+) (.*)", k)
            again = ""
            if m and not c.violation:
                v = replay_case(c, os.path.join(HERE, m.group(1)))
                again = f" (seen again now: {v['msg']})" if v else " (did not show in this run)"
            print(f"KNOWN-FINDING: property={prop} {k}{again}")
        if c.violation:
            path = save_replay(prop, c.violation)
            print(c.violation["msg"])
            print(f"VIOLATION property={prop} replay={path}")
            return 1
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def replay_case(c, path):
    """Runs one recorded case; returns the violation or None."""
    case = json.load(open(path))["case"]
    special = case.get("env") or {}
    mode = case.get("mode")
    build = case.get("build") or next((ph["build"] for ph in CONF[c.prop] if mode in ph.get("modes", [mode])), CONF[c.prop][0]["build"])
    if build in gencheck.PHASES:
        return gencheck.replay(c, build, os.path.abspath(path))
    binary, env = c.binary(build)
    d = tempfile.mkdtemp(dir=c.tmp)
    os.chmod(d, 0o711)
    env = dict(env, **special, VERIF_PROP=c.prop, VERIF_REPLAY=os.path.abspath(path), VERIF_SCRATCH=d,
               GORACE=f"log_path={d}/race exitcode=0 halt_on_error=0 suppress_equal_stacks=0 suppress_equal_addresses=0 history_size=3")
    rep, rc, text = run_shard(binary, env, os.path.join(d, "report.json"), 300, d)
    if rep is None:
        m = FATAL.search(text)
        if not m:
            raise CheckError(f"replay ended with {rc}:\n{text[-3000:]}")
        rep = dict(status="violation", msg="the call ends the process: " + m.group(0)[:300])
    return rep if rep["status"] == "violation" else None


def replay(path):
    prop = json.load(open(path))["property"]
    tmp = tempfile.mkdtemp(prefix="verif-")
    os.chmod(tmp, 0o711)
    try:
        v = replay_case(Check(prop, "quick", 1, tmp), path)
        if v:
            print(v["msg"])
            print(f"VIOLATION property={prop} replay={path}")
            return 1
        print("the recorded case passes")
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except CheckError as e:
        print("check error:", e, file=sys.stderr)
        sys.exit(2)
