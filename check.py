#!/usr/bin/env python3
"""Decides one property of /repo by running it under the monitors of harness/.

  check.py ID [--tier quick|thorough]     run the check (VERIF_SEED, VERIF_TIER are honoured)
  check.py --replay FILE                  run one reported case again, verbosely
  check.py --build                        build everything once (setup)

Exit: 0 held on everything explored; 1 violation (a VIOLATION line names the replay file);
2 no answer (build failure, machinery failure, or too little was observed)."""
import fcntl, glob, hashlib, json, os, re, resource, shutil, signal, struct, subprocess, sys, time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
HARNESS = os.path.join(ROOT, "harness")
TARGET = os.path.join(ROOT, "target")
FINDINGS = os.path.join(ROOT, "known_findings.txt")
TRIPLE = "x86_64-unknown-linux-gnu"
CORES = max(2, min(8, os.cpu_count() or 2))
BINS = {"bencode": "B", "common": "HSFR", "dht": "DPIV", "root": "UTL"}
FEATURES = {"bencode": [], "common": [], "dht": ["dht"], "root": ["root"]}
# CPU seconds one case may take before it counts as a hang (the slowest known case takes under 2 s)
CASE_CPU = 25.0
SLOW = {"asan": 4, "tsan": 8}
WALL = {"quick": 780, "thorough": 840}
# how many times the case numbers of the tables a quick run does: what takes some 5 s on 8 cores
MUL = {"B01": 8, "B02": 8, "B03": 6, "B04": 6, "B05": 10, "B06": 3, "B07": 20, "B08": 12, "P01": 4, "P02": 4, "P03": 3, "P04": 5, "I01": 4,
       "I02": 2, "I03": 4, "I04": 6, "V01": 4, "U01": 2, "U04": 3, "F01": 10, "D01": 8, "U03": 12, "U02": 16, "R01": 2,
       "B09": 6, "B10": 6, "U05": 6, "X01": 2}
# observed through hooks of the dht crate (the root crate is observed through hooks throughout)
HOOKED = ("D08", "I04")
# run in the workers of every area
WHOLE = ("X01",)
# what is measured for the whole process cannot be told apart by threads
METERED = ("B06", "U01")
DEEP = [(r, o) for r in (0, 1) for o in range(9)]


UNFINISHED = "the workers did not finish in time"


class NoAnswer(Exception):
    pass


def log(*a):
    print(*a, flush=True)


def area(prop, workload=""):
    if prop in WHOLE:
        # the names of its workloads say where they are
        return workload.split("_")[0]
    for b, letters in BINS.items():
        if prop[0] in letters:
            return b
    raise NoAnswer("no such property " + prop)


# ---------------------------------------------------------------- building
def repo_sources():
    files = []
    for d, dirs, names in os.walk(REPO):
        dirs[:] = sorted(x for x in dirs if x not in ("target", ".git"))
        files += [os.path.join(d, n) for n in names if n.endswith((".rs", ".toml", ".lock"))]
    return sorted(files)


def source_hash():
    h = hashlib.sha256()
    for base, files in ((REPO, repo_sources()), (HARNESS, sorted(glob.glob(HARNESS + "/**/*.*", recursive=True)))):
        for f in files:
            if os.path.isfile(f):
                h.update(os.path.relpath(f, base).encode() + b"\0")
                h.update(open(f, "rb").read() + b"\0")
    return h.hexdigest()


class Build:
    """Building is exclusive, and never reuses objects of other sources whatever their times say."""

    def __init__(self):
        os.makedirs(TARGET, exist_ok=True)
        self.lock = open(os.path.join(TARGET, ".lock"), "w")
        fcntl.flock(self.lock, fcntl.LOCK_EX)
        stamp = os.path.join(TARGET, ".sources")
        now = source_hash()
        old = open(stamp).read() if os.path.exists(stamp) else None
        if old != now:
            if old is not None:
                for d in glob.glob(TARGET + "/*"):
                    self.clean(d)
            with open(stamp, "w") as f:
                f.write(now)

    @staticmethod
    def clean(d):
        """Drop what was built from path dependencies; registry crates stay."""
        for pat in ("**/.fingerprint/%s-*", "**/incremental/%s-*"):
            for name in ("bencode", "common", "dht", "torrent-rs", "torrent_rs", "vpmon"):
                for p in glob.glob(os.path.join(d, pat % name), recursive=True):
                    shutil.rmtree(p, ignore_errors=True)

    def done(self):
        self.lock.close()


def cargo(args, target, flags, toolchain=None, env=None, wait=True, out=None, hooks=True):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith(("CARGO_BUILD", "CARGO_ENCODED", "CARGO_PROFILE", "RUSTC", "MIRI")):
            del e[k]
    e["CARGO_TARGET_DIR"] = target
    e["RUSTFLAGS"] = (("--cfg vp_hooks " if hooks else "") + "-Awarnings " + flags).strip()
    e["CARGO_NET_OFFLINE"] = "true"
    e.update(env or {})
    cmd = ["cargo"] + (["+" + toolchain] if toolchain else []) + args
    return subprocess.Popen(cmd, cwd=HARNESS, env=e, stdout=out or subprocess.PIPE, stderr=subprocess.STDOUT)


def finish_build(what, p):
    out, _ = p.communicate(timeout=840)
    if p.returncode != 0:
        raise NoAnswer("building %s failed:\n%s" % (what, out.decode(errors="replace")[-6000:]))


def cargo_args(bins, extra):
    feats = sorted({f for b in bins for f in FEATURES[b]})
    a = ["build", "--offline", "--locked"] + extra
    if feats:
        a += ["--features", ",".join(feats)]
    for b in bins:
        a += ["--bin", "vp_" + b]
    return a


def build(bins, profiles, hooks=True):
    """Returns {profile: directory with the workers}."""
    lock = Build()
    ps, dirs = [], {}
    tag = "-".join(bins) if len(bins) == 1 else "all"
    for prof in profiles:
        # separate target directories: cargo builds of one directory wait for each other
        t = os.path.join(TARGET, prof if hooks else prof + "-nohooks")
        if prof in ("asan", "tsan"):
            # the race detector has to see into the standard library
            ps.append((prof, cargo(cargo_args(bins, ["--target", TRIPLE] + (["-Zbuild-std"] if prof == "tsan" else [])), t,
                                   "-Zsanitizer=" + ("address" if prof == "asan" else "thread"), "nightly")))
            dirs[prof] = os.path.join(t, TRIPLE, "debug")
        else:
            ps.append((prof, cargo(cargo_args(bins, ["--release"] if prof == "release" else []), t, "", hooks=hooks)))
            dirs[prof] = os.path.join(t, "release" if prof == "release" else "debug")
    try:
        for what, p in ps:
            finish_build(what + " (" + tag + ")", p)
        # the workers are copied, so that a concurrent build cannot replace them under a run
        res = {}
        for prof, d in dirs.items():
            keep = os.path.join(run_dir(), "bin-" + prof)
            os.makedirs(keep, exist_ok=True)
            for b in bins:
                shutil.copy2(os.path.join(d, "vp_" + b), keep)
            res[prof] = keep
        return res
    finally:
        lock.done()


# ---------------------------------------------------------------- literals of the code under test
def rust_tokens(s):
    """Literals of a Rust source: comments are skipped."""
    pat = re.compile(
        r'//[^\n]*|/\*.*?\*/'
        r'|b?r(?P<h>#*)"(?P<raw>.*?)"(?P=h)'
        r'|b?"(?P<str>(?:\\.|[^"\\])*)"'
        r"|b?'(?P<chr>\\x[0-9a-fA-F]{2}|\\u\{[0-9a-fA-F]+\}|\\.|[^'\\])'"
        r'|(?P<num>\b(?:0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|\d[\d_]*)(?:[iu](?:8|16|32|64|128|size))?\b)', re.S)
    for m in pat.finditer(s):
        if m.group("raw") is not None:
            yield "s", m.group("raw").encode()
        elif m.group("str") is not None:
            yield "s", unescape(m.group("str"))
        elif m.group("chr") is not None:
            yield "s", unescape(m.group("chr"))
        elif m.group("num"):
            n = re.sub(r"[iu](8|16|32|64|128|size)$", "", m.group("num").replace("_", ""))
            try:
                yield "i", int(n, 0) if not re.match(r"^0\d", n) else int(n)
            except ValueError:
                pass


def unescape(t):
    out = bytearray()
    i = 0
    simple = {"n": 10, "r": 13, "t": 9, "0": 0, "\\": 92, "'": 39, '"': 34}
    while i < len(t):
        if t[i] != "\\" or i + 1 >= len(t):
            out += t[i].encode()
            i += 1
            continue
        c = t[i + 1]
        if c == "x":
            try:
                out.append(int(t[i + 2:i + 4], 16))
            except ValueError:
                pass
            i += 4
        elif c == "u":
            j = t.find("}", i)
            try:
                out += chr(int(t[i + 3:j], 16)).encode()
            except ValueError:
                pass
            i = j + 1 if j > 0 else len(t)
        elif c == "\n":
            i += 2
            while i < len(t) and t[i].isspace():
                i += 1
        else:
            out.append(simple.get(c, ord(c) & 0xff))
            i += 2
    return bytes(out)


def source_literals():
    ints, strs = set(), set()
    for f in repo_sources():
        if not f.endswith(".rs") or "/tests/" in f:
            continue
        s = open(f, encoding="utf-8", errors="replace").read()
        for kind, v in rust_tokens(s):
            if kind == "i":
                ints.add(v)
            elif 0 < len(v) <= 64:
                strs.add(v)
        # constant expressions and named constants
        for a, b in re.findall(r"\b(\d[\d_]*)(?:[iu]\d+|usize|isize)?\s*<<\s*(\d+)\b", s):
            if int(b) < 64:
                ints.add(int(a.replace("_", "")) << int(b))
        for m in re.findall(r"\b\d[\d_]*(?:\s*\*\s*\d[\d_]*)+\b", s):
            p = 1
            for a in m.split("*"):
                p *= int(a.replace("_", ""))
            ints.add(p)
        for a, b in re.findall(r"\b(\d+)e(\d{1,2})\b", s):
            ints.add(int(a) * 10 ** int(b))
        for sign, bits, what in re.findall(r"\b([iu])(8|16|32)::(MAX|MIN)\b", s):
            n = int(bits) - (sign == "i")
            ints.add((1 << n) - 1 if what == "MAX" else -(1 << n) if sign == "i" else 0)
    lo, hi = -(1 << 63), (1 << 63) - 1
    return {x for v in ints for x in (v, -v) if lo <= x <= hi}, strs


def literals(path, base=os.path.join(ROOT, "tools", "base_literals.txt")):
    """Writes the dictionary that steers generation: those the sources did not have when the harness was
    written (capital letter) are tried more often."""
    ints, strs = source_literals()
    old = set(open(base).read().split("\n")) if base else None
    with open(path, "w") as f:
        for l in ["i %d" % x for x in sorted(ints)] + ["s %s" % x.hex() for x in sorted(strs)]:
            f.write((l if old is None or l in old else l[0].upper() + l[1:]) + "\n")
    return len(ints), len(strs)


# ---------------------------------------------------------------- workers
_run = None


def run_dir():
    return _run


def cpu_of(pid):
    try:
        s = open("/proc/%d/stat" % pid).read()
        f = s[s.rindex(")") + 2:].split()
        return (int(f[11]) + int(f[12])) / os.sysconf("SC_CLK_TCK")
    except (OSError, ValueError, IndexError):
        return None


class Worker:
    n = 0

    def __init__(self, exe, prop, tier, seed, dic, prof, shard=(0, 1), div=1, mul=1, threads=1, skip=(), only=None, cpu=None, verbose=False,
                 env=None):
        Worker.n += 1
        self.base = os.path.join(run_dir(), "w%d" % Worker.n)
        self.cfg = dict(exe=exe, prop=prop, tier=tier, seed=seed, dic=dic, prof=prof, shard=shard, div=div, mul=mul, threads=threads)
        self.skip = list(skip)
        self.only = only
        args = [exe, "--prop", prop, "--tier", str(tier), "--seed", str(seed), "--dict", dic,
                "--shard", "%d/%d" % shard, "--div", str(div), "--mul", str(mul), "--threads", str(threads),
                "--out", self.base + ".json", "--progress", self.base + ".progress"]
        for s in skip:
            args += ["--skip", s]
        if only:
            args += ["--only", only]
        if verbose:
            args += ["--verbose"]

        def limits():
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            if prof not in ("asan", "tsan"):
                # running out of memory is a death of that case, not of the sandbox (no case needs 1 GiB)
                resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
            if cpu:
                resource.setrlimit(resource.RLIMIT_CPU, (int(cpu), int(cpu) + 5))
        e = dict(os.environ, RUST_BACKTRACE="0", ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:exitcode=99",
                 TSAN_OPTIONS="halt_on_error=1:exitcode=98:report_signal_unsafe=0")
        e.update(env or {})
        self.err = None if verbose else open(self.base + ".err", "wb")
        self.p = subprocess.Popen(args, stdout=self.err, stderr=self.err, preexec_fn=limits, env=e, cwd=run_dir())
        self.case, self.case_cpu, self.case_wall = None, 0.0, time.monotonic()
        self.again = 0

    def progress(self):
        try:
            t = open(self.base + ".progress").read().split()
            return (t[0], t[2] + ":" + t[1])
        except (OSError, IndexError):
            return None

    def stuck(self):
        """The case this worker hangs in, if it does."""
        p, cpu, now = self.progress(), cpu_of(self.p.pid), time.monotonic()
        if p != self.case or cpu is None:
            self.case, self.case_cpu, self.case_wall = p, cpu or 0.0, now
            return None
        # of several threads only one tells where it is
        limit = CASE_CPU * SLOW.get(self.cfg["prof"], 1) * (1 if self.cfg["threads"] == 1 else 2 * self.cfg["threads"])
        if p and (cpu - self.case_cpu > limit or now - self.case_wall > 240):
            return p[1]
        return None

    def kill(self):
        if self.p.poll() is None:
            self.p.kill()
        self.p.wait()
        if self.err:
            self.err.close()

    def stderr(self):
        try:
            return open(self.base + ".err", "rb").read()[-20000:].decode(errors="replace")
        except OSError:
            return ""

    def result(self):
        try:
            return json.load(open(self.base + ".json"))
        except (OSError, ValueError):
            return None

    def fingerprints(self):
        try:
            b = open(self.base + ".json.fp", "rb").read()
            return set(struct.unpack("<%dQ" % (len(b) // 8), b))
        except OSError:
            return set()


def died(rc):
    return rc < 0 or rc in (98, 99, 134, 139)


def how(rc, err):
    m = re.search(r"(SUMMARY: AddressSanitizer: \S+.*|has overflowed its stack|memory allocation of \d+ bytes failed|unsafe precondition.*|misaligned pointer dereference.*|null pointer dereference.*|trying to construct an enum from an invalid value.*)", err)
    s = "killed by " + signal.Signals(-rc).name if rc < 0 else "exit code %d" % rc
    return s + (" (" + m.group(1).strip() + ")" if m else "")


def confirm(w, case, hang):
    """Runs one case alone. Returns None if it is unremarkable there."""
    lim = CASE_CPU * SLOW.get(w.cfg["prof"], 1)
    c = w.cfg
    for _ in range(3 if not hang else 1):
        v = Worker(c["exe"], c["prop"], c["tier"], c["seed"], c["dic"], c["prof"], only=case, cpu=lim + 5, div=c["div"])
        try:
            rc = v.p.wait(timeout=300)
        except subprocess.TimeoutExpired:
            v.kill()
            return "is still not finished after 300 s"
        v.kill()
        if rc in (-signal.SIGXCPU, -signal.SIGKILL) and hang:
            return "does not finish: more than %d s of CPU time in one case" % lim
        if died(rc) and rc != -signal.SIGKILL:
            return "the process is " + how(rc, v.stderr())
    return None


def supervise(jobs, deadline, at_once=None, hangs=2):
    """Runs the workers to their end, `at_once` of them (default: all) next to each other. Deaths and hangs become violations, and the worker goes on
    without that case. Returns (finished workers, violations, notes)."""
    waiting = list(jobs)
    live = []
    done, bad, notes, killed = [], [], [], 0
    try:
        while live or waiting:
            while waiting and (at_once is None or len(live) < at_once):
                live.append(Worker(**waiting.pop(0)))
            time.sleep(0.05)
            if len([b for b in bad if b.get("first") == "hang"]) >= hangs:
                notes.append("stopped after the second case that does not finish")
                break
            if time.monotonic() > deadline:
                if bad or any(w.p.returncode == 1 for w in done):
                    notes.append(UNFINISHED)
                    break
                raise NoAnswer("the workers did not finish in time; last cases: %s" % [w.progress() for w in live])
            for w in list(live):
                rc = w.p.poll()
                if rc is None:
                    case = w.stuck()
                    if case is None:
                        continue
                    w.kill()
                    rc = "hang"
                if rc in (0, 1):
                    live.remove(w)
                    w.kill()
                    done.append(w)
                    continue
                live.remove(w)
                p = w.progress()
                err = w.stderr()
                w.kill()
                if w.cfg["threads"] > 1:
                    if rc != "hang" and not died(rc):
                        r = w.result()
                        raise NoAnswer("a worker failed (%s): %s %s" % (rc, r and r.get("harness_error"), err[-2000:]))
                    # which thread it was is not known: if it is a case's own doing, the other workers tell; if it
                    # takes several threads, it happens again
                    what = "does not finish" if rc == "hang" else "is " + how(rc, err)
                    race = w.cfg["prof"] == "tsan" and "WARNING: ThreadSanitizer" in err
                    if w.again < 1 and not race and rc != -signal.SIGKILL:
                        v = Worker(**w.cfg)
                        v.again = w.again + 1
                        live.append(v)
                    elif w.again or race:
                        bad.append(dict(workload=p[1].rsplit(":", 1)[0] if p else "?", idx=-1, profile=w.cfg["prof"], seed=w.cfg["seed"], tier=w.cfg["tier"],
                                        div=w.cfg["div"], threads=w.cfg["threads"], shard=w.cfg["shard"], mul=w.cfg["mul"], steps="", stderr=err[-3000:],
                                        message="the process %s when several threads use it" % what, died=True, first=what))
                    notes.append("a worker of several threads " + what)
                    continue
                if p is None or (rc != "hang" and not died(rc)):
                    r = w.result()
                    raise NoAnswer("a worker failed (%s): %s %s" % (rc, r and r.get("harness_error"), err[-2000:]))
                case = p[1]
                if rc == -signal.SIGKILL:
                    killed += 1
                    if killed > 3:
                        raise NoAnswer("workers are being killed from outside (memory?) in case " + case)
                    notes.append("a worker was killed from outside in " + case)
                    skip = w.skip
                else:
                    first = "hang" if rc == "hang" else how(rc, err)
                    again = confirm(w, case, rc == "hang")
                    if rc == "hang" and again is None:
                        notes.append("a case looked like a hang but finished alone: " + case)
                    else:
                        wl, idx = case.rsplit(":", 1)
                        bad.append(dict(workload=wl, idx=int(idx), profile=w.cfg["prof"], seed=w.cfg["seed"], tier=w.cfg["tier"], div=w.cfg["div"], steps="",
                                        message=again or "the process was %s, though not when running the case alone" % first,
                                        stderr=err[-3000:], died=True, first=first))
                    skip = w.skip + [case]
                if len([b for b in bad if b.get("died")]) >= 6:
                    continue  # enough: this worker is not restarted
                c = dict(w.cfg)
                live.append(Worker(skip=skip, **c))
    finally:
        for w in live:
            w.kill()
    return done, bad, notes


def collect(done):
    """One set of observations out of the workers' reports."""
    o = dict(evaluations=0, counters={}, cases={}, samples=[], floors={}, rule="", assumptions=[], prints=set())
    rules = []
    bad = []
    for w in done:
        r = w.result()
        if r is None:
            raise NoAnswer("a worker left no report")
        o["evaluations"] += r["evaluations"]
        for k, v in r["counters"].items():
            o["counters"][k] = max(o["counters"].get(k, 0), v) if k.startswith("max_") else o["counters"].get(k, 0) + v
        for k, v in r["cases"].items():
            o["cases"][k] = o["cases"].get(k, 0) + v
        o["samples"] += [s for s in r["samples"][:2] if s not in o["samples"]]
        o["floors"].update(r["floors"])
        rules += [x for x in [r["rule"]] if x not in rules]
        o["assumptions"] += [x for x in r["assumptions"] if x not in o["assumptions"]]
        o["prints"] |= w.fingerprints()
        for v in r["violations"]:
            v.update(profile=w.cfg["prof"], seed=w.cfg["seed"], tier=w.cfg["tier"], div=w.cfg["div"])
            if w.cfg["threads"] > 1:
                v.update(threads=w.cfg["threads"], shard=w.cfg["shard"], mul=w.cfg["mul"])
            bad.append(v)
    o["rule"] = "; ".join(rules)
    o["samples"] = o["samples"][:8]
    return o, bad


# ---------------------------------------------------------------- verdicts
def known(prop):
    res = []
    if os.path.exists(FINDINGS):
        for l in open(FINDINGS):
            l = l.rstrip("\n")
            if l.startswith("finding: "):
                head, what = l[9:].split(" | ", 1)
                f = dict(x.split("=", 1) for x in head.split("\t"))
                if f["property"] == prop:
                    f["what"] = what
                    res.append(f)
    return res


def is_known(f, v):
    if f["workload"] != v["workload"]:
        return False
    if "idx" in f and f["idx"] != str(v["idx"]):
        return False
    if "message" in f:
        return f["message"] == v["message"] and not v.get("died")
    return bool(v.get("died")) and f.get("death", "") in v["message"]


def verdict(prop, tier, seed, obs, bad, notes, started, extra):
    seen, fresh = [], []
    fs = known(prop)
    for v in bad:
        f = next((f for f in fs if is_known(f, v)), None)
        if f is None:
            fresh.append(v)
        elif f not in seen:
            seen.append(f)
    missing = {k: [obs["counters"].get(k, 0), v] for k, v in obs["floors"].items() if obs["counters"].get(k, 0) < v}
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration",
              coverage=dict(evaluations=obs["evaluations"], distinct_nontrivial=len(obs["prints"]), rule=obs["rule"],
                            samples=obs["samples"], cases=obs["cases"], observed=obs["counters"], floors=obs["floors"], **extra),
              assumptions=obs["assumptions"], wall_s=round(time.monotonic() - started, 1), violations=len(fresh))
    if notes:
        ev["coverage"]["notes"] = notes
    if seen:
        ev["coverage"]["known_findings"] = [f["what"] for f in seen]
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    tmp = os.path.join(ROOT, "evidence", ".%s.%d" % (prop, os.getpid()))
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.replace(tmp, os.path.join(ROOT, "evidence", prop + ".json"))
    for f in seen:
        log("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))
    if fresh:
        d = os.path.join(ROOT, "out", "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%s-%d.json" % (prop, tier, seed))
        with open(path, "w") as f:
            json.dump(dict(property=prop, violations=fresh[:40]), f, indent=1)
        for v in fresh[:5]:
            log("  %s:%s [%s%s, seed %s] %s" % (v["workload"], v["idx"], v["profile"], ", %d threads" % v["threads"] if v.get("threads") else "", v["seed"], v["message"][:1500]))
            if v.get("steps"):
                log("    steps: " + v["steps"][:1500])
        log("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if UNFINISHED in notes:
        raise NoAnswer(UNFINISHED)
    if missing:
        raise NoAnswer("too little was observed (counter: [seen, needed]): %s" % missing)
    log("%s %s: held on %d evaluations (%d distinct non-trivial), %.1f s; %s" % (
        prop, tier, obs["evaluations"], len(obs["prints"]), ev["wall_s"],
        ", ".join("%s=%d" % kv for kv in sorted(obs["counters"].items())[:12])))
    return 0


def sub_seed(seed, prof):
    return int.from_bytes(hashlib.sha256(("%d/%s" % (seed, prof)).encode()).digest()[:6], "big") if prof != "dev" else seed


def check(prop, tier, seed):
    started = time.monotonic()
    if prop == "M01":
        return check_memory(tier, seed, started)
    bins = list(BINS) if prop in WHOLE else [area(prop)]
    try:
        dirs = build(bins, ["dev", "release"])
    except NoAnswer:
        # a hook that no longer fits the code it is in concerns only what is observed through it
        if prop[0] in "UTL" or prop in HOOKED:
            raise
        bins = [b for b in bins if b != "root"]
        dirs = build(bins, ["dev", "release"], hooks=False)
    dic = os.path.join(run_dir(), "dict")
    lits = literals(dic)
    jobs = []
    t = 1 if tier == "quick" else 2
    split = {"dev": max(1, CORES * 5 // 8), "release": max(1, CORES * 3 // 8)}
    if len(bins) > 1:
        split = {"dev": 2, "release": 1}
    for b in bins:
        for prof, n in split.items():
            for i in range(n):
                jobs.append(dict(exe=os.path.join(dirs[prof], "vp_" + b), prop=prop, tier=t, seed=sub_seed(seed, prof), dic=dic,
                                 prof=prof, shard=(i, n), div=1 if prof == "dev" else 2, mul=MUL.get(prop, 20)))
        if prop not in METERED:
            # several threads at once, as nothing in the interfaces forbids it
            jobs.append(dict(exe=os.path.join(dirs["dev"], "vp_" + b), prop=prop, tier=t, seed=sub_seed(seed, "threads"), dic=dic,
                             prof="dev", div=8, mul=MUL.get(prop, 20), threads=4))
    deadline = started + WALL[tier]
    done, bad, notes = supervise(jobs, deadline)
    obs, found = collect(done)
    bad = found + bad
    extra = dict(profiles={p: len([w for w in done if w.cfg["prof"] == p]) for p in split}, literals_of_the_code=sum(lits))
    if prop == "B06":
        n, b2 = deep_probes(dirs["release"], dic, seed)
        bad += b2
        obs["cases"]["deep_probe"] = n
        obs["evaluations"] += n
    return verdict(prop, tier, seed, obs, bad, notes, started, extra)


def deep_probes(d, dic, seed):
    """B06: operations on a value nested 200,000 deep, each in a process of its own."""
    bad = []
    ws = []
    for r, o in DEEP:
        idx = r * 16 + o
        ws.append((idx, Worker(os.path.join(d, "vp_bencode"), "B06", 1, seed, dic, "release", only="deep_probe:%d" % idx, cpu=60)))
    for idx, w in ws:
        try:
            rc = w.p.wait(timeout=300)
        except subprocess.TimeoutExpired:
            w.kill()
            rc = -signal.SIGXCPU
        w.kill()
        v = dict(workload="deep_probe", idx=idx, profile="release", seed=seed, tier=1, div=1, steps="")
        if rc == 0:
            continue
        if rc == 1:
            bad.append(dict(v, message=w.result()["violations"][0]["message"]))
        elif died(rc):
            if rc == -signal.SIGKILL:
                raise NoAnswer("a deep probe was killed from outside")
            bad.append(dict(v, message="the process is " + how(rc, w.stderr()), died=True))
        else:
            raise NoAnswer("deep probe %d failed: %s" % (idx, w.stderr()[-1000:]))
    return len(ws), bad


# ---------------------------------------------------------------- M01: sanitizers over everything
ASAN_KINDS = re.compile(r"Undefined Behavior: [^\n]*|ThreadSanitizer: (?!failed|unexpected|CHECK|internal)(\S+ \S+)|AddressSanitizer: (?!stack-overflow)(\S+)|unsafe precondition\(s\) violated[^\n]*|misaligned pointer dereference[^\n]*|null pointer dereference[^\n]*|trying to construct an enum from an invalid value[^\n]*")
UB = re.compile(r"error: (Undefined Behavior: [^\n]*|unsupported operation[^\n]*|the evaluated program aborted[^\n]*|memory leaked[^\n]*)")


def check_memory(tier, seed, started):
    bins = list(BINS)
    dirs = build(bins, ["asan", "dev", "tsan"])
    lock = Build()
    try:
        finish_build("miri", cargo(["miri", "run", "--offline", "--locked", "--features", "dht,root", "--bin", "vp_bencode", "--",
                                    "--prop", "B07", "--tier", "0", "--div", "1000"], os.path.join(TARGET, "miri"), "", "nightly",
                                   {"MIRIFLAGS": "-Zmiri-disable-isolation"}))
    finally:
        lock.done()
    dic = os.path.join(run_dir(), "dict")
    literals(dic)
    deadline = started + WALL[tier]
    bad, notes = [], []
    # the interpreter runs next to the sanitizer
    miri = miri_start(tier, seed, dic)
    jobs = []
    for b in bins:
        n = CORES if b == "dht" else max(1, CORES // 2)
        for i in range(n):
            jobs.append(dict(exe=os.path.join(dirs["asan"], "vp_" + b), prop="all", tier=1, seed=sub_seed(seed, "asan"), dic=dic, prof="asan",
                             shard=(i, n), div=12 if tier == "quick" else 1))
            if i < 2:
                jobs.append(dict(exe=os.path.join(dirs["dev"], "vp_" + b), prop="all", tier=1, seed=sub_seed(seed, "ubchecks"), dic=dic, prof="dev",
                                 shard=(i, 2), div=12 if tier == "quick" else 2))
    for b in bins:
        for i in range(2):
            jobs.append(dict(exe=os.path.join(dirs["tsan"], "vp_" + b), prop="all", tier=1, seed=sub_seed(seed, "races"), dic=dic, prof="tsan",
                             shard=(i, 2), div=(60 if b == "dht" else 20) if tier == "quick" else 4, threads=4))
    try:
        done, deaths, notes = supervise(jobs, deadline, at_once=CORES, hangs=99)
    except BaseException:
        for _, p, _ in miri:
            p.kill()
        raise
    for v in deaths:
        m = ASAN_KINDS.search(v.get("stderr", ""))
        if m:
            line = next((l.strip() for l in v["stderr"].splitlines() if "/repo/" in l), "")
            bad.append(dict(v, message="%s %s" % (m.group(0), line)))
        elif "SIGSEGV" in v.get("first", "") or "SIGBUS" in v.get("first", "") or "SIGILL" in v.get("first", ""):
            if "overflowed its stack" not in v.get("stderr", "") and "stack-overflow" not in v.get("stderr", ""):
                bad.append(v)
            else:
                notes.append("stack overflow in %s:%s, not a memory error" % (v["workload"], v["idx"]))
        else:
            notes.append("%s:%s: %s, not a memory error" % (v["workload"], v["idx"], v["message"]))
    obs, found = collect(done)
    if found:
        notes.append("%d alarms of other properties' oracles, not judged here" % len(found))
    obs["counters"] = {"asan_cases": sum(sum(w.result()["cases"].values()) for w in done if w.cfg["prof"] == "asan"),
                       "ub_checked_cases": sum(sum(w.result()["cases"].values()) for w in done if w.cfg["prof"] == "dev"),
                       "race_checked_cases": sum(sum(w.result()["cases"].values()) for w in done if w.cfg["prof"] == "tsan"),
                       "of_them_at_the_same_time": sum(w.result()["counters"].get("concurrent_cases", 0) for w in done if w.cfg["prof"] == "tsan"),
                       "workloads": len(obs["cases"])}
    miri_cases = 0
    for name, p, base in miri:
        left = max(5, deadline - time.monotonic())
        try:
            p.wait(timeout=left)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            notes.append("the interpreter run of %s was cut off" % name)
        err = open(base + ".err", errors="replace").read()
        try:
            last = open(base + ".progress").read().split()
            miri_cases += int(last[0])
        except (OSError, IndexError, ValueError):
            last = ["0", "?", "?"]
        m = UB.search(err)
        if m and m.group(1).startswith("Undefined"):
            i = err.find(m.group(0))
            bad.append(dict(workload=last[2], idx=int(last[1]) if last[1].isdigit() else 0, profile="miri", seed=seed, tier=0, div=1, message=m.group(1),
                            steps=err[i:i + 1500], bin=name))
        elif m:
            raise NoAnswer("the interpreter stopped: " + m.group(1))
        elif p.returncode not in (0, 1, -9):
            raise NoAnswer("the interpreter run of %s ended with %s: %s" % (name, p.returncode, err[-1500:]))
    obs["counters"]["miri_cases"] = miri_cases
    obs["cases"] = dict(sorted(obs["cases"].items()))
    obs["evaluations"] += miri_cases
    obs["rule"] = ("a case is one workload case of any other property, run under AddressSanitizer, next to others under ThreadSanitizer, with the standard library's "
                   "checks of unsafe preconditions, or (fewer) in the Miri interpreter; only their reports are judged here; distinct by what the case observed")
    obs["floors"] = {"asan_cases": 10000, "ub_checked_cases": 10000, "race_checked_cases": 10000, "of_them_at_the_same_time": 2000, "miri_cases": 120, "workloads": 40}
    obs["assumptions"] = ["the threads share what the code has of statics and thread locals, not values: its types hand none out for shared mutation"]
    return verdict("M01", tier, seed, obs, bad, notes, started, dict(tools=["AddressSanitizer", "ThreadSanitizer", "debug-assertion checks of unsafe preconditions", "Miri (stacked borrows)"]))


def miri_start(tier, seed, dic):
    # shards per area, by what they cost
    n = {"bencode": 2, "common": 2, "dht": 4, "root": 2}
    ps = []
    for b, k in n.items():
        for i in range(k):
            base = os.path.join(run_dir(), "miri-%s-%d" % (b, i))
            out = open(base + ".err", "wb")
            args = ["miri", "run", "--offline", "--locked", "--features", "dht,root", "--bin", "vp_" + b, "--", "--prop", "all", "--tier", "0", "--dict", dic,
                    "--seed", str(sub_seed(seed, "miri")), "--progress", base + ".progress", "--out", base + ".json",
                    "--shard", "%d/%d" % (i, k), "--div", "2" if tier == "quick" else "1"]
            ps.append((b, cargo(args, os.path.join(TARGET, "miri"), "", "nightly",
                                {"MIRIFLAGS": "-Zmiri-disable-isolation -Zmiri-seed=%d" % (seed * 100 + i)}, out=out), base))
    return ps


# ---------------------------------------------------------------- entry
def replay(path):
    f = json.load(open(path))
    rc = 0
    for v in f["violations"][:3]:
        log("%s %s:%s [%s] %s" % (f["property"], v["workload"], v["idx"], v["profile"], v["message"]))
        prop, prof = f["property"], v["profile"]
        if prof == "miri":
            log(v.get("steps", ""))
            rc = 1
            continue
        if prop == "M01":
            b = area(*v["workload"].split("/", 1))
            prop = "all"
        else:
            b = area(prop, v["workload"])
        d = build([b] if prop != "all" else list(BINS), [prof])[prof]
        dic = os.path.join(run_dir(), "dict")
        literals(dic)
        w = Worker(os.path.join(d, "vp_" + b), prop, v["tier"], v["seed"], dic, prof, verbose=True, cpu=120,
                   **(dict(threads=v["threads"], shard=tuple(v["shard"]), mul=v["mul"], div=v["div"]) if v.get("threads") else dict(only="%s:%s" % (v["workload"], v["idx"]))))
        r = w.p.wait()
        log("worker exit %s" % r)
        if r == 1:
            for x in w.result()["violations"]:
                log("reproduced: " + x["message"])
        rc = rc or (0 if r == 0 else 1)
    return rc


def main():
    global _run
    a = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER") or "quick"
    seed = int(os.environ.get("VERIF_SEED") or 1)
    if "--tier" in a:
        i = a.index("--tier")
        tier = a[i + 1]
        del a[i:i + 2]
    if tier not in WALL or not a:
        log(__doc__)
        return 2
    os.makedirs(os.path.join(ROOT, "out"), exist_ok=True)
    _run = os.path.join(ROOT, "out", "run-%d" % os.getpid())
    os.makedirs(_run)
    try:
        if a[0] == "--build":
            build(list(BINS), ["dev", "release"])
            return 0
        if a[0] == "--replay":
            return replay(a[1])
        return check(a[0], tier, seed)
    except NoAnswer as e:
        log("NO ANSWER: %s" % e)
        return 2
    finally:
        shutil.rmtree(_run, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
