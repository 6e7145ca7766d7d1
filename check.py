#!/usr/bin/env python3
"""Decides one property of /repo by symbolic execution.

  check.py C07                     quick (VERIF_TIER=thorough: thorough)
  check.py --replay evidence/C07.violation-1.txt
                                   run a recorded counterexample natively again

Exit 0: the property held on everything explored.  Exit 1 with a line
"VIOLATION property=.. replay=..": it is broken.  Anything else: the check failed.
"""
import fcntl, hashlib, json, os, random, re, shutil, subprocess, sys, time
from collections import Counter

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.path.join(HERE, "build")
EV = os.path.join(HERE, "evidence")
sys.path.insert(0, os.path.join(HERE, "tools"))
import jobs as J

T0 = time.time()
DEADLINE = {"quick": 820, "thorough": 7000}
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true")
for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS"):
    ENV.pop(k, None)


def say(*a):
    print(*a, flush=True)


def fail(msg, code=2):
    say("CHECK-ERROR: " + msg)
    sys.exit(code)


def sh(cmd, cwd=None, timeout=600, env=None):
    r = subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return r.returncode, r.stdout.decode(errors="replace")


# ---------------------------------------------------------------- building

def tree_key():
    h = hashlib.sha256()
    roots = [(REPO, ("target", ".git", "tests", "benches", "fuzz", "examples")), (os.path.join(HERE, "harness"), ("target",))]
    for root, skip in roots:
        for d, ds, fs in os.walk(root):
            ds[:] = sorted(x for x in ds if x not in skip and not (d != root and x == ".git"))
            for f in sorted(fs):
                if f.endswith((".rs", ".toml", ".lock")) or "/src" in d:
                    p = os.path.join(d, f)
                    h.update(p.encode() + b"\0")
                    with open(p, "rb") as s:
                        h.update(s.read())
                    h.update(b"\0")
    return h.hexdigest()[:16]


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def build_engine():
    with Lock(".engine.lock"):
        rc, out = sh([os.path.join(HERE, "tools", "build_engine.sh"), "-q"], timeout=900)
    if rc:
        fail("the engine does not build:\n" + out[-3000:])
    return os.path.join(BUILD, "engine", "release", "symex")


def build_dir():
    k = tree_key()
    d = os.path.join(BUILD, "t-" + k)
    with Lock(".dirs.lock"):
        os.makedirs(d, exist_ok=True)
        os.utime(d)
        # keep the few last used
        old = sorted((x for x in os.listdir(BUILD) if x.startswith("t-")), key=lambda x: -os.stat(os.path.join(BUILD, x)).st_mtime)
        for x in old[4:]:
            if time.time() - os.stat(os.path.join(BUILD, x)).st_mtime > 7200:
                shutil.rmtree(os.path.join(BUILD, x), ignore_errors=True)
    return d


def build_ir(d, profile):
    """The LLVM IR of the harness together with /repo's current code."""
    with Lock(".ir.lock"):
        t = os.path.join(d, "ir")
        cmd = ["cargo", "rustc", "--offline", "-q", "--target-dir", t, "--profile", profile, "--",
               "--emit=llvm-ir", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp"]
        rc, out = sh(cmd, cwd=os.path.join(HERE, "harness", "sym"))
        if rc:
            fail("the harness does not build against /repo:\n" + out[-3000:])
        p = os.path.join(t, profile, "deps")
        ll = [os.path.join(p, x) for x in os.listdir(p) if x.endswith(".ll")]
        if len(ll) != 1:
            fail("no single IR module in " + p)
        return ll[0]


def build_native(d, profile):
    """The same harness as an ordinary program.  asan: with the address sanitizer."""
    with Lock(".native.lock"):
        env = dict(ENV)
        cmd = ["cargo", "build", "--offline", "-q", "--target-dir", os.path.join(d, "native-" + profile)]
        if profile == "release":
            cmd.append("--release")
        exe = os.path.join(d, "native-" + profile, "release" if profile == "release" else "debug", "replay")
        if profile == "asan":
            env["RUSTUP_TOOLCHAIN"] = "nightly"
            env["RUSTFLAGS"] = "-Zsanitizer=address"
            cmd += ["--target", "x86_64-unknown-linux-gnu"]
            exe = os.path.join(d, "native-asan", "x86_64-unknown-linux-gnu", "debug", "replay")
        rc, out = sh(cmd, cwd=os.path.join(HERE, "harness", "replay"), env=env)
        if rc:
            if profile == "asan":
                return None
            fail("the replay program does not build against /repo:\n" + out[-3000:])
        return exe


# ---------------------------------------------------------------- running

def cost(job):
    h, a = job
    e, n, split, pre = a[1], a[4], a[10], a[3] + a[5]
    c = 1 + pre / 20
    if e in J.DBCS:
        if h.startswith("h_dec"):
            c *= 20 * (4 if split >= 768 else 1) * (1 + (a[9] - a[8]) / 64 if split & 256 else 4)
        else:
            c *= 10 if split < 4 else 60
    return c


def symex(exe, ll, js, tag, work, wall, tier, seed, ignore=(), rewrites=1, job_secs=None):
    """Run jobs; returns (results by job index, summary)."""
    jf, of = os.path.join(work, tag + ".jobs"), os.path.join(work, tag + ".out")
    with open(jf, "w") as f:
        for i, (h, a) in enumerate(js):
            f.write("%d %s %s\n" % (i, h, " ".join(map(str, a))))
    cmd = [exe, ll, jf, of, "--seed", str(seed), "--wall", str(int(wall)), "--samples", "6", "--stop", "8",
           "--query-ms", "30000" if tier == "quick" else "120000", "--job-secs", str(job_secs or (150 if tier == "quick" else 900)),
           "--confirm", "1", "--rewrites", str(rewrites), "--threads", str(os.cpu_count() or 4)]
    if ignore:
        cmd += ["--ignore", ",".join(map(str, ignore))]
    if os.path.exists(of):
        os.remove(of)
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=wall + 400 + (0 if tier == "quick" else 1500))
    except subprocess.TimeoutExpired:
        fail("the symbolic executor does not end")
    if r.returncode or not os.path.exists(of):
        fail("the symbolic executor ended with %d: %s" % (r.returncode, r.stdout.decode(errors="replace")[-2000:]))
    res, summ = {}, None
    with open(of) as f:
        for l in f:
            x = json.loads(l)
            if x.get("summary"):
                summ = x
            else:
                res[int(x["id"])] = x
    os.remove(jf)
    os.remove(of)
    return res, summ


def refine(job):
    """The same job in smaller pieces, for when it does not finish in one."""
    h, a = job
    a = list(a)
    lo, hi = a[8], a[9]
    if h.startswith("h_dec"):
        n = a[4]
        if n < 2:
            return []
        a[10] |= sum(256 << k for k in range(n - 1))
        cuts = [(v, v) for v in range(lo, hi + 1)]
    elif h.startswith("h_enc"):
        a[10] |= 7
        cls = a[4] & 15
        rng = {1: (0, 0x7F), 2: (0xC2, 0xDF), 3: (0xE0, 0xEF), 4: (0xF0, 0xF4)}.get(cls, (0xC2, 0xEF))
        lo, hi = max(lo, rng[0]), min(hi, rng[1])
        cuts = [(v, v) for v in range(lo, hi + 1)] if cls != 1 else [(lo, hi)]
        if cls == 1 and tuple(a) == tuple(job[1]):
            return []
    else:
        return []
    r = []
    for l, u in cuts:
        b = list(a)
        b[8], b[9] = l, u
        r.append((h, tuple(b)))
    return r if len(r) > 1 or (r and r[0] != (h, tuple(job[1]))) else []


def native(exe, lines, timeout=600, each=20):
    """Run recorded inputs natively; {tag: (obs, asserts, panic, assume)} or a crash note."""
    out, rest = {}, list(lines)
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0")
    while rest:
        p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env)
        data = "".join(l + "\n" for l in rest).encode()
        hung = False
        try:
            so, se = p.communicate(data, timeout=each if len(rest) == 1 else timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            so, se = p.communicate()
            hung = True
        done = 0
        part = None
        for l in so.decode(errors="replace").split("\n"):
            w = l.split("\t")
            if len(w) == 5:
                f = [x.split("=", 1)[1] for x in w[1:]]
                out[w[0]] = {"obs": [int(x) for x in f[0].split(",") if x], "asserts": [int(x) for x in f[1].split(",") if x],
                             "panic": "" if f[2] == "-" else f[2], "assume": f[3] == "1", "crash": ""}
                done += 1
            elif w[0]:
                part = w[0]
        if done == len(rest):
            break
        if part is None:
            if not hung and p.returncode:
                fail("the replay program failed: " + se.decode(errors="replace")[-500:])
            if not hung:
                break
            part = rest[done].split()[0]
        note = "does not end" if hung else "ends with status %d: %s" % (p.returncode, " ".join(se.decode(errors="replace").split())[:400])
        out[part] = {"obs": [], "asserts": [], "panic": "", "assume": True, "crash": note}
        rest = rest[done + 1:]
        if hung:
            timeout = min(timeout, 60)
    return out


def line(tag, job, inp):
    h, a = job
    return "%s %s %s %s" % (tag, h, " ".join(map(str, a)), inp or "-")


def confirms(v, o):
    """Does the native outcome o show the violation v?"""
    if o is None or not o["assume"]:
        return False
    if o["crash"]:
        return v["kind"] in ("memory", "hang", "panic", "assert")
    if v["kind"] == "assert":
        return int(v["detail"]) in o["asserts"] or bool(o["asserts"]) or bool(o["panic"])
    if v["kind"] == "hang":
        return False
    return bool(o["panic"]) or bool(o["asserts"])


def demangle(n):
    m = re.match(r"_ZN(.*)E$", n)
    if not m:
        return n
    s, out = m.group(1), []
    while s:
        k = re.match(r"(\d+)", s)
        if not k:
            break
        l = int(k.group(1))
        s = s[len(k.group(1)):]
        out.append(s[:l])
        s = s[l:]
    if out and re.match(r"h[0-9a-f]{16}$", out[-1]):
        out.pop()
    r = "::".join(out)
    for x, y in (("$LT$", "<"), ("$GT$", ">"), ("$u20$", " "), ("$RF$", "&"), ("..", "::"), ("$u5b$", "["), ("$u5d$", "]"), ("$C$", ",")):
        r = r.replace(x, y)
    return r


# reachability witnesses every run must produce (harness covers, by direction)
COVERS = {
    1: {"dec": [1, 2]}, 2: {"enc": [1, 2]}, 3: {"dec": [1, 2, 3, 4], "enc": [1]}, 4: {"dec": [1, 2, 3, 4]}, 5: {"dec": [1, 2, 3, 4]},
    6: {"enc": [1]}, 7: {"dec": [1, 2]}, 8: {"enc": [1, 2]}, 9: {"dec": [1, 2, 3, 4]}, 10: {"enc": [1, 2, 3]}, 11: {"dec": [1, 2, 3, 4]},
    12: {"enc": [1, 2]}, 13: {"enc": [1, 2]}, 14: {"dec": [1, 2]}, 15: {"dec": [1, 2, 3, 4]}, 16: {"enc": [1, 2, 3, 4]},
    17: {"dec": [1, 2, 3, 4]}, 18: {"enc": [1, 2, 3, 4]}, 19: {"dec": [1, 2]}, 20: {"enc": [1, 2]}, 21: {"dec": [1, 2]},
    22: {"dec": [1, 2], "enc": [1, 2]}, 23: {"ascii": [1]}, 24: {"dec": [1, 2], "enc": [1, 2]},
    25: {"dec": [1, 2], "enc": [1, 2]}, 26: {"dec": [1, 2], "enc": [1, 2]}, 27: {"dec": [1, 2, 3]}, 28: {"enc": [1, 2, 3]},
    29: {"dec": [1, 2], "enc": [1, 2]}, 30: {"dec": [1, 2, 3], "enc": [1, 2]}, 31: {"dec": [1, 2, 3], "enc": [1, 2, 3]},
    32: {"dec": [1, 2], "enc": [1, 2]},
}


def describe(job, inp):
    h, a = job
    d = dict(zip("p e fill pre n suf m end lo hi split x".split(), a))
    return "%s, %s, input %s after %d and before %d filler characters (kind %d), buffer of %d, is_end %s" % (
        J.NAMES[a[1]], {"dec": "decoding", "enc": "encoding", "asc": "ASCII both ways"}[h[2:5]],
        inp or "(none)", d["pre"], d["suf"], d["fill"], d["m"], bool(d["end"]))


def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    p = int(pid[1:])
    os.makedirs(EV, exist_ok=True)
    for f in os.listdir(EV):
        if f.startswith(pid + "."):
            os.remove(os.path.join(EV, f))
    known = [k for k in json.load(open(os.path.join(HERE, "known-findings.json")))["known"] if k["property"] == pid]
    kids = {k["assert"]: k for k in known}

    exe = build_engine()
    d = build_dir()
    work = os.path.join(d, "run-%s-%d" % (pid, os.getpid()))
    os.makedirs(work, exist_ok=True)
    try:
        run(pid, p, tier, seed, exe, d, work, kids)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def run(pid, p, tier, seed, exe, d, work, kids):
    ll = build_ir(d, "release")
    js = J.make(pid, tier, seed)
    js.sort(key=lambda j: -cost(j))
    end = T0 + DEADLINE[tier]
    res, summ = symex(exe, ll, js, pid, work, (end - time.time()) * 0.6, tier, seed, kids)
    batches = [(ll, "debug assertions and overflow checks on", js, res, summ)]
    viol = any(v for r in res.values() for v in r.get("violations", []) if not (v["kind"] == "assert" and int(v["detail"]) in kids))

    # Jobs that did not finish are cut into smaller ones once.
    errs = [i for i, r in res.items() if r["status"].startswith("error")]
    retried, open_jobs = 0, set()
    if errs and not viol:
        sub, covered, owner = [], [], {}
        for i in errs:
            s = refine(js[i])
            if s:
                covered.append(i)
                for x in s:
                    owner[len(sub)] = i
                    sub.append(x)
        if sub:
            say("%d jobs did not finish (%s); cutting them into %d" % (len(covered), res[errs[0]]["status"][:80], len(sub)))
            r2, s2 = symex(exe, ll, sub, pid + "-2", work, max(60, (end - time.time()) * 0.8), tier, seed, kids)
            retried = len(sub)
            for i in covered:
                del res[i]
            open_jobs = {owner[k] for k, r in r2.items() if r["status"] not in ("ok", "violation")}
            batches.append((ll, "pieces of jobs that did not finish whole", sub, r2, s2))
    if tier == "thorough" and not viol:
        # the same quick jobs over the code as compiled for release
        ll2 = build_ir(d, "user")
        qj = J.make(pid, "quick", seed)
        qj.sort(key=lambda j: -cost(j))
        r3, s3 = symex(exe, ll2, qj, pid + "-3", work, max(60, (end - time.time()) * 0.8), tier, seed, kids)
        batches.append((ll2, "as compiled for release: no debug assertions, wrapping arithmetic", qj, r3, s3))

    # ------------------------------------------------ counterexamples
    found, rng = [], random.Random(seed)
    for _, _, jl, rs, _ in batches:
        for i, r in sorted(rs.items()):
            for v in r.get("violations", []):
                found.append((jl[i], v))
    found.sort(key=lambda x: (x[1]["kind"] != "assert", len(x[1]["input"]), x[0][1][3] + x[0][1][5]))
    knownhit, new, unproven, seen = {}, [], [], Counter()
    if found:
        exes = {q: build_native(d, q) for q in ("dev", "release")}
        pick = []
        for job, v in found:
            k = (job[1][1], v["kind"], v["detail"])
            if seen[k] >= (40 if v["kind"] == "assert" and int(v["detail"]) in kids else 3) or len(pick) >= 300:
                continue
            seen[k] += 1
            pick.append((job, v))
        lines = [line("v%d" % i, job, v["input"]) for i, (job, v) in enumerate(pick)]
        outs = {}
        if any(v["kind"] == "hang" for _, v in pick):
            for q in exes:
                outs[q] = {}
                for l, (_, v) in zip(lines, pick):
                    if v["kind"] != "hang" or len(outs[q]) < 4:
                        outs[q].update(native(exes[q], [l]))
        else:
            outs = {q: native(exes[q], lines) for q in exes}
        asan = None
        # runs share a process; one that shows nothing there gets a process of its own
        # (statics the code may keep start afresh, as they do in the encoding)
        alone = 0
        for i, (job, v) in enumerate(pick):
            if v["kind"] != "hang" and alone < 40 and not any(confirms(v, outs[q].get("v%d" % i)) for q in exes):
                alone += 1
                for q in exes:
                    outs[q].update(native(exes[q], [lines[i]]))
        for i, (job, v) in enumerate(pick):
            how = [q for q in exes if confirms(v, outs[q].get("v%d" % i))]
            if not how and v["kind"] == "memory":
                if asan is None:
                    asan = build_native(d, "asan") or ""
                if asan:
                    o = native(asan, [lines[i]])
                    outs.setdefault("asan", {}).update(o)
                    if confirms(v, o.get("v%d" % i)):
                        how = ["asan"]
            if v["kind"] == "assert" and int(v["detail"]) in kids and how:
                knownhit.setdefault(int(v["detail"]), (job, v))
            elif how:
                new.append((job, v, how, outs[how[0]]["v%d" % i]))
            else:
                unproven.append((job, v, {q: o.get("v%d" % i) for q, o in outs.items()}))

    # ------------------------------------------------ encoding validated against the real code
    traces, compared, mism = [], 0, []
    for _, _, jl, rs, _ in batches:
        for i, r in rs.items():
            for m, obs in r.get("samples", []):
                traces.append((jl[i], m, obs, r["status"] == "ok"))
    rng.shuffle(traces)
    traces = traces[: 6000 if tier == "quick" else 40000]
    if traces and not new:
        rexe = build_native(d, "release")
        lines = [line("t%d" % i, job, m) for i, (job, m, _, _) in enumerate(traces)]
        out = native(rexe, lines)
        differs = lambda o, obs, ok: o is None or o["crash"] or o["panic"] or o["obs"] != obs or not o["assume"] or (ok and o["asserts"])
        for i, (job, m, obs, ok) in enumerate(traces):
            o = out.get("t%d" % i)
            compared += 1
            if differs(o, obs, ok) and len(mism) < 40:
                o = native(rexe, [lines[i]]).get("t%d" % i)
            if differs(o, obs, ok):
                mism.append((job, m, obs, o))

    # ------------------------------------------------ verdict and evidence
    tot = Counter()
    status, funcs, covers, aids = Counter(), {}, {}, Counter()
    for _, _, jl, rs, sm in batches:
        for i, r in rs.items():
            status[re.sub(r" at .*", "", r["status"])] += 1
            for k in ("paths", "dropped", "steps", "forks", "branches", "asserts", "asserts_simplified", "asserts_solver", "cached", "queries",
                      "qsat", "qunsat", "qunknown", "qtime", "decided", "confirmed", "trivial", "unconfirmed", "rewrites", "rewrites_distinct",
                      "rewrites_checked", "cqueries", "ctime"):
                tot[k] += r.get(k, 0)
            tot["qmax"] = max(tot["qmax"], r.get("qmax", 0))
            dirn = jl[i][0].split("_")[1]
            for k, (n, w) in r.get("covers", {}).items():
                c = covers.setdefault("%s %s" % (dirn, k), [0, describe(jl[i], w)])
                c[0] += n
            for k, n in r.get("assert_ids", {}).items():
                aids[k] += n
        for k, (n, ins) in sm["functions"].items():
            f = funcs.setdefault(demangle(k), [0, ins])
            f[0] += n
    bad = [(b[2][i], r["status"]) for b in batches for i, r in b[3].items() if r["status"] not in ("ok", "violation")]
    ntotal = sum(len(b[3]) for b in batches)
    pieces = {id(j) for b in batches[1:2] if retried for j in b[2]}
    nbad = len(open_jobs) + sum(id(j) not in pieces for j, _ in bad)
    miss = [(k, c) for k, cs in COVERS[p].items() for c in cs if "%s %d" % (k, c) not in covers]
    code = sorted(f for f in funcs if "text_encoding" in f or f.startswith("core::str") or f.startswith("core::char") or f.startswith("core::slice"))
    samples = []
    for job, m, obs, ok in traces[:6]:
        samples.append({"job": describe(job, m), "window": [job[1][8], job[1][9], job[1][10]], "path model": m, "observed ok,n,w,es,ee,aux,bytes..": obs[:40]})
    encs = sorted({J.NAMES[a[1]] for _, a in js})
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": int(tot["paths"] + tot["dropped"] + tot["forks"]),
            "transitions": int(tot["steps"]),
            "traces_validated_against_impl": compared - len(mism),
            "exhaustive": False,
            "samples": samples or ["none"],
            "what states and transitions are": "states: symbolic states (completed and dropped paths plus fork points), each standing for every input that satisfies its path condition; transitions: LLVM instructions executed symbolically",
            "jobs": sum(len(b[2]) for b in batches), "jobs by outcome": dict(status), "jobs cut into pieces": retried,
            "jobs without an answer, not explored": [line("j", b, "") + ": " + st for b, st in bad[:50]],
            "builds encoded": [b[1] for b in batches],
            "paths completed": int(tot["paths"]), "assertion checks": int(tot["asserts"]),
            "assertion checks by id": {k: aids[k] for k in sorted(aids, key=int)},
            "solver": {
                "version": summ["z3"], "queries": int(tot["queries"]), "unsat": int(tot["qunsat"]), "sat": int(tot["qsat"]), "unknown": int(tot["qunknown"]),
                "seconds": round(tot["qtime"], 2), "slowest query": round(tot["qmax"], 3),
                "assertions proved by a query of their own": int(tot["asserts_solver"]),
                "decisions and assertions settled by ranges, then confirmed by the solver at the end of the path": int(tot["confirmed"]),
                "of these, constant once known bytes are put in": int(tot["trivial"]), "left unconfirmed": int(tot["unconfirmed"]),
                "functions of one byte put into table form": int(tot["rewrites"]), "distinct": int(tot["rewrites_distinct"]), "of these, shown equal by the solver": int(tot["rewrites_checked"]),
            },
            "functions encoded": code, "functions encoded, all": len(funcs),
            "instructions in the functions encoded": sum(x[1] for x in funcs.values()),
            "encodings": encs,
            "bounds": bounds(js),
            "reachability witnesses": {k: {"count": c[0], "example": c[1]} for k, c in sorted(covers.items())},
            "wall seconds in the symbolic executor": round(sum(b[4]["wall"] for b in batches), 1),
        },
        "assumptions": [
            "inputs outside the stated windows, surroundings and sizes are not covered",
            "rustc's translation of the sources to LLVM IR, the executor's reading of that IR, its term simplifier (self-tested against evaluation) and Z3 are trusted; sampled path models are replayed natively and must agree",
            "the oracle tables in oracle/tables are the published mappings (cross-checked against Python's codecs)",
        ],
        "wall_s": round(time.time() - T0, 2),
        "violations": len(new),
    }
    if kids:
        ev["coverage"]["known findings seen"] = sorted(kids[k]["char"] for k in knownhit)
    with open(os.path.join(EV, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")

    say("%s %s: %d jobs %s, %d paths, %d assertion checks, %d solver queries (%.1f s), %d paths replayed natively, %.1f s" % (
        pid, tier, ev["coverage"]["jobs"], dict(status), tot["paths"], tot["asserts"], tot["queries"], tot["qtime"], compared, time.time() - T0))
    for k in sorted(knownhit):
        say("KNOWN-FINDING: property=%s %s" % (pid, kids[k]["what"]))
    if new:
        for n, (job, v, how, o) in enumerate(new[:3], 1):
            path = os.path.join(EV, "%s.violation-%d.txt" % (pid, n))
            with open(path, "w") as f:
                f.write("# %s violated (%s %s), reproduced natively in: %s\n" % (pid, v["kind"], v["detail"], ", ".join(how)))
                f.write("# %s\n# native outcome: %s\n# stack: %s\n" % (describe(job, v["input"]), {k: x for k, x in o.items()}, " < ".join(demangle(s) for s in v["stack"])))
                f.write("# run again: python3 %s --replay %s\n" % (os.path.join(HERE, "check.py"), path))
                f.write(line("v", job, v["input"]) + "\n")
            say("%s %s: %s" % (v["kind"], v["detail"], describe(job, v["input"])))
        say("VIOLATION property=%s replay=%s" % (pid, os.path.join(EV, pid + ".violation-1.txt")))
        sys.exit(1)
    if unproven:
        job, v, o = unproven[0]
        fail("%d counterexamples do not reproduce natively, e.g. %s %s: %s -> %s" % (len(unproven), v["kind"], v["detail"], line("v", job, v["input"]), o))
    if mism:
        job, m, obs, o = mism[0]
        fail("%d of %d replayed paths differ from the encoding, e.g. %s: encoding %s, native %s" % (len(mism), compared, line("t", job, m), obs, o))
    if bad:
        say("note: %d of %d jobs gave no answer and are not part of what was explored, e.g. %s: %s" % (len(bad), ntotal, line("j", bad[0][0], ""), bad[0][1]))
        if nbad > 0.1 * len(js):
            fail("too much was left unexplored")
    if tot["unconfirmed"] or tot["qunknown"]:
        say("note: %d decisions left unconfirmed, %d queries without an answer" % (tot["unconfirmed"], tot["qunknown"]))
    if miss:
        fail("nothing reached the witnesses %s: the check would be vacuous" % miss)
    sys.exit(0)


def bounds(js):
    b = {}
    for h, a in js:
        kind = h.split("_")[1]
        x = b.setdefault(kind, {"windows": set(), "before": set(), "after": set(), "m": set(), "enc": set()})
        x["windows"].add(a[4])
        x["before"].add((a[2], a[3]))
        x["after"].add((a[2], a[5]))
        x["m"].add(a[6])
    out = {}
    for kind, x in b.items():
        out[kind] = {
            "symbolic window": sorted(x["windows"]) if kind != "enc" else sorted("%x" % n for n in x["windows"]),
            "window unit": "arbitrary ASCII characters" if kind == "ascii" else "arbitrary bytes" if kind == "dec" else "hex digits, lowest first: one arbitrary character of that class (1-4: of that UTF-8 length; 5-B: see harness/src/body.rs)",
            "filler before (kind, characters)": sorted(x["before"]), "filler after (kind, characters)": sorted(x["after"]),
            "output buffer lengths": sorted(x["m"]),
        }
    return out


def replay(path):
    d = build_dir()
    ls = [l.strip() for l in open(path) if l.strip() and not l.startswith("#")]
    for q in ("dev", "release"):
        for t, o in native(build_native(d, q), ls).items():
            say(q, o)


if __name__ == "__main__":
    main()
