#!/usr/bin/env python3
"""run.py check PROP            decide a property on /repo's working tree (VERIF_TIER, VERIF_SEED)
run.py replay FILE           run the case of a replay file again
run.py build                 compile every configuration the checks use
run.py selftest              check that the tools are there, and compile the default configuration

Exit status: 0 held on everything explored, 1 violated (a VIOLATION line says where the replay is), 2 no answer.
For development only: FNNTW_REPO names another copy of the repository, FNNTW_WORK where to build and report.
"""
import concurrent.futures
import fcntl
import hashlib
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import threading
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.path.realpath(os.environ.get("FNNTW_REPO", "/repo"))
WORK = os.path.realpath(os.environ.get("FNNTW_WORK", HERE))
TARGET = os.path.join(WORK, "target")
CORES = os.cpu_count() or 8
VENV_PY = "/opt/vp/venv/bin/python"
CASE_LIMIT = 240  # seconds for a single case; cases take milliseconds, the largest about a second
NIGHTLY_TARGET = "x86_64-unknown-linux-gnu"

WITH_TARGET = ("asan", "guided")

# ------------------------------------------------------------------ configurations

# name: (cargo features of the harness, profile, extra)
CONFIGS = {
    "default": ("par,nopos,noidx,sqrt", "release"),
    "default-checked": ("par,nopos,noidx,sqrt", "checked"),
    "positions-squared-checked": ("par", "checked"),
    "serial": ("nopos,sqrt", "release"),
    "indices-squared-checked": ("par,nopos", "checked"),
    "asan": ("par,nopos,noidx,sqrt,asan", "checked"),
    "guided": ("par,nopos,sqrt,guided", "release"),
}
for _p in ("par", ""):
    for _o in ("", "nopos", "noidx"):
        for _s in ("", "sqrt"):
            _f = [x for x in (_p, _o and "nopos", _o == "noidx" and "noidx", _s) if x]
            CONFIGS["lite:" + ("+".join(_f) or "none")] = (",".join(_f + ["lite"]), "checked" if len(_f) % 2 else "release")
LITE = [c for c in CONFIGS if c.startswith("lite:")]

# property: [(configurations, profile, quick cases in all configurations together, share of a worker chunk)]
A, AC, B, C, D, S = "default", "default-checked", "positions-squared-checked", "serial", "indices-squared-checked", "asan"
PLAN = {
    "C01": [((A, B, C), "small", 120_000), ((A, B, C), "mid", 15_000), ((A, B, C), "big", 240)],
    "C02": [((A, B, C), "small", 120_000), ((A, B, C), "mid", 9_000), ((A, B, C), "big", 240)],
    "C03": [((A, B, C), "small", 90_000), ((A, B, C), "mid", 9_000), ((A, B, C), "big", 210)],
    "C04": [((A, D, B), "small", 80_000), ((A, D, B), "mid", 900), ((A, D), "big", 60), ((A, D), "with", 1_600)],
    "C05": [((A, D), "small", 90_000), ((A, D), "with", 2_000), ((A, D), "mid", 700), ((A, D), "big", 80)],
    "C06": [((A, D), "small", 90_000), ((A, D), "mid", 700), ((A, D), "big", 80)],
    "C07": [((A, B), "small", 150_000), ((A, B), "mid", 24_000), ((A, B), "big", 500)],
    "C08": [((A, D), "small", 60_000), ((A, D), "mid", 6_000), ((A, D), "big", 160), ((A, D), "schedule", 6_000)],
    "C09": [((A, B), "small", 30_000), ((A, B), "large", 2_400)],
    "C10": [((A, B), "small", 60_000), ((A, B), "large", 2_000)],
    "C11": [(LITE, "small", 60_000), (LITE, "mid", 1_200)],
    "C12": [((A, B, D), "small", 30_000), ((A, B, D), "big", 360)],
    "C13": [((A, D), "small", 20_000)],
    "C14": [((A, AC), "small", 300_000), ((A, AC), "big", 1_000), ((A,), "adversary", 600)],
    "C15": [((A,), "depth", 60_000), ((A,), "depthbig", 400), ((A,), "queries", 1_200)],
    "C16": [((A, B), "small", 3_000_000)],
    "C17": [(("python",), "python", 4_000)],
    "C18": [(("python",), "python", 6_000)],
    "C19": [((A, D), "small", 20_000), ((A, D), "mid", 2_000), ((S,), "small", 6_000), ((S,), "mid", 320)],
    "C20": [((A, B, D), "small", 12_000), ((A, D), "mid", 400)],
}
# coverage-guided, in the thorough tier only: cases
GUIDED = {
    "C01": [("small", 400_000)], "C02": [("small", 400_000)], "C03": [("small", 300_000)], "C04": [("small", 150_000)],
    "C05": [("small", 200_000)], "C06": [("small", 300_000)], "C07": [("small", 500_000)], "C08": [("small", 150_000)],
    "C09": [("small", 200_000)], "C10": [("small", 200_000)], "C12": [("small", 40_000)], "C13": [("small", 40_000)],
    "C14": [("small", 800_000)], "C15": [("depth", 100_000)], "C16": [("small", 3_000_000)], "C19": [("small", 60_000)],
}
THOROUGH = 12  # times the quick number of cases

RULES = {
    "C01": "tree specification (float type, dimension, layout, input order, size, leaf size, constructor, pool) and queries drawn from a choice sequence; non-trivial: the tree has an inner node, so that something is searched or pruned",
    "C02": "as C01 plus k; non-trivial: the tree has an inner node and some query asks for 0 < k < n",
    "C03": "as C01 on non-negative data with a box containing it and queries in the box; non-trivial: some answer lies across a face, edge or corner of the box",
    "C04": "as C03 plus k, single and batched; non-trivial: some neighbour is reached through a face (or, in batches, the batch has more than one query on a tree with an inner node)",
    "C05": "as C02/C04 plus a batch (size, repetitions), pool and concurrency; non-trivial: more than one finite query on a tree with an inner node, k > 0",
    "C06": "as C05 plus the axis; non-trivial: an existing axis of several, non-empty finite batch, k > 0, tree with an inner node",
    "C07": "tree specifications as C01; non-trivial: more than one inner node",
    "C08": "tree specifications plus split level, pool, schedule perturbation and concurrent builds, and queries; non-trivial: split level > 0 and more than one inner node",
    "C09": "tree specifications with odd finite and non-finite coordinates at drawn places, in data, queries and batches; non-trivial: at least one non-finite coordinate or empty data",
    "C10": "tree specifications and one to three boxes with lengths at, next to, below and beyond the data, non-finite or on negative data, queried afterwards; non-trivial: a box to be refused or replaced",
    "C11": "cases of C01-C06 in each of the twelve build configurations; non-trivial: the tree has an inner node",
    "C12": "degenerate layouts, sizes, leaf sizes, split levels, k and batches; every case is non-trivial by construction of the generator",
    "C13": "histories of 3-16 steps (builds, boxes, queries, moves, drops, points changed in place, concurrent queries) over several sets of points and trees; non-trivial: at least two steps that query",
    "C14": "point sets (sizes around and above the approximate-median threshold included), sub-slice, axis, chunk size, pool; non-trivial: both parts are non-empty and not all values are equal",
    "C15": "tree specifications (depth), and counted builds and queries of 4,000 to 140,000 points; non-trivial: n > 4 leafsize (depth), always (counts)",
    "C16": "pairs of points, boxes and candidates over integers, normal, wide and extreme magnitudes; non-trivial: the points differ",
    "C17": "Python calls: float type, dimension, data, leaf size, split level, box, and 1-4 queries with k and axis; non-trivial: more than two points, a query and k != 0",
    "C18": "Python histories of 2-14 actions, good and bad constructions and queries, data references dropped; non-trivial: something was refused or forgotten",
    "C19": "tree specifications and sequences of 1-8 calls, run twice under different fillings of fresh and freed memory, or under AddressSanitizer; non-trivial: several calls on a tree with an inner node",
    "C20": "tree specifications, boxes and 0-4 calls, repeated with other queries for 11 or more rounds under a counting allocator; non-trivial: some call on a tree with an inner node",
}

ASSUMPTIONS = [
    "generated-input search: cases that were not generated are not covered",
    "the oracles work in double precision and allow a few roundings of the type under test",
]


def log(*a):
    print(*a, file=sys.stderr, flush=True)


class NoAnswer(Exception):
    pass


# ------------------------------------------------------------------ building

def repo_hash():
    h = hashlib.sha256()
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(x for x in dirs if x not in (".git", "target", "node_modules"))
        for f in sorted(files):
            if f.endswith((".rs", ".toml", ".lock")):
                p = os.path.join(root, f)
                h.update(os.path.relpath(p, REPO).encode() + b"\0" + open(p, "rb").read() + b"\0")
    return h.hexdigest()


HARNESS_LOCK = threading.Lock()
HARNESS = []


def harness_dir():
    """the harness crate, with its dependency on the repository pointing at REPO"""
    with HARNESS_LOCK:
        if not HARNESS:
            HARNESS.append(make_harness_dir())
        return HARNESS[0]


def make_harness_dir():
    src = os.path.join(HERE, "harness")
    if REPO == "/repo":
        return src
    dst = os.path.join(WORK, "harness")
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(src, dst)
    p = os.path.join(dst, "Cargo.toml")
    t = open(p).read().replace('"/repo"', json.dumps(REPO))
    open(p, "w").write(t)
    return dst


BUILT = {}


def build(config):
    """compile one configuration from REPO's working tree; returns the binary (or module directory)"""
    if config in BUILT:
        return BUILT[config]
    name = config.replace(":", "-").replace("+", "-")
    target = os.path.join(TARGET, name)
    os.makedirs(target, exist_ok=True)
    env = {k: v for k, v in os.environ.items() if not k.startswith(("RUSTFLAGS", "CARGO_ENCODED", "RUSTC", "CARGO_PROFILE", "CARGO_BUILD"))}
    env.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
    with open(os.path.join(target, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        stamp = os.path.join(target, "repo-hash")
        now = repo_hash()
        if os.path.exists(stamp) and open(stamp).read() != now:
            # do not trust modification times of the repository's files
            for sub in ("release", "checked", "debug", NIGHTLY_TARGET + "/checked", NIGHTLY_TARGET + "/release"):
                fp = os.path.join(target, sub, ".fingerprint")
                if os.path.isdir(fp):
                    for x in os.listdir(fp):
                        if x.startswith(("fnntw-", "pyfnntw-", "fnntwh-")):
                            shutil.rmtree(os.path.join(fp, x), ignore_errors=True)
        if config == "python":
            env.update(PYO3_PYTHON=VENV_PY if os.path.exists(VENV_PY) else sys.executable, RUSTUP_TOOLCHAIN="stable",
                       CARGO_PROFILE_DEV_OPT_LEVEL="2", CARGO_PROFILE_DEV_DEBUG="0")
            cmd = ["cargo", "build", "-p", "pyfnntw", "--lib", "--offline", "--manifest-path", os.path.join(REPO, "Cargo.toml"), "--target-dir", target]
        else:
            features, profile = CONFIGS[config]
            cmd = ["cargo"] + (["+nightly"] if config == "asan" else ["+stable"]) + \
                ["build", "--offline", "--profile", profile, "--features", features, "--target-dir", target,
                 "--manifest-path", os.path.join(harness_dir(), "Cargo.toml")]
            if config == "asan":
                env["RUSTFLAGS"] = "-Zsanitizer=address -Cforce-frame-pointers=yes"
            if config == "guided":
                env["RUSTFLAGS"] = "-Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-inline-8bit-counters"
            if config in WITH_TARGET:
                cmd += ["--target", NIGHTLY_TARGET]  # for the library and the harness, not for build scripts
        r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise NoAnswer(f"building {config} failed:\n{r.stdout[-6000:]}")
        open(stamp, "w").write(now)
        if config == "python":
            out = os.path.join(target, "module")
            os.makedirs(out, exist_ok=True)
            shutil.copy(os.path.join(target, "debug", "libpyfnntw.so"), os.path.join(out, "pyfnntw.so"))
        else:
            sub = os.path.join(NIGHTLY_TARGET if config in WITH_TARGET else "", CONFIGS[config][1])
            out = os.path.join(target, sub, "fnntwh")
    BUILT[config] = out
    return out


def build_all(configs):
    t = time.time()
    if "python" not in configs and REPO != "/repo":
        harness_dir()
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        for f in [ex.submit(build, c) for c in configs]:
            f.result()
    log(f"built {', '.join(configs)} in {time.time() - t:.0f} s")


# ------------------------------------------------------------------ running

def limits(mem):
    def f():
        os.setpgid(0, 0)
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    return f


def child_env(config, threads):
    e = dict(os.environ)
    e["RAYON_NUM_THREADS"] = str(threads)
    e["MALLOC_ARENA_MAX"] = "16"  # arenas only reserve address space, which is limited
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:handle_abort=0:allocator_may_return_null=0"
    e.pop("RUST_BACKTRACE", None)
    return e


def mem_limit(config):
    return 0 if config in ("asan", "python") else 10 << 30


class Job:
    def __init__(self, prop, config, profile, seed, cases, threads, i, outdir):
        self.prop, self.config, self.profile, self.seed, self.cases, self.threads = prop, config, profile, seed, cases, threads
        self.out = os.path.join(outdir, f"{i}.json")
        self.cur = os.path.join(outdir, f"{i}.cur")
        self.err = os.path.join(outdir, f"{i}.err")


STOP = threading.Event()
RUNNING = set()
RLOCK = threading.Lock()


def spawn(cmd, config, threads, err):
    p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=open(err, "wb"), env=child_env(config, threads), preexec_fn=limits(mem_limit(config)))
    with RLOCK:
        RUNNING.add(p)
    return p


def reap(p, kill=False):
    if kill:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
    p.wait()
    with RLOCK:
        RUNNING.discard(p)


def tail(path, n=2500):
    try:
        return open(path, errors="replace").read()[-n:].strip()
    except OSError:
        return ""


def run_job(j):
    """-> report dict; may hold a violation"""
    if STOP.is_set():
        return None
    b = BUILT[j.config]
    if j.config == "python":
        cmd = ["python3-vt", os.path.join(HERE, "py", "worker.py"), j.prop, str(j.seed), str(j.cases), j.out, b]
    else:
        cmd = [b, "run", j.prop, j.profile, str(j.seed), str(j.cases), j.out, j.cur]
    p = spawn(cmd, j.config, j.threads, j.err)
    last, since = None, time.time()
    hung = False
    while True:
        try:
            p.wait(0.5)
            break
        except subprocess.TimeoutExpired:
            pass
        if STOP.is_set():
            reap(p, kill=True)
            return None
        try:
            c = open(j.cur).read()
        except OSError:
            c = None
        if c != last:
            last, since = c, time.time()
        elif time.time() - since > CASE_LIMIT and j.config != "python":
            hung = not os.path.exists(j.out)  # otherwise it is shrinking
            reap(p, kill=True)
            break
    reap(p)
    rc = p.returncode
    rep = json.load(open(j.out)) if os.path.exists(j.out) else None
    if rep is not None:
        rep["hashset"] = read_hashes(j, rep)
    if rc == 0 and rep:
        return rep
    if rep and "violation" in rep:  # also when shrinking crashed
        v = rep["violation"]
        v.update(config=j.config, profile=j.profile, threads=j.threads)
        STOP.set()
        if j.config != "python":
            isolate(j, v, rep["evaluations"])
        return rep
    if j.config == "python":
        raise NoAnswer(f"python worker ended with {rc}: {tail(j.err)} {tail(j.out + '.err')}")
    if hung or rc < 0:
        if rc == -signal.SIGKILL and not hung:
            raise NoAnswer(f"{j.prop}/{j.profile} ({j.config}) was killed, probably for lack of memory")
        STOP.set()
        return crash(j, rc, hung)
    raise NoAnswer(f"{j.prop}/{j.profile} ({j.config}) ended with {rc}: {tail(j.err)}")


def read_hashes(j, rep):
    if "hashes" in rep:
        return set(rep.pop("hashes"))
    try:
        raw = open(j.out + ".h", "rb").read()
    except OSError:
        return set()
    return {(j.profile, raw[i:i + 8]) for i in range(0, len(raw), 8)}


def one(config, threads, args, timeout, err):
    """run the harness once -> (status, hung)"""
    p = spawn([BUILT[config]] + args, config, threads, err)
    try:
        p.wait(timeout)
        reap(p)
        return p.returncode, False
    except subprocess.TimeoutExpired:
        reap(p, kill=True)
        return None, True


def crash(j, rc, hung):
    """a worker crashed (or hung): find the case, make it smaller"""
    what = f"did not end within {CASE_LIMIT} s" if hung else f"crashed with {signal.Signals(-rc).name}"
    err = tail(j.err)
    seed = int(open(j.cur).read() or 0)
    choices_file = j.out + ".choices"
    rc2, hung2 = one(j.config, j.threads, ["record", j.prop, j.profile, str(seed), choices_file, j.cur + ".choices"], CASE_LIMIT // 2, j.err + "2")
    choices = [int(x) for x in open(choices_file).read().split()] if os.path.exists(choices_file) else []
    again = hung2 if hung else (rc2 is not None and rc2 < 0)
    if hung and not again:
        # slow machine, or dependent on the history of the process: not evidence
        raise NoAnswer(f"{j.prop}/{j.profile} ({j.config}): a case took more than {CASE_LIMIT} s, but ends when run alone (seed {seed})")
    if again and not hung:
        choices = shrink_apart(j, choices)
    return {"evaluations": 1, "distinct_nontrivial": 0, "labels": {}, "samples": [], "hashset": set(),
            "violation": {"seed": seed, "choices": choices, "message": f"{what}: {err}", "case": describe(j, choices) if not hung else "",
                          "config": j.config, "profile": j.profile, "threads": j.threads, "reproduced": again}}


def isolate(j, v, evaluations):
    """make sure that the case fails in a process of its own; it may have depended on the cases before it"""
    f = j.out + ".try"
    original = v.pop("original", v["choices"])
    for _ in range(3):  # schedules differ
        if fails(j, v["choices"], f):
            v["reproduced"] = True
            return
    if original != v["choices"] and fails(j, original, f):
        v["choices"], v["reproduced"] = shrink_apart(j, original), True
        v["case"] = describe(j, v["choices"])
        return
    # replayed by generating the same cases again, in one process
    v["reproduced"] = False
    v["chunk"] = {"seed": j.seed, "cases": evaluations}


def fails(j, choices, f):
    json.dump(choices, open(f, "w"))
    rc, hung = one(j.config, j.threads, ["replay", j.prop, j.profile, f], 20, f + ".err")
    return hung or rc == 1 or (rc is not None and rc < 0)


def shrink_apart(j, c):
    """shrink a case, each attempt in its own process"""
    f = j.out + ".try"
    end = time.time() + 60
    block = max(1, len(c) // 2)
    if not fails(j, c, f):
        return c
    while block:
        i = 0
        while i + block <= len(c) and time.time() < end:
            d = c[:i] + c[i + block:]
            if fails(j, d, f):
                c = d
            else:
                i += block
        block //= 2
    for i in range(len(c)):
        for v in (0, 1, c[i] // 2):
            if v < c[i] and time.time() < end:
                d = c[:i] + [v] + c[i + 1:]
                if fails(j, d, f):
                    c = d
                    break
    return c


def describe(j, choices):
    """the case up to where it crashes is not printed by the harness; give the choices' meaning as far as known"""
    return f"replay with: run.py replay (choices {choices[:60]}{'...' if len(choices) > 60 else ''})"


# ------------------------------------------------------------------ checks

def chunk_seed(seed, *what):
    return int.from_bytes(hashlib.blake2b(repr((seed,) + what).encode(), digest_size=8).digest(), "big") >> 1


def known_findings(prop):
    """lines `known: property=<id> <substring of the message> :: <text>` of KNOWN_FINDINGS.txt"""
    r = []
    try:
        for l in open(os.path.join(HERE, "KNOWN_FINDINGS.txt")):
            m = re.match(r"known: property=(\S+) match=(.+?) :: (.*)", l.strip())
            if m and m[1] == prop:
                r.append((m[2], m[3]))
    except OSError:
        pass
    return r


def check(prop):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    factor = THOROUGH if tier == "thorough" else 1
    factor = float(os.environ.get("FNNTW_FACTOR", factor))
    plan = [] if os.environ.get("FNNTW_GUIDED") == "only" else [(cs, profile, n * factor) for cs, profile, n in PLAN[prop]]
    if tier == "thorough" or os.environ.get("FNNTW_GUIDED"):
        plan += [(("guided",), profile, n * factor / THOROUGH) for profile, n in GUIDED.get(prop, [])]
    configs = []
    for cs, _, _ in plan:
        configs += [c for c in cs if c not in configs]
    build_all(configs)
    built = time.time() - t0
    outdir = os.path.join(WORK, "target", "run", f"{prop}-{os.getpid()}")
    shutil.rmtree(outdir, ignore_errors=True)
    os.makedirs(outdir)
    jobs = []
    for cs, profile, n in plan:
        per = max(1, int(n) // len(cs))
        for c in cs:
            # every profile of every configuration over at least a few chunks, for even load
            chunks = max(2, min(CORES, 24 // len(cs))) if len(cs) <= 4 else 2
            if factor > 2:
                chunks *= 2
            chunks = min(chunks, per)
            for i in range(chunks):
                m = per // chunks + (i < per % chunks)
                threads = [2, 2, 4, 1, 2, 3, 2, 8][i % 8]
                jobs.append(Job(prop, c, profile, chunk_seed(seed, prop, profile, c, i), m, threads, len(jobs), outdir))
    # interleave the profiles
    jobs.sort(key=lambda j: chunk_seed(0, j.prop, j.profile, j.config, j.seed))
    reports, errors = [], []
    with concurrent.futures.ThreadPoolExecutor(CORES) as ex:
        futs = [ex.submit(run_job, j) for j in jobs]
        for f in concurrent.futures.as_completed(futs):
            try:
                r = f.result()
                if r:
                    reports.append(r)
            except NoAnswer as e:
                errors.append(str(e))
                STOP.set()
    ev = {"evaluations": 0, "labels": {}, "samples": []}
    hashes = set()
    viol = []
    for r in reports:
        ev["evaluations"] += r["evaluations"]
        hashes |= r["hashset"]
        for k, v in r["labels"].items():
            ev["labels"][k] = max(ev["labels"].get(k, 0), v) if k.startswith("guided: edges") else ev["labels"].get(k, 0) + v
        if "violation" in r:
            viol.append(r["violation"])
    per_profile, slowest = {}, {}
    for r in reports:
        k = r.get("profile", "?")
        per_profile[k] = per_profile.get(k, 0) + r["evaluations"]
        if "slowest" in r:
            slowest[k] = max(slowest.get(k, [0, 0]), r["slowest"])
    for r in sorted(reports, key=lambda r: str(r.get("profile"))):
        if len(ev["samples"]) < 16:
            ev["samples"] += [f"[{r.get('profile')}] {s}"[:1200] for s in r["samples"][-2:]]
    known = known_findings(prop)
    fresh = []
    for v in viol:
        hit = [t for m, t in known if m in v["message"]]
        if hit:
            print(f"KNOWN-FINDING: property={prop} {hit[0]}", flush=True)
        else:
            fresh.append(v)
    replays = []
    for v in fresh:
        replays.append(save_replay(prop, v))
    if not errors or fresh:
        os.makedirs(os.path.join(WORK, "evidence"), exist_ok=True)
        json.dump({
            "property": prop, "tier": tier, "seed": seed, "level": "exploration",
            "coverage": {
                "evaluations": ev["evaluations"], "distinct_nontrivial": len(hashes), "rule": RULES[prop],
                "samples": ev["samples"][:16], "cases_per_profile": per_profile, "classes": dict(sorted(ev["labels"].items())),
                "configurations": {c: CONFIGS[c][0] + " / " + CONFIGS[c][1] if c in CONFIGS else "pyfnntw with debug assertions" for c in configs},
                "build_s": round(built, 1), "slowest_case_s": {k: v[0] for k, v in slowest.items()},
                "found": [{"message": v["message"][:2000], "replay": p} for v, p in zip(fresh, replays)],
            },
            "violations": len(fresh),
            "assumptions": ASSUMPTIONS,
            "wall_s": round(time.time() - t0, 1),
        }, open(os.path.join(WORK, "evidence", f"{prop}.json"), "w"), indent=1)
    shutil.rmtree(outdir, ignore_errors=True)
    log(f"{prop}: {ev['evaluations']} cases, {len(hashes)} distinct non-trivial, {time.time() - t0:.0f} s ({built:.0f} s building)")
    if os.environ.get("FNNTW_DEBUG"):
        log(f"{prop}: slowest cases {slowest}")
    if fresh:
        for v, p in zip(fresh, replays):
            print(f"{prop} is violated: {v['message'][:1500]}")
            if v.get("case"):
                print(f"  case: {str(v['case'])[:1500]}")
            print(f"VIOLATION property={prop} replay={p}", flush=True)
        return 1
    if errors:
        print("no answer: " + "\n".join(errors)[:6000], flush=True)
        return 2
    return 0


def save_replay(prop, v):
    d = os.path.join(WORK, "replays")
    os.makedirs(d, exist_ok=True)
    v = dict(v, property=prop)
    h = hashlib.blake2b(json.dumps(v, sort_keys=True).encode(), digest_size=6).hexdigest()
    p = os.path.join(d, f"{prop}-{v['config']}-{h}.json".replace(":", "_").replace("+", "_"))
    json.dump(v, open(p, "w"), indent=1)
    return p


def replay(path):
    path = os.path.realpath(path)
    v = json.load(open(path))
    c = v["config"]
    build(c)
    if c == "python":
        return subprocess.call(["python3-vt", os.path.join(HERE, "py", "child.py"), BUILT[c], path])
    f = path + ".choices"
    json.dump(v["choices"], open(f, "w"))
    cmd = [BUILT[c], "replay", v["property"], v["profile"], f]
    if "chunk" in v:
        cmd = [BUILT[c], "run", v["property"], v["profile"], str(v["chunk"]["seed"]), str(v["chunk"]["cases"]), f + ".out", f + ".cur"]
    try:
        # several threads need not meet in the same way each time
        end = time.time() + (60 if v["property"] in ("C05", "C06", "C08", "C13") else 0)
        while True:
            r = subprocess.run(cmd, env=child_env(c, v.get("threads", 2)), timeout=600)
            if r.returncode or time.time() >= end:
                break
        if "chunk" in v and r.returncode == 1:
            print("violated, after the cases before it: " + json.load(open(f + ".out"))["violation"]["message"])
    except subprocess.TimeoutExpired:
        print("violated: does not end")
        return 1
    finally:
        for x in (f, f + ".out", f + ".out.h", f + ".cur"):
            if os.path.exists(x):
                os.unlink(x)
    if r.returncode < 0:
        print(f"violated: crashed with {signal.Signals(-r.returncode).name}")
        return 1
    return r.returncode


def main():
    a = sys.argv[1:]
    try:
        if len(a) == 2 and a[0] == "check" and a[1] in PLAN:
            return check(a[1])
        if len(a) == 2 and a[0] == "replay":
            return replay(a[1])
        if a == ["selftest"]:
            # the toolchains and the interpreter the checks need are there, and the default configuration compiles
            for c in (["cargo", "+stable", "--version"], ["cargo", "+nightly", "--version"], ["python3-vt", "-c", "import numpy, hypothesis"]):
                subprocess.run(c, check=True, stdout=subprocess.DEVNULL)
            build_all([A])
            return 0
        if a == ["build"]:
            build_all(["python"] + [c for c in CONFIGS])
            return 0
    except NoAnswer as e:
        print(f"no answer: {e}", flush=True)
        return 2
    except Exception:
        traceback.print_exc()
        print("no answer: the driver failed", flush=True)
        return 2
    finally:
        with RLOCK:
            for p in list(RUNNING):
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
