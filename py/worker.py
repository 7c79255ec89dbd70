"""worker.py PROP SEED CASES OUT MODULE_DIR: a campaign of generated cases (hypothesis), each executed in a
child process, so that crashes and hangs are failures like any other and shrink like any other."""
import hashlib
import json
import os
import select
import signal
import subprocess
import sys
import time
import warnings

from hypothesis import HealthCheck, Phase, given, seed, settings, strategies as st
from hypothesis.errors import HypothesisException

warnings.simplefilter("ignore")
PROP, SEED, CASES, OUT, MOD = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4], sys.argv[5]
HERE = os.path.dirname(os.path.abspath(__file__))
LIMIT = 120  # seconds; cases take milliseconds


class Child:
    p = None

    def start(self):
        r, w = os.pipe()
        self.err = open(OUT + ".err", "wb")

        self.p = subprocess.Popen([sys.executable, os.path.join(HERE, "child.py"), MOD, "--fd", str(w)], stdin=subprocess.PIPE,
                                  stdout=subprocess.DEVNULL, stderr=self.err, pass_fds=(w,), text=True)
        os.close(w)
        self.r = os.fdopen(r, "r")
        self.buf = ""

    def stop(self):
        if self.p:
            self.p.kill()
            self.p.wait()
            self.r.close()
            self.p = None

    def ask(self, case):
        if self.p is None:
            self.start()
        try:
            self.p.stdin.write(json.dumps(case) + "\n")
            self.p.stdin.flush()
        except BrokenPipeError:
            pass
        if not select.select([self.r], [], [], LIMIT)[0]:
            self.stop()
            return {"ok": False, "message": f"did not end within {LIMIT} s"}
        line = self.r.readline()
        if line:
            return json.loads(line)
        rc = self.p.wait()
        self.stop()
        tail = open(OUT + ".err", errors="replace").read()[-1500:]
        if rc >= 0:
            # the harness itself failed
            print("child failed:", tail, file=sys.stderr)
            sys.exit(3)
        return {"ok": False, "message": f"crashed with {signal.Signals(-rc).name}: {tail.strip()[-600:]}"}


child = Child()

# ---------------------------------------------------------------- generators

coord = st.one_of(
    st.integers(0, 8).map(float),
    st.integers(-40, 40).map(lambda x: x / 8),
    st.floats(-1e6, 1e6, allow_nan=False, width=32),
    st.floats(0, 1, width=32),
)


@st.composite
def points(draw, d, small=False):
    if draw(st.integers(0, 3)) < 2:
        n = draw(st.integers(1, 12))
        if draw(st.integers(0, 2)) == 0:
            pool = draw(st.lists(coord, min_size=1, max_size=4))
            return [[draw(st.sampled_from(pool)) for _ in range(d)] for _ in range(n)]
        return [[draw(coord) for _ in range(d)] for _ in range(n)]
    n = draw(st.one_of(st.integers(1, 60), st.integers(20, 500)))
    if not small and draw(st.integers(0, 25)) == 25:
        n = draw(st.sampled_from([3000, 20000, 20001, 60000, 100000, 110003]))
    return {
        "layout": draw(st.sampled_from(["uniform", "lattice", "clustered", "sorted", "identical", "line", "normal"])),
        "n": n, "seed": draw(st.integers(0, 2**31)), "m": draw(st.integers(1, 6)),
        "scale": draw(st.sampled_from([1.0, 1.0, 100.0, 1e-3])), "offset": draw(st.sampled_from([0.0, 0.0, 10.0])),
    }


@st.composite
def leaf(draw):
    return draw(st.one_of(st.integers(1, 4), st.sampled_from([16, 32, 8, 100]), st.integers(0, 600), st.sampled_from([0, 2**63, 2**64 - 1])))


level = st.one_of(st.none(), st.integers(0, 3), st.integers(0, 5))
kk = st.one_of(st.none(), st.integers(1, 5), st.integers(0, 40), st.sampled_from([1, 500, 2**40]))


@st.composite
def c17(draw):
    d = draw(st.integers(2, 3))
    boxed = draw(st.booleans())
    data = draw(points(d))
    calls = []
    for _ in range(draw(st.integers(1, 4))):
        if draw(st.booleans()):
            q = [[draw(coord) for _ in range(d)] for _ in range(draw(st.integers(0, 4)))]
        else:
            m = draw(st.integers(1, 40))
            if draw(st.integers(0, 9)) == 9:
                m = draw(st.one_of(st.integers(41, 600), st.integers(600, 150000), st.sampled_from([1000, 1024, 4097, 10000, 65537])))
            q = {"n": m, "seed": draw(st.integers(0, 2**31))}
        calls.append({"q": q, "k": draw(kk), "axis": draw(st.one_of(st.none(), st.integers(0, 2))), "explicit_none": draw(st.booleans())})
    return {
        "property": "C17", "dtype": draw(st.sampled_from(["f64", "f32"])), "d": d, "data": data, "nonneg": boxed,
        "leafsize": draw(leaf()), "psl": draw(level), "explicit_none": draw(st.booleans()),
        "box": {"grow": [draw(st.sampled_from([1.0, 1.0625, 2.0, 1.5])) for _ in range(3)],
                "add": [draw(st.sampled_from([0.0, 1.0, 0.25, 100.0])) for _ in range(3)]} if boxed else None,
        "calls": calls,
    }


LAYOUT = ["misaligned", "byte-swapped", "fortran", "row-step", "column-step", "reversed", "column-slice", "transposed"]
DATA = ["nan", "inf", "-inf", "empty", "other-float", "integers", "one-dimensional", "three-dimensional", "narrow", "wide",
        "one-column", "four-columns", "no-columns", "list", "none"] + LAYOUT
QUERY = ["nan", "inf", "-inf", "other-float", "integers", "one-dimensional", "three-dimensional", "narrow", "wide",
         "one-column", "no-columns", "list", "none"] + LAYOUT
BOX = ["short", "long", "empty", "small", "negative", "nan", "inf", "negative-data", "other-float", "two-dimensional", "step", "misaligned"]


@st.composite
def act(draw, d, first):
    do = "new" if first else draw(st.sampled_from(["new", "query", "bad-new", "bad-query", "bad-box", "forget", "forget", "drop", "bad-arg", "bad-query-arg", "threads", "release"]))
    a = {"do": do, "seed": draw(st.integers(0, 2**31))}
    if do in ("new", "bad-new", "bad-box", "bad-arg", "release"):
        a.update(data=draw(points(d, small=True)), leafsize=draw(leaf()), psl=draw(level))
    if do == "new":
        a.update(box=draw(st.booleans()), owner=draw(st.sampled_from(["own", "view", "buffer", "readonly"])))
    if do in ("query", "bad-query"):
        a.update(k=draw(kk), axis=draw(st.one_of(st.none(), st.integers(0, 2))), scribble=draw(st.booleans()))
    kinds = {"bad-new": DATA, "bad-query": QUERY, "bad-box": BOX,
             "bad-arg": ["leaf-negative", "leaf-none", "leaf-float", "leaf-huge", "level-negative", "level-float"],
             "bad-query-arg": ["axis", "axis-far", "axis-negative", "k-negative", "k-float", "axis-alone", "k-huge", "axis-float"]}
    if do in kinds:
        a["kind"] = draw(st.sampled_from(kinds[do]))
    a["m"] = draw(st.integers(0, 20))
    return a


@st.composite
def c18(draw):
    d = draw(st.integers(2, 3))
    return {"property": "C18", "dtype": draw(st.sampled_from(["f64", "f32"])), "d": d,
            "acts": [draw(act(d, i == 0)) for i in range(draw(st.integers(2, 14)))]}


# ---------------------------------------------------------------- campaign

state = {"n": 0, "hashes": set(), "labels": {}, "samples": [], "fail": None, "shrinks": 0, "t_fail": None}


def execute(case):
    if state["t_fail"] is not None:
        state["shrinks"] += 1
        if time.time() - state["t_fail"] > 60:
            # enough shrinking: everything else counts as passing, except the best failure so far
            if json.dumps(case) != state["fail"][2]:
                return
    else:
        state["n"] += 1
    v = child.ask(case)
    if v["ok"]:
        if state["t_fail"] is None:
            if v["nontrivial"]:
                h = hashlib.blake2b(json.dumps(case, sort_keys=True).encode(), digest_size=8).hexdigest()
                if h not in state["hashes"]:
                    state["hashes"].add(h)
                    if len(state["samples"]) < 8 and (len(state["hashes"]) & (len(state["hashes"]) - 1)) == 0:
                        state["samples"].append(json.dumps(case)[:1500])
            for l in v["labels"]:
                state["labels"][l] = state["labels"].get(l, 0) + 1
        return
    if state["t_fail"] is None:
        state["t_fail"] = time.time()
    size = len(json.dumps(case))
    if state["fail"] is None or size <= state["fail"][3]:
        state["fail"] = (case, v["message"], json.dumps(case), size)
    raise AssertionError("violated")


@seed(SEED)
@settings(max_examples=CASES, database=None, deadline=None, report_multiple_bugs=False, print_blob=False,
          suppress_health_check=list(HealthCheck), phases=[Phase.generate, Phase.shrink])
@given({"C17": c17, "C18": c18}[PROP]())
def campaign(case):
    execute(case)


t0 = time.time()
try:
    campaign()
except AssertionError:
    pass
except HypothesisException as e:
    if state["fail"] is None:
        print("hypothesis:", repr(e), file=sys.stderr)
        child.stop()
        sys.exit(3)
except BaseException:
    if state["fail"] is None:
        child.stop()
        raise
child.stop()
rep = {"prop": PROP, "profile": "python", "evaluations": state["n"], "distinct_nontrivial": len(state["hashes"]),
       "hashes": sorted(state["hashes"]), "labels": state["labels"], "samples": state["samples"], "wall": round(time.time() - t0, 2)}
if state["fail"]:
    rep["violation"] = {"case": state["fail"][0], "message": state["fail"][1]}
with open(OUT + ".tmp", "w") as f:
    json.dump(rep, f)
os.rename(OUT + ".tmp", OUT)
sys.exit(1 if state["fail"] else 0)
