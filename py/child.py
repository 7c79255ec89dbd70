"""Executes one case against the compiled Python module and judges it.

child.py MODULE_DIR --fd N     serves cases (one JSON per line on stdin, one JSON verdict per line on fd N)
child.py MODULE_DIR CASE.json  runs one case
"""
import gc
import json
import os
import sys

import numpy as np

sys.setrecursionlimit(20000)

DT = {"f64": np.float64, "f32": np.float32}


# ---------------------------------------------------------------- inputs

def points(spec, d, dtype):
    """inline rows, or a named layout drawn from a seed"""
    if isinstance(spec, list):
        return np.array(spec, dtype=dtype).reshape(-1, d)
    r = np.random.default_rng(spec["seed"])
    n, lay = spec["n"], spec["layout"]
    if lay == "uniform":
        x = r.random((n, d))
    elif lay == "lattice":
        x = r.integers(0, spec.get("m", 4), (n, d)).astype(float)
    elif lay == "clustered":
        c = r.random((3, d))
        x = c[r.integers(0, 3, n)] + 1e-4 * r.random((n, d))
    elif lay == "sorted":
        x = r.random((n, d))
        x = x[np.argsort(x[:, 0])]
    elif lay == "identical":
        x = np.tile(r.random(d), (n, 1))
    elif lay == "line":
        x = np.tile(np.arange(n, dtype=float)[:, None], (1, d))
    else:
        x = r.normal(size=(n, d))
    x = x * spec.get("scale", 1.0) + spec.get("offset", 0.0)
    return np.ascontiguousarray(x.astype(dtype))


def queries(spec, data, box, dtype):
    """inline rows, or points at, near and away from the data"""
    d = data.shape[1]
    if isinstance(spec, list):
        q = np.array(spec, dtype=dtype).reshape(-1, d)
    else:
        r = np.random.default_rng(spec["seed"])
        m = spec["n"]
        base = data[r.integers(0, len(data), m)].astype(float)
        kind = r.integers(0, 4, m)[:, None]
        span = np.ptp(data.astype(float), axis=0) + 1e-3
        q = np.where(kind == 0, base, np.where(kind == 1, base + 1e-3 * span * r.normal(size=(m, d)),
                     np.where(kind == 2, data.min(0) + span * r.random((m, d)), base + span * r.normal(size=(m, d)))))
        q = q.astype(dtype)
    if box is not None and len(q):
        b = np.array(box, dtype=dtype)
        q = np.where((q < 0) | (q > b), np.mod(np.where(np.isfinite(q), q, 0), b).astype(dtype), q)
        q = np.minimum(np.maximum(q, 0), b)
        if isinstance(spec, dict):  # zeros of either sign are the same number
            s = np.random.default_rng(spec["seed"] + 1).integers(0, 6, q.shape) == 0
            q = np.where(q == 0, np.where(s, -dtype(0), dtype(0)), q)
    return np.ascontiguousarray(q.astype(dtype))


# ---------------------------------------------------------------- oracle

class Bad(Exception):
    pass


class Oracle:
    def __init__(self, data, box, dtype):
        self.data = data.astype(np.float64)
        self.box = None if box is None else np.array(box, dtype=dtype).astype(np.float64)
        self.eps = float(np.finfo(dtype).eps)
        self.tiny = float(np.finfo(dtype).tiny)
        self.d = data.shape[1]
        self.lmax = 0.0 if box is None else float(self.box.max())

    def tol(self, x):
        d = self.d
        return x * self.eps * 2 * (d + 4) + (self.tiny * 8 * d) ** 0.5 + self.lmax * self.eps * 4 * d

    def images(self, q, plus):
        q = q.astype(np.float64)
        if self.box is None:
            return q[None, :]
        low = (q < self.box * 0.5) | (plus & (q == self.box * 0.5))
        other = np.where(low, q + self.box, q - self.box)
        masks = np.array([[m >> a & 1 for a in range(self.d)] for m in range(1 << self.d)], dtype=bool)
        return np.where(masks, other, q)

    def ambiguous(self, q):
        return self.box is not None and bool((q.astype(np.float64) == self.box * 0.5).any())

    def cands(self, q, axis, plus):
        """(point, image): total distance, along the axis, the rest, index; unsorted"""
        im = self.images(q, plus)
        diff = im[:, None, :] - self.data[None, :, :]
        sq = diff * diff
        ax = sq[:, :, axis]
        tot = sq.sum(axis=2)
        non = tot - ax if self.d > 1 else np.zeros_like(tot)
        non = np.delete(sq, axis, axis=2).sum(axis=2)
        idx = np.broadcast_to(np.arange(len(self.data)), tot.shape)
        return np.sqrt(tot).ravel(), np.sqrt(ax).ravel(), np.sqrt(non).ravel(), idx.ravel()

    def min_dist(self, q):
        t = np.abs(q.astype(np.float64)[None, :] - self.data)
        if self.box is not None:
            t = np.maximum(np.minimum(t, self.box - t), 0)
        return np.sqrt((t * t).sum(axis=1))

    def check_one(self, q, dist, idx):
        if not 0 <= idx < len(self.data):
            raise Bad(f"nearest neighbour of {q.tolist()}: index {idx} of {len(self.data)} points")
        own = self.min_dist(q)
        best = own.min()
        if not abs(dist - own[idx]) <= self.tol(own[idx]):
            raise Bad(f"nearest neighbour of {q.tolist()}: distance {dist!r} reported with point {idx} at {own[idx]!r}")
        if not dist <= best + self.tol(best):
            raise Bad(f"nearest neighbour of {q.tolist()}: distance {dist!r} (point {idx}) but the nearest is at {best!r}")

    def check_k(self, q, k, dist, idx):
        try:
            self._k(q, k, dist, idx, False)
        except Bad:
            if not self.ambiguous(q):
                raise
            self._k(q, k, dist, idx, True)

    def _k(self, q, k, dist, idx, plus):
        n = len(self.data)
        w = min(k, n)
        what = f"k={k} nearest of {q.tolist()}"
        tot = self.cands(q, 0, plus)[0]
        best = np.sort(np.partition(tot, w - 1)[:w]) if 0 < w < len(tot) else np.sort(tot)[:w]
        per = tot.reshape(-1, n)
        if (np.diff(dist) < 0).any():
            raise Bad(f"{what}: distances not sorted: {dist.tolist()}")
        off = np.abs(dist.astype(np.float64) - best) > self.tol(best)
        if off.any() or not np.isfinite(dist).all():
            j = int(np.argmax(off))
            raise Bad(f"{what}: {j}-th distance {dist[j]!r} instead of {best[j]!r}")
        if ((idx < 0) | (idx >= n)).any():
            raise Bad(f"{what}: indices {idx.tolist()} of {n} points")
        by = {}
        for j, i in enumerate(idx.tolist()):
            by.setdefault(i, []).append(j)
        for i, js in by.items():
            own = np.sort(per[:, i])
            if len(js) > len(own):
                raise Bad(f"{what}: point {i} listed {len(js)} times")
            for m, j in enumerate(js):
                if not abs(float(dist[j]) - own[m]) <= self.tol(own[m]):
                    raise Bad(f"{what}: {j}-th entry names point {i} at {dist[j]!r}, which is at {own[m]!r}")

    def check_axis(self, q, k, axis, ax, non):
        try:
            self._axis(q, k, axis, ax, non, False)
        except Bad:
            if not self.ambiguous(q):
                raise
            self._axis(q, k, axis, ax, non, True)

    def _axis(self, q, k, axis, ax, non, plus):
        what = f"k={k} nearest of {q.tolist()} with axis {axis} apart"
        tot, cax, cnon, _ = self.cands(q, axis, plus)
        w = len(ax)
        if 0 < w < len(tot):
            # only candidates that could be among the first w
            top = np.partition(tot, w - 1)[w - 1]
            near = np.flatnonzero(tot <= top + 8 * self.tol(top))
            tot, cax, cnon = tot[near], cax[near], cnon[near]
        order = np.argsort(tot, kind="stable")
        tot, cax, cnon = tot[order], cax[order], cnon[order]
        ax, non = ax.astype(np.float64), non.astype(np.float64)
        if not ((ax >= 0) & (non >= 0)).all():
            raise Bad(f"{what}: {ax.tolist()}, {non.tolist()}")
        got = np.hypot(ax, non)
        t = 2 * self.tol(tot[: len(got)])
        off = ~(np.abs(got - tot[: len(got)]) <= t)
        if off.any():
            j = int(np.argmax(off))
            raise Bad(f"{what}: {j}-th entry ({ax[j]}, {non[j]}), together {got[j]}, instead of {tot[j]}")
        fits, owner = [], {}

        def augment(j, tried):
            for c in fits[j]:
                if c not in owner:
                    owner[c] = j
                    return True
            for c in fits[j]:
                if c not in tried:
                    tried.add(c)
                    if augment(owner[c], tried):
                        owner[c] = j
                        return True
            return False

        for j in range(len(got)):
            lo, hi = np.searchsorted(tot, [got[j] - 2 * t[j], got[j] + 2 * t[j]])
            hi = min(len(tot), hi + 1)
            a, b = cax[lo:hi], cnon[lo:hi]
            ok = (np.abs(a - ax[j]) <= self.tol(a) + self.tol(0)) & (np.abs(b - non[j]) <= self.tol(b) + self.tol(0))
            fits.append((np.flatnonzero(ok) + lo).tolist())
            if not augment(j, set()):
                raise Bad(f"{what}: {j}-th entry ({ax[j]}, {non[j]}) belongs to no (further) point")


# ---------------------------------------------------------------- C17

def tree_of(mod, dtype, *a, **k):
    return (mod.Treef64 if dtype == np.float64 else mod.Treef32)(*a, **k)


def check_answer(o, tree_n, q, k, axis, res, dtype, rows=None):
    m = len(q)
    a, b = res
    if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)):
        raise Bad("the results are not arrays")
    w = min(1 if k is None else k, tree_n)
    shape = (m,) if axis is None and (k is None or k == 1) else (m, w)
    if a.shape != shape or b.shape != shape:
        raise Bad(f"shapes {a.shape} and {b.shape} instead of {shape}")
    if a.dtype != dtype:
        raise Bad(f"distances of type {a.dtype}")
    if axis is None and b.dtype.kind not in "ui":
        raise Bad(f"indices of type {b.dtype}")
    if axis is not None and b.dtype != dtype:
        raise Bad(f"distances of type {b.dtype}")
    for i in range(m) if rows is None else rows:
        if axis is not None:
            o.check_axis(q[i], w, axis, a[i], b[i])
        elif len(shape) == 1:
            o.check_one(q[i], float(a[i]), int(b[i]))
        else:
            o.check_k(q[i], k, a[i], b[i])


def alike(o, a, b, axis):
    """do two results hold the same distances?"""
    if axis is None:
        return np.array_equal(a[0], b[0])
    x, y = [np.hypot(r[0].astype(np.float64), r[1].astype(np.float64)) for r in (a, b)]
    return x.shape == y.shape and bool((np.abs(x - y) <= 2 * o.tol(x)).all())


def c17(mod, s):
    dtype = DT[s["dtype"]]
    d = s["d"]
    data = points(s["data"], d, dtype)
    if s.get("nonneg"):
        data = np.ascontiguousarray(data - data.min(0))
    if isinstance(s["data"], dict) and s["data"]["seed"] % 8 == 0:  # zeros of either sign are the same number
        sign = np.random.default_rng(s["data"]["seed"] + 1).integers(0, 2, data.shape)
        data = np.ascontiguousarray(np.where(data == 0, np.where(sign == 1, -dtype(0), dtype(0)), data))
    box = s.get("box")
    labels = [s["dtype"], f"D={d}"]
    if box is not None:
        top = data.max(0)
        box = [float(x) for x in np.maximum((top * np.array(box["grow"][:d]) + np.array(box["add"][:d])).astype(dtype), np.maximum(top, dtype(1e-20)))]
        labels.append("box")
    args = dict(data=data, leafsize=s["leafsize"])
    if s["psl"] is not None or s.get("explicit_none"):
        args["par_split_level"] = s["psl"]
    if box is not None:
        args["boxsize"] = np.array(box, dtype=dtype)
    before = data.tobytes()
    tree = tree_of(mod, dtype, **args)
    o = Oracle(data, box, dtype)
    nontrivial = False
    for c in s["calls"]:
        q = queries(c["q"], data, box, dtype)
        k, axis = c["k"], c["axis"]
        if k is not None and k > 100 and len(data) > 100:
            k = 100 + k % 20 if len(data) > 500 else k
        if len(q) > 1000:
            k = k if k is None else min(k, 12)
        if len(data) * len(q) * (1 << d if box else 1) > 60_000:
            rows = list(range(0, len(q), max(1, len(q) // 3 if len(data) > 2000 else len(q) // 8))) + [len(q) - 1]
        else:
            rows = None
        kw = {}
        if k is not None or c.get("explicit_none"):
            kw["k"] = k
        if axis is not None:
            axis %= d
            kw["axis"] = axis
        asked = q.tobytes()
        form = len(asked) // dtype().itemsize % 5
        if form == 1:  # arrays that are only read may be read-only
            q.flags.writeable = False
        elif form == 2:  # numpy's integers are integers
            kw = {a: None if x is None else np.int64(x) for a, x in kw.items()}
        elif form == 3:  # points in the middle of another array
            whole = np.vstack([q + dtype(1), q, q])
            q = whole[len(q): 2 * len(q)]
            del whole
        try:
            res = tree.query(q, **kw)
        except Exception as e:
            raise Bad(f"query of {len(q)} points with {kw} raised {type(e).__name__}: {e}")
        if q.tobytes() != asked:
            raise Bad(f"{kw}, {len(q)} queries: the array of the query points was changed")
        try:
            check_answer(o, len(data), q, k, axis, res, dtype, rows)
        except Bad as e:
            raise Bad(f"{kw}, {len(q)} queries, {len(data)} points: {e}")
        if len(q) > 16:
            # the same points in another order, and in parts
            labels.append("many-queries" if len(q) > 1000 else "asked-in-another-order")
            again = tree.query(np.ascontiguousarray(q[::-1]), **kw)
            if not alike(o, res, [x[::-1] for x in again], axis):
                raise Bad(f"{kw}, {len(q)} queries, {len(data)} points: in reverse order they are answered differently")
            cut = len(q) // 3
            parts = [tree.query(np.ascontiguousarray(x), **kw) for x in (q[:cut], q[cut:])]
            if not alike(o, res, [np.concatenate(x) for x in zip(*parts)], axis):
                raise Bad(f"{kw}, {len(q)} queries, {len(data)} points: in two parts they are answered differently")
        labels.append("axis" if axis is not None else "k" if k not in (None, 1) else "nearest")
        if k is not None and k > len(data):
            labels.append("k>n")
        if len(q) == 0:
            labels.append("no-queries")
        nontrivial |= len(data) > 2 and len(q) > 0 and k != 0
    if len(data) >= 100_000:
        labels.append("n>=100000")
    if data.tobytes() != before:
        raise Bad("the array the tree was built from was changed")
    return labels, nontrivial


# ---------------------------------------------------------------- C18

def misaligned(x):
    """the same, at an address that is no multiple of the size of an element"""
    y = np.frombuffer(bytearray(x.nbytes + 1), dtype=x.dtype, offset=1, count=x.size).reshape(x.shape)
    y[...] = x
    return y


def spoil(kind, arr, dtype, r):
    """an array the module cannot serve; None where the kind does not apply"""
    d = arr.shape[1]
    i, a = int(r.integers(0, max(1, len(arr)))), int(r.integers(0, d))
    x = arr.copy()
    if kind in ("nan", "inf", "-inf"):
        if not len(x):
            return None
        x[i, a] = {"nan": np.nan, "inf": np.inf, "-inf": -np.inf}[kind]
    elif kind == "fortran":
        x = np.asfortranarray(np.vstack([x, x]))
    elif kind == "row-step":
        x = np.vstack([x, x, x])[::2]
    elif kind == "column-step":
        x = np.hstack([x, x])[:, ::2]
    elif kind == "reversed":
        x = np.vstack([x, x])[::-1]
    elif kind == "column-slice":
        x = np.hstack([x, x])[:, :d]
    elif kind == "transposed":
        x = np.ascontiguousarray(np.vstack([x, x]).T).T
    elif kind == "misaligned":
        x = misaligned(x)
    elif kind == "byte-swapped":
        x = x.astype(x.dtype.newbyteorder())
    elif kind == "other-float":
        x = x.astype(np.float32 if dtype == np.float64 else np.float64)
    elif kind == "integers":
        x = x.astype(np.int64)
    elif kind == "one-dimensional":
        x = x.ravel()
    elif kind == "three-dimensional":
        x = x[None]
    elif kind == "narrow":
        x = np.ascontiguousarray(x[:, : d - 1])
    elif kind == "wide":
        x = np.ascontiguousarray(np.hstack([x, x])[:, : d + 1])
    elif kind == "one-column":
        x = np.ascontiguousarray(x[:, :1])
    elif kind == "four-columns":
        x = np.ascontiguousarray(np.hstack([x, x])[:, :4])
    elif kind == "no-columns":
        x = np.zeros((len(x), 0), dtype)
    elif kind == "list":
        x = x.tolist()
    elif kind == "none":
        x = None
    elif kind == "empty":
        x = x[:0].copy()
    else:
        raise AssertionError(kind)
    return x


# layouts that a future version may learn to serve: a right answer is as good as a refusal
LAYOUT = {"misaligned", "byte-swapped", "fortran", "row-step", "column-step", "reversed", "column-slice", "transposed"}


def attempt(f):
    try:
        return f(), None
    except Exception as e:
        return None, e
    except BaseException as e:
        raise Bad(f"{type(e).__name__}, which is not an ordinary exception: {e}")


class Slot:
    pass


def snapshot(res):
    return tuple(x.copy() for x in res)


def same(a, b):
    return a[0].tobytes() == b[0].tobytes() and a[1].shape == b[1].shape


def c18(mod, s):
    dtype = DT[s["dtype"]]
    d = s["d"]
    labels = [s["dtype"], f"D={d}"]
    slots = []
    kept = []  # (arrays returned, their contents at the time)
    refused = 0
    dropped = 0

    def still_right(sl):
        r, e = attempt(lambda: sl.tree.query(sl.q, k=sl.k))
        if e is not None:
            raise Bad(f"a query that succeeded before raised {type(e).__name__}: {e}")
        if not same(r, sl.first):
            raise Bad(f"a tree's answer changed: {sl.first[0].tolist()[:5]} then {r[0].tolist()[:5]}")

    def refuse(what, f, or_correct=None):
        nonlocal refused
        r, e = attempt(f)
        if e is None:
            if or_correct is None:
                raise Bad(f"{what} was accepted: {r!r}")
            or_correct(r)
            return
        if not str(e):
            raise Bad(f"{what} raised {type(e).__name__} without a message")
        refused += 1
        labels.append(what.split(":")[0])

    def build(sp, data, box):
        kw = {} if box is None else {"boxsize": np.array(box, dtype=dtype)}
        return tree_of(mod, dtype, data, sp["leafsize"], sp["psl"], **kw)

    for act in s["acts"]:
        r = np.random.default_rng(act["seed"])
        what = act["do"]
        if what == "new":
            data = points(act["data"], d, dtype)
            if len(data) == 0:
                continue
            data = np.ascontiguousarray(np.abs(data) + dtype(0))
            box = [float(x) for x in (data.max(0) * dtype(1.25) + dtype(1)).astype(dtype)] if act["box"] else None
            sl = Slot()
            if act["owner"] == "view":
                at = len(data) * int(r.integers(0, 2))
                whole = np.vstack([data, data + dtype(1)] if at == 0 else [data + dtype(1), data])
                arr = whole[at: at + len(data)]
                del whole
            elif act["owner"] == "buffer":
                arr = np.frombuffer(bytearray(data.tobytes()), dtype=dtype).reshape(data.shape)
            elif act["owner"] == "readonly":
                arr = data.copy()
                arr.flags.writeable = False
            else:
                arr = data.copy()
            t, e = attempt(lambda: build(act, arr, box))
            if e is not None:
                raise Bad(f"building from good data ({act['owner']}) raised {type(e).__name__}: {e}")
            sl.tree, sl.data, sl.box, sl.spec = t, data, box, act
            sl.arr = arr
            del arr
            sl.q = queries({"n": 5, "seed": act["seed"]}, data, box, dtype)
            sl.k = 1 + int(r.integers(0, 4))
            res, e = attempt(lambda: t.query(sl.q, k=sl.k))
            if e is not None:
                raise Bad(f"a good query raised {type(e).__name__}: {e}")
            o = Oracle(data, box, dtype)
            check_answer(o, len(data), sl.q, sl.k, None, res, dtype)
            sl.first = snapshot(res)
            kept.append((res, snapshot(res)))
            slots.append(sl)
        elif what == "bad-new":
            data = points(act["data"], d, dtype)
            if len(data) == 0:
                continue
            data = np.ascontiguousarray(np.abs(data) + dtype(0))
            if act["kind"] == "wide" and d == 2:
                act["kind"] = "four-columns"
            if act["kind"] == "narrow" and d == 3:
                act["kind"] = "one-column"
            x = spoil(act["kind"], data, dtype, r)
            if x is None and act["kind"] != "none":
                continue
            if act["kind"] in LAYOUT and x.flags.c_contiguous and x.flags.aligned and x.dtype.isnative:
                continue

            def right(t, x=x):
                y = np.array(x, dtype=dtype, order="C", copy=True)
                q = queries({"n": 4, "seed": act["seed"]}, y, None, dtype)
                check_answer(Oracle(y, None, dtype), len(y), q, 2, None, t.query(q, k=2), dtype)

            refuse(f"data {act['kind']}: {getattr(x, 'shape', None)}", lambda: build(act, x, None), right if act["kind"] in LAYOUT else None)
            del x
        elif what == "bad-box":
            data = points(act["data"], d, dtype)
            if len(data) == 0:
                continue
            data = np.ascontiguousarray(np.abs(data) + dtype(1))
            box = (data.max(0) * dtype(1.25)).astype(dtype)
            a = int(r.integers(0, d))
            kind = act["kind"]
            if kind == "short":
                box = box[:-1]
            elif kind == "long":
                box = np.append(box, box[0])
            elif kind == "empty":
                box = box[:0]
            elif kind == "small":
                box[a] = data[:, a].max() * dtype(0.999)
            elif kind == "negative":
                box[a] = -box[a]
            elif kind == "nan":
                box[a] = np.nan
            elif kind == "inf":
                box[a] = np.inf
            elif kind == "negative-data":
                data[int(r.integers(0, len(data))), a] = -1
            elif kind == "other-float":
                box = box.astype(np.float32 if dtype == np.float64 else np.float64)
            elif kind == "two-dimensional":
                box = box[None]
            elif kind == "misaligned":
                box = misaligned(box)
            elif kind == "step":
                box = np.repeat(box, 2)[::2]

            def right_box(t, data=data, box=box):
                q = queries({"n": 4, "seed": act["seed"]}, data, box.copy(), dtype)
                check_answer(Oracle(data, [float(v) for v in box], dtype), len(data), q, 2, None, t.query(q, k=2), dtype)

            refuse(f"box {kind}: {box.tolist()}", lambda: tree_of(mod, dtype, data, act["leafsize"], act["psl"], box),
                   right_box if kind in ("step", "misaligned") else None)
        elif what == "bad-arg":
            data = points(act["data"], d, dtype)
            if len(data) == 0:
                continue
            bad = {"leaf-negative": (-1, None), "leaf-none": (None, None), "leaf-float": (1.5, None), "leaf-huge": (1 << 70, None),
                   "level-negative": (4, -1), "level-float": (4, 0.5)}[act["kind"]]
            refuse(f"argument {act['kind']}: {bad}", lambda: tree_of(mod, dtype, data, *bad))
        elif what == "release":
            # whatever a tree, a query or a refused call refers to is let go in the end
            data = points(act["data"], d, dtype)
            if len(data) == 0:
                continue
            data = np.ascontiguousarray(np.abs(data) + dtype(0))
            box = (data.max(0) * dtype(1.25) + dtype(1)).astype(dtype) if act["m"] % 3 else None
            q = queries({"n": 4, "seed": act["seed"]}, data, box, dtype)
            bad = q.copy()
            bad[-1, 0] = np.nan
            held = [data, q, bad] + ([] if box is None else [box])
            before = [sys.getrefcount(x) for x in held]

            def use():
                kw = {} if box is None else {"boxsize": box}
                ts = [tree_of(mod, dtype, data, act["leafsize"], act["psl"], **kw) for _ in range(1 + act["m"] % 2)]
                for i in range(1 + act["m"] % 4):
                    for t in ts:
                        t.query(q, k=1 + i)
                        t.query(q, k=1 + i, axis=0)
                        attempt(lambda: t.query(bad))
                        attempt(lambda: t.query(q, k=2, axis=d))
                attempt(lambda: tree_of(mod, dtype, data, -1, None))
                attempt(lambda: tree_of(mod, dtype, data, act["leafsize"], act["psl"], boxsize=data.max(0) - 1))
                attempt(lambda: tree_of(mod, dtype, bad, act["leafsize"], act["psl"]))

            res, e = attempt(use)
            if e is not None:
                raise Bad(f"good data and queries raised {type(e).__name__}: {e}")
            gc.collect()
            after = [sys.getrefcount(x) for x in held]
            if after != before:
                raise Bad(f"references to (data, queries, refused queries, box) are kept after the trees were dropped: {before} then {after}")
            labels.append("released")
            if act["m"] == 7:
                # megabytes of trees and answers, dropped at once
                big = r.random((20_000, d)).astype(dtype)
                t = tree_of(mod, dtype, big, 16, None)

                def rounds(m):
                    for _ in range(m):
                        x = tree_of(mod, dtype, big, 4, None if act["psl"] is None else min(act["psl"], 3))
                        x.query(big[:5], k=3)
                        t.query(big, k=8)
                    del x
                    gc.collect()
                    return int(open("/proc/self/statm").read().split()[1]) * 4096

                base = rounds(6)
                grown = rounds(20) - base
                if grown > 20 * 20_000 * 8 * (8 + dtype().itemsize) // 2 and rounds(20) - base - grown > grown // 2:
                    raise Bad(f"{grown} bytes more are in use after 20 rounds of building, asking and dropping")
                labels.append("memory-given-back")
        elif not slots:
            continue
        elif what == "query":
            sl = slots[int(r.integers(0, len(slots)))]
            q = queries({"n": act["m"], "seed": act["seed"]}, sl.data, sl.box, dtype)
            axis = None if act["axis"] is None else act["axis"] % d
            kw = dict(k=act["k"], axis=axis)
            res, e = attempt(lambda: sl.tree.query(q, **kw))
            if e is not None:
                raise Bad(f"a good query {kw} raised {type(e).__name__}: {e}")
            check_answer(Oracle(sl.data, sl.box, dtype), len(sl.data), q, act["k"], axis, res, dtype)
            kept.append((res, snapshot(res)))
            if act["scribble"]:
                # results are the caller's
                other, _ = attempt(lambda: sl.tree.query(q, **kw))
                other[0][...] = -7
                other[1][...] = 0
        elif what == "bad-query":
            sl = slots[int(r.integers(0, len(slots)))]
            q = queries({"n": max(1, act["m"]), "seed": act["seed"]}, sl.data, sl.box, dtype)
            x = spoil(act["kind"], q, dtype, r)
            if act["kind"] in LAYOUT and x.flags.c_contiguous and x.flags.aligned and x.dtype.isnative:
                continue
            axis = None if act["axis"] is None else act["axis"] % d
            kw = dict(k=act["k"], axis=axis)

            def right_q(res, sl=sl, x=x, kw=kw):
                y = np.array(x, dtype=dtype, order="C", copy=True)
                check_answer(Oracle(sl.data, sl.box, dtype), len(sl.data), y, kw["k"], kw["axis"], res, dtype)

            lenient = act["kind"] in LAYOUT
            refuse(f"query {act['kind']}: {kw}", lambda: sl.tree.query(x, **kw), right_q if lenient else None)
            still_right(sl)
        elif what == "bad-query-arg":
            sl = slots[int(r.integers(0, len(slots)))]
            kw = {"axis": dict(k=2, axis=d), "axis-far": dict(k=2, axis=1 << 40), "axis-negative": dict(axis=-1), "k-negative": dict(k=-1),
                  "k-float": dict(k=1.5), "axis-alone": dict(axis=d + 1), "k-huge": dict(k=1 << 70), "axis-float": dict(axis=0.5)}[act["kind"]]
            q = sl.q if act["m"] else sl.q[:0].copy()
            refuse(f"query argument {act['kind']}: {kw}", lambda: sl.tree.query(q, **kw))
            still_right(sl)
        elif what == "forget":
            # the caller's last reference to the data goes away, and the memory is used for something else
            sl = slots[int(r.integers(0, len(slots)))]
            if sl.arr is not None:
                size = sl.arr.shape
                sl.arr = None
                if act["m"] % 2:
                    gc.collect()
                junk = [np.full(size, 7.25, dtype) for _ in range(8)] + [bytearray(b"\xa5" * int(np.prod(size)) * dtype().itemsize) for _ in range(8)]
                dropped += 1
                still_right(sl)
                del junk
        elif what == "drop":
            sl = slots.pop(int(r.integers(0, len(slots))))
            del sl
            gc.collect()
            junk = [np.full((50, d), 3.5, dtype) for _ in range(8)]
            del junk
        elif what == "threads":
            import threading
            sl = slots[int(r.integers(0, len(slots)))]
            errs = []

            def work():
                try:
                    still_right(sl)
                except Bad as e:
                    errs.append(e)

            ts = [threading.Thread(target=work) for _ in range(3)]
            [t.start() for t in ts]
            [t.join() for t in ts]
            if errs:
                raise errs[0]
    for sl in slots:
        still_right(sl)
    slots.clear()
    gc.collect()
    junk = [np.full(64, 1.25, dtype) for _ in range(16)]
    for res, was in kept:
        if any(a.tobytes() != b.tobytes() for a, b in zip(res, was)):
            raise Bad("the contents of a returned array changed")
    del junk
    if dropped:
        labels.append("data-forgotten")
    if refused:
        labels.append("refusal")
    return labels, bool(refused or dropped)


CASES = {"C17": c17, "C18": c18}


def run(mod, case):
    try:
        labels, nontrivial = CASES[case["property"]](mod, case)
        return {"ok": True, "labels": sorted(set(labels)), "nontrivial": bool(nontrivial)}
    except Bad as e:
        return {"ok": False, "message": str(e)[:3000]}
    except MemoryError:
        raise
    except Exception as e:
        if case["property"] == "C17" and type(e).__module__ == "builtins" and "/py/child.py" not in str(e):
            import traceback
            tb = traceback.extract_tb(e.__traceback__)[-1]
            return {"ok": False, "message": f"{type(e).__name__}: {e} (in {tb.name})"}
        raise
    except KeyboardInterrupt:
        raise
    except BaseException as e:
        return {"ok": False, "message": f"{type(e).__name__}, which is not an ordinary exception: {str(e)[:500]}"}


def main():
    sys.path.insert(0, sys.argv[1])
    import pyfnntw as mod
    if sys.argv[2] != "--fd":
        case = json.load(open(sys.argv[2]))
        v = run(mod, case.get("case", case))
        print("held" if v["ok"] else "violated: " + v["message"])
        sys.exit(0 if v["ok"] else 1)
    out = os.fdopen(int(sys.argv[3]), "w", buffering=1)
    for line in sys.stdin:
        out.write(json.dumps(run(mod, json.loads(line))) + "\n")


main()
