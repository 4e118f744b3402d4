"""C17: saving, loading and pickling preserve the model."""
import copy
import io
import os
import pickle
import shutil
import tempfile

import numpy as np
import scipy.sparse as sp

from vlib import gen
from vlib.core import case_list, rng_of

PROP = "C17"
RULE = ("one case = one model in some state (unfitted, fitted, refitted, partially fitted, queried, loaded before) taken through "
        "a chain of 1-3 round trips (paths with and without .npz, file objects, pickle protocols, deepcopy); public attributes, "
        "arrays, answers and a further training are compared bit for bit, and the original must be unchanged.  distinct by "
        "(model kind, state, parameters class, chain)")
NEED = ["als", "bpr", "lmf", "item", "cosine", "tfidf", "bm25", "state.unfitted", "state.fitted", "state.refit", "state.partial",
        "state.queried", "via.path", "via.path_npz", "via.fileobj", "via.bytesio", "via.pickle", "via.deepcopy", "chain>1", "rs.int",
        "rs.RandomState", "rs.Generator", "rs.None", "overwrite", "failing_write", "trained_on", "answers", "path_dots", "many_rows"]
ASSUMPTIONS = ["a random_state object is not stored in files (only pickled), so further training is compared without it there"]


def cases(tier, seed):
    q = tier == "quick"
    return case_list(seed, trip=6000 if q else 80000, fault=240 if q else 4000)


def make(rng, mon):
    kind = gen.pick(rng, ["als", "als", "als", "bpr", "lmf", "item", "cosine", "tfidf", "bm25"])
    mon.event(kind)
    users, items = gen.size(rng, 2, 14, 1200), gen.size(rng, 2, 14, 700, 0.12)
    many = kind in gen.mf_classes() and rng.random() < 0.015
    if many:
        users, items = (int(rng.integers(3000, 12000)), items % 20 + 2)[:: int(gen.pick(rng, [1, -1]))]
        mon.event("many_rows")
    rk = gen.pick(rng, ["int", "int", "np", "None", "RandomState", "Generator"])
    rs = {"int": int(gen.pick(rng, [0, 1, 12345, 2**31 - 1, 2**40])), "np": np.int64(rng.integers(1000)), "None": None, "RandomState": np.random.RandomState(3),
          "Generator": np.random.default_rng(4)}[rk]
    thr = int(gen.pick(rng, [0, 1, 2, 3]))
    it = int(gen.pick(rng, [1, 2, 3]))
    f = int(gen.pick(rng, [1, 2, 5, 64, 101, 300] if not many else [1, 2, 5]))
    if kind == "als":
        m = gen.mf_classes()[kind](
            factors=f, regularization=float(gen.pick(rng, [0.5, 1.5, 3.0])), alpha=float(gen.pick(rng, [1.0, 2.5, 40.0])),
            dtype=gen.pick(rng, [np.float32, np.float64, "float64"]), use_native=bool(rng.random() < 0.8), use_cg=bool(rng.integers(2)),
            iterations=it, calculate_training_loss=bool(rng.integers(2)), num_threads=thr, random_state=rs)
        if rng.random() < 0.3:
            m.cg_steps = int(gen.pick(rng, [1, 7]))
    elif kind == "bpr":
        m = gen.mf_classes()[kind](
            factors=f, learning_rate=float(gen.pick(rng, [0.01, 0.3])), regularization=float(gen.pick(rng, [0.0, 0.2])),
            dtype=gen.pick(rng, [np.float32, np.float64]), iterations=it, num_threads=1 if rng.random() < 0.7 else thr,
            verify_negative_samples=bool(rng.integers(2)), random_state=rs)
    elif kind == "lmf":
        m = gen.mf_classes()[kind](
            factors=f, learning_rate=float(gen.pick(rng, [0.1, 1.0])), regularization=float(gen.pick(rng, [0.1, 0.6])),
            dtype=gen.pick(rng, [np.float32, np.float64]), iterations=it, neg_prop=int(gen.pick(rng, [2, 30])),
            num_threads=thr, random_state=rs)
    else:
        kw = dict(K1=float(gen.pick(rng, [1.2, 100.0])), B=float(gen.pick(rng, [0.0, 0.5, 1.0]))) if kind == "bm25" else {}
        m = gen.knn_classes()[kind](K=int(gen.pick(rng, [1, 3, 20, 200])), num_threads=thr, **kw)
        rk = None
    if rk:
        mon.event("rs." + ("int" if rk == "np" else rk))
    return kind, m, users, items, rk


def advance(rng, mon, kind, m, users, items):
    """puts the model in some state; returns (its name, data)"""
    knn = kind in gen.knn_classes()
    ui = gen.nonempty_matrix(rng, users, items, density=0.4, values="ints", dtype=np.float64 if knn else np.float32)
    r = rng.random()
    if r < 0.12:
        mon.event("state.unfitted")
        return "unfitted", ui
    m.fit(ui, show_progress=False)
    st = "fitted"
    if r < 0.3:
        m.fit(ui, show_progress=False)
        st = "refit"
    elif r < 0.45 and kind == "als":
        n = int(rng.integers(1, 4))
        m.partial_fit_users(rng.integers(0, users + 3, n), gen.matrix(rng, n, items, values="ints"))
        m.partial_fit_items([items + 1], gen.matrix(rng, 1, len(m.user_factors), values="ints"))
        st = "partial"
    elif r < 0.65:
        m.similar_items(0)
        m.recommend(0, ui[0])
        if not knn:
            m.similar_users(0)
        st = "queried"
    elif r < 0.72 and not knn:
        # factors given by the caller: other memory layouts
        m.item_factors = gen.pick(rng, [np.asfortranarray, lambda a: np.concatenate([a, a], 1)[:, : a.shape[1]]])(m.item_factors)
        st = "layout"
    mon.event("state." + st)
    return st, ui


def value_eq(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.dtype == b.dtype and a.shape == b.shape \
            and np.ascontiguousarray(a).tobytes() == np.ascontiguousarray(b).tobytes()
    if sp.issparse(a) or sp.issparse(b):
        return sp.issparse(a) and sp.issparse(b) and a.format == b.format and a.shape == b.shape and all(
            value_eq(getattr(a, k), getattr(b, k)) for k in ("data", "indices", "indptr"))
    if isinstance(a, np.random.RandomState):
        return isinstance(b, np.random.RandomState) and repr(a.get_state()) == repr(b.get_state())
    if isinstance(a, np.random.Generator):
        return isinstance(b, np.random.Generator) and repr(a.bit_generator.state) == repr(b.bit_generator.state)
    if isinstance(a, np.dtype) or isinstance(b, np.dtype):
        return isinstance(a, np.dtype) and isinstance(b, np.dtype) and a == b
    if isinstance(a, (np.generic, int, float, bool)) and isinstance(b, (np.generic, int, float, bool)):
        return isinstance(a, (bool, np.bool_)) == isinstance(b, (bool, np.bool_)) and a == b
    return type(a) is type(b) and a == b


public = gen.public


def snapshot(m):
    return copy.deepcopy({k: v for k, v in public(m).items()})


def same_model(mon, a, b, what, file):
    A, B = a if isinstance(a, dict) else public(a), b if isinstance(b, dict) else public(b)
    for k in sorted(set(A) | set(B)):
        if file and k == "random_state" and (A.get(k) is None or not isinstance(A[k], (int, np.integer))):
            continue
        mon.check(k in A and k in B, what + ": attribute %s %s" % (k, "lost" if k in A else "appeared"))
        mon.ev()
        mon.check(value_eq(A[k], B[k]), what + ": attribute %s changed" % k, before=A[k], after=B[k])


def answers(rng_seed, kind, m, users, items):
    rng = np.random.default_rng(rng_seed)
    knn = kind in gen.knn_classes()
    out = []
    if knn and m.similarity is None or not knn and m.item_factors is None:
        return out
    if not knn:
        users, items = len(m.user_factors), len(m.item_factors)
    rows = gen.matrix(rng, 3, items, density=0.4, values="ints", dtype=np.float64 if knn else np.float32, empty=0)
    us = rng.integers(0, users, 3)
    N = int(rng.integers(1, items + 2))
    out.append(m.recommend(int(us[0]), rows[0], N=N))
    out.append(m.recommend(us, rows, N=N, filter_already_liked_items=False))
    out.append(m.similar_items(int(rng.integers(items)), N=N))
    if not knn:
        out.append(m.similar_users(us, N=2))
    if kind == "als" and m.item_factors.flags.c_contiguous:
        out.append((m.recalculate_user(us, rows),))
        t, c, _ = m.explain(0, rows, 0, N=3)
        out.append((np.array([t]), np.array([[int(i), s] for i, s in c])))
    return out


def same_answers(mon, a, b, what):
    if "(layout)" in what:  # BLAS rounds differently for another memory layout
        return
    mon.check(len(a) == len(b), what + ": answers")
    for x, y in zip(a, b):
        mon.ev()
        mon.check(len(x) == len(y) and all(np.array_equal(p, q, equal_nan=True) for p, q in zip(x, y)), what + ": another answer",
                  before=x, after=y)
        mon.event("answers")


def trip(rng, mon, m, d):
    """one round trip -> (model, how, went through a file)"""
    how = gen.pick(rng, ["path", "path_npz", "fileobj", "bytesio", "pickle", "pickle", "deepcopy"])
    mon.event("via." + how)
    name = gen.pick(rng, ["model", "a model", "v1.2", "x.npz.bak", "modèle", "npz"])
    if "." in name:
        mon.event("path_dots")
    p = os.path.join(d, name)
    cls = type(m)
    if how == "path":
        if rng.random() < 0.3:
            mon.event("overwrite")
            other = cls()
            other.save(p)
        m.save(p)
        return cls.load(p), how, True
    if how == "path_npz":
        m.save(p + ".npz")
        return cls.load(p + ".npz" if rng.random() < 0.6 else p), how, True
    if how == "fileobj":
        with open(p, "wb") as f:
            m.save(f)
        with open(p, "rb") as f:
            return cls.load(f), how, True
    if how == "bytesio":
        b = io.BytesIO()
        m.save(b)
        b.seek(0)
        return cls.load(b), how, True
    if how == "pickle":
        return pickle.loads(pickle.dumps(m, protocol=int(gen.pick(rng, [0, 2, 4, 5])))), how, False
    return copy.deepcopy(m), how, False


def run_trip(spec, mon):
    rng = rng_of(spec)
    kind, m, users, items, rk = make(rng, mon)
    st, ui = advance(rng, mon, kind, m, users, items)
    qs = int(rng.integers(1 << 30))
    before, ans = snapshot(m), answers(qs, kind, m, users, items)
    same_model(mon, before, m, "queries changed the model", False)
    d = tempfile.mkdtemp(dir=os.environ["VERIF_SCRATCH"])
    try:
        cur, chain, viafile = m, [], False
        for i in range(int(gen.pick(rng, [1, 1, 2, 3]))):
            nxt, how, file = trip(rng, mon, cur, d)
            chain.append(how)
            viafile |= file
            what = "%s (%s) after %s" % (kind, st, "+".join(chain))
            mon.check(type(nxt) is type(m), what + ": another class", cls=type(nxt))
            same_model(mon, before, cur, "saving changed the model: " + what, viafile and i > 0)
            same_model(mon, before, nxt, what, viafile)
            same_answers(mon, ans, answers(qs, kind, nxt, users, items), what)
            if kind in gen.mf_classes() and nxt.item_factors is not None:
                mon.check(nxt.item_factors.flags.writeable, what + ": read only factors")
            cur = nxt
        if len(chain) > 1:
            mon.event("chain>1")
        # trains on as the original would
        needs_rng = kind in ("bpr", "lmf") or (kind == "als" and m.item_factors is None)
        det = kind not in ("bpr",) or m.num_threads == 1
        if det and st != "layout" and not (needs_rng and (rk == "None" or (viafile and rk not in ("int", "np")))):
            data = ui
            if kind == "als" and m.item_factors is not None:
                data = gen.matrix(rng, len(m.user_factors), len(m.item_factors), values="ints", density=0.3)
            elif kind in ("bpr", "lmf") and m.item_factors is not None and len(m.item_factors) != items:
                return
            m.fit(data, show_progress=False)
            cur.fit(data, show_progress=False)
            same_model(mon, m, cur, "%s (%s) trained on after %s" % (kind, st, "+".join(chain)), viafile)
            mon.event("trained_on")
        mon.nontrivial(kind, st, chain, rk, vars(m).get("factors"), str(vars(m).get("dtype")))
        mon.sample(model=kind, state=st, chain=chain, random_state=rk)
    finally:
        shutil.rmtree(d, ignore_errors=True)


class Broken(io.BytesIO):
    def __init__(self, n):
        super().__init__()
        self.left = n

    def write(self, b):
        self.left -= len(b)
        if self.left < 0:
            raise RuntimeError("disk full (injected)")
        return super().write(b)


def fault(spec, mon):
    """a save that fails half way leaves the model as it was and a later save works"""
    rng = rng_of(spec)
    kind, m, users, items, rk = make(rng, mon)
    st, ui = advance(rng, mon, kind, m, users, items)
    qs = 5
    before, ans = snapshot(m), answers(qs, kind, m, users, items)
    good = io.BytesIO()
    m.save(good)
    n = len(good.getvalue())
    for cut in sorted({0, 1, n // 3, n // 2, n - 1, int(rng.integers(n))}):
        mon.event("failing_write")
        try:
            m.save(Broken(cut))
        except RuntimeError:
            pass
        else:
            mon.check(cut >= n, "save reported success although writing failed", cut=cut, size=n)
        same_model(mon, before, m, "a failed save changed the model", False)
        same_answers(mon, ans, answers(qs, kind, m, users, items), "after a failed save")
    b = io.BytesIO()
    m.save(b)
    b.seek(0)
    same_model(mon, before, type(m).load(b), "save after failed saves", True)
    mon.nontrivial("fault", kind, st)


def run_case(spec, mon):
    (fault if spec["kind"] == "fault" else run_trip)(spec, mon)
