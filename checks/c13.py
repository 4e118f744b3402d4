"""C13: native code stays within its memory for every call."""
import ctypes
import gc
import io
import os
import pickle

import numpy as np
import scipy.sparse as sp

from vlib import build, gen, san
from vlib.core import case_list, rng_of

PROP = "C13"
RULE = ("asan: one case = one model (trained or with given factors) and 6 calls of public entry points with well-formed "
        "or ill-fitting arguments, executed in a build with AddressSanitizer, UBSan and libstdc++ assertions; any Python "
        "exception is acceptable, a sanitizer report or a dead process is not.  grow: one call repeated thousands of "
        "times with the native heap measured between rounds.  hugebatch: one query whose scores need 64 bit offsets.  distinct by (entry point, argument classes, outcome)")
NEED = ["fit.als", "fit.bpr", "fit.lmf", "fit.knn", "refit", "recommend", "similar_items", "similar_users", "recalculate",
        "partial_fit", "explain", "loss", "metrics", "split", "solver", "raised", "answered", "grow.rounds", "wrong_width",
        "wrong_rows", "ids_beyond", "N<=0", "N>items", "empty_matrix", "threads>rows", "int64_index", "pickle", "topk",
        "grow.failing_call", "grow.fit", "layout", "blas_calls_watched"]
ASSUMPTIONS = ["matrices are valid scipy matrices (indices within their own shape), possibly not fitting the model",
               "the BLAS/LAPACK routines called by the solvers are watched through stand-ins which touch the documented "
               "operands in instrumented code; accesses inside numpy are not watched"]


def drive(r):
    pkg = build.build("asan")
    r.stage("checks.c13", pkg, name="asan", env=san.asan_env(r, "asan"), prefix=san.prefix(), post=san.post_asan)
    r.stage("checks.c13", build.build("plain"), name="grow", env={"PYTHONMALLOC": "malloc", "MALLOC_ARENA_MAX": "1",
                                                                   "GLIBC_TUNABLES": "glibc.malloc.tcache_count=0:glibc.malloc.mxfast=0"})


def cases(tier, seed):
    q = tier == "quick"
    if os.environ.get("VERIF_STAGE") == "grow":
        return case_list(seed, hugebatch=1, grow=2 * len(GROW) if q else 6 * len(GROW))
    return case_list(seed, calls=3000 if q else 20000, fit=1200 if q else 8000)


# ------------------------------------------------------------------ hostile arguments
def hmatrix(rng, mon, rows, cols):
    """a matrix that mostly fits (rows, cols)"""
    r = rng.random()
    if r < 0.12:
        cols += int(gen.pick(rng, [1, 3, 40]))
        mon.event("wrong_width")
    elif r < 0.2:
        cols = max(1, cols - int(gen.pick(rng, [1, 3])))
        mon.event("wrong_width")
    elif r < 0.32:
        rows = int(gen.pick(rng, [0, 1, rows + 1, rows + 9, max(1, rows - 1)]))
        mon.event("wrong_rows")
    m = gen.matrix(rng, rows, cols, density=gen.pick(rng, [0.0, 0.05, 0.4, 1.0]),
                   values=gen.pick(rng, ["ones", "signed", "conf"]), empty=gen.pick(rng, [0, 0.3]),
                   dtype=gen.pick(rng, [np.float32, np.float32, np.float64, np.int32, np.int64]))
    if not m.nnz:
        mon.event("empty_matrix")
    r = rng.random()
    if r < 0.1:
        m.indices, m.indptr = m.indices.astype(np.int64), m.indptr.astype(np.int64)
        mon.event("int64_index")
    elif r < 0.2 and m.nnz:
        # unsorted with a duplicate
        ind = m.indices.copy()
        s = slice(m.indptr[0], m.indptr[1])
        ind[s] = ind[s][::-1]
        m = sp.csr_matrix((m.data, ind, m.indptr), shape=m.shape)
    elif r < 0.25:
        m = m.tocoo()
    elif r < 0.28:
        m = m.tocsc()
    return m


def hids(rng, mon, n, k=None):
    k = k or int(gen.pick(rng, [1, 2, 5, gen.size(rng, 1, 60, 450, 0.3)]))
    r = rng.random()
    ids = rng.integers(0, max(n, 1), k)
    if r < 0.15:
        ids[0] = n + int(gen.pick(rng, [0, 1, 100, 2**31 - 1 - n, 2**33]))
        mon.event("ids_beyond")
    elif r < 0.22:
        ids[-1] = -int(gen.pick(rng, [1, n, n + 1, 2**31, 2**40]))
        mon.event("ids_beyond")
    elif r < 0.26:
        return gen.pick(rng, [[], np.array([], dtype=np.int32), None, [0.5], "0", np.zeros((2, 2), dtype=int)])
    if rng.random() < 0.4:
        return int(ids[0]) if rng.random() < 0.7 else np.int64(ids[0])
    return ids if rng.random() < 0.5 else [int(x) for x in ids]


def hN(rng, mon, items):
    N = int(gen.pick(rng, [0, 1, 2, 10, items, items + 1, items + 100, 3000, -1, -5]))
    if N <= 0:
        mon.event("N<=0")
    if N > items:
        mon.event("N>items")
    return N


def layout(rng, mon, a):
    """the same array with another memory layout"""
    mon.event("layout")
    r = int(rng.integers(5))
    if r == 0:
        return np.asfortranarray(a)
    if r == 1:
        return np.concatenate([a, a], 1)[:, : a.shape[1]]
    if r == 2:
        return np.repeat(a, 2, axis=0)[::2]
    if r == 3:
        return a[::-1, ::-1]
    return a


def rows_of(ids):
    return 1 if np.isscalar(ids) or ids is None else len(ids)


def lst(rng, mon, n):
    r = rng.random()
    if r < 0.5:
        return None
    x = rng.integers(0, max(n, 1), int(gen.pick(rng, [1, 3, n + 1])))
    if r < 0.6:
        x[0] = gen.pick(rng, [n, n + 5, -1, -n - 1, 2**31])
    if r < 0.64:
        return []
    return gen.pick(rng, [x, [int(v) for v in x]])


def make(rng, mon):
    kind = gen.pick(rng, ["als", "als", "bpr", "lmf", "knn"])
    users, items = int(gen.pick(rng, [1, 2, 7, 20, 130, gen.size(rng, 1, 60, 700, 0.3)])), int(gen.pick(rng, [1, 2, 9, 33, gen.size(rng, 1, 60, 700, 0.3)]))
    if kind == "knn":
        k = gen.pick(rng, ["item", "cosine", "tfidf", "bm25"])
        m = gen.knn_classes()[k](K=int(gen.pick(rng, [0, 1, 3, 100])), num_threads=int(gen.pick(rng, [0, 1, 5])))
        m.fit(gen.nonempty_matrix(rng, users, items, dtype=np.float64), show_progress=False)
    else:
        kw = dict(regularization=0.5) if kind == "als" else {}
        m = gen.set_model(rng, kind, users, items, int(gen.pick(rng, [1, 2, 7, 16, gen.size(rng, 1, 40, 320, 0.3)])), gen.pick(rng, [np.float32, np.float64]),
                          num_threads=int(gen.pick(rng, [0, 1, 3, 9])), style="normal", **kw)
        if rng.random() < 0.15:
            m.user_factors, m.item_factors = layout(rng, mon, m.user_factors), layout(rng, mon, m.item_factors)
    return kind, m, users, items


def attempt(mon, name, fn, *key):
    mon.ev()
    mon.event(name)
    try:
        fn()
        mon.event("answered")
        out = "ok"
    except (MemoryError, RecursionError):
        raise
    except Exception as e:  # noqa: B902  any exception is an answer here
        mon.event("raised")
        out = type(e).__name__
    mon.nontrivial(name, out, *key)


def a_call(rng, mon, kind, m, users, items):
    from implicit import evaluation as ev
    from implicit.cpu import _als, als
    from implicit.cpu.topk import topk

    ops = ["recommend", "recommend", "recommend", "similar_items", "similar_items", "metrics", "refit", "pickle", "split"]
    if kind != "knn":
        ops += ["similar_users", "similar_users", "topk"]
    if kind == "als":
        ops += ["recalculate", "recalculate", "partial_fit", "partial_fit", "explain", "loss", "solver"]
    op = gen.pick(rng, ops)
    if op == "recommend":
        ids = hids(rng, mon, users)
        mat = hmatrix(rng, mon, rows_of(ids), items)
        kw = dict(N=hN(rng, mon, items), filter_already_liked_items=bool(rng.integers(2)), filter_items=lst(rng, mon, items),
                  items=lst(rng, mon, items), recalculate_user=bool(rng.random() < 0.3))
        if rng.random() < 0.1:
            nq = 250
            ids, mat = rng.integers(0, users, nq), gen.matrix(rng, nq, items + int(gen.pick(rng, [0, 0, 2])))
        attempt(mon, op, lambda: m.recommend(ids, mat, **kw), kind, type(ids).__name__, mat.format, kw["N"] > items)
    elif op == "similar_items":
        ids = hids(rng, mon, items)
        kw = dict(N=hN(rng, mon, items), filter_items=lst(rng, mon, items), items=lst(rng, mon, items))
        if rng.random() < 0.3:
            kw.update(recalculate_item=True, item_users=hmatrix(rng, mon, rows_of(ids), users))
        attempt(mon, op, lambda: m.similar_items(ids, **kw), kind, type(ids).__name__, kw["N"] > items)
    elif op == "similar_users":
        ids = hids(rng, mon, users)
        kw = dict(N=hN(rng, mon, users), filter_users=lst(rng, mon, users), users=lst(rng, mon, users))
        attempt(mon, op, lambda: m.similar_users(ids, **kw), kind, type(ids).__name__)
    elif op == "recalculate":
        side = bool(rng.integers(2))
        ids = hids(rng, mon, users if side else items)
        mat = hmatrix(rng, mon, rows_of(ids), items if side else users)
        attempt(mon, op, lambda: (m.recalculate_user if side else m.recalculate_item)(ids, mat), side, mat.format)
    elif op == "partial_fit":
        side = bool(rng.integers(2))
        n = users if side else items
        ids = rng.integers(0, n + 4, int(gen.pick(rng, [1, 3, 20, 260])))
        if rng.random() < 0.1:
            ids = [] if rng.random() < 0.5 else [-n - 3]
        mat = hmatrix(rng, mon, len(ids), items if side else users)
        attempt(mon, op, lambda: (m.partial_fit_users if side else m.partial_fit_items)(ids, mat), side, mat.format)
    elif op == "explain":
        mat = hmatrix(rng, mon, int(gen.pick(rng, [1, 4])), items)
        u, i = int(gen.pick(rng, [0, 1, 3, 9])), int(gen.pick(rng, [0, items - 1, items, -1]))
        N = hN(rng, mon, items)
        attempt(mon, op, lambda: m.explain(u, mat, i, N=N), mat.format)
    elif op in ("loss", "solver"):
        mat = hmatrix(rng, mon, users, items)
        X = m.user_factors.copy()
        Y = m.item_factors
        r = rng.random()
        if r < 0.15:
            Y = Y[:, :-1]
        elif r < 0.3:
            Y = Y[:-1]
        elif r < 0.4:
            X = X[::2]
        elif r < 0.5:
            X = np.asfortranarray(X) if rng.random() < 0.5 else X.astype(np.float64 if X.dtype == np.float32 else np.float32)
        elif r < 0.7:
            X, Y = layout(rng, mon, X), layout(rng, mon, Y)
        thr = int(gen.pick(rng, [0, 1, 5]))
        if op == "loss":
            attempt(mon, op, lambda: als.calculate_loss(mat, X, Y, 0.5, thr), r < 0.5)
        else:
            f = gen.pick(rng, [_als.least_squares, _als.least_squares_cg])
            attempt(mon, op, lambda: f(mat, X, Y, 0.5, thr), r < 0.5)
    elif op == "metrics":
        tr, te = hmatrix(rng, mon, users, items), hmatrix(rng, mon, users, items)
        K = int(gen.pick(rng, [0, 1, 5, items, items + 7, -1]))
        f = gen.pick(rng, [ev.precision_at_k, ev.mean_average_precision_at_k, ev.ndcg_at_k, ev.AUC_at_k])
        attempt(mon, op, lambda: f(m, tr, te, K=K, show_progress=False), kind, K > 0, K > items)
    elif op == "split":
        mat = hmatrix(rng, mon, users, items)
        if rng.random() < 0.5:
            K, t = int(gen.pick(rng, [0, 1, 2, 50])), float(gen.pick(rng, [0.0, 0.3, 0.9]))
            attempt(mon, op, lambda: ev.leave_k_out_split(mat, K=K, train_only_size=t, random_state=1), K, t)
        else:
            t = float(gen.pick(rng, [0.0, 0.5, 1.0, 2.0]))
            attempt(mon, op, lambda: ev.train_test_split(mat, train_percentage=t, random_state=1), t)
    elif op == "refit":
        mat = hmatrix(rng, mon, users, items)
        m.iterations = 1
        attempt(mon, op, lambda: m.fit(mat, show_progress=False), kind, mat.format)
    elif op == "pickle":
        def f():
            c = pickle.loads(pickle.dumps(m))
            b = io.BytesIO()
            m.save(b)
            b.seek(0)
            type(m).load(b)
            c.similar_items(0)
        attempt(mon, op, f, kind)
    elif op == "topk":
        q = m.user_factors[: int(gen.pick(rng, [1, 3, users]))]
        it = m.item_factors
        r = rng.random()
        if r < 0.1:
            it = it.astype(np.float64 if it.dtype == np.float32 else np.float32)
        elif r < 0.2:
            it = it[:, :-1]
        k = hN(rng, mon, items)
        fq = hmatrix(rng, mon, len(q), items) if rng.random() < 0.5 else None
        attempt(mon, op, lambda: topk(it, q, k, filter_query_items=fq, filter_items=lst(rng, mon, items),
                                      num_threads=int(gen.pick(rng, [0, 1, 4]))), kind)


def a_fit(rng, mon):
    kind = gen.pick(rng, ["als", "als", "bpr", "lmf", "knn"])
    users, items = (int(gen.pick(rng, [0, 1, 2, 7, 50, gen.size(rng, 1, 60, 500, 0.3)])),
                    int(gen.pick(rng, [0, 1, 2, 9, 40, gen.size(rng, 1, 60, 500, 0.3)])))
    mat = gen.matrix(rng, users, items, density=gen.pick(rng, [0.0, 0.1, 0.5, 1.0]), empty=gen.pick(rng, [0, 0.5]),
                     values=gen.pick(rng, ["ones", "signed", "conf"]),
                     dtype=gen.pick(rng, [np.float32, np.float64, np.int32, np.int64]))
    if not mat.nnz:
        mon.event("empty_matrix")
    r = rng.random()
    if r < 0.2:
        mat.indices, mat.indptr = mat.indices.astype(np.int64), mat.indptr.astype(np.int64)
        mon.event("int64_index")
    elif r < 0.3:
        mat = mat.tocoo()
    elif r < 0.35:
        mat.data = np.full(mat.nnz, gen.pick(rng, [np.nan, np.inf, 1e38, -1e38, 0.0]))
    thr = int(gen.pick(rng, [0, 1, 2, 13]))
    if thr > max(users, items):
        mon.event("threads>rows")
    f = int(gen.pick(rng, [0, 1, 3, 8, 33, gen.size(rng, 1, 40, 140, 0.3)]))
    if kind == "knn":
        c = gen.knn_classes()[gen.pick(rng, ["item", "cosine", "tfidf", "bm25"])]
        K = int(gen.pick(rng, [0, 1, 5, 200, 2**31, 2**32 - 1, -1]))

        def go():
            m = c(K=K, num_threads=thr)
            m.fit(mat, show_progress=False)
            m.recommend(0, sp.csr_matrix((1, items)), N=3)
            m.similar_items(0)

        attempt(mon, "fit.knn", go, K, users, items, mat.format)
    else:
        cls = gen.mf_classes()[kind]
        kw = {"als": dict(use_cg=bool(rng.integers(2)), use_native=bool(rng.random() < 0.9), calculate_training_loss=True,
                          regularization=float(gen.pick(rng, [0.0, 0.1])), alpha=float(gen.pick(rng, [1.0, 3.0]))),
              "bpr": dict(verify_negative_samples=bool(rng.integers(2)), learning_rate=float(gen.pick(rng, [0.1, 50.0]))),
              "lmf": dict(neg_prop=int(gen.pick(rng, [0, 1, 30])), learning_rate=float(gen.pick(rng, [0.5, 50.0])))}[kind]
        dt = np.float32 if kind == "lmf" else gen.pick(rng, [np.float32, np.float64, np.float16, np.int32])

        def go():
            m = cls(factors=f, dtype=dt, num_threads=thr, iterations=2, random_state=3, **kw)
            if rng.random() < 0.2:
                m.item_factors = np.ones((items + int(gen.pick(rng, [0, 1, -1])), max(1, f + int(gen.pick(rng, [-1, 0, 1, 2])))),
                                         dtype=gen.pick(rng, [np.float32, np.float64]))
            m.fit(mat, show_progress=False)
            m.recommend(0, sp.csr_matrix((1, items)), N=3)
            m.similar_items(0)

        attempt(mon, "fit." + kind, go, f, users, items, mat.format, np.dtype(dt).name, thr)


# ------------------------------------------------------------------ heap growth
class Mallinfo2(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in ("arena", "ordblks", "smblks", "hblks", "hblkhd", "usmblks", "fsmblks",
                                               "uordblks", "fordblks", "keepcost")]


def heap():
    gc.collect()
    lib = ctypes.CDLL(None)
    lib.mallinfo2.restype = Mallinfo2
    i = lib.mallinfo2()
    return i.uordblks + i.hblkhd


GROW = ["als.recommend", "als.recommend_batch", "als.similar_items", "als.recalculate", "als.recalculate_fail", "als.partial_fit",
        "als.explain", "als.fit_cholesky", "als.fit_cg", "als.fit_fail", "als.loss", "bpr.fit", "lmf.fit", "knn.fit",
        "knn.recommend", "knn.recommend_fail", "knn.similar_items", "knn.pickle", "knn.load", "metrics", "splits",
        "knn.recommend_badtype", "mf.recommend_fail", "knn.recommend_n0", "als.pickle"]


def grower(name, rng, size):
    from implicit import evaluation as ev
    from implicit.cpu import als

    users, items = 40, 30
    ui = gen.nonempty_matrix(rng, users, items, density=0.3, values="conf", dtype=np.float32)
    F = [8, 130, 40][size % 3]
    m = gen.set_model(rng, "als", users, items, F, np.float32, num_threads=1, style="normal", regularization=0.5)
    ids = np.arange(users)
    knn = gen.knn_classes()["cosine"](K=10, num_threads=1)
    knn.fit(ui, show_progress=False)
    bad = sp.csr_matrix(([1.0], ([0], [items + 5])), shape=(1, items + 6))

    def quiet(f):
        def g():
            try:
                f()
            except Exception:  # noqa: B902
                return
        return g

    def fit(cls, data=ui, **kw):
        def g():
            mm = cls(factors=F, iterations=1, num_threads=1, random_state=1, **kw)
            mm.fit(data, show_progress=False)
        return g

    mf = gen.mf_classes()
    # a singular problem makes the native solver raise from inside the parallel loop
    sing = sp.csr_matrix(np.zeros((4, 3), dtype=np.float32) + np.eye(4, 3, dtype=np.float32))

    def fit_fail():
        mm = mf["als"](factors=F, iterations=1, num_threads=2, regularization=-5.0, use_cg=False, random_state=1)
        mm.fit(sing, show_progress=False)

    def saveload():
        b = io.BytesIO()
        knn.save(b)
        b.seek(0)
        type(knn).load(b)

    return {
        "als.recommend": lambda: m.recommend(3, ui[3]), "als.recommend_batch": lambda: m.recommend(ids, ui),
        "als.similar_items": lambda: m.similar_items([1, 2, 3]), "als.recalculate": lambda: m.recalculate_user(ids, ui),
        "als.recalculate_fail": quiet(lambda: m.recalculate_user(0, bad)),
        "als.partial_fit": lambda: m.partial_fit_users(ids, ui), "als.explain": lambda: m.explain(3, ui, 2),
        "als.fit_cholesky": fit(mf["als"], use_cg=False, calculate_training_loss=True), "als.fit_cg": fit(mf["als"]),
        "als.fit_fail": quiet(fit_fail), "als.loss": lambda: als.calculate_loss(ui, m.user_factors, m.item_factors, 0.5, 2),
        "bpr.fit": fit(mf["bpr"]), "lmf.fit": fit(mf["lmf"]), "knn.fit": lambda: knn.fit(ui, show_progress=False),
        "knn.recommend": lambda: knn.recommend(0, ui[0].astype(np.float64)),
        "knn.recommend_fail": quiet(lambda: knn.recommend(0, bad)), "knn.similar_items": lambda: knn.similar_items(1),
        "knn.pickle": lambda: pickle.loads(pickle.dumps(knn)), "knn.load": saveload,
        "metrics": lambda: ev.ranking_metrics_at_k(m, ui, ui[::-1].tocsr(), K=5, show_progress=False),
        "splits": lambda: (ev.train_test_split(ui, random_state=1), ev.leave_k_out_split(ui, random_state=1)),
        "knn.recommend_badtype": quiet(lambda: knn.recommend(0, ui[0].astype(np.complex64))),
        "mf.recommend_fail": quiet(lambda: m.recommend(0, ui[:3])),
        "knn.recommend_n0": quiet(lambda: knn.recommend(0, ui[0], N=0)),
        "als.pickle": lambda: pickle.loads(pickle.dumps(m)).similar_items(1),
    }[name]


def grow(spec, mon):
    rng = rng_of(spec)
    name = GROW[spec["i"] % len(GROW)]
    fn = grower(name, rng, spec["i"] // len(GROW))
    reps = 400 if spec["i"] < 2 * len(GROW) else 2000
    for _ in range(400):
        fn()
    for attempt_no in range(3):  # fragmentation of the heap settles, a leak does not
        base = heap()
        deltas = []
        for _ in range(5):
            for _ in range(reps):
                fn()
            h = heap()
            deltas.append(h - base)
            base = h
            mon.event("grow.rounds")
        if min(deltas) < reps * 20:
            break
        reps *= 4
    # a leaked block takes at least 32 bytes of the heap, in every round
    mon.ev(5 * reps)
    mon.maximum("max_growth_per_call_in_the_quietest_round", min(deltas) / reps)
    mon.check(min(deltas) < reps * 20, "%s: the native heap grows with every call" % name, bytes_per_round=deltas, calls=reps)
    if "fail" in name:
        mon.event("grow.failing_call")
    if "fit" in name:
        mon.event("grow.fit")
    mon.nontrivial("grow", name)


def hugebatch(mon):
    """a batch of scores of more than 2^31 entries"""
    from implicit.cpu.topk import topk

    free = int([x for x in open("/proc/meminfo") if x.startswith("MemAvailable")][0].split()[1]) // 2**20
    if free < 16:
        mon.event("hugebatch.skipped_memory")
        return
    n = 22_500_000
    items = np.zeros((n, 1), dtype=np.float32)
    want = [7, n // 2, n - 1]
    items[want, 0] = [1, 2, 3]
    ids, scores = topk(items, np.ones((100, 1), dtype=np.float32), 3)
    mon.ev(100)
    mon.check((ids == want[::-1]).all() and (scores == [3, 2, 1]).all(), "topk over %d items gives wrong results" % n,
              ids=ids, scores=scores)
    mon.event("hugebatch")
    mon.nontrivial("hugebatch")


def run_case(spec, mon):
    k = spec["kind"]
    if k == "hugebatch":
        return hugebatch(mon)
    if k == "grow":
        return grow(spec, mon)
    rng = rng_of(spec)
    if k == "fit":
        return a_fit(rng, mon)
    kind, m, users, items = make(rng, mon)
    for _ in range(6):
        a_call(rng, mon, kind, m, users, items)
    mon.sample(model=kind, users=users, items=items)
