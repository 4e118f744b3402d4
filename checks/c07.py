"""C07: queries always reflect the model's current factors."""
import copy
import io
import pickle

import numpy as np
from scipy.sparse import csr_matrix

from vlib import gen, judge, knn_ref
from vlib.core import Violation, case_list, rng_of

PROP = "C07"
RULE = ("one case = one random history of 4..14 operations (fit, refit, partial fits, failing fits, changed parameters, "
        "new and repeated queries, save/load, pickle/copy, queries from callbacks) on one model; every query answer is compared with the answer of a fresh "
        "model holding copies of the current factors and parameters (item-item: with dense scores of the current "
        "similarity matrix), and every refit with the refit of such a fresh model; distinct by (model, operation sequence)")
NEED = ["fit", "refit", "query_after_query", "query_in_callback", "query_after_callback_query", "partial_users",
        "partial_items", "saveload", "pickle", "copy", "failed_fit", "q.recommend", "q.similar_items", "q.similar_users",
        "q.recalculate_user", "q.recalculate_item", "q.explain", "q.recommend_recalculated", "q.similar_recalculated",
        "probe", "params", "refit_vs_fresh", "knn.params", "knn.fit", "knn.refit", "knn.recommend", "knn.similar_items", "knn.saveload", "knn.pickle"]
ASSUMPTIONS = ["factors are changed only through fit and partial fits (assigning to the factor attributes by hand is "
               "outside the history)"]


class Stop(Exception):
    pass


def cases(tier, seed):
    q = tier == "quick"
    return case_list(seed, als=3600 if q else 48000, bpr=1200 if q else 16000, lmf=1200 if q else 16000,
                     knn=2400 if q else 32000)


PARAMS = {
    "als": ("factors", "regularization", "alpha", "dtype", "use_native", "use_cg", "iterations", "num_threads"),
    "bpr": ("factors", "learning_rate", "regularization", "dtype", "iterations", "num_threads",
            "verify_negative_samples"),
    "lmf": ("factors", "learning_rate", "regularization", "iterations", "neg_prop", "num_threads"),
}


def fresh(kind, m):
    c = gen.mf_classes()[kind](**{p: getattr(m, p) for p in PARAMS[kind]})
    c.user_factors = np.array(m.user_factors, copy=True)
    c.item_factors = np.array(m.item_factors, copy=True)
    if kind == "als":
        c.cg_steps = m.cg_steps
    return c


def change_params(rng, kind, m):
    for p in rng.permutation(PARAMS[kind])[: int(rng.integers(1, 4))]:
        if p == "regularization":
            m.regularization = float(gen.pick(rng, [0.25, 0.5, 2.0, 4.0] if kind == "als" else [0.0, 0.01, 0.1]))
        elif p == "alpha":
            m.alpha = float(gen.pick(rng, [1.0, 0.5, 2.0, 3.0]))
        elif p in ("use_native", "use_cg", "verify_negative_samples"):
            setattr(m, p, bool(rng.integers(2)))
        elif p == "iterations":
            m.iterations = int(rng.integers(1, 4))
        elif p == "num_threads":
            m.num_threads = int(gen.pick(rng, [0, 1, 2]))
        elif p == "learning_rate":
            m.learning_rate = float(gen.pick(rng, [0.05, 0.1, 0.2]))
        elif p == "neg_prop":
            m.neg_prop = int(gen.pick(rng, [1, 5, 30]))
    if kind == "als" and rng.random() < 0.4:
        m.cg_steps = int(gen.pick(rng, [1, 2, 3, 5]))


def widen(rows, n):
    """the same rows for a model that has n columns by now"""
    return csr_matrix((rows.data, rows.indices, rows.indptr), shape=(rows.shape[0], max(n, rows.shape[1])))


def query(rng, kind, users, items):
    """a random query as (name, function of the model); the matrices are fixed in the closure"""
    opts = ["recommend", "similar_items", "similar_users"]
    if kind == "als":
        opts += ["recalculate_user", "recalculate_item", "explain", "recommend_recalculated", "similar_recalculated"]
    name = gen.pick(rng, opts)
    batch = rng.random() < 0.4
    nq = gen.size(rng, 1, 5, 260) if batch else 1
    N = int(gen.pick(rng, [1, 3, items, items + 2]))
    uids, iids = rng.integers(0, users, nq), rng.integers(0, items, nq)
    uid = [int(x) for x in uids] if batch else int(uids[0])
    iid = [int(x) for x in iids] if batch else int(iids[0])
    rows = gen.matrix(rng, nq, items, density=0.4, values="conf")
    irows = gen.matrix(rng, nq, users, density=0.4, values="conf")
    liked = bool(rng.integers(2))
    if name == "recommend":
        return name, lambda m: m.recommend(uid, widen(rows, len(m.item_factors)), N=N, filter_already_liked_items=liked)
    if name == "similar_items":
        return name, lambda m: m.similar_items(iid, N=N)
    if name == "similar_users":
        return name, lambda m: m.similar_users(uid, N=N)
    if name == "recalculate_user":
        return name, lambda m: (None, m.recalculate_user(uid, widen(rows, len(m.item_factors))))
    if name == "recalculate_item":
        return name, lambda m: (None, m.recalculate_item(iid, widen(irows, len(m.user_factors))))
    if name == "explain":
        u = int(rng.integers(nq))
        it = int(rng.integers(items))

        def ex(m):
            n = len(m.item_factors)
            t, c, _ = m.explain(u, widen(rows, n), it, N=n)
            d = np.zeros(n)
            for i, s in c:
                d[int(i)] = s
            return None, np.append(d, t)

        return name, ex
    if name == "recommend_recalculated":
        return name, lambda m: m.recommend(uid, widen(rows, len(m.item_factors)), N=N, recalculate_user=True,
                                          filter_already_liked_items=liked)
    return name, lambda m: m.similar_items(iid, N=N, recalculate_item=True,
                                          item_users=widen(irows, len(m.user_factors)))


def compare(mon, name, a, b, rt, history):
    what = "%s after %s" % (name, " > ".join(history))
    if a[0] is None:
        x, y = np.asarray(a[1], float), np.asarray(b[1], float)
        mon.check(x.shape == y.shape, what + ": shapes differ", first=x.shape, second=y.shape)
        sc = max(np.abs(x).max(initial=0), np.abs(y).max(initial=0), 1e-12)
        mon.check(np.allclose(x, y, rtol=0, atol=rt * 100 * sc), what + ": the answer is not that of a fresh model with the "
                  "same factors", got=x, fresh=y)
        return
    A, B = np.atleast_2d(a[0]), np.atleast_2d(b[0])
    As, Bs = np.atleast_2d(a[1]), np.atleast_2d(b[1])
    mon.check(A.shape == B.shape, what + ": shapes differ", first=A.shape, second=B.shape)
    for i in range(len(A)):
        v = np.abs(Bs[i].astype(float))
        v = v[v < 1e30]
        sc = float(v.max()) if v.size else 0.0
        judge.same_answer(mon, (A[i], As[i]), (B[i], Bs[i]), what + ": differs from a fresh model with the same factors",
                          rtol=rt, atol=rt * max(sc, 1e-6))


def run_mf(spec, mon, kind):
    rng = rng_of(spec)
    users, items = gen.size(rng, 2, 12, 1200), gen.size(rng, 2, 14, 1200)
    dtype = np.float32 if kind == "lmf" else gen.pick(rng, [np.float32, np.float64])
    cls = gen.mf_classes()[kind]
    kw = {"als": dict(regularization=0.5, alpha=float(gen.pick(rng, [1.0, 2.0])), use_cg=bool(rng.integers(2)),
                      use_native=bool(rng.random() < 0.8)),
          "bpr": dict(learning_rate=0.1), "lmf": dict(learning_rate=0.5)}[kind]
    m = cls(factors=gen.size(rng, 1, 6, 320), dtype=dtype, num_threads=int(gen.pick(rng, [0, 1, 2])),
            random_state=int(rng.integers(1 << 30)), iterations=int(rng.integers(1, 4)), **kw)
    rt = 1e-5 if dtype is np.float32 else 1e-9
    hist = []
    st = {"queried": False, "cbq": False}
    probes = [query(rng, kind, users, items) for _ in range(int(rng.integers(1, 4)))]

    def ask():
        nonlocal m
        if rng.random() < 0.45:
            # the very same question again
            name, fn = gen.pick(rng, probes)
            mon.event("probe")
        else:
            name, fn = query(rng, kind, len(m.user_factors), len(m.item_factors))
        compare(mon, "%s.%s" % (kind, name), fn(m), fn(fresh(kind, m)), rt, hist)
        mon.ev()
        mon.event("q." + name)
        if st["queried"]:
            mon.event("query_after_query")
        st["queried"] = True
        hist.append("q:" + name)

    def fit(fail=None):
        ui = gen.nonempty_matrix(rng, len(m.user_factors) if m.user_factors is not None else users,
                                 len(m.item_factors) if m.item_factors is not None else items,
                                 values="conf", dtype=np.float32)
        cbq = rng.random() < 0.6
        ref = None
        if not fail and m.user_factors is not None and (kind != "bpr" or m.num_threads == 1) and m.random_state is not None:
            ref = fresh(kind, m)
            ref.random_state = m.random_state
        stop = int(rng.integers(0, m.iterations)) if fail else -1

        def cb(it, *a):
            if cbq:
                for _ in range(int(rng.integers(1, 3))):
                    hist.append("cb%d" % it)
                    ask()
                    mon.event("query_in_callback")
                st["cbq"] = True
            if it == stop:
                raise Stop()

        try:
            m.fit(ui, show_progress=False, callback=cb)
            if fail:
                raise Violation("an exception in the callback was swallowed")
        except Stop:
            mon.event("failed_fit")
        if ref is not None:
            ref.fit(ui.copy(), show_progress=False)
            for side in ("user_factors", "item_factors"):
                a, b = np.asarray(getattr(m, side), float), np.asarray(getattr(ref, side), float)
                sc = max(np.abs(b).max(initial=0), 1e-12)
                mon.check(a.shape == b.shape and np.allclose(a, b, rtol=0, atol=rt * 10 * sc), "%s: refit after %s: %s are not "
                          "those of a fresh model trained from the same factors with the same parameters" %
                          (kind, " > ".join(hist), side), got=a, fresh=b)
            mon.event("refit_vs_fresh")

    mon.event("fit")
    hist.append("fit")
    fit()
    for _ in range(int(rng.integers(4, 14))):
        op = gen.pick(rng, ["q", "q", "q", "q", "refit", "pu", "pi", "io", "pickle", "copy", "fail",
                            "params", "params"])
        if op == "q":
            if st["cbq"]:
                mon.event("query_after_callback_query")
            ask()
        elif op == "refit":
            hist.append("refit")
            m.iterations = int(rng.integers(1, 4))
            fit()
            mon.event("refit")
        elif op == "params":
            hist.append("params")
            change_params(rng, kind, m)
            mon.event("params")
            if rng.random() < 0.5:
                ask()
        elif op == "fail":
            hist.append("failing fit")
            fit(fail=True)
        elif op in ("pu", "pi") and kind == "als":
            U, I = len(m.user_factors), len(m.item_factors)
            n, w = (U, I) if op == "pu" else (I, U)
            ids = rng.permutation(n + 2)[: gen.size(rng, 1, 4, 120)]
            rows = gen.matrix(rng, len(ids), w, density=0.5, values="conf")
            hist.append(op)
            (m.partial_fit_users if op == "pu" else m.partial_fit_items)(gen.idform(rng, ids), rows)
            mon.event("partial_users" if op == "pu" else "partial_items")
        elif op == "io":
            hist.append("save/load")
            f = io.BytesIO()
            m.save(f)
            f.seek(0)
            if rng.random() < 0.7:
                m = cls.load(f)
            mon.event("saveload")
        elif op == "pickle":
            hist.append("pickle")
            m = pickle.loads(pickle.dumps(m))
            mon.event("pickle")
        elif op == "copy":
            # training a copy must not affect the original, and the other way round
            hist.append("deepcopy")
            other = copy.deepcopy(m)
            if rng.random() < 0.5:
                m, other = other, m
            ask()
            other.fit(gen.nonempty_matrix(rng, len(other.user_factors), len(other.item_factors), values="conf"),
                      show_progress=False)
            mon.event("copy")
            ask()
    ask()
    mon.nontrivial(kind, hist)
    mon.sample(model=kind, history=" > ".join(hist))


def run_knn(spec, mon):
    rng = rng_of(spec)
    kind = gen.pick(rng, ["item", "cosine", "tfidf", "bm25"])
    cls = gen.knn_classes()[kind]
    m = cls(K=gen.size(rng, 1, 8, 100), num_threads=int(gen.pick(rng, [0, 1, 2])))
    hist = []
    items = 0

    def ask():
        S = m.similarity
        n = S.shape[0]
        if rng.random() < 0.6:
            row = gen.matrix(rng, 1, n, density=0.4, values=gen.pick(rng, ["ones", "signed"]), dtype=np.float64)
            true, tol, reach = knn_ref.recommend_ref(S, row.indices, row.data)
            ids, sc = m.recommend(0, row, N=n, filter_already_liked_items=False)
            mon.check(set(ids.tolist()) == set(np.nonzero(reach)[0].tolist()),
                      "%s.recommend after %s: wrong items" % (kind, hist), got=ids, want=np.nonzero(reach)[0])
            mon.check((np.abs(sc - true[ids]) <= tol[ids]).all(), "%s.recommend after %s: scores are not those of the "
                      "current similarities" % (kind, hist), got=sc, want=true[ids])
            mon.event("knn.recommend")
        else:
            i = int(rng.integers(n))
            ids, sc = m.similar_items(i, N=n + 5)
            r = S.getrow(i)
            mon.check(dict(zip(ids.tolist(), sc.tolist())) == dict(zip(r.indices.tolist(), r.data.tolist())),
                      "%s.similar_items after %s: not the current similarities" % (kind, hist), got=(ids, sc), row=r)
            mon.event("knn.similar_items")
        mon.ev()
        hist.append("q")

    def fit():
        nonlocal items
        items = gen.size(rng, 2, 14, 1200)
        ui = gen.nonempty_matrix(rng, gen.size(rng, 1, 10, 100), items, dtype=np.float64)
        m.fit(ui, show_progress=False)
        fr = cls(**{p: getattr(m, p) for p in ("K", "K1", "B") if hasattr(m, p)}, num_threads=1)
        fr.fit(ui, show_progress=False)
        a, b = m.similarity.toarray(), fr.similarity.toarray()
        mon.check(a.shape == b.shape and np.allclose(a, b, rtol=1e-12, atol=0), "%s.fit after %s: similarities differ from "
                  "those of a fresh model" % (kind, hist), got=a, fresh=b)

    hist.append("fit")
    fit()
    mon.event("knn.fit")
    for _ in range(int(rng.integers(4, 12))):
        op = gen.pick(rng, ["q", "q", "q", "refit", "io", "pickle", "params"])
        if op == "q":
            ask()
        elif op == "refit":
            hist.append("refit")
            fit()
            mon.event("knn.refit")
        elif op == "params":
            m.K = gen.size(rng, 1, 8, 100)
            if kind == "bm25":
                m.K1, m.B = float(gen.pick(rng, [1.2, 10.0, 100.0])), float(gen.pick(rng, [0.0, 0.8, 1.0]))
            hist.append("params")
            mon.event("knn.params")
        elif op == "io":
            hist.append("save/load")
            f = io.BytesIO()
            m.save(f)
            f.seek(0)
            m = cls.load(f)
            mon.event("knn.saveload")
        else:
            hist.append("pickle")
            m = gen.pick(rng, [lambda: pickle.loads(pickle.dumps(m)), lambda: copy.deepcopy(m)])()
            mon.event("knn.pickle")
    ask()
    mon.nontrivial(kind, hist)


def run_case(spec, mon):
    if spec["kind"] == "knn":
        run_knn(spec, mon)
    else:
        run_mf(spec, mon, spec["kind"])
