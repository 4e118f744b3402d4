"""C27: models are built and trained with exactly the parameters given."""
import io
import sys
import warnings

import numpy as np

from vlib import gen
from vlib.core import case_list, rng_of

PROP = "C27"
RULE = ("make: one case = one factory function (implicit.als, bpr, lmf, approximate_als) or class called with a random choice of parameters, "
        "some by position; the attributes must be the given values or the documented defaults, training must give the factors of the class "
        "given everything by keyword, with the given columns and types.  effect: two trainings that differ in one parameter must differ exactly "
        "when the parameter is one that changes the result.  ann: the parameters seen by the index library must be those given.  distinct by "
        "(model, parameters given, values)")
NEED = ["m.als", "m.bpr", "m.lmf", "m.annoy", "m.faiss", "m.nmslib", "m.item", "m.cosine", "m.tfidf", "m.bm25", "factory", "class", "positional", "defaults", "all_given",
        "trained", "extreme", "gpu_refused", "e.als.regularization", "e.als.alpha", "e.als.use_cg", "e.als.iterations", "e.als.random_state", "e.als.cg_steps",
        "e.als.num_threads", "e.als.calculate_training_loss", "e.als.use_native", "e.als.dtype", "e.als.factors",
        "e.bpr.learning_rate", "e.bpr.regularization", "e.bpr.iterations", "e.bpr.verify_negative_samples", "e.bpr.random_state",
        "e.bpr.dtype", "e.bpr.factors", "e.lmf.learning_rate", "e.lmf.regularization", "e.lmf.iterations", "e.lmf.neg_prop", "e.lmf.random_state",
        "e.lmf.num_threads", "e.lmf.factors", "e.als.show_progress", "e.als.callback", "e.bpr.show_progress", "e.bpr.callback",
        "e.lmf.show_progress", "e.lmf.callback", "e.knn.show_progress", "e.knn.K", "e.knn.num_threads", "e.bm25.K1", "e.bm25.B",
        "a.n_trees", "a.search_k", "a.nlist", "a.nprobe", "a.method", "a.index_params", "a.query_params", "a.exact_part", "a.default"]
ASSUMPTIONS = ["LogisticMatrixFactorization's dtype is not judged (its factors are float32 whatever is given)",
               "the annoy and faiss parameters are read from the index objects the models expose; nmslib's are recorded at nmslib.init when the model calls it through the module"]

NONE = object()
# documented parameters in order, with defaults
PARAMS = {
    "als": [("factors", 100), ("regularization", 0.01), ("alpha", 1.0), ("dtype", np.float32), ("use_native", True), ("use_cg", True), ("iterations", 15),
            ("calculate_training_loss", False), ("num_threads", 0), ("random_state", None)],
    "bpr": [("factors", 100), ("learning_rate", 0.01), ("regularization", 0.01), ("dtype", np.float32), ("iterations", 100), ("num_threads", 0),
            ("verify_negative_samples", True), ("random_state", None)],
    "lmf": [("factors", 30), ("learning_rate", 1.0), ("regularization", 0.6), ("dtype", np.float32), ("iterations", 30), ("neg_prop", 30), ("num_threads", 0),
            ("random_state", None)],
    "item": [("K", 20), ("num_threads", 0)], "cosine": [("K", 20), ("num_threads", 0)], "tfidf": [("K", 20), ("num_threads", 0)],
    "bm25": [("K", 20), ("K1", 1.2), ("B", 0.75), ("num_threads", 0)],
}
FACTORY = {  # the factories have use_gpu among the positions
    "als": ["factors", "regularization", "alpha", "dtype", "use_native", "use_cg", "use_gpu", "iterations", "calculate_training_loss", "num_threads", "random_state"],
    "bpr": ["factors", "learning_rate", "regularization", "dtype", "iterations", "use_gpu", "num_threads", "verify_negative_samples", "random_state"],
    "lmf": ["factors", "learning_rate", "regularization", "dtype", "iterations", "neg_prop", "use_gpu", "num_threads", "random_state"],
}
ANN = {"annoy": [("approximate_similar_items", True), ("approximate_recommend", True), ("n_trees", 50), ("search_k", -1)],
       "faiss": [("approximate_similar_items", True), ("approximate_recommend", True), ("nlist", 400), ("nprobe", 20)],
       "nmslib": [("approximate_similar_items", True), ("approximate_recommend", True), ("method", "hnsw"),
                  ("index_params", {"M": 16, "post": 0, "efConstruction": 400}), ("query_params", {"ef": 90})]}


def cases(tier, seed):
    q = tier == "quick"
    return case_list(seed, make=4000 if q else 48000, effect=6000 if q else 72000, ann=700 if q else 8000)


EXTREME = {"factors": [500, 3000], "regularization": [0.0, 1e-9, 500.0], "alpha": [0.0, 1e-4, 1e4], "iterations": [0, 1000, 100000], "num_threads": [0, 16, 64],
           "learning_rate": [0.0, 1e-7, 25.0], "neg_prop": [0, 200, 5000], "K": [1, 500, 20000], "K1": [0.0, 5000.0], "B": [0.0, 1.0], "n_trees": [1, 1000],
           "search_k": [0, 10**7], "nlist": [1, 5000], "nprobe": [1, 5000], "random_state": [0, 2**31 - 1, 2**40]}


def value(rng, p, extreme=False):
    if extreme and p in EXTREME and rng.random() < 0.6:
        return gen.pick(rng, EXTREME[p])
    return {
        "factors": lambda: int(gen.pick(rng, [1, 2, 3, 7, 16, 33])), "regularization": lambda: float(gen.pick(rng, [0.02, 0.3, 2.0])),
        "alpha": lambda: float(gen.pick(rng, [0.5, 1.0, 2.5, 40.0])), "dtype": lambda: gen.pick(rng, [np.float32, np.float64]),
        "use_native": lambda: bool(rng.integers(2)), "use_cg": lambda: bool(rng.integers(2)), "iterations": lambda: int(rng.integers(0, 5)),
        "calculate_training_loss": lambda: bool(rng.integers(2)), "num_threads": lambda: int(rng.integers(1, 4)),
        "random_state": lambda: int(gen.pick(rng, [0, 1, int(rng.integers(1 << 30))])), "learning_rate": lambda: float(gen.pick(rng, [0.003, 0.05, 0.4])),
        "verify_negative_samples": lambda: bool(rng.integers(2)), "neg_prop": lambda: int(gen.pick(rng, [1, 5, 17])),
        "K": lambda: int(gen.pick(rng, [1, 3, 11, 50])), "K1": lambda: float(gen.pick(rng, [0.2, 3.0, 100.0])), "B": lambda: float(gen.pick(rng, [0.0, 0.4, 1.0])),
        "approximate_similar_items": lambda: bool(rng.random() < 0.7), "approximate_recommend": lambda: bool(rng.random() < 0.7),
        "n_trees": lambda: int(gen.pick(rng, [1, 4, 23])), "search_k": lambda: int(gen.pick(rng, [-1, 7, 100, 5000])),
        "nlist": lambda: int(gen.pick(rng, [1, 2, 5])), "nprobe": lambda: int(gen.pick(rng, [1, 2, 4])),
        "method": lambda: gen.pick(rng, ["hnsw", "hnsw", "brute_force"]),
    }[p]()


def cls_of(kind):
    return {**gen.mf_classes(), **gen.knn_classes()}[kind]


def factory_of(kind):
    import implicit.als
    import implicit.approximate_als
    import implicit.bpr
    import implicit.lmf

    return {"als": implicit.als.AlternatingLeastSquares, "bpr": implicit.bpr.BayesianPersonalizedRanking, "lmf": implicit.lmf.LogisticMatrixFactorization,
            "annoy": implicit.approximate_als.AnnoyAlternatingLeastSquares, "faiss": implicit.approximate_als.FaissAlternatingLeastSquares,
            "nmslib": implicit.approximate_als.NMSLibAlternatingLeastSquares}[kind]


def spell(rng, mon, order, given, defaults):
    """some of the parameters by position"""
    k = int(rng.integers(1, len(order) + 1)) if rng.random() < 0.4 else 0
    pos = []
    for p in order[:k]:
        if p not in given and p not in defaults:
            break
        pos.append(given.get(p, defaults.get(p)))
    if pos:
        mon.event("positional")
    return pos, {p: v for p, v in given.items() if p not in order[: len(pos)]}


def same_value(a, b, p):
    if p == "dtype":
        return np.dtype(a) == np.dtype(b)
    return a is b if b is None or isinstance(b, bool) else a == b and not isinstance(a, bool)


def attributes(mon, m, params, given, what):
    for p, d in params:
        want = given.get(p, d)
        got = getattr(m, p, NONE)
        mon.check(got is not NONE and same_value(got, want, p), "%s: %s is not the one %s" % (what, p, "given" if p in given else "documented as default"), parameter=p,
                  want=repr(want), got=repr(got))


def shapes(mon, m, kind, users, items, given, what):
    w = given.get("factors", dict(PARAMS[kind])["factors"]) + gen.EXTRA[kind]
    mon.check(m.user_factors.shape == (users, w) and m.item_factors.shape == (items, w), "%s: factors of another shape" % what, got=[m.user_factors.shape, m.item_factors.shape],
              want=[(users, w), (items, w)])
    if kind != "lmf":
        dt = np.dtype(given.get("dtype", np.float32))
        mon.check(m.user_factors.dtype == dt and m.item_factors.dtype == dt, "%s: factors of another type" % what, got=[str(m.user_factors.dtype), str(m.item_factors.dtype)])


def data(rng, users=None, items=None, density=0.3):
    users, items = users or gen.size(rng, 3, 14, 60), items or gen.size(rng, 3, 14, 60)
    return gen.nonempty_matrix(rng, users, items, density=density, values="ints", dtype=np.float32), users, items


def make(rng, mon):
    kind = gen.pick(rng, ["als", "als", "bpr", "lmf", "annoy", "faiss", "nmslib", "item", "cosine", "tfidf", "bm25"])
    mon.event("m." + kind)
    knn, ann = kind in gen.knn_classes(), kind in ANN
    base = "als" if ann else kind
    params, defaults = PARAMS[base], dict(PARAMS[base])
    r = rng.random()
    names = [p for p, _ in params if r > 0.9 or rng.random() < 0.5] if r > 0.05 else []
    mon.event("defaults") if not names else None
    mon.event("all_given") if len(names) == len(params) else None
    extreme = rng.random() < 0.3
    given = {p: value(rng, p, extreme) for p in names}
    if extreme:
        mon.event("extreme")
    if ann:
        own = {}
        for p, _ in ANN[kind]:
            if p in ("index_params", "query_params"):
                continue
            if rng.random() < 0.4:
                own[p] = value(rng, p, extreme)
        if kind == "nmslib":
            if own.get("method") == "brute_force":
                own.update(index_params={}, query_params={})
            else:
                if rng.random() < 0.4:
                    own["index_params"] = {"M": int(gen.pick(rng, [4, 20])), "efConstruction": 77}
                if rng.random() < 0.4:
                    own["query_params"] = {"ef": int(gen.pick(rng, [3, 60]))}
        pos, kw = spell(rng, mon, FACTORY["als"][:6], given, defaults)
        w = factory_of(kind)(*pos, **kw, **own, **(dict(use_gpu=False) if rng.random() < 0.5 else {}))
        mon.event("factory")
        attributes(mon, w, ANN[kind], own, "%s factory" % kind)
        m = w.model
        mon.check(isinstance(m, cls_of("als")), "%s factory: not an ALS model inside" % kind)
    else:
        w = None
        if not knn and rng.random() < 0.6:
            mon.event("factory")
            g = dict(given)
            if rng.random() < 0.3:
                g["use_gpu"] = False
            pos, kw = spell(rng, mon, FACTORY[kind], g, dict(defaults, use_gpu=False))
            m = factory_of(kind)(*pos, **kw)
            mon.check(type(m) is cls_of(kind), "%s factory: another class" % kind)
        else:
            mon.event("class")
            pos, kw = spell(rng, mon, [p for p, _ in params], given, defaults)
            m = cls_of(kind)(*pos, **kw)
    mon.ev()
    what = "%s(%s)" % (kind, ", ".join(sorted(given)))
    attributes(mon, m, params, given, what)
    mon.nontrivial(kind, sorted((a, repr(b)) for a, b in given.items()), len(pos))
    # trained like the class given everything by keyword, with one thread and a seed
    if rng.random() < 0.6 and not extreme:
        mat, users, items = data(rng)
        if knn:
            ref = cls_of(kind)(**{p: given.get(p, d) for p, d in params})
            a, b = [train(x, mat) for x in (m, ref)]
            mon.check((a.similarity != b.similarity).nnz == 0 and a.K == ref.K, what + ": another similarity")
            full = dict(defaults, **given)
            mon.check(np.diff(a.similarity.indptr).max() <= full["K"], what + ": more than K neighbours")
        else:
            if "random_state" not in given:
                m.random_state = 17
            if kind not in ("als",) or given.get("num_threads", 0) == 0:
                m.num_threads = 1
            full = {**defaults, "random_state": 17, **given, "num_threads": 1}
            try:
                ref = train(cls_of(base)(**full), mat)
            except ValueError:  # an ill conditioned system
                mon.event("refused")
                return
            if ann and full["iterations"] > 0 and items > 6:
                if kind == "faiss" and w.nlist > items // 2:
                    m.fit(mat, show_progress=False)
                else:
                    w.fit(mat, show_progress=False)
            else:
                train(m, mat)
            shapes(mon, m, base, users, items, given, what)
            if base == "als":  # the solver divides rows among threads, the sums per row are the same
                ok = np.array_equal(m.user_factors, ref.user_factors) and np.array_equal(m.item_factors, ref.item_factors)
                ok = ok or np.allclose(m.user_factors, ref.user_factors, rtol=1e-3, atol=1e-4) and np.allclose(m.item_factors, ref.item_factors, rtol=1e-3, atol=1e-4)
            else:
                ok = np.array_equal(m.user_factors, ref.user_factors) and np.array_equal(m.item_factors, ref.item_factors)
            mon.check(ok, what + ": another model than the class with all parameters by keyword", full={k: repr(v) for k, v in full.items()})
        mon.event("trained")
        mon.ev()
    if not knn and rng.random() < 0.05:
        import implicit.gpu

        if not implicit.gpu.HAS_CUDA:
            try:
                factory_of(kind)(use_gpu=True)
            except (ValueError, NotImplementedError, ImportError):
                mon.event("gpu_refused")
            else:
                mon.check(False, "%s factory with use_gpu=True and no GPU does not raise" % kind)
    mon.sample(model=kind, given={a: repr(b) for a, b in given.items()})


def train(m, mat, **kw):
    err, sys.stderr = sys.stderr, io.StringIO()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            m.fit(mat, **{"show_progress": False, **kw})
    finally:
        sys.stderr = err
    return m


# what a change of the parameter does: "other" another model, "same" the same one, "close" the same up to rounding
EFFECT = {
    "als": {"regularization": "other", "alpha": "other", "use_cg": "other", "iterations": "other", "random_state": "other", "cg_steps": "other",
            "num_threads": "same", "calculate_training_loss": "same", "use_native": "close", "show_progress": "same", "callback": "same", "dtype": "shape", "factors": "shape"},
    "bpr": {"learning_rate": "other", "regularization": "other", "iterations": "other", "verify_negative_samples": "other", "random_state": "other",
            "dtype": "shape", "factors": "shape", "show_progress": "same", "callback": "same"},
    "lmf": {"learning_rate": "other", "regularization": "other", "iterations": "other", "neg_prop": "other", "random_state": "other", "num_threads": "any", "factors": "shape",
            "show_progress": "same", "callback": "same"},
    "item": {"K": "K", "num_threads": "same", "show_progress": "same"}, "cosine": {"K": "K", "num_threads": "same"}, "tfidf": {"K": "K", "num_threads": "same"},
    "bm25": {"K": "K", "num_threads": "same", "show_progress": "same", "K1": "other", "B": "other"},
}


def effect(rng, mon):
    kind = gen.pick(rng, ["als", "als", "als", "bpr", "bpr", "lmf", "lmf", "item", "cosine", "tfidf", "bm25", "bm25"])
    p = gen.pick(rng, list(EFFECT[kind]))
    e = EFFECT[kind][p]
    knn = kind in gen.knn_classes()
    mon.event("e.%s.%s" % ("knn" if knn and p in ("K", "num_threads", "show_progress") else kind, p))
    users, items = int(rng.integers(12, 40)), int(rng.integers(12, 40))
    mat = gen.nonempty_matrix(rng, users, items, density=0.4, values="ints", dtype=np.float32, empty=0)
    given = {q: value(rng, q) for q, _ in PARAMS[kind]}
    given["num_threads"] = 1
    two = dict(given)
    if not knn:
        given["iterations"] = int(rng.integers(1, 4))
        given["factors"] = int(rng.integers(6, 14))
    if kind == "als":
        if p == "cg_steps":
            given["use_cg"] = True
        if p == "use_native":
            given.update(iterations=1, use_cg=False, dtype=np.float64, regularization=0.3)  # (C05 judges the CG steps of both)
    if kind == "bpr":
        given["learning_rate"] = 0.05
    two = dict(given)
    v = given.get(p)
    fits = [{}, {}]
    if p in ("show_progress", "callback"):
        v, two[p] = False, True
        fits[1] = dict(show_progress=True) if p == "show_progress" else dict(callback=lambda *a: None)
    elif p == "cg_steps":
        v = 3
        two_steps = 1
    else:
        for _ in range(50):
            two[p] = value(rng, p)
            if p == "factors":
                two[p] = int(rng.integers(1, 20))
            elif p == "iterations":
                two[p] = int(rng.integers(0, 6))
            if not same_value(two[p], v, p):
                break
        else:
            return
    if p == "neg_prop":  # the number of negatives is capped by the number of columns
        given[p], two[p] = (1, 5) if rng.random() < 0.5 else (5, 1)
        mat = gen.nonempty_matrix(rng, users, items, density=0.1, values="ints", dtype=np.float32, empty=0)
    models = [cls_of(kind)(**{a: b for a, b in g.items() if a not in ("show_progress", "callback")}) for g in (given, two)]
    if p == "cg_steps":
        models[1].cg_steps = two_steps
    try:
        a, b = [train(m, mat, **f) for m, f in zip(models, fits)]
    except ValueError:
        mon.event("refused")
        return
    mon.ev()
    what = "%s trained with %s %r and %r" % (kind, p, v, two_steps if p == "cg_steps" else two[p])
    mon.nontrivial(kind, p, repr(v), repr(two.get(p)), users, items)
    if knn:
        d = (a.similarity != b.similarity).nnz
        if e == "same":
            mon.check(d == 0, what + ": another similarity")
        elif e == "other":
            mon.check(d != 0, what + ": the same similarity")
        else:  # K largest of more
            small, large = sorted((a, b), key=lambda m: m.K)
            for i in range(items):
                s, l = [m.similarity.data[m.similarity.indptr[i]: m.similarity.indptr[i + 1]] for m in (small, large)]
                mon.check(len(s) == min(small.K, len(l)), what + ": another number of neighbours", item=i, few=len(s), many=len(l))
                mon.check(np.allclose(np.sort(s)[::-1], np.sort(l)[::-1][: len(s)]), what + ": not the largest", item=i)
        return
    for m, g in ((a, given), (b, two)):
        shapes(mon, m, kind, users, items, g, what)
    if e == "shape" or e == "any":
        return
    ua, ub, ia, ib = a.user_factors, b.user_factors, a.item_factors, b.item_factors
    if e == "same":
        mon.check(np.array_equal(ua, ub) and np.array_equal(ia, ib), what + ": another model")
    elif e == "close":
        ok = all(np.allclose(x, y, rtol=0.02, atol=0.02 * np.abs(x).max()) for x, y in ((ua, ub), (ia, ib)))
        mon.check(ok, what + ": another model, beyond rounding", diff=[float(np.abs(ua - ub).max()), float(np.abs(ia - ib).max())])
    elif e == "other":
        mon.check(not (np.array_equal(ua, ub) and np.array_equal(ia, ib)), what + ": the same model, the parameter has no effect")


# ------------------------------------------------------------------ ANN libraries
class Recorded:
    """delegates to an nmslib index, recording the parameters it is given"""

    def __init__(self, index, log):
        self.__dict__.update(_i=index, _l=log)

    def __getattr__(self, n):
        f = getattr(self._i, n)
        if not callable(f):
            return f

        def call(*a, **kw):
            self._l.append((n, a, kw))
            return f(*a, **kw)
        return call


def ann(rng, mon):
    import implicit.gpu
    from implicit.ann.annoy import AnnoyModel
    from implicit.ann.faiss import FaissModel
    from implicit.ann.nmslib import NMSLibModel
    from vlib import annx

    lib = gen.pick(rng, ["annoy", "faiss", "nmslib"])
    users, items = 8, int(gen.pick(rng, [60, 200, 900]))
    m = annx.fixed_als(rng, users, items, int(rng.integers(3, 9)), style="normal")
    sim, rec = gen.pick(rng, [(True, True), (True, False), (False, True), (True, True)])
    if not (sim and rec):
        mon.event("a.exact_part")
    part = dict(approximate_similar_items=sim, approximate_recommend=rec)
    mat = gen.nonempty_matrix(rng, users, items, density=0.2)

    def indexes(w):
        got = {"similar_items": w.similar_items_index, "recommend": w.recommend_index}
        for n, on in (("similar_items", sim), ("recommend", rec)):
            mon.check((got[n] is not None) == on, "%s: index for %s %s" % (lib, n, "missing" if on else "built though not asked for"))
        return {n: i for n, i in got.items() if i is not None}

    mon.nontrivial(lib, items, sim, rec, int(rng.integers(50)))
    mon.ev()
    if lib == "annoy":
        given = {p: value(rng, p) for p in ("n_trees", "search_k") if rng.random() < 0.8}
        if not given:
            mon.event("a.default")
        w = AnnoyModel(m, **given, **part)
        w.fit(mat, show_progress=False)
        for n, i in indexes(w).items():
            mon.event("a.n_trees")
            mon.check(i.get_n_trees() == given.get("n_trees", 50), "annoy: the %s index has another number of trees" % n, got=i.get_n_trees(), given=given)
            mon.check(i.get_n_items() == items, "annoy: the %s index has another number of items" % n)
        # search_k: the same search made directly on the index
        k = given.get("search_k", -1)
        N = int(gen.pick(rng, [3, 10]))
        u, t = int(rng.integers(users)), int(rng.integers(items))
        mon.event("a.search_k")
        if rec:
            got = w.recommend(u, None, N=N, filter_already_liked_items=False)[0]
            own = w.recommend_index.get_nns_by_vector(np.append(m.user_factors[u], 0), N, search_k=k)
            mon.check([int(x) for x in got] == own, "annoy: recommend does not search with the search_k given", search_k=k, got=got, own=own)
        if sim:
            got = w.similar_items(t, N=N)[0]
            own = w.similar_items_index.get_nns_by_vector(m.item_factors[t], N, search_k=k)
            mon.check([int(x) for x in got] == own, "annoy: similar_items does not search with the search_k given", search_k=k, got=got, own=own)
    elif lib == "faiss":
        import faiss

        given = {p: value(rng, p) for p in ("nlist", "nprobe") if rng.random() < 0.8}
        if "nlist" not in given and items < 900:
            given["nlist"] = 3
        if "nlist" not in given or "nprobe" not in given:
            mon.event("a.default")
        w = FaissModel(m, use_gpu=False, **given, **part)
        w.fit(mat, show_progress=False)
        for n, i in indexes(w).items():
            mon.event("a.nlist")
            mon.event("a.nprobe")
            mon.check(i.nlist == given.get("nlist", 400), "faiss: the %s index has another nlist" % n, got=i.nlist, given=given)
            mon.check(i.nprobe == given.get("nprobe", 20), "faiss: the %s index has another nprobe" % n, got=i.nprobe, given=given)
            mon.check(i.ntotal == items and i.metric_type == faiss.METRIC_INNER_PRODUCT, "faiss: the %s index has another content or metric" % n)
    else:
        import nmslib

        method = value(rng, "method")
        given = dict(method=method) if method != "hnsw" or rng.random() < 0.5 else {}
        if method == "brute_force":
            ip, qp = {}, {}
        else:
            ip, qp = {"M": int(gen.pick(rng, [5, 20])), "efConstruction": 66, "post": 0}, {"ef": int(gen.pick(rng, [2, 40]))}
        wip, wqp = {"M": 16, "post": 0, "efConstruction": 400}, {"ef": 90}
        if method != "hnsw" or rng.random() < 0.7:
            given["index_params"] = wip = ip
        if method != "hnsw" or rng.random() < 0.7:
            given["query_params"] = wqp = qp
        if len(given) < 3:
            mon.event("a.default")
        w = NMSLibModel(m, **given, **part)
        log, real = [], nmslib.init

        def init(*a, **kw):
            index, calls = real(*a, **kw), []
            log.append((a, kw, calls))
            return Recorded(index, calls)

        nmslib.init = init
        try:
            w.fit(mat, show_progress=False)
        finally:
            nmslib.init = real
        idx = indexes(w)
        if len(log) != len(idx):
            return  # not made through the module
        for (a, kw, calls), n in zip(log, [x for x in ("similar_items", "recommend") if x in idx]):
            made = kw.get("method", a[1] if len(a) > 1 else "hnsw")
            mon.event("a.method")
            mon.check(made == method, "nmslib: an index is built with another method", given=method, got=made)
            c = [x for x in calls if x[0] == "createIndex"]
            q = [x for x in calls if x[0] == "setQueryTimeParams"]
            mon.check(len(c) == 1, "nmslib: an index is not built once", calls=[x[0] for x in calls])
            p = dict((c[0][1] + (c[0][2].get("index_params"),))[0] or {})
            mon.event("a.index_params")
            mon.check(all(p.get(k) == v for k, v in wip.items()), "nmslib: an index is built with other index_params", given=wip, got=p)
            if wqp:
                mon.event("a.query_params")
                p = dict((q[-1][1] + (q[-1][2].get("params"),))[0] or {}) if q else {}
                mon.check(all(p.get(k) == v for k, v in wqp.items()), "nmslib: an index is searched with other query_params", given=wqp, got=p)
    mon.sample(lib=lib, items=items, given={k: repr(v) for k, v in given.items()})


def run_case(spec, mon):
    rng = rng_of(spec)
    {"make": make, "effect": effect, "ann": ann}[spec["kind"]](rng, mon)
