"""C20: calls leave the caller's data and the queried model unchanged."""
import copy
import io
import pickle

import numpy as np
import scipy.sparse as sp

from vlib import annx, gen
from vlib.core import case_list, rng_of

PROP = "C20"
RULE = ("one case = one model taken through 6-14 public calls; the bytes of every argument (values, index arrays, lists) and, for "
        "calls that only query, of every public attribute of the model are compared before and after the call; then every returned "
        "array is overwritten and the call repeated.  distinct by (model kind, call, argument forms)")
NEED = ["als", "bpr", "lmf", "item", "cosine", "tfidf", "bm25", "annoy", "faiss", "nmslib", "fit", "refit", "recommend", "recommend.batch",
        "recommend.items", "recommend.filter_items", "recommend.recalculate", "similar_items", "similar_items.recalculate", "similar_users",
        "rank_items", "recommend_all", "recalculate_user", "recalculate_item", "partial_fit_users", "partial_fit_items", "explain",
        "explain.weights", "save", "pickle", "metrics", "train_test_split", "leave_k_out_split", "tfidf_weight", "bm25_weight", "normalize",
        "all_pairs_knn", "calculate_loss", "least_squares", "least_squares_cg", "augment", "topk", "scribbled", "unsorted", "coo", "csc", "lil",
        "int64_index", "dtype.int", "dtype.float64", "explicit_zeros", "duplicates", "fit.failed"]
ASSUMPTIONS = ["random generators passed as random_state advance", "partial fits, fit and the native solvers change the factors they are asked to change",
               "the coordinates of a weighted matrix may be shared with the matrix it was made from (its values may not)"]


def cases(tier, seed):
    q = tier == "quick"
    return case_list(seed, mf=3000 if q else 20000, knn=2400 if q else 14000, ann=700 if q else 5000, func=4000 if q else 25000)


# ------------------------------------------------------------------ digests
def content(x):
    """the bytes of everything reachable"""
    if isinstance(x, np.ndarray):
        return ("nd", x.dtype.str, x.shape, np.ascontiguousarray(x).tobytes())
    if sp.issparse(x):
        if x.format in ("csr", "csc"):
            return (x.format, x.shape, content(x.data), content(x.indices), content(x.indptr))
        if x.format == "coo":
            return ("coo", x.shape, content(x.data), content(x.row), content(x.col))
        if x.format == "lil":
            return ("lil", x.shape, x.dtype.str, repr(x.rows.tolist()), repr(x.data.tolist()))
        return (x.format, x.shape, content(x.tocoo()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(content(i) for i in x))
    if isinstance(x, dict):
        return ("dict", tuple((k, content(v)) for k, v in sorted(x.items())))
    if isinstance(x, (int, float, str, bool, np.generic, type(None), np.dtype)):
        return (type(x).__name__, repr(x))
    if isinstance(x, np.random.Generator):
        return ("gen", repr(x.bit_generator.state))
    if isinstance(x, np.random.RandomState):
        return ("rs", repr(x.get_state()))
    if hasattr(x, "recommend"):
        return state(x)
    return ("obj", id(x))


def state(m):
    out = {}
    for k, v in gen.public(m).items():
        out[k] = content(v)
    return ("model", tuple(sorted(out.items())))


def diff(a, b):
    for (k, x), (k2, y) in zip(a[1], b[1]):
        if k != k2 or x != y:
            return k
    return "attributes"


def scribble(x, idx=True):
    if isinstance(x, np.ndarray):
        if x.flags.writeable:
            x[...] = 77
    elif sp.issparse(x):
        x.data[...] = 77
        if idx:
            x.indices[...] = 0
            x.indptr[...] = 0
    elif isinstance(x, (list, tuple)):
        for i in x:
            scribble(i, idx)
        if isinstance(x, list):
            x.clear()


class Watch:
    def __init__(self, mon, kind):
        self.mon, self.kind = mon, kind

    def call(self, name, fn, args, model=None, changes=False, repeat=True, idx=True, may_raise=()):
        """fn(*args): the arguments keep their bytes, the model too unless `changes`; the result is the caller's"""
        mon = self.mon
        what = "%s.%s" % (self.kind, name)
        before = [content(a) for a in args]
        mb = state(model) if model is not None and not changes else None
        try:
            out = fn(*args)
        except may_raise:
            out, repeat = None, False
        mon.ev()
        mon.event(name)
        for i, (a, b) in enumerate(zip(args, before)):
            mon.check(content(a) == b, "%s changed its argument %d" % (what, i), argument=a)
        if mb is not None:
            ma = state(model)
            mon.check(ma == mb, "%s changed the model's %s" % (what, diff(mb, ma) if ma != mb else ""))
        if not repeat or out is None:
            return out
        # the result belongs to the caller
        keep = content(out)
        mafter = state(model) if model is not None else None
        result = copy.deepcopy(out)
        scribble(out, idx)
        mon.event("scribbled")
        for i, (a, b) in enumerate(zip(args, before)):
            mon.check(content(a) == b, "overwriting the result of %s changes argument %d" % (what, i))
        if mafter is not None:
            mc = state(model)
            mon.check(mc == mafter, "overwriting the result of %s changes the model's %s" % (what, diff(mafter, mc) if mc != mafter else ""))
        if not changes:
            again = fn(*args)
            mon.ev()
            mon.check(content(again) == keep, "%s gives another answer after its result was overwritten" % what, first=result, second=again)
        return result


# ------------------------------------------------------------------ arguments
def hostile(rng, mon, m, csr=False, zeros=True, ints=True, dups=False):
    """the matrix with unusual but accepted storage"""
    m = m.copy()
    if zeros and m.nnz and rng.random() < 0.15:
        m.data[int(rng.integers(m.nnz))] = 0
        mon.event("explicit_zeros")
    if rng.random() < 0.3 and m.nnz:
        for u in range(m.shape[0]):
            s = slice(m.indptr[u], m.indptr[u + 1])
            p = rng.permutation(s.stop - s.start)
            m.indices[s], m.data[s] = m.indices[s][p], m.data[s][p]
        m = gen.reflag(rng, m)
        mon.event("unsorted")
    r = rng.random()
    if r < 0.2:
        m = m.astype(np.float64)
        mon.event("dtype.float64")
    elif r < 0.35 and ints:
        m = m.astype(np.int32)
        mon.event("dtype.int")
    if rng.random() < 0.15:
        m.indices, m.indptr = m.indices.astype(np.int64), m.indptr.astype(np.int64)
        mon.event("int64_index")
    if not csr:
        f = gen.pick(rng, ["csr", "csr", "coo", "csc", "lil"])
        if f != "csr":
            m = m.asformat(f)
            mon.event(f)
            if f == "coo" and dups and m.nnz:
                m = sp.coo_matrix((np.append(m.data, m.data[0]), (np.append(m.row, m.row[0]), np.append(m.col, m.col[0]))), shape=m.shape)
                mon.event("duplicates")
            elif f == "coo" and rng.random() < 0.5:
                m.sum_duplicates()  # canonical, and marked as such
                mon.event("coo_canonical")
    return m


def filters(rng, mon, items, name, ann=False):
    """keyword arguments of a query"""
    r = rng.random()
    ids = rng.permutation(items)[: int(rng.integers(1, items + 1))]
    ids = gen.idform(rng, ids)
    if r < 0.35:
        mon.event(name + ".filter_items")
        return {"filter_items": ids}
    if r < 0.6 and not ann:
        mon.event(name + ".items")
        return {"items": ids}
    return {}


def queries(rng, mon, w, kind, m, users, items, als=False, ann=False):
    knn = kind in gen.knn_classes()
    op = gen.pick(rng, ["recommend", "recommend", "similar_items", "other"])
    batch = rng.random() < 0.5
    nq = gen.size(rng, 1, 5, 220) if batch else 1
    N = int(gen.pick(rng, [1, 2, 5, items, items + 3]))
    rows = hostile(rng, mon, gen.matrix(rng, nq, items, density=0.4, values="ints"), csr=True)
    cols = hostile(rng, mon, gen.matrix(rng, nq, users, density=0.4, values="ints"), csr=True)
    us, its = rng.integers(0, users, nq), rng.integers(0, items, nq)
    u = gen.idform(rng, us) if batch else int(us[0])
    i = gen.idform(rng, its) if batch else int(its[0])
    if op == "recommend":
        kw = filters(rng, mon, items, "recommend", ann)
        like = bool(rng.integers(2))
        if als and rng.random() < 0.4:
            kw["recalculate_user"] = True
            mon.event("recommend.recalculate")
        if batch:
            mon.event("recommend.batch")
        w.call("recommend", lambda u, r, kw: m.recommend(u, r, N=N, filter_already_liked_items=like, **kw), [u, rows, kw], m)
    elif op == "similar_items":
        kw = filters(rng, mon, items, "similar_items", ann)
        if (als or ann) and rng.random() < 0.4:
            kw.update(recalculate_item=True, item_users=cols)
            mon.event("similar_items.recalculate")
        w.call("similar_items", lambda i, kw: m.similar_items(i, N=N, **kw), [i, kw], m)
    elif ann:
        pass
    else:
        o = gen.pick(rng, ["rank_items", "save", "pickle", "metrics"] + ([] if knn else ["similar_users", "recommend_all"]) +
                     (["recalculate_user", "recalculate_item", "explain"] if als else []))
        if o == "similar_users":
            ids = gen.idform(rng, rng.permutation(users)[: int(rng.integers(1, users + 1))])
            kw = gen.pick(rng, [{}, {"users": ids}, {"filter_users": ids}])
            w.call(o, lambda u, kw: m.similar_users(u, N=N, **kw), [u, kw], m)
        elif o == "rank_items":
            sel = gen.idform(rng, rng.permutation(items)[: int(rng.integers(1, items + 1))])
            w.call(o, lambda u, r, s: m.rank_items(u, r, s), [int(us[0]), rows[:1] if batch else rows, sel], m)
        elif o == "recommend_all":
            full = hostile(rng, mon, gen.matrix(rng, users, items, density=0.3, values="ints"), csr=True)
            w.call(o, lambda r: m.recommend_all(r, N=N), [full], m)
        elif o == "save":
            def save():
                b = io.BytesIO()
                m.save(b)
            w.call(o, save, [], m)
        elif o == "pickle":
            w.call(o, lambda: len(pickle.dumps(m)), [], m)
        elif o == "metrics":
            from implicit import evaluation as ev

            tr = hostile(rng, mon, gen.matrix(rng, users, items, density=0.3, values="ints"))
            te = gen.nonempty_matrix(rng, users, items, density=0.2, values="ints").tolil()
            te[:, 0] = 0  # AUC is undefined for a user with all items
            te[0, items - 1] = 1
            te = hostile(rng, mon, te.tocsr())
            w.call(o, lambda a, b: ev.ranking_metrics_at_k(m, a, b, K=N, show_progress=False, num_threads=int(gen.pick(rng, [1, 2]))),
                   [tr, te], m)
        elif o == "recalculate_user":
            w.call(o, m.recalculate_user, [u, hostile(rng, mon, rows)], m)
        elif o == "recalculate_item":
            w.call(o, m.recalculate_item, [i, hostile(rng, mon, cols)], m)
        elif o == "explain":
            full = hostile(rng, mon, gen.matrix(rng, users, items, density=0.3, values="ints", empty=0))
            uu, ii = int(rng.integers(users)), int(rng.integers(items))
            res = w.call(o, lambda u, r, i: m.explain(u, r, i, N=3), [uu, full, ii], m)
            wts = res[2]
            w.call("explain.weights", lambda u, r, i, x: m.explain(u, r, i, user_weights=x, N=3)[:2], [uu, full, ii, wts], m)


def mf(spec, mon):
    rng = rng_of(spec)
    kind = gen.pick(rng, ["als", "als", "bpr", "lmf"])
    mon.event(kind)
    users, items = gen.size(rng, 2, 12, 1200), gen.size(rng, 2, 12, 1200)
    w = Watch(mon, kind)
    kw = {}
    if kind == "als":
        kw = dict(alpha=float(gen.pick(rng, [1.0, 2.0])), regularization=1.0, use_cg=bool(rng.integers(2)), use_native=bool(rng.random() < 0.8),
                  calculate_training_loss=bool(rng.integers(2)))
    m = gen.mf_classes()[kind](factors=gen.size(rng, 1, 6, 320), dtype=gen.pick(rng, [np.float32, np.float64]), iterations=2,
                               num_threads=int(gen.pick(rng, [0, 1, 2])), random_state=int(rng.integers(100)), **kw)
    data = hostile(rng, mon, gen.nonempty_matrix(rng, users, items, density=0.4, values="ints"))
    w.call("fit", lambda d: m.fit(d, show_progress=False), [data], m, changes=True)
    ops = []
    for _ in range(int(rng.integers(5, 13))):
        r = rng.random()
        if r < 0.08:
            data = hostile(rng, mon, gen.nonempty_matrix(rng, users, items, density=0.4, values="ints"))
            w.call("refit", lambda d: m.fit(d, show_progress=False), [data], m, changes=True)
            # the model does not hold on to the data
            s = state(m)
            if data.format != "lil":
                data.data[...] = 5
            mon.check(state(m) == s, "%s: overwriting the training data changes the model" % kind)
        elif r < 0.12:
            bad = hostile(rng, mon, gen.nonempty_matrix(rng, users + 1, items, density=0.4, values="ints"))
            w.call("fit.failed", lambda d: m.fit(d, show_progress=False), [bad], m, repeat=False, may_raise=ValueError)
        elif r < 0.25 and kind == "als":
            side = gen.pick(rng, ["users", "items"])
            n = gen.size(rng, 1, 4, 120)
            have, cols = (users, items) if side == "users" else (items, users)
            ids = gen.idform(rng, rng.permutation(have)[:n])
            rows = hostile(rng, mon, gen.matrix(rng, len(ids), cols, density=0.4, values="ints"))
            name = "partial_fit_" + side
            other = "item_factors" if side == "users" else "user_factors"
            keep = content(getattr(m, other))
            w.call(name, getattr(m, name), [ids, rows], m, changes=True)
            mon.check(content(getattr(m, other)) == keep, "als.%s changed %s" % (name, other))
        else:
            queries(rng, mon, w, kind, m, users, items, als=kind == "als")
    mon.nontrivial(kind, users, items, spec["i"])
    mon.sample(kind=kind, users=users, items=items, fit=str(data.format), dtype=str(data.dtype))


def knn(spec, mon):
    rng = rng_of(spec)
    kind = gen.pick(rng, list(gen.knn_classes()))
    mon.event(kind)
    users, items = gen.size(rng, 2, 12, 1200), gen.size(rng, 2, 12, 1200)
    w = Watch(mon, kind)
    m = gen.knn_classes()[kind](K=int(rng.integers(1, items + 3)), num_threads=int(gen.pick(rng, [0, 1, 2])))
    for k in range(int(rng.integers(1, 3))):
        data = hostile(rng, mon, gen.nonempty_matrix(rng, users, items, density=0.4, values="ints"), zeros=kind != "bm25", dups=kind == "cosine")
        w.call("refit" if k else "fit", lambda d: m.fit(d, show_progress=False), [data], m, changes=True)
        s = state(m)
        if data.format != "lil":
            data.data[...] = 5
        mon.check(state(m) == s, "%s: overwriting the training data changes the model" % kind)
        for _ in range(int(rng.integers(3, 8))):
            queries(rng, mon, w, kind, m, users, items)
    mon.nontrivial(kind, users, items, spec["i"])


def ann(spec, mon):
    rng = rng_of(spec)
    lib = gen.pick(rng, ["annoy", "faiss", "nmslib"])
    mon.event(lib)
    users, items, f = gen.size(rng, 2, 10, 1200), gen.size(rng, 8, 20, 1200), gen.size(rng, 2, 6, 40)
    inner = annx.fixed_als(rng, users, items, f, dtype=gen.pick(rng, [np.float32, np.float64]), style=gen.pick(rng, ["normal", "dups"]))
    m = annx.wrap(rng, lib, inner, items, approximate_similar_items=bool(rng.random() < 0.8), approximate_recommend=bool(rng.random() < 0.8))
    w = Watch(mon, lib)
    ui = gen.nonempty_matrix(rng, users, items, density=0.3, values="ints")
    w.call("fit", lambda d: m.fit(d, show_progress=False), [ui], inner)  # the inner fit does nothing here
    for _ in range(int(rng.integers(4, 10))):
        queries(rng, mon, w, lib, m, users, items, ann=True)
    mon.nontrivial(lib, users, items, f, spec["i"])


def func(spec, mon):
    """functions without a model"""
    from implicit import evaluation as ev, nearest_neighbours as nn, utils
    from implicit._nearest_neighbours import all_pairs_knn
    from implicit.cpu import _als, als
    from implicit.cpu.topk import topk

    rng = rng_of(spec)
    w = Watch(mon, "implicit")
    users, items = gen.size(rng, 2, 14, 1200), gen.size(rng, 2, 14, 1200)
    x = gen.nonempty_matrix(rng, users, items, density=0.5, values="ints")
    o = gen.pick(rng, ["train_test_split", "leave_k_out_split", "weights", "all_pairs_knn", "native", "augment", "topk"])
    seed = int(rng.integers(1000))
    if o == "train_test_split":
        p = float(gen.pick(rng, [0, 0.3, 0.8, 1]))
        w.call(o, lambda d: ev.train_test_split(d, p, random_state=seed), [hostile(rng, mon, x)])
    elif o == "leave_k_out_split":
        K, fr = int(rng.integers(1, 3)), float(gen.pick(rng, [0, 0.4]))
        w.call(o, lambda d: ev.leave_k_out_split(d, K=K, train_only_size=fr, random_state=seed), [hostile(rng, mon, x, zeros=False)])
    elif o == "weights":
        name = gen.pick(rng, ["tfidf_weight", "bm25_weight", "normalize"])
        w.call(name, lambda d: nn_data(getattr(nn, name)(d)), [hostile(rng, mon, x, zeros=name != "bm25_weight")], idx=False)
    elif o == "all_pairs_knn":
        w.call(o, lambda d: all_pairs_knn(d, K=3, num_threads=int(gen.pick(rng, [1, 2])), show_progress=False).tocsr(), [hostile(rng, mon, x)], repeat=False)
    elif o == "augment":
        a, _ = gen.factors(rng, items, 4, gen.pick(rng, [np.float32, np.float64]), "normal")
        w.call(o, lambda f: utils.augment_inner_product_matrix(f)[1], [a])
    elif o == "topk":
        a, _ = gen.factors(rng, items, 4, np.float32, "normal")
        q, _ = gen.factors(rng, 3, 4, np.float32, "normal")
        fq = hostile(rng, mon, gen.matrix(rng, 3, items, values="ints"), csr=True) if rng.random() < 0.5 else None
        fi = gen.idform(rng, rng.permutation(items)[:2]) if rng.random() < 0.5 else None
        nrm = np.linalg.norm(a, axis=1) if rng.random() < 0.5 else None
        w.call(o, lambda a, q, fq, fi, nrm: topk(a, q, 3, item_norms=nrm, filter_query_items=fq, filter_items=fi, num_threads=1),
               [a, q, fq, fi, nrm])
    else:
        dt = gen.pick(rng, [np.float32, np.float64])
        X, _ = gen.factors(rng, users, 3, dt, "normal")
        Y, _ = gen.factors(rng, items, 3, dt, "normal")
        C = x.astype(np.float32)
        if rng.random() < 0.3:
            C = hostile(rng, mon, C, csr=True, ints=False).astype(np.float32)
        w.call("calculate_loss", lambda c, X, Y: float(_als.calculate_loss(c, X, Y, 0.5, num_threads=1)), [C, X, Y])
        for name in ("least_squares", "least_squares_cg"):
            X1 = X.copy()
            for mod in (_als, als):
                w.call(name, lambda c, Y: getattr(mod, name)(c, X1, Y, 1.0, num_threads=1), [C, Y], repeat=False)
    mon.nontrivial(o, users, items, spec["i"])


def nn_data(m):
    return m.data


def run_case(spec, mon):
    {"mf": mf, "knn": knn, "ann": ann, "func": func}[spec["kind"]](spec, mon)
