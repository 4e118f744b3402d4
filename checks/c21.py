"""C21: a model depends on the matrix content, not on its storage."""
import warnings

import numpy as np
import scipy.sparse as sp

from vlib import gen, judge
from vlib.core import case_list, rng_of

PROP = "C21"
RULE = ("one case = one matrix in its canonical form (CSR, sorted, float32, 32 bit indices) and 3-5 storage variants of it: models "
        "fitted on them, answers to queries using them, recalculated factors, explanations and losses are compared (bit for bit, "
        "except for rounding and ties where the order of summation follows the order of the indices); or one relabelling of users "
        "and items.  distinct by (model kind, variant, operation)")
FMT = ["csc", "coo", "coo_shuffled", "lil", "unsorted", "int64_index", "float64", "int32", "int64", "uint8", "unsorted_coo64", "coo_dups", "mixed"]
NEED = ["als", "bpr", "lmf", "item", "cosine", "tfidf", "bm25", "fit", "warned", "not_warned", "q.recommend", "q.recalculate", "q.partial", "q.explain",
        "q.loss", "relabel.als", "relabel.knn", "relabel.query", "relabel.users", "signed", "explicit_zero", "large",
        "huge_catalogue"] + ["form." + f for f in FMT]
ASSUMPTIONS = ["values are exactly representable in every value type used", "BPR with verify_negative_samples (without it sampling follows the storage order)",
               "recommend takes CSR matrices only"]


def cases(tier, seed):
    q = tier == "quick"
    return case_list(seed, fit=5000 if q else 50000, query=7000 if q else 70000, relabel=4000 if q else 40000, large=160 if q else 1600,
                     huge=8 if q else 80)


def form(rng, mon, m, name):
    """the matrix m (canonical) in another form"""
    mon.event("form." + name)
    if name in ("csc", "lil"):
        return m.asformat(name, copy=True)
    if name == "coo":
        return m.tocoo(copy=True)
    if name == "coo_shuffled":
        c = m.tocoo()
        p = rng.permutation(c.nnz)
        return sp.coo_matrix((c.data[p], (c.row[p], c.col[p])), shape=m.shape)
    if name == "coo_dups":  # a value given as the sum of two entries
        c = m.tocoo()
        if not c.nnz:
            return c
        k = int(rng.integers(c.nnz))
        d = c.data.copy()
        d[k] -= 0.5
        return sp.coo_matrix((np.append(d, d.dtype.type(0.5)), (np.append(c.row, c.row[k]), np.append(c.col, c.col[k]))), shape=m.shape)
    if name == "unsorted":
        m = m.copy()
        for u in range(m.shape[0]):
            s = slice(m.indptr[u], m.indptr[u + 1])
            p = rng.permutation(s.stop - s.start)
            m.indices[s], m.data[s] = m.indices[s][p], m.data[s][p]
        m = gen.reflag(rng, m)
        return m
    if name == "int64_index":
        m = m.copy()
        m.indices, m.indptr = m.indices.astype(np.int64), m.indptr.astype(np.int64)
        return m
    if name == "mixed":  # unsorted, with other index and value types at once
        m = form(rng, mon, m, "unsorted")
        if rng.random() < 0.8:
            m = m.astype(gen.pick(rng, [np.float64, np.int32, np.int64]))
        if rng.random() < 0.8:
            m = form(rng, mon, m, "int64_index")
        return m
    if name == "unsorted_coo64":
        return form(rng, mon, m, "coo_shuffled").astype(np.float64)
    return m.astype({"float64": np.float64, "int32": np.int32, "int64": np.int64, "uint8": np.uint8}[name])


def variants(rng, mon, m, n, csr=False):
    pool = [f for f in FMT if (f != "uint8" or m.data.min(initial=0) >= 0) and (not csr or f in ("unsorted", "mixed", "int64_index", "float64", "int32", "int64", "uint8"))]
    return [(f, form(rng, mon, m, f)) for f in rng.permutation(pool)[:n]]


def build(rng, kind, seed=None):
    """a function making the model, and whether fit is sensitive to rounding"""
    thr = int(gen.pick(rng, [1, 1, 2, 0]))
    f = gen.size(rng, 1, 6, 320)
    s = int(rng.integers(1000))
    if kind == "als":
        cg, dt, al = bool(rng.integers(2)), gen.pick(rng, [np.float32, np.float64]), float(gen.pick(rng, [1.0, 2.0, 2.5]))
        nat, loss = bool(rng.random() < 0.8), bool(rng.integers(2))
        return lambda: gen.mf_classes()[kind](factors=f, regularization=1.0, alpha=al, dtype=dt, use_cg=cg, use_native=nat, iterations=2,
                                              calculate_training_loss=loss, num_threads=thr, random_state=s)
    if kind == "bpr":
        dt = gen.pick(rng, [np.float32, np.float64])
        return lambda: gen.mf_classes()[kind](factors=f, learning_rate=0.1, dtype=dt, iterations=2, num_threads=1, random_state=s)
    if kind == "lmf":
        return lambda: gen.mf_classes()[kind](factors=f, learning_rate=0.5, iterations=2, num_threads=thr, random_state=s, neg_prop=int(2))
    K = gen.size(rng, 1, 9, 60)
    return lambda: gen.knn_classes()[kind](K=K, num_threads=thr)


def fit(m, data, mon=None):
    from implicit.utils import ParameterWarning

    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        m.fit(data, show_progress=False)
    return any(issubclass(x.category, ParameterWarning) for x in w)


def close(a, b, tol):
    s = max(np.abs(a).max(initial=0), np.abs(b).max(initial=0))
    return a.shape == b.shape and a.dtype == b.dtype and (np.abs(a - b) <= tol * max(s, 1e-3)).all()


def tolerance(m, users, items):
    """of factors trained with sums taken in another order: the systems' condition grows with the sums"""
    return (1e-3 if m.dtype == np.float32 else 1e-6) * max(1, users / 20, items / 20, m.factors / 20)


def same_knn(mon, A, B, what, rtol=1e-9, perm=None):
    """similarity matrices: equal rows up to ties; B's labels are translated by perm (new -> old)"""
    for i in range(A.shape[0]):
        ii = i if perm is None else int(np.flatnonzero(perm == i)[0])
        rows = []
        for S, k in ((A, i), (B, ii)):
            s = slice(S.indptr[k], S.indptr[k + 1])
            j, v = S.indices[s], S.data[s]
            if S is B and perm is not None:
                j = perm[j]
            o = np.lexsort((j, -v))
            rows.append((j[o], v[o]))
        mon.ev()
        judge.same_answer(mon, rows[0], rows[1], "%s: neighbours of item %d" % (what, i), rtol=rtol, atol=1e-12)


def fit_case(spec, mon):
    rng = rng_of(spec)
    kind = gen.pick(rng, ["als", "als", "bpr", "lmf", "item", "cosine", "tfidf", "bm25"])
    mon.event(kind)
    mk = build(rng, kind)
    users, items = gen.size(rng, 1, 14, 1200, 0.15), gen.size(rng, 2, 14, 1200, 0.15)
    if spec["kind"] == "large":
        users, items = gen.size(rng, 40, 130, 500, 0.2), gen.size(rng, 40, 130, 500, 0.2)
        mon.event("large")
    base = gen.nonempty_matrix(rng, users, items, density=gen.pick(rng, [0.4, 0.15]), values="ints")
    if kind in ("als", "item", "cosine") and rng.random() < 0.2:
        base.data[rng.random(base.nnz) < 0.4] *= -1
        mon.event("signed")
    if kind != "bm25" and base.nnz > 2 and rng.random() < 0.15:
        base.data[rng.permutation(base.nnz)[: 1 + base.nnz // 4]] = 0
        mon.event("explicit_zero")
    m0 = mk()
    warned = fit(m0, base)
    if kind in ("als", "bpr", "lmf", "item"):
        mon.check(not warned, "%s: ParameterWarning for a CSR matrix" % kind)
        mon.event("not_warned")
    for name, data in variants(rng, mon, base, 4):
        m = mk()
        warned = fit(m, data)
        mon.ev()
        mon.event("fit")
        what = "%s fitted on the matrix as %s" % (kind, name)
        if not isinstance(data, sp.csr_matrix):
            mon.check(warned, what + ": no ParameterWarning")
            mon.event("warned")
        if kind in gen.knn_classes():
            mon.check(m.similarity.shape == m0.similarity.shape, what + ": another shape")
            # bm25 weighs float32 counts in float32
            same_knn(mon, m0.similarity, m.similarity, what, rtol=1e-5 if kind == "bm25" else 1e-9)
        else:
            loose = kind == "als" and name in ("unsorted", "mixed")
            if loose and m0.use_cg and m0.dtype == np.float32:
                continue
            for a in ("user_factors", "item_factors"):
                x, y = getattr(m0, a), getattr(m, a)
                if loose:
                    ok = close(x, y, tolerance(m0, users, items))
                else:
                    ok = x.dtype == y.dtype and np.array_equal(x, y)
                mon.check(ok, what + ": other " + a, canonical=x, variant=y)
        mon.nontrivial("fit", kind, name, users, items)
    mon.sample(case="fit", kind=kind, users=users, items=items, nnz=base.nnz)


def query(spec, mon):
    """rows of user_items/item_users in other forms"""
    rng = rng_of(spec)
    kind = gen.pick(rng, ["als", "als", "bpr", "lmf", "item", "cosine"])
    mon.event(kind)
    users, items = gen.size(rng, 2, 14, 1200, 0.2), gen.size(rng, 2, 14, 1200, 0.2)
    knn = kind in gen.knn_classes()
    if knn:
        m = build(rng, kind)()
        fit(m, gen.nonempty_matrix(rng, users, items, density=0.4, values="ints"))
    elif kind == "als":
        m = gen.set_model(rng, kind, users, items, gen.size(rng, 1, 6, 320), gen.pick(rng, [np.float32, np.float64]), style="normal",
                          regularization=1.0, alpha=float(gen.pick(rng, [1.0, 2.0, 2.5])))
    else:
        m = gen.set_model(rng, kind, users, items, int(rng.integers(1, 6)), gen.pick(rng, [np.float32, np.float64]))
    op = gen.pick(rng, ["recommend", "recommend"] + (["recalculate", "partial", "explain", "loss", "recommend_recalc"] if kind == "als" else []))
    nq = gen.size(rng, 1, 5, 130, 0.12)
    scalar = nq == 1 and rng.random() < 0.7
    us, its = rng.integers(0, users, nq), rng.integers(0, items, nq)
    rows = gen.matrix(rng, nq, items, density=0.5, values="ints", empty=0.1)
    cols = gen.matrix(rng, nq, users, density=0.5, values="ints", empty=0.1)
    uid = int(us[0]) if scalar else us
    iid = int(its[0]) if scalar else its
    N = int(rng.integers(1, items + 2))
    eps = (1e-3 if not knn and m.user_factors.dtype == np.float32 else 1e-7) * max(1, users / 20, items / 20)
    if op.startswith("recommend"):
        kw = dict(N=N, filter_already_liked_items=bool(rng.random() < 0.8))
        r = rng.random()
        if r < 0.25:
            kw["items"] = rng.permutation(items)[: int(rng.integers(1, items + 1))]
        elif r < 0.5:
            kw["filter_items"] = rng.permutation(items)[: gen.size(rng, 1, 4, items + 1, 0.2)]
        if op != "recommend":
            kw["recalculate_user"] = True
        ids0, sc0 = m.recommend(uid, rows, **kw)
        mon.event("q.recommend")
        for name, x in variants(rng, mon, rows, 4, csr=True):
            ids, sc = m.recommend(uid, x, **kw)
            mon.ev()
            what = "%s.%s with user_items as %s" % (kind, op, name)
            if not knn and op == "recommend":
                mon.check(np.array_equal(ids, ids0) and np.array_equal(sc, sc0), what + ": another answer", canonical=(ids0, sc0), variant=(ids, sc))
            else:
                t = 1e-9 if knn else eps
                for a, b in ([((ids0, sc0), (ids, sc))] if scalar else zip(zip(ids0, sc0), zip(ids, sc))):
                    scale = np.abs(np.asarray(a[1], float)[np.asarray(a[1]) > gen.SENT]).max(initial=0)
                    # item-item scores of the same item may be summed in another order
                    judge.same_answer(mon, a, b, what, rtol=t, atol=t * scale)
            mon.nontrivial("q", kind, op, name)
        return
    if op == "recalculate":
        pairs = [(m.recalculate_user, uid, rows), (m.recalculate_item, iid, cols)]
        for fn, i, x0 in pairs:
            want = fn(i, x0)
            mon.event("q.recalculate")
            for name, x in variants(rng, mon, x0, 4):
                got = fn(i, x)
                mon.ev()
                mon.check(close(want, got, eps) and (name in ("unsorted", "mixed") or np.array_equal(want, got)), "als.%s with %s" % (fn.__name__, name),
                          canonical=want, variant=got)
                mon.nontrivial("q", op, name, fn.__name__)
    elif op == "partial":
        import copy

        ids = rng.permutation(users + nq + 3)[:nq]
        a = copy.deepcopy(m)
        a.partial_fit_users(ids, rows)
        for name, x in variants(rng, mon, rows, 3):
            b = copy.deepcopy(m)
            b.partial_fit_users(ids, x)
            mon.ev()
            mon.event("q.partial")
            mon.check(close(a.user_factors, b.user_factors, eps) and (name in ("unsorted", "mixed") or np.array_equal(a.user_factors, b.user_factors)),
                      "als.partial_fit_users with " + name, canonical=a.user_factors, variant=b.user_factors)
    elif op == "explain":
        full = gen.matrix(rng, users, items, density=0.5, values="ints", empty=0.1)
        u, i = int(rng.integers(users)), int(rng.integers(items))
        t0, c0, _ = m.explain(u, full, i, N=items)
        for name, x in variants(rng, mon, full, 3):
            t, c, _ = m.explain(u, x, i, N=items)
            mon.ev()
            mon.event("q.explain")
            s = sum(abs(v) for _, v in c0) + 1e-3
            mon.check(abs(t - t0) <= 10 * eps * s, "als.explain with %s: another score" % name, canonical=t0, variant=t)
            A, B = {int(k): v for k, v in c0}, {int(k): v for k, v in c}
            mon.check(set(A) == set(B) and all(abs(A[k] - B[k]) <= 10 * eps * s for k in A), "als.explain with %s: other contributions" % name,
                      canonical=c0, variant=c)
            mon.nontrivial("q", op, name)
    else:
        from implicit.cpu import _als

        full = gen.nonempty_matrix(rng, users, items, density=0.5, values="ints").astype(np.float32)
        want = _als.calculate_loss(full, m.user_factors, m.item_factors, 0.5, num_threads=1)
        for name in ("unsorted", "int64_index", "mixed"):
            got = _als.calculate_loss(form(rng, mon, full, name), m.user_factors, m.item_factors, 0.5, num_threads=1)
            mon.ev()
            mon.event("q.loss")
            mon.check(abs(got - want) <= eps * (abs(want) + 1), "calculate_loss with " + name, canonical=want, variant=got)
            mon.nontrivial("q", op, name)


def huge(spec, mon):
    """a catalogue whose ids need more than 16 bits"""
    rng = rng_of(spec)
    items, users = int(rng.integers(66000, 140000)), int(rng.integers(20, 60))
    kind = gen.pick(rng, ["item", "cosine", "als"])
    n = 40
    # a band of ids below and one above 2^16, which collide when cut to 16 bits
    band = np.append(np.arange(5, 5 + n), np.arange(65536 + 5, 65536 + 5 + n))
    base = sp.csr_matrix((users, items), dtype=np.float32)
    ui = gen.matrix(rng, users, 2 * n, density=0.2, values="ints", empty=0).tocoo()
    base = sp.csr_matrix((ui.data, (ui.row, band[ui.col])), shape=(users, items))
    base.sort_indices()
    if kind == "als":
        m = gen.set_model(rng, kind, users, items, 3, np.float32, style="normal")
    else:
        m = gen.knn_classes()[kind](K=int(rng.integers(2, 20)), num_threads=1)
        fit(m, base)
    for _ in range(6):
        u = int(rng.integers(users))
        kw = dict(N=int(gen.pick(rng, [5, 30, 80])), filter_already_liked_items=bool(rng.random() < 0.8))
        if rng.random() < 0.3:
            kw["filter_items"] = rng.permutation(band)[:10]
        want = m.recommend(u, base[u], **kw)
        for name, x in variants(rng, mon, base[u], 3, csr=True):
            got = m.recommend(u, x, **kw)
            mon.ev()
            judge.same_answer(mon, want, got, "%s.recommend over %d items with user_items as %s" % (kind, items, name), rtol=1e-9, atol=1e-12)
    mon.event("huge_catalogue")
    mon.nontrivial("huge", kind, items)


def relabel(spec, mon):
    rng = rng_of(spec)
    what = ["als", "knn", "query"][spec["i"] % 3]
    mon.event("relabel." + what)
    users, items = gen.size(rng, 1, 14, 1200, 0.15), gen.size(rng, 2, 14, 1200, 0.15)
    pu, pi = rng.permutation(users), rng.permutation(items)  # new id -> old id
    if users > 1 and (pu != np.arange(users)).any():
        mon.event("relabel.users")
    base = gen.nonempty_matrix(rng, users, items, density=0.4, values="ints")
    other = base[pu][:, pi].tocsr()
    other.sort_indices()
    if what == "als":
        mk = build(rng, "als")
        a, b = mk(), mk()
        if a.use_cg:
            a.dtype = b.dtype = np.dtype(np.float64)
        f = a.factors
        X, Y = rng.random((users, f)).astype(a.dtype), rng.random((items, f)).astype(a.dtype)
        a.user_factors, a.item_factors = X.copy(), Y.copy()
        b.user_factors, b.item_factors = X[pu].copy(), Y[pi].copy()
        fit(a, base)
        fit(b, other)
        t = tolerance(a, users, items)
        mon.ev(2)
        mon.check(close(a.user_factors[pu], b.user_factors, t), "als: relabelling users and items changes the user factors", pu=pu, pi=pi)
        mon.check(close(a.item_factors[pi], b.item_factors, t), "als: relabelling users and items changes the item factors", pu=pu, pi=pi)
    elif what == "knn":
        kind = gen.pick(rng, list(gen.knn_classes()))
        mon.event(kind)
        mk = build(rng, kind)
        a, b = mk(), mk()
        fit(a, base)
        fit(b, other)
        same_knn(mon, a.similarity, b.similarity, kind + " relabelled", perm=pi, rtol=1e-5 if kind == "bm25" else 1e-9)
        # answers: scores of the relabelled model (its own neighbours: ties at the cut may differ, so give it the same ones)
        if a.similarity.nnz and a.K >= items:
            u = int(rng.integers(users))
            ra = a.recommend(u, base[u], N=items)
            v = int(np.flatnonzero(pu == u)[0])
            rb = b.recommend(v, other[v], N=items)
            mon.ev()
            judge.same_answer(mon, ra, (pi[np.asarray(rb[0], int)], rb[1]), kind + ".recommend relabelled", rtol=1e-5, atol=1e-9)
    else:
        kind = gen.pick(rng, ["als", "bpr", "lmf"])
        mon.event(kind)
        a = gen.set_model(rng, kind, users, items, int(rng.integers(1, 6)), gen.pick(rng, [np.float32, np.float64]), style="ints")
        b = gen.set_model(rng, kind, users, items, a.factors, a.dtype, style="ints")
        b.user_factors, b.item_factors = a.user_factors[pu].copy(), a.item_factors[pi].copy()
        inv = np.argsort(pi)
        u = int(rng.integers(users))
        v = int(np.flatnonzero(pu == u)[0])
        N = int(rng.integers(1, items + 1))
        sel = rng.permutation(items)[: int(rng.integers(1, items + 1))]
        for ka, kb in (({}, {}), ({"items": sel}, {"items": inv[sel]}), ({"filter_items": sel[:2]}, {"filter_items": inv[sel[:2]]})):
            ra = a.recommend(u, base[u], N=N, **ka)
            rb = b.recommend(v, other[v], N=N, **kb)
            sa = a.similar_items(int(sel[0]), N=N, **ka)
            sb = b.similar_items(int(inv[sel[0]]), N=N, **kb)
            mon.ev(2)
            for x, y, n in ((ra, rb, "recommend"), (sa, sb, "similar_items")):
                real = np.asarray(y[1]) > gen.SENT
                ids = np.where(real & (np.asarray(y[0]) >= 0), pi[np.clip(y[0], 0, items - 1)], y[0])
                judge.same_answer(mon, x, (ids, y[1]), "%s.%s relabelled" % (kind, n), rtol=1e-6, atol=1e-6)
    mon.nontrivial("relabel", what, users, items, spec["i"])


def run_case(spec, mon):
    {"fit": fit_case, "large": fit_case, "huge": huge, "query": query, "relabel": relabel}[spec["kind"]](spec, mon)
