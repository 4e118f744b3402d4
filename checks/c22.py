"""C22: the approximate wrappers return truthful results."""
import copy

import numpy as np

from vlib import annx, gen, judge
from vlib.core import case_list, rng_of

PROP = "C22"
RULE = ("one case = one wrapped model (generated or trained factors) and 3-8 queries; every returned score is compared with the float64 "
        "inner product/cosine of the wrapped model's factors, and with exhaustive index settings the ids with the exact top N.  Switched "
        "off approximations are compared with the wrapped model, unsupported options must raise.  distinct by (library, setting, call, "
        "options)")
LIBS = ["annoy", "faiss", "nmslib"]
NEED = [l + "." + c for l in LIBS for c in ("recommend", "similar_items", "exact", "refit", "off.recommend", "off.similar_items", "unsupported", "factory",
                                           "filter_items", "liked", "batch", "N>items", "zero_items", "float64", "trained", "recalculate_item",
                                           "new_user_factors")] + ["annoy.approx", "faiss.approx", "annoy.big", "faiss.big", "nmslib.big"]
ASSUMPTIONS = ["the queried user or item has a non-zero factor", "nmslib (a graph index) counts as exhaustive only where its graph is complete "
               "(at most 15 items); it leaves out items with zero factors from similar_items",
               "scores of annoy and nmslib are recovered from float32 cosines: their rounding is relative to |query| * largest item norm"]


def cases(tier, seed):
    q = tier == "quick"
    return case_list(seed, fixed=6000 if q else 60000, real=600 if q else 6000, off=1800 if q else 16000, factory=150 if q else 1500,
                     big=90 if q else 900)


def trained(rng, mon, lib, users, items, ui):
    kind = gen.pick(rng, ["als", "bpr", "lmf"])
    m = gen.mf_classes()[kind](factors=int(rng.integers(2, 9)), iterations=2, num_threads=1, random_state=int(rng.integers(1000)))
    mon.event(lib + ".trained")
    return m


def exact_setting(lib, items, zero):
    return lib != "nmslib" or (items <= 15 and not zero)


def reference(model, lib, what, i, factor=None):
    Y = np.asarray(model.item_factors, dtype=float)
    q = np.asarray(factor if factor is not None else (model.user_factors[i] if what == "recommend" else model.item_factors[i]), dtype=float).ravel()
    n = np.linalg.norm(Y, axis=1)
    f = Y.shape[1]
    eps = float(np.finfo(np.float32).eps)
    if what == "recommend":
        true = Y @ q
        if lib == "faiss":
            tol = 4 * eps * (f + 4) * (np.abs(Y) @ np.abs(q)) + 1e-30
        else:
            tol = np.full(len(Y), 4 * eps * (f + 6) * n.max() * np.linalg.norm(q) + 1e-30)
    else:
        nn = np.where(n == 0, 1, n)
        true = (Y @ q) / nn / np.linalg.norm(q)
        tol = np.full(len(Y), 4 * eps * (f + 6))
    return true, tol, n


def judge_one(mon, lib, what, model, i, ids, scores, N, eligible, exact, factor=None):
    true, tol, n = reference(model, lib, what, i, factor)
    label = "%s.%s" % (lib, what)
    mon.ev()
    if exact:
        if lib == "nmslib" and what == "similar_items":
            eligible = eligible & (n > 0)
        judge.judge_topn(mon, ids, scores, true, tol, eligible, N, label)
        mon.event(lib + ".exact")
        return
    r, s, _ = judge.split_slots(mon, ids, scores, label)
    d = dict(ids=ids, scores=scores, true=true, N=N, query=i)
    mon.check(len(r) <= N, label + ": more than N results", **d)
    if not len(r):
        return
    mon.check(r.max() < len(true), label + ": id out of range", **d)
    mon.check(len(set(r.tolist())) == len(r), label + ": id returned twice", **d)
    mon.check(eligible[r].all(), label + ": filtered item returned", **d)
    mon.check((np.diff(s) <= 0).all(), label + ": scores are not in non-increasing order", **d)
    mon.check((np.abs(s - true[r]) <= tol[r]).all(), label + ": score is not the item's true score", err=np.abs(s - true[r]), tol=tol[r], **d)


def queries(rng, mon, lib, m, model, n, exact, als=False):
    users, items = len(model.user_factors), len(model.item_factors)
    un = np.flatnonzero(np.linalg.norm(model.user_factors, axis=1) > 0)
    inn = np.flatnonzero(np.linalg.norm(model.item_factors, axis=1) > 0)
    if not len(un) or not len(inn):
        return
    for _ in range(n):
        batch = rng.random() < 0.4
        nq = gen.size(rng, 1, 4, 120, 0.05) if batch else 1
        if batch:
            mon.event(lib + ".batch")
        N = int(gen.pick(rng, [1, 2, 3, items // 2 + 1, items, items + 3]))
        if N > items:
            mon.event(lib + ".N>items")
        kw, filt = {}, np.ones(items, dtype=bool)
        if rng.random() < 0.35:
            fi = rng.permutation(items)[: int(rng.integers(1, items))]
            kw["filter_items"] = gen.idform(rng, fi)
            filt[fi] = False
            mon.event(lib + ".filter_items")
        factors = [None] * nq
        if rng.random() < 0.55:
            what = "recommend"
            q = un[rng.integers(0, len(un), nq)]
            rows = gen.matrix(rng, nq, items, density=gen.pick(rng, [0.02, 0.3, 0.3, 0.9]), values="ints")
            rows = gen.rewidth(rng, rows, mon)
            liked = bool(rng.random() < 0.6)
            if liked:
                mon.event(lib + ".liked")
            ids, sc = m.recommend(gen.idform(rng, q) if batch else gen.scalar_id(rng, q[0]), rows, N=N, filter_already_liked_items=liked, **kw)
            el = [filt.copy() for _ in range(nq)]
            if liked:
                for k in range(nq):
                    el[k][rows.indices[rows.indptr[k]: rows.indptr[k + 1]]] = False
        else:
            what = "similar_items"
            q = inn[rng.integers(0, len(inn), nq)]
            if als and rng.random() < 0.3:
                cols = gen.matrix(rng, nq, users, density=0.5, values="ints", empty=0)
                factors = model.recalculate_item(q, cols)
                if (np.linalg.norm(factors, axis=1) < 1e-3).any():
                    continue
                kw.update(recalculate_item=True, item_users=cols)
                mon.event(lib + ".recalculate_item")
            ids, sc = m.similar_items(gen.idform(rng, q) if batch else gen.scalar_id(rng, q[0]), N=N, **kw)
            el = [filt] * nq
        mon.event("%s.%s" % (lib, what))
        if not batch:
            ids, sc = [ids], [sc]
        mon.check(len(ids) == nq and len(sc) == nq, "%s.%s: not one row for every id" % (lib, what))
        for k in range(nq):
            judge_one(mon, lib, what, model, int(q[k]), ids[k], sc[k], N, el[k], exact, factors[k])
        mon.nontrivial(lib, what, exact, batch, sorted(kw), items, N)


def fixed(spec, mon):
    rng = rng_of(spec)
    lib = LIBS[spec["i"] % 3]
    big = spec["kind"] == "big"
    small = rng.random() < 0.7
    users, items, f = int(rng.integers(1, 8)), int(rng.integers(3, 16) if small else rng.integers(20, 120)), gen.size(rng, 2, 9, 70)
    if big:
        users, items, f = gen.size(rng, 2, 30, 400, 0.2), int(rng.integers(600, 4000)), gen.size(rng, 2, 16, 320)
        mon.event(lib + ".big")
    dt = gen.pick(rng, [np.float32, np.float64])
    if dt == np.float64:
        mon.event(lib + ".float64")
    style = "normal" if lib == "nmslib" else gen.pick(rng, ["normal", "ints", "dups", "scaled"])
    model = annx.fixed_als(rng, users, items, f, dtype=dt, style=style)
    zero = bool((np.linalg.norm(model.item_factors, axis=1) == 0).any())
    if not np.linalg.norm(model.item_factors, axis=1).all():
        mon.event(lib + ".zero_items")
    if not np.any(model.item_factors):
        return
    exhaustive = bool(rng.random() < 0.7) or lib == "nmslib"
    if not exhaustive:
        mon.event(lib + ".approx")
    exact = exhaustive and exact_setting(lib, items, zero)
    m = annx.wrap(rng, lib, model, items, exhaustive=exhaustive)
    ui = gen.nonempty_matrix(rng, users, items, density=0.3, values="ints")
    m.fit(ui, show_progress=False)
    queries(rng, mon, lib, m, model, int(rng.integers(2, 6)), exact, als=style != "scaled")
    r = rng.random()
    if r < 0.3:  # other factors, fitted again
        model = m.model = annx.fixed_als(rng, users, items, f, dtype=dt, style=style)
        if not np.any(model.item_factors):
            return
        zero = bool((np.linalg.norm(model.item_factors, axis=1) == 0).any())
        m.fit(ui, show_progress=False)
        mon.event(lib + ".refit")
        queries(rng, mon, lib, m, model, 3, exhaustive and exact_setting(lib, items, zero), als=style != "scaled")
    elif r < 0.5 and style != "scaled":
        ids = rng.permutation(users + 2)[:2]
        model.partial_fit_users(ids, gen.matrix(rng, 2, items, density=0.5, values="ints", empty=0))
        mon.event(lib + ".new_user_factors")
        queries(rng, mon, lib, m, model, 3, exact)
    unsupported(rng, mon, lib, m, model)
    mon.sample(lib=lib, items=items, f=f, style=style, exact=exact)


def unsupported(rng, mon, lib, m, model):
    users, items = len(model.user_factors), len(model.item_factors)
    row = gen.matrix(rng, 1, items, density=0.4, values="ints", empty=0)
    col = gen.matrix(rng, 1, users, density=0.4, values="ints", empty=0)
    ids = [0, items - 1]

    def must(name, fn):
        mon.ev()
        mon.event(lib + ".unsupported")
        try:
            out = fn()
        except NotImplementedError:
            return
        mon.check(False, "%s: %s is not supported but returned an answer" % (lib, name), answer=out)

    must("recommend(items=)", lambda: m.recommend(0, row, items=ids))
    must("similar_items(items=)", lambda: m.similar_items(0, items=ids))
    must("recommend([0], items=)", lambda: m.recommend([0], row, items=ids))
    must("similar_items([0], items=)", lambda: m.similar_items([0], items=ids))
    must("similar_users", lambda: m.similar_users(0))
    must("save", lambda: m.save("/nonexistent/x"))
    must("load", lambda: type(m).load("/nonexistent/x"))
    # recalculate_user: refused, or the scores are those of the recalculated factors
    try:
        out = m.recommend(0, row, N=3, recalculate_user=True)
    except NotImplementedError:
        pass
    else:
        judge_one(mon, lib, "recommend", model, 0, out[0], out[1], 3, ~np.isin(np.arange(items), row.indices), False,
                  model.recalculate_user(0, row))
    if type(model).__name__ in ("BayesianPersonalizedRanking", "LogisticMatrixFactorization"):
        must("recalculate_item", lambda: m.similar_items(0, recalculate_item=True, item_users=col))


def real(spec, mon):
    """wrappers around models that really train"""
    rng = rng_of(spec)
    lib = LIBS[spec["i"] % 3]
    users, items = gen.size(rng, 4, 30, 1200), gen.size(rng, 6, 40, 1200)
    ui = gen.nonempty_matrix(rng, users, items, density=0.3, values="ints", empty=0.1)
    model = trained(rng, mon, lib, users, items, ui)
    m = annx.wrap(rng, lib, model, items, exhaustive=lib != "nmslib" or bool(rng.integers(2)))
    seen = []
    m.fit(ui, show_progress=False, callback=lambda it, *a: seen.append(it))
    mon.check(seen == [0, 1], "%s: the callback was not passed on to the model" % lib, seen=seen)
    ref = copy.deepcopy(model)
    other = type(model)(factors=model.factors, iterations=2, num_threads=1, random_state=model.random_state)
    other.fit(ui, show_progress=False)
    mon.check(np.array_equal(other.item_factors, ref.item_factors) and np.array_equal(other.user_factors, ref.user_factors),
              "%s: the wrapped model is trained differently" % lib)
    zero = bool((np.linalg.norm(model.item_factors, axis=1) == 0).any())
    queries(rng, mon, lib, m, model, 5, lib != "nmslib", als=False)
    m.fit(ui, show_progress=False)
    mon.event(lib + ".refit")
    queries(rng, mon, lib, m, model, 4, lib != "nmslib", als=False)
    unsupported(rng, mon, lib, m, model)
    if zero:
        mon.event(lib + ".zero_items")


def off(spec, mon):
    """with approximation turned off the answers are those of the wrapped model"""
    rng = rng_of(spec)
    lib = LIBS[spec["i"] % 3]
    users, items, f = gen.size(rng, 1, 8, 1200), gen.size(rng, 3, 20, 1200), gen.size(rng, 2, 6, 40)
    model = annx.fixed_als(rng, users, items, f, dtype=gen.pick(rng, [np.float32, np.float64]))
    which = gen.pick(rng, ["recommend", "similar_items", "both"])
    kw = {"approximate_" + w: False for w in (["recommend", "similar_items"] if which == "both" else [which])}
    m = annx.wrap(rng, lib, model, items, **kw)
    if not np.linalg.norm(model.item_factors, axis=1).all():
        model.item_factors[np.linalg.norm(model.item_factors, axis=1) == 0] = 1
    m.fit(gen.nonempty_matrix(rng, users, items, values="ints"), show_progress=False)
    for _ in range(6):
        batch = rng.random() < 0.4
        nq = gen.size(rng, 1, 4, 150, 0.05) if batch else 1
        N = int(gen.pick(rng, [1, 3, items, items + 2]))
        r = rng.random()
        kw = {}
        ids = rng.permutation(items)[: int(rng.integers(1, items + 1))]
        if r < 0.3:
            kw["items"] = gen.idform(rng, ids)
        elif r < 0.6:
            kw["filter_items"] = gen.idform(rng, ids)
        if which in ("recommend", "both"):
            q = rng.integers(0, users, nq)
            rows = gen.matrix(rng, nq, items, density=0.4, values="ints")
            if rng.random() < 0.3:
                kw["recalculate_user"] = True
            kk = dict(N=N, filter_already_liked_items=bool(rng.integers(2)), **kw)
            u = q if batch else int(q[0])
            a, b = m.recommend(u, rows, **kk), model.recommend(u, rows, **kk)
            mon.event(lib + ".off.recommend")
        else:
            q = rng.integers(0, items, nq)
            if rng.random() < 0.3:
                kw.update(recalculate_item=True, item_users=gen.matrix(rng, nq, users, density=0.5, values="ints"))
            i = q if batch else int(q[0])
            a, b = m.similar_items(i, N=N, **kw), model.similar_items(i, N=N, **kw)
            mon.event(lib + ".off.similar_items")
        mon.ev()
        for x, y in (zip(zip(*a), zip(*b)) if batch else [(a, b)]):
            judge.same_answer(mon, x, y, "%s with approximation off (%s)" % (lib, sorted(kw)), rtol=1e-5, atol=1e-6)
        mon.nontrivial("off", lib, which, batch, sorted(kw))


def factory(spec, mon):
    from implicit import approximate_als as aa

    rng = rng_of(spec)
    lib = LIBS[spec["i"] % 3]
    mon.event(lib + ".factory")
    users, items, f = int(rng.integers(4, 20)), int(rng.integers(6, 16)), int(rng.integers(2, 6))
    apx = {"approximate_recommend": bool(rng.integers(2)), "approximate_similar_items": bool(rng.integers(2))}
    als = dict(regularization=float(gen.pick(rng, [0.5, 2.0])), alpha=float(gen.pick(rng, [1.0, 3.0])), iterations=2, num_threads=1,
               random_state=int(rng.integers(100)), dtype=np.float32, use_gpu=False)
    if lib == "annoy":
        own = dict(n_trees=int(rng.integers(2, 20)), search_k=100000)
        m = aa.AnnoyAlternatingLeastSquares(f, **als, **own, **apx)
    elif lib == "faiss":
        n = int(rng.integers(1, 5))
        own = dict(nlist=n, nprobe=n)
        m = aa.FaissAlternatingLeastSquares(f, **als, **own, **apx)
    else:
        own = dict(method="hnsw", index_params={"M": 16, "post": 0, "efConstruction": 300}, query_params={"ef": 200})
        m = aa.NMSLibAlternatingLeastSquares(f, **als, **own, **apx)
    for k, v in dict(own, **apx).items():
        mon.check(getattr(m, k) == v, "%s factory: %s is %r instead of %r" % (lib, k, getattr(m, k), v))
    for k, v in als.items():
        if k != "use_gpu":
            mon.check(getattr(m.model, k) == v, "%s factory: the model's %s is %r instead of %r" % (lib, k, getattr(m.model, k), v))
    mon.check(m.model.factors == f, "%s factory: factors" % lib)
    ui = gen.nonempty_matrix(rng, users, items, density=0.4, values="ints", empty=0.1)
    m.fit(ui, show_progress=False)
    mon.ev(8)
    # near parallel rows are ties for the index, exact order is judged within rounding
    for _ in range(3):
        u = int(rng.integers(users))
        if not np.any(m.model.user_factors[u]):
            continue
        row = ui[u]
        ids, sc = m.recommend(u, row, N=5)
        if apx["approximate_recommend"]:
            judge_one(mon, lib, "recommend", m.model, u, ids, sc, 5, ~np.isin(np.arange(items), row.indices), lib != "nmslib")
        else:
            judge.same_answer(mon, (ids, sc), m.model.recommend(u, row, N=5), lib + " factory, approximation off", rtol=1e-5, atol=1e-6)
    mon.nontrivial("factory", lib, sorted(apx.items()))


def run_case(spec, mon):
    {"fixed": fixed, "big": fixed, "real": real, "off": off, "factory": factory}[spec["kind"]](spec, mon)
