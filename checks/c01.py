"""C01: recommend of the matrix factorization models is the exact top N."""
import numpy as np

from vlib import als_ref, gen, judge
from vlib.core import case_list, rng_of

PROP = "C01"
RULE = ("one case = one ALS/BPR/LMF model (factors generated in six styles incl. ties, zero rows and extreme "
        "norms, or trained) queried with one recommend call; counted non-trivial when a result is returned and "
        "distinct by (model, sizes, option set, number of users, factors style)")
NEED = ["scalar", "batch", "multi_batch", "items", "filter_items", "liked_filtered", "recalculate", "N>items",
        "all_filtered", "huge", "crowd", "trained", "float64", "wider_rows", "narrower_rows"]
ASSUMPTIONS = ["scores are judged against a float64 inner product with the rounding bound of the factors' dtype",
               "ids tied within rounding may be returned in any order"]


def cases(tier, seed):
    q = tier == "quick"
    return case_list(seed, small=32000 if q else 480000, batch=1600 if q else 19200, trained=1600 if q else 19200,
                     wide=480 if q else 2400, huge=16 if q else 160, crowd=8 if q else 80)


def run_case(spec, mon):
    rng = rng_of(spec)
    k = spec["kind"]
    kind = gen.pick(rng, ["als", "bpr", "lmf", "als"])
    dtype = gen.pick(rng, [np.float32, np.float64])
    if k == "small":
        users, items, f = gen.size(rng, 1, 12, 80), gen.size(rng, 1, 25, 300), gen.size(rng, 1, 9, 130)
    elif k == "batch":
        users, items, f = int(rng.integers(90, 460)), gen.size(rng, 1, 60, 500), gen.size(rng, 1, 17, 130)
    elif k == "wide":
        users, items, f = int(rng.integers(1, 230)), gen.size(rng, 900, 3000, 9000), gen.size(rng, 1, 40, 260)
    elif k == "huge":
        users, items, f = int(rng.integers(1, 9)), int(rng.integers(33000, 70000)), int(rng.integers(1, 5))
        mon.event("huge")
    elif k == "crowd":
        users, items, f = int(rng.integers(1, 400)), int(rng.integers(1, 12)), int(rng.integers(1, 5))
        mon.event("crowd")
    else:
        users, items, f = int(rng.integers(2, 40)), int(rng.integers(2, 40)), int(rng.integers(1, 9))
    style = "trained"
    if k == "trained":
        ui = gen.nonempty_matrix(rng, users, items, dtype=gen.pick(rng, [np.float32, np.float64]))
        model = gen.trained_model(rng, kind, ui, f=f, dtype=dtype)
        mon.event("trained")
    else:
        ui = gen.matrix(rng, users, items, dtype=gen.pick(rng, [np.float32, np.float64, np.int32]),
                        full_row=rng.random() < 0.2)
        style = gen.pick(rng, ["normal", "ints", "scaled", "dups", "neg", "sparse"])
        model = gen.set_model(rng, kind, users, items, f, dtype, style=style)
    # which users
    if k == "batch":
        n = gen.size(rng, 101, 450, 2500)
        ids = rng.integers(0, users, n)
        mon.event("multi_batch")
    elif k == "crowd":
        ids = rng.integers(0, users, int(rng.integers(6000, 14000)))
    elif k == "wide":
        ids = rng.integers(0, users, int(rng.integers(1, 220)))
        if len(ids) > 100:
            mon.event("multi_batch")
    else:
        ids = rng.integers(0, users, int(rng.integers(1, 9)))
    scalar = rng.random() < 0.4 and k in ("small", "trained")
    if scalar:
        ids = ids[:1]
    N = gen.pick(rng, [1, 2, 3, 10, items, max(1, items - 1), items + 3, 1024])
    kw = {"N": int(N)}
    liked = rng.random() < 0.7
    kw["filter_already_liked_items"] = bool(liked)
    recalc = kind == "als" and model.regularization >= 0.01 and rng.random() < 0.25 and style not in ("scaled",)
    if recalc:
        kw["recalculate_user"] = True
    eligible = np.ones(items, bool)
    mode = gen.pick(rng, ["none", "items", "filter"])
    if mode == "items":
        sel = gen.subset(rng, items, repeats=rng.random() < 0.2)
        kw["items"] = gen.idform(rng, sel)
        eligible[:] = False
        eligible[sel] = True
        mon.event("items")
    elif mode == "filter":
        fl = gen.subset(rng, items, repeats=rng.random() < 0.2) if rng.random() < 0.9 else []
        kw["filter_items"] = gen.idform(rng, fl)
        if len(fl):
            eligible[np.asarray(fl)] = False
        mon.event("filter_items")
    rows = ui[ids]
    if recalc:
        rows = abs(rows).tocsr()
    rows = gen.rewidth(rng, rows, mon)
    userid = gen.scalar_id(rng, ids[0]) if scalar else gen.idform(rng, ids)
    if recalc:
        model.regularization = float(gen.pick(rng, [0.5, 5.0]))
        q = np.atleast_2d(model.recalculate_user(userid, rows)).astype(float)
        mon.event("recalculate")
        C = rows.astype(np.float64) * model.alpha
        for r in set(rng.integers(0, len(ids), 6).tolist() + [0, len(ids) - 1]):
            als_ref.judge_minimiser(mon, q[r], model.item_factors, *als_ref.row(C, r), model.regularization, judge.eps_of(np.float32),
                                    "als.recalculate_user of %d users, row %d" % (len(ids), r))
    else:
        q = model.user_factors[ids].astype(float)
    Y = model.item_factors.astype(float)
    if not liked and not recalc and rng.random() < 0.5:
        arg = None
    else:
        arg = rows
    rids, rscores = model.recommend(userid, arg, **kw)
    rids, rscores = np.asarray(rids), np.asarray(rscores)
    if scalar:
        mon.event("scalar")
        mon.check(rids.ndim == 1, "scalar call does not return a 1-d answer", shape=rids.shape)
        rids, rscores = rids[None], rscores[None]
    else:
        mon.event("batch")
        mon.check(rids.ndim == 2 and rids.shape[0] == len(ids), "batch call: wrong shape", shape=rids.shape)
    if dtype is np.float64:
        mon.event("float64")
    if N > items:
        mon.event("N>items")
    mdt = model.item_factors.dtype
    check_rows = range(len(ids))
    for r in check_rows:
        el = eligible
        if liked:
            el = eligible.copy()
            el[rows.indices[rows.indptr[r]:rows.indptr[r + 1]]] = False
            mon.event("liked_filtered")
        if not el.any():
            mon.event("all_filtered")
        true = Y @ q[r]
        tol = judge.dot_tol(q[r], Y, mdt, c=16.0 if recalc else 8.0)
        if recalc:
            tol = tol + 1e-6 * np.abs(Y) @ np.abs(q[r])
        mon.ev()
        judge.judge_topn(mon, rids[r], rscores[r], true, tol, el, int(N),
                         "%s.recommend(%s)" % (kind, ", ".join(sorted(kw))))
    mon.nontrivial(kind, style, str(mdt), items, f, len(ids), scalar, sorted(kw), int(N), spec["i"] % 97)
    mon.sample(model=kind, style=style, users=users, items=items, factors=f, asked=ids[:5].tolist(), options=kw,
               first_answer=(rids[0][:5].tolist(), rscores[0][:5].tolist()))
