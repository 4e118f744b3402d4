"""C03: similar_items / similar_users are exact cosine neighbours."""
import numpy as np

from vlib import als_ref, gen, judge
from vlib.core import case_list, rng_of

PROP = "C03"
RULE = ("one case = one ALS/BPR/LMF model (generated factors in six styles, or trained; zero rows, repeated rows, "
        "norms over six decades) and one similar_items or similar_users call; distinct by (model, call, options, sizes)")
NEED = ["similar_items", "similar_users", "scalar", "batch", "multi_batch", "select", "filter", "zero_query", "zero_row",
        "recalculate", "trained", "tiny_row", "huge", "N>available", "float64"]
ASSUMPTIONS = ["cosines are judged against float64 with the rounding bound of the factors' dtype",
               "ids tied within rounding may come in any order"]


def cases(tier, seed):
    q = tier == "quick"
    return case_list(seed, small=36000 if q else 480000, batch=2000 if q else 20000, trained=2000 if q else 20000,
                     wide=640 if q else 6400, huge=16 if q else 160)


def cosines(q, Y):
    """float64 cosine of every row of Y with q, 0 where either is all zero"""
    nq = np.sqrt((q * q).sum())
    ny = np.sqrt((Y * Y).sum(axis=1))
    out = Y @ q
    ok = (ny > 0) & (nq > 0)
    out[ok] = out[ok] / (ny[ok] * nq)
    out[~ok] = 0
    return out


def run_case(spec, mon):
    rng = rng_of(spec)
    k = spec["kind"]
    kind = gen.pick(rng, ["als", "bpr", "lmf", "als"])
    dtype = gen.pick(rng, [np.float32, np.float64])
    if k == "small":
        users, items, f = gen.size(rng, 1, 20, 300), gen.size(rng, 1, 20, 300), gen.size(rng, 1, 9, 420)
    elif k == "batch":
        users, items, f = int(rng.integers(2, 300)), int(rng.integers(2, 300)), gen.size(rng, 1, 17, 420)
    elif k == "wide":
        users, items, f = gen.size(rng, 900, 2500, 9000), gen.size(rng, 900, 2500, 9000), gen.size(rng, 1, 70, 420)
    elif k == "huge":
        users, items, f = int(rng.integers(33000, 70000)), int(rng.integers(33000, 70000)), int(rng.integers(1, 5))
        mon.event("huge")
    else:
        users, items, f = int(rng.integers(2, 40)), int(rng.integers(2, 40)), int(rng.integers(1, 9))
    style = "trained"
    if k == "trained":
        ui = gen.nonempty_matrix(rng, users, items)
        model = gen.trained_model(rng, kind, ui, f=f, dtype=dtype)
        mon.event("trained")
    else:
        style = gen.pick(rng, ["normal", "ints", "scaled", "dups", "neg", "sparse"] if k != "huge" else ["normal", "dups"])
        model = gen.set_model(rng, kind, users, items, f, dtype, style=style)
    call = gen.pick(rng, ["similar_items", "similar_users"])
    tiny = style != "trained" and rng.random() < 0.08
    if tiny:
        # rows far below the value that stands in for a norm of zero
        F = model.item_factors if call == "similar_items" else model.user_factors
        F[rng.random(len(F)) < 0.3] *= 10.0 ** -int(rng.integers(8, 14))
        mon.event("tiny_row")
    F = model.item_factors if call == "similar_items" else model.user_factors
    n = F.shape[0]
    mdt = F.dtype
    scalar = rng.random() < 0.5 and k != "batch"
    nq = 1 if scalar else (gen.size(rng, 101, 330, 2000) if k == "batch" else gen.size(rng, 1, 8, 250))
    ids = rng.integers(0, n, nq)
    if nq > 100:
        mon.event("multi_batch")
    N = int(gen.pick(rng, [1, 2, 3, 10, n, max(1, n - 1), n + 3, 1024]))
    kw = {"N": N}
    eligible = np.ones(n, bool)
    suffix = "items" if call == "similar_items" else "users"
    mode = gen.pick(rng, ["none", "select", "filter"])
    if mode == "select":
        sel = gen.subset(rng, n, repeats=rng.random() < 0.2)
        kw[suffix] = gen.idform(rng, sel)
        eligible[:] = False
        eligible[sel] = True
        mon.event("select")
    elif mode == "filter":
        fl = gen.subset(rng, n, repeats=rng.random() < 0.2) if rng.random() < 0.9 else []
        kw["filter_" + suffix] = gen.idform(rng, fl)
        if len(fl):
            eligible[np.asarray(fl)] = False
        mon.event("filter")
    qid = gen.scalar_id(rng, ids[0]) if scalar else gen.idform(rng, ids)
    Q = F[ids].astype(float)
    recalc = False
    if call == "similar_items" and kind == "als" and style != "scaled" and not tiny and rng.random() < 0.3:
        model.regularization = 0.5
        iu = gen.matrix(rng, nq, users, values="conf", density=0.3)
        Q = np.atleast_2d(model.recalculate_item(qid, iu)).astype(float)
        kw.update(recalculate_item=True, item_users=iu)
        recalc = True
        mon.event("recalculate")
        C = iu.astype(np.float64) * model.alpha
        for r in set(rng.integers(0, nq, 6).tolist() + [0, nq - 1]):
            als_ref.judge_minimiser(mon, Q[r], model.user_factors, *als_ref.row(C, r), model.regularization, judge.eps_of(np.float32),
                                    "als.recalculate_item of %d items, row %d" % (nq, r))
    rids, rsc = getattr(model, call)(qid, **kw)
    rids, rsc = np.asarray(rids), np.asarray(rsc)
    mon.event(call)
    if scalar:
        mon.event("scalar")
        mon.check(rids.ndim == 1, call + ": scalar call does not give a 1-d answer", shape=rids.shape)
        rids, rsc = rids[None], rsc[None]
    else:
        mon.event("batch")
        mon.check(rids.ndim == 2 and len(rids) == nq, call + ": wrong shape", shape=rids.shape, nq=nq)
    if mdt == np.float64:
        mon.event("float64")
    if N > eligible.sum():
        mon.event("N>available")
    Y = F.astype(float)
    if not Y.any(axis=1).all():
        mon.event("zero_row")
    tol = np.full(n, 16 * judge.eps_of(mdt) * (F.shape[1] + 6) + (1e-6 if recalc else 0))
    # tiny norms: squares below the dtype's range lose accuracy; not generated except through training
    for r in range(nq):
        q = Q[r]
        if not q.any():
            mon.event("zero_query")
        mon.ev()
        judge.judge_topn(mon, rids[r], rsc[r], cosines(q, Y), tol, eligible, N,
                         "%s.%s(%s) of %d" % (kind, call, ", ".join(sorted(kw)), ids[r]))
    mon.nontrivial(kind, call, style, str(mdt), n, f, nq, scalar, sorted(kw), N, spec["i"] % 53)
    mon.sample(model=kind, call=call, style=style, n=n, factors=f, query=ids[:4].tolist(),
               options={a: b for a, b in kw.items() if a != "item_users"},
               answer=(rids[0][:5].tolist(), rsc[0][:5].tolist()))
