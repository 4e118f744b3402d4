"""C08: partial fitting updates exactly the named rows."""
import numpy as np

from vlib import als_ref as ref
from vlib import gen, judge
from vlib.core import case_list, rng_of

PROP = "C08"
RULE = ("one case = one history of 1..5 partial_fit_users/partial_fit_items calls on one ALS model; after each call every "
        "row of both factor matrices is compared with its expected value (least-squares solution for the named rows, "
        "zeros for the gap, bit-identical otherwise) and the updated ids are queried; distinct by (shape, ids, side)")
NEED = ["users", "items", "extended", "gap", "unordered", "single_id", "empty_row", "alpha", "float64",
        "per_id_equivalence", "queried_new_id", "negative_confidence", "ids.list", "ids.ndarray", "trained", "batch>100",
        "after_query"]
ASSUMPTIONS = ["ids of one call are distinct (a call naming an id twice is not specified)"]


def cases(tier, seed):
    q = tier == "quick"
    return case_list(seed, hist=12000 if q else 180000, big=600 if q else 6000)


def run_case(spec, mon):
    rng = rng_of(spec)
    k = spec["kind"]
    users, items = gen.size(rng, 1, 16, 150), gen.size(rng, 1, 16, 150)
    if k == "big":
        users, items = gen.size(rng, 100, 300, 1500, 0.1), gen.size(rng, 20, 200, 800, 0.1)
    f = gen.size(rng, 1, 9, 100)
    dtype = gen.pick(rng, [np.float32, np.float64])
    eps = judge.eps_of(dtype)
    reg = float(gen.pick(rng, [0.0625, 0.5, 4.0]))
    alpha = float(gen.pick(rng, [1.0, 1.0, 2.0, 2.5]))
    if alpha != 1:
        mon.event("alpha")
    if dtype is np.float64:
        mon.event("float64")
    kw = dict(regularization=reg, alpha=alpha, use_cg=bool(rng.integers(2)), use_native=bool(rng.integers(2)))
    if rng.random() < 0.3 and k != "big":
        m = gen.trained_model(rng, "als", gen.nonempty_matrix(rng, users, items, values="conf"), f=f, dtype=dtype, **kw)
        mon.event("trained")
    else:
        m = gen.set_model(rng, "als", users, items, f, dtype, style=gen.pick(rng, ["normal", "ints", "dups", "sparse"]),
                          **kw)
    for step in range(int(rng.integers(1, 5)) if k != "big" else 1):
        side = gen.pick(rng, ["users", "items"])
        mon.event(side)
        mine, other = ("user_factors", "item_factors")[:: 1 if side == "users" else -1]
        n, w = len(getattr(m, mine)), len(getattr(m, other))
        span = n + int(gen.pick(rng, [0, 1, 3, 9, gen.size(rng, 1, 30, 2500, 0.4)]))
        cnt = gen.size(rng, 1, 6, 80) if k != "big" else int(rng.integers(101, max(102, span)))
        ids = rng.permutation(span)[:cnt]
        if rng.random() < 0.3:
            ids = np.sort(ids)
        if len(ids) > 100:
            mon.event("batch>100")
        rows = gen.matrix(rng, len(ids), w, density=gen.pick(rng, [0.1, 0.4, 0.8]),
                          values=gen.pick(rng, ["conf", "signed", "ints"]),
                          dtype=gen.pick(rng, [np.float32, np.float64, np.int32]))
        rows = gen.rewidth(rng, rows, mon)
        if (rows.data < 0).any():
            mon.event("negative_confidence")
        if (np.diff(rows.indptr) == 0).any():
            mon.event("empty_row")
        if len(ids) == 1:
            mon.event("single_id")
        if (np.diff(ids) < 0).any():
            mon.event("unordered")
        if rng.random() < 0.4:
            # something cached beforehand must not matter
            m.recalculate_user(0, gen.matrix(rng, 1, len(m.item_factors)))
            m.recalculate_item(0, gen.matrix(rng, 1, len(m.user_factors)))
            m.similar_items(0)
            mon.event("after_query")
        before, before_o = getattr(m, mine).copy(), getattr(m, other).copy()
        form = gen.idform(rng, ids)
        mon.event("ids.list" if isinstance(form, list) else "ids.ndarray")
        fn = getattr(m, "partial_fit_" + side)
        fn(form, rows)
        after, after_o = getattr(m, mine), getattr(m, other)
        what = "partial_fit_%s(%s of %d)" % (side, ids[:8].tolist(), n)
        top = max(n, int(ids.max()) + 1)
        mon.check(after.shape == (top, f), what + ": the model has the wrong number of rows", shape=after.shape, want=top)
        mon.check(after.dtype == before.dtype, what + ": dtype changed", dtype=after.dtype)
        mon.check(after_o.tobytes() == before_o.tobytes() and after_o.shape == before_o.shape,
                  what + ": the other factor matrix changed")
        keep = np.ones(top, bool)
        keep[ids] = False
        old = keep[:n]
        mon.check(after[:n][old].tobytes() == before[old].tobytes(), what + ": rows that were not named changed",
                  rows=np.nonzero(old & (after[:n] != before).any(axis=1))[0])
        gap = np.nonzero(keep[n:])[0] + n
        mon.check(not after[gap].any(), what + ": rows between the old end and the new id are not zero", rows=gap)
        if top > n:
            mon.event("extended")
            if len(gap):
                mon.event("gap")
        C = (rows.astype(np.float64) * alpha).tocsr()
        for i, x in enumerate(ids):
            j, c = ref.row(C, i)
            mon.ev()
            ref.judge_minimiser(mon, after[x], before_o, j, c, reg, eps, what + " row %d" % x)
        # the new rows are used by queries right away
        x = int(ids[int(rng.integers(len(ids)))])
        if side == "users":
            got, sc = m.recommend(x, gen.matrix(rng, 1, w), N=w, filter_already_liked_items=False)
            true = after_o.astype(float) @ after[x].astype(float)
            tol = judge.dot_tol(after[x], after_o, dtype)
            judge.judge_topn(mon, got, sc, true, tol, np.ones(w, bool), w, what + " then recommend(%d)" % x)
        else:
            u = int(rng.integers(w))
            got, sc = m.recommend(u, gen.matrix(rng, 1, top), N=top, filter_already_liked_items=False)
            true = after.astype(float) @ after_o[u].astype(float)
            tol = judge.dot_tol(after_o[u], after, dtype)
            judge.judge_topn(mon, got, sc, true, tol, np.ones(top, bool), top, what + " then recommend")
        mon.event("queried_new_id")
        q = m.similar_users if side == "users" else m.similar_items
        got, sc = q(x, N=top)
        nr = np.linalg.norm(after.astype(float), axis=1)
        cos = after.astype(float) @ after[x].astype(float) / np.where(nr == 0, 1, nr) / (nr[x] or 1)
        tiny = (nr < 1e-8).any() or nr.max() > 1e8
        if not tiny:
            judge.judge_topn(mon, got, sc, cos, np.full(top, 40 * eps * (f + 4)), np.ones(top, bool), top,
                             what + " then similar_%s(%d)" % (side, x))
        # one call per id gives the same
        if rng.random() < 0.4 and len(ids) <= 20:
            c = type(m)(factors=f, dtype=dtype, num_threads=1, **kw)
            setattr(c, mine, before.copy())
            setattr(c, other, before_o.copy())
            for i in rng.permutation(len(ids)):
                getattr(c, "partial_fit_" + side)([int(ids[i])], rows[i])
            a, b = after.astype(float), getattr(c, mine).astype(float)
            mon.check(a.shape == b.shape, what + ": differs in shape from one call per id")
            sc = np.abs(a).max(initial=0) + 1e-12
            mon.check(np.abs(a - b).max(initial=0) <= 64 * eps * sc, what + ": differs from one call per id", batch=a,
                      single=b)
            mon.event("per_id_equivalence")
        mon.nontrivial(side, n, w, ids[:10].tolist(), f, np.dtype(dtype).name, reg, alpha)
        mon.sample(case=what, row=after[x][:4].tolist())
