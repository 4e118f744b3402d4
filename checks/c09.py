"""C09: explain decomposes the predicted score into contributions."""
import numpy as np

from vlib import als_ref as ref
from vlib import gen, judge
from vlib.core import case_list, rng_of

PROP = "C09"
RULE = ("one case = one ALS model and several explain calls compared with the dense decomposition y_i' W_u^-1 c_uj y_j; "
        "non-trivial when the user has likes; distinct by (shape, user row, item, N, alpha, reg, dtype)")
NEED = ["negative_confidence", "alpha", "weights_reused", "N<likes", "empty_row", "float64", "trained", "userid>0",
        "vs_recalculate", "unsorted_row", "tiny_confidence", "many_items"]
ASSUMPTIONS = ["regularization > 0 and well-conditioned systems (rounding tolerances)", "userid selects the row of the "
               "matrix passed in"]


def cases(tier, seed):
    q = tier == "quick"
    return case_list(seed, explain=30000 if q else 400000, many=24 if q else 200)


def run_case(spec, mon):
    rng = rng_of(spec)
    users, items = int(rng.integers(1, 12)), gen.size(rng, 1, 16, 400, 0.12)
    f = gen.size(rng, 1, 8, 100)
    dtype = gen.pick(rng, [np.float32, np.float64])
    if spec["kind"] == "many":
        items, f, dtype = int(rng.integers(5500, 12000)), int(rng.integers(1, 4)), np.float64
        mon.event("many_items")
    eps = judge.eps_of(dtype)
    reg = float(gen.pick(rng, [0.25, 1.0, 4.0]))
    alpha = float(gen.pick(rng, [1.0, 1.0, 2.0, 2.5]))
    kw = dict(regularization=reg, alpha=alpha)
    if rng.random() < 0.3:
        m = gen.trained_model(rng, "als", gen.nonempty_matrix(rng, users, items, values="conf"), f=f, dtype=dtype,
                              iterations=2, **kw)
        mon.event("trained")
    else:
        m = gen.set_model(rng, "als", users, items, f, dtype, style=gen.pick(rng, ["normal", "ints", "dups"]), **kw)
    if alpha != 1:
        mon.event("alpha")
    if dtype is np.float64:
        mon.event("float64")
    nrow = gen.size(rng, 1, 6, 60) if spec["kind"] != "many" else 2
    ui = gen.matrix(rng, nrow, items, density=gen.pick(rng, [0.2, 0.5, 0.9]) if spec["kind"] != "many" else 0.9, values=gen.pick(rng, ["conf", "signed", "ints"]),
                    dtype=gen.pick(rng, [np.float32, np.float64]))
    if rng.random() < 0.3 and ui.nnz:
        for r in range(nrow):
            s = slice(ui.indptr[r], ui.indptr[r + 1])
            p = rng.permutation(s.stop - s.start)
            ui.indices[s], ui.data[s] = ui.indices[s][p], ui.data[s][p]
        ui = gen.reflag(rng, ui)
        mon.event("unsorted_row")
    if rng.random() < 0.15 and ui.nnz:
        # confidences far below one count like any other
        ui.data *= 2.0 ** -int(rng.integers(8, 30)) if rng.random() < 0.5 else 2.0 ** -rng.integers(0, 30, ui.nnz).astype(float)
        mon.event("tiny_confidence")
    ui = gen.rewidth(rng, ui, mon)
    Y = m.item_factors.astype(float)
    weights = {}
    for _ in range(3):
        u, it = int(rng.integers(nrow)), int(rng.integers(items))
        if u:
            mon.event("userid>0")
        idx, c = ref.row(ui, u)
        c = c.astype(float) * alpha
        A, b, Aabs, babs = ref.equations(Y, idx, c, reg)
        cond = np.linalg.cond(A)
        pos = idx[c > 0]
        if (c < 0).any():
            mon.event("negative_confidence")
        if not len(idx):
            mon.event("empty_row")
        W = np.linalg.solve(A, Y[it])
        contrib = {int(j): float(W @ Y[j] * x) for j, x in zip(idx, c) if x > 0}
        total = sum(contrib.values())
        sc = max([np.linalg.norm(W) * np.linalg.norm(Y[j]) * abs(x) for j, x in zip(idx, c)] or [0]) + 1e-30
        tol = 200 * eps * (len(Y) + len(idx) + f) * cond * sc
        N = int(gen.pick(rng, [1, 2, 5, 10, items // 2 + 1, items, items + 3]))
        reuse = u in weights and rng.random() < 0.7
        got_t, got_c, w = m.explain(gen.scalar_id(rng, u), ui, gen.scalar_id(rng, it), N=N,
                                    **({"user_weights": weights[u]} if reuse else {}))
        if reuse:
            mon.event("weights_reused")
        weights[u] = w
        what = "explain(row %d, item %d, N=%d%s)" % (u, it, N, ", user_weights" if reuse else "")
        d = dict(got=(got_t, got_c), want=(total, contrib), conf=c, idx=idx, reg=reg, alpha=alpha, tol=tol)
        mon.ev()
        mon.check(abs(got_t - total) <= tol * max(1, len(contrib)), what + ": total is not the predicted score", **d)
        ids = [int(i) for i, _ in got_c]
        sc_ = [float(s) for _, s in got_c]
        mon.check(len(ids) == min(N, len(contrib)), what + ": wrong number of contributions", **d)
        mon.check(len(set(ids)) == len(ids) and set(ids) <= set(contrib), what + ": contributions not over the positively "
                  "liked items", **d)
        mon.check(all(abs(s - contrib[i]) <= tol for i, s in zip(ids, sc_)), what + ": contribution value", **d)
        mon.check(all(a >= b for a, b in zip(sc_, sc_[1:])), what + ": not in descending order", **d)
        have = set(ids)
        left = [contrib[i] for i in contrib if i not in have]
        if left and sc_:
            mon.event("N<likes")
            mon.check(max(left) <= min(sc_) + 2 * tol, what + ": not the largest contributions", **d)
        if len(ids) == len(contrib):
            mon.check(abs(sum(sc_) - got_t) <= tol * max(1, len(contrib)), what + ": contributions do not sum to the total", **d)
        x = m.recalculate_user(u, ui[u]).astype(float)
        mon.check(abs(float(x @ Y[it]) - got_t) <= 4 * tol * max(1, len(contrib)) + 100 * eps * cond * np.abs(x) @ np.abs(Y[it]),
                  what + ": total differs from the score of the recalculated user", recalculated=x @ Y[it], **d)
        mon.event("vs_recalculate")
        if len(contrib):
            mon.nontrivial(u, it, N, items, f, reg, alpha, np.dtype(dtype).name, idx.tolist())
        mon.sample(case=what, total=got_t, contributions=got_c[:3])
