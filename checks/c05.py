"""C05: ALS factors solve the regularised, confidence-weighted least-squares problem."""
import numpy as np

from vlib import als_ref as ref
from vlib import gen, judge
from vlib.core import case_list, rng_of

PROP = "C05"
RULE = ("one case = one ALS problem (values incl. negative and below 1, empty rows, alpha, regularization, both "
        "dtypes, native/Python, Cholesky/CG, 1..4 threads); every half-step of every iteration is observed through the "
        "fit callback, or recalculate_* / solver calls are made directly, and every row is judged; distinct by "
        "(configuration, sizes, case)")
NEED = ["fit.cholesky.native", "fit.cholesky.python", "fit.cg.native", "fit.cg.python", "recalculate_user",
        "recalculate_item", "empty_row", "negative_confidence", "cg_converged", "native_vs_python", "float64",
        "alpha", "scalar_recalculate", "rows>chunk", "explicit_zero", "spread_confidence", "one_huge_confidence", "cg_small", "tower"]
ASSUMPTIONS = ["values, alpha and regularization are chosen exactly representable in float32, so that the stored "
               "confidences are known exactly", "rounding bound proportional to the sum of absolute terms"]


def cases(tier, seed):
    q = tier == "quick"
    return case_list(seed, fit=1200 if q else 9000, recalc=1600 if q else 12000, cg=800 if q else 6000,
                     agree=400 if q else 3000, large=60 if q else 300, tower=24 if q else 200)


REGS = [0.0625, 0.5, 2.0, 16.0]
ALPHAS = [1.0, 1.0, 2.0, 0.5, 2.5]


def problem(rng, large=False):
    if large:
        users, items, f = gen.size(rng, 150, 700, 2500, 0.15), gen.size(rng, 100, 400, 1500, 0.15), gen.size(rng, 20, 70, 320, 0.2)
        ui = gen.nonempty_matrix(rng, users, items, density=gen.pick(rng, [0.05, 0.05, 0.4]), values=gen.pick(rng, ["conf", "signed"]))
    else:
        users, items, f = gen.size(rng, 1, 40, 250), gen.size(rng, 1, 30, 250), gen.size(rng, 1, 9, 320)
        ui = gen.nonempty_matrix(rng, users, items, values=gen.pick(rng, ["conf", "signed", "ints", "ones", "signed"]),
                                 dtype=gen.pick(rng, [np.float32, np.float64]))
    if rng.random() < 0.3 and ui.nnz:
        ui.data[rng.random(ui.nnz) < 0.3] = 0.25
    return ui, f


def tower(rng, mon):
    """items with thousands of users, or the other way round"""
    n, few = gen.size(rng, 1100, 9000, 70000, 0.25), int(rng.integers(1, 7))
    ui = gen.nonempty_matrix(rng, n, few, density=gen.pick(rng, [0.5, 0.95]), values=gen.pick(rng, ["conf", "signed"]))
    mon.event("tower")
    return (ui if rng.random() < 0.5 else ui.T.tocsr()), int(rng.integers(1, 6))


def extreme(rng, mon, m, reg, dtype, spread):
    """explicit zeros (confidence 0) and, with spread, confidences over many orders of magnitude"""
    if not m.nnz or np.issubdtype(m.dtype, np.integer):
        return m
    m = m.copy()
    if rng.random() < 0.15:
        m.data[rng.random(m.nnz) < gen.pick(rng, [0.1, 0.5])] = 0
        mon.event("explicit_zero")
    if spread and rng.random() < 0.2 and (reg >= 2 or dtype is np.float64):
        m.data *= 2.0 ** rng.integers(-14, 11 if dtype is np.float32 else 25, m.nnz)
        mon.event("spread_confidence")
    elif spread and rng.random() < 0.05 and (reg >= 16 or dtype is np.float64):
        m.data[int(rng.integers(m.nnz))] *= 2.0 ** (12 if dtype is np.float32 else 26)
        mon.event("one_huge_confidence")
    return m


def note(mon, m):
    if (m.data < 0).any():
        mon.event("negative_confidence")
    if (np.diff(m.indptr) == 0).any():
        mon.event("empty_row")
    if m.shape[0] > 8:
        mon.event("rows>chunk")


def some(C):
    """every row, or the longest ones and a spread of the others"""
    n = C.shape[0]
    if n <= 3000:
        return range(n)
    o = np.argsort(-np.diff(C.indptr), kind="stable")
    return np.unique(np.concatenate([o[:20], o[:: max(n // 40, 1)], [0, n - 1]])).tolist()


def judge_rows(mon, X, Y, C, reg, eps, what):
    for u in some(C):
        i, c = ref.row(C, u)
        mon.ev()
        ref.judge_minimiser(mon, X[u], Y, i, c, reg, eps, "%s, row %d" % (what, u))


def judge_descent(mon, Xnew, Xold, Y, C, reg, eps, what, native):
    for u in some(C):
        i, c = ref.row(C, u)
        mon.ev()
        if not len(i) and native:
            mon.check(not np.asarray(Xnew[u]).any(), what + ": row without interactions is not all zeros", row=u)
            continue
        a, ma = ref.objective(Xnew[u], Y, i, c, reg)
        b, mb = ref.objective(Xold[u], Y, i, c, reg)
        slack = 40 * eps * (ma + mb) + 1e-25
        mon.check(np.isfinite(Xnew[u]).all() and a <= b + slack,
                  what + ": the update of row %d increased its objective" % u, before=b, after=a, slack=slack)


def run_case(spec, mon):
    rng = rng_of(spec)
    k = spec["kind"]
    from implicit.cpu.als import AlternatingLeastSquares
    from implicit.recommender_base import ModelFitError

    ui, f = problem(rng, k == "large") if k != "tower" else tower(rng, mon)
    users, items = ui.shape
    dtype = gen.pick(rng, [np.float32, np.float64])
    eps = judge.eps_of(dtype)
    if dtype is np.float64:
        mon.event("float64")
    cg = gen.pick(rng, [True, False])
    reg, alpha = gen.pick(rng, REGS), gen.pick(rng, ALPHAS)
    if rng.random() < 0.3 and (k == "recalc" or not cg):
        # the direct solver takes the regularization in double precision
        reg = gen.pick(rng, [0.3, 0.7, 1.9, 3.3])
    if alpha != 1:
        mon.event("alpha")
    threads = gen.pick(rng, [0, 1, 2, 4])
    native = bool(rng.random() < 0.75) or k in ("large", "tower")
    if k in ("fit", "large", "tower"):
        ui = extreme(rng, mon, ui, reg, dtype, True)
        note(mon, ui)
        model = AlternatingLeastSquares(factors=f, regularization=reg, alpha=alpha, dtype=dtype, use_native=native,
                                        use_cg=cg, iterations=int(rng.integers(1, 4)), num_threads=threads,
                                        random_state=int(rng.integers(1 << 30)))
        model.user_factors = (rng.standard_normal((users, f))).astype(dtype)
        model.item_factors = (rng.standard_normal((items, f))).astype(dtype)
        U, V = [model.user_factors.copy()], [model.item_factors.copy()]
        model.fit(ui, show_progress=False,
                  callback=lambda *a: (U.append(model.user_factors.copy()), V.append(model.item_factors.copy())))
        mon.check(len(U) == model.iterations + 1, "callback not called once per iteration", calls=len(U) - 1)
        mon.check(np.array_equal(U[-1], model.user_factors) and np.array_equal(V[-1], model.item_factors),
                  "factors after fit are not those of the last iteration")
        C = (ui.astype(np.float64) * alpha).tocsr()
        Ct = C.T.tocsr()
        what = "fit(%s, %s, %s, reg=%s, alpha=%s)" % ("cg" if cg else "cholesky", "native" if native else "python",
                                                      np.dtype(dtype).name, reg, alpha)
        for t in range(1, len(U)):
            if cg:
                judge_descent(mon, U[t], U[t - 1], V[t - 1], C, reg, eps, what + " users it %d" % t, native)
                judge_descent(mon, V[t], V[t - 1], U[t], Ct, reg, eps, what + " items it %d" % t, native)
            else:
                judge_rows(mon, U[t], V[t - 1], C, reg, eps, what + " users it %d" % t)
                judge_rows(mon, V[t], U[t], Ct, reg, eps, what + " items it %d" % t)
        mon.event("fit.%s.%s" % ("cg" if cg else "cholesky", "native" if native else "python"))
        mon.sample(case=what, users=users, items=items, factors=f, nnz=ui.nnz, user0=U[-1][0][:4].tolist())
    elif k == "recalc":
        model = gen.set_model(rng, "als", users, items, f, dtype, num_threads=threads,
                              style=gen.pick(rng, ["normal", "ints", "dups", "sparse"]),
                              regularization=reg, alpha=alpha, use_cg=cg, use_native=native)
        side = gen.pick(rng, ["user", "item"])
        n = users if side == "user" else items
        Y = model.item_factors if side == "user" else model.user_factors
        nq = gen.size(rng, 1, 30, 400, 0.12)
        rows = gen.matrix(rng, nq, len(Y), values=gen.pick(rng, ["conf", "signed", "ints"]),
                          dtype=gen.pick(rng, [np.float32, np.float64, np.int32]))
        rows = gen.rewidth(rng, extreme(rng, mon, rows, reg, dtype, True), mon)
        scalar = rng.random() < 0.3
        ids = rng.integers(0, n + 3, nq)
        if scalar:
            rows, ids, nq = rows[:1], ids[:1], 1
            mon.event("scalar_recalculate")
        note(mon, rows)
        fn = model.recalculate_user if side == "user" else model.recalculate_item
        if rng.random() < 0.5:
            fn(0, rows[:1])  # a preceding call must not matter
        got = fn(gen.scalar_id(rng, ids[0]) if scalar else gen.idform(rng, ids), rows)
        mon.check(got.shape == ((f,) if scalar else (nq, f)), "recalculate_%s: wrong shape" % side, shape=got.shape)
        mon.event("recalculate_" + side)
        C = (rows.astype(np.float64) * alpha).tocsr()
        judge_rows(mon, np.atleast_2d(got), Y, C, reg, eps, "recalculate_%s(reg=%s, alpha=%s)" % (side, reg, alpha))
    elif k == "cg":
        # enough steps reach the minimiser
        ui = extreme(rng, mon, ui, reg, dtype, False)
        note(mon, ui)
        reg = gen.pick(rng, [0.5, 2.0])
        scale = 1.0
        if rng.random() < 0.2:
            # small factors: the stopping rule (squared residual below 1e-20) is absolute
            scale = 10.0 ** -int(rng.integers(2, 5 if dtype is np.float32 else 9))
            reg *= scale * scale
            mon.event("cg_small")
        model = AlternatingLeastSquares(factors=f, regularization=reg, alpha=alpha, dtype=dtype, use_native=native,
                                        use_cg=True, iterations=1, num_threads=threads)
        model.cg_steps = 6 * f + 10
        model.user_factors = (rng.standard_normal((users, f)) * 0.5).astype(dtype)
        model.item_factors = (rng.standard_normal((items, f)) * 0.5 * scale).astype(dtype)
        U0, V0 = model.user_factors.astype(float), model.item_factors.copy()
        try:
            model.fit(ui, show_progress=False)
        except ModelFitError:
            # with these scales the items' systems can be too ill-conditioned for cg; the users' are not
            if scale == 1 or np.isnan(model.user_factors).any():
                raise
        C = (ui.astype(np.float64) * alpha).tocsr()
        Ct = C.T.tocsr()
        sides = ((model.user_factors, V0, C, "users", U0), (model.item_factors, model.user_factors, Ct, "items", V0.astype(float)))
        for X, Y, M, w, X0 in sides if scale == 1 else sides[:1]:
            for u in range(M.shape[0]):
                i, c = ref.row(M, u)
                mon.ev()
                if not len(i) and native:
                    mon.check(not X[u].any(), "cg: row without interactions is not zero", row=u)
                    continue
                A, b, Aabs, babs = ref.equations(Y, i, c, reg)
                xs = np.linalg.solve(A, b)
                w_ = np.linalg.eigvalsh(A)
                # stops when the squared residual is below 1e-20, otherwise rounding (of the largest iterate: it starts at X0)
                tol = (1e-9 + 60 * eps * np.linalg.norm(Aabs @ np.maximum(np.abs(xs), np.abs(X0[u])) + babs) * (w_[-1] / w_[0]) ** 0.5
                       + 4 * eps * (len(M.indptr) + len(Y)) * scale * scale) / w_[0]
                err = np.linalg.norm(X[u] - xs)
                mon.maximum("cg_err_over_tol", err / tol)
                mon.check(err <= tol, "cg with %d steps did not reach the minimiser (%s row %d)" % (model.cg_steps, w, u),
                          x=X[u], expected=xs, err=err, tol=tol)
        mon.event("cg_converged")
    else:
        # native and pure-Python solvers agree (several float32 cg steps amplify rounding without bound:
        # there only the double precision solvers are comparable)
        steps = int(rng.integers(1, 5))
        if cg and dtype is np.float32:
            dtype, eps = np.float64, judge.eps_of(np.float64)
        out = []
        u0 = (rng.standard_normal((users, f)) * 0.5).astype(dtype)
        v0 = (rng.standard_normal((items, f)) * 0.5).astype(dtype)
        # rows without interactions are left out of the comparison: cg treats them differently
        ui = ui[np.diff(ui.indptr) > 0]
        ui = ui[:, np.diff(ui.tocsc().indptr) > 0].tocsr()
        u0, v0 = u0[: ui.shape[0]], v0[: ui.shape[1]]
        for nat in (True, False):
            m = AlternatingLeastSquares(factors=f, regularization=reg, alpha=alpha, dtype=dtype, use_native=nat,
                                        use_cg=cg, iterations=1, num_threads=threads)
            m.cg_steps = steps
            m.user_factors, m.item_factors = u0.copy(), v0.copy()
            m.fit(ui, show_progress=False)
            out.append((m.user_factors, m.item_factors))
        mon.event("native_vs_python")
        for a, b, w in ((out[0][0], out[1][0], "user"), (out[0][1], out[1][1], "item")):
            mon.ev(len(a))
            # conditioning is bounded by the regularization and the sizes generated
            sc = max(np.abs(a).max(), np.abs(b).max(), 1e-3)
            rel = np.abs(a.astype(float) - b).max() / sc
            mon.maximum("native_python_rel_%s" % np.dtype(dtype).name, rel)
            mon.check(rel <= (2e-2 if dtype is np.float32 else 1e-8),
                      "native and Python %s solvers disagree on %s factors" % ("cg" if cg else "cholesky", w),
                      native=a, python=b, rel=rel)
    mon.nontrivial(k, users, items, f, reg, alpha, np.dtype(dtype).name, cg, native, threads, spec["i"] % 29)
