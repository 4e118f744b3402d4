"""C06: the reported ALS training loss is the objective and never rises."""
import numpy as np
import scipy.sparse as sp

from vlib import als_ref as ref
from vlib import gen, judge
from vlib.core import case_list, rng_of

PROP = "C06"
RULE = ("one case = one calculate_loss call on generated factors, or one fit whose every callback's loss is compared "
        "with the dense double-precision objective of the factors of that iteration and with the previous loss; "
        "non-trivial when the matrix has entries; distinct by (kind, shape, factors, dtype, reg, alpha, threads)")
NEED = ["direct", "fit.cg", "fit.cholesky", "fit.python", "negative_confidence", "empty_row", "descended", "float64",
        "threads>rows", "explicit_zero", "int_values", "tower", "vast"]
ASSUMPTIONS = ["confidences are generated exactly representable in float32; an explicit zero entry is an entry of "
               "confidence 0 in preference 0"]


def cases(tier, seed):
    q = tier == "quick"
    return case_list(seed, direct=24000 if q else 320000, fit=6400 if q else 80000, big=480 if q else 4800, tower=64 if q else 640, vast=64 if q else 480)


def tol_of(absum, n, eps):
    return 2 * eps * (np.sqrt(n) + 10) * absum + 1e-12


def vast(spec, mon):
    """more cells than a 32 bit integer can count"""
    from implicit.cpu import als
    from implicit.cpu.als import AlternatingLeastSquares

    rng = rng_of(spec)
    dtype = gen.pick(rng, [np.float32, np.float64])
    users, items, f = int(rng.integers(30000, 110000)), int(rng.integers(30000, 110000)), int(rng.integers(1, 4))
    n = int(rng.integers(1, 3000))
    ui = sp.csr_matrix((np.ones(n), (rng.integers(0, users, n), rng.integers(0, items, n))), shape=(users, items))
    ui.data[:] = (1 + rng.integers(0, 20, ui.nnz) / 4.0) * np.where(rng.random(ui.nnz) < 0.2, -1, 1)
    reg = float(gen.pick(rng, [0.5, 4.0]))
    # most of the weight on the stored cells, so that what they contribute can be seen
    hot_u, hot_i = np.unique(ui.nonzero()[0]), np.unique(ui.indices)
    if rng.random() < 0.5:
        X, Y = np.zeros((users, f), dtype), np.zeros((items, f), dtype)
        X[hot_u] = rng.integers(-3, 4, (len(hot_u), f))
        Y[hot_i] = rng.integers(-3, 4, (len(hot_i), f))
        got = als.calculate_loss(ui.astype(np.float32), X, Y, reg, num_threads=int(gen.pick(rng, [0, 1, 3])))
        alpha = 1.0
    else:
        alpha = float(gen.pick(rng, [1.0, 2.5]))
        m = AlternatingLeastSquares(factors=f, regularization=reg, alpha=alpha, dtype=dtype, iterations=2, calculate_training_loss=True,
                                    use_cg=bool(rng.integers(2)), random_state=int(rng.integers(1 << 30)))
        log = []
        m.fit(ui, show_progress=False, callback=lambda it, t, loss: log.append(loss))
        X, Y, got = m.user_factors, m.item_factors, log[-1]
    C = ui * alpha
    X, Y = X.astype(float), Y.astype(float)
    r = np.repeat(np.arange(users), np.diff(C.indptr))
    s = (X[r] * Y[C.indices]).sum(1)
    c, p = np.abs(C.data), (C.data > 0) * 1.0
    base = ((X.T @ X) * (Y.T @ Y)).sum()
    norm = reg * ((X * X).sum() + (Y * Y).sum())
    tot = users * items - ui.nnz + c.sum()
    want = (base + (c * (p - s) ** 2 - s * s).sum() + norm) / tot
    absum = ((np.abs(X).T @ np.abs(X)) * (np.abs(Y).T @ np.abs(Y))).sum() + (c * (p + np.abs(s)) ** 2 + s * s).sum() + norm
    tol = tol_of(absum / tot, users + items, judge.eps_of(dtype))
    mon.ev()
    mon.event("vast")
    mon.check(abs(got - want) <= tol,
              "the loss of a %dx%d model is not the objective" % (users, items), got=got, want=want, tol=tol, nnz=ui.nnz)
    mon.maximum("vast_tol_rel", tol / (abs(want) + 1e-300))
    mon.nontrivial("vast", users, items, f, np.dtype(dtype).name, reg)


def run_case(spec, mon):
    if spec["kind"] == "vast":
        return vast(spec, mon)
    from implicit.cpu import als
    from implicit.cpu.als import AlternatingLeastSquares

    rng = rng_of(spec)
    k = spec["kind"]
    dtype = gen.pick(rng, [np.float32, np.float64])
    eps = judge.eps_of(dtype)
    f = gen.size(rng, 1, 10, 130)
    users, items = gen.size(rng, 1, 30, 200), gen.size(rng, 1, 30, 200)
    if k == "big":
        users, items = gen.size(rng, 100, 400, 1500, 0.1), gen.size(rng, 100, 400, 1500, 0.1)
    elif k == "tower":  # rows with thousands of entries, and thousands of rows with a few
        users, items, f = gen.size(rng, 1100, 9000, 70000, 0.25), int(rng.integers(1, 7)), int(rng.integers(1, 6))
        if rng.random() < 0.5:
            users, items = items, users
        mon.event("tower")
    values = gen.pick(rng, ["conf", "signed", "ones", "ints"])
    if k == "fit" and rng.random() < 0.6:
        values = "conf"
    vt = gen.pick(rng, [np.float32, np.float64, np.int32])
    ui = gen.matrix(rng, users, items, values=values, dtype=vt, density=0.9 if k == "tower" else None)
    reg = float(gen.pick(rng, [0.0078125, 0.5, 4.0]))
    if k in ("direct", "big") and rng.random() < 0.1:
        reg = 0.0
    threads = int(gen.pick(rng, [0, 1, 2, 3, 7]))
    if threads > users:
        mon.event("threads>rows")
    if (ui.data < 0).any():
        mon.event("negative_confidence")
    if (np.diff(ui.indptr) == 0).any():
        mon.event("empty_row")
    if dtype is np.float64:
        mon.event("float64")
    if vt is np.int32:
        mon.event("int_values")
    if k in ("direct", "big") or k == "tower" and rng.random() < 0.5:
        if ui.nnz and rng.random() < 0.15:
            ui.data[: 1 + ui.nnz // 5] = 0
            mon.event("explicit_zero")
        X, _ = gen.factors(rng, users, f, dtype, gen.pick(rng, ["normal", "ints", "sparse", "dups"]))
        Y, _ = gen.factors(rng, items, f, dtype, gen.pick(rng, ["normal", "ints", "sparse", "dups"]))
        if ui.nnz == users * items and not ui.data.any():
            return  # no confidence at all: nothing to divide by
        got = als.calculate_loss(ui.astype(np.float32), X, Y, reg, num_threads=threads)
        want, ab, tot = ref.loss(ui, X, Y, reg)
        tol = tol_of(ab, users + items + ui.nnz + f, eps)
        mon.maximum("err_over_tol", abs(got - want) / tol)
        mon.check(abs(got - want) <= tol, "calculate_loss is not the objective", got=got, want=want, tol=tol, reg=reg,
                  matrix=ui.toarray() if users * items < 60 else ui.shape, X=X[:3], Y=Y[:3])
        mon.event("direct")
        mon.ev()
        mon.sample(case="direct", shape=ui.shape, nnz=ui.nnz, got=got, want=want)
    else:
        alpha = float(gen.pick(rng, [1.0, 1.0, 2.0, 2.5]))
        cg = bool(rng.integers(2))
        native = bool(rng.random() < 0.8) or k == "tower"
        its = int(rng.integers(1, 8))
        m = AlternatingLeastSquares(factors=f, regularization=reg, alpha=alpha, dtype=dtype, use_cg=cg,
                                    use_native=native, iterations=its, calculate_training_loss=True,
                                    num_threads=threads, random_state=int(rng.integers(1 << 30)))
        if rng.random() < 0.4:
            m.user_factors = (rng.standard_normal((users, f)) * 0.5).astype(dtype)
            m.item_factors = (rng.standard_normal((items, f)) * 0.5).astype(dtype)
        log = []
        cb = lambda it, t, loss: log.append((it, loss, m.user_factors.copy(), m.item_factors.copy()))  # noqa: E731
        m.fit(ui, show_progress=False, callback=cb)
        mon.check([x[0] for x in log] == list(range(its)), "callback iterations", got=[x[0] for x in log])
        C = (ui.astype(np.float64) * alpha).tocsr()
        monotone = not ui.nnz or np.abs(C.data).min() >= 1
        prev = None
        for it, loss, X, Y in log:
            want, ab, tot = ref.loss(C, X, Y, reg)
            tol = tol_of(ab, users + items + ui.nnz + f, eps)
            mon.ev()
            mon.maximum("err_over_tol", abs(loss - want) / tol)
            mon.check(abs(loss - want) <= tol, "reported loss of iteration %d is not the objective" % it, got=loss,
                      want=want, tol=tol, alpha=alpha, reg=reg, shape=ui.shape)
            if prev is not None and monotone:
                mon.check(loss <= prev[0] + tol + prev[1], "the reported loss increased in iteration %d" % it,
                          before=prev[0], after=loss, tol=tol + prev[1], cg=cg, native=native, reg=reg, alpha=alpha)
                mon.event("descended")
            prev = (loss, tol)
        mon.event("fit.cg" if cg else "fit.cholesky")
        if not native:
            mon.event("fit.python")
        mon.sample(case="fit", shape=ui.shape, losses=[x[1] for x in log])
    if ui.nnz:
        mon.nontrivial(k, users, items, f, np.dtype(dtype).name, reg, threads, values, spec["i"] % 29)
