"""C25: training never silently yields a broken model."""
import warnings

import numpy as np
import scipy.sparse as sp

from checks.c20 import content
from vlib import annx, gen
from vlib.core import Violation, case_list, rng_of

PROP = "C25"
RULE = ("one case = one training run with ordinary, huge, infinite or NaN data and parameters, observed through its callback: iterations "
        "0..n-1 in order, factors of each call equal to those of a run stopped there, exceptions raised by the callback at a chosen "
        "iteration, NaN factors never returned, and a usable model afterwards.  distinct by (model, data kind, iterations, failure point)")
NEED = ["als", "bpr", "lmf", "nan_data", "inf_data", "huge_data", "huge_rate", "finite", "raised.ModelFitError", "callback.raises", "callback.kept",
        "callback.trace", "prefix", "refit_after_failure", "iterations=0", "loss", "fit_callback", "solve_fails", "empty", "all_zero", "one_cell", "als.cg", "als.cholesky",
        "als.python", "float64", "alpha", "knn.callback", "query_in_callback", "BaseException", "nan_factors", "nan_factors.large", "nan_factors.vast", "ann"]
ASSUMPTIONS = ["BPR ignores the values of the matrix, so NaN values there do not reach the factors", "runs compared with each other use one thread for BPR"]


class Stop(Exception):
    pass


class Hard(BaseException):
    pass


def cases(tier, seed):
    q = tier == "quick"
    return case_list(seed, trace=7000 if q else 60000, fail=5000 if q else 50000, nan=12000 if q else 100000, vast=10 if q else 60, knn=100 if q else 400)


def build(rng, mon, kind=None, iterations=None, extreme=False):
    kind = kind or gen.pick(rng, ["als", "als", "bpr", "lmf"])
    mon.event(kind)
    it = gen.size(rng, 1, 6, 25) if iterations is None else iterations
    f, s = gen.size(rng, 1, 6, 320, 0.05), int(rng.integers(1 << 20))
    dt = gen.pick(rng, [np.float32, np.float64])
    if dt == np.float64:
        mon.event("float64")
    if kind == "als":
        cg, nat, loss = bool(rng.integers(2)), bool(rng.random() < 0.8), bool(rng.integers(2))
        al, reg = float(gen.pick(rng, [1.0, 1.0, 2.5])), float(gen.pick(rng, [0.5, 1.0, 5.0]))
        if extreme:
            al, reg = float(gen.pick(rng, [1.0, 1e10, 1e30])), float(gen.pick(rng, [0.0, 0.01, 1.0, 1e20]))
        if al != 1.0:
            mon.event("alpha")
        mon.event("als.cg" if cg else "als.cholesky")
        if not nat:
            mon.event("als.python")
        if loss:
            mon.event("loss")
        thr = int(gen.pick(rng, [1, 2, 0]))
        return kind, lambda n=it: gen.mf_classes()[kind](factors=f, regularization=reg, alpha=al, dtype=dt, use_cg=cg, use_native=nat, iterations=n,
                                                         calculate_training_loss=loss, num_threads=thr, random_state=s), it
    if kind == "bpr":
        lr = float(gen.pick(rng, [0.01, 0.1])) if not extreme else float(gen.pick(rng, [0.1, 10.0, 1e6, 1e30]))
        reg = float(gen.pick(rng, [0.0, 0.01])) if not extreme else float(gen.pick(rng, [0.01, 10.0, 1e6]))
        v = bool(rng.random() < 0.7)
        return kind, lambda n=it: gen.mf_classes()[kind](factors=f, learning_rate=lr, regularization=reg, dtype=dt, iterations=n, num_threads=1,
                                                         verify_negative_samples=v, random_state=s), it
    lr = float(gen.pick(rng, [0.1, 1.0])) if not extreme else float(gen.pick(rng, [1.0, 1e6, 1e30]))
    reg = float(gen.pick(rng, [0.0, 0.6])) if not extreme else float(gen.pick(rng, [0.6, 1e6]))
    thr = int(gen.pick(rng, [1, 2]))
    return kind, lambda n=it: gen.mf_classes()[kind](factors=f, learning_rate=lr, regularization=reg, iterations=n, num_threads=thr, random_state=s,
                                                     neg_prop=int(3)), it


def data(rng, mon, users, items):
    r = rng.random()
    if r < 0.05:
        mon.event("empty")
        return sp.csr_matrix((users, items), dtype=np.float32)
    if r < 0.1:
        mon.event("one_cell")
        return sp.csr_matrix(([1.0], ([users - 1], [items - 1])), shape=(users, items), dtype=np.float32)
    return gen.matrix(rng, users, items, density=0.4, values=gen.pick(rng, ["ones", "ints", "conf"]))


def usable(mon, kind, m, ui, what):
    """answers queries and is fitted again"""
    m.fit(ui, show_progress=False)
    mon.check(not np.isnan(m.user_factors).any() and not np.isnan(m.item_factors).any(), what + ": NaN factors after another fit")
    ids, sc = m.recommend(0, ui[0], N=3)
    mon.check(not np.isnan(sc).any(), what + ": NaN scores")
    mon.event("refit_after_failure")


def trace(spec, mon):
    rng = rng_of(spec)
    its = 0 if spec["i"] % 25 == 0 else None
    kind, mk, n = build(rng, mon, iterations=its)
    users, items = gen.size(rng, 1, 12, 1200), gen.size(rng, 2, 12, 1200)
    ui = data(rng, mon, users, items)
    m = mk()
    calls, snaps, kept = [], [], []

    def cb(it, elapsed, *rest):
        calls.append((it, elapsed, rest))
        snaps.append((content(m.user_factors), content(m.item_factors)))
        kept.append((m.user_factors, m.item_factors))
        if spec["i"] % 3 == 0:
            mon.event("query_in_callback")
            m.recommend(0, ui[0], N=2)
            m.similar_items(0, N=2)
            if kind == "als":
                m.recalculate_user(0, ui[0])

    legacy = kind == "als" and rng.random() < 0.2
    target = m
    if rng.random() < 0.1 and n and items >= 4 and ui.nnz:  # through a wrapper
        target = annx.wrap(rng, "annoy", m, items)
        mon.event("ann")
        legacy = False
    if legacy:
        mon.event("fit_callback")
        m.fit_callback = cb
        m.fit(ui, show_progress=False)
    else:
        target.fit(ui, show_progress=False, callback=cb)
    mon.ev()
    mon.event("callback.trace")
    what = "%s with %d iterations" % (kind, n)
    mon.check([c[0] for c in calls] == list(range(n)), what + ": callback called for iterations %s" % [c[0] for c in calls])
    for it, el, rest in calls:
        mon.check(isinstance(el, float) and 0 <= el < 600, what + ": elapsed time %r" % (el,))
        want = {"als": 1, "bpr": 2, "lmf": 0}[kind]
        mon.check(len(rest) == want, what + ": callback called with %d further arguments" % len(rest))
        if kind == "als":
            mon.check((rest[0] is not None) == m.calculate_training_loss, what + ": loss %r given to the callback" % (rest[0],))
        if kind == "bpr":
            mon.check(0 <= rest[1] <= ui.nnz and 0 <= rest[0] <= ui.nnz - rest[1], what + ": correct/skipped out of range", rest=rest, nnz=ui.nnz)
    if n == 0:
        mon.event("iterations=0")
    else:
        mon.check(snaps[-1] == (content(m.user_factors), content(m.item_factors)), what + ": the factors changed after the last callback")
        # the factors at iteration k are those of a run of k + 1 iterations
        k = int(rng.integers(n))
        p = mk(k + 1)
        p.fit(ui, show_progress=False)
        mon.event("prefix")
        mon.check((content(p.user_factors), content(p.item_factors)) == snaps[k],
                  what + ": the factors seen at iteration %d are not those of a run of %d iterations" % (k, k + 1))
        if kind == "als" and m.calculate_training_loss:
            from implicit.cpu import _als

            C = ui.astype(np.float32) * np.float32(m.alpha) if m.alpha != 1 else ui.astype(np.float32)
            want = _als.calculate_loss(C.tocsr(), p.user_factors, p.item_factors, p.regularization, num_threads=1)
            mon.check(abs(calls[k][2][0] - want) <= 1e-4 * max(1e-6, abs(want)), what + ": the loss given at iteration %d is not the loss of its factors" % k,
                      given=calls[k][2][0], want=want)
    mon.nontrivial("trace", kind, n, users, items, spec["i"])
    mon.sample(kind=kind, iterations=n, calls=[c[0] for c in calls])


def fail(spec, mon):
    """the callback (or a solve) fails at some iteration"""
    rng = rng_of(spec)
    kind, mk, n = build(rng, mon)
    users, items = gen.size(rng, 1, 12, 1200), gen.size(rng, 2, 12, 1200)
    ui = gen.nonempty_matrix(rng, users, items, density=0.4, values="ints")
    m = mk()
    if rng.random() < 0.12 and kind == "als":
        # a solve that has no solution: confidences below one make the system indefinite
        m.use_cg, m.use_native, m.regularization, m.alpha = False, True, 0.0, 1.0
        X = np.ones((users, m.factors), dtype=m.dtype)
        m.user_factors, m.item_factors = X, np.ones((items, m.factors), dtype=m.dtype)
        bad = sp.csr_matrix(np.full((users, items), 1e-3, dtype=np.float32))
        mon.ev()
        try:
            m.fit(bad, show_progress=False)
        except Exception:
            mon.event("solve_fails")
        else:
            mon.check(not np.isnan(m.user_factors).any() and not np.isnan(m.item_factors).any(), "als: NaN factors returned")
        m = mk()
        m.regularization = 1.0
        usable(mon, kind, m, ui, "als after a failing solve (another model)")
        return
    at = int(rng.integers(n))
    exc = gen.pick(rng, [Stop("stop"), ValueError("v"), Hard("h"), KeyboardInterrupt(), StopIteration()])
    if isinstance(exc, (Hard, KeyboardInterrupt)):
        mon.event("BaseException")
    seen, snap = [], {}

    def cb(it, *a):
        seen.append(it)
        snap[it] = (content(m.user_factors), content(m.item_factors))
        if it == at:
            raise exc

    mon.ev()
    mon.event("callback.raises")
    what = "%s, callback raising %s at iteration %d of %d" % (kind, type(exc).__name__, at, n)
    try:
        m.fit(ui, show_progress=False, callback=cb)
    except BaseException as e:
        mon.check(e is exc, what + ": %s: %s propagated instead" % (type(e).__name__, e))
    else:
        raise Violation(what + ": fit returned normally", seen=repr(seen))
    mon.check(seen == list(range(at + 1)), what + ": called for %s" % seen)
    mon.check((content(m.user_factors), content(m.item_factors)) == snap[at], what + ": the factors changed after the exception")
    mon.event("callback.kept")
    # queries on the half trained model, then a further fit: as a fresh model holding these factors
    a = mk()
    a.user_factors, a.item_factors = m.user_factors.copy(), m.item_factors.copy()
    ids, sc = m.recommend(0, ui[0], N=items)
    ids2, sc2 = a.recommend(0, ui[0], N=items)
    mon.check(np.array_equal(ids, ids2) and np.array_equal(sc, sc2), what + ": the model answers differently from its factors")
    if rng.random() < 0.5:
        m.similar_items(0)
    usable(mon, kind, m, ui, what)
    a.fit(ui, show_progress=False)
    mon.check(content(m.user_factors) == content(a.user_factors) and content(m.item_factors) == content(a.item_factors),
              what + ": the next fit differs from that of a model holding the same factors")
    mon.nontrivial("fail", kind, n, at, type(exc).__name__)


def vast(spec, mon):
    """one NaN anywhere in factors of several hundred thousand rows"""
    rng = rng_of(spec)
    kind = gen.pick(rng, ["bpr", "lmf", "als"])
    n, few = int(rng.integers(70000, 600000)), int(rng.integers(2, 5))
    side = gen.pick(rng, ["user_factors", "item_factors"])
    shape = (n, few) if side == "user_factors" else (few, n)
    # interactions of the first rows only: the others keep what they hold
    r, c = rng.integers(0, min(shape[0], 50), 60), rng.integers(0, min(shape[1], 50), 60)
    ui = sp.csr_matrix((np.ones(60, np.float32), (r, c)), shape=shape)
    m = gen.mf_classes()[kind](factors=1, iterations=1 if kind != "als" else 0, num_threads=1, random_state=3)
    m.fit(ui, show_progress=False)
    a = getattr(m, side)
    row = int(rng.integers(50, n)) if rng.random() < 0.6 else n - 1
    a[row, int(rng.integers(a.shape[1] - (1 if kind != "als" else 0)))] = np.nan
    mon.event("nan_factors.vast")
    mon.ev()
    try:
        m.fit(ui, show_progress=False)
    except Exception as e:
        mon.event("raised." + type(e).__name__)
    else:
        for x in (m.user_factors, m.item_factors):
            mon.check(not np.isnan(x).any(), "%s: fit of %d rows returned normally with NaN in row %d" % (kind, n, row))
    mon.nontrivial("vast", kind, side, n, row)


def nan(spec, mon):
    """hostile data and parameters: a normal return means factors without NaN"""
    from implicit.recommender_base import ModelFitError

    rng = rng_of(spec)
    d = gen.pick(rng, ["nan_data", "inf_data", "huge_data", "huge_rate", "all_zero", "nan_factors"])
    kind, mk, n = build(rng, mon, extreme=d != "nan_factors" and bool(rng.random() < 0.5))
    users, items = gen.size(rng, 1, 12, 1200), gen.size(rng, 2, 12, 1200)
    dens = 0.4
    if d == "nan_factors" and rng.random() < 0.08:
        users, items, dens = int(rng.integers(1, 20)), gen.size(rng, 300, 3000, 70000, 0.1), 0.002
        if rng.random() < 0.3:
            users, items = items, users + 1
        mon.event("nan_factors.large")
    ui = gen.nonempty_matrix(rng, users, items, density=dens, values="ints")
    mon.event(d)
    k = int(rng.integers(ui.nnz))
    if d == "nan_data":
        ui.data[k] = np.nan
    elif d == "inf_data":
        ui.data[k] = gen.pick(rng, [np.inf, -np.inf])
    elif d == "huge_data":
        ui.data[:] = gen.pick(rng, [1e20, 1e37, 3e38, -3e38, 1e-40])
    elif d == "all_zero":
        ui.data[:] = 0
    m = mk()
    nf = None
    if d == "nan_factors":
        # one NaN in the starting factors, anywhere, of users and items that may be without data
        m.fit(sp.csr_matrix(ui.shape, dtype=np.float32), show_progress=False)
        nf = gen.pick(rng, ["user_factors", "item_factors"])
        a = getattr(m, nf)
        a[int(rng.integers(a.shape[0])), int(rng.integers(a.shape[1]))] = np.nan
    iters = []
    mon.ev()
    what = "%s on %s" % (kind, d)
    try:
        m.fit(ui, show_progress=False, callback=lambda it, *a: iters.append(it))
    except ModelFitError:
        mon.event("raised.ModelFitError")
        ok = False
    except Exception as e:
        mon.event("raised." + type(e).__name__)
        ok = False
    else:
        ok = True
        mon.check(iters == list(range(n)), what + ": callback called for %s" % iters)
        for a in ("user_factors", "item_factors"):
            x = getattr(m, a)
            bad = np.argwhere(np.isnan(x))
            mon.check(not len(bad), what + ": fit returned normally with NaN in the %s" % a, position=bad[:3].tolist(), shape=x.shape, factors=x)
        mon.event("finite")
    if not ok and rng.random() < 0.5:
        # a new model in the same process is not affected
        kind2, mk2, _ = build(rng, mon, kind=kind)
        usable(mon, kind, mk2(), gen.nonempty_matrix(rng, users, items, density=0.4, values="ints"), what)
    mon.nontrivial("nan", kind, d, ok, n, users, items)


def knn(spec, mon):
    """item-item models do not support a callback: it is refused, not ignored"""
    rng = rng_of(spec)
    kind = gen.pick(rng, list(gen.knn_classes()))
    m = gen.knn_classes()[kind](K=3, num_threads=1)
    ui = gen.nonempty_matrix(rng, 6, 6, density=0.4, values="ints", dtype=np.float64)
    seen = []
    mon.ev()
    mon.event("knn.callback")
    try:
        m.fit(ui, show_progress=False, callback=lambda *a: seen.append(a))
    except NotImplementedError:
        pass
    else:
        mon.check(seen, "%s: the callback was ignored" % kind)
    m.fit(ui, show_progress=False)
    mon.check(not np.isnan(m.similarity.data).any(), "%s: NaN similarities" % kind)
    m.recommend(0, ui[0])


def run_case(spec, mon):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        {"trace": trace, "fail": fail, "nan": nan, "vast": vast, "knn": knn}[spec["kind"]](spec, mon)
