"""C15: BPR training only makes valid pairwise updates."""
import itertools

import numpy as np
import scipy.sparse as sp

from vlib import gen
from vlib.core import case_list, rng_of

PROP = "C15"
RULE = ("one case = one training whose factors and counts are observed after every epoch.  tiny: the set of all outcomes "
        "reachable by valid steps from the previous epoch's factors is enumerated and must contain the observed one (one "
        "thread); decode: the draws of every step are recovered from the factor changes by linear algebra (small learning "
        "rate, users at 0) and must be whole numbers of valid draws that explain all changes and counts; liked: all samples "
        "must be skipped and nothing may change; frame: constant component, empty rows, counts, conservation of the item "
        "sums, any number of threads.  distinct by (data shape, parameters, observed outcome)")
NEED = ["tiny.epochs", "tiny.skipped", "tiny.correct", "tiny.same_item", "tiny.float64", "decode.epochs", "decode.steps", "decode.skipped",
        "decode.every_interaction_drawn", "liked.epochs", "frame.epochs", "frame.multi_thread", "frame.empty_rows", "fresh", "unsorted",
        "int64_index", "refit", "reach.users", "tiny.scaled"]
ASSUMPTIONS = ["with more than one thread updates may be lost (hogwild), so only the frame conditions are judged there",
               "learning rate and regularization are rounded to float32 by the code"]


def cases(tier, seed):
    q = tier == "quick"
    return case_list(seed, tiny=8000 if q else 128000, decode=1200 if q else 24000, liked=1200 if q else 16000, frame=3200 if q else 48000,
                     reach=160 if q else 3200)


def cls():
    return gen.mf_classes()["bpr"]


def dress(rng, mon, m):
    """the same interactions in another storage order / index type / with other values"""
    m = m.copy()
    m.data[:] = rng.choice([1.0, 2.0, -1.0, 0.5, 7.0], m.nnz)
    if rng.random() < 0.3:
        for r in range(m.shape[0]):
            a, b = m.indptr[r], m.indptr[r + 1]
            p = rng.permutation(b - a)
            m.indices[a:b] = m.indices[a:b][p]
        m = gen.reflag(rng, m)
        mon.event("unsorted")
    if rng.random() < 0.2:
        m.indices, m.indptr = m.indices.astype(np.int64), m.indptr.astype(np.int64)
        mon.event("int64_index")
    return m


class Obs:
    """runs fit and records (user factors, item factors, correct, skipped) around every epoch"""

    def __init__(self, m, ui, epochs=None):
        if m.user_factors is not None:
            self.states = [(m.user_factors.copy(), m.item_factors.copy())]
        else:
            self.states = []
        self.counts = []

        def cb(epoch, elapsed, correct, skipped):
            self.states.append((m.user_factors.copy(), m.item_factors.copy()))
            self.counts.append((int(correct), int(skipped)))

        m.fit(ui, show_progress=False, callback=cb)


# ------------------------------------------------------------------ tiny: all reachable outcomes
def reachable(X, Y, inter, rows, lr, reg, verify, n):
    """states after n valid steps: arrays Xs (S,users,f+1), Ys (S,items,f+1), correct range, skipped"""
    items = sorted({i for _, i in inter})
    steps, skip = [], False
    for (u, l), d in itertools.product(sorted(set(inter)), items):
        if verify and d in rows[u]:
            skip = True
        else:
            steps.append((u, l, d))
    Xs, Ys = X[None].astype(float), Y[None].astype(float)
    lo = np.zeros(1, int)
    hi = np.zeros(1, int)
    sk = np.zeros(1, int)
    ex = np.zeros(1)  # the same item on both sides: which of its two updates comes first is not prescribed
    f = X.shape[1] - 1
    for _ in range(n):
        nx, ny, nl, nh, ns, ne = [], [], [], [], [], []
        if skip:
            nx.append(Xs), ny.append(Ys), nl.append(lo), nh.append(hi), ns.append(sk + 1), ne.append(ex)
        for u, l, d in steps:
            x, a, b = Xs[:, u].copy(), Ys[:, l].copy(), Ys[:, d].copy()
            s = (x * (a - b)).sum(1)
            z = 1.0 / (1.0 + np.exp(s))
            A, B = Xs.copy(), Ys.copy()
            t = x[:, :f].copy()
            A[:, u, :f] += lr * (z[:, None] * (a - b)[:, :f] - reg * t)
            B[:, l, :f] += lr * (z[:, None] * t - reg * B[:, l, :f])
            B[:, d, :f] += lr * (-z[:, None] * t - reg * B[:, d, :f])
            B[:, l, f] += lr * (z - reg * B[:, l, f])
            B[:, d, f] += lr * (-z - reg * B[:, d, f])
            tie = 0.0 if l == d else (1e-5 * (1 + (np.abs(x) * (np.abs(a) + np.abs(b))).sum(1))
                                      + ex * (2 * np.abs(x) + np.abs(a) + np.abs(b)).sum(1))
            same = 3 * lr * lr * reg * np.maximum(1, np.abs(t).max(1)) if l == d else 0.0
            ne.append(ex * (1 + lr * (1 + np.abs(x).max(1) + np.abs(a - b).max(1))) + same)
            nx.append(A), ny.append(B), ns.append(sk)
            nl.append(lo + (s > tie)), nh.append(hi + (s > -tie) if l != d else hi)
        Xs, Ys = np.concatenate(nx), np.concatenate(ny)
        lo, hi, sk, ex = np.concatenate(nl), np.concatenate(nh), np.concatenate(ns), np.concatenate(ne)
    return Xs, Ys, lo, hi, sk, ex


def tiny(spec, mon):
    rng = rng_of(spec)
    verify = bool(rng.random() < 0.6)
    f = gen.size(rng, 1, 4, 420)
    for _ in range(200):
        users, items = int(rng.integers(1, 4)), int(rng.integers(1, 5))
        n = int(rng.integers(1, 6))
        if n > users * items:
            continue
        cells = rng.choice(users * items, n, replace=False)
        inter = [(int(c) // items, int(c) % items) for c in cells]
        rows = {u: {i for v, i in inter if v == u} for u in range(users)}
        its = {i for _, i in inter}
        ns = sum(1 for u, _ in inter for d in its if not (verify and d in rows[u])) + 1
        if ns ** n <= (40000 if f < 4 else 160000 / f):
            break
    else:
        return
    ui = sp.csr_matrix((np.ones(n, np.float32), ([u for u, _ in inter], [i for _, i in inter])), shape=(users, items))
    ui.sort_indices()
    dt = gen.pick(rng, [np.float32, np.float64])
    if dt == np.float64:
        mon.event("tiny.float64")
    lr, reg = float(gen.pick(rng, [0.01, 0.1, 0.6])), float(gen.pick(rng, [0.0, 0.02, 0.3] if verify else [0.0, 0.02]))
    m = cls()(factors=f, learning_rate=lr, regularization=reg, dtype=dt, iterations=int(rng.integers(1, 4)), num_threads=1,
              verify_negative_samples=verify, random_state=int(rng.integers(1 << 30)))
    m.user_factors, _ = gen.factors(rng, users, f + 1, dt, "normal")
    m.item_factors, _ = gen.factors(rng, items, f + 1, dt, "normal")
    if rng.random() < 0.2:
        k = float(gen.pick(rng, [0.01, 4.0, 10.0]))  # scores in the tails of the logistic function
        m.user_factors *= dt(k)
        m.item_factors *= dt(k)
        mon.event("tiny.scaled")
    m.user_factors[:, f] = 1
    o = Obs(m, dress(rng, mon, ui))
    if rng.random() < 0.2:
        mon.event("refit")
        o2 = Obs(m, dress(rng, mon, ui))
        o.states += o2.states[1:]
        o.counts += o2.counts
    mon.check(len(o.counts) > 0 and np.array_equal(o.states[-1][0], m.user_factors), "the factors change after the last epoch")
    lr32, reg32 = float(np.float32(lr)), float(np.float32(reg))
    for (X0, Y0), (X1, Y1), (correct, skipped) in zip(o.states, o.states[1:], o.counts):
        Xs, Ys, lo, hi, sk, ex = reachable(X0, Y0, inter, rows, lr32, reg32, verify, n)
        sc = 1 + max(np.abs(X0).max(), np.abs(Y0).max(), np.abs(X1).max(initial=0), np.abs(Y1).max(initial=0))
        tol = (3e-6 if dt == np.float32 else 1e-12) * sc * n * (f + 20) / 22
        dev = np.maximum(np.abs(Xs - X1).max((1, 2)), np.abs(Ys - Y1).max((1, 2)))
        ok = (dev <= tol + ex) & (sk == skipped) & (lo <= correct) & (correct <= hi)
        mon.ev(1)
        mon.event("tiny.epochs")
        mon.event("tiny.outcomes_enumerated", len(dev))
        mon.check(ok.any(), "BPR epoch: the factors or counts are not reachable by valid steps (nearest state differs by %.3g, "
                  "tolerance %.3g)" % (dev.min(), tol), interactions=inter, X0=X0, Y0=Y0, X1=X1, Y1=Y1, counts=(correct, skipped),
                  nearest=(int(sk[dev.argmin()]), int(lo[dev.argmin()]), int(hi[dev.argmin()])), lr=lr, reg=reg, verify=verify)
        if skipped:
            mon.event("tiny.skipped")
        if correct:
            mon.event("tiny.correct")
        if not verify and n < len(its) + 2:
            mon.event("tiny.same_item")
        mon.nontrivial("tiny", inter, verify, correct, skipped, f, np.round(X1 - X0, 3).tobytes())
    mon.sample(case="tiny", interactions=inter, verify=verify, counts=o.counts)


# ------------------------------------------------------------------ decode: the draws recovered from the changes
def decode(spec, mon):
    rng = rng_of(spec)
    users, items = gen.size(rng, 2, 30, 200), gen.size(rng, 4, 28, 120)
    ui = gen.nonempty_matrix(rng, users, items, density=gen.pick(rng, [0.08, 0.25, 0.5]), empty=0.2, values="ones")
    likes = np.asarray(ui.todense()) != 0
    indata = likes.any(0)
    n = ui.nnz
    f = items + 2
    lr = 1e-6 / max(1, n / 100)
    epochs = 1
    m = cls()(factors=f, learning_rate=lr, regularization=0.0, dtype=np.float64, iterations=1, num_threads=1,
              verify_negative_samples=True, random_state=int(rng.integers(1 << 30)))
    Y = rng.standard_normal((items, f + 1))
    Y[:, f] = 0  # without biases and with users at 0 every step has z = 1/2
    m.item_factors = Y
    m.user_factors = np.zeros((users, f + 1))
    m.user_factors[:, f] = 1
    X0, Y0 = m.user_factors.copy(), m.item_factors.copy()
    lr32 = float(np.float32(lr))
    drawn = np.zeros_like(likes)
    data = dress(rng, mon, ui)
    for rep in range(40):
        m.user_factors, m.item_factors = X0.copy(), Y0.copy()
        m.random_state = int(rng.integers(1 << 30))
        o = Obs(m, data)
        (X1, Y1), (correct, skipped) = o.states[-1], o.counts[-1]
        mon.event("decode.epochs")
        mon.ev()
        # X1 - X0 = lr/2 * R Y with R[u,i] = times i was the liked item minus times it was the other one
        R = np.linalg.lstsq(Y0[:, :f].T, (X1 - X0)[:, :f].T / (lr32 * 0.5), rcond=None)[0].T
        Q = np.rint(R)
        what = dict(users=users, items=items, nnz=n, rep=rep)
        mon.maximum("decode_rounding", np.abs(R - Q).max())
        mon.check(np.abs(R - Q).max() < 0.05, "user factors did not move by whole BPR steps", residual=np.abs(R - Q).max(), **what)
        mon.check(not (Q[~likes] > 0).any(), "an item the user has not interacted with was used as the liked item",
                  cells=np.argwhere((Q > 0) & ~likes)[:5], **what)
        mon.check(not (Q[likes] < 0).any(), "verify_negative_samples: an item liked by the user was used as the disliked item",
                  cells=np.argwhere((Q < 0) & likes)[:5], **what)
        mon.check(not (Q[:, ~indata] != 0).any(), "an item without interactions was sampled", **what)
        pos, neg = np.where(Q > 0, Q, 0).sum(1), -np.where(Q < 0, Q, 0).sum(1)
        mon.check(np.array_equal(pos, neg), "liked and disliked draws do not balance", pos=pos, neg=neg, **what)
        mon.check(int(pos.sum()) + skipped == n, "samples %d + skipped %d is not the number of interactions %d" %
                  (pos.sum(), skipped, n), **what)
        mon.check(0 <= correct <= n - skipped, "correct count out of range", correct=correct, skipped=skipped, **what)
        db = (Y1 - Y0)[:, f] / (lr32 * 0.5)
        mon.check(np.abs(db - Q.sum(0)).max() < 0.05, "item biases did not follow the steps", bias=db, draws=Q.sum(0), **what)
        # items move by -+ lr * z * x_u with x_u of the order lr: nothing to first order
        mon.check(np.abs((Y1 - Y0)[:, :f]).max() <= 1e3 * (lr32 * n) ** 2 + 1e-15, "item factors moved although the users are at 0",
                  moved=np.abs((Y1 - Y0)[:, :f]).max(), **what)
        mon.check((X1[:, f] == 1).all(), "the users' constant component changed", **what)
        drawn |= Q > 0
        mon.event("decode.steps", int(pos.sum()))
        mon.event("decode.skipped", skipped)
        mon.nontrivial("decode", Q.tobytes())
    # an interaction whose user likes all items in the data can never make a step
    can = likes & ((likes.sum(1) < indata.sum())[:, None])
    # the draws of 40 epochs miss an interaction with probability < n * exp(-40 * share of other items)
    share = 1 - likes[:, indata].mean(1)
    strong = can & ((share * 40) > 14 + np.log(n))[:, None]
    mon.check(not (strong & ~drawn).any(), "interactions that are never sampled", cells=np.argwhere(strong & ~drawn)[:5], nnz=n)
    if strong.any():
        mon.event("decode.every_interaction_drawn", int(strong.sum()))
    mon.sample(case="decode", users=users, items=items, nnz=n)


# ------------------------------------------------------------------ liked: everything must be skipped
def liked(spec, mon):
    rng = rng_of(spec)
    users, items = gen.size(rng, 1, 60, 400), int(gen.pick(rng, [1, 2, 3, 17, 64, 130, 257, 600]))
    cols = np.sort(rng.choice(items, max(1, int(items * gen.pick(rng, [0.3, 1.0]))), replace=False))
    d = np.zeros((users, items), np.float32)
    d[:, cols] = 1
    ui = dress(rng, mon, sp.csr_matrix(d))
    thr = int(gen.pick(rng, [0, 1, 3, 8]))
    f = gen.size(rng, 1, 6, 420)
    dt = gen.pick(rng, [np.float32, np.float64])
    m = cls()(factors=f, learning_rate=0.3, regularization=0.1, dtype=dt, iterations=2, num_threads=thr,
              verify_negative_samples=True, random_state=int(rng.integers(1 << 30)))
    m.user_factors, _ = gen.factors(rng, users, f + 1, dt, "normal")
    m.item_factors, _ = gen.factors(rng, items, f + 1, dt, "normal")
    m.user_factors[:, f] = 1
    o = Obs(m, ui)
    for (X1, Y1), c in zip(o.states[1:], o.counts):
        mon.event("liked.epochs")
        mon.ev()
        mon.check(c == (0, ui.nnz), "all samples have a liked second item, but the counts are (correct, skipped) = %s of %d" % (c, ui.nnz))
        mon.check(np.array_equal(X1, o.states[0][0]) and np.array_equal(Y1, o.states[0][1]),
                  "factors changed although every sample must be skipped", users=users, items=items, threads=thr)
    mon.nontrivial("liked", users, items, len(cols), thr)


# ------------------------------------------------------------------ frame conditions
def frame(spec, mon):
    rng = rng_of(spec)
    big = rng.random() < 0.2
    users, items = (int(rng.integers(2, 40)), int(rng.integers(2, 40))) if not big else (gen.size(rng, 100, 400, 3000, 0.3), gen.size(rng, 100, 300, 2000, 0.3))
    ui = gen.nonempty_matrix(rng, users, items, density=gen.pick(rng, [0.05, 0.3]), empty=0.3)
    thr = int(gen.pick(rng, [0, 1, 1, 2, 8]))
    f = gen.size(rng, 1, 9, 420)
    dt = gen.pick(rng, [np.float32, np.float64])
    verify = bool(rng.integers(2))
    reg = float(gen.pick(rng, [0.0, 0.0, 0.05]))
    m = cls()(factors=f, learning_rate=float(gen.pick(rng, [0.01, 0.1])), regularization=reg, dtype=dt,
              iterations=gen.size(rng, 1, 5, 12), num_threads=thr, verify_negative_samples=verify,
              random_state=int(rng.integers(1 << 30)))
    fresh = rng.random() < 0.6
    ui = dress(rng, mon, ui)
    uc, ic = np.diff(ui.indptr), np.bincount(ui.indices, minlength=items)
    if not fresh:
        m.user_factors, _ = gen.factors(rng, users, f + 1, dt, "normal")
        m.item_factors, _ = gen.factors(rng, items, f + 1, dt, "normal")
        m.user_factors[:, f] = 1
    o = Obs(m, ui)
    if fresh:
        mon.event("fresh")
        mon.check((m.user_factors[uc == 0][:, :f] == 0).all(), "users without interactions have non-zero factors")
        mon.check((m.item_factors[ic == 0] == 0).all(), "items without interactions have non-zero factors")
        mon.check(m.user_factors.shape == (users, f + 1) and m.item_factors.shape == (items, f + 1), "shape of the factors")
        mon.check(m.user_factors.dtype == dt and m.item_factors.dtype == dt, "dtype of the factors")
        have = uc > 0
        if have.sum() > 3 and m.iterations:
            mon.check(len(np.unique(m.user_factors[have][:, 0])) > 1, "all users start from the same factors")
    if thr != 1:
        mon.event("frame.multi_thread")
    if (uc == 0).any() and (ic == 0).any():
        mon.event("frame.empty_rows")
    mon.check(len(o.counts) == m.iterations, "one report per epoch", reports=len(o.counts), iterations=m.iterations)
    first = o.states[0]
    for k, ((X1, Y1), (c, s)) in enumerate(zip(o.states if fresh else o.states[1:], o.counts)):
        mon.event("frame.epochs")
        mon.ev()
        mon.check((X1[:, f] == 1).all(), "the users' constant component changed")
        mon.check(np.array_equal(X1[uc == 0], first[0][uc == 0]) and np.array_equal(Y1[ic == 0], first[1][ic == 0]),
                  "factors of rows without interactions changed")
        mon.check(c >= 0 and s >= 0 and c + s <= ui.nnz, "counts out of range", correct=c, skipped=s, nnz=ui.nnz)
        mon.check(verify or s == 0, "samples skipped without verify_negative_samples", skipped=s)
        if verify and ui.nnz > 300:
            # the draws are uniform: the number of skipped samples is binomial
            lk = np.zeros((users, items))
            lk[np.repeat(np.arange(users), uc), ui.indices] = 1
            p = float((uc / ui.nnz * (lk @ (ic / ui.nnz))).sum())
            sd = (ui.nnz * p * (1 - p)) ** 0.5
            mon.event("frame.skip_rate")
            mon.check(abs(s - ui.nnz * p) <= 8 * sd + 2, "the number of skipped samples is not what uniform draws give", skipped=s,
                      expected=ui.nnz * p, sd=sd)
        if reg == 0 and thr == 1:
            # every step adds to one item what it takes from another
            a, b = first[1].astype(float).sum(0), Y1.astype(float).sum(0)
            tol = (1e-9 if dt == np.float64 else 3e-6) * (1 + np.abs(Y1).max()) * (1 + ui.nnz * (k + 1)) ** 0.5 * 4
            mon.event("frame.conserved")
            mon.check(np.abs(a - b).max() <= tol, "the sum of the item factors is not conserved by steps without regularization",
                      before=a, after=b, tol=tol)
    mon.nontrivial("frame", users, items, ui.nnz, thr, f, verify, fresh, reg)


# ------------------------------------------------------------------ reach: nothing is never drawn
def reach(spec, mon):
    """users and items with a single interaction anywhere in a long matrix are drawn sooner or later"""
    rng = rng_of(spec)
    users, items = gen.size(rng, 40, 900, 12000, 0.5), int(rng.integers(30, 400))
    per = np.minimum(rng.choice([1, 1, 1, 2, 5, 40], users), items)
    r = np.repeat(np.arange(users), per)
    c = np.concatenate([rng.choice(items, k, replace=False) for k in per])
    ui = sp.csr_matrix((np.ones(len(r), np.float32), (r, c)), shape=(users, items))
    f = int(rng.integers(1, 5))
    dt = gen.pick(rng, [np.float32, np.float64])
    m = cls()(factors=f, learning_rate=0.05, regularization=0.0, dtype=dt, iterations=60, num_threads=1,
              verify_negative_samples=bool(rng.integers(2)), random_state=int(rng.integers(1 << 30)))
    m.user_factors = rng.standard_normal((users, f + 1)).astype(dt)
    m.item_factors = rng.standard_normal((items, f + 1)).astype(dt)
    m.user_factors[:, f] = 1
    X0, Y0 = m.user_factors.copy(), m.item_factors.copy()
    m.fit(dress(rng, mon, ui), show_progress=False)
    lik = np.asarray((ui != 0).astype(float) @ (np.bincount(c, minlength=items) / len(c)))
    sure = (1 - lik) * 60 * per > 16 + np.log(users)
    same = (m.user_factors == X0).all(1)
    mon.ev(int(sure.sum()))
    mon.event("reach.users", int(sure.sum()))
    mon.check(not (same & sure).any(), "users whose interactions are never sampled in 60 epochs", users=np.nonzero(same & sure)[0][:5],
              nnz=ui.nnz, rows=users)
    cnt = np.bincount(c, minlength=items)
    same = (m.item_factors == Y0).all(1) & (cnt * 60 > 40 + np.log(items))
    mon.check(not same.any(), "items that are never sampled in 60 epochs", items=np.nonzero(same)[0][:5], nnz=ui.nnz)
    mon.nontrivial("reach", users, items, ui.nnz)


def run_case(spec, mon):
    {"reach": reach, "tiny": tiny, "decode": decode, "liked": liked, "frame": frame}[spec["kind"]](spec, mon)
