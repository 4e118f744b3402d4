"""C16: LMF training makes valid logistic gradient steps."""
import itertools

import numpy as np
import scipy.sparse as sp

from vlib import gen
from vlib.core import case_list, rng_of

PROP = "C16"
RULE = ("one case = one training whose factors are observed after every epoch; each row of each side is judged on its own "
        "(its step depends on its own interactions, its sampled negatives and the other side only).  tiny: all multisets of "
        "negatives are enumerated and one of them must explain the row's step, with the Adagrad sums tracked over the epochs; "
        "noneg: neg_prop=0, exact on larger data; regular: rows that are all alike, so that every draw has the same effect, "
        "exact on larger data with negatives; frame: constant components and rows without interactions, any data.  "
        "distinct by (data, parameters, observed step)")
NEED = ["huge_neg_prop", "tiny.rows", "tiny.epoch>1", "tiny.multiple_negatives", "tiny.capped", "noneg.rows", "regular.rows", "regular.epoch>1",
        "frame.empty_user", "frame.empty_item", "multi_thread", "fresh", "refit", "unsorted", "tiny.every_negative_drawn",
        "noneg.confidence", "tiny.confidence", "tiny.large_factors", "noneg.tower"]
ASSUMPTIONS = ["float32 rounding of the code is allowed for", "the number of negatives of a row is capped at the number of factor "
               "columns, as the code does"]
EPS = 1e-6


def cases(tier, seed):
    q = tier == "quick"
    return case_list(seed, tiny=9000 if q else 180000, noneg=2400 if q else 36000, regular=1800 if q else 30000, frame=1800 if q else 30000,
                     draws=96 if q else 1200)


def cls():
    return gen.mf_classes()["lmf"]


def dress(rng, mon, m):
    m = m.copy()
    if rng.random() < 0.3:
        for r in range(m.shape[0]):
            a, b = m.indptr[r], m.indptr[r + 1]
            p = rng.permutation(b - a)
            m.indices[a:b] = m.indices[a:b][p]
            m.data[a:b] = m.data[a:b][p]
        m = gen.reflag(rng, m)
        mon.event("unsorted")
    if rng.random() < 0.2:
        m = m.astype(gen.pick(rng, [np.float64, np.int64]) if np.array_equal(m.data, np.rint(m.data)) else np.float64)
    return m


def observe(m, ui):
    states = []
    if m.user_factors is not None:
        states.append((m.user_factors.copy(), m.item_factors.copy()))

    def cb(epoch, elapsed):
        states.append((m.user_factors.copy(), m.item_factors.copy()))

    m.fit(ui, show_progress=False, callback=cb)
    return states


def sig(s):
    return 1.0 / (1.0 + np.exp(-s))


class Side:
    """one half of an epoch: rows x take a step given the other side's rows y"""

    def __init__(self, W, neg_prop, lr, reg, const, cap):
        self.W, self.lr, self.reg, self.const = W.tocsr(), float(np.float32(lr)), float(np.float32(reg)), const
        self.counts = np.bincount(self.W.indices, minlength=W.shape[1])  # how often each other row is stored
        self.neg_prop, self.cap = neg_prop, cap

    def own(self, r, x, y):
        """gradient without the negatives, and the number of negatives"""
        a, b = self.W.indptr[r], self.W.indptr[r + 1]
        idx, c = self.W.indices[a:b], self.W.data[a:b].astype(float)
        yy = y[idx].astype(float)
        g = ((c * (1 - sig(yy @ x)))[:, None] * yy).sum(0) - self.reg * x
        return g, min(self.cap, (b - a) * self.neg_prop)

    def step(self, x, g, ss):
        """-> new row, new Adagrad sums (vectorised over candidates)"""
        ss = ss + g * g
        n = x + self.lr / np.sqrt(EPS + ss) * g
        n[..., self.const] = 1.0
        return n, ss

    def tol(self, x, ss, k):
        return 3e-5 * self.lr + 4e-6 * np.abs(x) + 1e-7


def close(new, got, x, side, gabs, ss):
    """observed row within float32 rounding of the candidate (the gradient is a difference of larger terms)"""
    err = side.lr / np.sqrt(EPS + ss) * (3e-6 * gabs)  # rounding of the gradient
    err = np.minimum(err, 2 * side.lr)
    return np.abs(new - got) <= err + 3e-5 * side.lr + 1e-5 * np.abs(x) + 1e-6


def gabs_of(side, r, x, y, k):
    a, b = side.W.indptr[r], side.W.indptr[r + 1]
    idx, c = side.W.indices[a:b], np.abs(side.W.data[a:b].astype(float))
    # a score is a sum of products, its rounding moves the sigmoid
    amp = 1 + 0.25 * (np.abs(y) @ np.abs(x)).max()
    return ((c[:, None] * np.abs(y[idx])).sum(0) * 2 + k * np.abs(y).max(0)) * amp + side.reg * np.abs(x)


def multisets(vals, k):
    """sums over all multisets of size k of the rows of vals"""
    m = len(vals)
    idx = np.array(list(itertools.combinations_with_replacement(range(m), k)), dtype=int).reshape(-1, k)
    return vals[idx].sum(1) if k else np.zeros((1, vals.shape[1])), idx


def ncomb(m, k):
    out = 1
    for i in range(k):
        out = out * (m + i) // (i + 1)
    return out


# ------------------------------------------------------------------ tiny
def tiny(spec, mon):
    rng = rng_of(spec)
    for _ in range(300):
        users, items, f = int(rng.integers(1, 5)), int(rng.integers(1, 5)), gen.size(rng, 1, 5, 420, 0.1)
        neg = int(gen.pick(rng, [1, 1, 2, 3, 30, 10**9 if rng.random() < 0.3 else 5]))
        W = gen.nonempty_matrix(rng, users, items, density=gen.pick(rng, [0.3, 0.6]), empty=0.2, values=gen.pick(rng, ["conf", "ints", "floats", "signed"]))
        if rng.random() < 0.2:
            W.data[:] = W.data * np.float32(gen.pick(rng, [0.01, 20, 300]))
            mon.event("tiny.confidence")
        cap = f + 2
        kmax = min(cap, neg * max(np.diff(W.indptr).max(), np.diff(W.tocsc().indptr).max()))
        if ncomb(max(users, items), int(kmax)) <= 500:
            break
    else:
        return
    lr, reg = float(gen.pick(rng, [0.05, 0.5, 1.0])), float(gen.pick(rng, [0.0, 0.1, 0.6]))
    scale = float(gen.pick(rng, [2e-3, 2e-3, 0.1, 1.0, 5.0 if f < 6 else 1.0, 40.0 if f < 6 else 1.0]))
    if scale > 1:
        mon.event("tiny.large_factors")
    thr = int(gen.pick(rng, [1, 1, 2, 5, 0]))
    if thr != 1:
        mon.event("multi_thread")
    m = cls()(factors=f, learning_rate=lr, regularization=reg, neg_prop=neg, iterations=gen.size(rng, 1, 4, 10, 0.15), num_threads=thr,
              random_state=int(rng.integers(1 << 30)))
    m.user_factors = (rng.standard_normal((users, f + 2)) * scale).astype(np.float32)
    m.item_factors = (rng.standard_normal((items, f + 2)) * scale).astype(np.float32)
    m.user_factors[:, -2] = 1
    m.item_factors[:, -1] = 1
    st = observe(m, dress(rng, mon, W))
    mon.check(len(st) == m.iterations + 1, "one observation per epoch")
    U = Side(W, neg, lr, reg, f, cap)
    I = Side(W.T, neg, lr, reg, f + 1, cap)
    U.W.sort_indices(), I.W.sort_indices()
    sums = {}
    for e, ((X0, Y0), (X1, Y1)) in enumerate(zip(st, st[1:])):
        for name, side, A0, A1, B in (("user", U, X0, X1, Y0), ("item", I, Y0, Y1, X1)):
            pool = np.flatnonzero(side.counts)
            for r in range(len(A0)):
                x, got = A0[r].astype(float), A1[r].astype(float)
                if side.W.indptr[r] == side.W.indptr[r + 1]:
                    x[side.const] = 1
                    mon.check(np.array_equal(x, got), "%s without interactions changed" % name, before=x, after=got)
                    continue
                S = sums.get((name, r), np.zeros((1, f + 2)))
                if S is None:
                    continue
                g0, k = side.own(r, x, B)
                Bp = B[pool].astype(float)
                negs, idx = multisets(sig(Bp @ x)[:, None] * Bp, k)
                # equal sums cannot be told apart
                G = g0 - negs
                if len(G) * len(S) > 400000:
                    sums[name, r] = None
                    mon.event("tiny.given_up")
                    continue
                new, ss = side.step(x, G[None, :, :], S[:, None, :])
                ga = gabs_of(side, r, x, B, k)
                ok = close(new, got, x, side, ga, ss).all(-1)
                mon.ev()
                mon.event("tiny.rows")
                mon.event("tiny.candidates", ok.size)
                if e:
                    mon.event("tiny.epoch>1")
                if k > 1:
                    mon.event("tiny.multiple_negatives")
                if (side.W.indptr[r + 1] - side.W.indptr[r]) * neg > cap:
                    mon.event("tiny.capped")
                if not ok.any():
                    j = np.abs(new - got).max(-1).argmin()
                    mon.check(False, "LMF epoch %d: the step of %s %d is not a logistic gradient step for any choice of negatives"
                              % (e, name, r), row=x, observed=got, nearest=new.reshape(-1, f + 2)[j], negatives=k, other=B,
                              weights=W.toarray(), lr=lr, reg=reg, neg_prop=neg)
                ss = np.broadcast_to(ss, new.shape)[ok]
                sums[name, r] = np.unique(np.round(ss, 12), axis=0)
                mon.nontrivial("tiny", name, W.shape, k, f, np.round(got - x, 4).tobytes())
    mon.sample(case="tiny", weights=W.toarray().tolist(), factors=f, neg_prop=neg, threads=thr)


# ------------------------------------------------------------------ every stored interaction can be drawn as negative
def draws(spec, mon):
    """one user with one interaction of its own, other items stored by other users; which negative it drew is seen
    from its step (one negative, tiny factors)"""
    rng = rng_of(spec)
    items, f = gen.size(rng, 2, 6, 300, 0.4), 12
    W = sp.csr_matrix(np.eye(items, dtype=np.float32))
    seen = np.zeros((items, items), bool)
    X = (rng.standard_normal((items, f + 2)) * 1e-3).astype(np.float32)
    Y = (rng.standard_normal((items, f + 2)) * 1e-3).astype(np.float32)
    X[:, -2] = 1
    Y[:, -1] = 1
    side = Side(W, 1, 0.5, 0.1, f, f + 2)
    for rep in range(80):
        m = cls()(factors=f, learning_rate=0.5, regularization=0.1, neg_prop=1, iterations=1, num_threads=int(gen.pick(rng, [1, 1, 3])),
                  random_state=int(rng.integers(1 << 30)))
        m.user_factors, m.item_factors = X.copy(), Y.copy()
        X1 = observe(m, W)[-1][0]
        for u in range(items):
            x = X[u].astype(float)
            g0, k = side.own(u, x, Y)
            new, ss = side.step(x, g0 - sig(Y.astype(float) @ x)[:, None] * Y.astype(float), np.zeros(f + 2))
            ok = close(new, X1[u], x, side, gabs_of(side, u, x, Y, 1), ss).all(-1)
            mon.ev()
            mon.check(ok.any(), "LMF: the step of a user with one negative is not a valid one", row=x, observed=X1[u])
            if ok.sum() == 1:
                seen[u, ok.argmax()] = True
    # a given draw is missing for every user with probability (1-1/items)^(80*items)
    mon.check(seen.any(0).all(), "stored interactions that are never drawn as negatives", seen=seen)
    mon.event("tiny.every_negative_drawn")
    mon.nontrivial("draws", items, seen.tobytes())


# ------------------------------------------------------------------ no negatives: exact
def judge_exact(mon, kind, st, U, I, draws):
    """draws(side, r, x, B) -> gradient of the negatives (all draws having the same effect)"""
    sums = [np.zeros(st[0][0].shape), np.zeros(st[0][1].shape)]
    for e, ((X0, Y0), (X1, Y1)) in enumerate(zip(st, st[1:])):
        for s, (name, side, A0, A1, B) in enumerate((("user", U, X0, X1, Y0), ("item", I, Y0, Y1, X1))):
            for r in range(len(A0)):
                x, got = A0[r].astype(float), A1[r].astype(float)
                if side.W.indptr[r] == side.W.indptr[r + 1]:
                    x[side.const] = 1
                    mon.check(np.array_equal(x, got), "%s without interactions changed" % name, before=x, after=got)
                    continue
                g, k = side.own(r, x, B)
                g = g - draws(side, k, x, B)
                new, ss = side.step(x, g, sums[s][r])
                ga = gabs_of(side, r, x, B, k)
                sums[s][r] = ss
                mon.ev()
                mon.event(kind + ".rows")
                if e:
                    mon.event(kind + ".epoch>1")
                # the sums are our own: allow for the accumulated difference
                ok = np.abs(new - got) <= np.minimum(side.lr / np.sqrt(EPS + ss) * 1e-5 * ga, 2 * side.lr) \
                    + 1e-4 * side.lr + 1e-5 * np.abs(x) + 1e-6
                mon.check(ok.all(), "LMF epoch %d: the step of %s %d is not the logistic gradient step (%s)" % (e, name, r, kind),
                          row=x, observed=got, expected=new, gradient=g, negatives=k, lr=side.lr, reg=side.reg)


def noneg(spec, mon):
    rng = rng_of(spec)
    users, items, f = gen.size(rng, 2, 60, 500), gen.size(rng, 2, 60, 500), gen.size(rng, 1, 12, 420)
    tower = rng.random() < 0.015
    if tower:  # rows with thousands of interactions
        users, items, f = int(rng.integers(1, 5)), gen.size(rng, 500, 3000, 20000, 0.2), int(rng.integers(1, 6))
        if rng.random() < 0.5:
            users, items = items, users
        mon.event("noneg.tower")
    W = gen.nonempty_matrix(rng, users, items, density=0.9 if tower else gen.pick(rng, [0.05, 0.3]), empty=0.2, values=gen.pick(rng, ["conf", "floats", "signed"]))
    if rng.random() < 0.3:
        W.data[:] = W.data * np.float32(gen.pick(rng, [0.01, 20, 300]))
        mon.event("noneg.confidence")
    lr, reg = float(gen.pick(rng, [0.05, 0.5])), float(gen.pick(rng, [0.0, 0.1, 0.6]))
    thr = int(gen.pick(rng, [1, 2, 8, 0]))
    if thr != 1:
        mon.event("multi_thread")
    m = cls()(factors=f, learning_rate=lr, regularization=reg, neg_prop=0, iterations=gen.size(rng, 1, 4, 12, 0.15), num_threads=thr,
              random_state=3)
    m.user_factors = rng.standard_normal((users, f + 2)).astype(np.float32)
    m.item_factors = rng.standard_normal((items, f + 2)).astype(np.float32)
    m.user_factors[:, -2] = 1
    m.item_factors[:, -1] = 1
    st = observe(m, dress(rng, mon, W))
    U, I = Side(W, 0, lr, reg, f, f + 2), Side(W.T, 0, lr, reg, f + 1, f + 2)
    judge_exact(mon, "noneg", st, U, I, lambda side, k, x, B: 0.0)
    mon.nontrivial("noneg", users, items, f, thr, lr, reg)


def regular(spec, mon):
    """every user and item has d interactions of the same weight and the same factors"""
    rng = rng_of(spec)
    n, f = gen.size(rng, 2, 50, 400), gen.size(rng, 1, 9, 420)
    d = min(n, gen.size(rng, 1, 7, 150))
    w = float(gen.pick(rng, [1.0, 2.0, 0.5, 80.0]))
    off = rng.permutation(n)[:d]
    r = np.repeat(np.arange(n), d)
    W = sp.csr_matrix((np.full(n * d, w, np.float32), (r, (r + np.tile(off, n)) % n)), shape=(n, n))
    neg = int(gen.pick(rng, [1, 2, 5, 30, 10**9 if rng.random() < 0.5 else 3]))
    if neg > 1000:
        mon.event("huge_neg_prop")
    lr, reg = float(gen.pick(rng, [0.05, 0.5])), float(gen.pick(rng, [0.0, 0.1, 0.6]))
    thr = int(gen.pick(rng, [1, 3, 8, 0]))
    m = cls()(factors=f, learning_rate=lr, regularization=reg, neg_prop=neg, iterations=gen.size(rng, 1, 4, 12, 0.15), num_threads=thr,
              random_state=int(rng.integers(1 << 30)))
    sc = float(gen.pick(rng, [2e-3, 0.3]))
    m.user_factors = np.tile((rng.standard_normal((1, f + 2)) * sc).astype(np.float32), (n, 1))
    m.item_factors = np.tile((rng.standard_normal((1, f + 2)) * sc).astype(np.float32), (n, 1))
    m.user_factors[:, -2] = 1
    m.item_factors[:, -1] = 1
    st = observe(m, W)
    U, I = Side(W, neg, lr, reg, f, f + 2), Side(W.T, neg, lr, reg, f + 1, f + 2)
    judge_exact(mon, "regular", st, U, I, lambda side, k, x, B: k * sig(B[0].astype(float) @ x) * B[0].astype(float))
    mon.nontrivial("regular", n, d, f, neg, thr)


def frame(spec, mon):
    rng = rng_of(spec)
    big = rng.random() < 0.2
    users, items = (gen.size(rng, 100, 400, 2500, 0.3), gen.size(rng, 100, 300, 2500, 0.3)) if big else (int(rng.integers(2, 50)), int(rng.integers(2, 50)))
    f = gen.size(rng, 1, 12, 420)
    W = gen.nonempty_matrix(rng, users, items, density=gen.pick(rng, [0.05, 0.3]), empty=0.3)
    thr = int(gen.pick(rng, [0, 1, 2, 8]))
    m = cls()(factors=f, learning_rate=float(gen.pick(rng, [0.1, 1.0])), neg_prop=int(gen.pick(rng, [1, 5, 30])), num_threads=thr,
              iterations=gen.size(rng, 1, 4, 9), random_state=int(rng.integers(1 << 30)))
    uc, ic = np.diff(W.indptr), np.bincount(W.indices, minlength=items)
    fresh = rng.random() < 0.6
    if not fresh:
        m.user_factors = rng.standard_normal((users, f + 2)).astype(np.float32)
        m.item_factors = rng.standard_normal((items, f + 2)).astype(np.float32)
    st = observe(m, dress(rng, mon, W))
    if rng.random() < 0.3:
        mon.event("refit")
        st += observe(m, W)[1:]
    if fresh:
        mon.event("fresh")
        mon.check(m.user_factors.shape == (users, f + 2) and m.item_factors.shape == (items, f + 2), "shape of the factors")
        z = np.delete(m.user_factors[uc == 0], f, axis=1)
        mon.check((z == 0).all(), "users without interactions have non-zero factors", rows=z)
        z = np.delete(m.item_factors[ic == 0], f + 1, axis=1)
        mon.check((z == 0).all(), "items without interactions have non-zero factors", rows=z)
    for X, Y in st if fresh else st[1:]:
        mon.ev()
        mon.check((X[:, f] == 1).all() and (Y[:, f + 1] == 1).all(), "the constant components are not 1 after an epoch")
        for A, A0, c, col, nm in ((X, st[0][0], uc, f, "user"), (Y, st[0][1], ic, f + 1, "item")):
            if (c == 0).any():
                mon.event("frame.empty_" + nm)
            mon.check(np.array_equal(np.delete(A[c == 0], col, 1), np.delete(A0[c == 0], col, 1)),
                      "%s rows without interactions changed" % nm)
    mon.nontrivial("frame", users, items, f, thr, fresh)


def run_case(spec, mon):
    {"tiny": tiny, "noneg": noneg, "regular": regular, "frame": frame, "draws": draws}[spec["kind"]](spec, mon)
