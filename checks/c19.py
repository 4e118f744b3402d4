"""C19: train/test splits partition the ratings."""
import numpy as np
import scipy.sparse as sp

from vlib import gen
from vlib.core import case_list, rng_of

PROP = "C19"
RULE = ("one case = one ratings matrix and one split; the entries (user, item, value) of train and test are compared with those "
        "of the input as multisets, the number of held out ratings per user with the definition.  reach: many seeds on one "
        "matrix, every rating must be selected by some and left by some.  distinct by (function, shape, parameters, split)")
NEED = ["tts", "lko", "tts.negative", "tts.p=0", "tts.p=1", "lko.K>1", "lko.train_only", "lko.ineligible", "lko.borderline", "lko.borderline_large_K", "reach.tts",
        "reach.lko", "reach.train_only", "rs.int", "rs.RandomState", "rs.Generator", "fmt.coo", "fmt.csr", "fmt.csc", "dtype.int",
        "dtype.float64", "empty_rows", "unsorted_coo", "no_eligible", "train_test.fraction",
        "values.scaled"]
ASSUMPTIONS = ["no explicit zeros and no repeated entries in the ratings", "some rating is stored when train_only_size is given", "the reserved number of users is the requested fraction of "
               "the users with ratings up to rounding by one (at least one)"]


def cases(tier, seed):
    q = tier == "quick"
    return case_list(seed, tts=12000 if q else 160000, lko=20000 if q else 320000, reach=192 if q else 3200, big=96 if q else 960)


def ratings(rng, mon, users=None, items=None, signed=None, density=None):
    users, items = users or gen.size(rng, 1, 30, 400), items or gen.size(rng, 1, 20, 300)
    signed = rng.random() < 0.3 if signed is None else signed
    dt = gen.pick(rng, [np.float32, np.float64, np.int32, np.int64])
    m = gen.matrix(rng, users, items, density=density or gen.pick(rng, [0.05, 0.2, 0.5, 1.0]), empty=gen.pick(rng, [0, 0.3]),
                   values="signed" if signed else gen.pick(rng, ["ones", "ints", "floats"]), dtype=dt)
    if m.nnz and not np.issubdtype(dt, np.integer) and rng.random() < 0.25:
        m.data = (m.data * 10.0 ** rng.integers(-6, 6, m.nnz)).astype(dt)
        mon.event("values.scaled")
    if np.issubdtype(dt, np.integer):
        if m.nnz and rng.random() < 0.2:
            m.data = (m.data * rng.integers(1, 10**6, m.nnz)).astype(dt)
        mon.event("dtype.int")
    elif dt == np.float64:
        mon.event("dtype.float64")
    if (np.diff(m.indptr) == 0).any():
        mon.event("empty_rows")
    return m


def form(rng, mon, m):
    f = gen.pick(rng, ["csr", "coo", "csc", "coo"])
    mon.event("fmt." + f)
    out = m.asformat(f, copy=True)
    if f == "coo" and rng.random() < 0.6:
        p = rng.permutation(out.nnz)
        out = sp.coo_matrix((out.data[p], (out.row[p], out.col[p])), shape=out.shape)
        mon.event("unsorted_coo")
    return out


def entries(m):
    c = m.tocoo()
    return sorted(zip(c.row.tolist(), c.col.tolist(), c.data.tolist()))


def rs_pair(rng, mon):
    k = gen.pick(rng, ["int", "RandomState", "Generator"])
    mon.event("rs." + k)
    s = int(rng.integers(1 << 31))
    mk = {"int": lambda: s, "RandomState": lambda: np.random.RandomState(s), "Generator": lambda: np.random.default_rng(s)}[k]
    return mk


def frame(mon, m, tr, te, what):
    for x, n in ((tr, "train"), (te, "test")):
        mon.check(sp.issparse(x) and x.format == "csr", "%s: %s is not a CSR matrix" % (what, n))
        mon.check(x.shape == m.shape and x.dtype == m.dtype, "%s: %s has another shape or dtype" % (what, n), got=(x.shape, x.dtype),
                  want=(m.shape, m.dtype))


def tts(spec, mon):
    from implicit.evaluation import train_test_split

    rng = rng_of(spec)
    m = ratings(rng, mon)
    x = form(rng, mon, m)
    p = float(gen.pick(rng, [0.0, 0.2, 0.5, 0.8, 0.95, 1.0]))
    mk = rs_pair(rng, mon)
    np.random.seed(int(rng.integers(1 << 31)))
    tr, te = train_test_split(x, train_percentage=p, random_state=mk())
    np.random.seed(int(rng.integers(1 << 31)))
    tr2, te2 = train_test_split(x, train_percentage=p, random_state=mk())
    mon.ev(2)
    mon.event("tts")
    frame(mon, m, tr, te, "train_test_split")
    E, A, B = entries(m), entries(tr), entries(te)
    sA, sB, sE = set(A), set(B), set(E)
    mon.check(len(sA) == len(A) and len(sB) == len(B), "repeated entries in the split")
    mon.check(sA <= sE and sB <= sE, "train_test_split: entries that are not ratings", extra=list((sA | sB) - sE)[:5])
    mon.check(not (sA & sB), "train_test_split: ratings in both train and test", both=list(sA & sB)[:5])
    mon.check(all(v > 0 for _, _, v in B), "train_test_split: negative ratings in test")
    lost = sE - sA - sB
    mon.check(all(v < 0 for _, _, v in lost), "train_test_split: ratings lost", lost=[e for e in lost if e[2] >= 0][:5], p=p)
    if any(v < 0 for _, _, v in E):
        mon.event("tts.negative")
    if p == 0:
        mon.event("tts.p=0")
        mon.check(not A, "train_percentage=0 leaves ratings in train", train=A[:5])
    if p == 1:
        mon.event("tts.p=1")
        mon.check(A == E and not B, "train_percentage=1 does not put all ratings in train")
    mon.check(entries(tr2) == A and entries(te2) == B, "train_test_split: the same random_state gives another split")
    mon.nontrivial("tts", m.shape, p, hash(tuple(A)))
    mon.sample(case="tts", shape=m.shape, nnz=m.nnz, p=p, train=tr.nnz, test=te.nnz)


def lko(spec, mon):
    from implicit.evaluation import leave_k_out_split

    rng = rng_of(spec)
    m = ratings(rng, mon)
    K = int(gen.pick(rng, [1, 1, 1, 2, 3, 7, gen.size(rng, 1, 9, 60, 0.3)]))
    if rng.random() < 0.4 and m.nnz:
        # some user has exactly K+1 or K+2 ratings
        K = max(1, int(gen.pick(rng, np.diff(m.indptr).tolist())) - int(rng.integers(1, 3)))
        if K > 15:
            mon.event("lko.borderline_large_K")
    frac = float(gen.pick(rng, [0.0, 0.0, 0.1, 0.5, 0.9, min(0.999, round(float(rng.random()), 3))])) if m.nnz else 0.0
    x = form(rng, mon, m)
    mk = rs_pair(rng, mon)
    np.random.seed(int(rng.integers(1 << 31)))
    tr, te = leave_k_out_split(x, K=K, train_only_size=frac, random_state=mk())
    np.random.seed(int(rng.integers(1 << 31)))
    tr2, te2 = leave_k_out_split(x, K=K, train_only_size=frac, random_state=mk())
    mon.ev(2)
    mon.event("lko")
    frame(mon, m, tr, te, "leave_k_out_split")
    A, B, E = entries(tr), entries(te), entries(m)
    mon.check(sorted(A + B) == E, "leave_k_out_split: train and test together are not the ratings", missing=list(set(E) - set(A + B))[:5],
              extra=list(set(A + B) - set(E))[:5], K=K, frac=frac, nnz=(len(E), len(A), len(B)))
    cnt, ct = np.diff(m.indptr), np.diff(te.indptr)
    elig = cnt > K + 1
    have = int((cnt > 0).sum())
    mon.check(not ct[~elig].any(), "leave_k_out_split: ratings of users without more than K+1 ratings held out", K=K,
              users=np.flatnonzero(~elig & (ct > 0))[:5], counts=cnt[~elig & (ct > 0)][:5])
    mon.check(np.isin(ct, (0, K)).all(), "leave_k_out_split: not exactly K ratings held out", K=K, held=ct)
    res = int((elig & (ct == 0)).sum())
    if frac == 0:
        mon.check(res == 0, "leave_k_out_split: eligible users without held out ratings", users=np.flatnonzero(elig & (ct == 0))[:5], K=K)
    else:
        mon.event("lko.train_only")
        want = max(1, have * frac)
        mon.check(res <= want + 1e-3, "leave_k_out_split: more users reserved than requested", reserved=res, users=have, frac=frac)
        # reserved users are drawn among all users with ratings; at most `have - elig` of them are not eligible
        mon.check(res >= max(1, have * frac) - 1 - 1e-3 - (have - int(elig.sum())), "leave_k_out_split: fewer users reserved than requested",
                  reserved=res, users=have, eligible=int(elig.sum()), frac=frac)
    mon.check(entries(tr2) == A and entries(te2) == B, "leave_k_out_split: the same random_state gives another split")
    if K > 1:
        mon.event("lko.K>1")
    if (~elig & (cnt > 0)).any():
        mon.event("lko.ineligible")
    if (cnt == K + 1).any() and (cnt == K + 2).any():
        mon.event("lko.borderline")
    if not elig.any():
        mon.event("no_eligible")
    mon.nontrivial("lko", m.shape, K, frac, hash(tuple(B)))
    mon.sample(case="lko", shape=m.shape, K=K, frac=frac, test=te.nnz)


def reach(spec, mon):
    """over many seeds every rating is selected by some split and not by another"""
    from implicit.evaluation import leave_k_out_split, train_test_split

    rng = rng_of(spec)
    what = ["tts", "lko", "train_only"][spec["i"] % 3]
    users, items = int(rng.integers(2, 8)), int(rng.integers(4, 8))
    m = gen.matrix(rng, users, items, density=1.0 if what == "train_only" else 0.7, empty=0, values="ints")
    x = form(rng, mon, m)
    K = 1 if what != "lko" else int(gen.pick(rng, [1, 2]))
    hits = {(u, i): 0 for u, i, _ in entries(m)}
    per = np.zeros(users)
    n = 500 if what == "train_only" else 160
    base = int(rng.integers(1 << 30))
    for s in range(n):
        if what == "tts":
            _, te = train_test_split(x, train_percentage=0.7, random_state=base + s)
        else:
            _, te = leave_k_out_split(x, K=K, train_only_size=0.4 if what == "train_only" else 0.0, random_state=base + s)
        for u, i, _ in entries(te):
            hits[u, i] += 1
        per += np.diff(te.indptr) > 0
        mon.ev()
    cnt = np.diff(m.indptr)
    for (u, i), h in hits.items():
        if what != "tts" and cnt[u] <= K + 1:
            continue
        mon.check(h > 0, "%s: rating (%d, %d) is never held out in %d splits" % (what, u, i, n), hits=hits)
        mon.check(h < n, "%s: rating (%d, %d) is held out in all of %d splits" % (what, u, i, n), hits=hits)
    if what == "train_only" and users > 2:
        mon.check((per > 0).all() and (per < n).all(), "train_only_size always or never reserves some user", in_test=per, splits=n)
    mon.event("reach." + what)
    mon.nontrivial("reach", what, users, items, K)


def big(spec, mon):
    from implicit.evaluation import leave_k_out_split, train_test_split

    rng = rng_of(spec)
    m = gen.matrix(rng, gen.size(rng, 3000, 3001, 30000, 0.3), gen.size(rng, 40, 41, 120, 0.3), density=0.2, empty=0.1, values="ints")
    for p in (0.1, 0.5, 0.8):
        tr, te = train_test_split(m, train_percentage=p, random_state=int(rng.integers(1 << 30)))
        mon.ev()
        mon.event("train_test.fraction")
        sd = (m.nnz * p * (1 - p)) ** 0.5
        mon.check(abs(tr.nnz - p * m.nnz) <= 8 * sd, "train_percentage=%g gives %d of %d ratings" % (p, tr.nnz, m.nnz))
        mon.check(tr.nnz + te.nnz == m.nnz and abs(tr + te - m).nnz == 0, "train and test do not sum to the ratings")
    for K, frac in ((1, 0.0), (2, 0.3), (1, 0.75)):
        tr, te = leave_k_out_split(form(rng, mon, m), K=K, train_only_size=frac, random_state=int(rng.integers(1 << 30)))
        cnt, ct = np.diff(m.indptr), np.diff(te.indptr)
        el, have = cnt > K + 1, int((cnt > 0).sum())
        mon.ev()
        mon.check(abs(tr + te - m).nnz == 0 and tr.nnz + te.nnz == m.nnz, "train and test do not sum to the ratings", K=K)
        mon.check(np.isin(ct, (0, K)).all() and not ct[~el].any(), "held out ratings per user", K=K)
        res = int((el & (ct == 0)).sum())
        mon.check(have * frac - 1 - (have - el.sum()) <= res <= have * frac + 1e-3, "reserved users", reserved=res, users=have, frac=frac)
    mon.nontrivial("big", spec["i"])


def run_case(spec, mon):
    {"tts": tts, "lko": lko, "reach": reach, "big": big}[spec["kind"]](spec, mon)
