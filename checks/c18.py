"""C18: ranking metrics equal their definitions."""
import numpy as np
import scipy.sparse as sp

from vlib import gen
from vlib.core import case_list, rng_of

PROP = "C18"
RULE = ("one case = one model (a stub ranking items by a table, answering in full, padded with -1 or with fewer columns; or a "
        "real model with exact arithmetic), train and test matrices and a K; the four metrics are recomputed by brute force "
        "from the model's own top K of every user with test items.  distinct by (model kind, shape, K class, value of the metrics)")
NEED = ["stub.full", "stub.pad", "stub.narrow", "als", "bpr", "lmf", "knn", "users>1000", "users=1000", "users=1001", "K>items", "K=1",
        "no_test_items", "no_train_items", "overlap", "hits", "perfect", "single_metric", "coo", "csc", "int64_index", "empty_slots", "likes>K",
        "duplicates", "wide", "crowd"]
ASSUMPTIONS = ["at least one user has test items and no user has every item in the test set (AUC is undefined there)",
               "AUC@K: a pair (test item, other item) counts by the order in which they are recommended, test items that were "
               "not recommended share the remaining pairs evenly"]


def cases(tier, seed):
    q = tier == "quick"
    return case_list(seed, stub=9000 if q else 96000, model=3000 if q else 36000, large=108 if q else 1800, wide=160 if q else 2000, crowd=8 if q else 48)


# ------------------------------------------------------------------ definitions
def definitions(recs, likes, items, K):
    """recs: user -> list of recommended ids (invalid ids are empty slots); likes: user -> set of test items"""
    P = D = 0.0
    ap, nd, au = [], [], []
    for u, L in likes.items():
        if not L:
            continue
        hit = [int(r) in L for r in recs[u][:K]]
        P += sum(hit)
        m = min(K, len(L))
        D += m
        ap.append(sum(sum(hit[: i + 1]) / (i + 1) for i in range(len(hit)) if hit[i]) / m)
        nd.append(sum(1 / np.log2(i + 2) for i in range(len(hit)) if hit[i]) / sum(1 / np.log2(i + 2) for i in range(m)))
        # pairs (test item, other item): recommended others follow the hits before them; what is left is split evenly
        neg = items - len(L)
        before, seen, pairs = 0, 0, 0.0
        for h in hit:
            if h:
                before += 1
            elif seen < neg:
                seen += 1
                pairs += before
        pairs += (before + len(L)) / 2.0 * (neg - seen)
        au.append(pairs / (len(L) * neg))
    return {"precision": P / D, "map": float(np.mean(ap)), "ndcg": float(np.mean(nd)), "auc": float(np.mean(au))}, ap


class Recorder:
    """the model as the metrics see it; keeps the list each user was given, unfilled slots included"""

    def __init__(self, model):
        self._model, self.given = model, {}

    def __getattr__(self, name):
        return getattr(self._model, name)

    def recommend(self, userid, user_items, *a, **kw):
        out = self._model.recommend(userid, user_items, *a, **kw)
        ids = [out[0]] if np.isscalar(userid) else out[0]
        for u, row in zip([userid] if np.isscalar(userid) else userid, ids):
            self.given.setdefault(int(u), [int(i) for i in row])
        return out


class Stub:
    """ranks the items of each user by a fixed table"""

    def __init__(self, table, style):
        self.table, self.style = table, style

    def one(self, u, row, N, filt):
        own = set(int(i) for i in row.indices) if filt else ()
        r = [int(i) for i in self.table[u] if int(i) not in own]
        return r[:N]

    def recommend(self, userid, user_items, N=10, filter_already_liked_items=True, filter_items=None, recalculate_user=False, items=None):
        scalar = np.isscalar(userid)
        ids = [userid] if scalar else list(userid)
        assert user_items.shape[0] == len(ids) and isinstance(user_items, sp.csr_matrix)
        rows = [self.one(int(u), user_items[i], N, filter_already_liked_items) for i, u in enumerate(ids)]
        w = N if self.style == "pad" else max([len(r) for r in rows] + [0])
        out = np.full((len(ids), w), -1, dtype=np.int32)
        sc = np.full((len(ids), w), -np.finfo(np.float32).max, dtype=np.float32)
        for i, r in enumerate(rows):
            out[i, : len(r)] = r
            sc[i, : len(r)] = np.arange(len(r), 0, -1)
        return (out[0], sc[0]) if scalar else (out, sc)


def testset(rng, mon, users, items, train, density, overlap):
    te = gen.matrix(rng, users, items, density=density, values="ints", empty=float(gen.pick(rng, [0, 0.3]))).tolil()
    if not overlap:
        r, c = train.nonzero()
        te[r, c] = 0
    for u in range(users):  # not everything
        if len(te.rows[u]) == items:
            te[u, int(rng.integers(items))] = 0
    te = te.tocsr()
    te.eliminate_zeros()
    if not te.nnz:
        te[int(rng.integers(users)), int(rng.integers(items))] = 1
        te = te.tocsr()
    te.sort_indices()
    return te


def form(rng, mon, m, dup=False):
    r = rng.random()
    if r < 0.1:
        mon.event("coo")
        return m.tocoo()
    if r < 0.2:
        mon.event("csc")
        return m.tocsc()
    if r < 0.3:
        m = m.copy()
        m.indices, m.indptr = m.indices.astype(np.int64), m.indptr.astype(np.int64)
        mon.event("int64_index")
    elif r < 0.4 and dup and m.nnz:
        # entries stored twice, in any order
        n = int(rng.integers(1, m.nnz + 1))
        coo = m.tocoo()
        row, col = np.append(coo.row, coo.row[:n]), np.append(coo.col, coo.col[:n])
        o = np.lexsort((rng.random(len(row)), row))
        m = sp.csr_matrix((np.ones(len(row), m.dtype), col[o], np.append(0, np.cumsum(np.bincount(row, minlength=m.shape[0])))),
                          shape=m.shape)
        mon.event("duplicates")
    elif r < 0.5:
        m = m.astype(gen.pick(rng, [np.float64, np.int32]))
    return m


def judge(mon, rng, model, recs, train, test, K, key):
    from implicit import evaluation as ev

    users, items = test.shape
    likes = {u: set(int(i) for i in test.indices[test.indptr[u]: test.indptr[u + 1]]) for u in range(users)}
    a, b = form(rng, mon, train), form(rng, mon, test, dup=True)
    thr = int(gen.pick(rng, [0, 1, 4]))
    model = Recorder(model)
    got = ev.ranking_metrics_at_k(model, a, b, K=K, show_progress=False, num_threads=thr)
    want, ap = definitions(recs, likes, items, K)
    # a slot reported as unfilled is a miss among the pairs as well: how many there are is up to the width of the answer
    given = {}
    for u, L in likes.items():
        if L:
            g = model.given.get(u)
            mon.check(g is not None, "user %d has test items and was not asked for" % u)
            mon.check([i for i in g[:K] if i >= 0] == [i for i in recs[u] if i >= 0],
                      "user %d is judged by another list than the model's top %d" % (u, K), judged=g, top=recs[u])
            given[u] = g
    want["auc"] = definitions(given, likes, items, K)[0]["auc"]
    mon.ev(4)
    mon.check(set(got) == set(want), "metrics reported: %s" % sorted(got))
    for k, w in want.items():
        mon.check(abs(got[k] - w) <= 1e-9 * max(1, abs(w)), "%s@%d is %.12g, by definition it is %.12g" % (k, K, got[k], w),
                  users=users, items=items, key=key)
        mon.check(-1e-12 <= got[k] <= 1 + 1e-9, "%s@%d = %g is outside [0, 1]" % (k, K, got[k]))
    if rng.random() < 0.5:
        mon.event("single_metric")
        f = {"precision": ev.precision_at_k, "map": ev.mean_average_precision_at_k, "ndcg": ev.ndcg_at_k, "auc": ev.AUC_at_k}
        for k, fn in f.items():
            mon.ev()
            v = fn(model, a, b, K=K, show_progress=False, num_threads=thr)
            mon.check(v == got[k], "the %s function returns %r, the combined one %r" % (k, v, got[k]))
    nl = np.diff(test.indptr)
    if want["precision"] > 0:
        mon.event("hits")
    if max(ap) >= 1 - 1e-12:
        mon.event("perfect")
    if K > items:
        mon.event("K>items")
    if K == 1:
        mon.event("K=1")
    if (nl == 0).any():
        mon.event("no_test_items")
    if (np.diff(train.indptr)[nl > 0] == 0).any():
        mon.event("no_train_items")
    if (nl > K).any():
        mon.event("likes>K")
    if any(len(recs[u]) < K or min(recs[u], default=0) < 0 for u in likes if likes[u]):
        mon.event("empty_slots")
    mon.nontrivial(key, K, round(want["map"], 9), round(want["auc"], 9))
    mon.sample(key=key, users=users, items=items, K=K, metrics=got)


def stub(spec, mon, users=None, items=None):
    rng = rng_of(spec)
    large = users is not None
    K = None
    if items:
        K = int(gen.pick(rng, [257, 500, 1000, 1001, 2000, items - 1, items, items + 1, 5000]))
        mon.event("wide")
    users, items = users or gen.size(rng, 1, 25, 200), items or gen.size(rng, 2, 14, 60 if large else 350, 0.12)
    K = K or int(gen.pick(rng, [1, 2, 3, 5, 10, max(1, items // 3), items, items + 5, 100]))
    train = gen.matrix(rng, users, items, density=gen.pick(rng, [0.1, 0.4]), values="ints")
    ov = rng.random() < 0.2
    if ov:
        mon.event("overlap")
    test = testset(rng, mon, users, items, train, 0.9 if large else gen.pick(rng, [0.05, 0.2, 0.6, 0.95]), ov)
    style = gen.pick(rng, ["full", "pad", "narrow"])
    # narrow: the table lists only some of the items, so that lists are short
    table = [rng.permutation(items)[: items if style == "full" else int(rng.integers(0, items + 1))] for _ in range(users)]
    if rng.random() < 0.3:  # a good model: test items first
        for u in range(users):
            L = set(test.indices[test.indptr[u]: test.indptr[u + 1]])
            table[u] = np.array(sorted(table[u], key=lambda i: (i not in L, i)), dtype=int)
    mon.event("stub." + style)
    m = Stub(table, style)
    recs = {u: m.one(u, train[u], K, True) for u in range(users)}
    judge(mon, rng, m, recs, train, test, K, "stub." + style)
    return test


def large(spec, mon):
    n = [1000, 1001, 1999, 2000, 2500, 1100][spec["i"] % 6]
    t = stub(spec, mon, users=n)
    have = int((np.diff(t.indptr) > 0).sum())
    if have > 1000:
        mon.event("users>1000")
    if n in (1000, 1001):
        mon.event("users=%d" % n)


def crowd(spec, mon):
    """many thousands of users"""
    mon.event("crowd")
    users = int(rng_of(dict(spec, seed=spec["seed"] + [7])).integers(10000, 36000))
    stub(spec, mon, users=users + 40000 if spec["i"] % 4 == 1 else users, items=None)


def wide(spec, mon):
    """long lists"""
    stub(spec, mon, users=[1, 2, 5][spec["i"] % 3], items=[600, 1100, 1500, 2600, 4200][spec["i"] % 5])


def model(spec, mon):
    rng = rng_of(spec)
    kind = gen.pick(rng, ["als", "bpr", "lmf", "knn"])
    mon.event(kind)
    users, items = gen.size(rng, 1, 20, 700), gen.size(rng, 2, 14, 500, 0.12)
    if rng.random() < 0.1:
        users = 130
    K = int(gen.pick(rng, [1, 2, 3, 5, 10, max(1, items // 3), items, items + 5]))
    train = gen.matrix(rng, users, items, density=0.3, values="ints")
    if kind == "knn":
        m = gen.knn_classes()["item"](K=int(rng.integers(1, 6)), num_threads=1)
        train = gen.nonempty_matrix(rng, users, items, density=0.3, values="ints", dtype=np.float64)
        m.fit(train, show_progress=False)
    else:
        # integer factors: scores are exact in any order of summation
        m = gen.set_model(rng, kind, users, items, int(rng.integers(1, 6)), np.float32, style="ints")
    test = testset(rng, mon, users, items, train, gen.pick(rng, [0.1, 0.3, 0.8]), rng.random() < 0.2)
    recs = {}
    for u in range(users):
        ids, sc = m.recommend(u, train[u], N=K)
        recs[u] = [int(i) for i in ids]
    judge(mon, rng, m, recs, train, test, K, kind)


def run_case(spec, mon):
    {"stub": stub, "large": large, "wide": wide, "crowd": crowd, "model": model}[spec["kind"]](spec, mon)
