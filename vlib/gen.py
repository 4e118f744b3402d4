"""Workload generators shared by the monitors (all randomness from the rng passed in)."""
import inspect

import numpy as np
import scipy.sparse as sp

SENT = -1e30  # scores at or below are the "lowest possible score" marking an unfillable slot


def pick(rng, seq):
    return seq[int(rng.integers(len(seq)))]


def size(rng, lo, hi, cap, p=0.08):
    """mostly within [lo, hi), now and then (p) log-uniform up to cap"""
    if rng.random() < p:
        return int(max(lo, 1) * (cap / max(lo, 1)) ** rng.random())
    return int(rng.integers(lo, hi))


def matrix(rng, users, items, density=None, values="mixed", dtype=np.float32, empty=0.15, full_row=False):
    """a CSR matrix without explicit zeros or duplicates; some rows/columns are left empty"""
    if density is None:
        density = pick(rng, [0.02, 0.1, 0.3, 0.6])
    mask = rng.random((users, items)) < density
    if empty:
        mask[rng.random(users) < empty] = False
        mask[:, rng.random(items) < empty] = False
    if full_row and users:
        mask[int(rng.integers(users))] = True
    r, c = np.nonzero(mask)
    n = len(r)
    if values == "mixed":
        values = pick(rng, ["ones", "ints", "floats"])
    if values == "ones":
        v = np.ones(n)
    elif values == "ints":
        v = rng.integers(1, 8, n).astype(float)
    elif values == "floats":
        v = np.round(rng.random(n) * 4 + 0.125, 3)
    elif values == "signed":
        v = (rng.integers(1, 12, n) / 2.0) * np.where(rng.random(n) < 0.3, -1, 1)
    elif values == "conf":  # confidences >= 1
        v = 1.0 + rng.integers(0, 20, n) / 4.0
    else:
        raise ValueError(values)
    if np.issubdtype(np.dtype(dtype), np.integer):
        v = np.sign(v) * np.ceil(np.abs(v))
    m = sp.csr_matrix((v.astype(dtype), (r, c)), shape=(users, items))
    m.sort_indices()
    return m


def reflag(rng, m):
    """the matrix, whose storage was changed, without scipy's cached flags (or with them computed)"""
    m = sp.csr_matrix((m.data, m.indices, m.indptr), shape=m.shape)
    if rng.random() < 0.5:
        m.has_sorted_indices  # pylint: disable=pointless-statement
    return m


def nonempty_matrix(rng, users, items, **kw):
    for _ in range(50):
        m = matrix(rng, users, items, **kw)
        if m.nnz:
            return m
        kw["density"] = 0.7
        kw["empty"] = 0
    raise AssertionError


def factors(rng, n, f, dtype=np.float32, style=None):
    style = style or pick(rng, ["normal", "ints", "scaled", "dups", "neg", "sparse"])
    if style == "normal":
        a = rng.standard_normal((n, f))
    elif style == "ints":
        a = rng.integers(-3, 4, (n, f)).astype(float)
    elif style == "scaled":
        a = rng.standard_normal((n, f)) * 10.0 ** rng.integers(-3, 4, (n, 1))
    elif style == "dups":
        base = rng.standard_normal((max(1, n // 3), f))
        a = base[rng.integers(0, len(base), n)]
    elif style == "neg":
        a = -np.abs(rng.standard_normal((n, f)))
    elif style == "sparse":
        a = rng.standard_normal((n, f)) * (rng.random((n, f)) < 0.3)
    else:
        raise ValueError(style)
    if n and rng.random() < 0.4:
        a[rng.random(n) < 0.2] = 0
    return np.ascontiguousarray(a.astype(dtype)), style


def mf_classes():
    from implicit.cpu.als import AlternatingLeastSquares
    from implicit.cpu.bpr import BayesianPersonalizedRanking
    from implicit.cpu.lmf import LogisticMatrixFactorization

    return {
        "als": AlternatingLeastSquares, "bpr": BayesianPersonalizedRanking, "lmf": LogisticMatrixFactorization,
    }


def knn_classes():
    from implicit import nearest_neighbours as nn

    return {
        "item": nn.ItemItemRecommender, "cosine": nn.CosineRecommender, "tfidf": nn.TFIDFRecommender,
        "bm25": nn.BM25Recommender,
    }


EXTRA = {"als": 0, "bpr": 1, "lmf": 2}


def set_model(rng, kind, users, items, f, dtype=np.float32, num_threads=None, style=None, **kw):
    """an MF model holding generated factors"""
    cls = mf_classes()[kind]
    if kind == "lmf":
        dtype = np.float32
    if num_threads is None:
        num_threads = pick(rng, [0, 1, 2, 3])
    m = cls(factors=f, dtype=dtype, num_threads=num_threads, random_state=int(rng.integers(1000)), **kw)
    w = f + EXTRA[kind]
    m.user_factors, us = factors(rng, users, w, dtype, style)
    m.item_factors, its = factors(rng, items, w, dtype, style)
    if kind == "bpr":
        m.user_factors[:, -1] = 1
    if kind == "lmf":
        m.user_factors[:, -2] = 1
        m.item_factors[:, -1] = 1
    return m


def trained_model(rng, kind, ui, f=None, dtype=None, num_threads=None, iterations=None, **kw):
    cls = mf_classes()[kind]
    f = f or int(rng.integers(1, 9))
    dtype = dtype or pick(rng, [np.float32, np.float64])
    if kind == "lmf":
        dtype = np.float32
    if num_threads is None:
        num_threads = pick(rng, [0, 1, 2])
    if iterations is None:
        iterations = int(rng.integers(1, 4))
    if kind == "als":
        kw.setdefault("regularization", pick(rng, [0.01, 0.5, 3.0]))
        kw.setdefault("alpha", pick(rng, [1.0, 2.5]))
        kw.setdefault("use_cg", bool(rng.integers(2)))
    m = cls(factors=f, dtype=dtype, num_threads=num_threads, iterations=iterations,
            random_state=int(rng.integers(1 << 30)), **kw)
    m.fit(ui, show_progress=False)
    return m


STATE = {"user_factors", "item_factors", "similarity", "cg_steps"}


def public(m):
    """the parameters of a model's constructor and what it has learnt"""
    names = STATE | set(inspect.signature(type(m).__init__).parameters) - {"self", "args", "kwargs"}
    return {k: getattr(m, k) for k in sorted(names) if hasattr(m, k)}


def idform(rng, ids, allow_empty_tuple=False):
    """the same ids in one of the array_like forms a caller may use"""
    ids = [int(x) for x in ids]
    form = pick(rng, ["list", "i64", "i32", "list"])
    if form == "list":
        return ids
    return np.array(ids, dtype={"i64": np.int64, "i32": np.int32}[form])


def scalar_id(rng, i):
    return pick(rng, [int(i), np.int64(i), np.int32(i)])


def subset(rng, n, kmax=None, repeats=False):
    k = int(rng.integers(1, (kmax or n) + 1))
    if repeats:
        if kmax is None and n < 2000 and rng.random() < 0.3:
            k = int(rng.integers(n + 1, 3 * n + 2))  # more entries than there are ids
        return rng.integers(0, n, k)
    return rng.permutation(n)[: min(k, n)]


def rewidth(rng, rows, mon=None):
    """sometimes the same rows in a matrix with more columns than the model has items, or with only the columns in use"""
    r = rng.random()
    if r < 0.75:
        return rows
    used = int(rows.indices.max()) + 1 if rows.nnz else 1
    width = rows.shape[1] + int(pick(rng, [1, 2, 7, 100])) if r < 0.88 else used
    if mon is not None:
        mon.event("wider_rows" if r < 0.88 else "narrower_rows")
    return sp.csr_matrix((rows.data, rows.indices, rows.indptr), shape=(rows.shape[0], width))
