"""C10: item-item training keeps the exact K nearest neighbours."""
import numpy as np
import scipy.sparse as sp

from vlib import gen, knn_ref
from vlib.core import case_list, rng_of

PROP = "C10"
RULE = ("one case = one fit of an item-item recommender; every row of the similarity matrix is compared with the dense "
        "item-item product of the independently weighted matrix (values, and that nothing larger was left out); "
        "non-trivial when a row has more than K candidates; distinct by (model, shape, K, dtype, format, threads)")
NEED = ["item", "cosine", "tfidf", "bm25", "truncated_row", "short_row", "K>items", "empty_column", "int_values", "ties",
        "signed", "duplicates", "explicit_zero", "format.csc", "format.coo", "unsorted", "threads>1", "K1B", "int64_index",
        "standalone_weighting", "values.tiny", "values.huge", "values.close", "values.spread", "tower", "tall", "wide", "grand"]
ASSUMPTIONS = ["TF-IDF and BM25 input is non-negative with at least one entry; entries stored twice are used with the raw "
               "weighting only, where they add up"]


def cases(tier, seed):
    q = tier == "quick"
    return case_list(seed, fit=6000 if q else 40000, big=200 if q else 1500, tall=400 if q else 3000, wide=120 if q else 900, tower=32 if q else 240,
                     grand=64 if q else 480)


def grand(spec, mon):
    """thousands of items and of users; rows of all lengths are judged, not every one"""
    rng = rng_of(spec)
    kind = gen.pick(rng, ["item", "cosine", "tfidf", "bm25"])
    n, k = gen.size(rng, 4200, 12000, 70000, 0.25), gen.size(rng, 2, 60, 9000, 0.2)
    users, items = (n, k) if rng.random() < 0.4 else (k, n)
    per = rng.choice([0, 1, 1, 2, 5, 30], users)
    if rng.random() < 0.6:
        per[int(rng.integers(users))] = gen.size(rng, 4200, 6000, 60000)
    if users < 500:
        per = np.maximum(per, rng.choice([1, 100, 1000], users))
    per = np.minimum(per, items)
    c = np.concatenate([rng.choice(items, x, replace=False) for x in per])
    r = np.repeat(np.arange(users), per)
    pop = rng.permutation(items)[:3]  # some items nearly everybody likes
    extra = np.flatnonzero(rng.random(users) < 0.7)
    r, c = np.append(r, np.repeat(extra, len(pop))), np.append(c, np.tile(pop, len(extra)))
    v = rng.integers(1, 9, len(r)).astype(float) if rng.random() < 0.5 else np.ones(len(r))
    ui = sp.csr_matrix((v, (r, c)), shape=(users, items))  # entries given twice add up
    K = int(gen.pick(rng, [1, 3, 20, 100, 5000]))
    model = gen.knn_classes()[kind](K=K, num_threads=int(gen.pick(rng, [0, 1, 3])))
    model.fit(ui, show_progress=False)
    S = model.similarity.tocsr()
    what = "%s(K=%d).fit(%dx%d)" % (kind, K, users, items)
    mon.check(S.shape == (items, items), what + ": similarity has the wrong shape", shape=S.shape)
    mon.event("grand")
    # the weights, from the definitions
    W = ui.copy()
    row = np.repeat(np.arange(users), np.diff(ui.indptr))
    idf = (np.log(items) - np.log(1 + np.diff(ui.indptr)))[row]
    if kind == "tfidf":
        W.data = np.sqrt(W.data) * idf
    if kind == "bm25":
        length = np.bincount(ui.indices, weights=ui.data, minlength=items)
        nrm = 0.25 + 0.75 * length / length.mean()
        W.data = W.data * 2.2 / (1.2 * nrm[W.indices] + W.data) * idf
    if kind in ("cosine", "tfidf"):
        sq = np.sqrt(np.bincount(W.indices, weights=W.data ** 2, minlength=items))
        W.data = W.data / np.where(sq == 0, 1, sq)[W.indices]
    T = W.T.tocsr()
    cnt = np.diff(T.indptr)
    rows = set(rng.integers(0, items, 40).tolist()) | {0, items - 1} | set(np.argsort(-cnt, kind="stable")[:5].tolist())
    rows |= {i for b in (1023, 4095, 8191, 16383, 32767, 65535) for i in (b, b + 1) if i < items}
    dup = np.diff(S.indptr)
    mon.check((dup <= K).all(), what + ": more than K neighbours stored", most=dup.max())
    for i in sorted(rows):
        P = (T[i] @ W).toarray().ravel()
        Pa = (abs(T[i]) @ abs(W)).toarray().ravel()
        tol = 1e-9 * Pa + 1e-280
        j, v = S.indices[S.indptr[i]: S.indptr[i + 1]], S.data[S.indptr[i]: S.indptr[i + 1]]
        mon.ev()
        mon.check(len(set(j.tolist())) == len(j), what + ": neighbour stored twice", row=i)
        mon.check((np.abs(v - P[j]) <= tol[j]).all(), what + ": stored similarity is not the item-item product", row=i,
                  stored=(j[:9], v[:9]), want=P[j][:9])
        nz = np.abs(P) > tol
        want = min(K, int(nz.sum()))
        got = np.sort(v)[::-1][:want]
        mon.check(len(got) == want and (got >= np.sort(P[nz])[::-1][:want] - tol.max()).all(),
                  what + ": not the %d largest similarities are kept" % want, row=i, stored=got[:9], want=np.sort(P[nz])[::-1][:9])
        mon.nontrivial(kind, users, items, K, i)
    mon.sample(case=what, nnz=S.nnz, rows=len(rows))


def run_case(spec, mon):
    if spec["kind"] == "grand":
        return grand(spec, mon)
    from implicit import nearest_neighbours as nn

    rng = rng_of(spec)
    kind = gen.pick(rng, ["item", "cosine", "tfidf", "bm25"])
    mon.event(kind)
    users, items = gen.size(rng, 1, 20, 200), gen.size(rng, 1, 24, 200)
    if spec["kind"] == "big":
        users, items = gen.size(rng, 30, 150, 900, 0.2), gen.size(rng, 60, 300, 900, 0.15)
    dens = None
    if spec["kind"] in ("tall", "wide"):  # items with hundreds of users, users with hundreds of items
        users, items = (gen.size(rng, 200, 900, 4000), int(rng.integers(2, 30))) if spec["kind"] == "tall" else (int(rng.integers(1, 15)), gen.size(rng, 260, 700, 2500, 0.1))
        dens = gen.pick(rng, [0.3, 0.6, 0.9])
        mon.event(spec["kind"])
    if spec["kind"] == "tower":  # items with thousands of users
        users, items = gen.size(rng, 8200, 20000, 140000, 0.3), int(rng.integers(2, 7))
        dens = gen.pick(rng, [0.6, 0.9])
        mon.event("tower")
    values = gen.pick(rng, ["ones", "ints", "floats"] + (["signed"] if kind in ("item", "cosine") else []))
    dtype = gen.pick(rng, [np.float64, np.float64, np.float32, np.int32, np.int64, np.int8, np.uint8])
    if values == "signed":
        mon.event("signed")
        if dtype is np.uint8:
            dtype = np.float64
    ui = gen.nonempty_matrix(rng, users, items, values=values, dtype=dtype, density=dens)
    if np.issubdtype(dtype, np.integer):
        mon.event("int_values")
        if rng.random() < 0.4:
            ui.data[:] = np.sign(ui.data) * rng.integers(1, 100, ui.nnz).astype(dtype)
    if dtype is np.float64 and rng.random() < 0.3:
        # tiny, huge, or barely distinguishable values
        how = gen.pick(rng, ["tiny", "huge", "close", "spread"])
        if how == "close":
            ui.data[:] = np.sign(ui.data) * (1 + 1e-8 * rng.integers(0, 50, ui.nnz))
        elif how == "spread":
            ui.data[:] = ui.data * 10.0 ** rng.integers(-6, 5, ui.nnz)
        else:
            ui.data[:] = ui.data * (10.0 ** (-int(rng.integers(2, 12)) if how == "tiny" else int(rng.integers(2, 9))))
        mon.event("values." + how)
    if rng.random() < 0.1 and ui.nnz > 1 and kind != "bm25":
        ui.data[: 1 + ui.nnz // 6] = 0
        mon.event("explicit_zero")
    if kind == "bm25" and not ui.data.any():
        return
    if (ui.getnnz(axis=0) == 0).any():
        mon.event("empty_column")
    K = int(gen.pick(rng, [1, 2, 3, 5, 8, items // 2 + 1, items, items + 4, 20, 130]))
    if K > items:
        mon.event("K>items")
    threads = int(gen.pick(rng, [0, 1, 2, 3, 8]))
    if threads > 1:
        mon.event("threads>1")
    kw = {}
    K1, B = 1.2, 0.75
    if kind == "bm25" and rng.random() < 0.6:
        K1, B = float(gen.pick(rng, [0.5, 1.2, 100.0])), float(gen.pick(rng, [0.0, 0.3, 0.75, 1.0]))
        kw = {"K1": K1, "B": B}
        mon.event("K1B")
    W = knn_ref.weighted(kind, ui, K1, B)
    fmt = gen.pick(rng, ["csr", "csr", "csr", "csc", "coo", "unsorted", "dup", "idx64"])
    arg = ui
    if fmt in ("csc", "coo"):
        arg = ui.asformat(fmt)
        mon.event("format." + fmt)
    elif fmt == "unsorted":
        ind, dat = ui.indices.copy(), ui.data.copy()
        for r in range(users):
            s = slice(ui.indptr[r], ui.indptr[r + 1])
            p = rng.permutation(s.stop - s.start)
            ind[s], dat[s] = ind[s][p], dat[s][p]
        arg = sp.csr_matrix((dat, ind, ui.indptr.copy()), shape=ui.shape)
        mon.event("unsorted")
    elif fmt == "idx64":
        arg = ui.copy()
        arg.indices, arg.indptr = arg.indices.astype(np.int64), arg.indptr.astype(np.int64)
        mon.event("int64_index")
    elif fmt == "dup" and kind == "item" and dtype in (np.float64, np.float32):
        coo = ui.tocoo()
        r = np.append(coo.row, coo.row[: ui.nnz // 2])
        c = np.append(coo.col, coo.col[: ui.nnz // 2])
        d = np.append(coo.data.astype(float), coo.data[: ui.nnz // 2].astype(float))
        d[: ui.nnz // 2] *= 0.5
        d[ui.nnz:] *= 0.5
        o = np.argsort(r, kind="stable")
        indptr = np.append(0, np.cumsum(np.bincount(r, minlength=users)))
        arg = sp.csr_matrix((d[o].astype(dtype), c[o], indptr), shape=ui.shape)
        mon.event("duplicates")
    model = gen.knn_classes()[kind](K=K, num_threads=threads, **kw)
    model.fit(arg, show_progress=False)
    S = model.similarity
    what = "%s(K=%d%s).fit(%s %s %dx%d)" % (kind, K, ", %s" % kw if kw else "", fmt, np.dtype(dtype).name, users, items)
    mon.check(S.shape == (items, items), what + ": similarity has the wrong shape", shape=S.shape)
    P = W.T @ W
    Pa = np.abs(W).T @ np.abs(W)
    present = np.zeros((users, items))
    coo = ui.tocoo()
    present[coo.row, coo.col] = 1
    touched = (present.T @ present) > 0
    rel = 1e-6 if dtype is np.float32 and kind != "item" else 1e-11
    if spec["kind"] == "tower":
        rel *= 100
    tol = rel * Pa + 1e-280
    S = S.tocsr()
    for i in range(items):
        s = slice(S.indptr[i], S.indptr[i + 1])
        j, v = S.indices[s], S.data[s]
        mon.ev()
        d = dict(row=i, stored=(j, v), true=P[i][touched[i]], candidates=np.nonzero(touched[i])[0], K=K)
        mon.check(len(j) <= K, what + ": more than K neighbours stored", **d)
        mon.check(len(set(j.tolist())) == len(j), what + ": neighbour stored twice", **d)
        mon.check(np.isfinite(v).all() and (np.abs(v - P[i, j]) <= tol[i, j]).all(),
                  what + ": stored similarity is not the item-item product", want=P[i, j], **d)
        nz = np.abs(P[i]) > tol[i]
        stored = np.zeros(items, bool)
        stored[j] = True
        # an item left out needs K others at least as large
        out = np.nonzero(touched[i] & nz & ~stored)[0]
        if len(out):
            top = np.sort((P[i] + tol[i])[touched[i]])
            better = len(top) - np.searchsorted(top, P[i, out] - tol[i, out], "left") - 1
            x = int(np.argmin(better))
            mon.check(better[x] >= K, what + ": neighbour %d was left out with %d better ones" % (out[x], better[x]), **d)
        # a stored item may not have K larger ones
        if len(j):
            top = np.sort((P[i] - tol[i])[nz])
            better = len(top) - np.searchsorted(top, P[i, j] + tol[i, j], "right")
            x = int(np.argmax(better))
            mon.check(better[x] < K, what + ": neighbour %d stored although %d are larger" % (j[x], better[x]), **d)
        if nz.sum() > K:
            mon.event("truncated_row")
            mon.nontrivial(kind, users, items, K, np.dtype(dtype).name, fmt, threads, spec["i"] % 31)
            if len(np.unique(P[i][nz])) < nz.sum():
                mon.event("ties")
        elif nz.any():
            mon.event("short_row")
    # the public weighting functions
    if rng.random() < 0.3 and kind in ("tfidf", "bm25", "cosine"):
        T = ui.T.tocsr() if rng.random() < 0.5 else ui.T.tocoo()
        if kind == "bm25":
            got, want = nn.bm25_weight(T, K1, B), W
        elif kind == "cosine":
            got, want = nn.normalize(T), W
        else:
            got, want = nn.normalize(nn.tfidf_weight(T)), W
        mon.check(np.allclose(got.toarray().T, want, rtol=1e-5 if rel > 1e-10 else 1e-9, atol=1e-12),
                  "weighting function %s" % kind, got=got.toarray().T, want=want)
        mon.event("standalone_weighting")
    mon.sample(case=what, nnz=S.nnz, row0=(S.indices[: S.indptr[1]][:4].tolist(), S.data[: S.indptr[1]][:4].tolist()))
