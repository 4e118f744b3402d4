"""C02: liked, filtered and unselected items are never returned; unfillable slots; at most N results."""
import numpy as np

from vlib import annx, gen, judge
from vlib.core import case_list, rng_of

PROP = "C02"
RULE = ("one case = one model (ALS/BPR/LMF with generated factors, item-item of four kinds, Annoy/NMSLIB/Faiss) and "
        "one recommend/similar_items/similar_users call with a random mix of filters (lists, arrays, repeats, empty, "
        "covering everything); non-trivial when something is filtered or selected; distinct by (model, call, options, "
        "sizes, case)")
NEED = ["mf.recommend", "mf.similar_items", "mf.similar_users", "knn.recommend", "knn.similar_items", "annoy.recommend",
        "nmslib.recommend", "faiss.recommend", "annoy.similar_items", "nmslib.similar_items", "faiss.similar_items",
        "liked", "filter", "select", "nothing_eligible", "unfilled_slot", "N>eligible", "huge", "wider_rows", "narrower_rows"]
ASSUMPTIONS = ["a score of -1e30 or below is the lowest possible score of an unfillable slot"]


def cases(tier, seed):
    q = tier == "quick"
    return case_list(seed, mf=20000 if q else 240000, knn=16000 if q else 192000, ann=3200 if q else 48000,
                     big=2000 if q else 24000, huge=24 if q else 240)


def filter_ids(rng, n, seq=None):
    r = rng.random()
    if r < 0.12:
        return []
    if r < 0.24:
        return list(range(n))  # everything
    if r < 0.36:
        return [0]
    if r < 0.45:
        return [n - 1]
    return gen.subset(rng, n, repeats=rng.random() < 0.3)


def judge_rows(mon, what, ids, scores, nrows, scalar, N, allowed, n):
    ids, scores = np.asarray(ids), np.asarray(scores)
    mon.check(ids.shape == scores.shape, what + ": ids and scores differ in shape", ids=ids, scores=scores)
    if scalar:
        mon.check(ids.ndim == 1, what + ": scalar call gives %d-d answer" % ids.ndim)
        ids, scores = ids[None], scores[None]
    else:
        mon.check(ids.ndim == 2 and len(ids) == nrows, what + ": wrong shape", shape=ids.shape, rows=nrows)
    for r in range(nrows):
        mon.ev()
        al = allowed[r]
        mon.check(len(ids[r]) <= N, what + ": more than N results", ids=ids[r], N=N)
        rid, rsc, unfilled = judge.split_slots(mon, ids[r], scores[r], what)
        rid = rid.astype(int)
        bad = [int(x) for x in rid if x >= n or not al[x]]
        mon.check(not bad, what + ": returned filtered, liked or unselected ids %s" % bad[:6], ids=ids[r],
                  scores=scores[r], allowed=np.nonzero(al)[0], N=N)
        if unfilled:
            mon.event("unfilled_slot")
        if not al.any():
            mon.event("nothing_eligible")
        if N > al.sum():
            mon.event("N>eligible")


def options(rng, mon, n, select=True):
    """(kwargs with 'flt'/'sel', allowed mask)"""
    allowed = np.ones(n, bool)
    mode = gen.pick(rng, ["none", "filter", "filter", "select"] if select else ["none", "filter", "filter"])
    if mode == "filter":
        f = filter_ids(rng, n)
        if len(f):
            allowed[np.asarray(f, int)] = False
        mon.event("filter")
        return ("filter", gen.idform(rng, f)), allowed
    if mode == "select":
        s = gen.subset(rng, n, repeats=rng.random() < 0.3)
        allowed[:] = False
        allowed[s] = True
        mon.event("select")
        return ("select", gen.idform(rng, s)), allowed
    return None, allowed


def liked_masks(rows, allowed, liked, k):
    out = []
    for r in range(k):
        a = allowed.copy()
        if liked:
            a[rows.indices[rows.indptr[r]:rows.indptr[r + 1]]] = False
        out.append(a)
    return out


def calm(model):
    """the factors are of a size for which float32 systems are well conditioned"""
    return max(np.abs(model.item_factors).max(), np.abs(model.user_factors).max()) < 50


def explicit_zeros(rng, rows):
    """some entries stay stored but with value zero"""
    if rows.nnz and rng.random() < 0.15:
        rows = rows.copy()
        rows.data[rng.random(rows.nnz) < 0.3] = 0
    return rows


def run_case(spec, mon):
    rng = rng_of(spec)
    k = spec["kind"]
    fam = k if k != "big" else gen.pick(rng, ["mf", "knn"])
    if k == "big":
        users, items = gen.size(rng, 101, 260, 600, 0.1), gen.size(rng, 2, 200, 1500, 0.4)
    else:
        users, items = gen.size(rng, 1, 10, 100), gen.size(rng, 1, 24, 300 if fam != "ann" else 600, 0.08 if fam != "ann" else 0.3)
    if k == "huge":
        fam, users, items = "mf", int(rng.integers(1, 6)), int(rng.integers(33000, 70000))
        mon.event("huge")
    scalar = bool(rng.random() < 0.5)
    N = int(gen.pick(rng, [1, 2, 3, 5, 10, items // 2 + 1, items, items + 4]))
    if fam == "mf":
        kind = gen.pick(rng, ["als", "bpr", "lmf"])
        model = gen.set_model(rng, kind, users, items, gen.size(rng, 1, 7, 130) if k != "huge" else 2,
                              gen.pick(rng, [np.float32, np.float64]))
        if kind == "als":
            model.regularization = 0.5
        calls = ["recommend", "recommend", "similar_items", "similar_users"]
        label = "mf"
    elif fam == "knn":
        kind = gen.pick(rng, ["item", "cosine", "tfidf", "bm25"])
        signed = kind == "item" and rng.random() < 0.4
        ui = gen.matrix(rng, max(2, users), max(2, items), values="signed" if signed else "mixed", dtype=np.float64)
        users, items = ui.shape
        kw = {"K1": float(rng.random() * 3), "B": float(rng.random())} if kind == "bm25" else {}
        model = gen.knn_classes()[kind](K=int(gen.pick(rng, [1, 2, 5, 20, items // 2 + 1, items + 2])), num_threads=1, **kw)
        if ui.nnz == 0 and kind != "item":
            return
        model.fit(ui, show_progress=False)
        calls = ["recommend", "recommend", "similar_items"]
        label = "knn"
    else:
        kind = gen.pick(rng, ["annoy", "nmslib", "faiss"])
        items = max(items, 3)
        base = annx.fixed_als(rng, users, items, int(rng.integers(2, 6)), style=gen.pick(rng, ["normal", "dups"]))
        base.item_factors[(base.item_factors == 0).all(axis=1)] = 0.5
        base.user_factors[(base.user_factors == 0).all(axis=1)] = 0.5
        model = annx.wrap(rng, kind, base, items, exhaustive=rng.random() < 0.7,
                          approximate_recommend=rng.random() < 0.85, approximate_similar_items=rng.random() < 0.85)
        model.fit(gen.matrix(rng, users, items), show_progress=False)
        calls = ["recommend", "similar_items"]
        label = kind
    call = gen.pick(rng, calls)
    what = "%s.%s" % (kind, call)
    n = users if call == "similar_users" else items
    select = not (fam == "ann" and (model.approximate_recommend if call == "recommend"
                                    else model.approximate_similar_items))
    opt, allowed = options(rng, mon, n, select)
    okw = {"N": N}
    qn = users if call in ("recommend", "similar_users") else items
    nq = 1 if scalar else (gen.size(rng, 1, 6, 120) if k != "big" else gen.size(rng, 101, 240, 1300, 0.1))
    ids = rng.integers(0, qn, nq)
    qid = gen.scalar_id(rng, ids[0]) if scalar else gen.idform(rng, ids)
    suffix = "users" if call == "similar_users" else "items"
    if opt:
        okw[("filter_" if opt[0] == "filter" else "") + suffix] = opt[1]
    if call == "recommend":
        liked = bool(rng.random() < 0.75)
        rows = gen.matrix(rng, nq, items, density=gen.pick(rng, [0.1, 0.4, 1.0]),
                          values="signed" if fam == "knn" and rng.random() < 0.3 else "mixed",
                          dtype=gen.pick(rng, [np.float32, np.float64]), full_row=rng.random() < 0.15)
        rows = gen.rewidth(rng, explicit_zeros(rng, rows), mon)
        okw["filter_already_liked_items"] = liked
        if fam == "mf" and kind == "als" and rng.random() < 0.2 and calm(model) and not (rows.data == 0).any():
            okw["recalculate_user"] = True
        if liked:
            mon.event("liked")
        masks = liked_masks(rows, allowed, liked, nq)
        got = model.recommend(qid, rows, **okw)
    else:
        masks = [allowed] * nq
        got = getattr(model, call)(qid, **okw)
    mon.event("%s.%s" % (label, call))
    judge_rows(mon, what + str({a: b for a, b in okw.items() if a != "N"})[:200], got[0], got[1], nq, scalar, N, masks, n)
    if opt or call == "recommend":
        mon.nontrivial(kind, call, sorted(okw), n, nq, N, scalar, spec["i"] % 101)
    mon.sample(model=kind, call=call, query=ids[:4].tolist(), options=okw,
               answer=(np.asarray(got[0]).ravel()[:6].tolist(), np.asarray(got[1]).ravel()[:6].tolist()))
