"""C04: a batch call answers exactly like one call per id."""
import warnings

import numpy as np

from vlib import annx, gen, judge
from checks.c02 import calm
from vlib.core import case_list, rng_of

PROP = "C04"
RULE = ("one case = one model (MF, item-item, ANN) and one batch call of recommend/similar_items/similar_users/"
        "rank_items/recommend_all whose every row is compared with its own single-id call; ids in any order with "
        "repeats; non-trivial with at least two rows; distinct by (model, call, options, batch size)")
NEED = ["mf.recommend", "mf.similar_items", "mf.similar_users", "mf.rank_items", "mf.recommend_all",
        "mf.recommend_all.offset", "knn.recommend", "knn.similar_items", "knn.rank_items", "annoy.recommend",
        "annoy.similar_items", "nmslib.recommend", "nmslib.similar_items", "faiss.recommend", "faiss.similar_items",
        "repeated_id", "batch>100", "padded", "ann.big", "annoy.recalculate_item", "nmslib.recalculate_item", "faiss.recalculate_item"]
ASSUMPTIONS = ["scores agree up to the rounding of the dtype (float32 for models answering batches in float32)"]


def cases(tier, seed):
    q = tier == "quick"
    return case_list(seed, mf=9000 if q else 60000, knn=6000 if q else 40000, ann=2000 if q else 15000,
                     big=800 if q else 6000)


def make(rng, fam, users, items):
    if fam == "mf":
        kind = gen.pick(rng, ["als", "bpr", "lmf"])
        m = gen.set_model(rng, kind, users, items, gen.size(rng, 1, 9, 130), gen.pick(rng, [np.float32, np.float64]))
        if kind == "als":
            m.regularization = 0.5
        return kind, m
    if fam == "knn":
        kind = gen.pick(rng, ["item", "cosine", "tfidf", "bm25"])
        ui = gen.nonempty_matrix(rng, users, items, dtype=np.float64)
        m = gen.knn_classes()[kind](K=int(rng.integers(1, items + 2)), num_threads=1)
        m.fit(ui, show_progress=False)
        return kind, m
    kind = gen.pick(rng, ["annoy", "nmslib", "faiss"])
    base = annx.fixed_als(rng, users, items, int(rng.integers(2, 6)), style="normal")
    base.item_factors[(base.item_factors == 0).all(axis=1)] = 0.5
    base.user_factors[(base.user_factors == 0).all(axis=1)] = 0.5
    m = annx.wrap(rng, kind, base, items, exhaustive=kind == "faiss" or rng.random() < 0.6, approximate_recommend=rng.random() < 0.8,
                  approximate_similar_items=rng.random() < 0.8)
    m.fit(gen.matrix(rng, users, items), show_progress=False)
    return kind, m


def run_case(spec, mon):
    rng = rng_of(spec)
    k = spec["kind"]
    fam = gen.pick(rng, ["mf", "mf", "knn"]) if k == "big" else k
    users, items = gen.size(rng, 2, 12, 150), gen.size(rng, 3, 24, 300)
    if k == "big":
        users, items = gen.size(rng, 20, 300, 1200, 0.1), gen.size(rng, 3, 80, 1500, 0.2)
    if k == "ann" and rng.random() < 0.05:
        items = int(rng.integers(300, 1500))
        mon.event("ann.big")
    kind, model = make(rng, fam, users, items)
    calls = {"mf": ["recommend", "recommend", "similar_items", "similar_users", "rank_items", "recommend_all"],
             "knn": ["recommend", "recommend", "similar_items", "rank_items"],
             "ann": ["recommend", "similar_items"]}[fam]
    call = gen.pick(rng, calls)
    label = kind if fam == "ann" else fam
    qn = items if call == "similar_items" else users
    n = users if call == "similar_users" else items
    nq = gen.size(rng, 101, 330, 6000, 0.1) if k == "big" else gen.size(rng, 1, 9, 100)
    ids = rng.integers(0, qn, nq)
    if len(set(ids.tolist())) < nq:
        mon.event("repeated_id")
    if nq > 100:
        mon.event("batch>100")
    N = int(gen.pick(rng, [1, 2, 5, 10, items, items + 3]))
    kw = {"N": N}
    select = not (fam == "ann" and (model.approximate_recommend if call == "recommend"
                                    else model.approximate_similar_items))
    suffix = "users" if call == "similar_users" else "items"
    mode = gen.pick(rng, ["none", "filter", "select"] if select else ["none", "filter"])
    if mode == "filter":
        kw["filter_" + suffix] = gen.idform(rng, gen.subset(rng, n, kmax=max(1, n - 1)))
    elif mode == "select":
        kw[suffix] = gen.idform(rng, gen.subset(rng, n))
    rows = None
    if call in ("recommend", "rank_items", "recommend_all"):
        rows = gen.matrix(rng, nq, items, dtype=gen.pick(rng, [np.float32, np.float64]),
                          density=gen.pick(rng, [0.1, 0.5]), full_row=rng.random() < 0.1)
        if call == "recommend":
            kw["filter_already_liked_items"] = bool(rng.random() < 0.7)
            if kind == "als" and rng.random() < 0.3 and calm(model):
                kw["recalculate_user"] = True
    elif call == "similar_items" and kind == "als" and rng.random() < 0.3 and calm(model):
        rows = gen.matrix(rng, nq, users, density=0.4)
        kw["recalculate_item"] = True
    elif call == "similar_items" and fam == "ann" and rng.random() < 0.4:
        rows = gen.matrix(rng, nq, users, density=0.7, empty=0)
        if (np.diff(rows.indptr) > 0).all():  # a zero query has no direction
            kw["recalculate_item"] = True
            mon.event(kind + ".recalculate_item")
        else:
            rows = None
    if rows is not None:
        rows = gen.rewidth(rng, rows, mon)
    mon.event(label + "." + call)
    form = gen.idform(rng, ids)
    # expected precision
    if fam == "mf":
        dt = model.item_factors.dtype
        rt = 64 * judge.eps_of(dt) * (model.item_factors.shape[1] + 4)
    else:
        rt = 4e-6 if fam == "knn" else 1e-4
    if kw.get("recalculate_user") or kw.get("recalculate_item"):
        rt = max(rt, 1e-5)

    def scale(ans):
        s = np.abs(np.asarray(ans[1], float))
        s = s[s < 1e30]
        return float(s.max()) if s.size else 0.0

    if fam == "mf" and call in ("recommend", "rank_items", "recommend_all"):
        base = float(np.abs(model.user_factors.astype(float)[ids] @ model.item_factors.astype(float).T).max() or 1)
        base = max(base, float((np.abs(model.user_factors.astype(float)[ids])
                                @ np.abs(model.item_factors.astype(float)).T).max()))
    else:
        base = 1.0
    what = "%s.%s(%s)" % (kind, call, ", ".join(sorted(kw)))

    if call == "recommend_all":
        kw.pop("items", None)
        off = int(rng.integers(0, 4))
        m = gen.matrix(rng, max(1, users - off), items)
        off = min(off, users - m.shape[0])
        liked = bool(rng.random() < 0.7)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            got = model.recommend_all(m, N=N, filter_already_liked_items=liked,
                                      filter_items=kw.get("filter_items"), users_items_offset=off)
        uid = np.arange(m.shape[0]) + off
        ref, rs = model.recommend(uid, m, N=N, filter_already_liked_items=liked, filter_items=kw.get("filter_items"))
        mon.check(np.array_equal(np.asarray(got), ref), "recommend_all differs from recommend", got=got, ref=ref, off=off)
        if off:
            mon.event("mf.recommend_all.offset")
        mon.ev(m.shape[0])
        mon.nontrivial(kind, call, m.shape, N, off, spec["i"] % 53)
        return

    def one(i):
        sid = gen.scalar_id(rng, ids[i])
        if call == "recommend":
            return model.recommend(sid, rows[i], **kw)
        if call == "rank_items":
            return model.rank_items(sid, rows[i], sel)
        if call == "similar_items" and rows is not None:
            return model.similar_items(sid, item_users=rows[i], **kw)
        return getattr(model, call)(sid, **kw)

    sel = None
    if call == "rank_items":
        sel = gen.idform(rng, gen.subset(rng, items))
        got = model.rank_items(form, rows, sel)
        ref = model.recommend(form, rows, items=sel, filter_already_liked_items=False)
        for i in range(nq):
            judge.same_answer(mon, (got[0][i], got[1][i]), (ref[0][i], ref[1][i]), what + " vs recommend(items=)",
                              rtol=rt, atol=rt * base)
    elif call == "recommend":
        got = model.recommend(form, rows, **kw)
    elif call == "similar_items" and rows is not None:
        got = model.similar_items(form, item_users=rows, **kw)
    else:
        got = getattr(model, call)(form, **kw)
    gi, gs = np.asarray(got[0]), np.asarray(got[1])
    mon.check(gi.ndim == 2 and gi.shape == gs.shape and len(gi) == nq, what + ": batch answer has the wrong shape",
              shape=gi.shape, nq=nq)
    check = range(nq) if nq <= 40 else sorted(set([0, 1, 98, 99, 100, 101, nq - 1]
                                                  + rng.integers(0, nq, 60).tolist()))
    for i in check:
        if i >= nq:
            continue
        s = one(i)
        mon.ev()
        if len(s[0]) < gi.shape[1]:
            mon.event("padded")
            tail = gi[i][len(s[0]):]
            mon.check((tail == -1).all() and (gs[i][len(s[0]):] <= gen.SENT).all(),
                      what + ": missing results are not padded with -1 and the lowest score", row=gi[i], scores=gs[i],
                      single=s)
        judge.same_answer(mon, (gi[i], gs[i]), s, what + ": row %d of the batch vs the single call" % i,
                          rtol=rt, atol=rt * max(base, scale(s)))
    if nq > 1:
        mon.nontrivial(kind, call, sorted(kw), nq, N, n, spec["i"] % 53)
    mon.sample(model=kind, call=call, ids=ids[:5].tolist(), options=kw, row0=(gi[0][:5].tolist(), gs[0][:5].tolist()))
