"""C11: item-item answers follow the similarity matrix."""
import numpy as np
import scipy.sparse as sp

from vlib import gen, judge, knn_ref
from vlib.core import case_list, rng_of

PROP = "C11"
RULE = ("one case = one fitted item-item model and a sequence of 4..10 recommend/similar_items calls (failing calls in "
        "between), each compared with dense scores from the stored similarity matrix; non-trivial when candidates exist; "
        "distinct by (model, shape, call, options, N)")
NEED = ["recommend", "similar_items", "signed_weights", "empty_row", "duplicate_entries", "filter_liked", "filter_items",
        "items", "unreachable_item", "exhausted", "failing_call", "batch", "zero_weight", "float32_row", "int_row",
        "values.close", "values.tiny", "extreme_weights", "long"]
ASSUMPTIONS = ["a reachable item is one with a stored similarity to one of the user's stored entries"]


def cases(tier, seed):
    q = tier == "quick"
    return case_list(seed, calls=16000 if q else 192000, long=64 if q else 800)


def run_case(spec, mon):
    rng = rng_of(spec)
    kind = gen.pick(rng, ["item", "item", "cosine", "tfidf", "bm25"])
    users, items = gen.size(rng, 1, 14, 100), gen.size(rng, 2, 22, 500, 0.12)
    long = spec["kind"] == "long"
    if long:  # thousands of items, users who like many of them
        items = gen.size(rng, 1100, 3000, 9000, 0.2)
        mon.event("long")
    signed = kind in ("item", "cosine") and rng.random() < 0.5
    ui = gen.nonempty_matrix(rng, users, items, values="signed" if signed else "mixed", dtype=np.float64,
                             density=gen.pick(rng, [0.005, 0.02, 0.1]) if long else None)
    if rng.random() < 0.25:
        # similarities that are tiny or differ only beyond single precision
        if rng.random() < 0.5:
            ui.data[:] = np.sign(ui.data) * (1 + 1e-8 * rng.integers(0, 50, ui.nnz))
            mon.event("values.close")
        else:
            ui.data[:] = ui.data * 10.0 ** -int(rng.integers(2, 9))
            mon.event("values.tiny")
    model = gen.knn_classes()[kind](K=int(gen.pick(rng, [1, 2, 4, items // 2 + 1, items, 20])), num_threads=1)
    model.fit(ui, show_progress=False)
    S = model.similarity.tocsr()
    for _ in range(int(rng.integers(4, 11))):
        N = int(gen.pick(rng, [1, 2, 3, 5, items // 2 + 1, items, items + 2]))
        if rng.random() < 0.15:
            # a failing call must leave no state behind
            bad = sp.csr_matrix(([1.0, 1.0], ([0, 0], [0, items + 1])), shape=(1, items + 2))
            for fn in (lambda: model.recommend(0, bad), lambda: model.recommend(0, ui.tocsc()),
                       lambda: model.recommend(0, ui[:1], items=[items + 3]), lambda: model.similar_items(0, items=[-1])):
                try:
                    fn()
                except (ValueError, IndexError):
                    mon.event("failing_call")
        if rng.random() < 0.3:
            it = int(rng.integers(items))
            row = S.getrow(it)
            true = np.full(items, -np.inf)
            true[row.indices] = row.data
            elig = np.zeros(items, bool)
            elig[row.indices] = True
            kw = {}
            r = rng.random()
            if r < 0.3:
                f = gen.subset(rng, items, repeats=rng.random() < 0.3)
                kw["filter_items"] = gen.idform(rng, f)
                elig[f] = False
            elif r < 0.6:
                f = gen.subset(rng, items, repeats=rng.random() < 0.3)
                kw["items"] = gen.idform(rng, f)
                sel = np.zeros(items, bool)
                sel[f] = True
                elig &= sel
            if rng.random() < 0.2:
                ids, sc = model.similar_items([it], N=N, **kw)
                ids, sc = ids[0], sc[0]
                true = true.astype(np.float32).astype(float)
                mon.event("batch")
            else:
                ids, sc = model.similar_items(gen.scalar_id(rng, it), N=N, **kw)
            what = "%s.similar_items(%d, N=%d, %s)" % (kind, it, N, kw)
            judge.judge_topn(mon, ids, sc, np.where(np.isfinite(true), true, 0), np.full(items, 1e-300), elig, N, what)
            if "items" in kw:
                rest(mon, ids, sc, sel, what)
            mon.event("similar_items")
            mon.ev()
            continue
        # recommend
        vals = gen.pick(rng, ["ones", "ints", "signed", "floats"])
        dt = gen.pick(rng, [np.float64, np.float32, np.int32, np.int64])
        row = gen.matrix(rng, 1, items, density=gen.pick(rng, [0.1, 0.4, 0.8]), values=vals, empty=0.15 if not long else 0.01, dtype=dt)
        if row.nnz and rng.random() < 0.2:
            extra = rng.integers(0, row.nnz, 2)
            row = sp.csr_matrix((np.append(row.data, row.data[extra]), np.append(row.indices, row.indices[extra]),
                                 np.array([0, row.nnz + 2])), shape=(1, items))
            mon.event("duplicate_entries")
        elif row.nnz and rng.random() < 0.15:
            row.data[0] = 0
            mon.event("zero_weight")
        if dt is np.float64 and row.nnz and rng.random() < 0.15:
            # weights over many orders of magnitude
            row.data *= 10.0 ** rng.integers(-12, 13, row.nnz)
            mon.event("extreme_weights")
        if vals == "signed":
            mon.event("signed_weights")
        if dt is np.float32:
            mon.event("float32_row")
        if dt in (np.int32, np.int64):
            mon.event("int_row")
        if not row.nnz:
            mon.event("empty_row")
        row = gen.rewidth(rng, row, mon)
        true, tol, reach = knn_ref.recommend_ref(S, row.indices, row.data)
        elig = reach.copy()
        kw = {"filter_already_liked_items": bool(rng.random() < 0.6)}
        if kw["filter_already_liked_items"]:
            elig[row.indices] = False
            mon.event("filter_liked")
        r = rng.random()
        sel = None
        if r < 0.3:
            f = gen.subset(rng, items, repeats=rng.random() < 0.3)
            kw["filter_items"] = gen.idform(rng, f)
            elig[f] = False
            mon.event("filter_items")
        elif r < 0.6:
            f = gen.subset(rng, items, repeats=rng.random() < 0.3)
            kw["items"] = gen.idform(rng, f)
            sel = np.zeros(items, bool)
            sel[f] = True
            elig &= sel
            mon.event("items")
        if rng.random() < 0.2:
            two = sp.vstack([row, row]).tocsr()
            ids, sc = model.recommend([0, 0], two, N=N, **kw)
            i = int(rng.integers(2))
            ids, sc = ids[i], sc[i]
            tol = tol + 1e-6 * np.abs(true) + 1e-30
            mon.event("batch")
        else:
            ids, sc = model.recommend(gen.scalar_id(rng, rng.integers(0, 5)), row, N=N, **kw)
        what = "%s.recommend(%s: %s, N=%d, %s)" % (kind, row.indices.tolist(), row.data.tolist(), N, kw)
        judge.judge_topn(mon, ids, sc, true, tol, elig, N, what)
        if sel is not None:
            mon.check(len([x for x in ids if x >= 0]) == min(N, int(sel.sum())), what + ": not all requested items listed",
                      ids=ids)
            rest(mon, ids, sc, sel, what)
            if (sel & ~reach).any():
                mon.event("unreachable_item")
        if elig.sum() < N:
            mon.event("exhausted")
        mon.event("recommend")
        mon.ev()
        if elig.any():
            mon.nontrivial(kind, items, model.K, sorted(kw), N, row.indices.tolist())
        mon.sample(case=what, ids=ids[:4].tolist(), scores=sc[:4].tolist())


def rest(mon, ids, sc, sel, what):
    """the slots after the results: requested items only, or -1, each once"""
    ids = np.asarray(ids)
    real = ids[ids >= 0]
    mon.check(len(set(real.tolist())) == len(real) and sel[real.astype(int)].all(),
              what + ": an item that was not requested, or one twice", ids=ids, scores=sc)
