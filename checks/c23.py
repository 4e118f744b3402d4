"""C23: invalid requests are rejected and change nothing."""
import numpy as np
import scipy.sparse as sp

from checks.c20 import state, content
from vlib import annx, gen
from vlib.core import Violation, case_list, rng_of

PROP = "C23"
RULE = ("one case = one model and a history of 5-12 calls most of which are invalid; an invalid call must raise ValueError, IndexError or "
        "NotImplementedError, leave the bytes of all public attributes and of the arguments as they were, and a fixed set of valid "
        "queries must be answered bit for bit as before it.  distinct by (model kind, entry point, kind of invalid argument)")
BAD = ["csc", "coo", "dense", "none", "rows", "norows", "userid", "items", "negative_items", "items+filter", "recalc_unsupported", "recalc_rows",
       "recalc_wide", "partial_rows", "partial_wide", "refit_shape", "similar_users_unsupported", "similar.itemid", "similar.items",
       "similar.items+filter", "similar.userid", "similar.users", "similar.users+filter", "rank_items", "knn.wide", "ann.items", "partial_ids"]
NEED = ["als", "bpr", "lmf", "item", "cosine", "tfidf", "bm25", "annoy", "faiss", "nmslib", "batch", "scalar", "valid_between", "after_update"] + \
    ["bad." + b for b in BAD]
ASSUMPTIONS = ["negative user and item ids count from the end as in numpy", "an item-item model may answer similar_items of an unknown item with an empty list"]

OK = (ValueError, IndexError, NotImplementedError)


def cases(tier, seed):
    q = tier == "quick"
    return case_list(seed, mf=7000 if q else 70000, knn=2400 if q else 24000, ann=1000 if q else 10000)


def matrix(rng, r, c, **kw):
    return gen.matrix(rng, r, c, density=0.5, values="ints", empty=0, **kw)


def notcsr(rng, m):
    k = gen.pick(rng, ["csc", "coo", "dense", "none"])
    return k, {"csc": lambda: m.tocsc(), "coo": lambda: m.tocoo(), "dense": lambda: m.toarray(), "none": lambda: None}[k]()


def wrong_rows(rng, n, cols):
    k = int(gen.pick(rng, [n + 1, n + 2, max(n - 1, 0), 2 * n]))
    k = k if k != n else n + 1
    return ("norows" if k == 0 else "rows"), matrix(rng, k, cols)


def wide(rng, n, cols):
    """refers to a column beyond the model"""
    m = matrix(rng, n, cols + 3).tolil()
    m[int(rng.integers(n)), cols + int(rng.integers(3))] = 2
    return m.tocsr()


def beyond(rng, ids, n):
    """ids with one of them beyond the end"""
    ids = np.array(ids, dtype=np.int64)
    ids[int(rng.integers(len(ids)))] = n + int(gen.pick(rng, [0, 0, 1, 7, 1000]))
    return ids


def form(rng, batch, ids):
    return gen.idform(rng, ids) if batch else gen.scalar_id(rng, ids[0])


def invalid(rng, kind, m, users, items):
    """-> (name, entry point, function, arguments)"""
    als, knn, ann = kind == "als", kind in gen.knn_classes(), kind in ("annoy", "faiss", "nmslib")
    batch = bool(rng.random() < 0.5)
    n = gen.size(rng, 1, 4, 130) if batch else 1
    us, its = rng.integers(0, users, n), rng.integers(0, items, n)
    uid, iid = form(rng, batch, us), form(rng, batch, its)
    rows, cols = matrix(rng, n, items), matrix(rng, n, users)
    N = int(rng.integers(1, items + 2))
    sel = rng.permutation(items)[: int(rng.integers(1, items + 1))]
    usel = rng.permutation(users)[: int(rng.integers(1, users + 1))]
    opts = ["notcsr", "rows", "items", "negative_items", "items+filter", "similar.itemid", "similar.items", "similar.items+filter"]
    if not ann:
        opts += ["rank_items"]
    if not knn:
        opts += ["userid"]
        if not ann:
            opts += ["similar.userid", "similar.users", "similar.users+filter", "refit_shape"]
    if kind in ("bpr", "lmf"):
        opts += ["recalc_unsupported"]
    if als:
        opts += ["recalc_rows", "recalc_wide", "partial_rows", "partial_wide", "recalc_user_query", "recalc_item_query", "partial_ids"]
    if knn:
        opts += ["knn.wide", "similar_users_unsupported", "recalc_unsupported"]
    if ann:
        opts += ["similar_users_unsupported"]
    o = gen.pick(rng, opts)
    fl = gen.pick(rng, [{}, {"filter_already_liked_items": True}])
    if o == "notcsr":
        name, bad = notcsr(rng, rows)
        return name, "recommend", lambda u, r: m.recommend(u, r, N=N, **fl), [uid, bad]
    if o == "rows":
        name, bad = wrong_rows(rng, n, items)
        return name, "recommend", lambda u, r: m.recommend(u, r, N=N, **fl), [uid, bad]
    if o == "userid":
        bad = beyond(rng, us, users)
        like = bool(rng.integers(2))
        return o, "recommend", lambda u, r: m.recommend(u, r, N=N, filter_already_liked_items=like), [form(rng, batch, bad), rows]
    if o in ("items", "negative_items"):
        bad = beyond(rng, sel, items)
        if o == "negative_items":
            bad = sel.astype(np.int64)
            bad[int(rng.integers(len(bad)))] = -int(gen.pick(rng, [1, 2, items, items + 1]))
        like = bool(rng.integers(2))
        name = "ann.items" if ann else o
        return name, "recommend", lambda u, r, s: m.recommend(u, r, N=N, items=s, filter_already_liked_items=like), [uid, rows, gen.idform(rng, bad)]
    if o == "items+filter":
        return o, "recommend", lambda u, r, s, f: m.recommend(u, r, N=N, items=s, filter_items=f), \
            [uid, rows, gen.idform(rng, sel), gen.idform(rng, rng.permutation(items)[: gen.size(rng, 1, 4, items, 0.1)])]
    if o == "similar.itemid":
        return o, "similar_items", lambda i: m.similar_items(i, N=N), [form(rng, batch, beyond(rng, its, items))]
    if o == "similar.items":
        bad = beyond(rng, sel, items)
        if rng.random() < 0.3:
            bad = np.append(sel, -1)
        return o, "similar_items", lambda i, s: m.similar_items(i, N=N, items=s), [iid, gen.idform(rng, bad)]
    if o == "similar.items+filter":
        return o, "similar_items", lambda i, s, f: m.similar_items(i, N=N, items=s, filter_items=f), \
            [iid, gen.idform(rng, sel), gen.idform(rng, rng.permutation(items)[: gen.size(rng, 1, 4, items, 0.1)])]
    if o == "similar.userid":
        return o, "similar_users", lambda u: m.similar_users(u, N=N), [form(rng, batch, beyond(rng, us, users))]
    if o == "similar.users":
        bad = beyond(rng, usel, users)
        if rng.random() < 0.3:
            bad = np.append(usel, -1)
        return o, "similar_users", lambda u, s: m.similar_users(u, N=N, users=s), [uid, gen.idform(rng, bad)]
    if o == "similar.users+filter":
        return o, "similar_users", lambda u, s, f: m.similar_users(u, N=N, users=s, filter_users=f), \
            [uid, gen.idform(rng, usel), gen.idform(rng, rng.permutation(users)[: gen.size(rng, 1, 4, users, 0.1)])]
    if o == "similar_users_unsupported":
        return o, "similar_users", lambda u: m.similar_users(u), [uid]
    if o == "rank_items":
        bad = beyond(rng, sel, items)
        return o, "rank_items", lambda u, r, s: m.rank_items(u, r, s), [int(us[0]), rows[:1], gen.idform(rng, bad)]
    if o == "refit_shape":
        dr, dc = gen.pick(rng, [(1, 0), (0, 1), (-1, 0), (0, -1), (2, -1)])
        bad = matrix(rng, users + dr, items + dc)
        return o, "fit", lambda d: m.fit(d, show_progress=False), [bad]
    if o == "recalc_unsupported":
        if knn or rng.random() < 0.5:
            return o, "similar_items", lambda i, c: m.similar_items(i, N=N, recalculate_item=True, item_users=c), [iid, cols]
        return o, "recommend", lambda u, r: m.recommend(u, r, N=N, recalculate_user=True), [uid, rows]
    if o == "knn.wide":
        return o, "recommend", lambda u, r: m.recommend(u, r, N=N), [uid, wide(rng, n, items)]
    side = bool(rng.integers(2))
    ids, nc = (us, items) if side else (its, users)
    i = form(rng, batch, ids)
    if o == "recalc_rows":
        fn = m.recalculate_user if side else m.recalculate_item
        return o, fn.__name__, fn, [i, wrong_rows(rng, n, nc)[1]]
    if o == "recalc_wide":
        fn = m.recalculate_user if side else m.recalculate_item
        return o, fn.__name__, fn, [i, wide(rng, n, nc)]
    if o == "recalc_user_query":
        k = gen.pick(rng, ["recalc_rows", "recalc_wide"])
        bad = wrong_rows(rng, n, items)[1] if k == "recalc_rows" else wide(rng, n, items)
        like = bool(rng.integers(2)) if k == "recalc_rows" else False
        return k, "recommend", lambda u, r: m.recommend(u, r, N=N, recalculate_user=True, filter_already_liked_items=like), [uid, bad]
    if o == "recalc_item_query":
        k = gen.pick(rng, ["recalc_rows", "recalc_wide"])
        bad = wrong_rows(rng, n, users)[1] if k == "recalc_rows" else wide(rng, n, users)
        return k, "similar_items", lambda i, c: m.similar_items(i, N=N, recalculate_item=True, item_users=c), [iid, bad]
    fn = m.partial_fit_users if side else m.partial_fit_items
    have = users if side else items
    ids = rng.permutation(have + n + 2)[:n]  # may be new ids: a rejected call does not grow the model
    if o == "partial_rows":
        return o, fn.__name__, fn, [gen.idform(rng, ids), wrong_rows(rng, n, nc)[1]]
    if o == "partial_ids":
        if rng.random() < 0.5:
            # the model would grow to have + 3
            ids = np.concatenate([[have + 2], -have - 4 - rng.permutation(3)[:1]])[rng.permutation(2)]
        else:
            ids = rng.permutation(np.append(rng.permutation(have)[: int(rng.integers(1, 4))], -have - 1 - int(gen.pick(rng, [0, 0, 1, 90]))))
        return o, fn.__name__, fn, [gen.idform(rng, ids), matrix(rng, len(ids), nc)]
    return o, fn.__name__, fn, [gen.idform(rng, ids), wide(rng, n, nc)]


def probe(kind, m, users, items):
    rng = np.random.default_rng(7)
    knn, ann = kind in gen.knn_classes(), kind in ("annoy", "faiss", "nmslib")
    rows = matrix(rng, 2, items)
    out = [m.recommend(0, rows[0], N=4), m.recommend([users - 1, 0], rows, N=items), m.similar_items(items - 1, N=4), m.similar_items([0, 1], N=3)]
    if not knn and not ann:
        out.append(m.similar_users([0, users - 1], N=3))
        out.append((np.array(m.user_norms), np.array(m.item_norms)))
    if kind == "als":
        out.append(m.recalculate_user([0, 0], rows))
        out.append(m.recalculate_item(0, matrix(rng, 1, users)))
    return content(out)


def history(spec, mon, kind, m, users, items, inner=None, update=None):
    rng = np.random.default_rng([*spec["seed"], 5])
    watch = inner if inner is not None else m
    before = probe(kind, m, users, items)
    trail = []
    for _ in range(int(rng.integers(5, 12))):
        r = rng.random()
        if r < 0.1 and update:
            users, items = update(rng)
            before = probe(kind, m, users, items)
            mon.event("after_update")
            continue
        if r < 0.2:
            m.recommend(int(rng.integers(users)), matrix(rng, 1, items), N=3)
            m.similar_items(int(rng.integers(items)), N=3)
            mon.event("valid_between")
            continue
        name, entry, fn, args = invalid(rng, kind, m, users, items)
        trail.append("%s(%s)" % (entry, name))
        s, a = (state(m), state(watch)), [content(x) for x in args]
        what = "%s.%s with invalid %s" % (kind, entry, name)
        d = dict(history=trail, args=args)
        try:
            out = fn(*args)
        except OK as e:
            mon.event("raised." + type(e).__name__)
        except Exception as e:
            raise Violation("%s raised %s: %s" % (what, type(e).__name__, str(e)[:200]), **{k: repr(v)[:800] for k, v in d.items()})
        else:
            if not (kind in gen.knn_classes() and name == "similar.itemid" and empty(args[0], out, items)):
                raise Violation(what + " was answered", answer=repr(out)[:600], **{k: repr(v)[:800] for k, v in d.items()})
        mon.ev()
        mon.event("bad." + name)
        mon.event("scalar" if args and np.isscalar(args[0]) else "batch")
        mon.check((state(m), state(watch)) == s, what + " changed the model", **d)
        mon.check([content(x) for x in args] == a, what + " changed its arguments", **d)
        mon.check(probe(kind, m, users, items) == before, what + " changes later answers", **d)
        mon.nontrivial(kind, entry, name, np.isscalar(args[0]) if args else 0)
    mon.sample(kind=kind, history=trail)


def empty(ids, out, items):
    """the answer for unknown items has no results"""
    if np.isscalar(ids):
        return len(out[0]) == 0
    return all((np.asarray(r) < 0).all() for i, r in zip(ids, out[0]) if i >= items)


def mf(spec, mon):
    rng = rng_of(spec)
    kind = gen.pick(rng, ["als", "als", "bpr", "lmf"])
    mon.event(kind)
    users, items = gen.size(rng, 2, 12, 1200), gen.size(rng, 2, 12, 1200)
    if rng.random() < 0.5:
        m = gen.trained_model(rng, kind, gen.nonempty_matrix(rng, users, items, density=0.5, values="ints", empty=0), **({"regularization": 1.0} if kind == "als" else {}))
    else:
        kw = {"regularization": 1.0, "alpha": float(gen.pick(rng, [1.0, 2.0]))} if kind == "als" else {}
        m = gen.set_model(rng, kind, users, items, int(rng.integers(1, 5)), gen.pick(rng, [np.float32, np.float64]), style="normal", **kw)

    def update(r):
        nonlocal users, items
        if kind == "als" and r.random() < 0.6:
            if r.integers(2):
                m.partial_fit_users([int(r.integers(users + 1))], matrix(r, 1, items))
            else:
                m.partial_fit_items([int(r.integers(items + 1))], matrix(r, 1, users))
        else:
            m.fit(matrix(r, users, items), show_progress=False)
        users, items = len(m.user_factors), len(m.item_factors)
        return users, items

    history(spec, mon, kind, m, users, items, update=update)


def knn(spec, mon):
    rng = rng_of(spec)
    kind = gen.pick(rng, list(gen.knn_classes()))
    mon.event(kind)
    users, items = gen.size(rng, 2, 12, 1200), gen.size(rng, 2, 12, 1200)
    m = gen.knn_classes()[kind](K=int(rng.integers(1, items + 2)), num_threads=1)
    m.fit(gen.nonempty_matrix(rng, users, items, density=0.5, values="ints"), show_progress=False)

    def update(r):
        nonlocal items
        items = gen.size(r, 2, 12, 1200)
        m.fit(gen.nonempty_matrix(r, users, items, density=0.5, values="ints"), show_progress=False)
        return users, items

    history(spec, mon, kind, m, users, items, update=update)


def ann(spec, mon):
    rng = rng_of(spec)
    lib = gen.pick(rng, ["annoy", "faiss", "nmslib"])
    mon.event(lib)
    users, items = gen.size(rng, 2, 10, 1200), int(rng.integers(8, 16))
    inner = annx.fixed_als(rng, users, items, int(rng.integers(2, 5)), style="normal")
    m = annx.wrap(rng, lib, inner, items, approximate_recommend=bool(rng.random() < 0.7), approximate_similar_items=bool(rng.random() < 0.7))
    m.fit(gen.nonempty_matrix(rng, users, items, values="ints"), show_progress=False)
    history(spec, mon, lib, m, users, items, inner=inner)


def run_case(spec, mon):
    {"mf": mf, "knn": knn, "ann": ann}[spec["kind"]](spec, mon)
