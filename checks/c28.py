"""C28: the form in which ids and options are given makes no difference."""
import copy

import numpy as np

from vlib import annx, gen, judge
from vlib.core import case_list, rng_of

PROP = "C28"
RULE = ("one case = one model and 3 calls; each is made with Python ints, lists and keywords, and then 6 times with the ids, lists, counts "
        "and flags as other integer types (8 to 64 bits, unsigned, other byte order), arrays that are strided, reversed views or read-only, "
        "positionally or by keyword, and with the item/user lists reordered or with repeats: the answers must be identical (lists "
        "reordered: identical up to the order of ties).  distinct by (model, call, forms)")
NEED = ["als", "bpr", "lmf", "knn", "annoy", "faiss", "nmslib", "c.recommend", "c.similar_items", "c.similar_users", "c.recalculate", "c.partial_fit",
        "c.explain", "c.metrics", "c.split", "f.int8", "f.uint8", "f.int16", "f.uint16", "f.int32", "f.uint32", "f.int64", "f.swapped", "f.strided", "f.reversed",
        "f.readonly", "f.nplist", "positional", "reordered", "repeats", "scalar", "batch", "large_ids", "one_element", "edge_ids"]
ASSUMPTIONS = ["ids are Python or numpy integers, or lists or one dimensional arrays of them (tuples and sets are not), of types whose values int64 can hold (numpy makes float64 of uint64 mixed with int64)",
               "counts are Python or signed numpy integers"]


def cases(tier, seed):
    q = tier == "quick"
    return case_list(seed, mf=5000 if q else 60000, knn=2500 if q else 30000, ann=1500 if q else 18000, other=1500 if q else 18000, large=120 if q else 1200)


INTS = {"int8": np.int8, "uint8": np.uint8, "int16": np.int16, "uint16": np.uint16, "int32": np.int32, "uint32": np.uint32, "int64": np.int64}


def fitting(v, signed=False):
    lo, hi = min(v, default=0), max(v, default=0)
    return [n for n, t in INTS.items() if np.iinfo(t).min <= lo and hi <= np.iinfo(t).max and not (signed and n[0] == "u")]


def arr(rng, mon, ids):
    """a list of ints as some integer array (or list)"""
    f = gen.pick(rng, ["typed", "typed", "typed", "swapped", "strided", "reversed", "readonly", "nplist", "list"])
    if f == "list":
        return [int(x) for x in ids]
    t = gen.pick(rng, fitting(ids))
    mon.event("f." + t)
    a = np.array(ids, dtype=INTS[t])
    if f == "swapped":
        a = np.array(ids, dtype=">i%d" % gen.pick(rng, [4, 8]))
    elif f == "strided":
        a = np.repeat(a, 3)[::3]
    elif f == "reversed":
        a = a[::-1].copy()[::-1]
    elif f == "readonly":
        a.setflags(write=False)
    elif f == "nplist":
        a = list(a)
    if f != "typed":
        mon.event("f." + f)
    return a


def scal(rng, mon, x, signed=False):
    if rng.random() < 0.2:
        return int(x)
    t = gen.pick(rng, fitting([x], signed))
    mon.event("f." + t)
    return INTS[t](x)


def flag(rng, x):
    return gen.pick(rng, [bool(x), np.bool_(x), int(x)])


ORDER = {
    "recommend": ["userid", "user_items", "N", "filter_already_liked_items", "filter_items", "recalculate_user", "items"],
    "similar_items": ["itemid", "N", "recalculate_item", "item_users", "filter_items", "items"],
    "similar_users": ["userid", "N", "filter_users", "users"],
    "explain": ["userid", "user_items", "itemid", "user_weights", "N"],
    "recalculate_user": ["userid", "user_items"], "recalculate_item": ["itemid", "item_users"],
    "partial_fit_users": ["userids", "user_items"], "partial_fit_items": ["itemids", "item_users"],
}
DEFAULT = {"N": 10, "filter_already_liked_items": True, "filter_items": None, "recalculate_user": False, "items": None, "recalculate_item": False,
           "item_users": None, "filter_users": None, "users": None, "user_weights": None}


def respell(rng, mon, name, args):
    """positional and keyword arguments for the call"""
    order = ORDER[name]
    k = int(rng.integers(0, len(order) + 1)) if rng.random() < 0.5 else 0
    pos = []
    for a in order[:k]:
        if a not in args and a not in DEFAULT:
            break
        pos.append(args.get(a, DEFAULT.get(a)))
    if pos:
        mon.event("positional")
    kw = {a: v for a, v in args.items() if a not in order[: len(pos)]}
    for a in order[len(pos):]:
        if a not in kw and rng.random() < 0.2:
            kw[a] = DEFAULT[a]
    return pos, kw


def variant(rng, mon, name, args):
    """the same arguments in other forms; returns them and whether lists were reordered"""
    out, loose = {}, False
    for a, v in args.items():
        if a in ("userid", "itemid", "userids", "itemids"):
            v = arr(rng, mon, v) if isinstance(v, list) else scal(rng, mon, v)
        elif a in ("items", "filter_items", "users", "filter_users"):
            v = list(v)
            r = rng.random()
            if r < 0.3:
                v = [v[i] for i in rng.permutation(len(v))]
                mon.event("reordered")
                loose = True
            elif r < 0.5 and v:
                v = v + [gen.pick(rng, v) for _ in range(int(rng.integers(1, 4)))]
                v = [v[i] for i in rng.permutation(len(v))]
                mon.event("repeats")
                loose = True
            v = arr(rng, mon, v)
        elif a == "N":
            v = scal(rng, mon, v, signed=True)
        elif isinstance(v, bool):
            v = flag(rng, v)
        out[a] = v
    return out, loose


def same(mon, what, a, b, loose, rt):
    """a: canonical"""
    if loose and a[0] is not None:
        x, y = [(np.atleast_2d(np.asarray(p[0])), np.atleast_2d(np.asarray(p[1]))) for p in (a, b)]
        mon.check(x[0].shape == y[0].shape, what + ": another number of results", canonical=a, variant=b)
        for i in range(len(x[0])):
            v = np.abs(x[1][i].astype(float))
            sc = v[v < 1e30].max(initial=0)
            judge.same_answer(mon, (x[0][i], x[1][i]), (y[0][i], y[1][i]), what, rtol=rt, atol=rt * max(sc, 1e-6))
        return
    for x, y in zip(a, b):
        if x is None:
            continue
        x, y = np.asarray(x), np.asarray(y)
        mon.check(x.shape == y.shape and (x.dtype == y.dtype or x.dtype.kind in "iu" and y.dtype.kind in "iu"), what + ": another shape or type of the answer", canonical=a, variant=b)
        mon.check(np.array_equal(x, y), what + ": another answer", canonical=a, variant=b)


def sel(rng, n, k=None):
    ids = [int(x) for x in rng.permutation(n)[: k or int(rng.integers(1, n + 1))]]
    return ids


def call(rng, mon, kind, m, users, items):
    """name and canonical arguments of a random call"""
    batch = rng.random() < 0.5
    nq = gen.size(rng, 1, 6, 130, 0.05) if batch else 1
    mon.event("batch" if batch else "scalar")
    if batch and nq == 1:
        mon.event("one_element")
    us, its = [[int(x) for x in rng.integers(0, n, nq)] for n in (users, items)]
    for ids, n in (us, users), (its, items):  # the last ids of a type
        edge = [e for e in (127, 128, 255, 256, 32767, 32768, 65535, 65536, n - 1) if e < n]
        if rng.random() < 0.4:
            ids[int(rng.integers(nq))] = int(gen.pick(rng, edge))
            mon.event("edge_ids")
    names = ["recommend", "recommend", "similar_items"]
    if kind in ("als", "bpr", "lmf"):
        names += ["similar_users"]
    if kind == "als":
        names += ["explain", "recalculate_user", "recalculate_item", "partial_fit_users", "partial_fit_items"]
    name = gen.pick(rng, names)
    rows = gen.matrix(rng, nq, items, density=min(0.4, 20 / items), values="ints")
    cols = gen.matrix(rng, nq, users, density=min(0.4, 20 / users), values="ints")
    N = int(gen.pick(rng, [1, 3, min(items, 50), min(items + 2, 60)]))
    a = {}
    if name == "recommend":
        a = dict(userid=us if batch else us[0], user_items=rows, N=N, filter_already_liked_items=bool(rng.random() < 0.6))
        if kind == "als" and rng.random() < 0.3:
            a["recalculate_user"] = True
    elif name == "similar_items":
        a = dict(itemid=its if batch else its[0], N=N)
        if kind == "als" and rng.random() < 0.3:
            a.update(recalculate_item=True, item_users=cols)
    elif name == "similar_users":
        a = dict(userid=us if batch else us[0], N=N)
        r = rng.random()
        if r < 0.3:
            a["users"] = sel(rng, users)
        elif r < 0.6:
            a["filter_users"] = sel(rng, users)
    elif name == "explain":
        a = dict(userid=int(rng.integers(nq)), user_items=rows, itemid=its[0], N=N)
    elif name == "recalculate_user":
        a = dict(userid=us if batch else us[0], user_items=rows)
    elif name == "recalculate_item":
        a = dict(itemid=its if batch else its[0], item_users=cols)
    elif name == "partial_fit_users":
        a = dict(userids=sel(rng, users + 6, min(nq, users + 6)))
        a["user_items"] = rows[: len(a["userids"])]
    else:
        a = dict(itemids=sel(rng, items + 6, min(nq, items + 6)))
        a["item_users"] = cols[: len(a["itemids"])]
    if name in ("recommend", "similar_items"):
        r = rng.random()
        if r < 0.3 and kind not in ("annoy", "faiss", "nmslib"):
            a["items"] = sel(rng, items, int(rng.integers(1, min(items, 80) + 1)))
        elif r < 0.6:
            a["filter_items"] = sel(rng, items, int(rng.integers(1, min(items, 80) + 1)))
    mon.event("c." + {"recalculate_user": "recalculate", "recalculate_item": "recalculate", "partial_fit_users": "partial_fit",
                      "partial_fit_items": "partial_fit"}.get(name, name))
    return name, a


def run(m, name, pos, kw):
    if name.startswith("partial"):
        m = copy.deepcopy(m)
        getattr(m, name)(*pos, **kw)
        return None, m.user_factors, m.item_factors
    r = getattr(m, name)(*pos, **kw)
    if name.startswith("recalculate"):
        return None, r
    if name == "explain":
        return None, r[0], [(int(i), float(s)) for i, s in r[1]]
    return r


def drive_model(rng, mon, kind, m, users, items, rt, ncalls=3, nvar=6):
    for _ in range(ncalls):
        name, args = call(rng, mon, kind, m, users, items)
        want = run(m, name, (), args)
        for _ in range(nvar):
            v, loose = variant(rng, mon, name, args)
            pos, kw = respell(rng, mon, name, v)
            forms = {k: "%s %s" % (type(x).__name__, getattr(x, "dtype", "")) for k, x in v.items() if not hasattr(x, "indptr")}
            what = "%s.%s with %s%s" % (kind, name, forms, ", %d positional" % len(pos) if pos else "")
            got = run(m, name, pos, kw)
            mon.ev()
            same(mon, what, want, got, loose, rt)
            mon.nontrivial(kind, name, sorted(forms.items()), len(pos))
    mon.sample(model=kind, users=users, items=items, call=name)


def other(rng, mon):
    from implicit import evaluation as ev

    users, items = gen.size(rng, 2, 14, 1200), gen.size(rng, 3, 14, 1200)
    r = gen.pick(rng, ["metrics", "tts", "lko"])
    if r == "metrics":
        mon.event("c.metrics")
        m = gen.set_model(rng, gen.pick(rng, ["als", "bpr"]), users, items, 3, np.float32, style="normal", num_threads=1)
        tr, te = gen.matrix(rng, users, items, density=0.3), gen.nonempty_matrix(rng, users, items, density=0.3)
        te = te.tolil()
        te[:, int(rng.integers(items))] = 0  # no user with every item
        te = te.tocsr()
        if not te.nnz:
            return
        K = int(gen.pick(rng, [1, 3, 10, items + 2]))
        fn = gen.pick(rng, [ev.precision_at_k, ev.mean_average_precision_at_k, ev.ndcg_at_k, ev.AUC_at_k, ev.ranking_metrics_at_k])
        want = fn(m, tr, te, K=K, show_progress=False, num_threads=1)
        for _ in range(3):
            k = scal(rng, mon, K)
            thr = int(gen.pick(rng, [0, 1, 3]))
            got = (fn(m, tr, te, k, flag(rng, False), scal(rng, mon, thr)) if rng.random() < 0.5 else
                   fn(model=m, train_user_items=tr, test_user_items=te, K=k, show_progress=flag(rng, False), num_threads=scal(rng, mon, thr)))
            mon.ev()
            a, b = ([want], [got]) if not isinstance(want, dict) else ([want[x] for x in sorted(want)], [got[x] for x in sorted(want)])
            mon.check(np.allclose(a, b, rtol=1e-9, atol=1e-12, equal_nan=True), "%s with K as %s: another value" % (fn.__name__, type(k).__name__),
                      canonical=want, variant=got)
            mon.nontrivial("metrics", fn.__name__, type(k).__name__)
        return
    mon.event("c.split")
    mat = gen.nonempty_matrix(rng, users, items, density=0.5, values="ints")
    s = int(rng.integers(1 << 30))
    if r == "tts":
        p = float(gen.pick(rng, [0.0, 0.25, 0.75, 1.0]))
        want = ev.train_test_split(mat, train_percentage=p, random_state=s)
        forms = [lambda: ev.train_test_split(mat, p, s), lambda: ev.train_test_split(mat, np.float64(p), np.int64(s)),
                 lambda: ev.train_test_split(ratings=mat, random_state=np.int32(s), train_percentage=np.float32(p))]
    else:
        K = int(rng.integers(1, 4))
        f = float(gen.pick(rng, [0.0, 0.25, 0.5]))
        want = ev.leave_k_out_split(mat, K=K, train_only_size=f, random_state=s)
        forms = [lambda: ev.leave_k_out_split(mat, scal(rng, mon, K), f, s),
                 lambda: ev.leave_k_out_split(ratings=mat, K=scal(rng, mon, K), random_state=np.int64(s), train_only_size=np.float64(f))]
    for g in forms:
        got = g()
        mon.ev()
        for a, b in zip(want, got):
            mon.check(a.shape == b.shape and (a != b).nnz == 0, "%s: another split for the same parameters in another form" % r)
    mon.nontrivial("split", r, users, items)


def run_case(spec, mon):
    rng = rng_of(spec)
    k = spec["kind"]
    if k == "other":
        return other(rng, mon)
    users, items = gen.size(rng, 2, 20, 400), gen.size(rng, 2, 20, 400)
    if k == "large":  # ids that do not fit 16 bits
        users, items = gen.size(rng, 2, 20, 400), int(gen.pick(rng, [300, 40000, 70000]))
        if rng.random() < 0.4:
            users, items = items, users
        mon.event("large_ids")
    if k in ("mf", "large"):
        kind = gen.pick(rng, ["als", "als", "bpr", "lmf"])
        mon.event(kind)
        dt = gen.pick(rng, [np.float32, np.float64])
        m = gen.set_model(rng, kind, users, items, gen.size(rng, 1, 6, 320), dt, style=gen.pick(rng, ["normal", "ints", "dups"]), num_threads=1,
                          **(dict(regularization=0.5, alpha=float(gen.pick(rng, [1.0, 2.0]))) if kind == "als" else {}))
        return drive_model(rng, mon, kind, m, users, items, 1e-5 if m.user_factors.dtype == np.float32 else 1e-10)
    if k == "knn":
        kind = gen.pick(rng, list(gen.knn_classes()))
        mon.event("knn")
        m = gen.knn_classes()[kind](K=gen.size(rng, 1, 20, 100), num_threads=1)
        m.fit(gen.nonempty_matrix(rng, users, items, density=0.4, values="ints", dtype=np.float64), show_progress=False)
        return drive_model(rng, mon, kind, m, users, items, 1e-10)
    lib = gen.pick(rng, ["annoy", "faiss", "nmslib"])
    mon.event(lib)
    items = int(rng.integers(4, 15))
    w = annx.wrap(rng, lib, annx.fixed_als(rng, users, items, 4, style="normal"), items)
    w.fit(gen.nonempty_matrix(rng, users, items, density=0.4), show_progress=False)
    drive_model(rng, mon, lib, w, users, items, 1e-4)
