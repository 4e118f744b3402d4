"""C29: fitting again continues from the current factors and nothing else."""
import copy
import io
import pickle

import numpy as np

from checks import c07
from vlib import annx, gen
from vlib.core import Violation, case_list, rng_of

PROP = "C29"
RULE = ("one case = one model trained in several calls of fit.  split: ALS iterations divided over several fits (other calls, "
        "files, pickling, thread counts and fits stopped by their callback in between) against one fit of all iterations; "
        "keep: fits of zero iterations or zero learning rate; side: one factor matrix assigned, the other not; history: fit "
        "after a random history against the fit of a fresh model given copies of the factors; knn: refits on other data; "
        "ann: refits through the approximate wrappers; distinct by (kind, model, parameters, operations)")
NEED = ["split.cg", "split.cholesky", "split.python", "split.threads", "split.saveload", "split.pickle", "split.queries", "split.stopped",
        "split.loss", "keep.als", "keep.bpr", "keep.lmf", "keep.rate0", "keep.nan", "side.als", "side.bpr", "side.lmf", "history.als", "history.bpr",
        "history.lmf", "history.assigned", "history.partial", "history.stopped", "history.other_data", "history.failed", "knn", "ann.annoy",
        "ann.faiss", "ann.nmslib"]
ASSUMPTIONS = ["random_state is an int (a generator object moves on with every fit)", "BPR with one thread"]


class Stop(Exception):
    pass


def cases(tier, seed):
    q = tier == "quick"
    return case_list(seed, split=3000 if q else 20000, keep=2400 if q else 15000, side=700 if q else 7000, history=5000 if q else 30000,
                     knn=900 if q else 6000, ann=180 if q else 1500)


def same(mon, a, b, what, rt):
    for side in ("user_factors", "item_factors"):
        x, y = np.asarray(getattr(a, side)), np.asarray(getattr(b, side))
        mon.check(x.shape == y.shape and x.dtype == y.dtype, what + ": %s have another shape or dtype" % side, got=x.shape, want=y.shape)
        sc = max(float(np.abs(y).max(initial=0)), 1e-12)
        mon.check(np.allclose(x, y, rtol=0, atol=rt * sc), what + ": other %s" % side, difference=float(np.abs(x - y).max(initial=0)),
                  got=x[:4], want=y[:4])
    mon.ev()


def als_kw(rng):
    return dict(regularization=float(gen.pick(rng, [0.25, 1.0, 4.0])), alpha=float(gen.pick(rng, [1.0, 1.0, 2.0])),
                use_cg=bool(rng.random() < 0.6), use_native=bool(rng.random() < 0.8), calculate_training_loss=bool(rng.random() < 0.3))


def new_model(rng, kind, users=None, items=None, threads=None):
    kw = {"als": als_kw, "bpr": lambda r: dict(learning_rate=float(gen.pick(r, [0.05, 0.2])), regularization=float(gen.pick(r, [0.0, 0.1])),
                                               verify_negative_samples=bool(r.integers(2))),
          "lmf": lambda r: dict(learning_rate=float(gen.pick(r, [0.3, 1.0])), neg_prop=int(gen.pick(r, [1, 5, 30])))}[kind](rng)
    dt = np.float32 if kind == "lmf" else gen.pick(rng, [np.float32, np.float64])
    if threads is None:
        threads = 1 if kind == "bpr" else int(gen.pick(rng, [0, 1, 2, 4]))
    m = gen.mf_classes()[kind](factors=gen.size(rng, 1, 8, 200), dtype=dt, num_threads=threads, random_state=int(rng.integers(1 << 30)),
                               iterations=int(rng.integers(1, 4)), **kw)
    if kind == "als" and rng.random() < 0.4:
        m.cg_steps = int(gen.pick(rng, [1, 2, 5]))
    return m


def rtol(m):
    return 2e-5 if m.user_factors.dtype == np.float32 else 1e-10


def data(rng, users, items):
    return gen.nonempty_matrix(rng, users, items, values="conf", density=gen.pick(rng, [0.05, 0.2, 0.5]), dtype=np.float32)


def ask(rng, kind, m):
    for _ in range(int(rng.integers(1, 4))):
        c07.query(rng, kind, len(m.user_factors), len(m.item_factors))[1](m)


def through(rng, m, mon=None, tag=""):
    """the model written and read again"""
    r = int(rng.integers(3))
    if mon is not None:
        mon.event(tag + (".saveload" if r == 0 else ".pickle"))
    if r == 0:
        f = io.BytesIO()
        m.save(f)
        f.seek(0)
        return type(m).load(f)
    return pickle.loads(pickle.dumps(m)) if r == 1 else copy.deepcopy(m)


def split(spec, mon):
    rng = rng_of(spec)
    users, items = gen.size(rng, 2, 14, 600), gen.size(rng, 2, 14, 600)
    ui = data(rng, users, items)
    one = new_model(rng, "als", threads=1)
    m = copy.deepcopy(one)
    total = int(rng.integers(2, 9))
    one.iterations = total
    one.fit(ui.copy(), show_progress=False)
    mon.event("split.python" if not one.use_native else "split.cg" if one.use_cg else "split.cholesky")
    if one.calculate_training_loss:
        mon.event("split.loss")
    done, hist = 0, []
    while done < total:
        n = int(rng.integers(0, total - done + 1)) if rng.random() < 0.9 else total - done
        if rng.random() < 0.25 and n:
            # stopped by its callback after n iterations
            m.iterations = n + int(rng.integers(0, 3))

            def cb(it, *a):
                if it == n - 1:  # noqa: B023
                    raise Stop()

            try:
                m.fit(ui, show_progress=False, callback=cb)
                raise Violation("an exception in the callback was swallowed")
            except Stop:
                mon.event("split.stopped")
            hist.append("%d of %d" % (n, m.iterations))
        else:
            m.iterations = n
            m.fit(ui, show_progress=False)
            hist.append(str(n))
        done += n
        for op in rng.permutation(["threads", "io", "ask", "seed"])[: int(rng.integers(0, 4))]:
            if op == "threads":
                m.num_threads = int(gen.pick(rng, [0, 2, 3, 7]))
                mon.event("split.threads")
            elif op == "io":
                m = through(rng, m, mon, "split")
            elif op == "ask":
                ask(rng, "als", m)
                mon.event("split.queries")
            else:
                m.random_state = int(rng.integers(1000))
            hist.append(op)
    same(mon, m, one, "als trained by %s iterations against %d in one fit" % ("+".join(hist), total), rtol(one) * 5)
    mon.nontrivial("split", hist, one.use_cg, one.use_native, str(one.dtype), one.alpha)


def keep(spec, mon):
    rng = rng_of(spec)
    kind = gen.pick(rng, ["als", "bpr", "lmf"])
    users, items = gen.size(rng, 1, 14, 600), gen.size(rng, 1, 14, 600)
    ui = data(rng, users, items)
    m = new_model(rng, kind)
    if rng.random() < 0.5:
        m.fit(ui, show_progress=False)
        st = "trained"
    else:
        w = m.factors + gen.EXTRA[kind]
        dt = np.float32 if kind == "lmf" else m.dtype
        m.user_factors, m.item_factors = gen.factors(rng, users, w, dt, "normal")[0], gen.factors(rng, items, w, dt, "normal")[0]
        st = "assigned"
    if rng.random() < 0.4:
        m = through(rng, m)
    U, V = m.user_factors.copy(), m.item_factors.copy()
    rate0 = kind != "als" and rng.random() < 0.5
    if rate0:
        m.learning_rate, m.iterations = 0.0, int(rng.integers(1, 4))
        mon.event("keep.rate0")
        if kind == "lmf":
            U[:, -2] = V[:, -1] = 1
    else:
        m.iterations = 0
    if rng.random() < 0.5:
        ui = data(rng, users, items)
    m.fit(ui, show_progress=False)
    what = "%s (%s): a fit of %s" % (kind, st, "zero learning rate" if rate0 else "zero iterations")
    mon.check(np.array_equal(m.user_factors, U), what + " changed the user factors", got=m.user_factors[:4], want=U[:4])
    mon.check(np.array_equal(m.item_factors, V), what + " changed the item factors", got=m.item_factors[:4], want=V[:4])
    mon.ev(2)
    mon.event("keep." + kind)
    if rng.random() < 0.2:
        # factors spoilt by the user are not replaced behind his back either
        from implicit.recommender_base import ModelFitError

        m.iterations = 0
        m.user_factors[int(rng.integers(users)), 0] = np.nan
        try:
            m.fit(ui, show_progress=False)
            raise Violation("%s: fit returned normally with NaN in its factors" % kind)
        except ModelFitError:
            mon.event("keep.nan")
    mon.nontrivial("keep", kind, st, rate0, users, items, m.factors)


def side(spec, mon):
    rng = rng_of(spec)
    kind = gen.pick(rng, ["als", "bpr", "lmf"])
    users, items = gen.size(rng, 1, 14, 600), gen.size(rng, 1, 14, 600)
    ui = data(rng, users, items)
    m = new_model(rng, kind)
    w = m.factors + gen.EXTRA[kind]
    dt = np.float32 if kind == "lmf" else m.dtype
    given, other = ("user_factors", "item_factors")[:: gen.pick(rng, [1, -1])]
    F = gen.factors(rng, users if given == "user_factors" else items, w, dt, "normal")[0]
    setattr(m, given, F.copy())
    b = copy.deepcopy(m)
    m.iterations = 0
    m.fit(ui, show_progress=False)
    mon.check(np.array_equal(getattr(m, given), F), "%s: fit replaced the %s assigned to the model" % (kind, given), got=getattr(m, given)[:4])
    G = getattr(m, other)
    want = (items if other == "item_factors" else users, w)
    mon.check(G is not None and G.shape == want and G.dtype == np.dtype(dt) and np.isfinite(G).all() and G.any(),
              "%s: fit with given %s did not initialise the %s" % (kind, given, other), got=None if G is None else G[:4])
    # from there on, it trains like a model that held both
    n = int(rng.integers(1, 4))
    b.iterations = n
    b.fit(ui, show_progress=False)
    mon.check(getattr(b, given).shape == F.shape, "%s: shape of %s changed" % (kind, given))
    if kind == "als":
        m.iterations = n
        m.fit(ui, show_progress=False)
        same(mon, b, m, "als with given %s: %d iterations against initialisation and %d" % (given, n, n), rtol(m) * 5)
    mon.ev(2)
    mon.event("side." + kind)
    mon.nontrivial("side", kind, given, users, items, m.factors)


def history(spec, mon):
    rng = rng_of(spec)
    kind = gen.pick(rng, ["als", "als", "bpr", "lmf"])
    users, items = gen.size(rng, 2, 14, 600), gen.size(rng, 2, 14, 600)
    m = new_model(rng, kind)
    hist = ["fit"]
    ui = data(rng, users, items)
    m.fit(ui, show_progress=False)
    for _ in range(int(rng.integers(1, 6))):
        users, items = len(m.user_factors), len(m.item_factors)
        op = gen.pick(rng, ["fit", "other", "stop", "fail", "ask", "io", "assign", "params"] + ["partial", "partial"] * (kind == "als"))
        if op in ("fit", "other"):
            if op == "other" or ui.shape != (users, items):
                ui = data(rng, users, items)
                mon.event("history.other_data")
            m.fit(ui, show_progress=False)
        elif op == "stop":
            def cb(it, *a):
                raise Stop()

            m.iterations = max(1, m.iterations)
            try:
                m.fit(data(rng, users, items), show_progress=False, callback=cb)
                raise Violation("an exception in the callback was swallowed")
            except Stop:
                mon.event("history.stopped")
        elif op == "fail":
            try:
                m.fit(data(rng, users + int(rng.integers(1, 3)), items), show_progress=False)
                raise Violation("%s: fit accepted a matrix of another shape" % kind)
            except ValueError:
                mon.event("history.failed")
        elif op == "ask":
            ask(rng, kind, m)
        elif op == "io":
            m = through(rng, m)
        elif op == "assign":
            s = gen.pick(rng, ["user_factors", "item_factors"])
            old = getattr(m, s)
            setattr(m, s, gen.factors(rng, *old.shape, old.dtype, "normal")[0])
            mon.event("history.assigned")
        elif op == "params":
            c07.change_params(rng, kind, m)
            if kind == "bpr":
                m.num_threads = 1
        else:
            u = bool(rng.integers(2))
            n, w = (users, items) if u else (items, users)
            ids = rng.permutation(n + 2)[: int(rng.integers(1, 4))]
            (m.partial_fit_users if u else m.partial_fit_items)(ids, gen.matrix(rng, len(ids), w, density=0.5, values="conf"))
            mon.event("history.partial")
        hist.append(op)
    users, items = len(m.user_factors), len(m.item_factors)
    ui = data(rng, users, items)
    c = c07.fresh(kind, m)
    c.random_state = m.random_state
    c.calculate_training_loss = getattr(m, "calculate_training_loss", False)
    last = {}

    def watch(name):
        def cb(it, *a):
            last.setdefault(name, []).append(tuple(a[1:]))
        return cb

    m.fit(ui, show_progress=False, callback=watch("m"))
    c.fit(ui.copy(), show_progress=False, callback=watch("c"))
    same(mon, m, c, "%s: fit after %s against a fresh model given the same factors" % (kind, " > ".join(hist)), rtol(m) * 5)
    if kind == "bpr":
        mon.check(last == {} or last["m"] == last["c"], "bpr: fit after %s: the counts differ from those of a fresh model given the same "
                  "factors" % " > ".join(hist), got=last)
    mon.event("history." + kind)
    mon.nontrivial("history", kind, hist)
    mon.sample(model=kind, history=" > ".join(hist))


def knn(spec, mon):
    rng = rng_of(spec)
    kind = gen.pick(rng, ["item", "cosine", "tfidf", "bm25"])
    cls = gen.knn_classes()[kind]
    K = int(gen.pick(rng, [1, 3, 20, 100]))
    m = cls(K=K, num_threads=int(gen.pick(rng, [0, 1, 2])))
    hist = []
    for _ in range(int(rng.integers(2, 5))):
        ui = gen.nonempty_matrix(rng, gen.size(rng, 1, 12, 300), gen.size(rng, 2, 14, 600), dtype=np.float64)
        m.fit(ui, show_progress=False)
        c = cls(K=K, num_threads=1)
        c.fit(ui.copy(), show_progress=False)
        a, b = m.similarity, c.similarity
        mon.check(a.shape == b.shape and a.nnz == b.nnz and np.allclose(np.sort(a.data), np.sort(b.data), rtol=1e-12, atol=0),
                  "%s(K=%d): refit on a %dx%d matrix after %s gives other similarities than a fresh model" % ((kind, K) + ui.shape + (hist,)))
        row = gen.matrix(rng, 1, ui.shape[1], density=0.5, values="ones", dtype=np.float64, empty=0)
        x, y = m.recommend(0, row, N=5), c.recommend(0, row, N=5)
        mon.check(np.allclose(x[1], y[1], rtol=1e-9, atol=1e-12), "%s: recommend after a refit differs from a fresh model" % kind, got=x, want=y)
        mon.ev(2)
        hist.append(ui.shape)
        if rng.random() < 0.3:
            m = through(rng, m)
    mon.event("knn")
    mon.nontrivial("knn", kind, hist)


def ann(spec, mon):
    rng = rng_of(spec)
    lib = ["annoy", "faiss", "nmslib"][spec["i"] % 3]
    users, items = int(rng.integers(2, 12)), int(rng.integers(20, 60))
    ui = gen.nonempty_matrix(rng, users, items, values="conf", density=0.4, dtype=np.float32, empty=0)
    one = new_model(rng, "als", threads=1)
    inner = copy.deepcopy(one)
    w = annx.wrap(rng, lib, inner, items)
    parts = [int(x) for x in rng.integers(1, 3, int(rng.integers(2, 4)))]
    for n in parts:
        w.model.iterations = n
        w.fit(ui, show_progress=False)
    one.iterations = sum(parts)
    one.fit(ui.copy(), show_progress=False)
    same(mon, w.model, one, "%s: als trained through the wrapper by %s iterations against one fit" % (lib, parts), rtol(one) * 5)
    U, V = w.model.user_factors.astype(float), w.model.item_factors.astype(float)
    for u in range(users):
        ids, sc = w.recommend(u, ui[u], N=5, filter_already_liked_items=False)
        ok = ids >= 0
        true = V[ids[ok]] @ U[u]
        tol = 3e-3 * np.linalg.norm(U[u]) * np.linalg.norm(V, axis=1).max() + 1e-9
        mon.check((np.abs(sc[ok] - true) <= tol).all(), "%s.recommend after a second fit: scores are not those of the current factors" % lib,
                  got=sc, want=true)
        mon.ev()
    mon.event("ann." + lib)
    mon.nontrivial("ann", lib, parts, items)


def run_case(spec, mon):
    {"split": split, "keep": keep, "side": side, "history": history, "knn": knn, "ann": ann}[spec["kind"]](spec, mon)
