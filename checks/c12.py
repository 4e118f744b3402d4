"""C12: concurrent queries give the serial answers."""
import copy
import os
import sys
import threading
import time

import numpy as np

from vlib import annx, build, gen, judge, san
from vlib.core import case_list, rng_of

PROP = "C12"
RULE = ("one case = one model with cold caches and a set of concurrent calls, each compared with the answer a fresh copy "
        "of the model gives serially.  preempt: one call is suspended at every bytecode instruction of implicit's Python "
        "code in turn while another call runs to completion; threads: 2..8 threads with random delays injected at line "
        "granularity; stress: native item-item scoring from 8 threads; tsan: the same mixes under ThreadSanitizer. "
        "distinct by (model, calls, preemption point) or by the hash of the observed line interleaving")
NEED = ["preempt.points", "preempt.first_query", "threads", "threads.first_query", "stress.calls", "tsan.calls",
        "tsan.selftest_race_seen", "q.recommend", "q.similar_items", "q.similar_users", "q.explain", "q.recalculate_user",
        "q.recalculate_item", "q.knn_recommend", "q.knn_similar", "q.batch>100", "q.filter", "q.rank_items", "just_trained", "annoy", "faiss", "nmslib", "failing_call", "yields_injected"]
ASSUMPTIONS = ["preemption points are the bytecode boundaries of implicit's Python code and whatever the OS does inside "
               "native code", "a call may wait for another one (locks), but not forever (60 s)"]
LIMIT = 60.0


def drive(r):
    pkg = build.build("plain")
    r.stage("checks.c12", pkg, name="plain", hang_is_violation=True)
    tp = build.build("tsan")
    r.stage("checks.c12", tp, shards=4, name="tsan", env=san.tsan_env(r, "tsan"), prefix=san.prefix(),
            hang_is_violation=True)


def cases(tier, seed):
    q = tier == "quick"
    if os.environ.get("VERIF_STAGE") == "tsan":
        return case_list(seed, tsan=48 if q else 600)
    return case_list(seed, preempt=200 if q else 3000, threads=500 if q else 6000, stress=16 if q else 120)


def worker_init(tier, seed):
    sys.setswitchinterval(1e-5)


# ------------------------------------------------------------------ models and queries
PARAMS = {"als": ("factors", "regularization", "alpha", "dtype", "num_threads"),
          "bpr": ("factors", "dtype", "num_threads"), "lmf": ("factors", "num_threads")}


ANN = ("annoy", "faiss", "nmslib")


def clone(kind, m):
    """a model with the same state and nothing cached"""
    if kind in PARAMS:
        c = gen.mf_classes()[kind](**{p: getattr(m, p) for p in PARAMS[kind]})
        c.user_factors, c.item_factors = m.user_factors.copy(), m.item_factors.copy()
        return c
    if kind in ANN:
        c = copy.copy(m)
        c.model = clone("als", m.model)
        return c
    import pickle

    return pickle.loads(pickle.dumps(m))


def make(rng, threads=None, big=False, ann=True):
    kind = gen.pick(rng, ["als", "als", "als", "als", "bpr", "lmf", "cosine", "item", gen.pick(rng, ["tfidf", "bm25"]),
                          gen.pick(rng, ANN) if ann else "als"])
    users, items = int(rng.integers(3, 14)), int(rng.integers(3, 16))
    if big:
        users, items = gen.size(rng, 110, 220, 900), gen.size(rng, 30, 90, 400)
    if kind in ANN:
        items = max(items, 8)
        base = annx.fixed_als(rng, users, items, int(rng.integers(2, 5)), style="normal")
        m = annx.wrap(rng, kind, base, items)
        m.fit(gen.nonempty_matrix(rng, users, items), show_progress=False)
        return kind, m, users, items
    if kind in PARAMS:
        kw = dict(regularization=0.5, alpha=float(gen.pick(rng, [1.0, 2.0]))) if kind == "als" else {}
        m = gen.set_model(rng, kind, users, items, int(rng.integers(1, 6)), gen.pick(rng, [np.float32, np.float64]),
                          num_threads=threads, style=gen.pick(rng, ["normal", "sparse", "dups"]), **kw)
        m.user_factors[int(rng.integers(users))] = 0
        m.item_factors[int(rng.integers(items))] = 0
    else:
        m = gen.knn_classes()[kind](K=int(rng.integers(1, 8)), num_threads=1)
        m.fit(gen.nonempty_matrix(rng, users, items, dtype=np.float64), show_progress=False)
    return kind, m, users, items


def query(rng, kind, users, items, mon, big=False):
    N = int(gen.pick(rng, [1, 3, items]))
    if kind not in PARAMS:
        opts = ["knn_recommend", "knn_recommend", "knn_similar", "failing"]
        if kind in ANN:
            mon.event(kind)
        elif rng.random() < 0.1:
            opts = ["rank_items"]
    else:
        opts = ["recommend", "similar_items", "similar_items", "similar_users", "similar_users", "rank_items", "failing"]
        if kind == "als":
            opts += ["recalculate_user", "recalculate_item", "explain", "recommend_recalc", "similar_recalc"]
    name = gen.pick(rng, opts)
    nq = int(rng.integers(1, 4))
    batch = rng.random() < 0.4
    if big and rng.random() < 0.5 and name in ("recommend", "similar_users"):
        nq, batch = int(gen.pick(rng, [100, 101, 150, 240])), True
        mon.event("q.batch>100")
    if not batch:
        nq = 1
    u = rng.integers(0, users, nq)
    i = rng.integers(0, items, nq)
    uid, iid = ([int(x) for x in u], [int(x) for x in i]) if batch else (int(u[0]), int(i[0]))
    rows = gen.matrix(rng, nq, items, density=0.4, values="conf", dtype=np.float64)
    irows = gen.matrix(rng, nq, users, density=0.4, values="conf", dtype=np.float64)
    sel = gen.subset(rng, items) if rng.random() < 0.3 and kind not in ANN else None
    kw, ukw = {"items": sel}, {}
    if sel is None and rng.random() < 0.3:
        kw, ukw = {"filter_items": gen.subset(rng, items)}, {"filter_users": gen.subset(rng, users)}
        mon.event("q.filter")
    elif rng.random() < 0.2:
        ukw = {"users": gen.subset(rng, users)}
    like = bool(rng.random() < 0.8)
    if name != "failing":
        mon.event("q." + name)
    if name in ("recommend", "knn_recommend"):
        return name, lambda m: m.recommend(uid, rows, N=N, filter_already_liked_items=like, **kw)
    if name == "rank_items":
        its = gen.subset(rng, items)
        return name, lambda m: m.rank_items(uid, rows, its)
    if name in ("similar_items", "knn_similar"):
        return name, lambda m: m.similar_items(iid, N=N, **kw)
    if name == "similar_users":
        return name, lambda m: m.similar_users(uid, N=N, **ukw)
    if name == "recalculate_user":
        return name, lambda m: (None, m.recalculate_user(uid, rows))
    if name == "recalculate_item":
        return name, lambda m: (None, m.recalculate_item(iid, irows))
    if name == "recommend_recalc":
        return name, lambda m: m.recommend(uid, rows, N=N, recalculate_user=True, **kw)
    if name == "similar_recalc":
        return name, lambda m: m.similar_items(iid, N=N, recalculate_item=True, item_users=irows, **kw)
    if name == "explain":
        it = int(rng.integers(items))

        def ex(m):
            t, c, _ = m.explain(0, rows, it, N=items)
            d = np.zeros(items)
            for j, s in c:
                d[int(j)] = s
            return None, np.append(d, t)

        return name, ex

    def bad(m):
        try:
            m.recommend(0, rows.tocsc())
        except (ValueError, IndexError) as e:
            mon.event("failing_call")
            return None, np.zeros(1)
        return None, np.ones(1)

    return name, bad


def compare(mon, got, want, what):
    mon.ev()
    if isinstance(got, BaseException):
        mon.check(False, what + ": the call failed with %r" % got)
    if want[0] is None:
        a, b = np.asarray(got[1], float), np.asarray(want[1], float)
        if np.array_equal(a, b):
            return
        sc = max(np.abs(b).max(initial=0), 1e-9)
        mon.check(a.shape == b.shape and np.abs(a - b).max(initial=0) <= 1e-5 * sc, what + ": differs from the serial answer",
                  got=a, serial=b)
        return
    if np.array_equal(got[0], want[0]) and np.array_equal(got[1], want[1]):
        return
    A, B = np.atleast_2d(got[0]), np.atleast_2d(want[0])
    As, Bs = np.atleast_2d(got[1]), np.atleast_2d(want[1])
    mon.check(A.shape == B.shape, what + ": differs from the serial answer in shape", got=got, serial=want)
    for j in range(len(A)):
        v = np.abs(Bs[j].astype(float))
        sc = float(v[v < 1e30].max(initial=0))
        judge.same_answer(mon, (A[j], As[j]), (B[j], Bs[j]), what + ": differs from the serial answer", rtol=1e-5,
                          atol=1e-6 * sc)


def source(rng, mon, kind, m, users, items):
    """a function making the model again: the generated state, or really trained (with whatever training caches)"""
    if kind not in PARAMS or rng.random() < 0.7:
        return lambda: clone(kind, m)
    ui = gen.nonempty_matrix(rng, users, items, values="conf")
    kw = {p: getattr(m, p) for p in PARAMS[kind]}
    s = int(rng.integers(1000))

    def train():
        t = gen.mf_classes()[kind](**dict(kw, num_threads=1), iterations=2, random_state=s)
        t.fit(ui, show_progress=False)
        t.num_threads = kw["num_threads"]
        mon.event("just_trained")
        return t

    return train


# ------------------------------------------------------------------ preemption at every bytecode
class Gate:
    """suspends the traced thread at its k-th instruction inside implicit"""

    def __init__(self, k):
        self.k, self.n = k, 0
        self.paused, self.resume = threading.Event(), threading.Event()
        self.where = None
        self.pkg = os.path.join(os.environ["VERIF_PKG"], "implicit")

    def glob(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(self.pkg):
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
            return self.local
        return None

    def local(self, frame, event, arg):
        if event == "opcode":
            self.n += 1
            if self.n == self.k:
                self.where = (os.path.basename(frame.f_code.co_filename), frame.f_lineno, frame.f_lasti)
                self.paused.set()
                self.resume.wait(LIMIT)
        return self.local


def run_preempted(model, qa, qb, k):
    """-> (answer a, answer b, place or None, hang)"""
    gate = Gate(k)
    out = [None, None]
    done = threading.Event()

    def a():
        sys.settrace(gate.glob)
        try:
            out[0] = qa(model)
        except BaseException as e:  # noqa: B902
            out[0] = e
        finally:
            sys.settrace(None)
            gate.paused.set()

    def b():
        try:
            out[1] = qb(model)
        except BaseException as e:  # noqa: B902
            out[1] = e
        finally:
            done.set()

    ta, tb = threading.Thread(target=a, daemon=True), threading.Thread(target=b, daemon=True)
    ta.start()
    gate.paused.wait(LIMIT)
    tb.start()
    done.wait(0.2)  # b may have to wait for a
    gate.resume.set()
    ta.join(LIMIT)
    tb.join(LIMIT)
    return out[0], out[1], gate.where, ta.is_alive() or tb.is_alive()


def preempt(spec, mon):
    rng = rng_of(spec)
    kind, m, users, items = make(rng, threads=1)
    fresh = source(rng, mon, kind, m, users, items)
    na, qa = query(rng, kind, users, items, mon)
    nb, qb = query(rng, kind, users, items, mon)
    if rng.random() < 0.6:  # calls on the same caches are the interesting ones
        for _ in range(20):
            if nb.split("_")[-1][:4] == na.split("_")[-1][:4]:
                break
            nb, qb = query(rng, kind, users, items, mon)
    nc, qc = query(rng, kind, users, items, mon)
    ser = [q(fresh()) for q in (qa, qb, qc)]
    warm = rng.random() < 0.25
    k, misses = 1, 0
    step = 1 if os.environ["VERIF_TIER"] == "thorough" else int(gen.pick(rng, [1, 2, 3]))
    while k < 3000:
        c = fresh()
        if warm:
            c.similar_items(0)
        else:
            mon.event("preempt.first_query")
        a, b, where, hang = run_preempted(c, qa, qb, k)
        what = "%s: %s suspended at %s while %s runs" % (kind, na, where, nb)
        mon.check(not hang, what + ": a call did not return within %d s" % LIMIT)
        if where is None:
            break
        compare(mon, a, ser[0], what + " (suspended call)")
        compare(mon, b, ser[1], what + " (other call)")
        compare(mon, qc(c), ser[2], what + ", then " + nc)
        mon.event("preempt.points")
        mon.nontrivial(kind, na, nb, where)
        k += step
    mon.sample(case="preempt", model=kind, calls=(na, nb, nc), points=k)


# ------------------------------------------------------------------ random threads
def run_threads(mon, rng, model, plans, delay):
    trace, lock = [], threading.Lock()
    pkg = os.path.join(os.environ["VERIF_PKG"], "implicit")
    bar = threading.Barrier(len(plans))
    out = [[None] * len(p) for p in plans]
    seeds = rng.integers(0, 1 << 30, len(plans))

    def body(t):
        import random

        rr = random.Random(int(seeds[t]))

        def loc(frame, event, arg):
            if event == "line":
                trace.append((t, frame.f_lineno))
                if rr.random() < 0.25:
                    time.sleep(0 if rr.random() < 0.8 else rr.random() * 2e-4)
            return loc

        def glob(frame, event, arg):
            return loc if frame.f_code.co_filename.startswith(pkg) else None

        bar.wait()
        if delay:
            sys.settrace(glob)
        try:
            for i, (name, q) in enumerate(plans[t]):
                try:
                    out[t][i] = q(model)
                except BaseException as e:  # noqa: B902
                    out[t][i] = e
        finally:
            sys.settrace(None)

    ths = [threading.Thread(target=body, args=(t,), daemon=True) for t in range(len(plans))]
    for t in ths:
        t.start()
    end = time.time() + LIMIT
    for t in ths:
        t.join(max(0.1, end - time.time()))
    mon.check(not any(t.is_alive() for t in ths), "concurrent calls did not return within %d s" % LIMIT,
              calls=[[n for n, _ in p] for p in plans])
    if trace:
        mon.event("yields_injected", len(trace) // 4)
        mon.nontrivial("interleaving", trace[:4000])
    return out


def threads(spec, mon):
    rng = rng_of(spec)
    tsan = spec["kind"] == "tsan"
    big = rng.random() < 0.15
    kind, m, users, items = make(rng, threads=gen.pick(rng, [1, 1, 2, 3]), big=big, ann=not tsan)
    fresh = source(rng, mon, kind, m, users, items)
    n = int(rng.integers(2, 9))
    plans = [[query(rng, kind, users, items, mon, big) for _ in range(int(rng.integers(1, 6)))] for _ in range(n)]
    ser = {}
    base = fresh()
    for t, p in enumerate(plans):
        for i, (name, q) in enumerate(p):
            ser[t, i] = q(fresh()) if rng.random() < 0.5 else q(base)
    for rep in range(3):
        c = fresh()
        if rep == 0:
            mon.event("threads.first_query")
        out = run_threads(mon, rng, c, plans, delay=rep != 1 and not tsan)
        for t, p in enumerate(plans):
            for i, (name, q) in enumerate(p):
                compare(mon, out[t][i], ser[t, i], "%s.%s concurrent with %d threads" % (kind, name, n - 1))
        mon.event("tsan.calls" if tsan else "threads", sum(len(p) for p in plans))
    mon.nontrivial(kind, [[x for x, _ in p] for p in plans])


def stress(spec, mon):
    rng = rng_of(spec)
    items = 1500
    ui = gen.nonempty_matrix(rng, 300, items, density=0.05, dtype=np.float64)
    m = gen.knn_classes()[gen.pick(rng, ["cosine", "item"])](K=50, num_threads=4)
    m.fit(ui, show_progress=False)
    rows = [gen.matrix(rng, 1, items, density=0.15, values="ints", dtype=np.float64, empty=0) for _ in range(12)]
    ser = [m.recommend(0, r, N=50) for r in rows]
    plans = []
    for t in range(8):
        p = []
        for _ in range(25):
            j = int(rng.integers(len(rows)))
            p.append((j, lambda mm, j=j: mm.recommend(0, rows[j], N=50)))
        plans.append(p)
    out = run_threads(mon, rng, m, plans, delay=False)
    for t, p in enumerate(plans):
        for i, (j, _) in enumerate(p):
            compare(mon, out[t][i], ser[j], "item-item recommend from 8 threads")
            mon.event("stress.calls")
    mon.nontrivial("stress", spec["i"])


_selftest = []


def run_case(spec, mon):
    k = spec["kind"]
    if k == "tsan" and not _selftest:
        import ctypes

        ctypes.CDLL(None).verif_race_selftest()
        _selftest.append(1)
        if "verif_race_selftest" in san.new_reports():
            mon.event("tsan.selftest_race_seen")
    if k == "tsan" and spec["i"] % 6 == 0:
        return stress(spec, mon)
    {"preempt": preempt, "threads": threads, "stress": stress, "tsan": threads}[k](spec, mon)
