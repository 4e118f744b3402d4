"""C14: training is reproducible and independent of thread scheduling."""
import ctypes
import json
import os
import random
import subprocess
import sys

import numpy as np

from vlib import build, gen, san
from vlib.core import case_list, rng_of

PROP = "C14"
RULE = ("one case = one data set, one parameter setting and several trainings which must give the same model.  repeat: "
        "seeds as int, RandomState or Generator, with disturbances in between (global random state, other fits, refits, "
        "queries, another process with another hash seed); threads: libgomp with 1..16 threads; sched: a substitute OpenMP "
        "runtime which hands out loop chunks by adversarial policies and delays threads; tsan: the same under "
        "ThreadSanitizer.  distinct by (model, parameters class, seed kind, thread counts, policies)")
NEED = ["repeat.int", "repeat.RandomState", "repeat.Generator", "disturb.global", "disturb.fit", "disturb.query", "disturb.refit",
        "disturb.process", "threads.als", "threads.knn", "threads.lmf", "sched.als", "sched.knn", "sched.lmf", "sched.bpr",
        "sched.multi_thread_regions", "sched.chunks", "tsan.als", "tsan.knn", "tsan.lmf", "tsan.selftest_race_seen", "als.loss"]
ASSUMPTIONS = ["BLAS runs single threaded (as the package asks for)", "schedules: those of libgomp on 8 cores and of the six "
               "policies of native/gompshim.c, 1..16 threads"]


def drive(r):
    pkg = build.build("plain")
    r.stage("checks.c14", pkg, name="plain")
    r.stage("checks.c14", pkg, name="sched", env=san.shim_env())
    r.stage("checks.c14", build.build("tsan"), shards=6, name="tsan", env=san.tsan_env(r, "tsan"), prefix=san.prefix())


def cases(tier, seed):
    q = tier == "quick"
    s = os.environ.get("VERIF_STAGE")
    if s == "tsan":
        return case_list(seed, tsan=160 if q else 1500)
    if s == "sched":
        return case_list(seed, sched=1200 if q else 9000)
    return case_list(seed, repeat=1200 if q else 8000, threads=800 if q else 6000, process=12 if q else 64)


_lib = None


def omp():
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL(None)
        _lib.verif_omp_stat.restype = ctypes.c_long
    return _lib


# ------------------------------------------------------------------ what is trained
def plan(rng, kinds=("als", "als", "bpr", "lmf", "knn"), small=False, big=False):
    """a JSON-able description of one training"""
    kind = gen.pick(rng, kinds)
    users, items = gen.size(rng, 2, 40, 1200), gen.size(rng, 2, 40, 1200)
    if big:
        users, items = int(gen.pick(rng, [60, 300, 1100])), int(gen.pick(rng, [50, 200, 700]))
    p = {"kind": kind, "users": users, "items": items, "mseed": int(rng.integers(1 << 30)), "rs": int(rng.integers(1 << 31)),
         "iterations": gen.size(rng, 1, 4, 12), "f": int(gen.pick(rng, [1, 2, 5, 17, gen.size(rng, 1, 40, 320, 0.3)]))}
    if kind == "knn":
        p["cls"] = gen.pick(rng, ["item", "cosine", "tfidf", "bm25"])
        p["K"] = int(gen.pick(rng, [1, 3, 20, 120]))
    elif kind == "als":
        p.update(use_cg=bool(rng.integers(2)), use_native=bool(rng.random() < 0.9), regularization=float(gen.pick(rng, [0.1, 1.0])),
                 alpha=float(gen.pick(rng, [1.0, 2.0])), dtype=gen.pick(rng, ["float32", "float64"]),
                 calculate_training_loss=bool(rng.integers(2)))
    elif kind == "bpr":
        p.update(learning_rate=float(gen.pick(rng, [0.01, 0.2])), regularization=float(gen.pick(rng, [0.0, 0.05])),
                 verify_negative_samples=bool(rng.integers(2)), dtype=gen.pick(rng, ["float32", "float64"]))
    else:
        p.update(learning_rate=float(gen.pick(rng, [0.1, 1.0])), regularization=float(gen.pick(rng, [0.1, 0.6])),
                 neg_prop=int(gen.pick(rng, [1, 3, 30])))
    return p


def data_of(p):
    rng = np.random.default_rng(p["mseed"])
    return gen.nonempty_matrix(rng, p["users"], p["items"], values="conf", density=gen.pick(rng, [0.05, 0.2, 0.5]),
                               dtype=np.float64 if p["kind"] == "knn" else np.float32)


def rs_of(p, rskind):
    if rskind == "RandomState":
        return np.random.RandomState(p["rs"])
    if rskind == "Generator":
        return np.random.default_rng(p["rs"])
    return p["rs"]


def make(p, threads, rskind="int"):
    if p["kind"] == "knn":
        return gen.knn_classes()[p["cls"]](K=p["K"], num_threads=threads)
    kw = {k: p[k] for k in ("use_cg", "use_native", "regularization", "alpha", "learning_rate", "verify_negative_samples",
                            "neg_prop", "calculate_training_loss") if k in p}
    if "dtype" in p:
        kw["dtype"] = np.dtype(p["dtype"])
    return gen.mf_classes()[p["kind"]](factors=p["f"], iterations=p["iterations"], num_threads=threads,
                                       random_state=rs_of(p, rskind), **kw)


def train(p, threads, rskind="int", ui=None, again=0, inside=None):
    from implicit.utils import check_random_state  # noqa: F401  (import cost outside of the measured part)

    m = make(p, threads, rskind)
    ui = data_of(p) if ui is None else ui
    losses = []

    def cb(it, t, *extra):
        losses.append([float(x) for x in extra if x is not None])
        if inside:
            inside()

    for _ in range(1 + again):
        if p["kind"] == "knn":
            m.fit(ui, show_progress=False)
        else:
            m.fit(ui, show_progress=False, callback=cb)
    return m, losses


def state(p, m):
    if p["kind"] == "knn":
        s = m.similarity.tocsr(copy=True)
        s.sort_indices()
        return [s.indptr, s.indices, s.data]
    return [m.user_factors, m.item_factors]


def same(mon, p, a, b, what, **detail):
    """a, b: (model, trace)"""
    exact = p["kind"] != "als"
    mon.ev()
    for x, y in zip(state(p, a[0]), state(p, b[0])):
        if x.shape == y.shape and x.dtype == y.dtype and x.tobytes() == y.tobytes():
            continue
        mon.event("not_bitwise")
        ok = x.shape == y.shape and x.dtype == y.dtype
        if ok and not exact:
            x, y = np.asarray(x, float), np.asarray(y, float)
            sc = max(np.abs(x).max(initial=0), 1e-30)
            d = np.abs(x - y).max(initial=0) / sc
            mon.maximum("als_relative_difference", d)
            ok = d <= (2e-3 if p["dtype"] == "float32" else 1e-8)
        elif ok:
            ok = np.array_equal(x, y, equal_nan=True)
        mon.check(ok, "%s: two trainings with the same data, parameters and seed give different models (%s)" % (p["kind"], what),
                  plan=p, first=x, second=y, **detail)
    la, lb = a[1], b[1]
    ok = len(la) == len(lb) and all(len(x) == len(y) for x, y in zip(la, lb))
    if ok and la and la[0]:
        mon.event(p["kind"] + ".loss")
        x, y = np.array(la), np.array(lb)
        tol = (1e-3 * np.abs(x) + 1e-6) if p["kind"] == "als" else 0
        ok = bool((np.abs(x - y) <= tol).all()) or x.tobytes() == y.tobytes()
    mon.check(ok, "%s: the values reported to the callback differ between two equal trainings (%s)" % (p["kind"], what), plan=p,
              first=la, second=lb)


# ------------------------------------------------------------------ disturbances between the two trainings
def disturb(rng, mon, ui, what=None):
    what = what or gen.pick(rng, ["global", "fit", "query", "global"])
    mon.event("disturb." + what)
    if what == "global":
        np.random.seed(int(rng.integers(1 << 31)))
        random.seed(int(rng.integers(1 << 31)))
        np.random.random(int(rng.integers(1, 9)))
    elif what == "fit":
        q = plan(rng)
        train(q, int(gen.pick(rng, [1, 2])))
    else:
        q = plan(rng, kinds=("als",))
        m, _ = train(q, 2)
        m.recommend(0, data_of(q)[0])
        m.similar_items(0)
        m.similar_users([0, 1])


def repeat(spec, mon):
    rng = rng_of(spec)
    p = plan(rng)
    rk = gen.pick(rng, ["int", "RandomState", "Generator"])
    if p["kind"] != "knn":
        mon.event("repeat." + rk)
    thr = 1 if p["kind"] == "bpr" else int(gen.pick(rng, [0, 1, 2, 5]))
    ui = data_of(p)
    np.random.seed(int(rng.integers(1 << 31)))
    again = 0
    if rng.random() < 0.25:
        again = 1
        mon.event("disturb.refit")
    one = train(p, thr, rk, ui, again)
    for _ in range(int(rng.integers(1, 3))):
        disturb(rng, mon, ui)
    two = train(p, thr, rk, ui, again)
    same(mon, p, one, two, "random_state as %s, %d threads" % (rk, thr))

    # the global random state being touched from inside the training
    def inside():
        np.random.seed(7)
        np.random.random(3)

    three = train(p, thr, rk, ui, again, inside)
    same(mon, p, one, three, "a callback that uses numpy.random")
    mon.nontrivial("repeat", p["kind"], rk, thr, again, p["f"], p["iterations"])
    mon.sample(plan=p, random_state=rk, threads=thr)


def threads(spec, mon):
    rng = rng_of(spec)
    p = plan(rng, kinds=("als", "als", "knn", "lmf"), big=rng.random() < 0.3)
    mon.event("threads." + p["kind"])
    ui = data_of(p)
    if p["kind"] == "lmf":
        t = int(rng.integers(1, 17))
        ref = train(p, t, ui=ui)
        ts = [t, t, t]
    else:
        ref = train(p, 1, ui=ui)
        ts = [int(x) for x in rng.choice([0, 2, 3, 4, 7, 8, 16], 3, replace=False)]
    for t in ts:
        same(mon, p, ref, train(p, t, ui=ui), "%d threads" % t)
        mon.nontrivial("threads", p["kind"], t, p["f"], p["users"] > 50)


def process(spec, mon):
    """the same training in two other processes with other hash seeds and environments"""
    rng = rng_of(spec)
    outs = []
    p = plan(rng)
    for h in ("0", str(int(rng.integers(1, 1 << 30)))):
        env = dict(os.environ, PYTHONHASHSEED=h, OMP_DYNAMIC="false")
        r = subprocess.run([sys.executable, "-m", "checks.c14", json.dumps(p)], env=env, capture_output=True, text=True,
                           timeout=120)
        mon.check(r.returncode == 0, "training in a new process failed", stderr=r.stderr[-2000:], plan=p)
        outs.append(r.stdout)
    mon.event("disturb.process")
    mon.ev()
    mon.check(outs[0] == outs[1], "%s: two processes train different models from the same seed" % p["kind"], plan=p)
    mon.nontrivial("process", p["kind"], p["f"])


# ------------------------------------------------------------------ adversarial schedules
def sched(spec, mon, tsan=False):
    rng = rng_of(spec)
    lib = omp()
    kinds = ("als", "als", "knn", "lmf") if tsan else ("als", "als", "als", "knn", "knn", "lmf", "bpr")
    p = plan(rng, kinds=kinds, big=not tsan and rng.random() < 0.2)
    if p["kind"] == "als":
        p["use_native"] = True
    ui = data_of(p)
    st = "tsan" if tsan else "sched"
    mon.event("%s.%s" % (st, p["kind"]))
    base = [lib.verif_omp_stat(i) for i in range(5)]
    t0 = 1
    if p["kind"] == "lmf":
        t0 = int(rng.integers(2, 9))
    lib.verif_omp_config(1, 0, 4)
    ref = train(p, t0, ui=ui)
    for _ in range(2 if tsan else 4):
        pol = int(rng.integers(0, 6)) + (8 if rng.random() < (0.1 if tsan else 0.3) else 0)
        dflt = int(gen.pick(rng, [2, 3, 5, 8]))
        lib.verif_omp_config(int(rng.integers(1 << 31)), pol, dflt)
        t = t0 if p["kind"] in ("lmf", "bpr") else int(gen.pick(rng, [0, 2, 3, 4, 8, 16][: 4 if tsan else 6]))
        got = train(p, t, ui=ui)
        same(mon, p, ref, got, "OpenMP policy %d, %d threads" % (pol, t), default_threads=dflt)
        mon.nontrivial(st, p["kind"], pol, t, dflt, p.get("use_cg"), p["f"])
    d = [lib.verif_omp_stat(i) - b for i, b in zip(range(5), base)]
    for n, x in zip(("regions", "chunks", "barriers", "delays", "multi_thread_regions"), d):
        mon.event("%s.%s" % (st, n), x)


def worker_init(tier, seed):
    if os.environ.get("VERIF_STAGE") == "tsan":
        omp().verif_race_selftest()


def worker_done(mon):
    pass


_self = [False]


def run_case(spec, mon):
    k = spec["kind"]
    if k == "tsan":
        if not _self[0]:
            # the race of the self test (run by worker_init) must have been reported: the monitor is alive
            txt = san.new_reports()
            if "verif_race_selftest" in txt:
                mon.event("tsan.selftest_race_seen")
            _self[0] = True
        return sched(spec, mon, tsan=True)
    return {"repeat": repeat, "threads": threads, "process": process, "sched": sched}[k](spec, mon)


if __name__ == "__main__":
    import hashlib
    import warnings

    warnings.simplefilter("ignore")
    P = json.loads(sys.argv[1])
    M, L = train(P, 1)
    print(hashlib.sha256(b"".join(np.ascontiguousarray(x).tobytes() for x in state(P, M)) + repr(L).encode()).hexdigest())
