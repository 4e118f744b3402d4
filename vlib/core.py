"""Runs the monitors: shards of seed-derived cases in subprocesses, verdicts, evidence, replay."""
import hashlib
import errno
import importlib
import json
import os
import signal
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
EVIDENCE = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
REPLAY = os.environ.get("VERIF_REPLAY", os.path.join(VERIF, "replay"))
KNOWN = os.path.join(VERIF, "known_findings.txt")


class Violation(Exception):
    def __init__(self, msg, finding=None, **detail):
        super().__init__(msg)
        self.msg, self.finding, self.detail = msg, finding, detail


class Inconclusive(Exception):
    pass


def _short(v, n=1200):
    s = v if isinstance(v, str) else repr(v)
    return s if len(s) <= n else s[: n - 3] + "..."


class Mon:
    """the monitor handed to every case: collects what was observed and judges it"""

    def __init__(self):
        self.evaluations = 0
        self.events = {}
        self.seen = set()
        self.samples = []
        self.maxima = {}

    def ev(self, n=1):
        self.evaluations += n

    def event(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + n

    def maximum(self, name, v):
        v = float(v)
        if v == v and v > self.maxima.get(name, float("-inf")):
            self.maxima[name] = v

    def nontrivial(self, *key):
        self.seen.add(hashlib.sha256(repr(key).encode()).hexdigest()[:16])

    def sample(self, **kw):
        if len(self.samples) < 3:
            self.samples.append({k: _short(v, 300) for k, v in kw.items()})

    def check(self, cond, msg, **detail):
        if not cond:
            raise Violation(msg, **{k: _short(v) for k, v in detail.items()})


RESOURCES = (errno.ENOSPC, errno.EMFILE, errno.ENFILE, errno.ENOMEM, errno.EAGAIN, errno.EDQUOT, errno.EROFS, errno.EIO, errno.EADDRINUSE)


def san_check(mon):
    from vlib import san

    reps = [x for x in san.split(san.new_reports()) if san.relevant(x)]
    if reps:
        raise Violation(san.headline(reps[0]), report=reps[0][:6000])


# ---------------------------------------------------------------- worker side
def worker_main():
    """python -m vlib.worker MODULE SHARD NSHARDS TIER SEED OUT [SPEC]"""
    modname, shard, nshards, tier, seed, out = sys.argv[1:7]
    shard, nshards, seed = int(shard), int(nshards), int(seed)
    only = json.loads(sys.argv[7]) if len(sys.argv) > 7 else None
    import warnings

    warnings.simplefilter("ignore")
    import faulthandler

    faulthandler.enable()
    import numpy as np

    np.seterr(all="ignore")
    from vlib import blas

    blas.install()
    mod = importlib.import_module(modname)
    deadline = float(os.environ.get("VERIF_DEADLINE", "0")) or None
    specs = [only] if only else list(mod.cases(tier, seed))
    mon = Mon()
    res = {"violations": [], "errors": [], "cases": 0, "truncated": 0}
    prog = open(out + ".progress", "w")
    if hasattr(mod, "worker_init"):
        mod.worker_init(tier, seed)
    for i, spec in enumerate(specs):
        if only is None and i % nshards != shard:
            continue
        if deadline and time.time() > deadline:
            res["truncated"] += 1
            continue
        prog.seek(0)
        prog.truncate()
        prog.write(json.dumps(spec))
        prog.flush()
        try:
            mod.run_case(spec, mon)
            if os.environ.get("VERIF_SAN_LOG"):
                san_check(mon)
            res["cases"] += 1
        except Violation as v:
            tb = traceback.format_exc()
            res["violations"].append(
                {"spec": spec, "msg": v.msg, "detail": v.detail, "finding": v.finding, "tb": tb[-3000:]}
            )
            if v.finding is None or len(res["violations"]) > 50:
                break
        except Inconclusive as e:
            res["errors"].append({"spec": spec, "msg": str(e)})
        except (MemoryError, KeyboardInterrupt):
            raise
        except BaseException as e:  # the API failed on a request that has an answer
            if isinstance(e, OSError) and e.errno in RESOURCES:  # or the sandbox did
                res["errors"].append({"spec": spec, "msg": "OSError %s" % e, "tb": traceback.format_exc()[-3000:]})
                break
            res["violations"].append(
                {"spec": spec, "msg": "unexpected %s: %s" % (type(e).__name__, _short(str(e), 400)),
                 "detail": {}, "finding": None, "tb": traceback.format_exc()[-4000:]}
            )
            break
    if blas.calls():
        mon.event("blas_calls_watched", blas.calls())
    if hasattr(mod, "worker_done"):
        mod.worker_done(mon)
    res["mon"] = {
        "evaluations": mon.evaluations, "events": mon.events, "seen": sorted(mon.seen),
        "samples": mon.samples, "maxima": mon.maxima,
    }
    with open(out + ".tmp", "w") as f:
        json.dump(res, f, default=str)
    os.replace(out + ".tmp", out)


# ---------------------------------------------------------------- driver side
def known_findings(prop):
    out = {}
    try:
        with open(KNOWN) as f:
            for line in f:
                line = line.strip()
                if line.startswith("known: property=%s " % prop):
                    rest = line.split(" ", 2)[2]
                    key, _, what = rest.partition(" ")
                    out[key] = what
    except FileNotFoundError:
        pass
    return out


class Runner:
    """one check: several stages (each a build variant + a module), one verdict"""

    def __init__(self, prop, level="exploration", rule="", assumptions=(), need=()):
        self.prop, self.level, self.rule = prop, level, rule
        self.assumptions, self.need = list(assumptions), list(need)
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.t0 = time.time()
        self.evaluations = self.cases = self.truncated = 0
        self.events, self.seen, self.samples, self.maxima = {}, set(), [], {}
        self.violations, self.errors, self.extra = [], [], {}
        self.scratch = os.path.join(VERIF, "build", "run", "%s-%d" % (prop, os.getpid()))
        os.makedirs(self.scratch, exist_ok=True)
        self.budget = float(os.environ.get("VERIF_BUDGET", "330" if self.tier == "quick" else "3000"))

    def env(self, pkg, extra=None):
        env = {k: v for k, v in os.environ.items() if not k.startswith(("PYTHON", "LD_PRELOAD", "OMP_", "GOMP_"))}
        env.update(
            PYTHONPATH=pkg + ":" + VERIF, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1",
            OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", PYTHONFAULTHANDLER="1",
            OMP_WAIT_POLICY="PASSIVE", GOMP_SPINCOUNT="0",
            VERIF_PKG=pkg, VERIF_TIER=self.tier, VERIF_SEED=str(self.seed),
            VERIF_SCRATCH=self.scratch, HOME=self.scratch,
        )
        if extra:
            env.update(extra)
        return env

    def stage(self, module, pkg, shards=8, env=None, timeout=None, crash_is_violation=True, name=None,
              hang_is_violation=False, post=None, prefix=()):
        """runs the cases of `module` against the package in `pkg`"""
        name = name or module.rsplit(".", 1)[-1]
        deadline = self.t0 + self.budget
        timeout = timeout or max(60.0, deadline + 240 - time.time())
        env = self.env(pkg, env)
        env["VERIF_DEADLINE"] = str(deadline)
        env["VERIF_STAGE"] = name
        procs = []
        for s in range(shards):
            out = os.path.join(self.scratch, "%s-%d.json" % (name, s))
            log = open(out + ".log", "w")
            p = subprocess.Popen(
                [*prefix, PY, "-m", "vlib.worker", module, str(s), str(shards), self.tier, str(self.seed), out],
                cwd=self.scratch, env=env, stdout=log, stderr=subprocess.STDOUT, start_new_session=True,
            )
            procs.append((s, p, out, log))
        end = time.time() + timeout
        for s, p, out, log in procs:
            try:
                rc = p.wait(timeout=max(0.1, end - time.time()))
            except subprocess.TimeoutExpired:
                rc = None
            if rc is None:
                stack = ""
                try:
                    os.killpg(p.pid, signal.SIGABRT)  # faulthandler prints the stacks
                    p.wait(5)
                except Exception:
                    pass
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except (ProcessLookupError, PermissionError):
                pass
            p.wait()
            log.close()
            with open(out + ".log", errors="replace") as f:
                text = f.read()
            spec = None
            try:
                with open(out + ".progress") as f:
                    spec = json.loads(f.read() or "null")
            except (OSError, ValueError):
                pass
            self.last_pid = p.pid
            if os.path.exists(out):
                with open(out) as f:
                    res = json.load(f)
                self._merge(res, module, name)
                if post:
                    post(self, module, name, text, spec, rc)
                continue
            if rc is None:
                rec = {"spec": spec, "msg": "no answer within the time limit (case in progress)",
                       "detail": {}, "finding": None, "tb": text[-3000:], "module": module, "stage": name}
                (self.violations if hang_is_violation and spec is not None else self.errors).append(rec)
            elif rc < 0 and rc != -signal.SIGKILL and spec is not None and crash_is_violation:
                self.violations.append(
                    {"spec": spec, "msg": "the process died with signal %d during the case" % -rc,
                     "detail": {}, "finding": None, "tb": text[-4000:], "module": module, "stage": name})
            elif post and post(self, module, name, text, spec, rc):
                pass
            else:
                self.errors.append({"spec": spec, "msg": "worker ended with %s" % rc, "tb": text[-3000:],
                                    "module": module, "stage": name})

    def _merge(self, res, module, name):
        m = res["mon"]
        self.evaluations += m["evaluations"]
        self.cases += res["cases"]
        self.truncated += res["truncated"]
        for k, v in m["events"].items():
            self.events[k] = self.events.get(k, 0) + v
        for k, v in m["maxima"].items():
            self.maxima[k] = max(v, self.maxima.get(k, float("-inf")))
        self.seen.update(m["seen"])
        if len(self.samples) < 6:
            self.samples.extend(m["samples"][:1])
        for v in res["violations"]:
            v["module"], v["stage"] = module, name
            self.violations.append(v)
        for v in res["errors"]:
            v["module"], v["stage"] = module, name
            self.errors.append(v)

    def violation(self, msg, spec=None, detail=None, tb="", module=None, stage=None):
        self.violations.append({"spec": spec, "msg": msg, "detail": detail or {}, "finding": None,
                                "tb": tb, "module": module, "stage": stage})

    def finish(self):
        import shutil

        known = known_findings(self.prop)
        real, seen_known = [], {}
        for v in self.violations:
            if v.get("finding") and v["finding"] in known:
                seen_known[v["finding"]] = v
            else:
                real.append(v)
        missing = [n for n in self.need if not self.events.get(n)]
        wall = time.time() - self.t0
        cov = {
            "evaluations": self.evaluations,
            "distinct_nontrivial": len(self.seen),
            "rule": self.rule,
            "samples": self.samples[:6] or ["none"],
            "cases": self.cases,
            "events_observed": dict(sorted(self.events.items())),
        }
        if self.maxima:
            cov["maxima_observed"] = self.maxima
        if self.truncated:
            cov["cases_not_run_for_lack_of_time"] = self.truncated
        cov.update(self.extra)
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
            "coverage": cov, "assumptions": self.assumptions, "wall_s": round(wall, 2),
            "violations": len(real),
        }
        os.makedirs(EVIDENCE, exist_ok=True)
        with open(os.path.join(EVIDENCE, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
            f.write("\n")
        for k in sorted(seen_known):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, known[k]))
        code = 0
        if real:
            os.makedirs(REPLAY, exist_ok=True)
            for i, v in enumerate(real[:5]):
                path = os.path.join(REPLAY, "%s-%s-%d.json" % (self.prop, self.tier, i))
                with open(path, "w") as f:
                    json.dump({"property": self.prop, "tier": self.tier, "seed": self.seed, **v}, f, indent=1,
                              default=str)
                print("violation: %s [%s %s]" % (v["msg"], v.get("stage"), json.dumps(v.get("spec"))))
                for k, d in (v.get("detail") or {}).items():
                    print("   %s = %s" % (k, _short(d, 500)))
            print("VIOLATION property=%s replay=%s" % (
                self.prop, os.path.join(REPLAY, "%s-%s-0.json" % (self.prop, self.tier))))
            code = 1
        elif self.errors:
            for e in self.errors[:5]:
                print("INCONCLUSIVE: %s [%s] %s" % (e.get("msg"), e.get("module"), json.dumps(e.get("spec"))))
                sys.stderr.write(_short(e.get("tb", ""), 3000) + "\n")
            code = 2
        elif missing or not self.cases:
            print("INCONCLUSIVE: never observed: %s (cases run: %d)" % (", ".join(missing), self.cases))
            code = 2
        else:
            print("held: property=%s tier=%s seed=%d cases=%d evaluations=%d distinct=%d wall=%.1fs" % (
                self.prop, self.tier, self.seed, self.cases, self.evaluations, len(self.seen), wall))
        shutil.rmtree(self.scratch, ignore_errors=True)
        sys.stdout.flush()
        sys.exit(code)


def case_list(seed, **kinds):
    """kinds: name -> count.  Interleaves the kinds so that every shard sees all of them."""
    import zlib

    out = []
    for name, n in kinds.items():
        base = zlib.crc32(name.encode())
        for i in range(n):
            out.append((i / max(n, 1), {"kind": name, "i": i, "seed": [seed, base, i]}))
    out.sort(key=lambda t: (t[0], t[1]["kind"]))
    return [s for _, s in out]


def rng_of(spec):
    import numpy as np

    return np.random.default_rng(spec["seed"])
