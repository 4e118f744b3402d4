"""sanitizer plumbing: environments, and attribution of reports to the case that was running"""
import glob
import os
import re
import subprocess

from vlib import build

_lib = {}


def _libpath(name):
    if name not in _lib:
        _lib[name] = subprocess.run(["gcc", "-print-file-name=lib%s.so" % name], capture_output=True,
                                    text=True).stdout.strip()
    return os.path.realpath(_lib[name])


def prefix():
    """address-space randomisation can collide with the shadow mappings: switch it off where permitted"""
    r = subprocess.run(["setarch", "x86_64", "-R", "true"], capture_output=True)
    return ["setarch", "x86_64", "-R"] if r.returncode == 0 else []


def asan_env(r, name):
    log = os.path.join(r.scratch, name + "-san")
    # ubsan's runtime writes where its own log_path says
    opts = "log_path=%s:detect_leaks=0:exitcode=99:halt_on_error=1:abort_on_error=0:allocator_may_return_null=1" \
           ":detect_odr_violation=0:detect_stack_use_after_return=0:handle_segv=1:max_free_fill_size=256" \
           ":malloc_fill_byte=203:max_malloc_fill_size=4096" % log
    return {"LD_PRELOAD": _libpath("asan"), "ASAN_OPTIONS": opts,
            "UBSAN_OPTIONS": "log_path=%s:print_stacktrace=1:halt_on_error=0" % log, "VERIF_SAN_LOG": log,
            "VERIF_BLAS": build.shim("blasshim", ("-fsanitize=address", "-O1", "-fno-omit-frame-pointer")),
            "PYTHONMALLOC": "malloc"}


def tsan_env(r, name, shim=True):
    log = os.path.join(r.scratch, name + "-san")
    pre = _libpath("tsan")
    if shim:
        pre += ":" + build.shim("gompshim", ("-fsanitize=thread", "-O1"))
    return {"LD_PRELOAD": pre, "VERIF_SAN_LOG": log,
            "VERIF_BLAS": build.shim("blasshim", ("-fsanitize=thread", "-O1", "-fno-omit-frame-pointer")),
            "TSAN_OPTIONS": "log_path=%s:halt_on_error=0:exitcode=0:report_signal_unsafe=0:history_size=4"
                            ":second_deadlock_stack=0:detect_deadlocks=0" % log}


def shim_env():
    return {"LD_PRELOAD": build.shim("gompshim")}


_seen = {}


def new_reports():
    """text written to this process's sanitizer log since the last call (worker side)"""
    pre = os.environ.get("VERIF_SAN_LOG")
    if not pre:
        return ""
    out = ""
    for p in glob.glob("%s.%d" % (pre, os.getpid())):
        with open(p, errors="replace") as f:
            f.seek(_seen.get(p, 0))
            t = f.read()
            _seen[p] = f.tell()
        out += t
    return out


def split(text):
    """the individual reports in a log"""
    return [t for t in re.split(r"(?m)^={10,}\n|(?=^\S+:\d+:\d+: runtime error:)", text) if t.strip()]


def relevant(rep):
    """a report about the code under test (its modules are compiled from src-<hash>.cpp and implicit/*.h)"""
    if "verif_race_selftest" in rep:
        return False
    return bool(re.search(r"src-[0-9a-f]{24}\.cpp|implicit/[\w/]+\.(h|pyx)|(_nearest_neighbours|evaluation|_als|bpr|lmf|topk)"
                          r"\.cpython", rep))


def headline(rep):
    m = re.search(r"(ERROR: AddressSanitizer: .*|WARNING: ThreadSanitizer: .*|runtime error: .*)", rep)
    where = re.search(r"__pyx_[\w]*?(\d+[a-z_]\w*)|in (\w+)", rep)
    fr = re.findall(r"#\d+ (?:0x[0-9a-f]+ in )?(\S+)", rep)
    fr = [x for x in fr if "pyx" in x or "implicit" in x][:2]
    return (m.group(1) if m else rep.strip().splitlines()[0])[:200] + (" in " + " < ".join(x[:80] for x in fr) if fr else "")


def post_asan(r, module, name, text, spec, rc):
    """called for every shard: a fatal ASan report ends the worker with exit code 99"""
    if rc != 99:
        return False
    reps = ""
    for p in glob.glob(os.path.join(r.scratch, name + "-san.%d" % r.last_pid)):
        with open(p, errors="replace") as f:
            reps += f.read()
    rs = [x for x in split(reps) if "AddressSanitizer" in x]
    r.violation("AddressSanitizer: " + (headline(rs[0]) if rs else "report"), spec=spec, tb=(rs[0] if rs else text)[-6000:],
                module=module, stage=name)
    return True
