"""Builds the tree in /repo into /verif/build/<variant>/<hash>/ (never inside /repo).

Every native module is compiled from the working tree's sources; object files are cached by the
content hash of everything that goes into them, so that nothing stale is ever used.
"""
import concurrent.futures
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys
import sysconfig
import time

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
PY = "/opt/venv/bin/python"

COMMON = ["-std=gnu++11", "-fPIC", "-fopenmp", "-w", "-shared"]
VARIANTS = {
    "plain": ["-O2", "-DNDEBUG"],
    "asan": [
        "-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
        "-fno-sanitize=vptr", "-fsanitize-recover=undefined",
        "-D_GLIBCXX_ASSERTIONS", "-D_GLIBCXX_SANITIZE_VECTOR=1",
    ],
    "tsan": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=thread"],
}
DIRECTIVES = "always_allow_keywords=True,binding=True,embedsignature=True,language_level=3"


class BuildError(Exception):
    pass


def _files():
    top = os.path.join(REPO, "implicit")
    out = []
    for d, dirs, files in os.walk(top):
        dirs[:] = sorted(x for x in dirs if x not in ("__pycache__",))
        for f in sorted(files):
            if f.endswith((".py", ".pyx", ".pxd", ".pxi", ".h", ".hpp")):
                rel = os.path.relpath(os.path.join(d, f), REPO)
                if rel.startswith("implicit/gpu/") and not f.endswith(".py"):
                    continue
                out.append(rel)
    return out


def _sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()


def _read(rel):
    with open(os.path.join(REPO, rel), "rb") as f:
        return f.read()


def _run(cmd, cwd):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout[-4000:]))


def tree_hash():
    files = _files()
    return _sha(*[x for rel in files for x in (rel, _read(rel))])[:20]


def build(variant="plain"):
    """returns a directory to put on sys.path holding the built package"""
    t0 = time.time()
    files = _files()
    contents = {rel: _read(rel) for rel in files}
    tree = _sha(*[x for rel in files for x in (rel, contents[rel])])[:20]
    base = os.path.join(BUILD, variant)
    os.makedirs(base, exist_ok=True)
    pkg = os.path.join(base, "pkg-" + tree)
    lock = open(os.path.join(base, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        if os.path.exists(os.path.join(pkg, ".done")):
            os.utime(os.path.join(pkg, ".done"))
            return pkg
        tmp = pkg + ".tmp"
        shutil.rmtree(tmp, ignore_errors=True)
        for rel, data in contents.items():
            dst = os.path.join(tmp, rel)
            os.makedirs(os.path.dirname(dst), exist_ok=True)
            with open(dst, "wb") as f:
                f.write(data)
        headers = [rel for rel in files if not rel.endswith((".py", ".pyx"))]
        hkey = _sha(*[x for rel in headers for x in (rel, contents[rel])])
        cache = os.path.join(BUILD, "cache")
        os.makedirs(cache, exist_ok=True)
        suffix = sysconfig.get_config_var("EXT_SUFFIX") or ".cpython-312-x86_64-linux-gnu.so"
        inc = "/usr/include/python3.12"

        def one(rel):
            flags = VARIANTS[variant]
            key = _sha(rel, contents[rel], hkey, " ".join(flags + COMMON), DIRECTIVES)[:24]
            so = os.path.join(cache, variant + "-" + key + ".so")
            if not os.path.exists(so):
                ckey = _sha(rel, contents[rel], hkey, DIRECTIVES)[:24]
                cpp = os.path.join(cache, "src-" + ckey + ".cpp")
                if not os.path.exists(cpp):
                    t = cpp + ".%d.tmp.cpp" % os.getpid()
                    _run([PY, "-m", "cython", "--cplus", "-3", "-X", DIRECTIVES, rel, "-o", t], tmp)
                    os.replace(t, cpp)
                t = so + ".%d.tmp" % os.getpid()
                _run(["g++", *COMMON, *flags, "-I" + tmp, "-I" + inc, cpp, "-o", t], tmp)
                os.replace(t, so)
            os.utime(so)
            shutil.copy2(so, os.path.join(tmp, rel[: -len(".pyx")] + suffix))

        pyx = [rel for rel in files if rel.endswith(".pyx")]
        # the slowest first
        pyx.sort(key=lambda r: -len(contents[r]))
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            list(ex.map(one, pyx))
        open(os.path.join(tmp, ".done"), "w").close()
        shutil.rmtree(pkg, ignore_errors=True)
        os.replace(tmp, pkg)
        _prune(base, cache)
        sys.stderr.write("built %s (%s) in %.1fs\n" % (variant, tree, time.time() - t0))
        return pkg
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()


def _prune(base, cache):
    pk = [os.path.join(base, d) for d in os.listdir(base) if d.startswith("pkg-")]
    pk = [(os.path.getmtime(os.path.join(d, ".done")) if os.path.exists(os.path.join(d, ".done")) else 0, d)
          for d in pk]
    now = time.time()
    for m, d in sorted(pk)[:-6]:
        if now - m > 3600:
            shutil.rmtree(d, ignore_errors=True)
    cs = sorted((os.path.getmtime(os.path.join(cache, f)), f) for f in os.listdir(cache))
    for m, f in cs[:-120]:
        if now - m > 3600:
            os.remove(os.path.join(cache, f))


def shim(name, flags=()):
    """compiles native/<name>.c(pp) into build/native, cached by content"""
    for ext in (".c", ".cpp"):
        src = os.path.join(VERIF, "native", name + ext)
        if os.path.exists(src):
            break
    with open(src, "rb") as f:
        key = _sha(f.read(), " ".join(flags))[:16]
    out = os.path.join(BUILD, "native", "%s-%s.so" % (name, key))
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        cc = "gcc" if ext == ".c" else "g++"
        t = out + ".%d.tmp" % os.getpid()
        _run([cc, "-shared", "-fPIC", "-O2", "-g1", "-pthread", *flags, src, "-o", t, "-ldl"], VERIF)
        os.replace(t, out)
    return out


if __name__ == "__main__":
    for v in sys.argv[1:] or list(VARIANTS):
        print(build(v))
