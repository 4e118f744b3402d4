"""C24: interrupted dataset downloads are never mistaken for data."""
import http.client
import io
import os
import resource
import shutil
import signal
import socket
import struct
import sys
import tempfile
import threading
import time
import urllib.request

import numpy as np
import scipy.sparse as sp

from vlib import gen
from vlib.core import Inconclusive, Violation, case_list, rng_of

PROP = "C24"
RULE = ("one case = one dataset loader, a loopback server speaking HTTP with scripted faults, and a scratch cache directory: one to three "
        "faulty downloads (or a process killed at a chosen executed line, stalled byte or full disk), then a call that must return the "
        "complete data, then one that must do so without the network.  distinct by (loader, fault kinds, position of the fault)")
KINDS = ["refused", "status", "truncated", "chunked_truncated", "reset", "no_answer", "redirect_broken", "garbage", "timeout"]
NEED = ["fault." + k for k in KINDS] + ["kill.line", "kill.stall", "int.stall", "term.stall", "disk_full", "concurrent", "threads", "roundtrip", "recovered", "cached",
                                        "chunked", "redirect", "left.part", "left.nothing", "left.complete", "sequence>1"] + \
    ["movielens", "lastfm", "reddit", "sketchfab", "msd", "variants"]
ASSUMPTIONS = ["the server announces the length of the body or sends it chunked (a truncated body of unknown length is not recognisable)",
               "the last row and column of the stored matrix are not empty (the file format does not keep the shape)"]


def cases(tier, seed):
    q = tier == "quick"
    return case_list(seed, fault=1200 if q else 12000, line=1200 if q else 12000, stall=96 if q else 1000, disk=160 if q else 1600, concurrent=60 if q else 600, threads=120 if q else 1200,
                     roundtrip=400 if q else 4000)


# ------------------------------------------------------------------ datasets
def loaders():
    from implicit.datasets import lastfm, million_song_dataset, movielens, reddit, sketchfab

    out = {"movielens_%s.hdf5" % v: ("movielens", lambda v=v: movielens.get_movielens(v), "movie_user_ratings", ["movie"], True)
           for v in ("20m", "10m", "1m", "100k")}
    out["lastfm_360k.hdf5"] = ("lastfm", lastfm.get_lastfm, "artist_user_plays", ["artist", "user"], True)
    out["reddit.hdf5"] = ("reddit", reddit.get_reddit, "item_user_ratings", [], True)
    out["sketchfab.hdf5"] = ("sketchfab", sketchfab.get_sketchfab, "item_user_likes", ["item", "user"], False)
    out["msd_taste_profile.hdf5"] = ("msd", million_song_dataset.get_msd_taste_profile, "track_user_plays", ["track", "user"], False)
    return out


def make_file(rng, name, big=True):
    """a dataset file -> (bytes, labels, matrix)"""
    import h5py

    _, _, group, labels, text = loaders()[name]
    rows, cols = gen.size(rng, 3, 60, 600), gen.size(rng, 3, 40, 600)
    m = gen.matrix(rng, rows, cols, density=0.3, values=gen.pick(rng, ["floats", "floats", "signed", "ints"])).tolil()
    m[rows - 1, cols - 1] = 3
    m = m.tocsr()
    r = rng.random()
    if r < 0.3:
        m = m.astype(np.float64)
        m.data *= float(gen.pick(rng, [1, 1e-9, 1e12]))
    elif r < 0.5:
        m = m.astype(gen.pick(rng, [np.int32, np.int64]))
        m.data[m.data == 0] = 1
        m.data *= int(gen.pick(rng, [1, 100, 100000]))
    buf = io.BytesIO()
    lab = []
    with h5py.File(buf, "w") as f:
        g = f.create_group(group)
        g.create_dataset("data", data=m.data)
        g.create_dataset("indptr", data=m.indptr)
        g.create_dataset("indices", data=m.indices)
        for k, n in zip(labels, (rows, cols)):
            names = ["%s %d %s" % (k, i, "é✓ü"[int(rng.integers(3))] * int(rng.integers(3))) for i in range(n)]
            if name.startswith("msd") and k == "track":
                a = np.array([[s, "artist", "album", "söng %d" % i] for i, s in enumerate(names)], dtype=object)
                f.create_dataset(k, a.shape, dtype=h5py.special_dtype(vlen=str))[:] = a
                names = a.tolist()
            else:
                f.create_dataset(k, (n,), dtype=h5py.special_dtype(vlen=str))[:] = names
            lab.append(names)
        if big:  # several blocks of the transfer
            f.create_dataset("padding", data=np.frombuffer(rng.bytes(int(rng.integers(8000, 30000))), dtype=np.uint8))
    return buf.getvalue(), lab, m


def text_of(a):
    a = np.asarray(a)
    return [text_of(x) if np.ndim(x) else (x.decode("utf8") if isinstance(x, bytes) else str(x)) for x in a]


def check_result(mon, out, data, what):
    _, lab, m = data
    out = out if isinstance(out, tuple) else (out,)
    x = out[-1]
    mon.check(sp.issparse(x) and x.shape == m.shape, what + ": another matrix", got=getattr(x, "shape", None), want=m.shape)
    x = x.tocsr()
    mon.check(np.array_equal(x.indptr, m.indptr) and np.array_equal(x.indices, m.indices) and np.array_equal(x.data, m.data) and x.dtype == m.dtype,
              what + ": the matrix is not the stored one")
    mon.check(len(out) == 1 + len(lab), what + ": %d results" % len(out))
    for got, want in zip(out, lab):
        mon.check(text_of(got) == want, what + ": other labels", got=text_of(got)[:3], want=want[:3])
    mon.ev()


# ------------------------------------------------------------------ server
class Server:
    """one response script per connection; the default is the complete file"""

    def __init__(self, files):
        self.files, self.script, self.requests, self.stalled = files, [], [], threading.Event()
        self.release = threading.Event()
        self.lock = threading.Lock()
        self.sock = socket.socket()
        self.sock.bind(("127.0.0.1", 0))
        self.sock.listen(16)
        self.port = self.sock.getsockname()[1]
        self.up = True
        threading.Thread(target=self.loop, daemon=True).start()

    def loop(self):
        while True:
            try:
                c, _ = self.sock.accept()
            except OSError:
                return
            threading.Thread(target=self.serve, args=(c,), daemon=True).start()

    def serve(self, c):
        try:
            c.settimeout(20)
            req = b""
            while b"\r\n\r\n" not in req:
                d = c.recv(4096)
                if not d:
                    return
                req += d
            path = req.split(b" ")[1].decode()
            with self.lock:
                self.requests.append(path)
                step = self.script.pop(0) if self.script else ("ok",)
            self.respond(c, path, step)
        except OSError:
            pass
        finally:
            try:
                c.close()
            except OSError:
                pass

    def respond(self, c, path, step):
        kind = step[0]
        body = self.files.get(path.rsplit("/", 1)[-1])
        if body is None:
            c.sendall(b"HTTP/1.1 404 Not Found\r\nContent-Length: 0\r\nConnection: close\r\n\r\n")
            return
        head = b"HTTP/1.1 200 OK\r\nContent-Type: application/octet-stream\r\nConnection: close\r\n"
        length = b"Content-Length: %d\r\n\r\n" % len(body)
        if kind == "ok":
            c.sendall(head + length + body)
        elif kind == "chunked":
            c.sendall(head + b"Transfer-Encoding: chunked\r\n\r\n")
            for i in range(0, len(body), 5000):
                p = body[i: i + 5000]
                c.sendall(b"%x\r\n" % len(p) + p + b"\r\n")
            c.sendall(b"0\r\n\r\n")
        elif kind == "redirect":
            c.sendall(b"HTTP/1.1 302 Found\r\nLocation: https://objects.example/x%s\r\nContent-Length: 0\r\nConnection: close\r\n\r\n" % path.encode())
        elif kind == "redirect_broken":
            c.sendall(b"HTTP/1.1 302 Found\r\nLocation: https://objects.example/gone/nothing\r\nContent-Length: 0\r\nConnection: close\r\n\r\n")
        elif kind == "status":
            page = b"<html>sorry</html>"
            c.sendall(b"HTTP/1.1 %d Error\r\nContent-Length: %d\r\nConnection: close\r\n\r\n" % (step[1], len(page)) + page)
        elif kind == "truncated":
            c.sendall(head + length + body[: step[1]])
        elif kind == "chunked_truncated":
            c.sendall(head + b"Transfer-Encoding: chunked\r\n\r\n%x\r\n" % len(body) + body[: step[1]])
        elif kind == "reset":
            c.sendall(head + length + body[: step[1]])
            time.sleep(0.01)
            c.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
        elif kind == "no_answer":
            pass
        elif kind == "garbage":
            c.sendall(b"\x00\x01nonsense\r\n\r\n")
        elif kind == "hold":  # (at, reached, go, complete)
            c.sendall(head + length + body[: step[1]])
            step[2].set()
            step[3].wait(30)
            if step[4]:
                c.sendall(body[step[1]:])
        elif kind in ("stall", "timeout"):
            c.sendall(head + length + body[: step[1]])
            self.stalled.set()
            self.release.wait(20)
            if kind == "stall" and step[2:]:
                c.sendall(body[step[1]:])

    def close(self):
        self.release.set()
        # shutdown wakes the thread blocked in accept, so that the port really closes
        try:
            self.sock.shutdown(socket.SHUT_RDWR)
        except OSError:
            pass
        self.sock.close()


PORT = [0, 20.0]


class ToLoopback(urllib.request.HTTPSHandler):
    """every https request goes to the loopback server"""

    def https_open(self, req):
        return self.do_open(lambda host, **kw: http.client.HTTPConnection("127.0.0.1", PORT[0], timeout=PORT[1]), req)


def worker_init(tier, seed):
    urllib.request.install_opener(urllib.request.build_opener(urllib.request.ProxyHandler({}), ToLoopback()))
    loaders()


class Bench:
    def __init__(self, rng, mon, names=None, big=True):
        from implicit.datasets import _download

        self.dir = tempfile.mkdtemp(dir=os.environ["VERIF_SCRATCH"])
        self.rng, self.mon = rng, mon
        os.environ["HOME"] = self.dir
        os.environ["TMPDIR"] = os.path.join(self.dir, "tmp")
        os.mkdir(os.environ["TMPDIR"])
        tempfile.tempdir = None
        _download.LOCAL_CACHE_DIR = os.path.join(self.dir, "implicit_datasets")
        self.cache = _download.LOCAL_CACHE_DIR
        self.L = loaders()
        self.names = names or [gen.pick(rng, sorted(self.L))]
        self.data = {n: make_file(rng, n, big) for n in self.names}
        for n in self.names:
            mon.event(self.L[n][0])
        self.server = Server({n: d[0] for n, d in self.data.items()})
        self.reopen()

    def reopen(self):
        PORT[0], PORT[1] = self.server.port, 20.0

    def refuse(self):
        if not hasattr(self, "closed"):  # bound and not listening: connections are refused and nobody else gets the port
            self.closed = socket.socket()
            self.closed.bind(("127.0.0.1", 0))
        PORT[0] = self.closed.getsockname()[1]

    def call(self, name):
        """-> (result, None) or (None, exception)"""
        err = sys.stderr
        sys.stderr = io.StringIO()
        try:
            return self.L[name][1](), None
        except (Exception, KeyboardInterrupt) as e:
            return None, e
        finally:
            sys.stderr = err

    def child(self, fn):
        """runs fn in a forked process; -> pid"""
        pid = os.fork()
        if pid == 0:
            try:
                signal.signal(signal.SIGINT, signal.default_int_handler)
                signal.signal(signal.SIGTERM, signal.SIG_DFL)
                os.close(2)
                os.open(os.devnull, os.O_WRONLY)
                sys.stderr = io.StringIO()
                fn()
                os._exit(0)
            except BaseException:
                os._exit(3)
        return pid

    def wait(self, pid):
        end = time.time() + 60
        while time.time() < end:
            p, st = os.waitpid(pid, os.WNOHANG)
            if p:
                return st
            time.sleep(0.002)
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        raise Inconclusive("a download did not end within 60 s")

    def left(self, name):
        """what a fault left in the cache"""
        p = os.path.join(self.cache, name)
        others = [f for f in os.listdir(self.cache)] if os.path.isdir(self.cache) else []
        if os.path.isfile(p):
            with open(p, "rb") as f:
                b = f.read()
            self.mon.event("left.complete" if b == self.data[name][0] else "left.partial")
        elif others:
            self.mon.event("left.part")
        else:
            self.mon.event("left.nothing")

    def recover(self, name, what, after_ok=False):
        """the next call downloads what is missing, the one after it needs no network"""
        mon = self.mon
        self.server.script.clear()
        self.server.release.set()
        self.left(name)
        if self.rng.random() < 0.25:
            k = gen.pick(self.rng, ["chunked", "redirect"])
            self.server.script.append((k,))
            mon.event(k)
        self.reopen()
        n = len(self.server.requests)
        out, e = self.call(name)
        mon.check(e is None, "after %s the next call fails: %s: %s" % (what, type(e).__name__, e))
        check_result(mon, out, self.data[name], "the call after %s" % what)
        if len(self.server.requests) > n:
            mon.event("recovered")
        n = len(self.server.requests)
        self.refuse()
        out, e = self.call(name)
        mon.check(e is None, "after %s and a download the dataset is not cached: %s" % (what, e))
        check_result(mon, out, self.data[name], "the cached dataset after %s" % what)
        mon.check(len(self.server.requests) == n, "the cached dataset is requested again after %s" % what)
        mon.event("cached")

    def close(self):
        self.server.close()
        if hasattr(self, "closed"):
            self.closed.close()
        shutil.rmtree(self.dir, ignore_errors=True)
        tempfile.tempdir = None


def offsets(rng, n):
    return int(gen.pick(rng, [0, 1, 100, 8191, 8192, 8193, 16384, n // 2, n - 8193, n - 1, int(rng.integers(n))])) % n


def fault_case(spec, mon):
    rng = rng_of(spec)
    b = Bench(rng, mon)
    try:
        name = b.names[0]
        n = len(b.data[name][0])
        kinds = []
        for _ in range(int(gen.pick(rng, [1, 1, 1, 2, 3]))):
            k = KINDS[(spec["i"] + len(kinds)) % len(KINDS)]
            kinds.append(k)
            mon.event("fault." + k)
            if k == "refused":
                b.refuse()
            else:
                b.reopen()
                at = offsets(rng, n)
                b.server.release.clear()
                b.server.script[:] = [{"status": ("status", int(gen.pick(rng, [403, 404, 500, 503]))), "truncated": ("truncated", at),
                                       "chunked_truncated": ("chunked_truncated", at), "reset": ("reset", at), "no_answer": ("no_answer",),
                                       "redirect_broken": ("redirect_broken",), "garbage": ("garbage",), "timeout": ("timeout", at)}[k]]
                if k == "timeout":
                    PORT[1] = 0.05
            what = "%s (%s)" % (name, "+".join(kinds))
            out, e = b.call(name)
            b.server.release.set()
            if e is None:  # whatever is returned must be the data
                check_result(mon, out, b.data[name], "a download with the fault " + what)
            mon.ev()
        if len(kinds) > 1:
            mon.event("sequence>1")
        b.recover(name, what)
        mon.nontrivial(name, kinds, spec["i"])
        mon.sample(loader=name, faults=kinds, size=n)
    finally:
        b.close()


FILES = ("/implicit/datasets/", "/urllib/request.py", "/shutil.py")
LINES = {}


def traced(b, name, k, fd=None):
    """runs the loader, ending the process at the k-th line executed in the download code"""
    count = 0

    def local(frame, event, arg):
        nonlocal count
        if event in ("line", "return"):
            count += 1
            if count == k:
                os.kill(os.getpid(), signal.SIGKILL)
        return local

    def tracer(frame, event, arg):
        f = frame.f_code.co_filename
        return local if any(x in f for x in FILES) else None

    sys.settrace(tracer)
    try:
        b.L[name][1]()
    finally:
        sys.settrace(None)
        if fd is not None:
            os.write(fd, b"%d" % count)


def line_case(spec, mon):
    rng = rng_of(spec)
    b = Bench(rng, mon, big=bool(rng.random() < 0.7))
    try:
        name = b.names[0]
        if name not in LINES:
            r, w = os.pipe()
            st = b.wait(b.child(lambda: traced(b, name, -1, w)))
            os.close(w)
            LINES[name] = int(os.read(r, 100) or b"0")
            os.close(r)
            mon.check(st == 0, "a download without faults failed", loader=name)
            shutil.rmtree(b.cache, ignore_errors=True)
            b.server.requests.clear()
        total = LINES[name]
        mon.maximum("lines_of_a_download", total)
        # from the last lines (where the file is put in place) as well as from anywhere
        k = int(total - rng.integers(0, 60)) if rng.random() < 0.4 else int(rng.integers(1, total + 1))
        k = max(1, k)
        if rng.random() < 0.2:
            b.server.script.append(("truncated", offsets(rng, len(b.data[name][0]))))
        st = b.wait(b.child(lambda: traced(b, name, k)))
        if os.WIFSIGNALED(st):
            mon.event("kill.line")
        b.recover(name, "a process killed at executed line %d of downloading %s" % (k, name))
        mon.nontrivial("line", name, k)
        mon.sample(loader=name, line=k, of=total)
    finally:
        b.close()


def stall_case(spec, mon):
    rng = rng_of(spec)
    b = Bench(rng, mon)
    try:
        name = b.names[0]
        n = len(b.data[name][0])
        sig = [("kill", signal.SIGKILL), ("int", signal.SIGINT), ("term", signal.SIGTERM)][spec["i"] % 3]
        at = offsets(rng, n)
        b.server.script.append(("stall", at))
        pid = b.child(lambda: b.L[name][1]())
        if not b.server.stalled.wait(30):
            os.kill(pid, signal.SIGKILL)
            b.wait(pid)
            raise Inconclusive("the download did not reach the stall")
        # let the client take what was sent
        time.sleep(float(rng.random()) * 0.05)
        os.kill(pid, sig[1])
        time.sleep(0.05)
        if sig[1] == signal.SIGINT:
            # the interrupt is delivered in the middle of the read
            b.server.release.set()
        b.wait(pid)
        mon.event(sig[0] + ".stall")
        b.recover(name, "a process ended by %s after %d of %d bytes of %s" % (sig[0], at, n, name))
        mon.nontrivial("stall", sig[0], name, at)
    finally:
        b.close()


def disk_case(spec, mon):
    """writing fails beyond a number of bytes"""
    rng = rng_of(spec)
    b = Bench(rng, mon)
    try:
        name = b.names[0]
        n = len(b.data[name][0])
        at = max(1, offsets(rng, n))

        def limited():
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (at, at))
            b.L[name][1]()

        b.wait(b.child(limited))
        mon.event("disk_full")
        b.recover(name, "a full disk after %d of %d bytes of %s" % (at, n, name))
        mon.nontrivial("disk", name, at)
    finally:
        b.close()


def concurrent_case(spec, mon):
    """two processes download the same dataset, one of them with a fault"""
    rng = rng_of(spec)
    b = Bench(rng, mon)
    try:
        name = b.names[0]
        n = len(b.data[name][0])
        at = offsets(rng, n)
        b.server.script += [("stall", at), gen.pick(rng, [("ok",), ("truncated", offsets(rng, n)), ("reset", offsets(rng, n)), ("status", 500)])]
        first = b.child(lambda: b.L[name][1]())
        if not b.server.stalled.wait(30):
            os.kill(first, signal.SIGKILL)
            b.wait(first)
            raise Inconclusive("the download did not reach the stall")
        out, e = b.call(name)  # while the first is half way
        if e is None:
            check_result(mon, out, b.data[name], "a call during another process's download")
        if rng.random() < 0.5:
            os.kill(first, signal.SIGKILL)
        b.server.release.set()
        b.wait(first)
        mon.event("concurrent")
        b.recover(name, "two concurrent downloads of %s" % name)
        mon.nontrivial("concurrent", name, at)
    finally:
        b.close()


def threads_case(spec, mon):
    """two threads of one process download the same dataset; each is halfway when the other ends"""
    rng = rng_of(spec)
    b = Bench(rng, mon)
    try:
        name = b.names[0]
        n = len(b.data[name][0])
        get, err = b.L[name][1], sys.stderr
        ev = [[threading.Event(), threading.Event()] for _ in range(2)]
        fails = [False, False]
        if rng.random() < 0.4:
            fails[int(rng.integers(2))] = True
        out, th = [None, None], []

        def one(k):
            try:
                out[k] = (get(), None)
            except Exception as e:
                out[k] = (None, e)

        sys.stderr = io.StringIO()
        try:
            for k in range(2):
                b.server.script.append(("hold", offsets(rng, n), ev[k][0], ev[k][1], not fails[k]))
                th.append(threading.Thread(target=one, args=(k,), daemon=True))
                th[k].start()
                if not ev[k][0].wait(30):
                    raise Inconclusive("the download did not reach the hold")
                time.sleep(float(rng.random()) * 0.02)
            order = [0, 1] if rng.random() < 0.5 else [1, 0]
            for k in order:
                ev[k][1].set()
                th[k].join(60)
                if out[k] is None:
                    raise Inconclusive("a download did not end")
                what = "a download of %s during another thread's" % name
                if out[k][1] is None:
                    check_result(mon, out[k][0], b.data[name], what)
                else:
                    mon.check(fails[k], "%s fails although it was complete: %r" % (what, out[k][1]))
                if k == order[0] and rng.random() < 0.7:  # a third call while the other one is halfway
                    r, e = b.call(name)
                    mon.check(e is None, "a call after %s fails: %r" % (what, e))
                    check_result(mon, r, b.data[name], "a call after %s" % what)
        finally:
            sys.stderr = err
            for _, go in ev:
                go.set()
        mon.event("threads")
        b.recover(name, "downloads of %s by two threads" % name)
        mon.nontrivial("threads", name, fails, order, spec["i"])
    finally:
        b.close()


def roundtrip(spec, mon):
    """all loaders beside each other: each returns its own file"""
    rng = rng_of(spec)
    L = sorted(loaders())
    names = list(rng.permutation(L))
    b = Bench(rng, mon, names=[str(x) for x in names], big=False)
    try:
        for n in b.names:
            out, e = b.call(n)
            mon.check(e is None, "downloading %s fails: %s %s" % (n, type(e).__name__, e))
            check_result(mon, out, b.data[n], n)
        b.refuse()
        for n in b.names:
            out, e = b.call(n)
            mon.check(e is None, "cached %s fails: %s" % (n, e))
            check_result(mon, out, b.data[n], "cached " + n)
        mon.event("roundtrip")
        mon.event("variants")
        mon.nontrivial("roundtrip", spec["i"])
    finally:
        b.close()


def run_case(spec, mon):
    fn = {"fault": fault_case, "line": line_case, "stall": stall_case, "disk": disk_case, "concurrent": concurrent_case, "threads": threads_case, "roundtrip": roundtrip}
    try:
        fn[spec["kind"]](spec, mon)
    except OSError as e:
        raise Inconclusive("the harness failed: %r" % e)
