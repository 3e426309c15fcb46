"""Parallel workers on the real code: real processes, stopped at file and lock operations and released in a given order."""
import os
import pickle
import select
import signal
import sys
import time
import traceback
import numpy as np


class Child:
    def __init__(self, i, fn, tmp):
        self.i = i
        self.r, cw = os.pipe()
        cr, self.w = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(self.r)
                os.close(self.w)
                code = child(i, fn, tmp, cr, cw)
            except BaseException:
                code = 9
            os._exit(code)
        os.close(cw)
        os.close(cr)
        self.buf = b""
        self.req = None
        self.ended = False
        self.result = None

    def poll(self, timeout):
        """wait for the next request (or the end) of the child"""
        end = time.time() + timeout
        while self.req is None and not self.ended:
            left = end - time.time()
            if left <= 0:
                return False
            r, _, _ = select.select([self.r], [], [], left)
            if r:
                d = os.read(self.r, 65536)
                if not d:
                    self.ended = True
                    break
                self.buf += d
                self.parse()
        return True

    def parse(self):
        while b"\n" in self.buf and self.req is None:
            line, self.buf = self.buf.split(b"\n", 1)
            k, _, rest = line.decode().partition(" ")
            if k == "end":
                self.result = rest
                self.ended = True
            else:
                self.req = (k, rest)

    def go(self):
        self.req = None
        try:
            os.write(self.w, b"g")
        except OSError:
            self.ended = True
        self.parse()

    def stop(self):
        try:
            os.kill(self.pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            os.waitpid(self.pid, 0)
        except OSError:
            pass
        os.close(self.r)
        os.close(self.w)


def child(i, fn, tmp, cr, cw):
    """runs in the forked process"""
    import tables
    import fasteners
    inner = [0]

    def ask(kind, path):
        path = str(path)
        if inner[0] or not path.startswith(tmp) or os.path.basename(path) not in WATCH and kind not in ("lock", "unlock"):
            return
        os.write(cw, ("%s %s\n" % (kind, os.path.basename(path))).encode())
        os.read(cr, 1)

    def around(obj, name, kind, path):
        o = getattr(obj, name)

        def f(*a, **k):
            ask(kind, path(*a))
            inner[0] += 1
            try:
                return o(*a, **k)
            finally:
                inner[0] -= 1
        setattr(obj, name, f)
    around(os.path, "isfile", "isfile", lambda p: p)
    around(os.path, "exists", "isfile", lambda p: p)
    F = tables.file.File
    around(F, "__init__", "open", lambda s, p, *a: p)
    oc = F.close

    def close(s):
        if s.isopen:
            ask("close", s.filename)
        inner[0] += 1
        try:
            return oc(s)
        finally:
            inner[0] -= 1
    F.close = close
    L = fasteners.InterProcessLock
    oa, orl = L.acquire, L.release

    def acquire(s, *a, **k):
        p = s.path.decode() if isinstance(s.path, bytes) else s.path
        ask("lock", p)
        return oa(s, *a, **k)

    def release(s):
        p = s.path.decode() if isinstance(s.path, bytes) else s.path
        ask("unlock", p)
        return orl(s)
    L.acquire, L.release = acquire, release
    try:
        fn()
        msg = "ok"
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        msg = "failed: %r at %s" % (e, "; ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in tb[-3:]))
    try:      # as the end of a process does
        tables.file._open_files.close_all()
    except Exception:
        pass
    os.write(cw, ("end %s\n" % msg.replace("\n", " ")[:900]).encode())
    return 0


WATCH = set()


def parallel(w, workers, files, label):
    script = [tuple(x) for x in (w.script or [])] if w.keep != "free" else []
    WATCH.clear()
    WATCH.update(os.path.basename(p) for p in files)
    sys.stdout.flush()
    ch = [Child(i, fn, w.tmp) for i, fn in enumerate(workers)]
    try:
        for k, (i, kind, path) in enumerate(script):
            if i >= len(ch):
                continue
            c = ch[i]
            n = 0
            while True:
                if not c.poll(6.0) or c.ended:
                    break
                rest = [(x[1], x[2]) for x in script[k:] if x[0] == i]
                if c.req == (kind, path):
                    c.go()
                    c.poll(6.0)      # the operation is done when the next request comes
                    break
                if c.req in rest:    # this event does not happen
                    break
                c.go()
                n += 1
                if n > 60:
                    break
            if not c.ended and c.req is None:
                break                # blocked: the order cannot be followed further
        end = time.time() + 15
        last = time.time()
        while time.time() < end and not all(c.ended for c in ch):
            for c in ch:
                if not c.ended and c.poll(0.01) and c.req is not None:
                    c.go()
                    last = time.time()
            if time.time() - last > 8:
                break
        w.check(all(c.ended for c in ch), label + ": workers end", "a worker waits forever")
        bad = [c.result for c in ch if c.ended and c.result != "ok"]
        w.check(not bad, label + ": no worker fails", "; ".join(str(b) for b in bad))
    finally:
        for c in ch:
            c.stop()
    for p, exp in files.items():
        if not os.path.exists(p):
            w.check(False, "%s: final %s" % (label, os.path.basename(p)), "no file")
            continue
        try:
            got = w.get_h5(p)
        except Exception as e:
            w.check(False, "%s: final %s" % (label, os.path.basename(p)), repr(e))
            continue
        w.eq(got, exp, "%s: final %s" % (label, os.path.basename(p)))
