"""The concrete world: the same scenarios against the real, uninstrumented code (no solver).  Used to replay the solver's
counterexamples and the witnesses of explored paths.  Run as a server: one JSON request per line on stdin."""
import importlib
import io
import json
import os
import shutil
import sys
import tempfile
import traceback
import warnings
import numpy as np
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from symx.wbase import World
from symx.spec import Skip, CheckFailed

warnings.simplefilter("ignore")
np.seterr(all="ignore")


class Stop(BaseException):
    pass


class ConcreteWorld(World):
    symbolic = False

    def __init__(self, req, tmp):
        v = req.get("values") or {}
        self.vals = v.get("inputs", {})
        self.rnd = [list(x) for x in v.get("rnd", [])]
        self.script = v.get("script")
        self.keep = req.get("keep", "all")       # 'all' | 'discrete': which recorded values to use
        self.rng = np.random.RandomState(req.get("seed", 0) % (2 ** 32))
        self.scale = req.get("scale", 1.0)
        self.opts = req.get("opts", {})
        self.tmp = tmp
        self.failures = []
        self.labels = []
        self.inputs = {}
        self.np = np
        self.log = []
        self.patched = []
        self.permlog = []
        self.patch_random()
        self.shuf = self.opts.get("shuffle", "all")

    # ---- random generator of the code under test
    def patch_random(self):
        r = self.rng

        def nxt(kind, size):
            if self.rnd and self.rnd[0][0] == kind and self.keep == "all":
                sh = self.rnd[0][1]
                if sh is None or list(np.zeros(size).shape if size is not None else []) == sh:
                    return self.rnd.pop(0)
            return None

        def fill(e, size, gen):
            o = gen()
            if e is None:
                return o
            o = np.array(o, dtype=float)
            f = o.reshape(-1)
            for i, x in enumerate(e[2]):
                if x is not None:
                    f[i] = x
            return o if size is not None and size != () else float(f[0])

        def randn(*sh):
            return fill(nxt("randn", sh), sh, lambda: r.randn(*sh))

        def rand(*sh):
            return fill(nxt("rand", sh), sh, lambda: r.rand(*sh))

        def perm(n):
            p = perm0(n)
            self.permlog.append([int(x) for x in p])
            return p

        def perm0(n):
            e = self.rnd[0] if self.rnd and self.rnd[0][0] == "perm" and len(self.rnd[0][2]) == n else None
            if e is not None:
                self.rnd.pop(0)
                return np.array(e[2], dtype=int)
            if self.shuf == "id":
                return np.arange(n)
            if self.shuf == "rev":
                return np.arange(n)[::-1]
            if isinstance(self.shuf, int):
                return np.random.RandomState(self.shuf).permutation(n)
            return r.permutation(n)

        def shuffle(x):
            p = perm(len(x))
            if isinstance(x, np.ndarray):
                x[...] = x[p].copy()
            else:
                x[:] = [x[i] for i in p]

        def permutation(x):
            if isinstance(x, (int, np.integer)):
                x = np.arange(x)
            return np.asarray(x)[perm(len(x))]

        oc, oi = r.choice, r.randint

        def choice(a, size=None, replace=True, p=None):
            e = self.rnd[0] if self.rnd and self.rnd[0][0] == "choice" else None
            n = 1 if size is None else int(np.prod(size))
            if e is not None and len(e[2]) == n and p is None:
                self.rnd.pop(0)
                idx = np.array(e[2])
                arr = np.arange(a) if isinstance(a, (int, np.integer)) else np.asarray(a)
                return arr[idx[0]] if size is None else arr[idx.reshape(size)]
            return oc(a, size, replace, p)

        def randint(low, high=None, size=None, dtype=int):
            e = self.rnd[0] if self.rnd and self.rnd[0][0] == "randint" else None
            n = 1 if size is None else int(np.prod(size))
            if e is not None and len(e[2]) == n:
                self.rnd.pop(0)
                return e[2][0] if size is None else np.array(e[2]).reshape(size)
            return oi(low, high, size, dtype)
        new = dict(randn=randn, rand=rand, shuffle=shuffle, permutation=permutation, choice=choice, randint=randint,
                   standard_normal=lambda size=None: randn(*(() if size is None else (size,) if isinstance(size, int) else size)),
                   random=lambda size=None: rand(*(() if size is None else (size,) if isinstance(size, int) else size)),
                   uniform=lambda low=0., high=1., size=None: rand(*(() if size is None else (size,) if isinstance(size, int) else size)) * (high - low) + low)
        for k, f in new.items():
            self.patched.append((np.random, k, getattr(np.random, k)))
            setattr(np.random, k, f)

    def patch(self, o, k, v):
        self.patched.append((o, k, getattr(o, k)))
        setattr(o, k, v)

    def done(self):
        for o, k, v in reversed(self.patched):
            setattr(o, k, v)

    def load(self, name):
        return importlib.import_module(name)

    def add_modules(self, mods):
        sys.modules.update(mods)

    # ---- inputs
    def _rec(self, name, v):
        self.inputs[name] = v
        return v

    def int(self, name, lo=None, hi=None, probe=None):
        v = self.vals.get(name)
        if v is None:
            if probe:
                v = probe[self.rng.randint(len(probe))]
            else:
                a = lo if lo is not None else (hi - 8 if hi is not None else -4)
                b = hi if hi is not None else a + 8
                v = int(self.rng.randint(a, min(b, a + 12) + 1))
        return self._rec(name, int(v))

    def _real(self, v, lo, hi, integer=False):
        if v is not None and self.keep in ("all",):
            return v
        if integer:
            a = lo if lo is not None else -3
            return int(self.rng.randint(a, (hi if hi is not None else a + 6) + 1))
        a = lo if lo is not None else (-1.5 * self.scale if hi is None else hi - 3)
        b = hi if hi is not None else max(a + 1, 1.5 * self.scale)
        x = a + (b - a) * (0.02 + 0.96 * self.rng.rand())
        if v is not None and self.keep == "near":
            x = v + 0.05 * (self.rng.rand() - 0.5)
            if lo is not None:
                x = max(x, lo)
            if hi is not None:
                x = min(x, hi)
        return round(x, 3)

    def real(self, name, lo=None, hi=None, probe=None, open=False):
        v = self._real(self.vals.get(name), lo, hi)
        if probe and (self.vals.get(name) is None or self.keep != "all"):
            v = probe[self.rng.randint(len(probe))]
        return self._rec(name, float(v))

    def choice(self, name, options):
        options = list(options)
        k = self.vals.get(name)
        if k is None:
            k = int(self.rng.randint(len(options)))
        return options[self._rec(name, k)]

    def bool(self, name):
        return self.choice(name, [False, True])

    def perm(self, name, n):
        v = self.vals.get(name)
        return self._rec(name, v if v is not None else [int(x) for x in self.rng.permutation(n)])

    def mat(self, name, shape, dtype=np.float64, lo=None, hi=None, positive=False, probe=None, integer=False):
        shape = (shape,) if isinstance(shape, int) else tuple(int(s) for s in shape)
        n = int(np.prod(shape))
        v = self.vals.get(name) or [None] * n
        if positive and lo is None:
            lo = 0.1
        v = [self._real(x if i < len(v) else None, lo, hi, integer) for i, x in zip(range(n), list(v) + [None] * n)]
        self._rec(name, v)
        return np.array(v, dtype=float).reshape(shape).astype(dtype)

    def onehot(self, name, n, c, dtype=np.float64):
        lab = self.vals.get(name)
        if lab is None:
            lab = [int(self.rng.randint(c)) for _ in range(n)]
        self._rec(name, lab)
        o = np.zeros((n, c), dtype=dtype)
        for i, k in enumerate(lab):
            o[i, k] = 1
        return o, lab

    def shuffle_mode(self, m):
        self.shuf = m

    # ---- checks
    def assume(self, c):
        if not np.all(c):
            raise Skip("assumption")

    def check(self, cond, label, detail=""):
        self.labels.append(label)
        if not bool(np.all(cond)):
            self.failures.append([label, str(detail)])
            return False
        return True

    def eq(self, a, b, label, tol=None):
        self.labels.append(label)
        try:
            a, b = np.asarray(a[:] if hasattr(a, "_v_file") else a), np.asarray(b[:] if hasattr(b, "_v_file") else b)
            if a.dtype == object or b.dtype == object:
                raise TypeError("object array")
        except Exception as e:
            self.failures.append([label, repr(e)])
            return False
        if a.shape != b.shape:
            self.failures.append([label, "shape %s instead of %s" % (a.shape, b.shape)])
            return False
        if a.dtype.kind not in "fiub" or b.dtype.kind not in "fiub":
            ok = bool(np.all(a == b))
        else:
            if tol is None:
                tol = 4e-3 if np.float32 in (a.dtype.type, b.dtype.type) or self.opts.get("f32") else 2e-6
            fa, fb = a.astype(float), b.astype(float)
            fin = np.isfinite(fb)
            sc = max(1.0, float(np.abs(fb[fin]).max()) if fin.any() else 1.0)
            ok = np.allclose(fa, fb, rtol=tol, atol=tol * sc, equal_nan=True)
        if not ok:
            self.failures.append([label, "%s instead of %s" % (np.array2string(a, threshold=30, precision=6), np.array2string(b, threshold=30, precision=6))])
        return ok

    def same(self, a, b):
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        return a.shape == b.shape and np.allclose(a, b, rtol=1e-6, atol=1e-7)

    def perms(self):
        return self.permlog

    def raises(self, fn, label, exc=Exception):
        self.labels.append(label)
        try:
            fn()
        except exc:
            return True
        self.failures.append([label, "no exception"])
        return False

    def attempt(self, fn):
        try:
            return fn(), None
        except Skip:
            raise
        except Exception as e:
            return None, e

    def is_array(self, a):
        return isinstance(a, np.ndarray)

    def dtype(self, a):
        return np.dtype(a.dtype)

    def concrete(self, x):
        return int(x)

    def ite(self, c, a, b):
        return a if c else b

    def both(self, *cs):
        return all(bool(c) for c in cs)

    def any_of(self, *cs):
        return any(bool(c) for c in cs)

    def no(self, c):
        return not c

    # ---- files
    def path(self, name):
        return os.path.join(self.tmp, name)

    def put_h5(self, name, a, dtype=None):
        import tables
        p = self.path(name)
        a = np.asarray(a, dtype=dtype)
        h = tables.open_file(p, "w")
        n = h.create_carray(h.root, "data", tables.Atom.from_dtype(a.dtype), a.shape)
        n[:] = a
        h.close()
        return p

    def put_text(self, name, a, delim=" ", header=0):
        p = self.path(name)
        import bz2
        import gzip
        with (gzip.open(p, "wt") if p.endswith(".gz") else bz2.open(p, "wt") if p.endswith("bz2") else io.open(p, "w")) as f:
            for i in range(header):
                f.write(delim.join(["head", "er%d" % i]) + "\n")
            for r in np.asarray(a):
                f.write(delim.join(repr(float(x)) for x in r) + "\n")
        return p

    def put_npy(self, name, a):
        p = self.path(name)
        np.save(p, a)
        return p

    def _leaf(self, h):
        for n in h.walk_nodes("/"):
            if hasattr(n, "shape"):
                return n

    def get_h5(self, path):
        import tables
        h = tables.open_file(path, "r")
        try:
            return self._leaf(h)[:]
        finally:
            h.close()

    def h5_attrs(self, path):
        import tables
        h = tables.open_file(path, "r")
        try:
            n = self._leaf(h)
            return {k: n.attrs[k] for k in n.attrs._f_list("user")}
        finally:
            h.close()

    def h5_nodes(self, path):
        import tables
        h = tables.open_file(path, "r")
        try:
            return len(list(h.walk_nodes("/", "Leaf")))
        finally:
            h.close()

    def exists(self, path):
        return os.path.exists(path)

    def open_handles(self):
        import tables
        return len(tables.file._open_files.handlers)

    def h5_handle(self, path, mode="r"):
        import tables
        return self._leaf(tables.open_file(path, mode))

    # ---- processes
    def async_io(self, policy, late=False, budget=0):
        """slow down one side: 'lazy' the others are slow, 'eager' the caller is slow; late: storing into queues is slow"""
        import multiprocessing as mp
        import multiprocessing.queues as mq
        import multiprocessing.process as mproc
        import threading
        import time
        import tables
        me = os.getpid()
        if policy == "any":
            policy = "lazy" if self.rng.randint(2) else "eager"
        slow_main = policy == "eager"
        d = float(self.opts.get("delay", 0.05))

        def pause():
            if (os.getpid() == me) == slow_main:
                time.sleep(d)

        def slowed(o):
            def f(*a, **k):
                pause()
                return o(*a, **k)
            return f
        for cls, names in ((tables.Array, ("__setitem__",)), (tables.File, ("close", "flush")), (mq.Queue, ("get",))):
            for nm in names:
                self.patch(cls, nm, slowed(getattr(cls, nm)))
        og, op, oj = mq.Queue.get, mq.Queue.put, mproc.BaseProcess.join     # time limits of a slow machine
        self.patch(mq.Queue, "get", lambda s, block=True, timeout=None: og(s, block, None if timeout is None else min(timeout, d / 2)))
        self.patch(mq.Queue, "put", lambda s, x, block=True, timeout=None: op(s, x, block, None if timeout is None else min(timeout, d / 2)))
        self.patch(mproc.BaseProcess, "join", lambda s, timeout=None: oj(s, None if timeout is None else min(timeout, d / 2)))
        if late:
            base = mq._ForkingPickler

            class Slow(base):
                @classmethod
                def dumps(cls, x, protocol=None):
                    if threading.current_thread() is not threading.main_thread():
                        time.sleep(2 * d)
                    return base.dumps(x, protocol)
            self.patch(mq, "_ForkingPickler", Slow)

    def network(self, label):
        self.labels.append(label)

    # ---- parallel workers
    def parallel(self, workers, files, label):
        from symx import cpar
        cpar.parallel(self, workers, files, label)

    # ---- observation of row accesses
    def watch(self):
        import tables
        if getattr(self, "_watching", False):
            return
        self._watching = True
        log = self.log
        for cls in (tables.array.Array,):
            for meth, kind in (("__getitem__", "h5read"), ("read", "h5read"), ("__setitem__", "h5write")):
                def make(o, kind):
                    def f(s, *a, **k):
                        if getattr(s, "_symx_in", False):
                            return o(s, *a, **k)
                        s.__dict__["_symx_in"] = True
                        try:
                            r = o(s, *a, **k)
                        finally:
                            s.__dict__["_symx_in"] = False
                        if kind == "h5read":
                            log.append((kind, r.shape[0] if getattr(r, "ndim", 0) == 2 else 1))
                        else:
                            key = a[0] if not isinstance(a[0], tuple) else a[0][0]
                            rows = len(range(*key.indices(s.shape[0]))) if isinstance(key, slice) else s.shape[0] if key is Ellipsis else 1
                            log.append((kind, rows))
                        return r
                    return f
                self.patch(cls, meth, make(getattr(cls, meth), kind))
        oa = tables.EArray.append

        def append(s, rows):
            r = oa(s, rows)
            log.append(("h5append", np.asarray(rows).shape[0]))
            return r
        self.patch(tables.EArray, "append", append)
        for nm in ("loadtxt", "genfromtxt"):
            o = getattr(np, nm)

            def ld(*a, _o=o, **k):
                r = _o(*a, **k)
                log.append(("textall", r.shape[0] if r.ndim == 2 else 1))
                return r
            self.patch(np, nm, ld)

        import builtins
        op = builtins.open

        def open_(name, mode="r", *a, **k):
            f = op(name, mode, *a, **k)
            if "b" in mode or "w" in mode or not str(name).startswith(self.tmp):
                return f
            return LineLog(f, log)
        self.patch(builtins, "open", open_)

    def rows_log(self):
        return list(self.log)

    def clear_log(self):
        self.watch()
        del self.log[:]


class LineLog:
    """text file that notes the lines read"""
    def __init__(self, f, log):
        self.f, self.log = f, log

    def __getattr__(self, k):
        return getattr(self.f, k)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.f.close()

    def __iter__(self):
        return self

    def __next__(self):
        r = next(self.f)
        self.log.append(("textline", 1))
        return r

    def readline(self, *a):
        r = self.f.readline(*a)
        if r:
            self.log.append(("textline", 1))
        return r

    def readlines(self, *a):
        r = self.f.readlines(*a)
        self.log.append(("textall", len(r)))
        return r

    def read(self, *a):
        r = self.f.read(*a)
        self.log.append(("textall", r.count("\n")))
        return r


def run_one(req):
    """one concrete execution of a scenario"""
    tmp = tempfile.mkdtemp(prefix="symx_", dir=os.environ.get("SYMX_TMP"))
    out = {"status": "ok", "failures": [], "skip": None}
    w = None
    so = sys.stdout
    sys.stdout = io.StringIO()
    cwd = os.getcwd()
    try:
        np.random.seed(req.get("seed", 0) % (2 ** 32))
        w = ConcreteWorld(req, tmp)
        modn = "checks." + req["prop"]
        m = importlib.import_module(modn)
        fn = getattr(m, req["fn"])
        try:
            fn(w, **req.get("params", {}))
        except Skip:
            out["status"] = "skip"
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = [f for f in tb if "/hpelm/" in f.filename]
            out["failures"].append(["uncaught exception", "%r at %s" % (e, "; ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in tb[-3:]))])
            if not where and not req.get("harness_ok"):
                out["harness_error"] = traceback.format_exc()[-1500:]
        out["failures"] = w.failures + out["failures"]
        out["labels"] = sorted(set(w.labels))
        out["inputs"] = w.inputs
        if out["status"] == "skip":
            out["failures"] = []
        if out["failures"]:
            out["status"] = "fail"
    finally:
        sys.stdout = so
        if w is not None:
            w.done()
        try:
            import tables
            tables.file._open_files.close_all()
        except Exception:
            pass
        os.chdir(cwd)
        shutil.rmtree(tmp, ignore_errors=True)
    return out


def jsonable(x):
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.floating,)):
        return float(x)
    return str(x)


def main():
    out = os.fdopen(os.dup(1), "w")
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)
    if os.environ.get("SYMX_ERR") != "1":
        os.dup2(dn, 2)
    for line in sys.stdin:
        req = json.loads(line)
        try:
            r = run_one(req)
        except Exception:
            r = {"status": "error", "failures": [], "error": traceback.format_exc()[-2000:]}
        out.write(json.dumps(r, default=jsonable) + "\n")
        out.flush()


if __name__ == "__main__":
    if len(sys.argv) > 1 and sys.argv[1] == "--replay":
        req = json.load(open(sys.argv[2]))
        r = run_one(req)
        for f in r["failures"]:
            print("FAILED: %s: %s" % tuple(f))
        if not r["failures"]:
            print("not reproduced (%s)" % r["status"])
        sys.exit(1 if r["failures"] else 0)
    main()
