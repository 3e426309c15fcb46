"""Model of the environment the code runs in: an in-memory file system holding HDF5 / text / npy / pickle files, PyTables,
inter-process locks, processes and queues, the clock.  Every access is recorded in ctx.events."""
import os as real_os
import queue
import threading
import types
import numpy as np
from . import val as V, arr as A, stubs
from .val import SNum, SBool, SInt, SReal, num, lift
from .arr import SymArray, obj, from_obj, wrap, full
from .core import Ctx, Unsupported


class FakeModule(types.ModuleType):
    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        c = Ctx.cur
        e = Unsupported("%s.%s is not modelled" % (self.__name__, k))
        if c is not None:
            c.stop(e)
        raise e


def mod(name, /, **k):
    m = FakeModule(name)
    m.__dict__.update(k)
    return m


class ClosedNodeError(Exception):
    pass


class ClosedFileError(Exception):
    pass


class FileModeError(ValueError):
    pass


class NoSuchNodeError(AttributeError):
    pass


class HDF5ExtError(RuntimeError):
    pass


class NodeError(AttributeError, LookupError):
    pass


class Deadlock(Exception):
    pass


class NodeData:
    def __init__(self, name, data, kind, chunk=None):
        self.name, self.data, self.kind, self.chunk = name, data, kind, chunk
        self.attrs = {}


class H5Content:
    def __init__(self):
        self.nodes = {}


class TextContent:
    def __init__(self, rows, delim):
        self.rows, self.delim = rows, delim


class NpyContent:
    def __init__(self, a):
        self.a = a


class BinContent:
    def __init__(self, objs=None):
        self.objs = objs or []


class Cell(str):
    """text of a number in a text file"""
    def __new__(cls, text, value):
        s = str.__new__(cls, text)
        s.value = value
        return s

    def cell(self):
        return self.value

    def strip(self, *a):
        return self

    rstrip = lstrip = strip


class Line(str):
    def __new__(cls, row, delim):
        s = str.__new__(cls, delim.join(str(c) for c in row) + "\n")
        s.row, s.delim = row, delim
        return s

    def strip(self, *a):
        return self

    rstrip = lstrip = strip

    def split(self, sep=None, maxsplit=-1):
        if sep == self.delim or sep is None and self.delim.isspace():
            return list(self.row)
        if maxsplit != -1:
            Ctx.cur.stop(Unsupported("split with maxsplit"))
        return str.split(str(self), sep)


def snapshot(x, depth=0):
    """what pickling and unpickling gives back"""
    if isinstance(x, (SNum, SBool, str, bytes, int, float, bool, type(None), np.generic, type, np.ufunc, np.dtype, complex)):
        return x
    if isinstance(x, SymArray):
        return x.copy(order="K")
    if isinstance(x, np.ndarray):
        return x.copy()
    if isinstance(x, tuple):
        return tuple(snapshot(y) for y in x)
    if isinstance(x, list):
        return [snapshot(y) for y in x]
    if isinstance(x, dict):
        return {snapshot(k): snapshot(v) for k, v in x.items()}
    if isinstance(x, set):
        return {snapshot(k) for k in x}
    if isinstance(x, types.FunctionType) and "<lambda>" in x.__qualname__:
        import pickle
        raise pickle.PicklingError("Can't pickle %r" % x)
    if isinstance(x, types.FunctionType) and "<locals>" in x.__qualname__:
        raise AttributeError("Can't pickle local object %r" % x.__qualname__)
    if isinstance(x, types.FunctionType):
        return x
    if hasattr(x, "__h5node__"):
        raise TypeError("h5 nodes cannot be pickled")
    Ctx.cur.stop(Unsupported("pickling of %s" % type(x)))


class PickledBytes(bytes):
    def __new__(cls, o):
        s = bytes.__new__(cls, b"\x80pickle")
        s.o = o
        return s


class Attrs:
    def __init__(self, node):
        object.__setattr__(self, "_n", node)

    def __getattr__(self, k):
        n = object.__getattribute__(self, "_n")
        n._alive()
        if k == "_v_attrnames" or k == "_f_list":
            names = list(n._d.attrs)
            return names if k == "_v_attrnames" else (lambda *a: names)
        if k.startswith("__"):
            raise AttributeError(k)
        if k not in n._d.attrs:
            raise AttributeError("Attribute %r does not exist in node: %r" % (k, n.name))
        return snapshot(n._d.attrs[k])

    def __setattr__(self, k, v):
        n = object.__getattribute__(self, "_n")
        n._writable()
        n._d.attrs[k] = snapshot(v)
        Ctx.cur.events.append(("attr", n._f.filename, k))

    def __delattr__(self, k):
        n = object.__getattribute__(self, "_n")
        n._writable()
        del n._d.attrs[k]

    def __contains__(self, k):
        n = object.__getattribute__(self, "_n")
        n._alive()
        return k in n._d.attrs

    def __getitem__(self, k):
        n = object.__getattribute__(self, "_n")
        n._alive()
        if k not in n._d.attrs:
            raise KeyError(k)
        return snapshot(n._d.attrs[k])

    def __setitem__(self, k, v):
        setattr(self, k, v)


class Group:
    __h5group__ = True

    def __init__(self, f):
        self._f = f
        self._v_file = f
        self._v_name = "/"
        self._v_pathname = "/"

    def __getattr__(self, k):
        if k.startswith("_"):
            raise AttributeError(k)
        self._f._alive()
        if k in self._f._c.nodes:
            return self._f._node(k)
        raise NoSuchNodeError("group ``/`` does not have a child named ``%s``" % k)

    def __getitem__(self, k):
        return getattr(self, k)

    def __contains__(self, k):
        return k in self._f._c.nodes

    def _f_iter_nodes(self, *a):
        self._f._alive()
        return iter([self._f._node(k) for k in self._f._c.nodes])

    __iter__ = _f_iter_nodes

    @property
    def _v_nchildren(self):
        return len(self._f._c.nodes)

    def __getattribute__(self, k):
        if k in ("shape", "dtype"):
            raise NoSuchNodeError("group ``/`` does not have a child named ``%s``" % k)
        return object.__getattribute__(self, k)


class Node:
    __h5node__ = True

    def __init__(self, f, d):
        self._f, self._d = f, d
        self.attrs = self._v_attrs = Attrs(self)

    def _alive(self):
        if not self._f.isopen:
            raise ClosedNodeError("the node object is closed")

    def _writable(self):
        self._alive()
        if self._f.mode == "r":
            raise FileModeError("the file is not writable")

    name = property(lambda s: s._d.name)
    _v_name = name
    _v_pathname = property(lambda s: "/" + s._d.name)
    _v_file = property(lambda s: s._f)

    @property
    def shape(self):
        self._alive()
        return tuple(s for s in self._d.data.shape)

    @property
    def nrows(self):
        return self.shape[0]

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def size(self):
        return int(np.prod(self.shape))

    @property
    def dtype(self):
        self._alive()
        return self._d.data._sdt

    @property
    def atom(self):
        return AtomT(self._d.data._sdt)

    @property
    def chunkshape(self):
        self._alive()
        if self._d.chunk is None:
            return None
        return (self._d.chunk,) + tuple(self._d.data.shape[1:])

    def __len__(self):
        return self.shape[0]

    def _rows(self, k, r):
        n = r.shape[0] if isinstance(r, np.ndarray) and r.ndim == 2 else 1
        Ctx.cur.events.append(("h5read", self._f.filename, n))

    def __getitem__(self, k):
        self._alive()
        if self._f.hav:
            self._f.hav.read(self._f, self._d, k)
        r = self._d.data[k]
        if isinstance(r, SymArray):
            r = r.copy()
        self._rows(k, r)
        return r

    def __setitem__(self, k, v):
        self._writable()
        if hasattr(v, "__h5node__"):
            v = v[:]
        tgt = self._d.data[k]
        if isinstance(tgt, SymArray) and isinstance(v, np.ndarray):
            v = A.cast_array(wrap(v), self._d.data._sdt)
        Ctx.cur.events.append(("h5write", self._f.filename, tgt.shape[0] if isinstance(tgt, SymArray) and tgt.ndim else 1))
        self._d.data[k] = v
        if self._f.hav:
            self._f.hav.wrote(self._f, self._d, k)

    def read(self, start=None, stop=None, step=None, out=None):
        if start is not None and stop is None:
            stop = start + 1
        return self[slice(start, stop, step)]

    def __iter__(self):
        for i in range(self.shape[0]):
            yield self[i]

    iterrows = __iter__

    def __array__(self, *a, **k):
        return self[:]

    def append(self, rows):
        self._writable()
        if self._d.kind != "earray":
            raise AttributeError("append")
        rows = A.cast_array(wrap(rows), self._d.data._sdt)
        if rows.ndim != self._d.data.ndim or rows.shape[1:] != self._d.data.shape[1:]:
            raise ValueError("the shapes of the appended object and the EArray differ in non-enlargeable dimension")
        Ctx.cur.events.append(("h5append", self._f.filename, rows.shape[0]))
        if self._f.hav:
            Ctx.cur.stop(Unsupported("append to a shared file"))
        self._d.data = A._concat([self._d.data, rows], 0)

    def flush(self):
        self._alive()

    def close(self):
        pass

    def get_attr(self, k):
        return getattr(self.attrs, k)

    def set_attr(self, k, v):
        setattr(self.attrs, k, v)

    _f_getattr, _f_setattr = get_attr, set_attr


class AtomT:
    def __init__(self, dtype, dflt=0):
        self.dtype, self.dflt = np.dtype(dtype), dflt
        self.itemsize = self.dtype.itemsize

    @staticmethod
    def from_dtype(dtype, dflt=0):
        return AtomT(dtype, dflt)


class H5File:
    def __init__(self, env, name, mode, content):
        self.env, self.filename, self.mode, self._c = env, name, mode, content
        self.isopen = 1
        self.hav = env.hav if env.hav and name in env.hav.tracked else None
        self.root = Group(self)

    def _alive(self):
        if not self.isopen:
            raise ClosedFileError("the file object is closed")

    def _node(self, k):
        return Node(self, self._c.nodes[k])

    def walk_nodes(self, where="/", classname=None):
        self._alive()
        if classname not in ("Leaf", "Array", "CArray", "EArray"):
            yield self.root
        if classname == "Group":
            return
        for k in list(self._c.nodes):
            d = self._c.nodes[k]
            if classname in ("CArray", "EArray") and d.kind != classname.lower():
                continue
            yield self._node(k)

    def iter_nodes(self, where="/", classname=None):
        self._alive()
        return iter(self.list_nodes(where, classname))

    def list_nodes(self, where="/", classname=None):
        self._alive()
        return [n for n in self.walk_nodes(where, classname or "Leaf")]

    def __iter__(self):
        return self.walk_nodes()

    def get_node(self, where, name=None, classname=None):
        self._alive()
        if name is None:
            name = where.strip("/") if isinstance(where, str) else ""
        if name == "":
            return self.root
        if name not in self._c.nodes:
            raise NoSuchNodeError("group ``/`` does not have a child named ``%s``" % name)
        return self._node(name)

    def __contains__(self, p):
        return p.strip("/") in self._c.nodes

    def _create(self, where, name, data, kind):
        self._alive()
        if self.mode == "r":
            raise FileModeError("the file is not writable")
        if name in self._c.nodes:
            raise NodeError("group ``/`` already has a child node named ``%s``" % name)
        self._c.nodes[name] = NodeData(name, data, kind, self.env.chunk(data))
        self.env.ev("h5create", self.filename)
        if self.hav:
            self.hav.created(self, self._c.nodes[name])
        return self._node(name)

    def create_carray(self, where, name, atom=None, shape=None, title="", filters=None, chunkshape=None, obj=None, **k):
        if obj is not None:
            o = A.cast_array(wrap(obj), atom.dtype if atom else wrap(obj)._sdt)
            return self._create(where, name, o, "carray")
        if any(int(s) == 0 for s in shape):
            raise ValueError("the shape of CArray has a zero dimension")
        return self._create(where, name, full(tuple(A.conc_ints(s) for s in shape), atom.dflt, atom.dtype), "carray")

    def create_earray(self, where, name, atom=None, shape=None, title="", filters=None, expectedrows=0, obj=None, **k):
        if shape is None:
            shape = (0,) + wrap(obj).shape[1:]
        n = self._create(where, name, full(tuple(shape), 0, atom.dtype if atom else wrap(obj)._sdt), "earray")
        if obj is not None:
            n.append(obj)
        return n

    def create_array(self, where, name, obj=None, title="", atom=None, shape=None, **k):
        o = wrap(obj).copy() if obj is not None else full(tuple(shape), 0, atom.dtype)
        n = self._create(where, name, o, "array")
        n._d.chunk = None
        return n

    def remove_node(self, where, name=None, recursive=False):
        del self._c.nodes[name or where.strip("/")]

    def flush(self):
        self._alive()

    def close(self):
        if self.isopen:
            self.isopen = 0
            self.env.handles[:] = [h for h in self.env.handles if h is not self]
            self.env.ev("h5close", self.filename)
            if self.hav:
                self.hav.closed(self)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False


class TextFile:
    def __init__(self, env, name, content, mode):
        self.env, self.name, self.c, self.i, self.mode = env, name, content, 0, mode
        self.closed = False

    def readline(self, *a):
        if self.i >= len(self.c.rows):
            return ""
        r = Line(self.c.rows[self.i], self.c.delim)
        self.i += 1
        Ctx.cur.events.append(("textline", self.name, 1))
        return r

    def __iter__(self):
        return self

    def __next__(self):
        r = self.readline()
        if r == "" and self.i >= len(self.c.rows) and not isinstance(r, Line):
            raise StopIteration
        return r

    def readlines(self, *a):
        r = list(self)
        Ctx.cur.events.append(("textall", self.name, len(r)))
        return r

    def read(self, *a):
        Ctx.cur.stop(Unsupported("read() of a text file"))

    def seek(self, p, *a):
        if p != 0:
            Ctx.cur.stop(Unsupported("seek"))
        self.i = 0

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class BinFile:
    def __init__(self, env, name, mode):
        self.env, self.name, self.mode = env, name, mode
        self.closed = False
        self.pend = []
        self.i = 0
        if "w" in mode:
            env.fs[name] = BinContent([])
        self.c = env.fs[name]

    def put(self, o):
        if "w" not in self.mode and "a" not in self.mode:
            import io
            raise io.UnsupportedOperation("write")
        self.pend.append(o)

    def write(self, b):
        if isinstance(b, PickledBytes):
            self.put(b.o)
        else:
            Ctx.cur.stop(Unsupported("raw write"))

    def get(self):
        if not isinstance(self.c, BinContent) or self.i >= len(self.c.objs):
            raise EOFError("Ran out of input")
        self.i += 1
        return self.c.objs[self.i - 1]

    def read(self, *a):
        if not self.c.objs:
            return b""
        return PickledBytes(self.c.objs[0])

    def flush(self):
        self.c.objs.extend(self.pend)
        self.pend = []

    def close(self):
        if not self.closed:
            self.flush()
            self.closed = True

    def __del__(self):
        self.close()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


# ------------------------------------------------------------------------------------------- processes
class Sched:
    """Processes as baton-passing threads: exactly one runs at a time; who runs is decided by the policy
    ('lazy': the main process goes on as long as it can; 'eager': children run whenever they can)."""

    def __init__(self, env):
        self.env = env
        self.procs = []
        self.cur = None
        self.main = self
        self.local = threading.local()
        self.tid = {}
        self.main_tid = threading.get_ident()
        self.error = None
        self.budget = 0        # policy 'any': how many times the schedule may still differ from 'the caller first, then the others in order'

    def point(self):
        """a point where the scheduler may switch to another process"""
        if self.env.policy != "any":
            return
        me = self.me()
        if me is not None:
            if self.budget > 0:
                me.back(lambda: True)
            return
        while self.budget > 0:
            rs = [p for p in self.procs if p.runnable()]
            if not rs:
                return
            k = self.env.ctx.choose(1 + len(rs))
            if k == 0:
                return
            self.budget -= 1
            rs[k - 1].resume()
            if self.env.ctx.abort is not None:
                raise self.env.ctx.abort

    def me(self):
        return self.tid.get(threading.get_ident())

    def yield_until(self, cond, why):
        """block the calling process until cond() holds, letting the others run"""
        me = self.me()
        if me is None:      # main
            while not cond():
                if not self.run_one():
                    raise Deadlock("main process waits forever: %s" % why)
        else:
            while not cond():
                me.back(cond)

    def run_one(self):
        """let some child run until it blocks or ends; False if none can"""
        rs = [p for p in self.procs if p.runnable()]
        if not rs:
            return False
        k = 0
        if len(rs) > 1 and self.env.policy == "any" and self.budget > 0:
            k = self.env.ctx.choose(len(rs))
            if k:
                self.budget -= 1
        rs[k].resume()
        if self.env.ctx.abort is not None:
            raise self.env.ctx.abort
        return True

    def run_all(self):
        while self.run_one():
            pass


class KillThread(BaseException):
    pass


class Proc:
    def __init__(self, sched, group=None, target=None, name=None, args=(), kwargs=None, daemon=None, **k):
        self.s, self.target, self.args, self.kwargs = sched, target, args, kwargs or {}
        self.daemon = daemon
        self.started = self.done = False
        self.wait = None
        self.go = threading.Semaphore(0)
        self.ret = threading.Semaphore(0)
        self.exitcode = None
        self.killed = False
        self.pid = 4242 + len(sched.procs)
        self.name = name or "Process-%d" % (1 + len(sched.procs))

    def start(self):
        assert not self.started, "cannot start a process twice"
        self.started = True
        self.s.procs.append(self)
        self.env_ev("start")
        self.t = threading.Thread(target=self._run, daemon=True)
        self.t.start()
        self.s.env.qev("start", self.name, self.s.me())
        if self.s.env.policy == "eager":
            self.s.run_all()
        self.s.point()

    def env_ev(self, what):
        self.s.env.ctx.events.append(("proc", what, self.name, tuple(a for a in self.args if not isinstance(a, np.ndarray))))

    def _run(self):
        self.go.acquire()
        self.s.tid[threading.get_ident()] = self
        try:
            if not self.killed:
                stubs.hookf(self.target)(*self.args, **self.kwargs)
            self.exitcode = 0
        except KillThread:
            pass
        except Exception as e:
            self.exitcode = 1
            self.s.env.ctx.events.append(("procfail", self.name, repr(e)))
        except BaseException as e:
            if self.s.env.ctx.abort is None:
                self.s.env.ctx.abort = e
        self.done = True
        self.ret.release()

    def runnable(self):
        return self.started and not self.done and (self.wait is None or self.wait())

    def resume(self):
        self.wait = None
        self.go.release()
        self.ret.acquire()

    def back(self, cond):
        self.wait = cond
        self.ret.release()
        self.go.acquire()
        if self.killed:
            raise KillThread()

    def join(self, timeout=None):
        self.s.point()
        if timeout is not None:
            if self.is_alive() and not self.s.env.ctx.choose(2):
                return
            self.s.env.timed = True
        self.s.env.qev("join", self.name, self.s.me())
        self.s.yield_until(lambda: self.done or not self.started, "join of %s" % self.name)

    def is_alive(self):
        return self.started and not self.done

    def terminate(self):
        self.kill()

    def kill(self):
        if self.started and not self.done:
            self.killed = True
            self.go.release()
            self.ret.acquire()
            self.done = True

    def close(self):
        pass


class Queue:
    def __init__(self, env, maxsize=0, name=None):
        self.env, self.max = env, maxsize
        self.q = []
        self.undone = 0
        self.id = env.nq
        env.caps[self.id] = maxsize or 0
        env.nq += 1

    def late(self, block, timeout, stuck):
        """a call that does not wait, or not long: may give up (True) when it could not go on at once"""
        if block and timeout is None:
            return False
        self.env.timed = True
        self.env.sched.run_one()        # time passes
        return stuck() and (not block or self.env.ctx.choose(2) == 0)

    def put(self, x, block=True, timeout=None):
        s = self.env.sched
        me = s.me()
        s.point()
        if self.late(block, timeout, self.full):
            raise queue.Full()
        self.env.qev("put", self.id, me)
        if self.max and self.max > 0:
            s.yield_until(lambda: len(self.q) < self.max, "put on full queue %d" % self.id)
        self.q.append(x if self.env.late_pickle else snapshot(x))
        self.undone += 1
        if me is None and self.env.policy == "eager":
            s.run_all()

    def get(self, block=True, timeout=None):
        s = self.env.sched
        s.point()
        if self.late(block, timeout, self.empty):
            raise queue.Empty()
        self.env.qev("get", self.id, s.me())
        s.yield_until(lambda: len(self.q) > 0, "get on empty queue %d" % self.id)
        return snapshot(self.q.pop(0))

    def empty(self):
        return not self.q

    def full(self):
        return bool(self.max) and len(self.q) >= self.max

    def qsize(self):
        return len(self.q)

    def close(self):
        pass

    join_thread = cancel_join_thread = close

    def task_done(self):
        self.undone -= 1

    def join(self):
        self.env.timed = True
        self.env.sched.yield_until(lambda: self.undone <= 0, "join of queue %d" % self.id)

    def put_nowait(self, x):
        return self.put(x, False)

    def get_nowait(self):
        return self.get(False)


class Lock:
    def __init__(self, env, path=None):
        self.env, self.path = env, path
        self.acquired = False

    def acquire(self, *a, **k):
        held = self.env.locks
        if self.path is not None and held.get(self.path) not in (None, self):
            # a second lock object on the same file blocks until the first is released: self-deadlock in one process
            raise Deadlock("lock %s is already held" % self.path)
        held[self.path] = self
        self.acquired = True
        if self.path is not None:
            self.env.fs.setdefault(self.path, BinContent())
        self.env.ev("lock", self.path)
        if self.env.hav and self.path is not None:
            self.env.hav.lock(self.path)
        return True

    def release(self):
        if self.env.locks.get(self.path) is self:
            self.env.locks.pop(self.path)
        if self.env.hav and self.path is not None and self.acquired:
            self.env.hav.unlock(self.path)
        self.acquired = False
        self.env.ev("unlock", self.path)

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def exists(self):
        return self.path in self.env.fs


# ------------------------------------------------------------------------------------------- the environment
class Env:
    def __init__(self, ctx, opts):
        self.ctx, self.opts = ctx, opts
        self.fs = {}
        self.handles = []
        self.locks = {}
        self.now = 1000.0
        self.clock = opts.get("clock", 0.0)
        self.nq = 0
        self.late_pickle = False
        self.policy = "lazy"
        self.hook = None           # observer of file system events
        self.hav = None            # shared files of parallel workers
        self.pid = 4241
        self.sched = Sched(self)
        self.qtrace = []
        self.caps = {}
        self.timed = False         # waiting with time limits: queue traces depend on the schedule
        self.fakes = self.build()

    def ev(self, *e):
        self.ctx.events.append(e)
        if self.hook:
            self.hook(e)

    def qev(self, op, q, me):
        self.qtrace.append((me.name if me is not None else "main", op, q))
        self.ctx.events.append(("q", op, q, me.name if me is not None else "main"))

    def chunk(self, data):
        if self.opts.get("symchunk"):
            return 1 + self.ctx.choose(self.opts["symchunk"])
        return max(1, min(data.shape[0], 4)) if data.ndim else None

    def time(self):
        self.now += self.clock
        return self.now

    # -- files ---------------------------------------------------------------------------------------------
    def check_dir(self, p):
        d = p.rpartition("/")[0]
        if d not in ("", "/fs"):
            raise FileNotFoundError(2, "No such file or directory", p)

    def open_file(self, filename, mode="r", title="", root_uep="/", filters=None, **k):
        self.ctx.live()
        if not isinstance(filename, str):
            raise TypeError("expected str, bytes or os.PathLike object")
        self.ev("h5open", filename, mode)
        same = [h for h in self.handles if h.filename == filename]
        if same and not (mode == "r" and all(h.mode == "r" for h in same)):
            raise ValueError("The file '%s' is already opened.  Please close it before reopening." % filename)
        if self.hav and filename in self.hav.tracked:
            c = self.hav.open(filename, mode)
        elif mode in ("r", "r+"):
            c = self.fs.get(filename)
            if c is None:
                raise OSError("``%s`` does not exist" % filename)
            if not isinstance(c, H5Content):
                raise HDF5ExtError("file does not seem to be a valid HDF5 file: %s" % filename)
        elif mode == "w":
            self.check_dir(filename)
            c = self.fs[filename] = H5Content()
        elif mode == "a":
            c = self.fs.get(filename)
            if c is None:
                self.check_dir(filename)
                c = self.fs[filename] = H5Content()
        else:
            raise ValueError("invalid mode %r" % mode)
        f = H5File(self, filename, mode, c)
        self.handles.append(f)
        return f

    def isfile(self, p):
        self.ctx.live()
        self.ev("isfile", p)
        if self.hav and p in self.hav.tracked:
            return self.hav.isfile(p)
        return p in self.fs

    def open(self, name, mode="r", *a, **k):
        self.ctx.live()
        if "U" in mode:
            raise ValueError("invalid mode: %r" % mode)
        self.ev("open", name, mode)
        if "r" in mode:
            c = self.fs.get(name)
            if c is None:
                raise FileNotFoundError(2, "No such file or directory: %r" % name)
            if "b" in mode:
                return BinFile(self, name, mode)
            if isinstance(c, TextContent):
                return TextFile(self, name, c, mode)
            self.ctx.stop(Unsupported("text read of a binary file"))
        self.check_dir(name)
        if "b" in mode:
            return BinFile(self, name, mode)
        self.ctx.stop(Unsupported("text write"))

    def np_load(self, name, *a, **k):
        c = self.fs.get(name)
        if c is None:
            raise FileNotFoundError(2, "No such file or directory: %r" % name)
        return c.a.copy()

    def np_save(self, name, a, **k):
        self.fs[name if name.endswith(".npy") else name + ".npy"] = NpyContent(wrap(a).copy())

    def np_loadtxt(self, name, dtype=float, comments="#", delimiter=None, converters=None, skiprows=0, **k):
        if isinstance(name, TextFile):
            c = TextContent(name.c.rows[name.i:], name.c.delim)
        else:
            c = self.fs.get(name)
        if c is None:
            raise FileNotFoundError("%s not found." % name)
        if delimiter is not None and delimiter != c.delim:
            raise ValueError("could not convert string to float")
        self.ctx.events.append(("textall", str(name), len(c.rows)))
        rows = []
        for r in c.rows[A.conc_ints(skiprows):]:
            for x in r:
                if not hasattr(x, "cell"):
                    raise ValueError("could not convert string %r to float64" % str(x))
            rows.append([x.cell() for x in r])
        if any(len(r) != len(rows[0]) for r in rows):
            raise ValueError("the number of columns changed")
        o = np.empty((len(rows), len(rows[0]) if rows else 0), dtype=object)
        for i, r in enumerate(rows):
            for j, x in enumerate(r):
                o[i, j] = lift(x)
        a = A.cast_array(A.from_obj(o, A.F64), np.dtype(dtype))
        nd = k.get("ndmin", 0)
        if nd < 2:
            sh = tuple(n for n in a.shape if n != 1)
            if nd == 1 and sh == ():
                sh = (1,)
            a = a.reshape(sh)      # numpy squeezes
        return a

    def csv_reader(self, f, dialect=None, delimiter=",", **k):
        for line in f:
            if not isinstance(line, Line):
                self.ctx.stop(Unsupported("csv over non-file"))
            if delimiter == line.delim:
                yield list(line.row)
            else:
                yield [str(line).rstrip("\n")]

    def dump(self, o, f, protocol=None, **k):
        f.put(snapshot(o))

    def load(self, f, **k):
        return snapshot(f.get())

    def dumps(self, o, protocol=None, **k):
        return PickledBytes(snapshot(o))

    def loads(self, b, **k):
        if not isinstance(b, PickledBytes):
            raise EOFError("Ran out of input") if not b else ValueError("not a pickle")
        return snapshot(b.o)

    def remove(self, p):
        if self.hav and p in self.hav.tracked:
            self.hav.remove(p)
        if p not in self.fs:
            raise FileNotFoundError(2, "No such file or directory", p)
        self.ev("remove", p)
        del self.fs[p]

    def rename(self, a, b):
        if self.hav and (a in self.hav.tracked or b in self.hav.tracked):
            self.ctx.stop(Unsupported("a worker renames a shared file"))
        if a not in self.fs:
            raise FileNotFoundError(2, "No such file or directory", a)
        self.ev("rename", a, b)
        self.fs[b] = self.fs.pop(a)

    def cleanup(self):
        for p in self.sched.procs:
            if p.started and not p.done:
                p.kill()

    def build(self):
        F = {}
        env = self
        F["tables"] = mod("tables", open_file=self.open_file, Atom=AtomT, Filters=lambda *a, **k: ("filters", a, k),
                          Float64Atom=lambda *a, **k: AtomT(np.float64), Float32Atom=lambda *a, **k: AtomT(np.float32),
                          File=H5File, Array=Node, CArray=Node, EArray=Node, Group=Group, Leaf=Node, Node=Node,
                          NoSuchNodeError=NoSuchNodeError, ClosedNodeError=ClosedNodeError, HDF5ExtError=HDF5ExtError,
                          is_hdf5_file=lambda p: isinstance(env.fs.get(p), H5Content))
        F["tables"].__dict__["exceptions"] = F["tables.exceptions"] = mod(
            "tables.exceptions", NoSuchNodeError=NoSuchNodeError, ClosedNodeError=ClosedNodeError, HDF5ExtError=HDF5ExtError)
        F["fasteners"] = mod("fasteners", InterProcessLock=lambda p, *a, **k: Lock(env, p))
        pk = mod("pickle", dump=self.dump, load=self.load, dumps=self.dumps, loads=self.loads, HIGHEST_PROTOCOL=5, DEFAULT_PROTOCOL=4,
                 PicklingError=__import__("pickle").PicklingError, UnpicklingError=__import__("pickle").UnpicklingError)
        F["pickle"] = F["cPickle"] = pk
        moves = mod("six.moves", cPickle=pk, xrange=range, range=range, zip=zip, map=map, filter=filter, reduce=__import__("functools").reduce)
        F["six"] = mod("six", integer_types=(int,), string_types=(str,), text_type=str, binary_type=bytes, moves=moves, PY2=False, PY3=True,
                       iteritems=lambda d: iter(d.items()), itervalues=lambda d: iter(d.values()), iterkeys=lambda d: iter(d.keys()))
        F["six.moves"] = moves
        path = mod("os.path", isfile=self.isfile, exists=self.isfile, join=real_os.path.join, basename=real_os.path.basename,
                   dirname=real_os.path.dirname, splitext=real_os.path.splitext, abspath=lambda p: p, realpath=lambda p: p,
                   expanduser=lambda p: p, isdir=lambda p: p in ("/fs", "/", "."), sep="/", normpath=real_os.path.normpath,
                   getsize=lambda p: 1, split=real_os.path.split)
        F["os"] = mod("os", path=path, remove=self.remove, unlink=self.remove, rename=self.rename, replace=self.rename,
                      getpid=lambda: env.pid, environ={}, getenv=lambda k, d=None: d, sep="/", linesep="\n", system=lambda *a: 0, name="posix",
                      makedirs=lambda *a, **k: None, cpu_count=lambda: 4, getcwd=lambda: "/fs", fsync=lambda *a: None, devnull="/dev/null",
                      error=OSError, PathLike=real_os.PathLike)
        F["os.path"] = path
        F["time"] = mod("time", time=self.time, sleep=lambda *a: None, perf_counter=self.time, monotonic=self.time, clock=self.time,
                        process_time=self.time, strftime=lambda *a: "")
        F["csv"] = mod("csv", reader=self.csv_reader, QUOTE_NONE=3, QUOTE_NONNUMERIC=2, Error=__import__("csv").Error)
        F["platform"] = mod("platform", system=lambda: "Linux")
        F["multiprocessing"] = mod("multiprocessing", Queue=lambda maxsize=0: Queue(env, maxsize), SimpleQueue=lambda: Queue(env),
                                   Process=lambda *a, **k: Proc(env.sched, *a, **k), Lock=lambda: Lock(env), RLock=lambda: Lock(env),
                                   cpu_count=lambda: 4, JoinableQueue=lambda m=0: Queue(env, m), current_process=lambda: env.sched.me(),
                                   get_context=lambda *a: F["multiprocessing"])
        return F

    def install(self):
        """call-level hooks that depend on this environment"""
        T = stubs.TABLE
        T[open] = self.open
        T[np.load], T[np.save] = self.np_load, self.np_save
        T[np.loadtxt] = T[np.genfromtxt] = self.np_loadtxt
