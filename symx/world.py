"""The symbolic world: inputs are symbolic variables, checks are discharged by the solver."""
import time
from fractions import Fraction
import numpy as np
import z3
from . import val as V, arr as A, stubs, core
from .core import Ctx, Unsupported, Infeasible
from .env import Env, H5Content, NodeData, TextContent, NpyContent, BinContent, Cell
from .loader import Importer
from .val import num, SNum, SBool, SInt, SReal, zb
from .arr import SymArray, obj, from_obj, wrap
from .wbase import World

F64, F32 = np.dtype(np.float64), np.dtype(np.float32)
TINY = Fraction(1, 10 ** 12)


NETS = {}          # queue networks already decided


class Candidate:
    def __init__(self, label, kind, values, detail=""):
        self.label, self.kind, self.values, self.detail = label, kind, values, detail


def model_value(m, z):
    v = m.eval(z, model_completion=True)
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    return None


class SymWorld(World):
    symbolic = True

    def __init__(self, ctx, opts, rec):
        self.ctx, self.opts, self.rec = ctx, opts, rec
        self.env = Env(ctx, opts)
        self.env.install()
        self.imp = Importer(self.env.fakes)
        self.cands = []
        self.undec = []
        self.labels = set()
        self.np = np

    def load(self, name):
        return self.imp.load(name)

    def add_modules(self, mods):
        self.env.fakes.update(mods)

    # ---- inputs
    def _in(self, name, kind, payload):
        self.ctx.inputs.append((name, kind, payload))

    def int(self, name, lo=None, hi=None, probe=None):
        v = V.var_int("i_" + name)
        if lo is not None:
            self.ctx.assume((v >= lo).z)
            if lo > 0:
                V.ATOMS[next(iter(v.p))[0][0]].positive = True
        if hi is not None:
            self.ctx.assume((v <= hi).z)
        self._in(name, "int", v)
        return v

    def real(self, name, lo=None, hi=None, probe=None, open=False):
        v = V.var_real("r_" + name)
        if lo is not None:
            self.ctx.assume(zb(v > lo if open else v >= lo))
        if hi is not None:
            self.ctx.assume(zb(v < hi if open else v <= hi))
        if lo is not None and (lo > 0 or open and lo == 0):
            a = next(iter(v.p))[0][0]
            V.ATOMS[a].positive = True
        self._in(name, "real", v)
        return v

    def choice(self, name, options):
        options = list(options)
        k = self.ctx.choose(len(options))
        self._in(name, "choice", k)
        return options[k]

    def bool(self, name):
        return self.choice(name, [False, True])

    def perm(self, name, n):
        rest, out = list(range(n)), []
        while rest:
            out.append(rest.pop(self.ctx.choose(len(rest))))
        self._in(name, "list", out)
        return out

    def mat(self, name, shape, dtype=np.float64, lo=None, hi=None, positive=False, probe=None, integer=False):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        o = np.empty(shape, dtype=object)
        for i in np.ndindex(o.shape):
            n = name + "_" + "_".join(map(str, i))
            v = V.var_int(n) if integer else V.var_real(n)
            if positive:
                self.ctx.assume(zb(v > 0))
                V.ATOMS[next(iter(v.p))[0][0]].positive = True
            if lo is not None:
                self.ctx.assume(zb(v >= lo))
            if hi is not None:
                self.ctx.assume(zb(v <= hi))
            o[i] = v
        self._in(name, "mat", o)
        return from_obj(o, np.dtype(dtype))

    def onehot(self, name, n, c, dtype=np.float64):
        """class membership matrix: every assignment of n samples to c classes"""
        lab = []
        o = np.zeros((n, c), dtype=dtype)
        for i in range(n):
            k = self.ctx.choose(c)
            lab.append(k)
            o[i, k] = 1
        self._in(name, "list", lab)
        return wrap(o), lab

    def shuffle_mode(self, m):
        self.ctx.opts = dict(self.ctx.opts, shuffle=m)

    # ---- assumptions and checks
    def assume(self, c):
        self.ctx.assume(zb(self._cond(c)))

    def _cond(self, c):
        if isinstance(c, np.ndarray):
            return V.b_and(*[x for x in obj(wrap(c)).reshape(-1)])
        return c

    def check(self, cond, label, detail=""):
        st = self.ctx.stats
        st["checks"] += 1
        self.labels.add(label)
        cond = self._cond(cond)
        if isinstance(cond, (bool, np.bool_)):
            if cond:
                st["by_normal_form"] += 1
                return True
            return self._fail(label, z3.BoolVal(True), detail or "condition is false")
        z = zb(cond)
        return self._prove(z, label, detail)

    def eq(self, a, b, label, tol=None):
        """same shape and equal element by element, for every value of the inputs"""
        st = self.ctx.stats
        st["checks"] += 1
        self.labels.add(label)
        aa, bb = self._arr(a), self._arr(b)
        if aa is None or bb is None:
            return self._fail(label, z3.BoolVal(True), "not an array: %s / %s" % (type(a), type(b)))
        if aa.shape != bb.shape:
            return self._fail(label, z3.BoolVal(True), "shape %s instead of %s" % (aa.shape, bb.shape))
        bad = []
        eqp = self.ctx.memo.get("eqpolys", ())
        usedf = False
        for i in np.ndindex(aa.shape):
            x, y = aa[i], bb[i]
            if isinstance(x, SBool) or isinstance(y, SBool):
                e = V.o_eq(num(x), num(y))
                if e is not True:
                    bad.append(zb(e))
                continue
            x, y = num(x), num(y)
            if x.f is not None or y.f is not None:
                same = x.f is not None and y.f is not None and (x.f == y.f or (x.f != x.f and y.f != y.f))
                if not same:
                    return self._fail(label, z3.BoolVal(True), "element %s is %r instead of %r" % (i, x, y))
                continue
            d = V.p_add(x.p, y.p, -1)
            if not d:
                continue
            d = {m: c for m, c in d.items() if abs(c) > TINY}      # rounding of numeric literals
            if not d:
                continue
            if V.p_key(V.p_monic(d)[1]) in eqp:
                usedf = True
                continue
            d2 = V.clear_denominators(d)
            if not d2 or all(abs(c) <= TINY for c in d2.values()):
                continue
            d3 = self._pin_poly(d2)
            if d3 is not d2:
                d2 = d3
                if all(abs(c) <= TINY for c in d2.values()):
                    usedf = True
                    continue
            bad.append(zb(V.o_eq(SReal(d2), SReal({}))))
        if not bad:
            st["by_facts" if usedf else "by_normal_form"] += 1
            return True
        return self._prove(z3.And(*bad) if len(bad) > 1 else bad[0], label, "%d of %d elements differ" % (len(bad), aa.size), bad)

    def _arr(self, a):
        if isinstance(a, SymArray):
            return obj(a)
        if isinstance(a, (np.ndarray, list, tuple)):
            try:
                return obj(wrap(a))
            except TypeError:
                return None
        if isinstance(a, (SNum, SBool, int, float, np.generic)):
            o = np.empty((), dtype=object)
            o[()] = a
            return o
        if hasattr(a, "__h5node__"):
            return obj(a[:])
        return None

    def same(self, a, b):
        """identical as expressions (no case split): a match means equal for all inputs"""
        aa, bb = self._arr(a), self._arr(b)
        if aa is None or bb is None or aa.shape != bb.shape:
            return False
        eqp = self.ctx.memo.get("eqpolys", ())
        for i in np.ndindex(aa.shape):
            x, y = num(aa[i]), num(bb[i])
            if x.f is not None or y.f is not None:
                if x.f is None or y.f is None or x.f != y.f:
                    return False
                continue
            d = {m: c for m, c in V.p_add(x.p, y.p, -1).items() if abs(c) > TINY}
            if d and V.p_key(V.p_monic(d)[1]) not in eqp and V.clear_denominators(d):
                return False
        return True

    def perms(self):
        """permutations drawn from the random generator so far"""
        return [list(map(int, p)) for k, p in self.ctx.rlog if k == "perm"]

    def patch(self, o, k, v):
        setattr(o, k, v)

    def raises(self, fn, label, exc=Exception):
        """fn must raise"""
        try:
            fn()
        except exc:
            self.ctx.live()
            self.ctx.stats["checks"] += 1
            self.ctx.stats["by_normal_form"] += 1
            self.labels.add(label)
            return True
        self.check(False, label, "no exception")
        return False

    def attempt(self, fn):
        """(result, None) or (None, exception)"""
        try:
            return fn(), None
        except Exception as e:
            self.ctx.live()
            return None, e

    def is_array(self, a):
        return isinstance(a, np.ndarray)

    def dtype(self, a):
        if isinstance(a, SymArray):
            return a._sdt
        return np.dtype(a.dtype)

    def concrete(self, x):
        """case split on the value of an integer"""
        if isinstance(x, SNum):
            return x.__index__()
        return int(x)

    def ite(self, c, a, b):
        return V.ite(c if isinstance(c, (bool, SBool)) else V.mkb(zb(c)), a, b)

    def both(self, *cs):
        return V.b_and(*cs)

    def any_of(self, *cs):
        return V.b_or(*cs)

    def no(self, c):
        return V.b_not(c)

    # ---- processes
    def async_io(self, policy, late=False, budget=0):
        """how the processes are scheduled: 'lazy' the caller first, 'eager' the others first, 'any' all schedules that
        differ from 'lazy' in at most `budget` choices; late: what is put into a queue is stored some time later"""
        self.env.policy, self.env.late_pickle, self.env.sched.budget = policy, late, budget

    def network(self, label):
        """no schedule of the processes used so far ends with all of them waiting"""
        from . import qnet
        st = self.ctx.stats
        env = self.env
        st["checks"] += 1
        self.labels.add(label)
        if env.timed:
            return self._undecided(label, "waiting with time limits")
        try:
            t = qnet.traces(env.qtrace)
        except qnet.NotNet as e:
            return self._undecided(label, str(e))
        if len(t) < 2:
            st["by_normal_form"] += 1
            return True
        k = qnet.key(t, env.caps)
        if k not in NETS:
            t0 = time.time()
            NETS[k] = qnet.stuck(t, env.caps, self.opts.get("check_ms", 30000))
            st["solver_s"] += time.time() - t0
            st["check_queries"] += 1
        v, sched, n = NETS[k]
        if v == z3.unsat:
            st["by_pc"] += 1
            return True
        if v == z3.sat:
            return self._fail(label, z3.BoolVal(True), "all processes wait after so many operations: %r" % (sched,))
        return self._undecided(label, "solver gave up")

    def _undecided(self, label, why):
        self.cands.append(Candidate(label, "unknown", self.values(None), why))
        return False

    # ---- proving
    def _prove(self, z, label, detail, parts=None):
        st = self.ctx.stats
        ctx = self.ctx
        ms = self.opts.get("check_ms", 10000)
        t = time.time()
        goals = [z]
        verdict, model = self._query(ctx.pcs, z, ms)
        st["solver_s"] += time.time() - t
        st["check_queries"] += 1
        if verdict == z3.unsat:
            st["by_pc"] += 1
            return True
        if ctx.facts:
            t = time.time()
            v2, m2 = self._query(ctx.pcs + ctx.facts, z, ms)
            if v2 == z3.unknown and parts and len(parts) > 1:
                for p in parts:
                    v3, m3 = self._query(ctx.pcs + ctx.facts, p, ms)
                    if v3 != z3.unsat:
                        v2, m2 = v3, m3
                        break
                else:
                    v2 = z3.unsat
            st["solver_s"] += time.time() - t
            st["check_queries"] += 1
            if v2 == z3.unsat:
                st["by_facts"] += 1
                return True
            if v2 == z3.sat:
                verdict, model = v2, m2
        if verdict == z3.unknown:
            t = time.time()
            sub = self._pinned()
            if sub:
                zs = z3.simplify(z3.substitute(z, *sub))
                ps = [z3.simplify(z3.substitute(c, *sub)) for c in ctx.pcs + ctx.facts]
                v4, m4 = self._query(ps, zs, ms)
                st["check_queries"] += 1
                if v4 == z3.unsat:
                    st["solver_s"] += time.time() - t
                    st["by_pc"] += 1
                    return True
            st["solver_s"] += time.time() - t
            st["unknown"] += 1
        self._cand(label, "fail" if verdict == z3.sat else "unknown", model, detail)
        return False

    def _pin_poly(self, p):
        """replaces integer terms that have a single value on this path"""
        sub = {}
        m = None
        key = len(self.ctx.pcs)
        memo = self.ctx.memo.setdefault("pins", {})
        for a in {a for mo in p for a, e in mo}:
            A = V.ATOMS[a]
            if not A.isint:
                continue
            if (a, key) not in memo:
                V.use(A)
                m = m if m is not None else self.ctx.get_model()
                v = model_value(m, A.z) if m is not None else None
                ok = v is not None and self.ctx.feasible(A.z != v)[0] == z3.unsat
                memo[a, key] = int(v) if ok else None
            if memo[a, key] is not None:
                sub[a] = memo[a, key]
        if not sub:
            return p
        r = {}
        for mo, c in p.items():
            rest = []
            for a, e in mo:
                if a in sub:
                    if sub[a] == 0 and e < 0:
                        return p
                    c = c * Fraction(sub[a]) ** e
                else:
                    rest.append((a, e))
            if c:
                r = V.p_add(r, {tuple(rest): c})
        return r

    def _pinned(self):
        """integer inputs that have a single value on this path"""
        key = len(self.ctx.pcs)
        if getattr(self, "_pin", (None,))[0] == key:
            return self._pin[1]
        m = self.ctx.get_model()
        out = []
        if m is not None:
            for d in m.decls():
                if d.arity() == 0 and d.range() == z3.IntSort():
                    x = d()
                    v = m.eval(x, model_completion=True)
                    if self.ctx.feasible(x != v)[0] == z3.unsat:
                        out.append((x, v))
        self._pin = (key, out)
        return out

    def _query(self, pcs, z, ms):
        nz = z3.simplify(z3.Not(z))
        for extra in (True, False):
            s = z3.Solver()
            s.set("timeout", ms)
            s.add(*pcs)
            s.add(nz)
            if extra:        # prefer a small, readable counterexample
                bs = self._bounds()
                if not bs:
                    continue
                s.set("timeout", max(ms // 4, 500))
                s.add(*bs)
            r = s.check()
            if r == z3.sat:
                return r, s.model()
            if not extra:
                return r, None
        return z3.unknown, None

    def _bounds(self):
        out = []
        for name, kind, p in self.ctx.inputs:
            for x in (obj(from_obj(p, F64)).reshape(-1) if kind == "mat" else [p] if kind in ("int", "real") else []):
                zz = V.zn(x)
                out.append(z3.And(zz >= -4, zz <= (12 if kind == "int" else 4)))
        return out

    def _fail(self, label, z, detail):
        self._cand(label, "fail", self.ctx.get_model(), detail)
        return False

    def _cand(self, label, kind, model, detail):
        self.cands.append(Candidate(label, kind, self.values(model), detail))
        if len(self.cands) > 6:
            self.ctx.stop(Unsupported("many candidate violations on one path"))

    def values(self, model):
        """concrete inputs for the replay"""
        out = {}
        if model is None:
            try:
                model = self.ctx.get_model()
            except Infeasible:
                model = None
        decls = {d.name() for d in model.decls()} if model is not None else set()

        def ev(x):
            if isinstance(x, (SNum, SBool)):
                z = zb(x) if isinstance(x, SBool) else V.zn(x)
                if model is None:
                    return None
                if z3.is_const(z) and z.decl().kind() == z3.Z3_OP_UNINTERPRETED and z.decl().name() not in decls:
                    return None
                return model_value(model, z)
            return float(x) if isinstance(x, (float, np.floating)) else int(x)
        for name, kind, p in self.ctx.inputs:
            if kind in ("choice", "list"):
                out[name] = p
            elif kind == "mat":
                out[name] = [ev(x) for x in p.reshape(-1)]
            else:
                out[name] = ev(p)
        rnd = []
        for kind, p in self.ctx.rlog:
            if isinstance(p, np.ndarray) and p.dtype == object:
                rnd.append([kind, list(p.shape), [ev(x) for x in p.reshape(-1)]])
            else:
                rnd.append([kind, None, [int(x) for x in p]])
        return {"inputs": out, "rnd": rnd, "script": getattr(self, "script", None)}

    # ---- files
    def path(self, name):
        return "/fs/" + name

    def put_h5(self, name, a, dtype=None):
        p = self.path(name)
        c = H5Content()
        a = wrap(a)
        a = A.cast_array(a, np.dtype(dtype)) if dtype else a
        c.nodes["data"] = NodeData("data", a.copy(), "carray", self.env.chunk(a))
        self.env.fs[p] = c
        return p

    def put_text(self, name, a, delim=" ", header=0):
        rows = [["head", "er%d" % i] for i in range(header)]
        for i, r in enumerate(obj(wrap(a))):
            rows.append([Cell("%s%d_%d" % (name, i, j), x) for j, x in enumerate(r)])
        p = self.path(name)
        self.env.fs[p] = TextContent(rows, delim)
        return p

    def put_npy(self, name, a):
        p = self.path(name)
        self.env.fs[p] = NpyContent(wrap(a).copy())
        return p

    def get_h5(self, path):
        if any(h.filename == path and h.mode != "r" for h in self.env.handles):
            raise ValueError("The file '%s' is still open for writing" % path)
        c = self.env.fs[path]
        d = next(iter(c.nodes.values()))
        return d.data.copy()

    def h5_attrs(self, path):
        c = self.env.fs[path]
        d = next(iter(c.nodes.values()))
        return dict(d.attrs)

    def h5_nodes(self, path):
        return len(self.env.fs[path].nodes)

    def exists(self, path):
        return path in self.env.fs

    def open_handles(self):
        return len(self.env.handles)

    def h5_handle(self, path, mode="r"):
        f = self.env.open_file(path, mode)
        return next(f.walk_nodes(classname="Leaf"))

    # ---- parallel workers
    def parallel(self, workers, files, label):
        """run the workers as parallel processes; files: {path: expected final contents}"""
        from . import par
        env = self.env
        tracked = {}
        for p, exp in files.items():
            c = env.fs.get(p)
            init = next(iter(c.nodes.values())).data.copy() if c is not None else None
            exp = wrap(exp)
            tracked[p] = {"init": init, "expected": exp, "shape": tuple(exp.shape), "dtype": init._sdt if init is not None else exp._sdt}
        fs, imp, traces = env.fs, self.imp, []
        for i, fn in enumerate(workers):
            env.fs = {p: c for p, c in fs.items() if p not in tracked}
            env.locks, env.handles, env.pid = {}, [], 5000 + i
            env.hav = h = par.Havoc(env, tracked, i)
            self.imp = Importer(env.fakes)
            try:
                fn()
            except Exception as e:
                self.ctx.live()
                h.add("fail", None, what=repr(e))
            h.add("end")
            traces.append(h.ev)
        env.hav, env.fs, self.imp, env.pid = None, fs, imp, 4241
        env.locks, env.handles = {}, []
        if par.analyse(self, traces, tracked, label) == "infeasible":
            self.ctx.stop(Infeasible())

    # ---- observation of row accesses
    def rows_log(self):
        """row counts of reads / writes of data files so far"""
        return [(e[0], e[2]) for e in self.ctx.events if e[0] in ("h5read", "h5write", "h5append", "textall", "textline")]

    def clear_log(self):
        del self.ctx.events[:]
