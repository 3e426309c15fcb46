"""Path exploration: execution-driven symbolic execution by re-execution with decision prefixes.

A path is one run of the real (instrumented) code on symbolic values.  Whenever the code needs a concrete
answer about a symbolic value (truth of a condition, an index, a loop bound) the engine asks z3 which answers
are feasible under the path condition, follows one and queues the others.  Exploration is complete when the
queue is empty: then every value of every symbolic input within the stated bounds lies on one explored path.
"""
import signal
import time
import z3

z3.set_param("memory_max_size", 2500)


class Unsupported(BaseException):
    """The engine cannot model something; the scenario stays undecided."""


class Infeasible(BaseException):
    """The current path's condition is unsatisfiable (an assumption failed)."""


class PathTimeout(Unsupported):
    """One path ran longer than its share: possibly an endless loop of the code."""


def _alarm(*a):
    c = Ctx.cur
    e = PathTimeout("path did not end in time")
    if c is not None and c.abort is None:
        c.abort = e
    raise e


signal.signal(signal.SIGALRM, _alarm)


class Ctx:
    cur = None

    def __init__(self, prefix, stats, opts):
        self.prefix = prefix
        self.pos = 0
        self.trace = []
        self.pending = []
        self.stats = stats
        self.opts = opts
        self.solver = z3.Solver()
        self.solver.set("timeout", opts.get("feas_ms", 4000))
        self.pcs = []
        self.facts = []          # contract facts of stubs, used when a check needs them
        self.fact_ids = set()
        self.model = None
        self.model_valid = False
        self.abort = None
        self.approx = False
        self.fresh = {}
        self.memo = {}
        self.events = []
        self.inputs = []         # (name, kind, payload) registered by the world
        self.rlog = []           # outcomes of the random generator, for replay
        self.deadline = opts.get("deadline")
        self.nsteps = 0

    # -- basic -----------------------------------------------------------------------------------------
    def stop(self, exc):
        if self.abort is None:
            self.abort = exc
        raise exc

    def live(self):
        if self.abort is not None:
            raise self.abort
        self.nsteps += 1
        if self.deadline and time.time() > self.deadline:
            self.stop(Unsupported("time budget of the scenario used up"))

    def name(self, base):
        k = self.fresh.get(base, 0)
        self.fresh[base] = k + 1
        return "%s!%d" % (base, k)

    def add(self, z):
        self.pcs.append(z)
        self.solver.add(z)

    def assume(self, z):
        """Add a condition to the path; the path is dropped when it becomes infeasible."""
        self.live()
        z = z3.simplify(z)
        if z3.is_true(z):
            return
        self.add(z)
        if self.model_valid and z3.is_true(self.model.eval(z, model_completion=True)):
            return
        self.model_valid = False
        if self.pos < len(self.prefix):
            return
        self._check_now()

    def axiom(self, z):
        """A fact true of every execution (no feasibility check needed)."""
        self.add(z)
        if self.model_valid and not z3.is_true(self.model.eval(z, model_completion=True)):
            self.model_valid = False

    def fact(self, z):
        k = z.get_id()
        if k not in self.fact_ids:
            self.fact_ids.add(k)
            self.facts.append(z)

    def _timed(self, *asm):
        t = time.time()
        r = self.solver.check(*asm)
        self.stats["solver_s"] += time.time() - t
        self.stats["feas_queries"] += 1
        return r

    def _check_now(self):
        r = self._timed()
        if r == z3.sat:
            self.model = self.solver.model()
            self.model_valid = True
        elif r == z3.unsat:
            self.stop(Infeasible())
        else:
            self.approx = True

    def get_model(self):
        if not self.model_valid:
            self._check_now()
        return self.model if self.model_valid else None

    def feasible(self, z):
        """sat/unsat/unknown of pc & z, with model."""
        self.solver.push()
        self.solver.add(z)
        t = time.time()
        r = self.solver.check()
        self.stats["solver_s"] += time.time() - t
        self.stats["feas_queries"] += 1
        m = self.solver.model() if r == z3.sat else None
        self.solver.pop()
        if r == z3.unknown:
            self.approx = True
            self.stats["feas_unknown"] += 1
        return r, m

    # -- decisions --------------------------------------------------------------------------------------
    def branch(self, z, prefer=True):
        self.live()
        z = z3.simplify(z)
        if z3.is_true(z):
            return True
        if z3.is_false(z):
            return False
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            assert d[0] in "bB", "nondeterministic re-execution: %r" % (d,)
            self.pos += 1
            self.trace.append(d)
            if d[0] == "b":
                self.add(z if d[1] else z3.Not(z))
                self.model_valid = False
            return d[1]
        nz = z3.simplify(z3.Not(z))
        m = self.get_model()
        mt = mf = None
        ft = ff = None
        if m is not None:
            if z3.is_true(m.eval(z, model_completion=True)):
                ft, mt = z3.sat, m
            elif z3.is_true(m.eval(nz, model_completion=True)):
                ff, mf = z3.sat, m
        if ft is None:
            ft, mt = self.feasible(z)
        if ff is None:
            if ft == z3.unsat:
                ff, mf = z3.sat, m
            else:
                ff, mf = self.feasible(nz)
        t_ok, f_ok = ft != z3.unsat, ff != z3.unsat
        if t_ok and f_ok:
            v = bool(prefer)
            self.pending.append(self.trace + [("b", not v)])
            self.trace.append(("b", v))
            self.add(z if v else nz)
            m2 = mt if v else mf
            self.model, self.model_valid = m2, m2 is not None
            self.stats["forks"] += 1
        else:
            if not t_ok and not f_ok:
                self.stop(Infeasible())
            v = t_ok
            self.trace.append(("B", v))
        self.pos += 1
        return v

    def choose(self, n):
        """Unconstrained n-way choice."""
        self.live()
        if n <= 0:
            self.stop(Infeasible())
        if n == 1:
            return 0
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            assert d[0] == "k" and d[2] == n, "nondeterministic re-execution"
            self.pos += 1
            self.trace.append(d)
            return d[1]
        for i in range(n - 1, 0, -1):
            self.pending.append(self.trace + [("k", i, n)])
        self.stats["forks"] += n - 1
        self.trace.append(("k", 0, n))
        self.pos += 1
        return 0

    def concretize(self, z, conv, limit=None, cond=None):
        """Case split on the value of z (complete: all feasible values are explored).

        conv turns a model value into the Python value; cond(v) builds the z3 condition 'z has value v'."""
        limit = limit or self.opts.get("conc_limit", 48)
        if cond is None:
            cond = lambda v: z == v
        n = 0
        while True:
            self.live()
            if self.pos < len(self.prefix):
                d = self.prefix[self.pos]
                assert d[0] in "vV", "nondeterministic re-execution"
                self.pos += 1
                self.trace.append(d)
                v, eq = d[1], d[2]
                if d[0] == "v":
                    self.add(cond(v) if eq else z3.Not(cond(v)))
                    self.model_valid = False
                if eq:
                    return v
                n += 1
                continue
            m = self.get_model()
            if m is None:
                self.stop(Unsupported("no model to concretise %s" % str(z)[:80]))
            v = conv(m)
            if v is None:
                self.stop(Unsupported("cannot concretise %s" % str(z)[:80]))
            r, _ = self.feasible(z3.Not(cond(v)))
            if r == z3.unsat:
                self.trace.append(("V", v, True))
                self.pos += 1
                return v
            n += 1
            if n > limit:
                self.stop(Unsupported("more than %d values for %s" % (limit, str(z)[:60])))
            self.pending.append(self.trace + [("v", v, False)])
            self.trace.append(("v", v, True))
            self.pos += 1
            self.stats["forks"] += 1
            self.add(cond(v))
            return v


def new_stats():
    return {"paths": 0, "infeasible": 0, "forks": 0, "feas_queries": 0, "feas_unknown": 0, "solver_s": 0.0,
            "checks": 0, "check_queries": 0, "by_normal_form": 0, "by_pc": 0, "by_facts": 0, "unknown": 0}


def explore(run, opts, on_path, stats):
    """run(ctx) executes one path; on_path(ctx, outcome) is told how it ended. Returns list of problems."""
    stack = [[]]
    problems = []
    maxpaths = opts.get("max_paths", 4000)
    while stack:
        if stats["paths"] + stats["infeasible"] >= maxpaths:
            problems.append("more than %d paths" % maxpaths)
            break
        if opts.get("deadline") and time.time() > opts["deadline"]:
            problems.append("time budget of the scenario used up with %d prefixes left" % len(stack))
            break
        prefix = stack.pop()
        from .val import reset_atoms
        reset_atoms()
        ctx = Ctx(prefix, stats, opts)
        Ctx.cur = ctx
        outcome = None
        try:
            signal.setitimer(signal.ITIMER_REAL, opts.get("path_s", 90))
            try:
                run(ctx)
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
            if ctx.abort is not None:
                raise ctx.abort
            outcome = ("ok", None)
        except Infeasible:
            outcome = ("infeasible", None)
        except PathTimeout as e:
            outcome = ("timeout", e)
        except Unsupported as e:
            outcome = ("unsupported", e)
        except (MemoryError, z3.Z3Exception) as e:
            outcome = ("unsupported", e)
        except Exception as e:
            if ctx.abort is not None:
                outcome = ("infeasible", None) if isinstance(ctx.abort, Infeasible) else \
                    ("timeout", ctx.abort) if isinstance(ctx.abort, PathTimeout) else ("unsupported", ctx.abort)
            else:
                outcome = ("raised", e)
        stack.extend(ctx.pending)
        if outcome[0] == "infeasible":
            stats["infeasible"] += 1
        else:
            stats["paths"] += 1
        stop = on_path(ctx, outcome)
        Ctx.cur = None
        if stop:
            break
    return problems
