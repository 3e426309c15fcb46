"""Parallel workers over shared files.

Each worker's code is executed symbolically by itself; whatever the other workers may have done to the shared files is
arbitrary: a file whose existence is not known yet may or may not exist, and every element read from a shared file is a
fresh unknown.  The events of the workers (existence tests, opening, reading, writing, closing, locking) then go to the
solver together: one time per event, program order within a worker, mutual exclusion of locks, and every value that was
read is the last one written before.  The solver looks for an order of events in which a guarantee breaks."""
import numpy as np
import z3
from . import val as V, arr as A
from .arr import obj, from_obj
from .core import Unsupported, Infeasible
from .val import num


class Havoc:
    def __init__(self, env, tracked, worker):
        self.env, self.tracked, self.worker = env, tracked, worker
        self.known = {p for p, t in tracked.items() if t["init"] is not None}
        self.made = {}           # path -> (shape, dtype) of what this worker created
        self.ev = []
        self.locks = []
        self.quiet = False

    def add(self, kind, path=None, **k):
        k.update(kind=kind, path=path, worker=self.worker, held=tuple(self.locks))
        self.ev.append(k)

    def exists(self, p):
        if p in self.known:
            return True
        r = bool(self.env.ctx.choose(2))
        if r:
            self.known.add(p)
        return r

    def isfile(self, p):
        r = self.exists(p)
        self.add("isfile", p, result=r)
        return r

    def remove(self, p):
        self.env.ctx.stop(Unsupported("a worker removes a shared file"))

    def open(self, f, mode):
        from .env import H5Content, NodeData
        p = f
        if mode == "w":
            self.add("open", p, mode="w", result=None)
            self.known.add(p)
            return H5Content()
        r = self.exists(p)
        self.add("open", p, mode=mode, result=r)
        if not r:
            if mode in ("r", "r+"):
                raise OSError("``%s`` does not exist" % p)
            self.known.add(p)
            return H5Content()
        c = H5Content()
        t = self.tracked[p]
        shape, dt = self.made.get(p) or (t["shape"], t["dtype"])
        o = np.empty(shape, dtype=object)
        for i in np.ndindex(o.shape):
            o[i] = V.var_real(self.env.ctx.name("other"))
        d = NodeData("data", from_obj(o, dt), "carray", None)
        d.attrs.update(mean=None, std=None)
        c.nodes["data"] = d
        return c

    def comps(self, data, k):
        ix = np.arange(data.size).reshape(data.shape)[k]
        return [int(i) for i in np.asarray(ix).reshape(-1)]

    def read(self, f, d, k):
        cs = self.comps(d.data, k)
        o = obj(d.data).reshape(-1)
        vs = []
        for i in cs:
            v = V.var_real(self.env.ctx.name("seen"))
            o[i] = v
            vs.append(v)
        d.data = from_obj(o.reshape(d.data.shape), d.data._sdt)
        self.add("read", f.filename, comps=cs, vals=vs)

    def wrote(self, f, d, k):
        cs = self.comps(d.data, k)
        o = obj(d.data).reshape(-1)
        self.add("write", f.filename, comps=cs, vals=[num(o[i]) for i in cs])

    def created(self, f, d):
        self.made[f.filename] = (tuple(d.data.shape), d.data._sdt)
        self.add("create", f.filename, shape=tuple(d.data.shape))
        self.wrote(f, d, Ellipsis)

    def closed(self, f):
        self.add("close", f.filename)

    def lock(self, p):
        self.add("lock", p)
        self.locks.append(p)

    def unlock(self, p):
        if p in self.locks:
            self.locks.remove(p)
        self.add("unlock", p)


class Lin:
    """values as linear expressions: any nonlinear term of the inputs becomes one unknown"""
    def __init__(self):
        self.m = {}
        self.r = {}

    def __call__(self, x):
        x = num(x)
        if x.f is not None:
            return None
        s = []
        for mo, c in V.clear_denominators(x.p).items() if False else x.p.items():
            c = z3.RealVal(str(c))
            if not mo:
                s.append(c)
            else:
                if mo not in self.m:
                    self.m[mo] = z3.Real("m%d" % len(self.m))
                s.append(c * self.m[mo])
        return z3.Sum(s) if s else z3.RealVal(0)


def analyse(w, traces, tracked, label):
    """traces: list (per worker) of event lists"""
    ctx = w.ctx
    st = ctx.stats
    for i, tr in enumerate(traces):
        for j, e in enumerate(tr):
            e["t"] = z3.Int("t_%d_%d" % (i, j))
    order, locks, exist, conf = [], [], [], []
    for tr in traces:
        for a, b in zip(tr, tr[1:]):
            order.append(a["t"] < b["t"])
        if tr:
            order.append(tr[0]["t"] >= 0)
    # sections of locks
    secs = []
    for i, tr in enumerate(traces):
        open_ = {}
        for e in tr:
            if e["kind"] == "lock":
                open_.setdefault(e["path"], []).append(e)
            elif e["kind"] == "unlock" and open_.get(e["path"]):
                secs.append((i, e["path"], open_[e["path"]].pop(), e))
        for p, l in open_.items():
            for a in l:
                secs.append((i, p, a, tr[-1]))      # released when the process ends
    for x in range(len(secs)):
        for y in range(x):
            i, p, a, r = secs[x]
            j, q, b, s = secs[y]
            if i != j and p == q:
                locks.append(z3.Or(r["t"] < b["t"], s["t"] < a["t"]))
    ev = {p: [e for tr in traces for e in tr if e["path"] == p] for p in tracked}
    for p, es in ev.items():
        for x in range(len(es)):
            for y in range(x):
                if es[x]["worker"] != es[y]["worker"]:
                    conf.append(es[x]["t"] != es[y]["t"])
        born = [e for e in es if e["kind"] == "open" and (e["mode"] == "w" or e["mode"] == "a" and e["result"] is False)]
        for e in es:
            if e["kind"] in ("isfile", "open") and e.get("result") is not None:
                if tracked[p]["init"] is not None:
                    if not e["result"]:
                        return "infeasible"
                    continue
                before = [b["t"] < e["t"] for b in born if b is not e]
                exist.append(z3.Or(*before) if e["result"] else z3.Not(z3.Or(*before)))
    base = order + locks + exist + conf
    lin = Lin()
    last = {}        # writes per component
    for p, es in ev.items():
        t = tracked[p]
        n = int(np.prod(t["shape"]))
        for c in range(n):
            ws = []
            for e in es:
                if e["kind"] == "write" and c in e["comps"]:
                    ws.append((e["t"], lin(e["vals"][e["comps"].index(c)])))
                elif e["kind"] == "open" and e["mode"] == "w":
                    ws.append((e["t"], None))
            last[p, c] = ws
    vals = []
    for p, es in ev.items():
        t = tracked[p]
        for e in es:
            if e["kind"] != "read":
                continue
            for c, v in zip(e["comps"], e["vals"]):
                ws = last.get((p, c), [])
                v = lin(v)
                alts = []
                for tw, x in ws:
                    k = [tw < e["t"]] + [z3.Or(t2 < tw, t2 > e["t"]) for t2, _ in ws if t2 is not tw]
                    if x is not None:
                        k.append(v == x)
                    alts.append(z3.And(*k))
                k = [t2 > e["t"] for t2, _ in ws]
                if t["init"] is not None:
                    k.append(v == lin(obj(t["init"]).reshape(-1)[c]))
                alts.append(z3.And(*k) if k else z3.BoolVal(True))
                vals.append(z3.Or(*alts))

    def ask(*extra):
        import time
        s = z3.Solver()
        s.set("timeout", w.opts.get("check_ms", 10000) * 4)
        s.add(*base)
        s.add(*extra)
        t0 = time.time()
        r = s.check()
        st["solver_s"] += time.time() - t0
        st["check_queries"] += 1
        return r, (s.model() if r == z3.sat else None)

    def script(m, upto=None):
        es = [e for tr in traces for e in tr if e["kind"] in ("isfile", "open", "close", "lock", "unlock")]
        es = [(m.eval(e["t"], model_completion=True).as_long(), e) for e in es]
        if upto is not None:
            es = [(t, e) for t, e in es if upto(e)]
        return [[e["worker"], e["kind"], e["path"].rpartition("/")[2]] for t, e in sorted(es, key=lambda x: (x[0], x[1]["worker"]))]

    r, m = ask(*vals)
    if r == z3.unsat:
        return "infeasible"
    if r == z3.sat:
        w.script = script(m)

    def goal(name, bad, extra=()):
        st["checks"] += 1
        w.labels.add("%s: %s" % (label, name))
        if not bad:
            st["by_normal_form"] += 1
            return
        r, m = ask(z3.Or(*bad), *extra)
        if r == z3.unsat:
            st["by_pc"] += 1
            return
        if r == z3.unknown:
            st["unknown"] += 1
        else:
            w.script = script(m)
        w._cand("%s: %s" % (label, name), "fail" if r == z3.sat else "unknown", None, "an order of events exists")

    # a worker fails
    fails = [e for tr in traces for e in tr if e["kind"] == "fail"]
    if fails:
        st["checks"] += 1
        w.labels.add(label + ": no worker fails")
        w._cand(label + ": no worker fails", "fail", None, str([e["what"] for e in fails])[:300])
        return "ok"
    # overlapping use of a file
    bad = []
    for p, es in ev.items():
        iv = []
        for i, tr in enumerate(traces):
            cur = None
            for e in tr:
                if e["path"] == p and e["kind"] == "open":
                    cur = e
                elif e["path"] == p and e["kind"] == "close" and cur is not None:
                    iv.append((i, cur, e))
                    cur = None
            if cur is not None:
                iv.append((i, cur, tr[-1]))
        for x in range(len(iv)):
            for y in range(x):
                i, a, b = iv[x]
                j, c, d = iv[y]
                if i != j and (a["mode"] != "r" or c["mode"] != "r"):
                    bad.append(z3.And(a["t"] < d["t"], c["t"] < b["t"]))
    goal("no worker has a file open while another one writes it", bad)
    # deadlock
    dead = []
    for i, tr in enumerate(traces):
        for a in [e for e in tr if e["kind"] == "lock" and e["held"]]:
            for j in range(i):
                for b in [e for e in traces[j] if e["kind"] == "lock" and e["held"]]:
                    if a["path"] in b["held"] and b["path"] in a["held"]:
                        dead.append((a, b))
    st["checks"] += 1
    w.labels.add(label + ": workers end")
    if not dead:
        st["by_normal_form"] += 1
    for a, b in dead:
        keep = {id(e) for tr in traces for e in tr if not (e["worker"] in (a["worker"], b["worker"]))}
        for s in (a, b):
            for e in traces[s["worker"]]:
                if e is s:
                    break
                keep.add(id(e))
        # both hold their locks and wait for each other's: prefix of the two, locks only among complete prefixes
        cs = [x for x in order]
        for x in range(len(secs)):
            for y in range(x):
                i, p, l1, u1 = secs[x]
                j, q, l2, u2 = secs[y]
                if i == j or p != q or id(l1) not in keep or id(l2) not in keep:
                    continue
                o = []
                if id(u1) in keep:
                    o.append(u1["t"] < l2["t"])
                if id(u2) in keep:
                    o.append(u2["t"] < l1["t"])
                cs.append(z3.Or(*o) if o else z3.BoolVal(False))
        s = z3.Solver()
        s.set("timeout", 20000)
        s.add(*cs)
        s.add(*conf)
        st["check_queries"] += 1
        if s.check() != z3.unsat:
            m = s.model()
            w.script = script(m, lambda e: id(e) in keep)
            w._cand(label + ": workers end", "fail", None, "workers wait for each other's locks")
            break
        st["by_pc"] += 1
    # final contents
    for p, t in tracked.items():
        bad = []
        exp = obj(t["expected"]).reshape(-1)
        shapes = {e["shape"] for e in ev[p] if e["kind"] == "create"}
        if any(s != tuple(t["shape"]) for s in shapes):
            w._cand("%s: final %s" % (label, p.rpartition("/")[2]), "fail", None, "wrong shape %s" % shapes)
            continue
        for c in range(len(exp)):
            ws = last[p, c]
            e = lin(exp[c])
            for tw, x in ws:
                k = [t2 < tw for t2, _ in ws if t2 is not tw]
                if x is not None:
                    k.append(x != e)
                bad.append(z3.And(*k) if k else z3.BoolVal(True))
            if not ws:
                if t["init"] is None:
                    bad.append(z3.BoolVal(True))
                else:
                    bad.append(lin(obj(t["init"]).reshape(-1)[c]) != e)
        goal("final %s" % p.rpartition("/")[2], bad, vals)
    return "ok"
