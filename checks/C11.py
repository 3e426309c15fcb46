"""C11: a size-selected model is the plain model on its selected neurons."""
import numpy as np
from symx.spec import S
from checks.common import acc, neurons, corr, residual, order, const


class Free:
    """every evaluated model gets an arbitrary error (the same for the same predictions)"""

    def __init__(self, w):
        self.w, self.seen = w, []

    def __call__(self, T, Y, R=None, **_):
        for t, y, e in self.seen:
            if self.w.same(T, t) and self.w.same(Y, y):
                return e
        e = self.w.real("err_%d" % len(self.seen), 0, 9)
        self.seen.append((T, Y, e))
        return e


def pick(w, old, new):
    """indexes of the original neurons that the new neurons are, in order; None if some is not an original one"""
    base = [(f, W[:, j], B[j]) for f, W, B in old for j in range(W.shape[1])]
    out = []
    for n, f, W, B in new:
        for j in range(W.shape[1]):
            k = [i for i, (g, V, b) in enumerate(base) if (g is f or g == f) and i not in out and w.same(W[:, j], V) and w.same(B[j], b)]
            if not k:
                return None
            out.append(k[0])
    return out


def hot(lab, c):
    o = np.zeros((len(lab), c))
    for i, k in enumerate(lab):
        o[i, k] = 1
    return o


def selected(w, mode="V", cls=None, kind="python", spec=(("lin", 1), ("sigm", 2)), N=4, lab=None, c=1, auto=True, k=3, batch=False, op=False, kmax=None, vector=False, lower=False):
    norm = w.real("norm", 0.05, 4)
    e = w.ELM(1, c, norm=norm, accelerator=acc(kind))
    ns = neurons(w, e, spec, 1)
    L = sum(n for f, n in spec)
    X = w.mat("X", (N, 1))
    T = hot(lab, c) if lab is not None else w.mat("T", (N, c))
    wc = None
    kw = {}
    args = [mode] + ([] if cls is None else [cls])
    if cls == "wc":
        if auto:
            tot = [lab.count(q) for q in range(c)]
            wc = [float(N) / n for n in tot]
        else:
            wc = w.mat("w", (c,), lo=0.1, hi=4)
            kw["w"] = wc
        wt = np.array([wc[q] for q in lab])
    else:
        wt = None
    if mode == "V":
        Xv = w.mat("Xv", (2, 1))
        Tv = hot([0, 1], c) if lab is not None else w.mat("Tv", (2, c))
        kw.update(Xv=Xv, Tv=Tv)
    elif mode == "CV":
        kw.update(k=k)
    ranks = []
    if op:
        args.append("OP")
        if kmax:
            kw["kmax"] = kmax

        def fake(H, Tr, n):
            r = order(40 + len(ranks), L)[:n]
            ranks.append(r)
            return np.array(r)
        w.patch(w.load("hpelm.elm"), "mrsr", fake)
    w.patch(e, "_error", Free(w))
    if batch:
        e.batch = w.int("batch", 1)
    if lower:
        args = [a.lower() for a in args]
    e.train(X, T[:, 0] if vector else T, *args, **kw)
    got = pick(w, ns, e.nnet.get_neurons())
    if not w.check(got is not None, "neurons of the model are original ones, unchanged"):
        return
    w.check(e.nnet.L == len(got) and len(got) >= 1, "number of neurons")
    rk = ranks if op else w.perms()
    if rk:
        w.check(any(sorted(got) == sorted(r[:len(got)]) for r in rk), "top-ranked neurons are kept", "%r of %r" % (got, rk))
    ns2 = [(f, W, B) for _, f, W, B in e.nnet.get_neurons() if W.shape[1]]
    RH, RT = corr(w, ns2, X, T, norm, wt)
    B = e.nnet.get_B()
    w.check(w.is_array(B) and tuple(B.shape) == (len(got), c), "shape of output weights")
    residual(w, RH, B, RT, "output weights of basic training of the selected neurons")


SCENARIOS = []
for mode in ("V", "LOO", "CV"):
    N = 4 if mode != "CV" else 5
    three = dict(spec=(("lin", 2), ("sigm", 2))) if mode == "CV" else {}
    b = "3 neurons of 2 types (CV: 4), N=%d, every error value, every ranking" % N
    for kind in ("python", "basic"):
        SCENARIOS.append(S("%s-%s" % (mode, kind), selected, dict(three, mode=mode, kind=kind, N=N), dict(shuffle="all" if mode != "CV" else 4, cofactor=0), bounds=b))
    L1 = [0, 1, 1, 0] if mode != "CV" else [0, 1, 1, 0, 1]
    L2 = [1, 1, 0, 1, 1]
    for nm, kw in (("c", dict(cls="c", lab=L1, c=2)), ("ml", dict(cls="ml", c=2)), ("wc", dict(cls="wc", lab=L2, N=5, c=2)), ("wcw", dict(cls="wc", lab=L2, N=5, c=2, auto=False)),
                   ("batch", dict(batch=True)), ("op", dict(op=True)), ("kmax", dict(op=True, kmax=2) if mode != "CV" else dict(op=True, kmax=4, spec=(("lin", 2), ("sigm", 3)))), ("vec", dict(vector=True)), ("2out", dict(c=2)), ("lower", dict(lower=True)),
                   ("wcbatch", dict(cls="wc", lab=L2, N=5, c=2, batch=True)), ("rbf", dict(spec=(("rbf_l2", 2 if mode != "CV" else 3), ("tanh", 1)))), ("types", dict(spec=(("sigm", 1), ("lin", 1), ("tanh", 1), ("rbf_l1", 1))))):
        SCENARIOS.append(S("%s-%s" % (mode, nm), selected, dict(dict(three, mode=mode, N=N), **kw), dict(shuffle=5, cofactor=0), topts=dict(shuffle="all" if mode != "CV" else 6),
                           bounds=b.replace("every ranking", "one ranking (thorough: every one, except CV)")))
