"""C09: asynchronous I/O gives the synchronous result and always terminates."""
import numpy as np
from symx.spec import S
from checks.common import acc, neurons, corr, hidden, rng, select, residual

NET = "no schedule of the processes is stuck"


def pair(w, c, kind="python", prec=None, spec=(("tanh", 1), ("lin", 1)), d=1, cls="", wt=None):
    """the same model twice"""
    norm = w.real("norm", 0.05, 4)
    kw = {} if prec is None else dict(precision=prec)
    e = [w.HPELM(d, c, cls, wt, norm=norm, accelerator=acc(kind), **kw) for _ in (0, 1)]
    ns = neurons(w, e[0], spec, d)
    for f, W, B in ns:
        e[1].add_neurons(W.shape[1], f, W, B)
    return e, ns, norm


def ranges(w, N, part):
    a, k, kw = 0, N, {}
    if part in ("all", "start"):
        a = kw["istart"] = w.int("istart", 0, N - 1)
    if part in ("all", "count"):
        k = kw["icount"] = w.int("icount", 1)
    return a, k, kw


def same_corr(w, e, what):
    (A, B), (C, D) = e[0].nnet.get_corr(), e[1].nnet.get_corr()
    w.eq(A, C, "HH of %s equals the synchronous one" % what)
    w.eq(B, D, "HT of %s equals the synchronous one" % what)


def train(w, nmax=4, nmin=1, policy="lazy", late=False, cls=None, given=False, kind="python", prec=None, part="all", c=1, budget=0, fixed=False):
    e, ns, norm = pair(w, c, kind, prec)
    N = w.choice("N", range(nmin, nmax + 1))
    X = w.mat("X", (N, 1))
    lab = None
    if cls == "wc":
        T, lab = w.onehot("T", N, c)
    else:
        T = w.mat("T", (N, c))
    fX, fT = w.put_h5("x.h5", X), w.put_h5("t.h5", T)
    a, k, kw = ranges(w, N, part)
    b = w.choice("batch", fixed) if fixed else w.int("batch", 1)
    if w.bool("batchopt"):
        kw["batch"] = b
    else:
        e[0].batch = e[1].batch = b
    if given:
        kw["w"] = w.mat("w", (c,), lo=0.1, hi=5)
    args = [] if cls is None else [cls]
    e[0].train(fX, fT, *args, **kw)
    w.async_io(policy, late, budget)
    e[1].train_async(fX, fT, *args, **kw)
    same_corr(w, e, "asynchronous training")
    w.eq(e[1].nnet.get_B(), e[0].nnet.get_B(), "weights equal the synchronous ones")
    if cls != "wc":
        i, j = select(w, N, a, k)
        RH, RT = corr(w, ns, X[i:j], T[i:j], norm)
        HH, HT = e[1].nnet.get_corr()
        w.eq(HH, RH, "HH of exactly the rows asked for")
        w.eq(HT, RT, "HT of exactly the rows asked for")
    w.network(NET)
    w.eq(w.get_h5(fX), X, "input file is complete and unchanged")


def add(w, nmax=3, policy="lazy", late=False, files=True, exist=False, kind="python", part="all", cls="", calls=1):
    c = 2 if cls else 1
    e, ns, norm = pair(w, c, kind, cls=cls)
    N = w.choice("N", range(1, nmax + 1))
    X = w.mat("X", (N, 1))
    T = w.onehot("T", N, c)[0] if cls == "wc" else w.mat("T", (N, c))
    fX, fT = w.put_h5("x.h5", X), w.put_h5("t.h5", T)
    e[0].batch = e[1].batch = w.int("batch", 1)
    fs = [{}, {}]
    if files:
        fs = [dict(fHH=w.path("HH%d.h5" % i), fHT=w.path("HT%d.h5" % i)) for i in (0, 1)]
        if exist:
            M, R = w.mat("M", (2, 2)), w.mat("R", (2, c))
            for i in (0, 1):
                w.put_h5("HH%d.h5" % i, M + M.T)
                w.put_h5("HT%d.h5" % i, R)
    a, k, kw = ranges(w, N, part)
    for q in range(calls):
        e[0].add_data(fX, fT, **dict(kw, **fs[0]))
    w.async_io(policy, late)
    for q in range(calls):
        e[1].add_data_async(fX, fT, **dict(kw, **fs[1]))
    same_corr(w, e, "asynchronously added data")
    if files:
        for n in ("fHH", "fHT"):
            w.eq(w.get_h5(fs[1][n]), w.get_h5(fs[0][n]), n + " file equals the synchronous one")
    w.network(NET)


def predict(w, nmax=4, nmin=1, policy="lazy", late=False, kind="python", prec=None, part="all", c=2, old=False, budget=0, fixed=False, again=False):
    e, ns, norm = pair(w, c, kind, prec)
    B = w.mat("B", (2, c))
    for m in e:
        m.nnet.set_B(B)
    N = w.choice("N", range(nmin, nmax + 1))
    X = w.mat("X", (N, 1))
    fX, fY = w.put_h5("x.h5", X), w.path("y.h5")
    if old:      # a file of that name is there already
        w.put_h5("y.h5", w.mat("Old", (N + 1, c + 1)))
    a, k, kw = ranges(w, N, part)
    e[0].batch = e[1].batch = w.choice("batch", fixed) if fixed else w.int("batch", 1)
    fZ = w.path("z.h5")
    e[0].predict(fX, fZ, **kw)
    w.async_io(policy, late, budget)
    e[1].predict_async(fX, fY, **kw)
    Y = w.get_h5(fY)
    w.eq(Y, w.get_h5(fZ), "predicted file equals the synchronous one")
    i, j = select(w, N, a, k)
    w.eq(Y, np.dot(hidden(ns, X[i:j]), B), "predictions of exactly the rows asked for")
    if again:
        e[1].predict_async(fX, fY, **kw)
        w.eq(w.get_h5(fY), Y, "the file predicted again")
    w.network(NET)
    w.eq(w.get_h5(fX), X, "input file is unchanged")


def chain(w, policy="lazy", late=False):
    """several asynchronous operations one after another, and synchronous ones after them"""
    e, ns, norm = pair(w, 1, spec=(("lin", 2),))
    X, T = w.mat("X", (3, 1)), w.mat("T", (3, 1))
    fX, fT = w.put_h5("x.h5", X), w.put_h5("t.h5", T)
    e[0].batch = e[1].batch = w.choice("batch", [1, 2, 3, 9])
    w.async_io(policy, late)
    e[1].add_data_async(fX, fT, istart=0, icount=2)
    e[1].add_data_async(fX, fT, istart=2, icount=1)
    e[0].add_data(X, T)
    same_corr(w, e, "two asynchronous parts")
    e[1].train_async(fX, fT)
    e[0].train(fX, fT)
    same_corr(w, e, "asynchronous training")
    e[1].predict_async(fX, w.path("y.h5"))
    w.eq(w.get_h5(w.path("y.h5")), e[0].predict(fX), "predictions")
    e[1].add_data(fX, fT)
    e[0].add_data(fX, fT)
    same_corr(w, e, "data added after asynchronous calls")
    w.network(NET)


def auto(w, policy="lazy", late=False):
    """inputs and targets are the same file"""
    e, ns, norm = pair(w, 1)
    N = w.choice("N", [1, 2, 3])
    X = w.mat("X", (N, 1))
    f = w.put_h5("x.h5", X)
    e[0].batch = e[1].batch = w.int("batch", 1)
    a, k, kw = ranges(w, N, "all")
    e[0].train(f, f, **kw)
    w.async_io(policy, late)
    e[1].train_async(f, f, **kw)
    same_corr(w, e, "training on one file")
    w.network(NET)


def refused(w, policy="lazy"):
    """arrays and unreadable files raise an error instead of waiting forever"""
    e, ns, norm = pair(w, 1)
    e = e[0]
    B = w.mat("B", (2, 1))
    e.nnet.set_B(B)
    X, T = w.mat("X", (2, 1)), w.mat("T", (2, 1))
    fX, fT = w.put_h5("x.h5", X), w.put_h5("t.h5", T)
    w.async_io(policy)
    what = w.choice("what", ["x-array", "t-array", "both", "x-missing", "t-missing", "p-array", "p-out", "p-missing", "p-none"])
    if what[0] == "p":
        a = {"p-array": (X, w.path("y.h5")), "p-out": (fX, T.copy()), "p-missing": (w.path("no.h5"), w.path("y.h5")), "p-none": (fX, None)}[what]
        w.raises(lambda: e.predict_async(*a), "asynchronous prediction of unusable data: " + what)
    else:
        a = {"x-array": (X, fT), "t-array": (fX, T), "both": (X, T), "x-missing": (w.path("no.h5"), fT), "t-missing": (fX, w.path("no.h5"))}[what]
        w.raises(lambda: (e.train_async if w.bool("train") else e.add_data_async)(*a), "asynchronous training on unusable data: " + what)
    w.eq(e.predict(X), np.dot(hidden(ns, X), B), "the model still predicts")
    e.train_async(fX, fT)
    RH, RT = corr(w, ns, X, T, norm)
    HH, HT = e.nnet.get_corr()
    w.eq(HH, RH, "HH of training after a refused call")
    w.eq(HT, RT, "HT of training after a refused call")
    w.network(NET)


SCENARIOS = []
O = dict(witness=3, witness_every=300, hang_s=40)


def _add(name, fn, bounds="", tier="quick", tparams=None, **p):
    SCENARIOS.append(S(name, fn, p, dict(O), tier=tier, tparams=tparams, bounds=bounds))


for pol in ("lazy", "eager"):
    for late in (0, 1):
        s = "%s%s" % (pol, "-late" if late else "")
        k = dict(policy=pol, late=bool(late))
        _add("train-" + s, train, "N=1..4 (6), any range, any batch", tparams=dict(nmax=6), **k)
        _add("files-" + s, add, "N=1..3 (5), HH/HT files absent, any range, any batch", tparams=dict(nmax=5), **k)
        _add("files2-" + s, add, "N=1..3 (5), HH/HT files present", exist=True, calls=2, part="none", tparams=dict(nmax=5), **k)
        _add("predict-" + s, predict, "N=1..4 (6), any range, any batch", tparams=dict(nmax=6), **k)
        _add("chain-" + s, chain, "3 rows, batch 1, 2, 3 or more", **k)
        _add("auto-" + s, auto, "1..3 rows, inputs and targets in one file", **k)
    k = dict(policy=pol)
    for part in ("none", "start", "count"):
        _add("train-%s-%s" % (part, pol), train, "N=1..4 (6), range partly omitted", part=part, tparams=dict(nmax=6), **k)
        _add("predict-%s-%s" % (part, pol), predict, "N=1..4 (6), range partly omitted", part=part, tparams=dict(nmax=6), **k)
    _add("train-wc-" + pol, train, "N=1..3 (4), weights counted in the range", cls="wc", c=2, nmax=3, tparams=dict(nmax=4), **k)
    _add("train-w-" + pol, train, "N=1..3 (4), given weights", cls="wc", c=2, given=True, nmax=3, part="none", tparams=dict(nmax=4), **k)
    _add("add-wc-" + pol, add, "N=1..3, weights counted in the range, HH/HT files", cls="wc", **k)
    _add("train-c-" + pol, train, "N=1..3", cls="c", c=2, nmax=3, **k)
    _add("train-ml-" + pol, train, "N=1..3, upper case", cls="ML", c=2, nmax=3, **k)
    _add("train-basic-" + pol, train, "N=1..3", kind="basic", nmax=3, **k)
    _add("predict-basic-" + pol, predict, "N=1..3", kind="basic", nmax=3, **k)
    _add("train-single-" + pol, train, "N=1..3, single precision", prec="single", nmax=3, **k)
    _add("predict-single-" + pol, predict, "N=1..3, single precision", prec="single", nmax=3, **k)
    _add("predict-old-" + pol, predict, "N=1..3, output file present; predicted again", old=True, again=True, nmax=3, **k)
    _add("refused-" + pol, refused, "arrays or missing files", **k)
for late in (0, 1):
    s = "-late" if late else ""
    for nb in (1, 2):
        bud = 3 if nb == 1 else 2
        k = dict(policy="any", late=bool(late), nmin=nb, nmax=nb, part="none", budget=bud, fixed=(1,), tparams=dict(budget=bud + 1))
        bn = "%d batches of 1 row; all schedules that differ in at most %d (%d) choices from 'the caller first'" % (nb, bud, bud + 1)
        _add("predict-any%d%s" % (nb, s), predict, bn, c=1, **k)
        _add("train-any%d%s" % (nb, s), train, bn, **k)
for s in SCENARIOS:
    if s.params.get("budget"):
        s.opts["max_paths"] = 9000
        s.topts = dict(max_paths=200000)

ASSUMPTIONS = ["processes communicate through multiprocessing queues only, each operation waits until it can be done, every queue has one reader and one writer "
               "(checked on every path), so what a process does is the same in all schedules until it waits",
               "extreme schedules (the caller first; the others first) and late storing of queue items are executed for all data; all schedules with few switches for 2 rows"]
