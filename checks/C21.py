"""C21: the caller's arrays and input files are never modified."""
import numpy as np
from symx.spec import S
from checks.common import acc, neurons, func, order
from checks.C11 import Free, hot
from checks.C14 import part

NS = [("tanh", 1), ("lin", 1)]
DT = dict(f64=np.float64, f32=np.float32, i64=np.int64)


class Guard:
    """arrays and files handed over to the code"""

    def __init__(self, w):
        self.w, self.arrays, self.files = w, [], []

    def arr(self, name, a):
        self.arrays.append((name, a, self.w.snap(a)))
        return a

    def mat(self, name, shape, dtype="f64", view=None, **k):
        a = self.w.mat(name, shape, DT[dtype], integer=dtype == "i64", **k)
        if view == "T":        # a transposed (Fortran ordered) array
            a = np.array(a.T).T
        elif view == "slice":      # a slice of a bigger array
            b = np.zeros((a.shape[0] + 2,) + a.shape[1:], a.dtype)
            b[1:-1] = a
            self.arr(name + " surroundings", b)
            a = b[1:-1]
        elif view == "step":
            b = np.zeros((2 * a.shape[0],) + a.shape[1:], a.dtype)
            b[::2] = a
            self.arr(name + " surroundings", b)
            a = b[::2]
        return self.arr(name, a)

    def file(self, name, a):
        p = self.w.put_h5(name, a)
        self.files.append((p, self.w.snap(self.w.get_h5(p)), self.w.h5_nodes(p), len(self.w.h5_attrs(p))))
        return p

    def ok(self):
        w = self.w
        for n, a, s in self.arrays:
            w.check(tuple(a.shape) == tuple(s.shape) and a.dtype == s.dtype, n + " keeps its shape and type")
            w.eq(a, s, n + " is not modified")
        for p, s, n, k in self.files:
            if w.check(w.exists(p), "input file is kept"):
                w.eq(w.get_h5(p), s, "input file is not modified")
                w.check(w.h5_nodes(p) == n and len(w.h5_attrs(p)) == k, "nothing is added to the input file")

    def spoil(self):
        """the caller changes its arrays afterwards"""
        for n, a, s in self.arrays:
            a[...] = 7


def state(w, e):
    out = []
    for n, f, W, B in e.nnet.get_neurons():
        out += [("neuron weights", w.snap(W)), ("biases", w.snap(B))]
    if e.nnet.HH is not None:
        HH, HT = e.nnet.get_corr()
        out += [("HH", w.snap(HH)), ("HT", w.snap(HT))]
    B = e.nnet.get_B()
    if B is not None:
        out.append(("output weights", w.snap(B)))
    if e.wc is not None:
        out.append(("class weights", w.snap(e.wc)))
    return out


def independent(w, e, g):
    """changing the arrays now does not change the model"""
    s = state(w, e)
    g.spoil()
    t = state(w, e)
    if w.check([n for n, a in s] == [n for n, a in t], "model state is kept"):
        for (n, a), (_, b) in zip(s, t):
            w.eq(b, a, "model does not follow later changes of the arrays: " + n)


def make(w, g, d=1, c=1, kind="python", hp=False, cls="", solved=False, prec="double", given=False):
    kw = {}
    if given:
        kw["w"] = g.arr("w0", w.mat("w0", (c,), lo=0.1, hi=4))
    e = (w.HPELM if hp else w.ELM)(d, c, cls, norm=1, accelerator=acc(kind), precision=prec, **kw)
    for k, (f, n) in enumerate(NS):
        e.add_neurons(n, f, g.arr("W%d" % k, w.mat("W%d" % k, (d, n))), g.arr("B%d" % k, w.mat("B%d" % k, (n,))))
    if solved:
        e.nnet.set_B(g.arr("B", w.mat("B", (2, c))))
    return e


def basic(w, kind="python", prec="double", cls=None, hp=False, n=3, dtype="f64", c=1, views=(None, "T", "slice", "step"), given=False, vector=False, call="train"):
    g = Guard(w)
    e = make(w, g, 1 if vector else 2, c, kind, hp, prec=prec)
    v = w.choice("view", list(views))
    X = g.mat("X", (n,) if vector else (n, 2), dtype, v)
    if cls == "wc":
        lab = [i % c for i in range(n)]
        T = g.arr("T", np.array(hot(lab, c)))
    else:
        T = g.mat("T", (n,) if vector else (n, c), dtype, v)
    kw = {}
    if given:
        kw["w"] = g.arr("w", w.mat("w", (c,), lo=0.1, hi=4))
    e.batch = w.int("batch", 1)
    if call == "train":
        e.train(X, T, *([cls] if cls else []), **kw)
    else:
        e.add_data(X, T)
        g.ok()
        e.add_data(X, T)
        g.ok()
        e.nnet.solve()
    g.ok()
    independent(w, e, g)


def selection(w, mode="V", op=False, N=4, cls=None, c=1, kind="python", view=None, k=3):
    g = Guard(w)
    e = (w.ELM)(1, c, norm=1, accelerator=acc(kind))
    spec = (("lin", 1), ("sigm", 2)) if mode != "CV" else (("lin", 2), ("sigm", 2))
    for i, (f, n) in enumerate(spec):
        e.add_neurons(n, f, g.arr("W%d" % i, w.mat("W%d" % i, (1, n))), g.arr("B%d" % i, w.mat("B%d" % i, (n,))))
    X = g.mat("X", (N, 1), view=view)
    T = g.arr("T", np.array(hot([i % c for i in range(N)], c))) if cls else g.mat("T", (N, c), view=view)
    kw = {}
    if mode == "V":
        kw.update(Xv=g.mat("Xv", (2, 1), view=view), Tv=g.arr("Tv", np.array(hot([0, 1], c))) if cls else g.mat("Tv", (2, c), view=view))
    elif mode == "CV":
        kw.update(k=k)
    args = [mode] + ([cls] if cls else [])
    if op:
        args.append("OP")
        w.patch(w.load("hpelm.elm"), "mrsr", lambda H, T, n: np.array(order(3, sum(q for f, q in spec))[:n]))
    w.patch(e, "_error", Free(w))
    e.train(X, T, *args, **kw)
    g.ok()
    independent(w, e, g)


def use(w, hp=False, kind="python", n=3, dtype="f64", views=(None, "T", "slice")):
    """predict, project, neurons, set_B"""
    g = Guard(w)
    e = make(w, g, 2, 1, kind, hp, solved=True)
    X = g.mat("X", (n, 2), dtype, w.choice("view", list(views)))
    e.batch = w.int("batch", 1)
    Y = e.predict(X)
    g.ok()
    H = e.project(X)
    g.ok()
    Y0, H0 = w.snap(Y), w.snap(H)
    s = state(w, e)
    Y2, H2 = e.predict(X), e.project(X)
    w.eq(Y2, Y0, "prediction is repeatable")
    w.eq(H2, H0, "projection is repeatable")
    independent(w, e, g)
    w.eq(Y, Y0, "prediction does not follow later changes of the arrays")
    w.eq(H, H0, "projection does not follow later changes of the arrays")
    Y[...] = 3
    H[...] = 3
    for (n, a), (_, b) in zip(s, state(w, e)):
        w.eq(b, a, "model does not follow changes of its results: " + n)


def metrics(w, hp=False, cls="", call="error", n=3, c=2, dtype="f64", given=False):
    g = Guard(w)
    e = make(w, g, 1, c, "python", hp, cls, given=given)
    if cls == "wc" and not given:
        e.wc = g.arr("wc", w.mat("wc", (c,), lo=0.1, hi=4))
    T = g.arr("T", np.array(hot([i % c for i in range(n)], c))) if cls in ("c", "wc") else g.mat("T", (n, c), dtype)
    Y = g.mat("Y", (n, c))
    e.batch = w.int("batch", 1)
    r = getattr(e, call)(T, Y)
    g.ok()


def matrices(w, hp=False, kind="python", view=None, prec="double"):
    """set_corr, solve, add_data on top, solve_corr"""
    g = Guard(w)
    e = make(w, g, 1, 1, kind, hp, prec=prec)
    M = w.mat("M", (2, 1))
    HH = g.arr("HH", np.dot(M, M.T) + np.eye(2))
    HT = g.mat("HT", (2, 1), view=view)
    e.nnet.set_corr(HH, HT)
    g.ok()
    order = w.choice("order", ["solve", "add", "get"])
    if order == "solve":
        e.nnet.solve()
        g.ok()
    if order == "get":
        a, b = e.nnet.get_corr()
        e.nnet.solve_corr(HH, HT)
        g.ok()
    X, T = g.mat("X", (2, 1)), g.mat("T", (2, 1))
    e.add_data(X, T)
    g.ok()
    independent(w, e, g)


def more_neurons(w, kind="python", f1="tanh", f2="tanh", dtype="f64"):
    """neurons merged with existing ones, arrays reused by the caller"""
    g = Guard(w)
    e = w.ELM(2, 1, norm=1, accelerator=acc(kind))
    W, B = g.mat("W", (2, 1), dtype, w.choice("view", [None, "T", "slice", "step"])), g.mat("B", (1,), dtype, positive=True)
    e.add_neurons(1, func(f1), W, B)
    g.ok()
    e.add_neurons(1, func(f2), W, B)
    g.ok()
    X = g.mat("X", (2, 2))
    H = w.snap(e.project(X))
    g.ok()
    s = state(w, e)
    X0 = w.snap(X)
    independent(w, e, g)
    w.eq(e.project(X0), H, "projection does not follow later changes of W and B")
    e.nnet._prune([1])
    g2 = [w.snap(a) for _, a, _ in g.arrays]
    for (n, a, _), b in zip(g.arrays, g2):
        w.eq(a, b, "pruning leaves the arrays alone")


def ranking(w, alg="mrsr", n=3, m=2, p=1, free=(), tfree=None):
    g = Guard(w)
    f = getattr(w.load("hpelm.modules"), alg)
    X, T = g.arr("X", part(w, "X", (n, m), free, 7)), g.arr("T", part(w, "T", (n, p), free if tfree is None else tfree, 8))
    if alg == "mrsr2":
        w.assume(np.abs(X).sum() > 0)
    f(X, T, m)
    g.ok()


def rbf(w, N=2):
    g = Guard(w)
    X = g.mat("X", (N, 1))
    for i in range(N):
        for j in range(i):
            w.assume(X[i, 0] - X[j, 0] > 0.1)
    W, B = w.load("hpelm.modules.rbf_param").rbf_param(X, 2)
    g.ok()
    W0 = w.snap(W)
    g.spoil()
    w.eq(W, W0, "centroids do not follow later changes of the data")


def h5make(w):
    g = Guard(w)
    X = g.mat("X", (3, 2))
    p = w.path("o.h5")
    w.load("hpelm.modules").make_hdf5(X, p)
    g.ok()
    X0 = w.snap(X)
    g.spoil()
    w.eq(w.get_h5(p), X0, "stored data do not follow later changes of the array")


def files(w, call="train", n=3, c=1, cls=None, kind="python", corr=False):
    """input files of HPELM"""
    g = Guard(w)
    e = make(w, g, 1, c, kind, True, cls if call in ("error", "confusion") and cls else "", solved=call in ("predict", "project", "predict_async"))
    if call in ("error", "confusion") and cls == "wc":
        e.wc = np.array([1.0, 2.0])
    X = w.mat("X", (n, 1))
    T = np.array(hot([i % c for i in range(n)], c)) if cls in ("c", "wc") else w.mat("T", (n, c))
    fX, fT = g.file("x.h5", X), g.file("t.h5", T)
    e.batch = w.int("batch", 1)
    a = [cls] if cls else []
    if call in ("train", "train_async"):
        getattr(e, call)(fX, fT, *a)
    elif call in ("add_data", "add_data_async"):
        kw = dict(fHH=w.path("HH.h5"), fHT=w.path("HT.h5")) if corr else {}
        getattr(e, call)(fX, fT, **kw)
    elif call == "predict_async":
        e.predict_async(fX, w.path("y.h5"))
    elif call in ("predict", "project"):
        o = w.path("o.h5") if w.bool("file") else None
        getattr(e, call)(fX, o)
    elif call in ("error", "confusion"):
        fY = g.file("y.h5", w.mat("Y", (n, c)))
        getattr(e, call)(fT, fY)
    elif call in ("solve_corr", "validation_corr"):
        M = w.mat("M", (2, 1))
        fHH, fHT = g.file("HH.h5", np.dot(M, M.T) + np.eye(2)), g.file("HT.h5", w.mat("HT", (2, c)))
        if call == "solve_corr":
            e.solve_corr(fHH, fHT)
        else:
            w.patch(e, "_error", Free(w))
            e.validation_corr(fHH, fHT, fX, fT, steps=[1, 2])
    g.ok()


SCENARIOS = []
for kind in ("python", "basic"):
    SCENARIOS += [
        S("train-" + kind, basic, dict(kind=kind), bounds="3 samples, any batch, 4 memory layouts"),
        S("train-single-" + kind, basic, dict(kind=kind, prec="single", views=[None, "T"]), bounds="single precision"),
        S("train-f32-" + kind, basic, dict(kind=kind, prec="single", dtype="f32", views=[None, "slice"]), bounds="single precision, 32-bit data"),
        S("train-int-" + kind, basic, dict(kind=kind, dtype="i64", views=[None]), bounds="integer data"),
        S("train-wc-" + kind, basic, dict(kind=kind, cls="wc", c=2, given=True, views=[None, "T"]), bounds="given class weights"),
        S("train-wca-" + kind, basic, dict(kind=kind, cls="wc", c=2, views=[None]), bounds="automatic class weights"),
        S("train-vec-" + kind, basic, dict(kind=kind, vector=True, views=[None, "slice"]), bounds="one-dimensional data"),
        S("add-" + kind, basic, dict(kind=kind, call="add_data", views=[None, "slice"]), bounds="add_data twice with the same arrays"),
        S("hp-train-" + kind, basic, dict(kind=kind, hp=True, views=[None, "step"]), bounds="HPELM on arrays, 3 samples, any batch"),
        S("hp-wc-" + kind, basic, dict(kind=kind, hp=True, cls="wc", c=2, given=True, views=[None]), bounds="HPELM, given class weights"),
        S("use-" + kind, use, dict(kind=kind), bounds="predict, project"),
        S("hp-use-" + kind, use, dict(kind=kind, hp=True), bounds="HPELM predict, project"),
        S("matrices-" + kind, matrices, dict(kind=kind), bounds="set_corr, solve, add_data"),
        S("matrices-T-" + kind, matrices, dict(kind=kind, view="T", hp=True), bounds="set_corr, solve, add_data"),
        S("matrices-single-" + kind, matrices, dict(kind=kind, prec="single"), dict(f32=1), bounds="single precision"),
    ]
    for f1, f2 in (("tanh", "tanh"), ("lin", "lin"), ("rbf_l2", "rbf_l2"), ("tanh", "lin"), ("np.sin", "np.sin"), ("sigm", "rbf_l1")):
        SCENARIOS.append(S("neurons-%s-%s-%s" % (f1, f2, kind), more_neurons, dict(kind=kind, f1=f1, f2=f2), bounds="2 neurons from the same arrays"))
for mode in ("V", "LOO", "CV"):
    N = 4 if mode != "CV" else 5
    for nm, kw in (("", {}), ("-op", dict(op=True)), ("-c", dict(cls="c", c=2)), ("-wc", dict(cls="wc", c=2)), ("-T", dict(view="T", c=2)), ("-slice", dict(view="slice")), ("-basic", dict(kind="basic"))):
        SCENARIOS.append(S(mode + nm, selection, dict(dict(mode=mode, N=N), **kw), dict(shuffle=2, cofactor=0), bounds="3 neurons (CV: 4), N=%d, every error value" % N))
for hp in (False, True):
    for cls in ("", "c", "wc", "ml"):
        SCENARIOS.append(S("error-%s%s" % (cls or "r", "-hp" if hp else ""), metrics, dict(hp=hp, cls=cls), bounds="3 samples, any batch"))
        if cls:
            SCENARIOS.append(S("confusion-%s%s" % (cls, "-hp" if hp else ""), metrics, dict(hp=hp, cls=cls, call="confusion"), bounds="3 samples, any batch"))
    SCENARIOS.append(S("error-given" + ("-hp" if hp else ""), metrics, dict(hp=hp, cls="wc", given=True), bounds="class weights given at construction"))
for call in ("train", "train_async", "add_data", "add_data_async", "predict", "predict_async", "project", "error", "solve_corr", "validation_corr"):
    SCENARIOS.append(S("file-" + call, files, dict(call=call), bounds="3 rows, any batch"))
for call, cls in (("train", "wc"), ("train", "c"), ("train_async", "wc"), ("error", "c"), ("error", "wc"), ("confusion", "c"), ("confusion", "wc")):
    SCENARIOS.append(S("file-%s-%s" % (call, cls), files, dict(call=call, cls=cls, c=2), bounds="3 rows, any batch"))
SCENARIOS += [S("file-HH", files, dict(call="add_data", corr=True), bounds="3 rows, any batch"), S("file-HH-async", files, dict(call="add_data_async", corr=True), bounds="3 rows, any batch"),
              S("mrsr", ranking, dict(free=()), bounds="3 x 2, constant"), S("mrsr-T", ranking, dict(n=3, m=3, free=(), tfree="line"), tier="thorough", bounds="3 x 3 constant, targets on a line"),
              S("mrsr2", ranking, dict(alg="mrsr2", free=(0, 1)), bounds="3 x 2, two free elements of X and T"), S("mrsr-X", ranking, dict(n=2, free="line", tfree=()), bounds="2 x 2 on a line"), S("rbf_param", rbf), S("make_hdf5", h5make)]
