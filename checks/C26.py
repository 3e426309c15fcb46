"""C26: weighted classification weighs each sample by its class."""
import numpy as np
from symx.spec import S
from checks.common import acc, neurons, corr, residual, rng, select, anybatch


def weights(w, lab, c, given, dtype=np.float64):
    """one weight per class"""
    if given is not None:
        return given
    n = len(lab)
    return [float(n) / lab.count(k) if lab.count(k) else 0. for k in range(c)]


def per_sample(cw, lab):
    return np.array([cw[k] for k in lab]) if not any(hasattr(x, "p") for x in cw) else stack([cw[k] for k in lab])


def stack(xs):
    out = np.zeros(len(xs))
    out = out + xs[0] * 0
    for i, x in enumerate(xs):
        out[i] = x
    return out


def given_weights(w, c, how):
    """(argument, weights or None)"""
    if how == "auto":
        return None, None
    if how == "list":
        a = [w.choice("w%d" % k, [1, 2, 0.5]) for k in range(c)]
        return a, [float(x) for x in a]
    if how == "int":
        a = np.array([3, 1, 2][:c])
        return a, [float(x) for x in a]
    m = w.mat("w", (c,), positive=True)
    return m, [m[k] for k in range(c)]


def check(w, e, ns, X, T, lab, cw, norm, B=True):
    RH, RT = corr(w, ns, X, T, norm, per_sample(cw, lab))
    HH, HT = e.nnet.get_corr()
    w.eq(HH, RH, "HH is weighted by the class of each sample")
    w.eq(HT, RT, "HT is weighted by the class of each sample")
    if B:
        residual(w, HH, e.nnet.get_B(), HT, "solution of the weighted system")


def elm(w, n=3, c=2, how="auto", kind="python", via="train", cdt="f64", case="wc"):
    norm = w.real("norm", 0.05, 4)
    a, g = given_weights(w, c, how)
    kw = dict(norm=norm, accelerator=acc(kind))
    if via == "add":
        e = w.ELM(2, c, case, a, **kw)
    else:
        e = w.ELM(2, c, **kw)
    ns = neurons(w, e, [("sigm", 1), ("lin", 1)], 2)
    X = w.mat("X", (n, 2))
    T, lab = w.onehot("T", n, c, dtype=np.int64 if cdt == "int" else np.float64)
    e.batch = anybatch(w, n)
    if via == "add":
        e.add_data(X, T)
        e.nnet.solve()
    elif via == "opt":
        b = e.batch
        e.batch = 1000
        e.train(X, T, case, batch=b, **({} if a is None else dict(w=a)))
    else:
        e.train(X, T, case, **({} if a is None else dict(w=a)))
    check(w, e, ns, X, T, lab, weights(w, lab, c, g), norm)


def again(w, n=3, c=2, hp=False, first="auto"):
    """weights of one training are not used in another"""
    norm = w.real("norm", 0.05, 4)
    e = (w.HPELM if hp else w.ELM)(1, c, norm=norm)
    ns = neurons(w, e, [("lin", 1)], 1)
    X0, (T0, lab0) = w.mat("X0", (n, 1)), w.onehot("T0", n, c)
    X, (T, lab) = w.mat("X", (n, 1)), w.onehot("T", n, c)
    e.batch = anybatch(w, n)
    a, g = given_weights(w, c, first)
    e.train(X0, T0, "wc", **({} if a is None else dict(w=a)))
    e.train(X, T, "wc")
    check(w, e, ns, X, T, lab, weights(w, lab, c, None), norm)


def unweighted(w, n=3, c=2, hp=False, cls="c"):
    """other kinds of training do not weigh samples, whatever came before"""
    norm = w.real("norm", 0.05, 4)
    e = (w.HPELM if hp else w.ELM)(1, c, w.choice("before", ["", "wc"]), norm=norm)
    ns = neurons(w, e, [("lin", 1)], 1)
    X, (T, lab) = w.mat("X", (n, 1)), w.onehot("T", n, c)
    if w.bool("twice"):
        e.train(X, T, "wc", w=w.mat("w", (c,), positive=True))
    e.train(X, T, *([cls] if cls else []))
    check(w, e, ns, X, T, lab, [1.] * c, norm)


def hpelm(w, nmax=3, c=2, how="auto", kind="python", src="h5", via="train", part="all"):
    norm = w.real("norm", 0.05, 4)
    a, g = given_weights(w, c, how)
    kw = dict(norm=norm, accelerator=acc(kind))
    e = w.HPELM(1, c, "wc", a, **kw) if via in ("add", "files", "add_async") else w.HPELM(1, c, **kw)
    ns = neurons(w, e, [("tanh", 1), ("lin", 1)], 1)
    N = w.choice("N", range(1, nmax + 1)) if part == "all" else nmax
    X, (T, lab) = w.mat("X", (N, 1)), w.onehot("T", N, c)
    fX, fT = (w.put_h5("x.h5", X), w.put_h5("t.h5", T)) if src == "h5" else (X, T)
    e.batch = w.int("batch", 1)
    r = {}
    i, j = 0, N
    if part == "all":
        s, k = rng(w, N)
        r = dict(istart=s, icount=k)
        i, j = select(w, N, s, k)
    tr = {} if a is None else dict(w=a)
    if via == "train":
        e.train(fX, fT, "wc", **dict(r, **tr))
    elif via == "train_async":
        e.train_async(fX, fT, "wc", **dict(r, **tr))
    else:
        if via == "files":
            r.update(fHH=w.path("HH.h5"), fHT=w.path("HT.h5"))
        (e.add_data_async if via == "add_async" else e.add_data)(fX, fT, **r)
        e.nnet.solve()
    cw = weights(w, lab[i:j], c, g)
    check(w, e, ns, X[i:j], T[i:j], lab[i:j], cw, norm)
    if via == "files":
        RH, RT = corr(w, ns, X[i:j], T[i:j], norm, per_sample(cw, lab[i:j]))
        w.eq(w.get_h5(w.path("HH.h5")), RH, "HH file is weighted")
        w.eq(w.get_h5(w.path("HT.h5")), RT, "HT file is weighted")


SCENARIOS = []
for kind in ("python", "basic"):
    for how in ("auto", "sym", "list", "int"):
        SCENARIOS.append(S("elm-%s-%s" % (kind, how), elm, dict(kind=kind, how=how), tparams=dict(n=5), bounds="3 (5) samples, 2 classes, any batch"))
        SCENARIOS.append(S("hpelm-%s-%s" % (kind, how), hpelm, dict(kind=kind, how=how), tparams=dict(nmax=4), bounds="N=1..3 (4), 2 classes, any batch, any range"))
for how in ("auto", "sym"):
    SCENARIOS.append(S("elm3-" + how, elm, dict(n=4, c=3, how=how), tparams=dict(n=5), bounds="4 (5) samples, 3 classes, any batch"))
    SCENARIOS.append(S("elm-int-" + how, elm, dict(how=how, cdt="int"), bounds="integer class matrix"))
    SCENARIOS.append(S("elm-WC-" + how, elm, dict(how=how, case="WC"), bounds="upper case"))
    SCENARIOS.append(S("elm-opt-" + how, elm, dict(how=how, via="opt"), bounds="batch given to train()"))
    SCENARIOS.append(S("elm-add-" + how, elm, dict(how=how, via="add"), bounds="add_data"))
    SCENARIOS.append(S("hpelm-array-" + how, hpelm, dict(how=how, src="array"), tparams=dict(nmax=4), bounds="N=1..3 (4), arrays"))
    SCENARIOS.append(S("hpelm3-" + how, hpelm, dict(nmax=4, c=3, how=how, part="none"), tparams=dict(nmax=5), bounds="4 (5) samples, 3 classes, any batch"))
    for via in ("add", "files", "train_async", "add_async"):
        SCENARIOS.append(S("hpelm-%s-%s" % (via, how), hpelm, dict(how=how, via=via), tparams=dict(nmax=4), bounds="N=1..3 (4), any batch, any range"))
for hp in (0, 1):
    for first in ("auto", "sym"):
        SCENARIOS.append(S("again%d-%s" % (hp, first), again, dict(hp=bool(hp), first=first), bounds="3 samples, trained twice"))
    for cls in ("c", "ml", "r", ""):
        SCENARIOS.append(S("plain%d-%s" % (hp, cls or "none"), unweighted, dict(hp=bool(hp), cls=cls), bounds="3 samples"))
