"""C10: model-size search returns the best size it evaluated."""
import numpy as np
from symx.spec import S
from checks.common import hidden, const, order

MODES = ("V", "LOO", "CV")


def model(w, L, inputs=2, outputs=1, norm=1.0, seed=5):
    """linear neurons with generic constant weights"""
    e = w.ELM(inputs, outputs, norm=norm)
    W, B = const(seed, inputs, L), const(seed + 1, L)
    e.add_neurons(L, "lin", W, B)
    return e, [("lin", W, B)]


def fold_rows(N, k):
    return [np.arange(N)[i::k] for i in range(k)]


class Errors:
    """stands in for the error computation: every evaluated model gets an arbitrary error"""

    def __init__(self, w, H, refs):
        self.w, self.refs, self.seen = w, refs, {}
        self.other = 0

    def __call__(self, T, Y, R=None):
        w = self.w
        for key, (Tk, Yk) in self.refs.items():
            if w.same(T, Tk) and w.same(Y, Yk):
                if key not in self.seen:
                    self.seen[key] = w.real("err_%s" % "_".join(map(str, key)), 0, 9)
                return self.seen[key]
        self.other += 1
        return w.real("errx_%d" % self.other, 0, 9)


def solve(w, ns, X, T, norm=1.0):
    H = hidden(ns, X)
    return np.dot(H.T, H) + norm * np.eye(H.shape[1]), np.dot(H.T, T)


def sub(G, F, Hv, idx):
    """outputs of the model with neurons idx"""
    idx = list(idx)
    return np.dot(Hv[:, idx], np.linalg.solve(G[idx, :][:, idx], F[idx, :]))


def search(w, mode="V", L=5, N=8, kmax=None, outputs=1, k=3):
    """free error values for every size; constant data identifies the size that is being scored"""
    e, ns = model(w, L, outputs=outputs)
    X, T = const(1, N, 2), const(2, N, outputs)
    Xv, Tv = const(3, 4, 2), const(4, 4, outputs)
    W0 = ns[0][1].copy()
    refs = {}
    Lr = min(kmax, L) if kmax else L
    args = [mode]
    kw = {}
    stubbed = [0]
    if kmax is not None:      # the ranking is another property's subject: any list of neurons
        ranks = []

        def fake(H, Tr, n):
            stubbed[0] += 1
            r = order(40 + len(ranks), L)[:n]
            ranks.append(r)
            return np.array(r)
        m = w.load("hpelm.elm")
        w.patch(m, "mrsr", fake)
        args.append("OP")
        kw["kmax"] = kmax
    if mode == "V":
        kw.update(Xv=Xv, Tv=Tv)
    elif mode == "CV":
        kw.update(k=k)
    box = {}

    def refresh():
        """references of all sizes, once the rankings are known"""
        if box:
            return
        rk = ranks if kmax is not None else w.perms()
        if not rk:
            return
        if mode in ("V", "LOO"):
            G, F = solve(w, ns, X, T)
            Xq, Tq = (Xv, Tv) if mode == "V" else (X, T)
            Hq = hidden(ns, Xq)
            r = list(rk[-1])
            for n in range(1, len(r) + 1):
                box[("s", n)] = (Tq, sub(G, F, Hq, r[:n]))
            box[("full",)] = (Tq, sub(G, F, Hq, range(L)))
        else:
            parts = fold_rows(N, k)
            for i in range(k):
                items = [(i + j) % k for j in range(k)]
                tr = np.hstack([parts[j] for j in items[:-2]])
                vl, ts = parts[items[-2]], parts[items[-1]]
                G, F = solve(w, ns, X[tr], T[tr])
                r = list(rk[i])
                for n in range(1, len(r) + 1):
                    box[("s", i, n)] = (T[vl], sub(G, F, hidden(ns, X[vl]), r[:n]))
                    box[("t", i, n)] = (T[ts], sub(G, F, hidden(ns, X[ts]), r[:n]))
                box[("full", i)] = (T[vl], sub(G, F, hidden(ns, X[vl]), range(L)))
        # one key per value: the model of all ranked neurons may be the full model
        for f in [x for x in list(box) if x[0] == "full"]:
            g = ("s",) + f[1:] + (L,)
            if g in box:
                alias[f] = g
                del box[f]
    alias = {}
    err = Errors(w, None, box)

    def stub(T, Y, R=None, **_):
        refresh()
        return err(T, Y, R)
    w.patch(e, "_error", stub)
    e.train(X, T, *args, **kw)
    if not err.seen or (kmax is not None and not stubbed[0]):
        w.check(True, "nothing observed")
        return
    w.check(err.other == 0, "every scored model has the top-ranked neurons of its size, trained on the training data")
    rk = ranks if kmax is not None else w.perms()
    got = e.nnet.L
    w.check(1 <= got <= Lr, "selected size within 1 .. ranked neurons", "%d" % got)

    def val(key):
        return err.seen.get(alias.get(key, key))
    lo = 1 if mode != "CV" else min(3, Lr)
    if mode != "CV":
        sizes = sorted({x[-1] for x in err.seen if x[0] == "s"})
        score = {n: val(("s", n)) for n in sizes}
        full = val(("full",))
    else:
        sizes = sorted({x[-1] for x in err.seen if x[0] == "s"})
        w.check(all(val(("s", i, n)) is not None for i in range(k) for n in sizes), "every size is scored on every split")
        score = {n: sum(val(("s", i, n)) for i in range(k)) / float(k) for n in sizes}
        full = sum(val(("full", i)) for i in range(k)) / float(k)
    w.check(all(lo <= n <= Lr for n in sizes), "evaluated sizes within bounds", "%r" % sizes)
    w.check(got in sizes, "selected size was evaluated")
    if got in sizes and full is not None:
        pen = {n: score[n] + 0.01 * full * n / float(Lr) for n in sizes}
        for n in sizes:
            if n != got:
                w.check(pen[got] <= pen[n] + 1e-9, "selected size has the smallest penalised error")
    g = e.nnet.get_neurons()
    # the last split's ranking is the final one in cross-validation; any split's ranking is accepted
    w.check(any(w.same(g[0][2], W0[:, list(r[:got])]) or set_same(w, g[0][2], W0[:, list(r[:got])]) for r in rk), "top-ranked neurons are kept")


def set_same(w, a, b):
    """same columns in any order"""
    if a.shape != b.shape:
        return False
    left = list(range(b.shape[1]))
    for i in range(a.shape[1]):
        for j in left:
            if w.same(a[:, i], b[:, j]):
                left.remove(j)
                break
        else:
            return False
    return True


SCENARIOS = []
for L in range(1, 25):
    for mode in MODES:
        tier = "quick" if L <= (14 if mode != "CV" else 12) else "thorough"
        SCENARIOS.append(S("%s-%d" % (mode, L), search, dict(mode=mode, L=L, N=8 if mode != "CV" else 9), dict(shuffle=3 + L), tier=tier,
                           bounds="%d neurons, every error value, one generic ranking" % L))
for mode in MODES:
    SCENARIOS.append(S("%s-id" % mode, search, dict(mode=mode, L=6, N=9), dict(shuffle="id"), bounds="6 neurons, ranking in order"))
    SCENARIOS.append(S("%s-rev" % mode, search, dict(mode=mode, L=6, N=9), dict(shuffle="rev"), bounds="6 neurons, reversed ranking"))
    SCENARIOS.append(S("%s-all" % mode, search, dict(mode=mode, L=3, N=9), dict(shuffle="all"), bounds="3 neurons, every ranking",
                       tier="quick" if mode != "CV" else "thorough"))
    for kmax in (1, 2, 5, 9):
        SCENARIOS.append(S("%s-kmax%d" % (mode, kmax), search, dict(mode=mode, L=7, N=9, kmax=kmax), bounds="7 neurons, kmax=%d" % kmax))
SCENARIOS.append(S("CV-k4", search, dict(mode="CV", L=6, N=9, k=4), dict(shuffle=8), bounds="6 neurons, 4 splits"))
SCENARIOS.append(S("CV-k5", search, dict(mode="CV", L=6, N=11, k=5), dict(shuffle=9), bounds="6 neurons, 5 splits"))
SCENARIOS.append(S("V-2out", search, dict(mode="V", L=6, outputs=2), dict(shuffle=9), bounds="6 neurons, 2 outputs"))
SCENARIOS.append(S("LOO-2out", search, dict(mode="LOO", L=6, outputs=2), dict(shuffle=9), bounds="6 neurons, 2 outputs"))
