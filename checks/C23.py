"""C23: a model never predicts with output weights of other neurons."""
import numpy as np
from symx.spec import S
from checks.common import acc, hidden, corr, order, on_gpu, on_gpu_fn

OPS = ["add-same", "add-other", "add-fail", "train", "train-wc", "train-fail", "data-fail", "prune", "load", "load-untrained", "load-missing", "set_B", "set_B-fail", "reset", "add_data", "solve", "corr-fail", "select", "save"]
HP = ["add-same", "add-fail", "train", "train-fail", "prune", "load", "load-untrained", "set_B", "reset", "add_data", "solve", "async", "async-fail", "solve_corr", "solve_corr-fail", "validation", "predict_async", "files"]
D, C = 1, 2


class Ghost:
    """what the model has to be"""

    def __init__(self, w, e, kind, hp):
        self.w, self.e, self.kind, self.hp = w, e, kind, hp
        self.ns = []         # (function, W, B) merged by type
        self.B = None        # None, or ("is", B), or ("solves", HH, HT)
        self.acc = None      # accumulated (HH, HT)
        self.k = 0

    def name(self, s):
        self.k += 1
        return "%s%d" % (s, self.k)

    @property
    def L(self):
        return sum(W.shape[1] for f, W, B in self.ns)

    def data(self, n=2, hot=False):
        w = self.w
        X = w.mat(self.name("X"), (n, D))
        T = np.array([[1.0, 0.0], [0.0, 1.0]] * n)[:n] if hot else w.mat(self.name("T"), (n, C))
        return X, T

    def add(self, f, k=1):
        w = self.w
        W, B = w.mat(self.name("W"), (D, k)), w.mat(self.name("b"), (k,))
        self.e.add_neurons(k, f, W, B)
        for i, (g, V, b) in enumerate(self.ns):
            if g == f:
                self.ns[i] = (f, np.hstack((V, W)), np.hstack((b, B)))
                break
        else:
            self.ns.append((f, W, B))
        self.B, self.acc = None, None

    def both(self, X, T, wt=None):
        return corr(self.w, self.ns, X, T, 1, wt)

    def more(self, X, T):
        a, b = self.both(X, T)
        if self.acc is not None:
            a = a - np.eye(self.L) + self.acc[0]
            b = b + self.acc[1]
        self.acc = (a, b)

    def step(self, op):
        w, e = self.w, self.e
        if op == "add-same":
            self.add(self.ns[0][0] if self.ns else "tanh")
        elif op == "add-other":
            self.add("lin" if not any(f == "lin" for f, _, _ in self.ns) else "sigm")
        elif op == "add-fail":
            w.raises(lambda: e.add_neurons(2, "tanh", w.mat(self.name("W"), (D, 1)), w.mat(self.name("b"), (1,))), "malformed neurons")
        elif op in ("train", "train-wc", "async"):
            X, T = self.data(2, op == "train-wc")
            if not self.L:
                return w.raises(lambda: e.train(X, T), "training without neurons")
            if op == "async":
                e.train_async(w.put_h5(self.name("x") + ".h5", X), w.put_h5(self.name("t") + ".h5", T))
            elif op == "train-wc":
                e.train(X, T, "wc", w=[1.0, 4.0])
            else:
                e.train(X, T)
            self.acc = self.both(X, T, np.array([1.0, 4.0]) if op == "train-wc" else None)
            self.B = ("solves",) + self.acc
        elif op == "train-fail":
            X, T = self.data()
            w.raises(lambda: e.train(X, T, "c", "wc"), "contradicting options")
            self.acc = "unknown" if self.acc is not None else None
        elif op == "data-fail":
            X, T = self.data()
            w.raises(lambda: e.train(X, T[:1]), "malformed data")
            w.raises(lambda: e.predict(np.zeros((2, D + 1))), "malformed data")
            self.acc = "unknown" if self.acc is not None else None
        elif op == "async-fail":
            X, T = self.data()
            w.raises(lambda: e.train_async(w.put_h5(self.name("x") + ".h5", X), w.path("missing.h5")), "missing file")
            self.acc = "unknown" if self.acc is not None else None
        elif op == "prune":
            if self.L < 2:
                return
            self.take([self.L - 1, 0] if self.L > 2 else [1])
            self.pruned()
        elif op in ("load", "load-untrained"):
            f = w.HPELM if self.hp else w.ELM
            e2 = f(D, C, norm=1, accelerator=acc(self.kind))
            W, b = w.mat(self.name("W"), (D, 2)), w.mat(self.name("b"), (2,))
            e2.add_neurons(2, "sigm", W, b)
            B = None
            if op == "load":
                B = w.mat(self.name("B"), (2, C))
                e2.nnet.set_B(B)
            e.loads(e2.dumps())
            self.ns, self.B, self.acc = [("sigm", W, b)], None if B is None else ("is", B), None
        elif op == "load-missing":
            w.raises(lambda: e.load(w.path("missing.pkl")), "missing model file")
        elif op == "save":
            p = w.path(self.name("m") + ".pkl")
            e.save(p)
            e.load(p)
            self.acc = None
        elif op == "set_B":
            if self.L:
                B = w.mat(self.name("B"), (self.L, C))
                e.nnet.set_B(B)
                self.B = ("is", B)
        elif op == "set_B-fail":
            w.raises(lambda: e.nnet.set_B(w.mat(self.name("B"), (self.L + 1, C))), "wrong shape of output weights")
            w.raises(lambda: e.nnet.set_B(w.mat(self.name("B"), (max(self.L, 1), C + 1))), "wrong shape of output weights")
        elif op == "corr-fail":
            w.raises(lambda: e.nnet.set_corr(np.eye(self.L + 1), np.zeros((self.L + 1, C))), "wrong shape of matrices")
        elif op == "reset":
            e.nnet.reset()
            self.acc = None
        elif op == "add_data":
            if self.L and self.acc != "unknown":
                X, T = self.data()
                e.classification = None
                e.add_data(X, T)
                self.more(X, T)
        elif op == "solve":
            if self.acc is not None and self.acc != "unknown":
                e.nnet.solve()
                self.B = ("solves",) + self.acc
        elif op in ("solve_corr", "validation", "solve_corr-fail"):
            if not self.L:
                return
            L = self.L
            M, HT = w.mat(self.name("M"), (L, 1)), w.mat(self.name("F"), (L, C))
            HH = np.dot(M, M.T) + np.eye(L)
            a, b = w.put_h5(self.name("HH") + ".h5", HH), w.put_h5(self.name("HT") + ".h5", HT)
            if op == "solve_corr":
                e.solve_corr(a, b)
                self.B = ("solves", HH, HT)
            elif op == "solve_corr-fail":
                c = w.put_h5(self.name("HH") + ".h5", np.eye(L + 1))
                w.raises(lambda: e.solve_corr(c, b), "matrices of wrong shape")
                w.raises(lambda: e.validation_corr(c, b, *self.files()), "matrices of wrong shape")
            else:
                w.patch(e, "_error", lambda *q, **k: 0.5)
                e.validation_corr(a, b, *self.files(), steps=sorted({1, L}))
                del e._error
                self.ns = [(f, W, b) for _, f, W, b in e.nnet.get_neurons() if W.shape[1]]
                k = self.L
                self.B, self.acc = ("solves", HH[:k, :k], HT[:k, :]), None
        elif op == "files":
            if not self.L:
                return
            X, T = self.files()
            a, b = w.path(self.name("HH") + ".h5"), w.path(self.name("HT") + ".h5")
            e.nnet.reset()
            e.classification = None
            e.add_data(X, T, fHH=a, fHT=b)
            e.solve_corr(a, b)
            self.B = ("solves", w.get_h5(a), w.get_h5(b))
            self.acc = "unknown"
        elif op == "select":
            if not self.L:
                return
            X, T = self.data(3)
            w.patch(e, "_error", lambda *q, **k: 0.5)
            w.patch(self.w.load("hpelm.elm"), "mrsr", lambda H, Tr, n: np.array(order(1, H.shape[1])[:n]))
            e.train(X, T, "LOO", "OP")
            del e._error
            self.ns = [(f, W, b) for _, f, W, b in e.nnet.get_neurons() if W.shape[1]]
            self.acc = self.both(X, T)
            self.B = ("solves",) + self.acc
        elif op == "predict_async":
            if self.L and self.B is not None:
                X = w.mat(self.name("X"), (2, D))
                p = w.path(self.name("y") + ".h5")
                e.predict_async(w.put_h5(self.name("x") + ".h5", X), p)
                w.eq(w.get_h5(p), np.dot(hidden(self.ns, X), e.nnet.get_B()), "asynchronous prediction by present neurons")
            else:
                X = w.put_h5(self.name("x") + ".h5", w.mat(self.name("X"), (2, D)))
                w.raises(lambda: e.predict_async(X, w.path("no.h5")), "untrained model refuses asynchronous prediction")

    def files(self):
        X, T = self.data()
        return self.w.put_h5(self.name("x") + ".h5", X), self.w.put_h5(self.name("t") + ".h5", T)

    def take(self, idx):
        out = []
        for f, W, b in self.ns:
            k = W.shape[1]
            ix = [i for i in idx if 0 <= i < k]
            idx = [i - k for i in idx if i >= k]
            if ix:
                out.append((f, W[:, ix], b[ix]))
        self.new = out

    def pruned(self):
        self.e.nnet._prune([self.L - 1, 0] if self.L > 2 else [1])
        self.ns, self.B, self.acc = self.new, None, None

    def ok(self):
        w, e = self.w, self.e
        X = w.mat(self.name("P"), (2, D))
        got = [(f, W, b) for _, f, W, b in e.nnet.get_neurons() if W.shape[1]]
        if not w.check(len(got) == len(self.ns) and e.nnet.L in ((self.L,) if self.L else (0, None)), "neurons of the model"):
            return
        for (f, W, b), (g, V, c) in zip(got, self.ns):
            w.check(f == g, "functions")
            w.eq(W, V, "neuron weights")
            w.eq(b, c, "biases")
        B = e.nnet.get_B()
        if self.B is None:
            w.check(B is None, "no output weights")
            w.raises(lambda: e.predict(X), "model without output weights refuses to predict")
            return
        if not w.check(B is not None, "output weights are kept"):
            return
        w.check(tuple(B.shape) == (self.L, C), "output weights fit the neurons", "%s" % (B.shape,))
        if self.B[0] == "is":
            w.eq(B, self.B[1], "output weights given for these neurons")
        else:
            w.eq(np.dot(self.B[1], B), self.B[2], "output weights computed for these neurons")
        w.eq(e.predict(X), np.dot(hidden(self.ns, X), B), "prediction by the present neurons")


def sequence(w, ops, hp=False, kind="python", first=None, steps=3, start=None):
    e = (w.HPELM if hp else w.ELM)(D, C, norm=1, accelerator=acc(kind))
    g = Ghost(w, e, kind, hp)
    if start != "empty":
        g.add("tanh", 2)
    for i in range(steps):
        op = first if i == 0 and first else w.choice("op%d" % i, list(ops))
        g.step(op)
    g.ok()


def wrong_set(w, kind="python"):
    """output weights of any other shape are refused"""
    e = w.ELM(D, C, norm=1, accelerator=acc(kind))
    g = Ghost(w, e, kind, False)
    g.add("tanh", 2)
    n, m = w.choice("rows", [0, 1, 2, 3, 4]), w.choice("cols", [0, 1, 2, 3])
    if (n, m) == (2, C):
        return
    w.raises(lambda: e.nnet.set_B(w.mat("B", (n, m))), "output weights of other shape refused")
    g.ok()


SCENARIOS = []
for kind in ("python", "basic"):
    for op in OPS:
        SCENARIOS.append(S("elm-%s-%s" % (op, kind), sequence, dict(ops=OPS, first=op, kind=kind), tparams=dict(steps=4), bounds="%s, then every 2 (thorough: 3) of 19 actions" % op))
    for op in HP:
        SCENARIOS.append(S("hp-%s-%s" % (op, kind), sequence, dict(ops=HP, first=op, kind=kind, hp=True), tparams=dict(steps=4) if kind == "python" else {}, bounds="HPELM: %s, then every 2 of 18 actions" % op))
    SCENARIOS.append(S("empty-" + kind, sequence, dict(ops=OPS, kind=kind, start="empty", steps=2), bounds="from an empty model, every 2 of 19 actions"))
    SCENARIOS.append(S("empty-hp-" + kind, sequence, dict(ops=HP, kind=kind, hp=True, start="empty", steps=2), bounds="from an empty model, every 2 of 18 actions"))
    SCENARIOS.append(S("shape-" + kind, wrong_set, dict(kind=kind)))
SCENARIOS += on_gpu("C23", SCENARIOS, ["elm-train-python", "elm-train-wc-python", "elm-add-same-python", "elm-prune-python", "elm-solve-python", "elm-set_B-python", "elm-corr-fail-python", "empty-python", "shape-python"])
