"""C08: partial results of parallel workers always add up."""
import numpy as np
from symx.spec import S
from checks import common as C

F64, F32 = np.float64, np.float32


def parts(w, n, k, L, c, rows, W, kind, files, dtype="double", existing=(), wc=False):
    """n workers, worker i adds its k[i] parts, each by one add_data() call"""
    hh, ht = w.path("hh.h5"), w.path("ht.h5")
    norm = w.real("norm", 0.001, 2)
    eHH, eHT = np.eye(L) * norm, np.zeros((L, c))
    if "hh" in existing:
        A = w.mat("HH0", (L, L))
        eHH = A + A.T
        w.put_h5("hh.h5", eHH)
    if "ht" in existing:
        eHT = w.mat("HT0", (L, c))
        w.put_h5("ht.h5", eHT)
    data = []
    for i in range(n):
        data.append([])
        for j in range(k[i]):
            X, T = w.mat("X%d_%d" % (i, j), (rows, 1), lo=-3, hi=3), w.mat("T%d_%d" % (i, j), (rows, c), lo=-3, hi=3)
            H = np.dot(X, W)
            eHH, eHT = eHH + np.dot(H.T, H), eHT + np.dot(H.T, T)
            if files:
                X, T = w.put_h5("x%d_%d.h5" % (i, j), X), w.put_h5("t%d_%d.h5" % (i, j), T)
            data[i].append((X, T))

    def worker(i):
        def run():
            m = w.HPELM(1, c, norm=norm, accelerator=C.acc(kind), batch=1000)
            m.add_neurons(L, "lin", W, np.zeros(L))
            for X, T in data[i]:
                m.add_data(X, T, fHH=hh, fHT=ht)
        return run
    w.parallel([worker(i) for i in range(n)], {hh: eHH, ht: eHT}, "parallel add_data")


def add(w, n=2, k=(1, 1), L=1, c=1, rows=1, kind="python", files=False, existing=()):
    W = C.const(3, 1, L) + np.array([[1.0 + i for i in range(L)]])
    parts(w, n, k, L, c, rows, W, kind, files, existing=existing)


def shared(w, n=2, L=1, kind="python"):
    """workers take ranges of the same data files (as documented), with several batches"""
    N = 2 * n
    hh, ht = w.path("hh.h5"), w.path("ht.h5")
    norm = w.real("norm", 0.001, 2)
    X, T = w.mat("X", (N, 1), lo=-3, hi=3), w.mat("T", (N, 1), lo=-3, hi=3)
    W = C.const(5, 1, L) + 3.0
    H = np.dot(X, W)
    fX, fT = w.put_h5("x.h5", X), w.put_h5("t.h5", T)
    batch = w.choice("batch", [1, 1000])

    def worker(i):
        def run():
            m = w.HPELM(1, 1, norm=norm, accelerator=C.acc(kind), batch=batch)
            m.add_neurons(L, "lin", W, np.zeros(L))
            m.add_data(fX, fT, istart=2 * i, icount=2, fHH=hh, fHT=ht)
        return run
    w.parallel([worker(i) for i in range(n)], {hh: np.dot(H.T, H) + norm * np.eye(L), ht: np.dot(H.T, T)}, "parallel ranges")


SCENARIOS = []


def _add(name, fn, bounds, tier="quick", opts=None, **p):
    SCENARIOS.append(S(name, fn, p, opts=dict({"witness": 6}, **(opts or {})), tier=tier, bounds=bounds))


for kind in ("python", "basic"):
    _add("two_new_" + kind, add, "2 workers, files absent, 1 neuron, all interleavings of file and lock events", kind=kind)
_add("two_l2", add, "2 workers, 2 neurons, 1 output", L=2)
_add("two_l2c2_files", add, "2 workers, 2 neurons, 2 outputs, data in files", L=2, c=2, files=True)
_add("two_twice", add, "2 workers, 2 parts each", k=(2, 2))
_add("three_new", add, "3 workers, files absent", n=3, k=(1, 1, 1))
_add("three_existing", add, "3 workers, both files present with any contents", n=3, k=(1, 1, 1), existing=("hh", "ht"))
_add("two_existing", add, "2 workers, both files present", existing=("hh", "ht"), L=2)
_add("two_only_hh", add, "2 workers, only HH present", existing=("hh",))
_add("two_only_ht", add, "2 workers, only HT present", existing=("ht",))
_add("two_shared", shared, "2 workers on ranges of the same files, batches of 1 or all", n=2)
_add("three_shared", shared, "3 workers on ranges of the same files", n=3, tier="thorough")
_add("three_twice", add, "3 workers, 2 parts each", n=3, k=(2, 2, 2), tier="thorough")
_add("four_new", add, "4 workers, files absent", n=4, k=(1, 1, 1, 1), tier="thorough")
_add("four_existing", add, "4 workers, files present", n=4, k=(1, 1, 1, 1), existing=("hh", "ht"), tier="thorough")

ASSUMPTIONS = ["events of file system and locks are atomic and take effect in one order seen by all processes (a local POSIX file system, "
               "fasteners' locks are mutually exclusive between processes)",
               "contents of a file are visible to others when it is closed; overlapping use of a file with a writer counts as a violation"]
