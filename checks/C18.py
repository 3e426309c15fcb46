"""C18: make_hdf5 stores the given data unchanged."""
import numpy as np
from symx.spec import S

DT = {"f64": np.float64, "f32": np.float32, "i64": np.int64, "i32": np.int32}


def stored(w, p, ref, dtype, label):
    got = w.get_h5(p)
    w.check(w.h5_nodes(p) == 1, "one matrix in the file")
    w.check(tuple(got.shape) == tuple(ref.shape), "shape of the stored matrix", "%s instead of %s" % (got.shape, ref.shape))
    if tuple(got.shape) == tuple(ref.shape):
        w.eq(got, ref.astype(dtype), label, 1e-13)
    w.check(w.dtype(got) == np.dtype(dtype), "requested type", "%s instead of %s" % (w.dtype(got), np.dtype(dtype)))
    w.check(w.open_handles() == 0, "file is closed")


def array(w, nmax=4, dmax=3, dtype="f64", layout="c", src="array", integer=False, dflt=False):
    mk = w.load("hpelm.modules").make_hdf5
    N, d = w.choice("N", range(1, nmax + 1)), w.choice("d", range(1, dmax + 1))
    if layout == "vector":
        X = w.mat("X", (N,), integer=integer)
        ref = X.reshape(-1, 1)
    elif layout == "t":
        X = w.mat("X", (d, N), integer=integer).T
        ref = X
    elif layout == "slice":
        Y = w.mat("X", (2 * N, d + 1), integer=integer)
        X = Y[::2, 1:]
        ref = X
    elif layout == "single":
        X = w.mat("X", (N, d), dtype=np.float32)
        ref = X
    else:
        X = w.mat("X", (N, d), integer=integer)
        ref = X
    ref = w.snap(ref)
    before = w.snap(X)
    kw = {} if dflt else dict(dtype=DT[dtype])
    comp = w.choice("comp", [None, 0, 1, 5, 9])
    if comp is not None:
        kw["comp_level"] = comp
    p = w.path("out.h5")
    if w.bool("overwrite"):
        w.put_h5("out.h5", np.ones((2, 5)))
    mk(w.put_npy("in.npy", X) if src == "npy" else X, p, **kw)
    w.eq(X, before, "given array is not changed")
    X[...] = 0 * X
    stored(w, p, ref, np.float64 if dflt else DT[dtype], "stored values and their order")


def text(w, nmax=4, dmax=3, dtype="f64", ext="txt", delim=" ", dflt=False):
    mk = w.load("hpelm.modules").make_hdf5
    N, d = w.choice("N", range(1, nmax + 1)), w.choice("d", range(1, dmax + 1))
    h = w.choice("header", [0, 1, 3])
    X = w.mat("X", (N, d))
    f = w.put_text("in." + ext, X, delim, h)
    kw = {} if dflt else dict(dtype=DT[dtype])
    if delim != " " or w.bool("explicit"):
        kw["delimiter"] = delim
    if h:
        kw["skiprows"] = h
    comp = w.choice("comp", [0, 3])
    if comp:
        kw["comp_level"] = comp
    p = w.path("out.h5")
    mk(f, p, **kw)
    stored(w, p, X, np.float64 if dflt else DT[dtype], "stored values and their order")


def numeric_header(w, n=3):
    """skipped rows may look like data"""
    mk = w.load("hpelm.modules").make_hdf5
    X = w.mat("X", (n, 2))
    k = w.choice("skip", range(0, n))
    ext = w.choice("ext", ["txt", "csv", "txt.gz"])
    f = w.put_text("in." + ext, X, ",")
    p = w.path("out.h5")
    mk(f, p, delimiter=",", skiprows=k)
    stored(w, p, X[k:], np.float64, "rows after the skipped ones")


def long(w, N=1500, src="csv"):
    """more rows than any buffer is likely to hold"""
    mk = w.load("hpelm.modules").make_hdf5
    X = w.mat("X", (N, 1))
    p = w.path("out.h5")
    mk(X if src == "array" else w.put_text("in." + src, X, ","), p, delimiter=",")
    stored(w, p, X, np.float64, "stored values and their order")


def zeros(w, dtype="f64", dflt=False):
    mk = w.load("hpelm.modules").make_hdf5
    a, b = w.int("a", 1, 5), w.int("b", 1, 4)
    a, b = w.concrete(a), w.concrete(b)
    p = w.path("out.h5")
    kw = {} if dflt else dict(dtype=DT[dtype])
    if w.bool("comp"):
        kw["comp_level"] = 4
    mk((a, b), p, **kw)
    stored(w, p, np.zeros((a, b)), np.float64 if dflt else DT[dtype], "zero matrix")


def usable(w, route="array"):
    """the file trains a model like the array"""
    mk = w.load("hpelm.modules").make_hdf5
    X, T = w.mat("X", (3, 2)), w.mat("T", (3,))
    fX, fT = w.path("X.h5"), w.path("T.h5")
    mk(X if route == "array" else w.put_text("X.csv", X, ","), fX, delimiter=",")
    mk(T, fT)
    e = w.HPELM(2, 1, norm=1)
    W, B = w.mat("W", (2, 2)), w.mat("B", (2,))
    e.add_neurons(2, "lin", W, B)
    e.add_data(fX, fT)
    H = np.dot(X, W) + B
    HH, HT = e.nnet.get_corr()
    w.eq(HH, np.dot(H.T, H) + np.eye(2), "training from the file: HH")
    w.eq(HT, np.dot(H.T, T.reshape(-1, 1)), "training from the file: HT")


def rejected(w):
    """what is no data is refused"""
    mk = w.load("hpelm.modules").make_hdf5
    k = w.choice("what", ["3d", "comp", "list", "ext", "tuple"])
    p = w.path("out.h5")
    if k == "3d":
        w.raises(lambda: mk(w.mat("X", (2, 2, 2)), p), "3-dimensional data")
    elif k == "comp":
        w.raises(lambda: mk(w.mat("X", (2, 2)), p, comp_level=10), "compression level above 9")
    elif k == "list":
        w.raises(lambda: mk([1., 2.], p), "a list is no matrix")
    elif k == "ext":
        w.raises(lambda: mk(w.path("a.dat"), p), "unknown file type")
    else:
        w.raises(lambda: mk((1, 2, 3), p), "3-dimensional shape")


SCENARIOS = []
R = dict(round32=1)
for dt in ("f64", "f32"):
    for lay in ("c", "t", "vector", "slice", "single"):
        SCENARIOS.append(S("array-%s-%s" % (lay, dt), array, dict(dtype=dt, layout=lay), R, tparams=dict(nmax=8, dmax=5), bounds="N=1..4 (8), 1..3 (5) columns, compression 0, 1, 5, 9"))
    SCENARIOS.append(S("npy-" + dt, array, dict(dtype=dt, src="npy"), R, tparams=dict(nmax=8, dmax=5), bounds="N=1..4 (8), 1..3 (5) columns"))
    SCENARIOS.append(S("npyvec-" + dt, array, dict(dtype=dt, src="npy", layout="vector"), R, bounds="N=1..4"))
    for ext, dl in (("txt", " "), ("csv", ","), ("csv", ";"), ("txt", "\t"), ("txt.gz", " "), ("csv.gz", ","), ("csv.bz2", ";")):
        SCENARIOS.append(S("%s-%d-%s" % (ext, ord(dl), dt), text, dict(dtype=dt, ext=ext, delim=dl), R, tparams=dict(nmax=8, dmax=5), bounds="N=1..4 (8), 1..3 (5) columns, 0, 1, 3 header rows"))
for dt in ("i64", "i32"):
    SCENARIOS.append(S("int-" + dt, array, dict(dtype=dt, integer=True, nmax=3), R, bounds="integer values"))
for dt in ("f64", "f32", "i64"):
    SCENARIOS.append(S("zeros-" + dt, zeros, dict(dtype=dt), bounds="shapes up to 5 x 4"))
for src in ("array", "csv", "csv.gz"):
    SCENARIOS.append(S("long-" + src, long, dict(src=src), dict(witness=1), tparams=dict(N=6000), bounds="1500 (6000) rows"))
SCENARIOS += [S("zeros-default", zeros, dict(dflt=True)), S("default", array, dict(dflt=True), R, bounds="default type"), S("text-default", text, dict(dflt=True, ext="csv", delim=","), R, bounds="default type"),
              S("numeric-header", numeric_header, bounds="3 rows, 0..2 skipped"), S("usable", usable), S("usable-text", usable, dict(route="text")), S("rejected", rejected)]
