"""Pieces shared by the scenarios."""
import numpy as np


def acc(kind):
    return kind if kind in ("basic", "GPU") else None


def on_gpu(m, scenarios, names=None, skip=(), opts=None):
    """scenarios of another check, with the GPU solver"""
    import fnmatch
    import inspect
    from symx.spec import S
    out = []
    for s in scenarios:
        if "kind" not in inspect.signature(s.fn).parameters or s.params.get("kind", "python") != "python" or s.tier != "quick":
            continue
        if names is not None and not any(fnmatch.fnmatch(s.name, n) for n in names) or any(fnmatch.fnmatch(s.name, n) for n in skip):
            continue
        name = s.name[:-7] if s.name.endswith("-python") else s.name
        out.append(S("gpu-%s-%s" % (m, name), on_gpu_fn, dict(s.params, mod=m, fn=s.fn.__name__), dict(s.opts, **(opts or {})), bounds=s.bounds))
    return out


def on_gpu_fn(w, mod, fn, **k):
    from checks import gpu
    w.add_modules(gpu.modules(w))
    return getattr(__import__("checks." + mod, fromlist=[fn]), fn)(w, **dict(k, kind="GPU"))


def func(f):
    """'np.sin' -> the custom function, for scenario parameters"""
    return getattr(np, f[3:]) if f.startswith("np.") else f


def neurons(w, e, spec, d, pre="n", dtype=np.float64):
    """add neurons with arbitrary weights; spec = [(function, number), ...]; returns them merged by type as documented"""
    merged = []
    for k, (f, n) in enumerate(spec):
        f = func(f) if isinstance(f, str) else f
        W = w.mat("%sW%d" % (pre, k), (d, n), dtype)
        B = w.mat("%sB%d" % (pre, k), (n,), dtype, positive=isinstance(f, str) and f.startswith("rbf"))
        e.add_neurons(n, f, W, B)
        for i, (g, W0, B0) in enumerate(merged):
            if g is f or g == f:
                merged[i] = (g, np.hstack((W0, W)), np.hstack((B0, B)))
                break
        else:
            merged.append((f, W, B))
    return merged


def neuron(func, X, W, B):
    """one block of hidden neurons as documented"""
    if isinstance(func, str) and func.startswith("rbf"):
        n, L = X.shape[0], W.shape[1]
        out = np.zeros((n, L))
        for i in range(n):
            for j in range(L):
                d = X[i, :] - W[:, j]
                if func == "rbf_l1":
                    v = np.abs(d).sum()
                elif func == "rbf_linf":
                    v = np.abs(d).max()
                else:
                    v = np.sqrt((d * d).sum())
                out[i, j] = np.exp(-(v * v) / B[j])
        return out
    Z = np.dot(X, W) + B
    if func == "lin":
        return Z
    if func == "sigm":
        return 1 / (1 + np.exp(Z))
    if func == "tanh":
        return np.tanh(Z)
    return func(Z)


def hidden(neurons, X):
    return np.hstack([neuron(f, X, W, B) for f, W, B in neurons])


def corr(w, ns, X, T, norm=0, wt=None):
    """reference H'WH + norm I and H'WT"""
    H = hidden(ns, X)
    G = H if wt is None else H * np.asarray(wt)[:, None]
    return np.dot(G.T, H) + norm * np.eye(H.shape[1]), np.dot(G.T, T)


def residual(w, HH, B, HT, label):
    w.eq(np.dot(HH, B), HT, label)


def rng(w, N, empty=False):
    """symbolic range: istart in 0..N-1, icount >= 1, any"""
    a = w.int("istart", 0, N - 1)
    c = w.int("icount", 1)
    return a, c


def select(w, N, a, c):
    """rows istart .. min(istart+icount, N)-1 (case split)"""
    a, c = w.concrete(a), w.concrete(min(c, N - a))
    return a, min(a + c, N)


def const(seed, *shape):
    """generic constant data (own generator: the random generator of the code under test is symbolic)"""
    n = 1
    for s in shape:
        n *= s
    v, s = [], seed * 7919 + 17
    for _ in range(n + 3):
        s = (s * 1103515245 + 12345) % (2 ** 31)
        v.append(((s >> 8) % 401 - 200) / 100.0)
    return np.array(v[3:]).reshape(shape)


def order(seed, n):
    """a constant permutation"""
    v = [float(x) for x in const(seed, n)]
    return sorted(range(n), key=lambda i: (v[i], i))


def anybatch(w, n, name="batch"):
    """every batch size, the small ones one by one"""
    k = w.choice(name, list(range(1, n + 1)) + ["more"])
    return n + w.int(name + "_more", 1) if k == "more" else k
