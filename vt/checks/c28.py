"""The same computation on every array library.  Backend primitives are called with random shapes,
axes, types and degenerate values through NumPy, PyTorch, JAX and TensorFlow and compared with a
reference written directly in NumPy (values, shape, array type and precision).  Public solvers are run
on the same random problem in every library: values must agree with the NumPy run, arrays must come
back in the caller's library and precision, and arguments of two libraries must be rejected."""

import warnings

import numpy as np
from scipy import linalg as sl
from scipy import special as ss

import ot
import ot.coot
from vt import core, gen

FAMILIES = {}
START = "spawn"
BACKENDS = ("torch", "jax", "tf")
REQUIRED = ("primitive", "primitive-type", "primitive-shape", "random", "sparse", "solver", "solver-type", "solver-precision", "mixed", "lookup")
REQUIRED_EVENTS = ("numpy", "torch", "jax", "tf", "float32", "axis-none", "keepdims", "batched-matrices")
SPAWN_ENV = {"TF_CPP_MIN_LOG_LEVEL": "3", "JAX_ENABLE_X64": "1", "JAX_PLATFORMS": "cpu"}
NX = {}


def worker_setup():
    warnings.simplefilter("ignore")
    import jax

    jax.config.update("jax_enable_x64", True)
    from tensorflow.python.ops.numpy_ops import np_config

    np_config.enable_numpy_behavior()
    from ot import backend as B

    for n in B.get_backend_list():
        NX[n.__name__] = n
    assert set(NX) >= {"numpy", "torch", "jax", "tf"}, sorted(NX)


def conv(nx, x, dt=None):
    if isinstance(x, np.ndarray):
        x = x.astype(dt) if dt is not None and x.dtype.kind == "f" else x
        return nx.from_numpy(x.copy())
    if isinstance(x, list):
        return [conv(nx, y, dt) for y in x]
    if isinstance(x, tuple) and any(isinstance(y, np.ndarray) for y in x):
        return tuple(conv(nx, y, dt) for y in x)
    return x


def mat(rng, nd=None):
    nd = int(rng.integers(1, 4)) if nd is None else nd
    return rng.normal(size=tuple(int(k) for k in rng.integers(1, 4, nd)))


def axis_of(mon, rng, a, none=True):
    if none and rng.random() < 0.35:
        mon.event("axis-none")
        return None
    return int(rng.integers(-a.ndim, a.ndim))


def keep(mon, rng):
    if rng.random() < 0.4:
        mon.event("keepdims")
        return True
    return False


def spd(mon, rng):
    k = int(rng.integers(1, 4))
    b = tuple(int(v) for v in rng.integers(1, 3, int(rng.integers(0, 3))))
    if b:
        mon.event("batched-matrices")
    A = rng.normal(size=b + (k, k + 2))
    return A @ np.swapaxes(A, -1, -2) / k + 0.1 * np.eye(k)


def reduction(f, ax=True, kd=True, nd=None, none=True):
    def g(mon, rng):
        a = mat(rng, nd)
        kw = {}
        if ax:
            kw["axis"] = axis_of(mon, rng, a, none)
        if kd:
            kw["keepdims"] = keep(mon, rng)
        return (a,), kw, f(a, **kw)
    return g


def elementwise(f, dom=None):
    def g(mon, rng):
        a = mat(rng)
        if dom == "pos":
            a = np.abs(a) + 1e-3
        elif dom == "unit":
            a = np.clip(a, -1, 1)
        elif dom == "special":
            a[rng.random(a.shape) < 0.3] = gen.pick(rng, (np.nan, np.inf, -np.inf))
        elif dom == "complex":
            a = a + 1j * rng.normal(size=a.shape)
        elif dom == "zero":
            a[rng.random(a.shape) < 0.3] = 0
        return (a,), {}, f(a)
    return g


def binary(f, scalar=True):
    def g(mon, rng):
        a = mat(rng)
        k = int(rng.integers(3 if scalar else 2))
        if k == 2 and rng.random() < 0.2:
            a = np.array(rng.normal())
        b = rng.normal(size=a.shape) if k == 0 else rng.normal(size=a.shape[-1:]) if k == 1 else float(rng.normal())
        if k == 2 and rng.random() < 0.5:
            return (b, a), {}, f(b, a)
        return (a, b), {}, f(a, b)
    return g


def p_kl(mon, rng):
    a = mat(rng)
    p, q = rng.random(a.shape), rng.random(a.shape) + 0.01
    p[rng.random(a.shape) < 0.3] = 0
    kw = dict(mass=bool(rng.random() < 0.5), axis=axis_of(mon, rng, a))
    r = ss.rel_entr(p, q).sum(kw["axis"])
    return (p, q), kw, r + (q - p).sum(kw["axis"]) if kw["mass"] else r


def p_dot(mon, rng):
    n, m, k = (int(v) for v in rng.integers(1, 4, 3))
    A, B, u, v = rng.normal(size=(n, m)), rng.normal(size=(m, k)), rng.normal(size=m), rng.normal(size=m)
    x, y = ((A, B), (A, u), (u, B), (u, v))[int(rng.integers(4))]
    return (x, y), {}, np.dot(x, y)


def p_matmul(mon, rng):
    b = int(rng.integers(1, 4))
    n, m, k = (int(v) for v in rng.integers(1, 4, 3))
    A, B = rng.normal(size=(b, n, m)), rng.normal(size=(b, m, k) if rng.random() < 0.5 else (m, k))
    return (A, B), {}, A @ B


def p_einsum(mon, rng):
    A, B, C = rng.normal(size=(2, 3)), rng.normal(size=(3, 4)), rng.normal(size=(2, 4))
    e, o = (("ij,jk->ik", (A, B)), ("ij,jk,ik->", (A, B, C)), ("ij,ij->j", (A, A)), ("ij,ik->kj", (A, C)))[int(rng.integers(4))]
    return (e,) + o, {}, np.einsum(e, *o)


def p_searchsorted(mon, rng):
    s = gen.pick(rng, ("left", "right"))
    n, m = int(rng.integers(1, 6)), int(rng.integers(1, 6))
    if rng.random() < 0.5:
        a, v = np.sort(rng.integers(0, 4, n)).astype(float), rng.integers(-1, 5, m).astype(float)
        return (a, v, s), {}, np.array([((a < x) if s == "left" else (a <= x)).sum() for x in v])
    r = int(rng.integers(1, 4))
    a, v = np.sort(rng.integers(0, 4, (r, n)), 1).astype(float), rng.integers(-1, 5, (r, m)).astype(float)
    return (a, v, s), {}, np.array([[((a[i] < x) if s == "left" else (a[i] <= x)).sum() for x in v[i]] for i in range(r)])


def p_flip(mon, rng):
    a = mat(rng)
    ax = axis_of(mon, rng, a) if rng.random() < 0.7 else tuple(range(a.ndim))[: int(rng.integers(1, a.ndim + 1))]
    return (a,), dict(axis=ax), np.flip(a, ax)


def p_clip(mon, rng):
    a = mat(rng)
    lo, hi = ((-0.5, 0.5), (0.0, None), (None, 0.2))[int(rng.integers(3))]
    return (a, lo, hi), {}, np.minimum(np.maximum(a, -np.inf if lo is None else lo), np.inf if hi is None else hi)


def p_repeat(mon, rng):
    a = mat(rng)
    ax = axis_of(mon, rng, a)
    r = int(rng.integers(1, 4))
    return (a, r), dict(axis=ax), np.repeat(a, r, ax)


def p_take(mon, rng):
    a = mat(rng)
    ax = axis_of(mon, rng, a, False)
    i = rng.integers(0, a.shape[ax], a.shape)
    return (a, i, ax), {}, np.take_along_axis(a, i, ax)


def p_concat(mon, rng):
    a = mat(rng)
    ax = axis_of(mon, rng, a, False)
    b = np.concatenate([a, a + 1], ax)
    return ([a, b, a], ax), {}, np.concatenate([a, b, a], ax)


def p_stack(mon, rng):
    a = mat(rng)
    ax = int(rng.integers(-a.ndim - 1, a.ndim + 1))
    return ([a, a + 1], ax), {}, np.stack([a, a + 1], ax)


def p_pad(mon, rng):
    a = mat(rng)
    w = [tuple(int(x) for x in rng.integers(0, 3, 2)) for _ in range(a.ndim)]
    v = float(gen.pick(rng, (0, 1.5)))
    return (a, w), dict(value=v), np.pad(a, w, constant_values=v)


def p_linspace(mon, rng):
    s, e, n = float(rng.normal()), float(rng.normal()), int(rng.integers(1, 6))
    return (s, e, n), dict(type_as="T"), np.linspace(s, e, n)


def p_mesh(mon, rng):
    a, b = mat(rng, 1), mat(rng, 1)
    return (a, b), {}, np.meshgrid(a, b)


def p_diag(mon, rng):
    a, k = mat(rng, int(rng.integers(1, 3))), int(rng.integers(-1, 2))
    if a.ndim == 2:
        a = rng.normal(size=(2 + a.shape[0], 2 + a.shape[1]))
    return (a,), dict(k=k), np.diag(a, k)


def p_unique(mon, rng):
    a = rng.integers(-2, 3, int(rng.integers(1, 9))).astype(float)
    if rng.random() < 0.5:
        return (a,), {}, np.unique(a)
    return (a,), dict(return_inverse=True), np.unique(a, return_inverse=True)


def p_reshape(mon, rng):
    a = mat(rng)
    s = (-1,) if rng.random() < 0.5 else (1,) + a.shape[::-1]
    return (a, s), {}, np.reshape(a, s)


def p_squeeze(mon, rng):
    a = mat(rng)[None]
    ax = gen.pick(rng, (None, 0))
    return (a,), dict(axis=ax), np.squeeze(a, ax)


def p_unsqueeze(mon, rng):
    a = mat(rng)
    ax = int(rng.integers(-a.ndim - 1, a.ndim + 1))
    return (a, ax), {}, np.expand_dims(a, ax)


def p_transpose(mon, rng):
    a = mat(rng)
    ax = None if rng.random() < 0.5 else tuple(int(k) for k in rng.permutation(a.ndim))
    return (a,), dict(axes=ax), np.transpose(a, ax)


def p_tile(mon, rng):
    a = mat(rng)
    r = tuple(int(k) for k in rng.integers(1, 3, a.ndim)) if rng.random() < 0.7 else int(rng.integers(1, 3))
    return (a, r), {}, np.tile(a, r)


def p_arg(f):
    def g(mon, rng):
        a = mat(rng)
        ax = axis_of(mon, rng, a)
        return (a,), dict(axis=ax), f(a, axis=ax)
    return g


def p_sorted(f):
    def g(mon, rng):
        a = mat(rng)
        ax = axis_of(mon, rng, a, False)
        return (a,), dict(axis=ax), f(a, axis=ax)
    return g


def p_where(mon, rng):
    a = mat(rng)
    b = rng.normal(size=a.shape)
    c = rng.random(a.shape) < 0.5
    if rng.random() < 0.4:
        return (c,), {}, np.where(c)
    return (c, a, b), {}, np.where(c, a, b)


def p_fill(name):
    def g(mon, rng):
        s = tuple(int(k) for k in rng.integers(1, 4, int(rng.integers(1, 3)))) if rng.random() < 0.8 else int(rng.integers(1, 4))
        if name == "full":
            return (s, 2.5), dict(type_as="T"), np.full(s, 2.5)
        return (s,), dict(type_as="T"), getattr(np, name)(s)
    return g


def p_eye(mon, rng):
    n, m = int(rng.integers(1, 4)), gen.pick(rng, (None, 2, 3))
    return (n, m), dict(type_as="T"), np.eye(n, m)


def p_arange(mon, rng):
    a, b, c = int(rng.integers(3, 7)), int(rng.integers(0, 3)), int(rng.integers(1, 3))
    return (a, b, c), dict(type_as="T"), np.arange(b, a, c)


def p_power(mon, rng):
    a = np.abs(mat(rng)) + 0.1
    e = float(gen.pick(rng, (0.5, 2, -1, 1.7)))
    return (a, e), {}, a ** e


def p_norm(mon, rng):
    a = mat(rng, int(rng.integers(1, 3)))
    ax, kd = axis_of(mon, rng, a), keep(mon, rng)
    return (a,), dict(axis=ax, keepdims=kd), np.sqrt((a ** 2).sum(ax, keepdims=kd))


def p_solve(mon, rng):
    A = spd(mon, rng)
    B = rng.normal(size=A.shape[:-1] + (2,))
    return (A, B), {}, np.stack([np.linalg.solve(x, y) for x, y in zip(A.reshape((-1,) + A.shape[-2:]), B.reshape((-1,) + B.shape[-2:]))]).reshape(B.shape)


def p_matrix(f, square=False):
    def g(mon, rng):
        A = spd(mon, rng)
        if square:
            A = A[(0,) * (A.ndim - 2)]
        return (A,), {}, f(A)
    return g


def p_pinv(mon, rng):
    A = rng.normal(size=(3, 2))
    if rng.random() < 0.3:
        A = A @ rng.normal(size=(2, 3))
        return (A @ A.T,), dict(hermitian=True), sl.pinv(A @ A.T)
    return (A,), {}, sl.pinv(A)


def p_close(mon, rng):
    a = mat(rng)
    b = a + (0 if rng.random() < 0.5 else 1e-3)
    return (a, b), {}, bool(np.allclose(a, b))


def p_equal(mon, rng):
    a = mat(rng)
    b = a.copy()
    if rng.random() < 0.5:
        b.flat[0] += 1
    return (a, b), {}, bool((a == b).all())


def p_nan(mon, rng):
    a = mat(rng)
    a[rng.random(a.shape) < 0.3] = np.nan
    return (a,), dict(nan=1.5), np.where(np.isnan(a), 1.5, a)


def p_zero(mon, rng):
    a = mat(rng)
    return (a,), dict(threshold=0.4), np.where(np.abs(a) <= 0.4, 0, a)


def lse(a, axis=None, keepdims=False):
    m = a.max()
    return np.log(np.exp(a - m).sum(axis, keepdims=keepdims)) + m


PRIMITIVES = {
    "sum": reduction(np.sum), "cumsum": reduction(np.cumsum, kd=False), "max": reduction(np.max), "min": reduction(np.min), "mean": reduction(np.mean, kd=False),
    "median": reduction(np.median, kd=False), "std": reduction(np.std, kd=False), "prod": reduction(np.prod, kd=False, none=False), "logsumexp": reduction(lse),
    "any": lambda mon, rng: (lambda a: ((a,), {}, bool(a.any())))(mat(rng) > 0.8),
    "abs": elementwise(np.abs, "zero"), "sign": elementwise(np.sign, "zero"), "exp": elementwise(np.exp), "log": elementwise(np.log, "pos"), "sqrt": elementwise(np.sqrt, "pos"),
    "floor": elementwise(np.floor), "arccos": elementwise(np.arccos, "unit"), "isnan": elementwise(np.isnan, "special"), "isinf": elementwise(np.isinf, "special"),
    "isfinite": elementwise(np.isfinite, "special"), "real": elementwise(np.real, "complex"), "imag": elementwise(np.imag, "complex"), "conj": elementwise(np.conj, "complex"),
    "maximum": binary(np.maximum), "minimum": binary(np.minimum), "atan2": binary(np.arctan2, False), "power": p_power, "norm": p_norm, "kl_div": p_kl, "dot": p_dot,
    "matmul": p_matmul, "einsum": p_einsum, "searchsorted": p_searchsorted, "flip": p_flip, "clip": p_clip, "repeat": p_repeat, "take_along_axis": p_take,
    "concatenate": p_concat, "stack": p_stack, "zero_pad": p_pad, "linspace": p_linspace, "meshgrid": p_mesh, "diag": p_diag, "unique": p_unique, "reshape": p_reshape,
    "squeeze": p_squeeze, "unsqueeze": p_unsqueeze, "transpose": p_transpose, "tile": p_tile, "argmax": p_arg(np.argmax), "argmin": p_arg(np.argmin),
    "argsort": p_sorted(np.argsort), "sort": p_sorted(np.sort), "sort2": p_sorted(lambda a, axis: (np.sort(a, axis), np.argsort(a, axis))), "where": p_where,
    "zeros": p_fill("zeros"), "ones": p_fill("ones"), "full": p_fill("full"), "eye": p_eye, "arange": p_arange, "solve": p_solve, "inv": p_matrix(np.linalg.inv, True),
    "det": p_matrix(np.linalg.det), "slogdet": p_matrix(lambda A: tuple(np.linalg.slogdet(A))), "trace": p_matrix(lambda A: np.trace(A, axis1=-2, axis2=-1)),
    "pinv": p_pinv, "outer": lambda mon, rng: (lambda a, b: ((a, b), {}, a[:, None] * b))(mat(rng, 1), mat(rng, 1)), "allclose": p_close, "array_equal": p_equal,
    "nan_to_num": p_nan, "eliminate_zeros": p_zero, "copy": elementwise(lambda a: a), "detach": elementwise(lambda a: a), "todense": elementwise(lambda a: a),
    "sqrtm": p_matrix(lambda A: None), "eigh": p_matrix(lambda A: None), "qr": lambda mon, rng: ((mat(rng, int(rng.integers(2, 4))),), {}, None),
}
NAMES = sorted(PRIMITIVES)


def flat(x):
    return [z for y in x for z in flat(y)] if isinstance(x, (list, tuple)) else [x]


def same(mon, name, nx, op, got, want, dt, tol):
    got, want = flat(got), flat(want)
    if not mon.true("primitive-shape", len(got) == len(want), "%s: %d outputs" % (op, len(got))):
        return
    for g, w in zip(got, want):
        w = np.asarray(w)
        if not isinstance(g, (bool, np.bool_, np.generic)):
            mon.true("primitive-type", isinstance(g, nx.__type__), "%s.%s gave %s" % (name, op, type(g)))
        v = np.asarray(nx.to_numpy(g) if isinstance(g, nx.__type__) else g)
        mon.true("primitive-shape", v.shape == w.shape, "%s.%s %s expected %s" % (name, op, v.shape, w.shape))
        if w.dtype.kind == "f":
            mon.true("primitive-type", v.dtype == dt, "%s.%s %s expected %s" % (name, op, v.dtype, dt))
        if v.shape == w.shape:
            if w.dtype.kind in "fc":
                mon.close("primitive", v, w, tol, tol, "%s.%s" % (name, op))
            else:
                mon.true("primitive", bool(np.array_equal(v, w)), "%s.%s %s expected %s" % (name, op, v, w))


@core.family(FAMILIES, 12 * len(NAMES), weight=2)
def primitives(mon, rng, idx):
    op = NAMES[idx % len(NAMES)]
    args, kw, want = PRIMITIVES[op](mon, rng)
    dt = np.dtype(gen.pick(rng, ("float64", "float64", "float32")))
    if dt == np.float32:
        mon.event("float32")
    cx = any(isinstance(a, np.ndarray) and a.dtype.kind == "c" for a in args)
    mon.case(*[a for a in flat(args) if isinstance(a, np.ndarray)], op=op, dt=str(dt))
    if cx or op == "pinv":
        dt = np.dtype("float64")
    tol = 2e-4 if dt == np.float32 else 1e-9
    for name, nx in NX.items():
        mon.event(name)
        a = tuple(conv(nx, x, dt) for x in args)
        k = {u: (nx.from_numpy(np.ones(2, dt)) if isinstance(v, str) and v == "T" else v) for u, v in kw.items()}
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            got = getattr(nx, op)(*a, **k)
        N = lambda x: np.asarray(nx.to_numpy(x)).astype(float)
        if op == "sqrtm":
            S, A = N(got), np.asarray(args[0])
            mon.close("primitive", S @ S, A, 50 * tol * (1 + np.abs(A).max()), 0, name + ".sqrtm")
            mon.close("primitive", S, np.swapaxes(S, -1, -2), 50 * tol, 0, name + ".sqrtm")
        elif op == "eigh":
            w, V = N(got[0]), N(got[1])
            A = np.asarray(args[0])
            mon.close("primitive", (V * w[..., None, :]) @ np.swapaxes(V, -1, -2), A, 50 * tol * (1 + np.abs(A).max()), 0, name + ".eigh")
            mon.true("primitive", bool((np.diff(w, axis=-1) >= 0).all()), name + ".eigh ascending")
        elif op == "qr":
            Q, R = N(got[0]), N(got[1])
            mon.close("primitive", Q @ R, np.asarray(args[0]), 50 * tol, 0, name + ".qr")
            mon.close("primitive", np.swapaxes(Q, -1, -2) @ Q, np.broadcast_to(np.eye(Q.shape[-1]), Q.shape[:-2] + (Q.shape[-1],) * 2), 50 * tol, 0, name + ".qr")
        else:
            odt = dt
            if op == "where" and len(args) == 1 or op in ("argmax", "argmin", "argsort", "searchsorted", "arange"):
                odt = None
            same(mon, name, nx, op, got, want, odt if odt is not None else np.dtype("float64"), tol * (1 + (50 if op in ("inv", "solve", "pinv", "det") else 0)))


# ---------------------------------------------------------------- solvers


def sim(v):
    return (v + v.T) / 2


class P:
    """a random problem; sizes fixed so that compiled kernels are shared between cases"""

    def __init__(self, rng):
        n, m, d = 4, 5, 2
        self.rng = rng
        self.n, self.m = n, m
        self.a, self.b = rng.dirichlet(np.full(n, 3.0)) * 0.9 + 0.1 / n, rng.dirichlet(np.full(m, 3.0)) * 0.9 + 0.1 / m
        self.X, self.Y = rng.normal(size=(n, d)), rng.normal(size=(m, d)) + 0.5
        self.M = ((self.X[:, None] - self.Y[None]) ** 2).sum(-1)
        self.M = self.M / self.M.max()
        self.C1, self.C2 = sim(rng.random((n, n))), sim(rng.random((m, m)))
        self.C3 = sim(rng.random((m, m)))
        self.A = rng.dirichlet(np.full(n, 2.0), size=3).T.copy()
        self.D = sim(rng.random((n, n)))
        np.fill_diagonal(self.D, 0)
        self.x, self.y = rng.normal(size=n), rng.normal(size=m)
        th = rng.normal(size=(2, d, 3))
        self.proj = th[0] / np.linalg.norm(th[0], axis=0)
        self.lab = np.array([0, 1, 0, 1])
        self.K = rng.random((n, m))
        self.mask = np.array([1.0, 1, 0, 0])


G, U, B_, S_ = ot.gromov, ot.unbalanced, ot.bregman, ot.smooth
LOG = dict(log=True)


def spdm(rng, d=2):
    A = rng.normal(size=(d, d + 2))
    return A @ A.T / d + 0.3 * np.eye(d)


# name: (function of the problem giving (callable, args, kwargs), libraries besides numpy)
S = {}


def solver(libs="tjf", f32=True, tol=1e-6):
    def deco(f):
        S[f.__name__[2:]] = (f, libs, f32, tol)
        return f
    return deco


def simple(name, f, libs="tjf", f32=True, tol=1e-6):
    S[name] = (f, libs, f32, tol)


simple("emd", lambda p: (ot.emd, (p.a, p.b, p.M), {}))
simple("emd-log", lambda p: (ot.emd, (p.a, p.b, p.M), LOG))
simple("emd2", lambda p: (ot.emd2, (p.a, p.b, p.M), {}))
simple("emd2-batch", lambda p: (ot.emd2, (p.a, np.stack([p.b, p.b[::-1]], 1), p.M), {}), tol=1e-6)
simple("emd2-1d", lambda p: (ot.emd2_1d, (p.x, p.y, p.a, p.b), {}))
simple("emd-1d", lambda p: (ot.emd_1d, (p.x, p.y, p.a, p.b), {}))
simple("wasserstein-1d", lambda p: (ot.wasserstein_1d, (p.x, p.y, p.a, p.b), dict(p=2)))
simple("wasserstein-circle", lambda p: (ot.wasserstein_circle, (p.x % 1, p.y % 1, p.a, p.b), dict(p=2)), libs="t")
simple("semidiscrete-circle", lambda p: (ot.semidiscrete_wasserstein2_unif_circle, (p.x % 1, p.a), {}), libs="t")
simple("linear-circle", lambda p: (ot.lp.linear_circular_ot, (p.x % 1, p.y % 1), {}), libs="t")
for me in ("sinkhorn", "sinkhorn_log", "sinkhorn_stabilized", "sinkhorn_epsilon_scaling", "greenkhorn"):
    simple(me, lambda p, me=me: (ot.sinkhorn, (p.a, p.b, p.M, 0.3), dict(method=me, stopThr=1e-12)), libs="t" if me in ("greenkhorn", "sinkhorn_epsilon_scaling") else "tjf", tol=1e-5)
simple("sinkhorn-log-output", lambda p: (ot.sinkhorn, (p.a, p.b, p.M, 0.3), LOG))
for me in ("sinkhorn", "sinkhorn_log", "sinkhorn_stabilized"):
    simple("sinkhorn2-" + me, lambda p, me=me: (ot.sinkhorn2, (p.a, p.b, p.M, 0.3), dict(method=me, stopThr=1e-12)), tol=1e-5)
simple("sinkhorn-batch", lambda p: (ot.sinkhorn, (p.a, np.stack([p.b, p.b[::-1]], 1), p.M, 0.3), {}), tol=1e-5)
simple("empirical-sinkhorn", lambda p: (B_.empirical_sinkhorn, (p.X, p.Y, 3.0, p.a, p.b), dict(numIterMax=30)), libs="tj", tol=1e-5)
simple("empirical-sinkhorn-lazy", lambda p: (B_.empirical_sinkhorn, (p.X, p.Y, 3.0, p.a, p.b), dict(isLazy=True, log=True, batchSize=2, numIterMax=10)), libs="t", tol=1e-5)
simple("empirical-sinkhorn2", lambda p: (B_.empirical_sinkhorn2, (p.X, p.Y, 3.0, p.a, p.b), dict(numIterMax=30)), tol=1e-5)
simple("sinkhorn-divergence", lambda p: (B_.empirical_sinkhorn_divergence, (p.X, p.Y, 3.0, p.a, p.b), dict(numIterMax=30)), libs="tj", tol=1e-5)
for me in ("sinkhorn", "sinkhorn_log", "sinkhorn_stabilized"):
    simple("barycenter-" + me, lambda p, me=me: (ot.barycenter, (p.A, p.D, 0.2), dict(method=me, stopThr=1e-10, numItermax=60)), libs="t" if me == "sinkhorn_log" else "tj", tol=1e-5)
simple("barycenter-debiased", lambda p: (B_.barycenter_debiased, (p.A, p.D, 0.2), {}), tol=1e-4)
simple("convolutional", lambda p: (B_.convolutional_barycenter2d, (p.rng.dirichlet(np.ones(16), 2).reshape(2, 4, 4), 0.05), {}), tol=1e-4)
simple("convolutional-debiased", lambda p: (B_.convolutional_barycenter2d_debiased, (p.rng.dirichlet(np.ones(16), 2).reshape(2, 4, 4), 0.05), {}), tol=1e-4)
simple("unmix", lambda p: (B_.unmix, (p.a, p.A, p.D, p.D[:3, :3], np.full(3, 1 / 3), 0.3, 0.3, 0.1), {}), tol=1e-4)
simple("jcpot", lambda p: (B_.jcpot_barycenter, ([p.X, p.X + 0.1], [p.lab, p.lab], p.Y, 1.0), {}), libs="t", tol=1e-4)
simple("free-support", lambda p: (ot.lp.free_support_barycenter, ([p.X, p.Y], [p.a, p.b], p.X[:3] + 0.1), {}))
simple("free-support-sinkhorn", lambda p: (B_.free_support_sinkhorn_barycenter, ([p.X, p.Y], [p.a, p.b], p.X[:3] + 0.1, 3.0), dict(numItermax=3, numInnerItermax=30)), libs="tj", tol=1e-5)
simple("generalized-free-support", lambda p: (ot.lp.generalized_free_support_barycenter, ([p.X, p.Y], [p.a, p.b], [np.eye(2), np.eye(2)], 3), dict(Y_init=p.X[:3] + 0.1, numItermax=5)), libs="tj")
simple("partial", lambda p: (ot.partial.partial_wasserstein, (p.a, p.b, p.M), dict(m=0.6)))
simple("partial2", lambda p: (ot.partial.partial_wasserstein2, (p.a, p.b, p.M), dict(m=0.6)))
simple("partial-lagrange", lambda p: (ot.partial.partial_wasserstein_lagrange, (p.a, p.b, p.M), dict(reg_m=0.4)))
simple("entropic-partial", lambda p: (ot.partial.entropic_partial_wasserstein, (p.a, p.b, p.M, 0.5), dict(m=0.6)), tol=1e-5)
for me in ("sinkhorn", "sinkhorn_stabilized", "sinkhorn_translation_invariant"):
    simple("unbalanced-" + me, lambda p, me=me: (U.sinkhorn_unbalanced, (p.a, p.b, p.M, 0.3, 1.0), dict(method=me, stopThr=1e-12)), libs="tjf" if me == "sinkhorn" else "tj", tol=1e-5)
simple("unbalanced2", lambda p: (U.sinkhorn_unbalanced2, (p.a, p.b, p.M, 0.3, (1.0, 2.0)), {}), tol=1e-5)
simple("mm-unbalanced-kl", lambda p: (U.mm_unbalanced, (p.a, p.b, p.M, 1.0), dict(div="kl", stopThr=1e-13)), tol=1e-5)
simple("mm-unbalanced-l2", lambda p: (U.mm_unbalanced, (p.a, p.b, p.M, 1.0), dict(div="l2", reg=0.1)), tol=1e-5)
simple("mm-unbalanced2", lambda p: (U.mm_unbalanced2, (p.a, p.b, p.M, 1.0), dict(div="kl", stopThr=1e-13)), tol=1e-5)
simple("lbfgsb", lambda p: (U.lbfgsb_unbalanced, (p.a, p.b, p.M, 0.2, 1.0), dict(reg_div="kl")), tol=1e-4)
simple("lbfgsb2", lambda p: (U.lbfgsb_unbalanced2, (p.a, p.b, p.M, 0.2, 1.0), dict(reg_div="l2")), tol=1e-4)
simple("barycenter-unbalanced", lambda p: (U.barycenter_unbalanced, (p.A, p.D, 0.2, 1.0), {}), libs="tj", tol=1e-4)
simple("gromov", lambda p: (G.gromov_wasserstein, (p.C1, p.C2, p.a, p.b), {}))
simple("gromov-kl", lambda p: (G.gromov_wasserstein, (p.C1, p.C2, p.a, p.b, "kl_loss"), {}), tol=1e-5)
simple("gromov2", lambda p: (G.gromov_wasserstein2, (p.C1, p.C2, p.a, p.b), {}))
simple("gromov-armijo", lambda p: (G.gromov_wasserstein, (p.C1, p.C2, p.a, p.b), dict(armijo=True)))
simple("fused", lambda p: (G.fused_gromov_wasserstein, (p.M, p.C1, p.C2, p.a, p.b), LOG))
simple("fused2", lambda p: (G.fused_gromov_wasserstein2, (p.M, p.C1, p.C2, p.a, p.b), {}))
simple("semirelaxed", lambda p: (G.semirelaxed_gromov_wasserstein, (p.C1, p.C2, p.a), dict(G0=np.outer(p.a, p.b), max_iter=20)), libs="tj", f32=False)
simple("semirelaxed-fused", lambda p: (G.semirelaxed_fused_gromov_wasserstein2, (p.M, p.C1, p.C2, p.a), dict(G0=np.outer(p.a, p.b), max_iter=20)), libs="tj", f32=False)
simple("entropic-semirelaxed", lambda p: (G.entropic_semirelaxed_gromov_wasserstein, (p.C1, p.C2, p.a), dict(epsilon=1.0, max_iter=20)), libs="tj", tol=1e-5)
simple("partial-gromov", lambda p: (G.partial_gromov_wasserstein, (p.C1, p.C2, p.a, p.b), dict(m=0.6)))
simple("partial-fused", lambda p: (G.partial_fused_gromov_wasserstein2, (p.M, p.C1, p.C2, p.a, p.b), dict(m=0.6)))
simple("entropic-partial-gromov", lambda p: (G.entropic_partial_gromov_wasserstein, (p.C1, p.C2, p.a, p.b), dict(m=0.6, reg=1.0, numItermax=5)), libs="tj", tol=1e-5)
simple("entropic-gromov", lambda p: (G.entropic_gromov_wasserstein, (p.C1, p.C2, p.a, p.b), dict(epsilon=0.5, max_iter=5)), libs="tj", tol=1e-4)
simple("entropic-gromov-ppa", lambda p: (G.entropic_gromov_wasserstein2, (p.C1, p.C2, p.a, p.b), dict(epsilon=0.5, max_iter=5, solver="PPA")), libs="tj", tol=1e-4)
simple("bapg", lambda p: (G.BAPG_gromov_wasserstein, (p.C1, p.C2, p.a, p.b), dict(epsilon=0.5, max_iter=20)), tol=1e-5)
simple("bapg-fused", lambda p: (G.BAPG_fused_gromov_wasserstein2, (p.M, p.C1, p.C2, p.a, p.b), dict(epsilon=0.5, max_iter=20)), tol=1e-5)
simple("entropic-fused", lambda p: (G.entropic_fused_gromov_wasserstein2, (p.M, p.C1, p.C2, p.a, p.b), dict(epsilon=0.5, max_iter=5)), libs="tj", tol=1e-4)
simple("gromov-barycenter", lambda p: (G.gromov_barycenters, (3, [p.C1, p.C2], [p.a, p.b], np.array([0.2, 0.3, 0.5]), [0.5, 0.5]), dict(max_iter=2, init_C=sim(p.rng.random((3, 3))))), libs="tj", tol=1e-5)
simple("fgw-barycenter", lambda p: (G.fgw_barycenters, (3, [p.X, p.Y], [p.C1, p.C2], [p.a, p.b], [0.5, 0.5], 0.5), dict(max_iter=2, init_C=sim(p.rng.random((3, 3))), init_X=p.rng.normal(size=(3, 2)), p=np.array([0.2, 0.3, 0.5]))), libs="tj", tol=1e-5)
simple("coot", lambda p: (ot.coot.co_optimal_transport, (p.X, p.rng.normal(size=(5, 3))), dict(log=True, nits_bcd=3)), libs="tj")
simple("coot2", lambda p: (ot.coot.co_optimal_transport2, (p.X, p.rng.normal(size=(5, 3))), {}), libs="tj")
simple("ucoot", lambda p: (G.unbalanced_co_optimal_transport, (p.X, p.rng.normal(size=(5, 3))), dict(reg_marginals=5.0, epsilon=0.5, max_iter=5)), libs="t", tol=1e-4)
simple("fugw", lambda p: (G.fused_unbalanced_gromov_wasserstein, (p.C1, p.C2), dict(wx=p.a, wy=p.b, reg_marginals=5.0, epsilon=0.5, M=p.M, alpha=1.0, max_iter=5)), libs="t", tol=1e-4)
simple("fugw2", lambda p: (G.fused_unbalanced_gromov_wasserstein2, (p.C1, p.C2), dict(wx=p.a, wy=p.b, reg_marginals=5.0, epsilon=0.5, M=p.M, alpha=1.0, max_iter=5)), libs="t", tol=1e-4)
simple("lowrank-deterministic", lambda p: (ot.lowrank_sinkhorn, (p.X, p.Y, p.a, p.b), dict(reg=0.5, rank=2, init="deterministic", numItermax=20, log=True)), libs="t", tol=None)
simple("bures-mapping", lambda p: (ot.gaussian.bures_wasserstein_mapping, (p.X[0], p.Y[0], spdm(p.rng), spdm(p.rng)), {}))
simple("bures-distance", lambda p: (ot.gaussian.bures_wasserstein_distance, (p.X[0], p.Y[0], spdm(p.rng), spdm(p.rng)), {}))
simple("bures-barycenter", lambda p: (ot.gaussian.bures_wasserstein_barycenter, (p.X[:3], np.stack([spdm(p.rng) for _ in range(3)])), dict(weights=np.array([0.2, 0.3, 0.5]))), tol=1e-5)
simple("empirical-bures", lambda p: (ot.gaussian.empirical_bures_wasserstein_distance, (p.X, p.Y), dict(reg=1e-2)))
simple("empirical-bures-mapping", lambda p: (ot.gaussian.empirical_bures_wasserstein_mapping, (p.X, p.Y), dict(reg=1e-2)))
simple("gaussian-gromov", lambda p: (ot.gaussian.gaussian_gromov_wasserstein_distance, (spdm(p.rng), spdm(p.rng)), {}))
simple("gaussian-gromov-mapping", lambda p: (ot.gaussian.gaussian_gromov_wasserstein_mapping, (p.X[0], p.Y[0], spdm(p.rng), spdm(p.rng)), {}), libs="tj")
simple("gmm-loss", lambda p: (ot.gmm.gmm_ot_loss, (p.X, p.Y, np.stack([spdm(p.rng) for _ in range(4)]), np.stack([spdm(p.rng) for _ in range(5)]), p.a, p.b), {}))
simple("gmm-pdf", lambda p: (ot.gmm.gmm_pdf, (p.Y, p.X, np.stack([spdm(p.rng) for _ in range(4)]), p.a), {}))
simple("sliced", lambda p: (ot.sliced_wasserstein_distance, (p.X, p.Y, p.a, p.b), dict(projections=p.proj)))
simple("max-sliced", lambda p: (ot.max_sliced_wasserstein_distance, (p.X, p.Y, p.a, p.b), dict(projections=p.proj)))
simple("sliced-log", lambda p: (ot.sliced_wasserstein_distance, (p.X, p.Y), dict(projections=p.proj, log=True)))
simple("sliced-plans", lambda p: (ot.sliced.sliced_plans, (p.X, p.X[::-1].copy() + 0.5), dict(projections=p.proj)), libs="tj")
simple("min-sliced-plan", lambda p: (ot.min_sliced_transport_plan, (p.X, p.X[::-1].copy() + 0.5), dict(projections=p.proj)), libs="tj")
simple("expected-sliced-plan", lambda p: (ot.expected_sliced_plan, (p.X, p.Y), dict(projections=p.proj, beta=0.5)), libs="tj")
simple("dist", lambda p: (ot.dist, (p.X, p.Y), {}))
simple("dist-euclidean", lambda p: (ot.dist, (p.X, p.Y, "euclidean"), {}))
simple("dist-cityblock", lambda p: (ot.dist, (p.X, p.Y, "cityblock"), {}), tol=1e-6)
simple("dist-weighted", lambda p: (ot.dist, (p.X, p.Y, "sqeuclidean"), dict(w=np.array([0.3, 1.2]))))
simple("kernel", lambda p: (ot.utils.kernel, (p.X, p.Y), dict(sigma=1.3)))
simple("simplex", lambda p: (ot.utils.proj_simplex, (p.K,), {}))
simple("sparse-simplex", lambda p: (ot.utils.projection_sparse_simplex, (p.K, 2), dict(axis=0)), libs="tj")
simple("laplacian", lambda p: (ot.utils.laplacian, (p.C1,), {}))
simple("label-normalization", lambda p: (ot.utils.label_normalization, (np.array([3, 5, 3, 5]),), {}), f32=False)
simple("labels-to-masks", lambda p: (ot.utils.labels_to_masks, (np.array([3, 5, 3, 5]),), {}), f32=False)
simple("weak", lambda p: (ot.weak_optimal_transport, (p.X, p.Y, p.a, p.b), dict(numItermax=20)), tol=1e-4)
simple("factored", lambda p: (ot.factored_optimal_transport, (p.X, p.Y, p.a, p.b), dict(r=2, X0=p.rng.normal(size=(2, 2)), numItermax=4)))
simple("smooth-dual", lambda p: (S_.smooth_ot_dual, (p.a, p.b, p.M, 0.5), {}), tol=1e-4)
simple("smooth-semi-dual", lambda p: (S_.smooth_ot_semi_dual, (p.a, p.b, p.M, 0.5), {}), tol=1e-4)
simple("cg", lambda p: (ot.optim.cg, (p.a, p.b, p.M, 0.5), dict(f=lambda G_: (G_ ** 2).sum() / 2, df=lambda G_: G_, numItermax=20)), libs="tj", tol=1e-4)
simple("gcg", lambda p: (ot.optim.gcg, (p.a, p.b, p.M, 0.5, 0.5), dict(f=lambda G_: (G_ ** 2).sum() / 2, df=lambda G_: G_, numItermax=5)), libs="tj", tol=1e-4)
simple("lpl1", lambda p: (ot.da.sinkhorn_lpl1_mm, (p.a, np.array([0, 0, 1, 1]), p.b, p.M, 0.5), dict(eta=0.1)), tol=1e-4)
simple("l1l2", lambda p: (ot.da.sinkhorn_l1l2_gl, (p.a, np.array([0, 0, 1, 1]), p.b, p.M, 0.5), dict(eta=0.1, numItermax=5)), libs="tj", tol=1e-4)
simple("emd-laplace", lambda p: (ot.da.emd_laplace, (p.a, p.b, p.X, p.Y, p.M), dict(eta=0.3, numItermax=10)), libs="tj", tol=1e-4)
simple("mapping-linear", lambda p: (ot.da.joint_OT_mapping_linear, (p.X, p.Y), dict(mu=1, eta=1, numItermax=3)), libs="tj", tol=1e-4)
for k, kw in {"emd": {}, "sinkhorn": dict(reg=0.5), "l2": dict(reg=0.5, reg_type="L2", max_iter=200), "uot": dict(unbalanced=1.0), "uot-kl": dict(reg=0.5, unbalanced=1.0), "uot-l2": dict(unbalanced=1.0, unbalanced_type="l2")}.items():
    simple("solve-" + k, lambda p, kw=kw: (ot.solve, (p.M,), dict(a=p.a, b=p.b, **kw)), libs="tjf" if "l2" != k else "tj", tol=1e-3 if k in ("l2", "uot", "uot-l2") else 1e-5)
for k, kw in {"emd": {}, "sinkhorn": dict(reg=0.5), "lazy": dict(reg=0.5, lazy=True), "gaussian": dict(method="gaussian"), "1d": dict(method="1d")}.items():
    simple("solve-sample-" + k, lambda p, kw=kw: (ot.solve_sample, (p.X, p.Y) if kw.get("method") != "1d" else (p.x[:, None], p.y[:, None]), dict(a=p.a, b=p.b, **kw)),
           libs="tj" if k in ("lazy", "1d") else "tjf", tol=1e-4, f32=k != "gaussian")
for k, kw in {"gw": {}, "fgw": dict(alpha=0.4), "entropic": dict(reg=0.5, max_iter=5)}.items():
    simple("solve-gromov-" + k, lambda p, kw=kw: (ot.solve_gromov, (p.C1, p.C2), dict(a=p.a, b=p.b, **(dict(kw, M=p.M) if k == "fgw" else kw))), libs="tj", tol=1e-4)
simple("solve-batch", lambda p: (ot.solve_batch, (p.M[None] + np.arange(2.0)[:, None, None],), dict(a=np.stack([p.a] * 2), b=np.stack([p.b] * 2), reg=0.5)), tol=1e-4)
simple("solve-gromov-batch", lambda p: (ot.solve_gromov_batch, (np.stack([p.C1] * 2), np.stack([p.C2] * 2)), dict(a=np.stack([p.a] * 2), b=np.stack([p.b] * 2), reg=0.5, max_iter=5)), tol=1e-4)
simple("dist-batch", lambda p: (ot.dist_batch, (p.X[None], p.Y[None]), {}), tol=1e-6)
for cl, kw in (("SinkhornTransport", dict(reg_e=1.0)), ("EMDTransport", {}), ("LinearTransport", dict(reg=1e-2)), ("SinkhornLpl1Transport", dict(reg_e=1.0, reg_cl=0.1)), ("UnbalancedSinkhornTransport", dict(reg_e=1.0, reg_m=1.0)), ("LinearGWTransport", dict())):
    def est(p, cl=cl, kw=kw):
        def run(X, Y, lab, Z):
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                t = getattr(ot.da, cl)(**kw).fit(Xs=X, Xt=Y, ys=lab)
                return t.transform(Xs=X), t.transform(Xs=Z)
        return run, (p.X, p.Y, np.array([0, 0, 1, 1]), p.X + 0.1), {}
    simple("da-" + cl, est, libs="tj", tol=1e-4)
SOLVERS = sorted(S)
RES = ("plan", "value", "value_linear", "value_quad", "potentials", "marginals")


def parts(x, key=""):
    """all arrays and numbers of a result, named"""
    if isinstance(x, ot.utils.OTResult):
        out = []
        for r in RES:
            try:
                v = getattr(x, r)
            except NotImplementedError:
                v = None
            out += parts(v, key + "." + r)
        return out
    if isinstance(x, dict):
        return [z for k in sorted(x, key=str) for z in parts(x[k], "%s[%s]" % (key, k))]
    if isinstance(x, (list, tuple)):
        return [z for i, y in enumerate(x) for z in parts(y, "%s[%d]" % (key, i))]
    if x is None or isinstance(x, str) or callable(x):
        return []
    return [(key, x)]


def ckw(nx, kw, dt):
    return {k: conv(nx, v, dt) for k, v in kw.items()}


def run(nx, f, args, kw, dt):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f(*[conv(nx, x, dt) for x in args], **ckw(nx, kw, dt))


def num(nx, v):
    if isinstance(v, nx.__type__):
        v = nx.to_numpy(nx.todense(v))
    elif hasattr(v, "toarray"):
        v = v.toarray()
    return np.asarray(v)


@core.family(FAMILIES, len(SOLVERS), thorough_n=12 * len(SOLVERS), weight=8, cpu_limit=200)
def solvers(mon, rng, idx):
    name = SOLVERS[idx % len(SOLVERS)]
    make, libs, f32, tol = S[name]
    p = P(rng)
    f, args, kw = make(p)
    mon.case(p.a, p.b, p.X, p.Y, p.C1, p.C2, name=name)
    ref = parts(run(NX["numpy"], f, args, kw, None))
    mon.event("numpy")
    scale = 1 + max([float(np.abs(num(NX["numpy"], v)).max(initial=0)) for k, v in ref if num(NX["numpy"], v).dtype.kind == "f" and np.isfinite(num(NX["numpy"], v)).all()] + [0])
    other = dict(t="torch", j="jax", f="tf")
    todo = [(other[c], None) for c in libs]
    if f32:
        todo += [("numpy", "float32"), ("torch", "float32")]
        if libs != "t":
            todo += [(other[libs[-1]], "float32")]
    for lib, dt in todo:
        nx = NX[lib]
        mon.event(lib)
        if dt:
            mon.event(dt)
        got = dict(parts(run(nx, f, args, kw, dt)))
        for k, v in ref:
            w = num(NX["numpy"], v)
            what = "%s%s in %s %s" % (name, k, lib, dt or "")
            if any(s in k for s in ("[err]", "[n_iter]", "[niter]", "[loss]", "err_", "[time", "[warning]", "[result_code]", "iteration")):
                continue
            if not mon.true("solver", k in got, what + " missing"):
                continue
            g = got[k]
            if isinstance(v, np.ndarray) and v.ndim:
                mon.true("solver-type", isinstance(g, nx.__type__) or nx.issparse(g), "%s gave %s" % (what, type(g)))
            u = num(nx, g)
            if not mon.true("solver", u.shape == w.shape, "%s shape %s expected %s" % (what, u.shape, w.shape)):
                continue
            if w.dtype.kind == "f" and isinstance(g, nx.__type__):
                mon.true("solver-precision", u.dtype == (dt or "float64"), "%s has %s" % (what, u.dtype))
            if w.dtype.kind in "fiu" and tol is not None:
                mon.close("solver", u, w, (tol if not dt else 2e-2) * scale, 0 if not dt else 2e-2, what)


MIX = sorted(("emd", "emd2", "sinkhorn", "wasserstein-1d", "gromov", "fused", "partial", "unbalanced-sinkhorn", "dist", "solve-emd", "solve-sample-emd", "solve-gromov-gw",
              "bures-distance", "sliced", "barycenter-sinkhorn", "sinkhorn2-sinkhorn_log", "mm-unbalanced-kl", "entropic-partial", "emd-1d", "empirical-sinkhorn", "fgw-barycenter",
              "semirelaxed", "weak", "coot", "lpl1", "solve-batch"))


@core.family(FAMILIES, 2 * len(MIX), weight=2)
def mixing(mon, rng, idx):
    name = MIX[idx % len(MIX)]
    f, args, kw = S[name][0](P(rng))
    libs = list(rng.choice(["numpy", "torch", "jax", "tf"], 2, replace=False))
    arr = [i for i, x in enumerate(args) if isinstance(x, np.ndarray) and x.dtype.kind == "f"]
    mon.case(*[args[i] for i in arr], name=name, a=libs[0], b=libs[1])
    if len(arr) > 1:
        j = int(gen.pick(rng, arr))
        mixed = [conv(NX[libs[1] if i == j else libs[0]], x) for i, x in enumerate(args)]
        k = ckw(NX[libs[0]], kw, None)
        mon.raises("mixed", lambda: run_raw(f, mixed, k), (TypeError, ValueError), "%s with %s among %s" % (name, libs[1], libs[0]))
    x = [conv(NX[l], rng.normal(size=2)) for l in libs]
    mon.raises("lookup", lambda: ot.backend.get_backend(*x), (TypeError, ValueError), "two libraries")
    mon.true("lookup", ot.backend.get_backend(x[0], None) is NX[libs[0]] or ot.backend.get_backend(x[0], None).__name__ == NX[libs[0]].__name__, libs[0])
    mon.raises("lookup", lambda: ot.backend.get_backend("no array"), (ValueError, TypeError), "unknown type")
    mon.raises("lookup", lambda: ot.backend.get_backend(), (ValueError, TypeError), "nothing")
    a = rng.normal(size=3)
    for l in libs:
        b = ot.backend.to_numpy(conv(NX[l], a))
        mon.true("lookup", isinstance(b, np.ndarray) and np.array_equal(a, b), "round trip through " + l)


def run_raw(f, args, kw):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f(*args, **kw)


@core.family(FAMILIES, 24, weight=2)
def random(mon, rng, idx):
    """generators: reproducible, in range, of the asked type; sparse matrices"""
    name = sorted(NX)[idx % len(NX)]
    nx = NX[name]
    dt = gen.pick(rng, ("float64", "float32"))
    ta = nx.from_numpy(np.ones(2, dt))
    s = int(rng.integers(1000))
    mon.case(name=name, dt=dt, s=s, nontrivial=True)
    shape = tuple(int(k) for k in rng.integers(1, 5, 2))
    got = []
    for _ in range(2):
        nx.seed(s)
        got.append([nx.to_numpy(nx.rand(*shape, type_as=ta)), nx.to_numpy(nx.randn(*shape, type_as=ta)), nx.to_numpy(nx.randperm(7))])
    for u, v in zip(*got):
        mon.true("random", bool(np.array_equal(u, v)), name + " reproducible")
    u, n, o = got[0]
    mon.true("random", u.shape == shape and n.shape == shape and bool((u >= 0).all() and (u < 1).all()), name)
    mon.true("random", sorted(o.tolist()) == list(range(7)), name + " permutation")
    if name != "numpy":
        mon.true("random", str(u.dtype) == dt and str(n.dtype) == dt, "%s %s %s" % (name, u.dtype, n.dtype))
    nx.seed(s + 1)
    mon.true("random", not np.array_equal(nx.to_numpy(nx.rand(4, 4, type_as=ta)), nx.to_numpy(nx.rand(4, 4, type_as=ta))), name + " advances")
    big = nx.to_numpy(nx.randn(4000, type_as=ta))
    mon.le("random", abs(big.mean()), 0.1, name)
    mon.close("random", big.std(), 1, 0.1, 0, name)
    # coordinates to matrix and back
    D = rng.normal(size=shape) * (rng.random(shape) < 0.6)
    r, c = np.nonzero(D)
    if not len(r):
        return
    M = nx.coo_matrix(conv(nx, D[r, c], dt), conv(nx, r), conv(nx, c), shape=shape, type_as=ta)
    got = nx.to_numpy(nx.todense(M))
    mon.close("sparse", got, D, 1e-6, 0, name)
    mon.true("sparse", str(got.dtype) == dt, "%s %s" % (name, got.dtype))
    mon.close("sparse", nx.to_numpy(nx.todense(nx.tocsr(M))), D, 1e-6, 0, name)
    if name != "tf":
        rr, cc, vv, sh = nx.sparse_coo_data(M)
        E = np.zeros(shape)
        np.add.at(E, (np.asarray(rr), np.asarray(cc)), np.asarray(vv))
        mon.close("sparse", E, D, 1e-6, 0, name)
        mon.true("sparse", tuple(sh) == shape, name)
    Z = nx.eliminate_zeros(M, threshold=0.5)
    mon.close("sparse", nx.to_numpy(nx.todense(Z)), np.where(np.abs(D.astype(dt)) <= 0.5, 0, D), 1e-6, 0, name + " thresholded")
