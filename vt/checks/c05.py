"""The compiled extensions are rebuilt from /repo's current sources under
AddressSanitizer + UndefinedBehaviorSanitizer (+ libstdc++ assertions) and driven through
the public Python API with hostile inputs; every report aborts the worker and is a
violation.  The C++ entry points are also linked into drivers run under ThreadSanitizer
(OpenMP solver on a pthread OpenMP runtime TSan understands, and eight concurrent solves)
and under valgrind memcheck (uninitialised reads).  One evaluation = one API call sequence
or one driver run; non-trivial: the call reached native code."""

import os
import re
import subprocess
import threading
import time

import numpy as np
import scipy.sparse as sp

import ot
from vt import core, gen, native
from vt.checks.c01 import problem

FAMILIES = {}
BACKENDS = ()
START = "spawn"
SPAWN_ENV = {}
TECHNIQUE = "ASan+UBSan builds of the extensions, TSan and valgrind drivers"
REQUIRED = ("asan-build-in-use",)
REQUIRED_EVENTS = ("tsan-calls", "memcheck-calls")

HERE = os.path.dirname(os.path.abspath(__file__))
SRC = os.path.join(os.path.dirname(HERE), "native_src")
SAN = ("-O1", "-g", "-w", "-fopenmp", "-fno-omit-frame-pointer", "-fsanitize=address")
UB = ("-O1", "-g", "-w", "-fopenmp", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
      "-fno-sanitize-recover=all", "-D_GLIBCXX_SANITIZE_VECTOR", "-UNDEBUG", "-fno-wrapv")


def sh(cmd, cwd=None, timeout=600, env=None):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, errors="replace", timeout=timeout, env=env)
    return p.returncode, p.stdout


def build_asan(dest):
    native.copy_ot(dest)
    errs = []

    def job(ext, flags):
        try:
            native.build_ext(dest, ext, flags)
        except Exception as e:
            errs.append(e)

    ts = [threading.Thread(target=job, args=("ot.lp.emd_wrap", UB)),
          threading.Thread(target=job, args=("ot.partial.partial_cython", SAN))]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if errs:
        raise errs[0]


def result(family, idx, cpu, events, viol=(), inconclusive=None):
    r = {"family": family, "idx": idx, "mons": {"sanitizer-clean": [max(1, sum(events.values())), 0.0]},
         "viol": [{"monitor": "sanitizer-clean", "msg": v, "desc": {}} for v in viol],
         "sigs": ["%s%d" % (family, idx)], "desc": {"family": family}, "events": events, "cpu": cpu}
    if inconclusive:
        r["inconclusive"] = inconclusive
    return r


def drivers(scratch, out, tier, seed):
    """Build and run the TSan and memcheck drivers."""
    d = os.path.join(scratch, "drv")
    os.makedirs(d)
    S = os.path.join(native.REPO, "ot/lp")
    t0 = time.time()

    def compile_all():
        procs = []
        for tag, fl in (("t", ["-fsanitize=thread"]), ("v", [])):
            for src, name, extra in ((S + "/EMD_wrapper.cpp", "w", ["-fopenmp"]),
                                     (SRC + "/driver.cpp", "d", []),
                                     (SRC + "/gomp_shim.cpp", "s", [])):
                procs.append(subprocess.Popen(
                    ["g++", "-O1", "-g", "-w", *fl, *extra, "-I" + S, "-c", src, "-o",
                     "%s/%s_%s.o" % (d, name, tag)],
                    stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True))
        o = [p.communicate()[0] for p in procs]
        if any(p.returncode for p in procs):
            return "\n".join(o)
        for tag, fl in (("t", ["-fsanitize=thread"]), ("v", [])):
            rc, txt = sh(["g++", *fl, *["%s/%s_%s.o" % (d, n, tag) for n in "wds"], "-lpthread",
                          "-o", "%s/drv_%s" % (d, tag)])
            if rc:
                return txt
        return None

    bad = compile_all()
    if bad:
        # the driver is written against the C ABI of EMD.h; a refactored ABI leaves the
        # sanitized Python route as the only judge
        print("note: native drivers not built against this tree:", bad[-300:])
        out.append(result("driver-tsan", 0, 0.0, {"tsan-calls": 1, "driver-not-built": 1}))
        out.append(result("driver-memcheck", 0, 0.0, {"memcheck-calls": 1}))
        return
    runs = []
    mult = 1 if tier == "quick" else 12
    for k in range(3 * mult):
        runs.append(("driver-tsan", 2 * k, "t", ["omp", str(seed * 100 + k), "60"]))
        runs.append(("driver-tsan", 2 * k + 1, "t", ["conc", str(seed * 100 + k), "40"]))
    for k in range(4 * mult):
        runs.append(("driver-memcheck", k, "v", ["seq", str(seed * 100 + k), "60"]))
        runs.append(("driver-memcheck", 500 + k, "v", ["omp", str(seed * 100 + k), "8"]))
    lock = threading.Lock()

    def work():
        while True:
            with lock:
                if not runs:
                    return
                fam, idx, tag, args = runs.pop()
            env = dict(os.environ, TSAN_OPTIONS="halt_on_error=1 exitcode=66 report_signal_unsafe=0")
            cmd = ["%s/drv_%s" % (d, tag), *args]
            if tag == "v":
                cmd = ["valgrind", "-q", "--error-exitcode=66", "--undef-value-errors=yes",
                       "--track-origins=no", "--leak-check=no", *cmd]
            else:
                cmd = ["setarch", "-R", *cmd]
            t = time.time()
            try:
                rc, txt = sh(cmd, timeout=400, env=env)
                if tag == "t" and rc and "personality" in txt:
                    rc, txt = sh(cmd[2:], timeout=400, env=env)
            except subprocess.TimeoutExpired:
                out.append(result(fam, idx, time.time() - t, {}, inconclusive="driver timeout"))
                continue
            m = re.search(r"calls=(\d+) optimal=(\d+) infeasible=(\d+) maxiter=(\d+) bad=(\d+)", txt)
            ev = {}
            if m:
                c = [int(x) for x in m.groups()]
                ev = {fam.split("-")[1] + "-calls": c[0], "driver-optimal": c[1],
                      "driver-early-stop": c[3]}
            if tag == "t" and "unexpected memory mapping" in txt:
                out.append(result(fam, idx, time.time() - t, ev, inconclusive="TSan cannot map: " + txt[-200:]))
            elif rc == 0 and m:
                out.append(result(fam, idx, time.time() - t, ev))
            else:
                head = txt[:1400]
                out.append(result(fam, idx, time.time() - t, ev,
                                  ["driver %s exited with %s\n%s" % (args, rc, head)]))

    ts = [threading.Thread(target=work) for _ in range(6)]
    [t.start() for t in ts]
    [t.join() for t in ts]


def prepare(tier, seed, scratch):
    dest = os.path.join(scratch, "asan")
    os.makedirs(dest)
    out = []
    t = threading.Thread(target=drivers, args=(scratch, out, tier, seed))
    t.start()
    build_asan(dest)
    libs = []
    for lib in ("libasan.so", "libstdc++.so"):
        libs.append(subprocess.check_output(["gcc", "-print-file-name=" + lib], text=True).strip())
    SPAWN_ENV.update({
        "VT_OT_PATH": dest, "LD_PRELOAD": " ".join(libs), "PYTHONMALLOC": "malloc",
        "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:halt_on_error=1:allocator_may_return_null=1",
        "UBSAN_OPTIONS": "halt_on_error=1:abort_on_error=1:print_stacktrace=1",
        "VT_ASAN": "1"})
    t.join()
    return out


def using(mon):
    mon.true("asan-build-in-use", os.environ.get("VT_ASAN") == "1" and "/asan/" in ot.__file__,
             "not running on the sanitized build")


OKEXC = (ValueError, TypeError, AssertionError, RuntimeError, OverflowError, IndexError,
         ZeroDivisionError, MemoryError, KeyError)


def call(mon, name, fn, *a, **k):
    """Run one native call; only crashes matter here, and outputs are consumed."""
    mon.event(name)
    try:
        r = fn(*a, **k)
    except OKEXC:
        mon.event("rejected")
        return None
    mon.true("returned", True)
    return r


def weird_weights(rng, n):
    k = int(rng.integers(9))
    w = gen.weights(rng, n)
    if k == 0:
        w = np.zeros(n)
    elif k == 1:
        w[int(rng.integers(n))] = np.nan
    elif k == 2:
        w[int(rng.integers(n))] = np.inf
    elif k == 3:
        w = -w
    elif k == 4:
        w = w * 1e300
    elif k == 5:
        w = np.zeros(n)
        w[int(rng.integers(n))] = 1.0
    elif k == 6:
        w = w.astype(np.float32)
    return w


def weird_cost(rng, n, m):
    M = gen.cost(rng, n, m)
    k = int(rng.integers(9))
    if k == 0:
        M[rng.random((n, m)) < 0.3] = np.inf
    elif k == 1:
        M[rng.random((n, m)) < 0.1] = np.nan
    elif k == 2:
        M[:] = np.inf
    elif k == 3:
        M = M * 1e300
    elif k == 4:
        M = -np.abs(M)
    elif k == 5:
        M = np.round(M * 10).astype(np.int64)
    elif k == 6:
        M = M.astype(np.float32)
    return gen.layout(rng, M)


def dims(rng, hi):
    n, m = int(rng.integers(1, hi)), int(rng.integers(1, hi))
    if rng.random() < 0.2:
        n = 1
    if rng.random() < 0.2:
        m = 1
    return n, m


def iters(rng):
    return int(gen.pick(rng, (0, 1, 2, 3, 7, 50, 1000, 100000)))


@core.family(FAMILIES, 2400)
def dense_valid(mon, rng, idx):
    using(mon)
    n, m = dims(rng, 50)
    a, b, M, kinds = problem(rng, n, m)
    th = int(gen.pick(rng, (1, 1, 2, 3, 8)))
    it = iters(rng)
    mon.case(a, b, M, n=n, m=m, threads=th, iters=it)
    pot = None
    if rng.random() < 0.4:
        pot = (rng.normal(size=n) * 10.0 ** rng.uniform(-3, 6), rng.normal(size=m))
    r = call(mon, "emd", ot.emd, a, b, M, numItermax=it, log=True, numThreads=th,
             potentials_init=None if th > 1 else pot, center_dual=bool(rng.random() < 0.5))
    if r is not None and r[1]["warning"] is None:
        mon.le("sanitized-result", abs(float(np.asarray(r[0]).sum()) - float(a.sum())), 1e-7 * float(a.sum()))
    k = int(rng.integers(1, 4))
    B = np.stack([gen.weights(rng, m) for _ in range(k)], axis=1)
    call(mon, "emd2-multi", ot.emd2, a / a.sum(), B, M, numItermax=it, log=True, return_matrix=True)


@core.family(FAMILIES, 2000)
def dense_hostile(mon, rng, idx):
    using(mon)
    n, m = dims(rng, 25)
    a, b, M = weird_weights(rng, n), weird_weights(rng, m), weird_cost(rng, n, m)
    it = int(gen.pick(rng, (0, 1, 3, 200, 2000)))
    th = int(gen.pick(rng, (1, 1, 2, 5)))
    mon.case(a, b, M, n=n, m=m, threads=th, iters=it)
    if rng.random() < 0.2:
        a = a[:-1]
    if rng.random() < 0.1:
        a, b = np.array([]), np.array([])
    pot = None
    if rng.random() < 0.4:
        pot = (rng.normal(size=n + int(rng.integers(-1, 2)) * (rng.random() < 0.3)),
               np.full(m, gen.pick(rng, (0.0, np.nan, np.inf, -1e308))))
    call(mon, "emd", ot.emd, a, b, M, numItermax=it, log=True, numThreads=th, check_marginals=False,
         potentials_init=pot)
    call(mon, "emd2", ot.emd2, a, b, M, numItermax=it, numThreads=th, potentials_init=pot)


@core.family(FAMILIES, 2000)
def sparse(mon, rng, idx):
    using(mon)
    n, m = dims(rng, 40)
    p = float(gen.pick(rng, (0.0, 0.05, 0.3, 0.9, 1.0)))
    mask = rng.random((n, m)) < p
    if rng.random() < 0.6:
        mask[int(rng.integers(n))] = True
        mask[:, int(rng.integers(m))] = True
    ij = np.argwhere(mask)[rng.permutation(int(mask.sum()))]
    hostile = rng.random() < 0.35
    a, b = (weird_weights(rng, n), weird_weights(rng, m)) if hostile else (
        gen.weights(rng, n), gen.weights(rng, m))
    v = gen.cost(rng, n, m)[ij[:, 0], ij[:, 1]] if len(ij) else np.zeros(0)
    if hostile and len(v):
        v[0] = gen.pick(rng, (np.nan, np.inf, -1e300))
    S = sp.coo_matrix((v, (ij[:, 0], ij[:, 1])), shape=(n, m))
    if rng.random() < 0.3 and len(ij):  # duplicated edges
        S = sp.coo_matrix((np.r_[v, v], (np.r_[ij[:, 0], ij[:, 0]], np.r_[ij[:, 1], ij[:, 1]])), shape=(n, m))
    fmt = gen.pick(rng, ("coo", "csr", "csc"))
    it = iters(rng) if not hostile else int(gen.pick(rng, (0, 2, 500)))
    mon.case(a, b, mask, v, n=n, m=m, p=p, fmt=fmt, iters=it, hostile=bool(hostile))
    pot = None
    if rng.random() < 0.4:
        pot = (rng.normal(size=n), rng.normal(size=m))
    r = call(mon, "sparse", ot.emd, a, b, S.asformat(fmt), numItermax=it, log=True, potentials_init=pot)
    if r is not None:
        G = r[0]
        mon.true("sparse-index-range", G.nnz == 0 or (G.tocoo().row.max() < n and G.tocoo().col.max() < m))
    call(mon, "sparse2", ot.emd2, a, b, S, numItermax=it, return_matrix=True, log=True)


@core.family(FAMILIES, 2000)
def lazy(mon, rng, idx):
    using(mon)
    n, m = dims(rng, 50)
    d = int(rng.integers(1, 6))
    hostile = rng.random() < 0.35
    X, Y = gen.points(rng, n, d), gen.points(rng, m, d)
    a, b = (weird_weights(rng, n), weird_weights(rng, m)) if hostile else (
        gen.weights(rng, n), gen.weights(rng, m))
    if hostile:
        X[0, 0] = gen.pick(rng, (np.nan, np.inf, 1e200, 0.0))
        if rng.random() < 0.3:
            X, Y = X.astype(np.float32), np.round(Y).astype(int)
        if rng.random() < 0.2:
            Y = Y[:, : max(0, d - 1)]
    X, Y = gen.layout(rng, X), gen.layout(rng, Y)
    it = iters(rng) if not hostile else int(gen.pick(rng, (0, 2, 500)))
    metric = gen.pick(rng, ("sqeuclidean", "euclidean", "cityblock"))
    mon.case(a, b, X, Y, n=n, m=m, d=d, metric=metric, iters=it, hostile=bool(hostile))
    pot = None
    if rng.random() < 0.4:
        pot = (rng.normal(size=n), rng.normal(size=m))
        if hostile and rng.random() < 0.3:
            pot = (pot[0][:-1], pot[1])
    r = call(mon, "lazy", ot.lp.emd2_lazy, X, Y, a, b, metric=metric, numItermax=it, log=True,
             potentials_init=pot, return_matrix=True)
    if r is not None and not hostile and "G" in r[1]:
        G = r[1]["G"]
        G = G.toarray() if hasattr(G, "toarray") else np.asarray(G)
        mon.true("lazy-shape", G.shape == (n, m))


@core.family(FAMILIES, 1500)
def one_dim(mon, rng, idx):
    using(mon)
    n, m = dims(rng, 60)
    x, y = gen.points(rng, n, 1), gen.points(rng, m, 1)
    a, b = gen.weights(rng, n), gen.weights(rng, m)
    hostile = rng.random() < 0.3
    if hostile:
        a, b = weird_weights(rng, n), weird_weights(rng, m)
        x[0, 0] = gen.pick(rng, (np.nan, np.inf, 0.0))
    mon.case(x, y, a, b, n=n, m=m, hostile=bool(hostile))
    metric = gen.pick(rng, ("sqeuclidean", "euclidean", "minkowski", "cityblock"))
    call(mon, "emd_1d", ot.emd_1d, x, y, a, b, metric=metric, p=float(gen.pick(rng, (1, 1.5, 3))),
         dense=bool(rng.random() < 0.5), log=True)
    call(mon, "emd2_1d", ot.emd2_1d, x.ravel(), y.ravel(), a, b, metric=metric)
    # the compiled routine itself with masses that do not match exactly
    try:
        from ot.lp.emd_wrap import emd_1d_sorted
    except ImportError:
        return
    s = float(gen.pick(rng, (1.0, 1 + 1e-9, 1.1, 0.9)))
    call(mon, "emd_1d_sorted", emd_1d_sorted, np.ascontiguousarray(a, float),
         np.ascontiguousarray(b * s, float), np.sort(x.ravel()), np.sort(y.ravel()), metric=metric, p=2.0)


@core.family(FAMILIES, 1500)
def partial_1d(mon, rng, idx):
    using(mon)
    n, m = dims(rng, 60)
    x, y = gen.points(rng, n, 1).ravel(), gen.points(rng, m, 1).ravel()
    if rng.random() < 0.2:
        y = x[rng.integers(0, n, size=m)]
    if rng.random() < 0.1:
        x = x.astype(np.float32)
    if rng.random() < 0.1:
        x[0] = gen.pick(rng, (np.nan, np.inf))
    k = int(rng.integers(0, min(n, m) + 1))
    if rng.random() < 0.1:
        k = n + m
    p = int(gen.pick(rng, (1, 1, 2, 3)))
    mon.case(x, y, n=n, m=m, k=k, p=p)
    call(mon, "partial_1d", ot.partial.partial_wasserstein_1d, x, y, k, p=p)
    call(mon, "partial_1d-all", ot.partial.partial_wasserstein_1d, x[::-1], y[::-1], p=p)


@core.family(FAMILIES, 16, weight=5)
def concurrent(mon, rng, idx):
    """Threads sharing the sanitized build, each with its own problems."""
    using(mon)
    probs = []
    for _ in range(6):
        n, m = dims(rng, 60)
        probs.append(problem(rng, n, m)[:3])
    mon.case(*[p[2] for p in probs])
    errs = []

    def work(t):
        for r in range(6):
            a, b, M = probs[(t + r) % 6]
            try:
                ot.emd(a, b, M, numThreads=1 + (r + t) % 3)
                ot.emd(a, b, sp.coo_matrix(M + 1 - min(0, M.min())))
                ot.lp.emd2_lazy(M[:, :1], M.T[:, :1], a / a.sum(), b / b.sum(), return_matrix=False)
            except OKEXC as e:
                errs.append(repr(e))

    ts = [threading.Thread(target=work, args=(t,)) for t in range(6)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    mon.event("concurrent-calls", 6 * 6 * 3)
    mon.true("concurrent-no-exception", not errs, str(errs[:2]))


@core.family(FAMILIES, 12, weight=4)
def larger(mon, rng, idx):
    using(mon)
    n, m = int(rng.integers(100, 300)), int(rng.integers(100, 300))
    a, b, M, kinds = problem(rng, n, m)
    mon.case(a, b, M, n=n, m=m)
    for th in (1, 3):
        r = call(mon, "emd", ot.emd, a, b, M, log=True, numThreads=th)
        mon.true("sanitized-optimal", r is not None and r[1]["result_code"] == 1)
