"""Monitors, the case runner and the verdicts."""

import argparse
import hashlib
import importlib
import json
import os
import re
import resource
import select
import shutil
import signal
import subprocess
import sys
import time
import traceback

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FINDINGS = os.path.join(VERIF, "known_findings.txt")
BACKEND_VARS = {
    "torch": "POT_BACKEND_DISABLE_PYTORCH",
    "jax": "POT_BACKEND_DISABLE_JAX",
    "tf": "POT_BACKEND_DISABLE_TENSORFLOW",
    "cupy": "POT_BACKEND_DISABLE_CUPY",
}


# --------------------------------------------------------------------------
# monitors
# --------------------------------------------------------------------------


class Skip(Exception):
    """The generator produced a case outside the property's quantifier."""


def _short(x, n=12):
    if isinstance(x, np.ndarray):
        if x.size <= n:
            return np.array2string(x, precision=17, separator=",").replace("\n", "")
        return "array%s[%s..]" % (
            x.shape,
            np.array2string(x.ravel()[:6], precision=6, separator=","),
        )
    s = repr(x)
    return s if len(s) < 300 else s[:300] + "..."


class Mon:
    """Online monitors for one case.  Each call is one evaluation of an oracle."""

    def __init__(self, prop, family, idx):
        self.prop, self.family, self.idx = prop, family, idx
        self.mons = {}
        self.viol = []
        self.sigs = []
        self.desc = {}
        self.events = {}

    # -- book keeping
    def case(self, *arrays, nontrivial=True, **desc):
        h = hashlib.sha1(repr(sorted(desc.items(), key=str)).encode())
        for a in arrays:
            if a is None:
                continue
            try:
                h.update(np.ascontiguousarray(np.asarray(a)).tobytes())
            except Exception:
                h.update(repr(a).encode())
        if nontrivial:
            self.sigs.append(h.hexdigest()[:16])
        self.desc.update(
            {k: (v if isinstance(v, (int, float, str, bool)) else _short(v))
             for k, v in desc.items()}
        )

    def event(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + int(n)

    def _hit(self, name, ratio):
        m = self.mons.setdefault(name, [0, 0.0])
        m[0] += 1
        if ratio > m[1]:
            m[1] = float(ratio)

    def fail(self, name, msg):
        self._hit(name, 0.0)
        if len(self.viol) < 20:
            self.viol.append({"monitor": name, "msg": str(msg)[:1500],
                              "desc": dict(self.desc)})

    # -- oracles
    def true(self, name, cond, msg=""):
        self._hit(name, 0.0)
        if not bool(cond):
            self.fail(name, msg() if callable(msg) else msg)
            return False
        return True

    def le(self, name, val, tol, msg=""):
        """val <= tol, val a scalar error measure (NaN fails)."""
        val = float(val)
        tol = float(tol)
        ok = val <= tol
        self._hit(name, (max(val, 0.0) / tol if tol > 0 else 0.0) if ok else 0.0)
        if not ok:
            self.fail(name, "%.6g > %.6g %s" % (val, tol, msg() if callable(msg) else msg))
        return ok

    def close(self, name, got, ref, atol, rtol=0.0, msg=""):
        got = np.asarray(got)
        ref = np.asarray(ref)
        if got.dtype.kind in "biu":
            got = got.astype(float)
        if ref.dtype.kind in "biu":
            ref = ref.astype(float)
        if got.shape != ref.shape:
            self.fail(name, "shape %s, expected %s %s" % (got.shape, ref.shape, msg))
            return False
        if got.size == 0:
            self._hit(name, 0.0)
            return True
        if not np.all(np.isfinite(ref)):
            raise RuntimeError("harness: non finite reference in " + name)
        if not np.all(np.isfinite(got)):
            self.fail(name, "non finite result %s, expected %s %s" % (
                _short(got), _short(ref), msg() if callable(msg) else msg))
            return False
        err = float(np.max(np.abs(got - ref)))
        tol = float(atol + rtol * np.max(np.abs(ref)))
        ok = err <= tol
        self._hit(name, err / tol if (ok and tol > 0) else 0.0)
        if not ok:
            self.fail(name, "err %.6g > tol %.6g: got %s expected %s %s" % (
                err, tol, _short(got), _short(ref), msg() if callable(msg) else msg))
        return ok

    def finite(self, name, x, msg=""):
        x = np.asarray(x)
        return self.true(name, np.all(np.isfinite(x)),
                         lambda: "non finite: %s %s" % (_short(x), msg))

    def raises(self, name, fn, exc=Exception, msg=""):
        try:
            r = fn()
        except exc:
            self._hit(name, 0.0)
            return True
        self.fail(name, "no exception raised, returned %s %s" % (_short(r), msg))
        return False

    def result(self, cpu):
        return {
            "family": self.family,
            "idx": self.idx,
            "mons": self.mons,
            "viol": self.viol,
            "sigs": self.sigs,
            "desc": self.desc,
            "events": self.events,
            "cpu": round(cpu, 3),
        }


# --------------------------------------------------------------------------
# workers
# --------------------------------------------------------------------------


def case_rng(family, idx, seed):
    fh = int(hashlib.sha256(family.encode()).hexdigest()[:8], 16)
    return np.random.default_rng([seed, fh, idx])


def run_case(mod, prop, family, idx, seed):
    fn = mod.FAMILIES[family]["fn"]
    mon = Mon(prop, family, idx)
    rng = case_rng(family, idx, seed)
    np.random.seed([seed % 2**31, idx])
    import warnings

    t = time.process_time()
    skipped = False
    try:
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            fn(mon, rng, idx)
    except Skip as e:
        skipped = True
    except MemoryError:
        r = mon.result(time.process_time() - t)
        r["inconclusive"] = "MemoryError"
        return r
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = "; ".join("%s:%d" % (os.path.basename(f.filename), f.lineno)
                          for f in tb[-4:])
        mon.fail("no-unexpected-exception",
                 "%s: %s (%s)" % (type(e).__name__, str(e)[:400], where))
    r = mon.result(time.process_time() - t)
    if skipped:
        r["skipped"] = True
    return r


def worker_loop(mod, prop, seed, rfd, wfd, errpath):
    devnull = os.open(os.devnull, os.O_WRONLY)
    err = os.open(errpath, os.O_WRONLY | os.O_CREAT | os.O_APPEND)
    os.dup2(devnull, 1)
    os.dup2(err, 2)
    setup = getattr(mod, "worker_setup", None)
    if setup:
        setup()
    rf = os.fdopen(rfd, "r")
    wf = os.fdopen(wfd, "w")
    wf.write("ready\n")
    wf.flush()
    for line in rf:
        line = line.strip()
        if line == "quit":
            break
        family, idx = line.rsplit(" ", 1)
        r = run_case(mod, prop, family, int(idx), seed)
        wf.write(json.dumps(r, default=str) + "\n")
        wf.flush()
    os._exit(0)


def _cpu(pid):
    try:
        with open("/proc/%d/stat" % pid) as f:
            p = f.read().rsplit(")", 1)[1].split()
        return (int(p[11]) + int(p[12])) / os.sysconf("SC_CLK_TCK")
    except Exception:
        return 0.0


class Worker:
    def __init__(self, n, ctx):
        self.n, self.ctx = n, ctx
        self.task = None
        self.buf = ""
        tr, tw = os.pipe()
        rr, rw = os.pipe()
        self.errpath = os.path.join(ctx.scratch, "stderr.%d.%d" % (n, time.time_ns()))
        if ctx.start == "fork":
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(tw)
                    os.close(rr)
                    for w in ctx.workers:
                        for fd in (w.tw, w.rr):
                            try:
                                os.close(fd)
                            except OSError:
                                pass
                    worker_loop(ctx.mod, ctx.prop, ctx.seed, tr, rw, self.errpath)
                finally:
                    os._exit(3)
            self.pid = pid
            self.proc = None
        else:
            env = dict(os.environ)
            env.update(getattr(ctx.mod, "SPAWN_ENV", {}))
            err = open(self.errpath, "ab")
            self.proc = subprocess.Popen(
                [getattr(ctx.mod, "SPAWN_PY", sys.executable), "-m", "vt.worker",
                 ctx.prop, str(ctx.seed), str(tr), str(rw), self.errpath],
                cwd=VERIF, env=env, pass_fds=(tr, rw), stdin=subprocess.DEVNULL, stderr=err)
            err.close()
            self.pid = self.proc.pid
        os.close(tr)
        os.close(rw)
        self.tw, self.rr = tw, rr
        self.t0 = time.time()

    def send(self, task):
        self.task = task
        self.cpu0 = _cpu(self.pid)
        self.t0 = time.time()
        os.write(self.tw, ("%s %d\n" % task).encode())

    def reap(self):
        if self.proc is not None:
            rc = self.proc.wait()
            return -rc if rc < 0 else 0, rc
        _, st = os.waitpid(self.pid, 0)
        return (os.WTERMSIG(st) if os.WIFSIGNALED(st) else 0), st

    def close(self):
        for fd in (self.tw, self.rr):
            try:
                os.close(fd)
            except OSError:
                pass

    def stderr_tail(self):
        try:
            with open(self.errpath, errors="replace") as f:
                t = f.read()
            m = re.search(r"ERROR: AddressSanitizer|runtime error:", t)
            if m:
                return t[t.rfind("\n", 0, m.start()) + 1:][:1400]
            return t[-1400:]
        except OSError:
            return ""


class Ctx:
    pass


# --------------------------------------------------------------------------
# known findings
# --------------------------------------------------------------------------


def load_findings(prop):
    out = []
    if not os.path.exists(FINDINGS):
        return out
    with open(FINDINGS) as f:
        for line in f:
            line = line.strip()
            if not line.startswith("known:"):
                continue
            kv = dict(re.findall(r"(property|family|monitor)=(\S+)", line))
            what = line.split(" -- ", 1)[1] if " -- " in line else line
            if kv.get("property") == prop:
                out.append((kv.get("family"), kv.get("monitor"), what))
    return out


# --------------------------------------------------------------------------
# main
# --------------------------------------------------------------------------


def prepare_env(mod_backends):
    os.environ.setdefault("HOME", "/root")
    for k, v in {
        "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1",
        "TF_NUM_INTRAOP_THREADS": "1", "TF_NUM_INTEROP_THREADS": "1",
        "CUDA_VISIBLE_DEVICES": "", "MPLBACKEND": "Agg", "TF_CPP_MIN_LOG_LEVEL": "3",
        "PYKEOPS_VERBOSE": "0", "PYTHONDONTWRITEBYTECODE": "1",
    }.items():
        os.environ[k] = v
    for b, var in BACKEND_VARS.items():
        if b in mod_backends:
            os.environ.pop(var, None)
        else:
            os.environ[var] = "1"


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--family", default=None)
    ap.add_argument("--idx", type=int, default=None)
    ap.add_argument("-j", type=int, default=int(os.environ.get("VT_JOBS", "8")))
    ap.add_argument("--audit", action="store_true")
    ap.add_argument("--no-evidence", action="store_true")
    args = ap.parse_args(argv)
    t_start = time.time()
    prop = args.prop
    replay_of = None
    if args.replay:
        with open(args.replay) as f:
            replay_of = json.load(f)
        prop = replay_of["property"]
        args.seed, args.family = replay_of["seed"], replay_of["family"]
        args.idx = replay_of["idx"]

    # which backends the module wants is needed before ot is imported
    spec = importlib.util.find_spec("vt.checks." + prop.lower())
    with open(spec.origin) as f:
        src = f.read()
    m = re.search(r"^BACKENDS\s*=\s*(\(.*?\))", src, re.M)
    prepare_env(eval(m.group(1)) if m else ())
    m = re.search(r"^START\s*=\s*['\"](\w+)['\"]", src, re.M)
    start = m.group(1) if m else "fork"

    import tempfile

    from . import native

    scratch = tempfile.mkdtemp(prefix="vt-run-")
    os.environ["VT_SCRATCH"] = scratch
    os.environ["KEOPS_CACHE_FOLDER"] = os.path.join(scratch, "keops")
    os.makedirs(os.environ["KEOPS_CACHE_FOLDER"])
    ot_scratch = None
    code = 3
    try:
        ot_path, ot_scratch, how = native.locate_ot()
        os.environ["VT_OT_PATH"] = ot_path
        sys.path.insert(0, ot_path)
        code = _run(args, prop, start, scratch, how, t_start)
    except Exception:
        traceback.print_exc()
        print("ERROR: the check itself failed (no verdict)")
        code = 3
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
        if ot_scratch:
            shutil.rmtree(ot_scratch, ignore_errors=True)
    sys.stdout.flush()
    os._exit(code)


def _run(args, prop, start, scratch, how, t_start):
    ctx = Ctx()
    try:
        mod = importlib.import_module("vt.checks." + prop.lower())
    except Exception as e:
        # `import ot` itself is the first thing every property relies on
        tb = traceback.format_exc()
        if "/ot/" in tb and not os.path.exists(os.path.join(scratch, "x")):
            print(tb)
            return _emit_import_violation(args, prop, tb)
        raise
    ctx.mod, ctx.prop, ctx.seed = mod, prop, args.seed
    ctx.start, ctx.scratch, ctx.workers = start, scratch, []
    tier = "thorough" if args.tier == "thorough" else "quick"
    prep = getattr(mod, "prepare", None)
    pre_results = []
    if prep:
        pre_results = prep(tier, args.seed, scratch) or []

    tasks = []
    for fam, o in mod.FAMILIES.items():
        if args.family and fam != args.family:
            continue
        n = o["quick"] if tier == "quick" else o.get("thorough", 12 * o["quick"])
        for i in range(n):
            if args.idx is not None and i != args.idx:
                continue
            tasks.append((o.get("weight", 1.0), fam, i))
        if args.idx is not None and args.idx >= n:
            tasks.append((1.0, fam, args.idx))
    tasks.sort(key=lambda t: (-t[0], t[2], t[1]))
    tasks = [(f, i) for _, f, i in tasks]
    planned = len(tasks)
    tasks.reverse()

    wall_cap = getattr(mod, "WALL_CAP", 780 if tier == "quick" else 6 * 3600)
    results, incon, viols = [], [], []
    results += pre_results
    findings = load_findings(prop)
    n_fresh = 0

    def listed(fam, monitor):
        return any((f is None or f == fam) and (m is None or m == monitor)
                   for f, m, _ in findings)

    nw = max(1, min(args.j, planned))
    respawns = 0

    def spawn():
        w = Worker(len(ctx.workers) + respawns, ctx)
        ctx.workers.append(w)
        return w

    for _ in range(nw):
        spawn()
    deadline = t_start + wall_cap

    def drop(w):
        ctx.workers.remove(w)
        w.close()

    def handle_death(w):
        nonlocal respawns
        sig, st = w.reap()
        task = w.task
        tail = w.stderr_tail()
        drop(w)
        if task is None:
            if not tasks and sig == 0:
                return
            incon.append("worker died outside a case (status %s) %s" % (st, tail[-600:]))
        elif sig in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE,
                     signal.SIGILL):
            viols.append({"family": task[0], "idx": task[1], "monitor": "no-crash",
                          "msg": "process died with %s\n%s" % (
                              signal.Signals(sig).name, tail), "desc": {}})
        else:
            incon.append("worker lost (status %s) in %s %s %s" % (st, task[0], task[1], tail[-600:]))
        respawns += 1
        if tasks and respawns < 60:
            spawn()

    last_poll = time.time()
    while ctx.workers:
        fds = {w.rr: w for w in ctx.workers}
        rdy, _, _ = select.select(list(fds), [], [], 1.0)
        for fd in rdy:
            w = fds[fd]
            data = os.read(fd, 1 << 20)
            if not data:
                handle_death(w)
                continue
            w.buf += data.decode()
            while "\n" in w.buf:
                line, w.buf = w.buf.split("\n", 1)
                if line != "ready":
                    r = json.loads(line)
                    results.append(r)
                    n_fresh += sum(not listed(r["family"], v["monitor"]) for v in r["viol"])
                w.task = None
                if tasks and time.time() < deadline:
                    w.send(tasks.pop())
                else:
                    try:
                        os.write(w.tw, b"quit\n")
                    except OSError:
                        pass
        if time.time() - last_poll > 2:
            last_poll = time.time()
            for w in list(ctx.workers):
                if w.task is None:
                    continue
                lim = mod.FAMILIES[w.task[0]].get("cpu_limit", 100)
                used = _cpu(w.pid) - w.cpu0
                if used > lim:
                    os.kill(w.pid, signal.SIGKILL)
                    task = w.task
                    w.reap()
                    drop(w)
                    viols.append({
                        "family": task[0], "idx": task[1], "monitor": "bounded-progress",
                        "msg": "case still running after %.0f s of CPU time (limit %d s,"
                               " far above any case on a sound tree)" % (used, lim),
                        "desc": {}})
                    respawns += 1
                    if tasks and respawns < 60:
                        spawn()
                elif time.time() > deadline + 60:
                    os.kill(w.pid, signal.SIGKILL)
                    task = w.task
                    w.reap()
                    drop(w)
                    incon.append("wall clock watchdog in %s %s" % task)
        if len(viols) + n_fresh > 400:  # broken beyond doubt
            tasks.clear()
    if tasks:
        incon.append("%d of %d cases not run (wall clock cap or lost workers)" % (len(tasks), planned))

    # ---- aggregate
    mons, sigs, samples, events, fams, skipped, cpu = {}, set(), [], {}, {}, 0, {}
    for r in results:
        if r.get("inconclusive"):
            incon.append("%s %s: %s" % (r["family"], r["idx"], r["inconclusive"]))
        fams[r["family"]] = fams.get(r["family"], 0) + (0 if r.get("skipped") else 1)
        cpu.setdefault(r["family"], []).append(r["cpu"])
        if r.get("skipped"):
            skipped += 1
        for k, (n, mx) in r["mons"].items():
            key = r["family"] + ":" + k
            e = mons.setdefault(key, [0, 0.0, None])
            e[0] += n
            if mx >= e[1]:
                e[1], e[2] = mx, r["idx"]
        sigs.update(r["sigs"])
        for k, n in r["events"].items():
            events[k] = events.get(k, 0) + n
        for v in r["viol"]:
            viols.append(dict(v, family=r["family"], idx=r["idx"]))
    seen_f = set()
    for r in results:
        if r["family"] not in seen_f and r["desc"]:
            seen_f.add(r["family"])
            samples.append(dict(family=r["family"], idx=r["idx"], **{
                k: v for k, v in r["desc"].items() if k not in ("family", "idx")}))

    known, fresh = {}, []
    for v in viols:
        for fam, monn, what in findings:
            if (fam is None or fam == v["family"]) and (monn is None or monn == v["monitor"]):
                known.setdefault(what, []).append(v)
                break
        else:
            fresh.append(v)

    evaluations = sum(fams.values())
    if args.family is None:
        for fam in mod.FAMILIES:
            if not fams.get(fam):
                incon.append("family %s observed nothing" % fam)
        for req in getattr(mod, "REQUIRED", ()):
            if not any(k.endswith(":" + req) or k == req for k in mons):
                incon.append("monitor %s was never evaluated" % req)
        for req in getattr(mod, "REQUIRED_EVENTS", ()):
            if not events.get(req):
                incon.append("event %s was never observed" % req)

    print("== %s tier=%s seed=%d ot: %s" % (prop, tier, args.seed, how))
    print("   cases %d (skipped %d), distinct non-trivial %d, monitor evaluations %d, %.1f s"
          % (evaluations, skipped, len(sigs), sum(m[0] for m in mons.values()),
             time.time() - t_start))
    for fam in sorted(fams):
        print("   %-34s cases %5d  cpu mean %.3f max %.2f" % (
            fam, fams[fam], float(np.mean(cpu[fam])), max(cpu[fam])))
    if events:
        print("   events:", ", ".join("%s=%d" % kv for kv in sorted(events.items())))
    if args.audit:
        for k in sorted(mons, key=lambda k: -mons[k][1]):
            print("   margin %-60s n=%6d max err/tol=%.3g (idx %s)" % (k, mons[k][0], mons[k][1], mons[k][2]))
    for what, vs in known.items():
        print("KNOWN-FINDING: property=%s %s [observed %d times, e.g. %s/%s %s]" % (
            prop, what, len(vs), vs[0]["family"], vs[0]["idx"], vs[0]["msg"].replace("\n", " ")[:200]))

    if not args.no_evidence and args.family is None:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = {
            "property": prop, "tier": tier, "seed": args.seed, "level": "exploration",
            "coverage": {
                "evaluations": evaluations,
                "distinct_nontrivial": len(sigs),
                "rule": getattr(mod, "RULE", (mod.__doc__ or "").strip()),
                "samples": samples[:40],
                "monitors": {k: {"evaluations": v[0], "max_err_over_tol": v[1]}
                             for k, v in sorted(mons.items())},
                "cases_per_family": fams,
                "events": events,
                "skipped": skipped,
                "ot_build": how,
                "inconclusive": incon[:20],
            },
            "assumptions": getattr(mod, "ASSUMPTIONS", []),
            "wall_s": round(time.time() - t_start, 1),
            "violations": len(fresh),
        }
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)

    if fresh:
        _report(args, prop, tier, fresh)
        return 1
    if incon:
        for i in incon[:10]:
            print("INCONCLUSIVE:", i)
        return 2
    print("OK property=%s held on everything observed" % prop)
    return 0


def _report(args, prop, tier, fresh):
    d = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    seen, n = {}, 0
    for v in fresh:
        key = (v["family"], v["monitor"])
        seen[key] = seen.get(key, 0) + 1
        if seen[key] > 2 or n >= 20:
            continue
        path = os.path.join(d, "%s-%d.json" % (prop, n))
        n += 1
        with open(path, "w") as f:
            json.dump({"property": prop, "family": v["family"], "idx": v["idx"],
                       "seed": args.seed, "tier": tier, "monitor": v["monitor"],
                       "message": v["msg"], "case": v.get("desc")}, f, indent=1, default=str)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("   family=%s idx=%s monitor=%s: %s   case=%s" % (
            v["family"], v["idx"], v["monitor"], v["msg"], json.dumps(v.get("desc"), default=str)[:600]))
    tot = {}
    for v in fresh:
        k = v["family"] + ":" + v["monitor"]
        tot[k] = tot.get(k, 0) + 1
    print("   violations by monitor:", json.dumps(tot))


def _emit_import_violation(args, prop, tb):
    _report(args, prop, args.tier, [{"family": "import", "idx": 0, "monitor": "import-ot",
                                     "msg": tb[-1500:], "desc": {}}])
    return 1


def family(FAMILIES, quick, thorough=None, **opts):
    """Decorator registering a case family."""

    def deco(fn):
        name = opts.pop("name", fn.__name__)
        FAMILIES[name] = dict(fn=fn, quick=quick,
                              thorough=thorough if thorough is not None else 12 * quick,
                              **opts)
        return fn

    return deco
