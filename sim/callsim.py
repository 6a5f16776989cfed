"""The library's computations called by programs with a history: C07 threads, C08 what happened before, C09 who owns what,
C10 failures inside. The oracle is the same call on equal arguments in a process that has done nothing else."""
import copy
import decimal
import gc
import logging
import os
import pickle
import random
import signal
import struct
import sys
import threading
import warnings

from . import calls as K
from . import fsim
from . import seam
from . import threads as TH

RUNS = {"C07": (2000, 60000), "C08": (1200, 40000), "C09": (1800, 60000), "C10": (1800, 60000)}
LEVEL = {"C07": "exploration", "C08": "exploration", "C09": "exploration", "C10": "fault_enumeration"}
RULE = {
    "C07": "A run is two to four threads, each making a few library calls on shared objects, under one seeded schedule with exchanges at "
           "statements or bytecodes of the package; same if the event logs (every exchange with its place, every outcome) are the same; "
           "trivial if no exchange happened.",
    "C08": "A run is one history of calls, changed and replaced objects, failing calls, clock jumps, reseeded generators and recycled "
           "memory; same if the event logs are the same; trivial if no call was compared.",
    "C09": "A run is one history of calls after each of which every argument and every earlier result is inspected and results are "
           "overwritten; same if the event logs are the same; trivial if nothing was overwritten.",
    "C10": "A run is a short history with failures (allocation, user interrupt, memory error at a statement) at chosen points inside "
           "calls, each followed by repeated and other calls; same if the event logs are the same; trivial if no fault fired.",
}
REAL = ["starwinds_magnetogram computations (zdi, pfss, converter, rotate, geometry, longitudinal_field, parker, image_converter, "
        "associated_legendre, coordinate_transforms, fibonacci_sphere, coefficients)", "numpy, scipy, numba code"]
STUB = ["thread scheduling (at package statements or bytecodes and at package locks)", "outcome and initial content of numpy allocations",
        "clock, entropy, process id", "delivery of interrupts"]
ASSUME = ["numpy and scipy calls are atomic with respect to other threads", "floating-point results of equal calls agree to 1e-9"]


class Quiet(logging.Handler):
    """Formats every record and drops it; has no lock, because formatting may run package code that is being exchanged."""

    def createLock(self):
        self.lock = None

    def emit(self, record):
        record.getMessage()


def warm(prop):
    import numpy  # noqa
    prefix = os.path.join(seam.repo(), "starwinds_magnetogram") + os.sep
    TH.patch_locks((prefix, os.path.realpath(prefix) + os.sep))
    import importlib
    import pkgutil
    import starwinds_magnetogram
    K._m()
    for m in pkgutil.iter_modules(starwinds_magnetogram.__path__):
        importlib.import_module("starwinds_magnetogram." + m.name)
    import quaternion
    import spherical_functions
    spherical_functions.Wigner_D_element(quaternion.one, 1, 0, 0)
    quaternion.from_euler_angles([0.1, 0.2, 0.3])
    seam.package_dir()
    seam.quiet_warnings()
    logging.getLogger().addHandler(Quiet())


# ------------------------------------------------------------------ the oracle

class Reference:
    """A copy of the pristine process; every question is answered in a further copy that then goes away."""

    def __init__(self, seed):
        self.memo = {}
        qr, qw = os.pipe()
        ar, aw = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            os.close(qw), os.close(ar)
            try:
                self._serve(qr, aw, seed)
            finally:
                os._exit(0)
        os.close(qr), os.close(aw)
        self.q, self.a = qw, ar

    def _serve(self, qr, aw, seed):
        while True:
            n = _read(qr, 4)
            if not n:
                return
            spec, c = pickle.loads(_read(qr, struct.unpack("I", n)[0]))
            pid = os.fork()
            if pid == 0:
                try:
                    seam.patch_world(seam.Clock(), f"ref{seed}")
                    seam.use_numpy_handler()
                    seam.shim().sim_alloc_fill(1, 0x5eed)
                    ans = outcome(K.Env(spec), c)[0]
                    b = pickle.dumps(ans)
                except BaseException as e:
                    b = pickle.dumps(("harness", repr(e)))
                _write(aw, struct.pack("I", len(b)) + b)
                os._exit(0)
            _, st = os.waitpid(pid, 0)
            if st:
                b = pickle.dumps(("e", f"signal {st}"))
                _write(aw, struct.pack("I", len(b)) + b)

    def ask(self, env, c):
        c = dict(fn=c["fn"], a=c["a"])
        spec = dict(env.spec, mods={k: v for k, v in env.mods.items() if k in c["a"]})
        key = repr((spec, c))
        if key not in self.memo:
            b = pickle.dumps((copy.deepcopy(spec), c))
            _write(self.q, struct.pack("I", len(b)) + b)
            self.memo[key] = pickle.loads(_read(self.a, struct.unpack("I", _read(self.a, 4))[0]))
            if self.memo[key][0] == "harness":
                raise seam.HarnessError("reference: " + self.memo[key][1])
        return self.memo[key]


def _read(fd, n):
    b = b""
    while len(b) < n:
        x = os.read(fd, n - len(b))
        if not x:
            return None
        b += x
    return b


def _write(fd, b):
    while b:
        b = b[os.write(fd, b):]


def outcome(env, c):
    """(canonical outcome, raw result)"""
    try:
        x = K.perform(env, c)
    except Exception as e:
        e.__traceback__ = None
        return ("e", type(e).__name__), None
    return K.canon(x), x


def compare(got, want):
    if got[0] == "e" or want[0] == "e":
        return None if got[:2] == want[:2] else f"{K.kind(got)} instead of {K.kind(want)}"
    return K.same(got, want)


def name(c):
    return f"{c['fn']}({', '.join(str(a['s'] if isinstance(a, dict) else a) for a in c['a'])})"


# ------------------------------------------------------------------ plans

def fault(r):
    return dict(kind=r.choice(("interrupt", "memory", "alloc", "alloc", "allocs")), pos=r.random())


def themed(r, n, mix):
    """Calls of which many are the same function on the same or nearly the same arguments."""
    base = [K.rand_call(r) for _ in range(1 if mix < 0.5 else 2)]
    out = []
    for _ in range(n):
        b = r.choice(base)
        out.append(K.rand_call(r) if r.random() < 0.3 * mix else b if r.random() < 0.3 else K.vary(r, b))
    return out


def rand_mod(r, c):
    """A change to one of the objects a call uses (the program's own doing)."""
    names = [a for a in c["a"] if isinstance(a, str)]
    if not names:
        return None
    n = r.choice(names)
    base = n.rstrip("0123456789")
    if base == "zdi":
        m = r.choice((["inplace", r.choice(("alpha", "beta", "gamma")), r.choice((2.0, -0.5))], ["elem", r.choice(("alpha", "gamma")), r.randint(0, 5), 1.5],
                      ["assign", r.choice(("alpha", "beta")), 3.0]))
    elif base in ("p", "n", "c"):
        l = r.choice((1, 2, 2, 4))
        m = r.choice((["set", l, r.randint(0 if base != "n" else -l, l), r.choice((0.5, 2.5)), -1.0], ["mulset", r.choice((2.0, -1.0))]))
    elif base in ("pl", "az", "r", "f", "img", "v", "x", "y", "z", "vec", "ph", "vel"):
        m = ["elem", r.randint(0, 30), r.choice((1e-3, 0.01))]
    else:
        return None
    return dict(op="mod", n=n, m=m)


def gen(prop, r, i, tier):
    env = K.rand_env(r)
    if prop == "C07":
        n = r.choice((2, 2, 2, 3, 4))
        mix = r.random()
        pool = themed(r, n * r.choice((1, 2, 2, 3)), mix)
        procs = [dict(ops=[pool[k] for k in range(j, len(pool), n)]) for j in range(n)]
        if r.random() < 0.25:
            # One of the calls runs out of memory while the others go on.
            p = r.choice(procs)
            k = r.randrange(len(p["ops"]))
            p["ops"][k] = dict(p["ops"][k], oom=[int(2 ** (6 * r.random())) - 1, r.random() < 0.5])
        op = r.random() < 0.2
        policy = dict(seed=r.getrandbits(32), p=r.choice((0.01, 0.03, 0.1, 0.25, 0.5)) / (4 if op else 1))
        if r.random() < 0.5:
            policy.update(p=policy["p"] / 20, rare=r.choice((0.1, 0.3, 0.6, 1.0)) / (2 if op else 1))
        return dict(env=env, procs=procs, policy=policy, schedule=None, opcodes=op, after=r.random() < 0.5 or any("oom" in c for p in procs for c in p["ops"]))
    ops = []
    if prop == "C08":
        mix = r.random()
        calls = themed(r, r.randint(3, 8), mix)
        for c in calls:
            x = r.random()
            if x < 0.18:
                m = rand_mod(r, c)
                if m:
                    ops.append(dict(op="call", c=c))
                    ops.append(m)
            elif x < 0.30:
                ops.append(dict(op="fail", c=K.vary(r, c), fault=fault(r)))
            elif x < 0.38:
                ops.append(dict(op="rng", seed=r.getrandbits(20), draws=r.choice((0, 1, 5))))
            elif x < 0.44:
                ops.append(dict(op="log", level=r.choice(("DEBUG", "INFO", "ERROR"))))
            elif x < 0.47:
                ops.append(dict(op="err", how=r.choice(("ignore", "warn"))))
            elif x < 0.58:
                n = [a for a in c["a"] if isinstance(a, str)]
                if n:
                    ops.append(dict(op="call", c=c))
                    ops.append(dict(op="renew", n=r.choice(n)))
            elif x < 0.60 and i % 4 == 0:
                ops.append(dict(op="flood", n=930))
            ops.append(dict(op="call", c=dict(c, fresh=True) if r.random() < 0.25 else c))
            if r.random() < 0.3:
                ops.append(dict(op="call", c=c))
        return dict(env=env, ops=ops, jumps=[r.choice((-3600.0, 1e9, -1e9, 0.0, 1e-9, 31.0)) for _ in range(r.choice((0, 3, 12)))], fill=r.getrandbits(32),
                    level=r.choice(("WARNING", "DEBUG", "INFO")))
    if prop == "C09":
        for c in themed(r, r.randint(2, 5), r.random()):
            for d in (c, c if r.random() < 0.5 else K.vary(r, c)):
                ops.append(dict(op="call", c=dict(d, fresh=True) if r.random() < 0.15 else d, scribble=r.random() < 0.6))
        return dict(env=env, ops=ops, fill=r.getrandbits(32))
    for c in themed(r, r.choice((1, 1, 2)), r.random()):
        if r.random() < 0.35:
            ops.append(dict(op="call", c=c if r.random() < 0.5 else K.vary(r, c)))
        for _ in range(r.choice((1, 2, 3))):
            ops.append(dict(op="fail", c=c, fault=fault(r)))
        ops.append(dict(op="call", c=c))
        if r.random() < 0.7:
            ops.append(dict(op="call", c=K.vary(r, c) if r.random() < 0.6 else K.rand_call(r)))
    return dict(env=env, ops=ops, fill=r.getrandbits(32))


# ------------------------------------------------------------------ execution

def dry(env, c):
    """How many lines and allocations this call would take now, found out in a copy of this process."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        n = dict(lines=0, allocs=0)
        try:
            lib = seam.shim()
            lib.sim_alloc_thread(1)
            lib.sim_alloc_arm(1, -1, -1)
            lf = seam.LineFault()
            try:
                with lf:
                    K.perform(env, c)
            except BaseException:
                pass
            sys.settrace(None)
            n = dict(lines=lf.n, allocs=lib.sim_alloc_count())
        finally:
            _write(w, pickle.dumps(n))
            os._exit(0)
    os.close(w)
    b = b""
    while True:
        x = os.read(r, 1 << 16)
        if not x:
            break
        b += x
    os.close(r)
    os.waitpid(pid, 0)
    return pickle.loads(b) if b else dict(lines=1, allocs=1)


def broken(env, c, f, out):
    """Make a call with a fault inside; returns (canonical outcome or ("fault", type), fired)."""
    d = dry(env, c)
    kind = f["kind"]
    exc = {"interrupt": KeyboardInterrupt, "memory": MemoryError}.get(kind)
    lf = seam.LineFault(at=1 + int(f["pos"] * d["lines"]) if exc else None, exc=exc or KeyboardInterrupt)
    lib = seam.shim()
    if not exc:
        at = int(f["pos"] * max(1, d["allocs"]))
        lib.sim_alloc_thread(1)
        lib.sim_alloc_arm(1, at, at if kind == "alloc" else 1 << 40)
    fired = 0
    try:
        try:
            with lf:
                x = K.perform(env, c)
            sys.settrace(None)
        finally:
            sys.settrace(None)
            if not exc:
                fired = lib.sim_alloc_failed()
                lib.sim_alloc_arm(0, -1, -1)
        got = K.canon(x)
    except seam.StepCap:
        got = ("cap",)
    except BaseException as e:
        got = ("e", type(e).__name__)
        e.__traceback__ = None
    fired += lf.fired
    if fired:
        out.fired[kind] = out.fired.get(kind, 0) + 1
    where = lf.where
    return got, fired, where


def names_of(ops):
    s = set()
    for o in ops:
        for a in o["c"]["a"] if "c" in o else ():
            if isinstance(a, str):
                s.add(a)
    return sorted(s)


def exec_threads(plan, out, ref):
    env = K.Env(plan["env"])
    seam.patch_world(seam.Clock(), "c07")
    calls = [o for p in plan["procs"] for o in p["ops"]]
    for n in names_of([dict(c=c) for c in calls]):
        env.get(n)
    wants = [ref.ask(env, c) for c in calls]
    lib = seam.shim()
    results = {}
    failed = set()

    def body(j, ops):
        def run(t):
            seam.use_numpy_handler()
            for k, c in enumerate(ops):
                try:
                    if "oom" in c:
                        lib.sim_alloc_thread(1)
                        lib.sim_alloc_arm(1, c["oom"][0], 1 << 40 if c["oom"][1] else c["oom"][0])
                    try:
                        x = K.perform(env, c)
                    finally:
                        if "oom" in c:
                            n = lib.sim_alloc_failed()
                            lib.sim_alloc_arm(0, -1, -1)
                            lib.sim_alloc_thread(0)
                            if n:
                                out.fired["alloc"] = out.fired.get("alloc", 0) + 1
                                failed.add((j, k))
                    results[j, k] = ("raw", x)
                except seam.SimCrash:
                    raise
                except Exception as e:
                    e.__traceback__ = None
                    results[j, k] = ("e", type(e).__name__, str(e)[:120])
        return run
    lib.sim_alloc_fill(1 + plan["opcodes"], 77)
    w = TH.World([body(j, p["ops"]) for j, p in enumerate(plan["procs"])], schedule=plan.get("schedule"), policy=plan.get("policy"), opcodes=plan["opcodes"],
                 cap=3_000_000 if plan["opcodes"] else 400_000)
    st = settings()
    w.run()
    same_settings(dict(st, threads=threading.active_count()), out, "concurrent calls")
    if w.deadlock:
        out.v("deadlock", "all threads wait for each other: " + "; ".join(list(w.tail)[-4:]))
    elif w.capped:
        out.v("does not finish", f"threads still running after {w.ev} steps")
    out.take(w)
    if w.error:
        return w
    i = 0
    for j, p in enumerate(plan["procs"]):
        for k, c in enumerate(p["ops"]):
            want = wants[i]
            i += 1
            g = results.get((j, k))
            if g is None:
                if not (w.deadlock or w.capped):
                    out.v("call lost", f"thread {j} never finished {name(c)}")
                continue
            got = K.canon(g[1]) if g[0] == "raw" else g
            if (j, k) in failed and got[0] == "e":
                out.note(j, k, c["fn"], "ran out of memory")
                continue
            d = compare(got, want)
            out.note(j, k, c["fn"], "differs" if d else got[0])
            if d:
                extra = f" ({g[2]})" if g[0] == "e" else ""
                out.v("call fails among threads" if got[0] == "e" else "result differs among threads", f"thread {j}, {name(c)}: {d}{extra}")
    if plan["after"] and not out.viol:
        for c in calls:
            got, _ = outcome(env, c)
            d = compare(got, ref.ask(env, c))
            if d:
                out.v("result differs after threads", f"{name(c)} once all threads had finished: {d}")
    out.nontrivial = w.switches > 0
    return w


def gen_states():
    import numpy as np
    s = np.random.get_state()
    return (s[0], s[1].tobytes(), s[2:], random.getstate())


SIGNALS = sorted(signal.valid_signals())


def loggers():
    """Loggers of the package that differ from a fresh one."""
    out = {}
    for n, x in sorted(logging.root.manager.loggerDict.items()):
        if n.startswith("starwinds_magnetogram") and isinstance(x, logging.Logger):
            hs = [type(h).__name__ for h in x.handlers if not isinstance(h, logging.NullHandler)]
            if hs or x.level or x.disabled or not x.propagate or x.filters:
                out[n] = (hs, x.level, x.disabled, x.propagate, len(x.filters))
    return out


def settings():
    """What a program has set for itself in this process and no computation has any business with."""
    import locale
    import numpy as np
    import scipy.special
    root = logging.getLogger()
    mask = os.umask(0o022)
    os.umask(mask)
    return {"floating-point error handling": np.geterr(), "special function error handling": scipy.special.geterr(), "print options": np.get_printoptions(),
            "working directory": os.getcwd(), "environment": dict(os.environ), "recursion limit": sys.getrecursionlimit(),
            "log level": root.level, "log handlers": list(map(id, root.handlers)), "disabled log levels": logging.root.manager.disable,
            "locale": locale.setlocale(locale.LC_ALL), "threads": threading.active_count(), "switch interval": sys.getswitchinterval(),
            "standard output": id(sys.stdout), "garbage collection": (gc.isenabled(), gc.get_threshold()), "warning filters": list(map(repr, warnings.filters)),
            "display of warnings": id(warnings.showwarning), "file mode mask": mask, "signal handlers": [repr(signal.getsignal(n)) for n in SIGNALS],
            "exception hook": (id(sys.excepthook), id(sys.displayhook), id(threading.excepthook)), "module search path": list(sys.path),
            "error callback": repr(np.geterrcall()), "decimal arithmetic": (decimal.getcontext().prec, decimal.getcontext().rounding), "log settings": loggers(),
            "size of arrays buffered": np.getbufsize()}


def same_settings(a, out, what):
    b = settings()
    for n in a:
        if a[n] != b[n]:
            out.v("process settings changed", f"{what}: {n} is {str(b[n])[:90]}, was {str(a[n])[:90]}")


def exec_history(prop, plan, out, ref):
    import numpy as np
    env = K.Env(plan["env"])
    clock = seam.Clock(plan.get("jumps", ()))
    seam.patch_world(clock, "hist")
    seam.use_numpy_handler()
    lib = seam.shim()
    lib.sim_alloc_fill(1 + (plan["fill"] % 3 == 0), plan["fill"])
    log = logging.getLogger()
    log.setLevel(plan.get("level", "WARNING"))
    jumps = len(clock.jumps)
    kept = []
    compared = written = fired = 0
    snap = None
    if prop in ("C09", "C10"):
        for n in names_of(plan["ops"]):
            env.get(n)
        snap = env.snapshot()
    cap = seam.LineFault(cap=5_000_000)
    for k, o in enumerate(plan["ops"]):
        t = o["op"]
        if t == "mod":
            env.modify(o["n"], o["m"])
            out.note(k, "mod", o["n"], o["m"])
        elif t == "renew":
            # Another object, very likely at the address of the one that goes away.
            env.o.pop(o["n"], None)
            env.mods.pop(o["n"], None)
            gc.collect()
            base = o["n"].rstrip("0123456789")
            if base not in ("g", "pk"):
                m = dict(zdi=["assign", "alpha", 1.5], p=["mulset", 1.5], n=["mulset", 1.5], c=["mulset", 1.5]).get(base)
                if m is None and base not in ("rad", "dl", "om", "li"):
                    m = ["elem", 1, 0.01]
                if m:
                    env.mods[o["n"]] = [m]
            env.get(o["n"])
            out.note(k, "renew", o["n"])
        elif t == "rng":
            np.random.seed(o["seed"])
            random.seed(o["seed"])
            for _ in range(o["draws"]):
                np.random.normal(), random.random(), random.gauss(0, 1)
            out.note(k, "rng")
        elif t == "log":
            log.setLevel(o["level"])
            out.note(k, "log", o["level"])
        elif t == "err":
            np.seterr(all=o["how"])
            out.note(k, "err", o["how"])
        elif t == "flood":
            ic = K._m()["ic"]
            for j in range(o["n"]):
                ic.spherical_harmonic(0, 1 + j % 3, np.full((2, 2), 0.1 + j), np.full((2, 2), 1.0))
            out.note(k, "flood")
            out.probe("cache floods")
        elif t == "fail":
            rng, st = gen_states(), settings()
            got, f, where = broken(env, o["c"], o["fault"], out)
            fired += bool(f)
            out.note(k, "fail", o["c"]["fn"], o["fault"]["kind"], f, where, got[:2] if got[0] == "e" else "returned")
            if prop == "C10":
                want = ref.ask(env, o["c"])
                if got[0] == "cap":
                    out.v("does not finish", f"op {k}: {name(o['c'])} after {o['fault']['kind']}")
                elif got[0] != "e":
                    d = compare(got, want)
                    if d:
                        out.v("wrong result from a failing call", f"op {k}: {name(o['c'])} returned normally although {o['fault']['kind']} at {where or 'an allocation'}: {d}")
                    elif f:
                        out.probe("survived")
                elif not f and got[:2] != want[:2]:
                    out.v("fails without a fault", f"op {k}: {name(o['c'])}: {got[1]}")
                check_env(env, snap, out, f"op {k}: {name(o['c'])} failed ({o['fault']['kind']} at {where or 'an allocation'})", "arguments changed by a failed call")
            if gen_states() != rng and prop == "C08":
                out.v("random generator used", f"op {k}: {name(o['c'])} changed the state of a random generator")
            if prop in ("C08", "C10"):
                same_settings(st, out, f"op {k}: {name(o['c'])}, failed")
        elif t == "call":
            c = o["c"]
            want = ref.ask(env, c)
            rng, st = gen_states(), settings()
            try:
                if compared % 4 == 0:
                    got, raw = outcome(env, c)
                else:
                    with cap:
                        got, raw = outcome(env, c)
            except seam.StepCap:
                out.v("does not finish", f"op {k}: {name(c)}")
                continue
            finally:
                sys.settrace(None)
            d = compare(got, want)
            compared += 1
            out.note(k, c["fn"], "differs" if d else got[0])
            if d:
                cls = {"C08": "result depends on history", "C09": "result depends on earlier writes", "C10": "result differs after a failure"}[prop]
                out.v(cls, f"op {k}: {name(c)}: {d}")
            if prop in ("C08", "C10"):
                same_settings(st, out, f"op {k}: {name(c)}")
            if prop == "C08" and gen_states() != rng:
                out.v("random generator used", f"op {k}: {name(c)} changed the state of a random generator")
            if prop == "C10":
                check_env(env, snap, out, f"op {k}: {name(c)}", "arguments changed")
            if prop == "C09":
                check_env(env, snap, out, f"op {k}: {name(c)}", "arguments changed")
                if got[0] == "e":
                    continue
                for j, r0, c0, w0 in kept:
                    if w0 and not K.exact(K.canon(r0), c0):
                        out.v("earlier result changed", f"op {k}: {name(c)} changed the result of op {j}")
                if o["scribble"]:
                    n = K.scribble(raw)
                    written += n
                    check_env(env, snap, out, f"op {k}: writing into the result of {name(c)}", "result shares memory with an argument")
                    for j, r0, c0, w0 in kept:
                        if w0 and not K.exact(K.canon(r0), c0):
                            out.v("results share memory", f"op {k}: writing into the result of {name(c)} changed the result of op {j}")
                    kept.append((k, raw, None, False))
                else:
                    kept.append((k, raw, got, True))
        if out.viol:
            break
    used = jumps - len(clock.jumps)
    if used:
        out.fired["clock jump"] = used
    if prop == "C08":
        out.fired["dirty memory"] = 1
    if prop == "C09":
        out.counts["places written"] = written
    out.counts["calls compared"] = compared
    out.covered += clock.covered
    out.nontrivial = dict(C08=compared > 0, C09=written > 0, C10=fired > 0)[prop]


def check_env(env, snap, out, what, cls):
    for n, c in env.snapshot().items():
        if n in snap and not K.exact(c, snap[n]):
            out.v(cls, f"{what}: {n} is no longer what it was")
            snap[n] = c


def execute(prop, plan, root):
    out = fsim.Out()
    sys.stdout = K.Out()
    plan = copy.deepcopy(plan)
    ref = Reference(prop)
    if prop == "C07":
        w = exec_threads(plan, out, ref)
        return out.result(schedule=w.recorded)
    exec_history(prop, plan, out, ref)
    return out.result()


def simplify(prop, plan):
    """Simpler environments and plainer faults."""
    e = plan["env"]
    for k, v in (("deg", 2), ("np", 3), ("na", 5)):
        if e[k] > v:
            p = copy.deepcopy(plan)
            p["env"][k] = v
            yield p
    if plan.get("opcodes"):
        p = copy.deepcopy(plan)
        p["opcodes"] = False
        yield p
    for j, q in enumerate(plan.get("procs", ())):
        for k, c in enumerate(q["ops"]):
            if "oom" in c:
                p = copy.deepcopy(plan)
                del p["procs"][j]["ops"][k]["oom"]
                yield p
    for k, o in enumerate(plan.get("ops", ())):
        if o.get("c", {}).get("fresh"):
            p = copy.deepcopy(plan)
            p["ops"][k]["c"].pop("fresh")
            yield p
