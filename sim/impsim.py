"""C16: starting up. Modules of the package are imported in any order, by several threads, on a failing disk, interrupted and
again; what a program gets in the end is what one gets that imports everything at once and undisturbed."""
import atexit
import copy
import importlib
import logging
import os
import pickle
import shutil
import signal
import sys
import warnings

from . import calls as K
from . import callsim as CS
from . import disk as D
from . import fsim
from . import seam
from . import threads as TH

RUNS = {"C16": (900, 30000)}
LEVEL = {"C16": "fault_enumeration"}
RULE = {"C16": "A run is one program start: imports of package modules in one order (in a third of the runs by several threads under a seeded schedule), some "
               "of them failing, with computations in between; same if the event logs are the same; trivial if only one module was imported and nothing failed."}
REAL = ["every module of starwinds_magnetogram, compiled and executed from a copy of the working tree", "Python's import system", "matplotlib, numpy, scipy"]
STUB = ["scheduling of threads (statements of the package, locks of the import system)", "outcome and length of file system calls on the package's files",
        "delivery of interrupts and memory errors", "clock, entropy, process id"]
ASSUME = ["the third-party packages are imported already", "no compiled files are written (PYTHONDONTWRITEBYTECODE)",
          "the version falls back to '0+unknown' when its file cannot be imported, as documented"]
NAME = "starwinds_magnetogram"
ALIAS = dict(al="associated_legendre", shc="coefficients", cv="converter", ct="coordinate_transforms", fs="fibonacci_sphere", ge="geometry",
             ic="image_converter", lf="longitudinal_field", pk="parker_solution", pf="pfss_magnetogram", zd="zdi_magnetogram")


def modules():
    """Names of all modules of the package in the tree under test."""
    top = os.path.join(seam.repo(), NAME)
    out = [NAME]
    for d, dirs, files in os.walk(top):
        dirs[:] = sorted(x for x in dirs if os.path.exists(os.path.join(d, x, "__init__.py")))
        base = ".".join([NAME] + [x for x in os.path.relpath(d, top).split(os.sep) if x != "."])
        out += [base + "." + x for x in dirs]
        out += [f"{base}.{f[:-3]}" for f in sorted(files) if f.endswith(".py") and f != "__init__.py"]
    return out


def warm(prop):
    """Everything the package needs is imported, the package is not."""
    def everything():
        hush()
        for m in modules():
            try:
                importlib.import_module(m)
            except Exception:
                pass
        return [m for m in sys.modules if m.split(".")[0] != NAME]

    def one(m):
        hush()
        try:
            importlib.import_module(m)
        except Exception:
            pass
        return sum(m.split(".")[0] == NAME for m in sys.modules)
    seam.quiet_warnings()
    for m in aside(everything):
        try:
            importlib.import_module(m)
        except Exception:
            pass
    import numpy  # noqa
    import scipy.special  # noqa
    import scipy.constants  # noqa
    import matplotlib.pyplot  # noqa
    import quaternion
    import spherical_functions
    spherical_functions.Wigner_D_element(quaternion.one, 1, 0, 0)
    quaternion.from_euler_angles([0.1, 0.2, 0.3])
    if any(m.split(".")[0] == NAME for m in sys.modules):
        raise seam.HarnessError("the package has been imported already")
    seam.PKG = os.path.join(seam.repo(), NAME) + os.sep
    for m in modules():
        n = aside(lambda: one(m))
        WEIGHT[m] = n if isinstance(n, int) else 1


def hush():
    n = os.open(os.devnull, os.O_RDWR)
    os.dup2(n, 1), os.dup2(n, 2)


# ------------------------------------------------------------------ plans

KINDS = ("interrupt", "interrupt", "memory", "memory", "eio_read", "err_open", "err_open", "eio_read", "short_read", "eintr_read", "eintr_open")


def rand_fault(r):
    k = r.choice(KINDS)
    return dict(kind=k, pos=r.random(), frac=r.choice((0.0, 0.3, 0.9)), errno=r.choice((5, 5, 23, 24)), sticky=r.random() < 0.15 and not k.startswith("eintr"))


WEIGHT = {}


def pick(r, mods):
    """Any module, more often one that needs many others."""
    return r.choices(mods, [WEIGHT.get(m, 1) for m in mods])[0]


def rand_op(r, mods, faults):
    if r.random() < 0.3:
        return dict(op="call", c=K.rand_call(r))
    return dict(op="import", m=pick(r, mods), how=r.choice(("import", "from")), faults=[rand_fault(r)] if r.random() < faults else [])


def gen(prop, r, i, tier):
    mods = modules()
    plan = dict(env=K.rand_env(r), handler=r.random() < 0.5, level=r.choice(("WARNING", "WARNING", "DEBUG")), cwd=r.choice(("", "", "site", "else")),
                last=[K.rand_call(r) for _ in range(r.choice((1, 2)))], order=r.getrandbits(32))
    if r.random() < 0.33:
        procs = [dict(ops=[rand_op(r, mods, 0) for _ in range(r.choice((1, 1, 2, 3)))]) for _ in range(r.choice((2, 2, 3)))]
        if r.random() < 0.5:
            m = pick(r, mods)
            for p in procs:
                p["ops"][0] = dict(op="import", m=m if r.random() < 0.8 else pick(r, mods), how="import", faults=[])
        plan.update(procs=procs, policy=dict(seed=r.getrandbits(32), p=r.choice((0.02, 0.05, 0.1, 0.3, 0.6))), schedule=None)
        return plan
    p = r.choice((0.0, 0.5, 0.9, 0.9))
    plan["ops"] = [rand_op(r, mods, p) for _ in range(r.choice((1, 2, 3, 4, 6, 9)))]
    return plan


# ------------------------------------------------------------------ what is there

def describe(v, depth=0):
    import types
    import numpy as np
    if isinstance(v, types.ModuleType):
        return ("module", v.__name__)
    if isinstance(v, (types.FunctionType, types.BuiltinFunctionType)):
        return ("function", getattr(v, "__module__", ""), v.__qualname__, repr(describe(getattr(v, "__defaults__", None), 1)), repr(describe(getattr(v, "__kwdefaults__", None), 1)))
    if isinstance(v, type):
        return ("class", v.__module__, v.__qualname__, [] if not v.__module__.startswith(NAME) else
                sorted((k, type(x).__name__) for k, x in vars(v).items() if not k.startswith("__")))
    if isinstance(v, (np.ndarray, np.number, int, float, complex, str, bytes, bool, type(None))):
        return ("value", repr(K.canon(v)) if not isinstance(v, bytes) else repr(v))
    if isinstance(v, (list, tuple)) and depth < 4:
        return (type(v).__name__, [describe(x, depth + 1) for x in v])
    if isinstance(v, dict) and depth < 4:
        return ("dict", [(repr(describe(k, 4)), describe(x, depth + 1)) for k, x in v.items()])
    if isinstance(v, logging.Logger):
        return ("logger", v.name)
    return ("object", type(v).__module__, type(v).__qualname__)


def surface(mods):
    """{module: {name: description}} of everything a program sees in the modules."""
    out = {}
    for m in mods:
        x = sys.modules.get(m)
        out[m] = None if x is None else {n: describe(v) for n, v in vars(x).items() if not n.startswith("__")}
    return out


def loggers():
    out = {}
    for n, lg in logging.root.manager.loggerDict.items():
        if isinstance(lg, logging.Logger) and n.split(".")[0] == NAME:
            hs = [type(h).__name__ for h in lg.handlers if not isinstance(h, logging.NullHandler)]
            if hs or lg.level or lg.disabled or not lg.propagate:
                out[n] = (hs, lg.level, lg.disabled, lg.propagate)
    return out


def world():
    """Everything of the process that starting the package has no business with."""
    import matplotlib
    import matplotlib.pyplot as plt
    s = CS.settings()
    s.update({"random generators": CS.gen_states(), "plot settings": repr(dict(matplotlib.rcParams)), "figures": plt.get_fignums(),
              "module search path": list(sys.path), "import hooks": [repr(x) for x in sys.meta_path + sys.path_hooks], "warning filters": list(map(repr, warnings.filters)),
              "exit handlers": atexit._ncallbacks(), "exception hook": (id(sys.excepthook), id(sys.displayhook)), "trace function": repr(sys.gettrace()),
              "signal handlers": [repr(signal.getsignal(n)) for n in sorted(signal.valid_signals())], "log record type": repr(logging.getLogRecordFactory()),
              "logger class": repr(logging.getLoggerClass()), "package loggers": loggers(), "open files": len(os.listdir("/proc/self/fd")),
              "command line": list(sys.argv)})
    return s


def is_command(m):
    return m.startswith(NAME + ".bin")


class Recorder:
    def __init__(self):
        self.s = []

    def write(self, s):
        self.s.append(s)
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False


def same_world(a, b, mods, out, what):
    for n in a:
        if a[n] != b[n]:
            if n == "log handlers" and any(is_command(m) for m in mods):
                continue        # the commands set up logging for themselves
            x, y = str(a[n]), str(b[n])
            k = next((i for i, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
            out.v("start-up changes the process", f"{what}: {n}: ...{y[max(0, k - 30):k + 60]} was ...{x[max(0, k - 30):k + 60]}")
            return


class Lazy(dict):
    """The modules a computation needs, imported when it needs them."""

    def __missing__(self, k):
        self[k] = importlib.import_module(f"{NAME}.{ALIAS[k]}")
        return self[k]


def do_import(o):
    m = o["m"]
    if o["how"] == "from" and "." in m:
        a, b = m.rsplit(".", 1)
        exec(f"from {a} import {b}", {})
    else:
        importlib.import_module(m)


# ------------------------------------------------------------------ execution

class Reference(CS.Reference):
    """Answers from a process that has imported everything, undisturbed and in plain order."""

    def __init__(self, seed, mods):
        self.mods = mods
        super().__init__(seed)

    def _serve(self, qr, aw, seed):
        for m in self.mods:
            try:
                importlib.import_module(m)
            except Exception:
                pass
        super()._serve(qr, aw, seed)


def aside(f):
    """f() in a copy of this process."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            try:
                b = pickle.dumps(f())
            except BaseException as e:
                b = pickle.dumps({"error": f"{type(e).__name__}: {e}"})
            CS._write(w, b)
        finally:
            os._exit(0)
    os.close(w)
    b = b""
    while True:
        x = os.read(r, 1 << 16)
        if not x:
            break
        b += x
    os.close(r)
    os.waitpid(pid, 0)
    return pickle.loads(b) if b else {"error": "process died"}


def plain(mods):
    """What each module is in a process that imports all, and which of them cannot be imported at all."""
    bad = {}
    for m in mods:
        try:
            importlib.import_module(m)
        except Exception as e:
            bad[m] = type(e).__name__
    return dict(surface=surface(mods), bad=bad)


def alone(m):
    """None, or how the import of one module fails in a new process."""
    try:
        importlib.import_module(m)
    except Exception as e:
        return f"{type(e).__name__}: {e}"


def measure(o, root):
    """Numbers of lines and calls of an undisturbed import from here."""
    d = D.Disk(root)
    lf = seam.LineFault()
    err = None
    try:
        with d, lf:
            do_import(o)
    except Exception as e:
        err = f"{type(e).__name__}: {e}"
    finally:
        sys.settrace(None)
    return dict(lines=lf.n, n={str(k): v for k, v in d.n.items()}, err=err)


def imp(o, root, out, k):
    """One import op. Returns (error or None, fault fired)."""
    what = f"op {k}: import {o['m']}"
    dry = aside(lambda: measure(o, root)) if o["faults"] else None
    fs = [fsim.resolve(f, dry) for f in o["faults"]] if dry and "n" in dry else []
    line = next((f for f in fs if f["kind"] in ("interrupt", "memory")), None)
    d = D.Disk(root, [f for f in fs if f is not line])
    lf = seam.LineFault(at=line and line["at"], exc=MemoryError if line and line["kind"] == "memory" else KeyboardInterrupt)
    importlib.invalidate_caches()
    before, rec = world(), Recorder()
    old = sys.stdout, sys.stderr
    err = None
    sys.stdout = sys.stderr = rec
    try:
        with d:
            if line:
                with lf:
                    do_import(o)
            else:
                do_import(o)
    except BaseException as e:
        err = f"{type(e).__name__}: {e}"
        e.__traceback__ = None
    finally:
        sys.settrace(None)
        sys.stdout, sys.stderr = old
    fired = lf.fired + sum(n for q, n in d.fired.items() if q not in D.TRANSIENT)
    out.take(d)
    if lf.fired:
        out.fired[line["kind"]] = out.fired.get(line["kind"], 0) + 1
        out.note("at", lf.where)
    same_world(before, world(), [o["m"]], out, what)
    if d.touched:
        out.v("start-up writes files", f"{what}: {d.touched[:3]}")
    if rec.s and not is_command(o["m"]) and not fired:
        out.v("start-up prints", f"{what}: {''.join(rec.s)[:100]!r}")
    return err, fired


def finish(plan, mods, root, out, ref, want, env):
    """Import all the rest undisturbed; everything must be as in the plain process."""
    import random
    order = list(mods)
    random.Random(plan["order"]).shuffle(order)
    importlib.invalidate_caches()
    before = world()
    for m in order:
        try:
            importlib.import_module(m)
        except Exception as e:
            if m not in want["bad"]:
                out.v("import fails", f"at last: import {m}: {type(e).__name__}: {e}")
                return
    same_world(before, world(), mods, out, "importing the rest")
    got = surface(mods)
    for m in mods:
        a, b = got[m], want["surface"][m]
        if (a is None) != (b is None):
            out.v("module differs", f"{m} is {'missing' if a is None else 'there'}")
        elif a is not None:
            for n in sorted(set(a) | set(b)):
                if a.get(n) != b.get(n):
                    out.v("module differs", f"{m}.{n}: {str(a.get(n))[:120]} instead of {str(b.get(n))[:120]}")
                    return
    for c in plan["last"]:
        call(env, c, out, ref, "at last")


def call(env, c, out, ref, what, got=None):
    want = ref.ask(env, c)
    if got is None:
        got = CS.outcome(env, c)[0]
    d = CS.compare(got, want)
    out.note("call", CS.name(c), got[0])
    if d:
        out.v("computation depends on the start", f"{what}: {CS.name(c)}: {d}")


def execute(prop, plan, root):
    out = fsim.Out()
    plan = copy.deepcopy(plan)
    site = os.path.join(root, "site")
    shutil.copytree(os.path.join(seam.repo(), NAME), os.path.join(site, NAME), ignore=shutil.ignore_patterns("__pycache__"))
    os.mkdir(os.path.join(root, "else"))
    here = {os.path.realpath(p) for p in (seam.repo(), "/repo")}
    sys.meta_path[:] = [f for f in sys.meta_path if "editable" not in repr(f).lower()]
    sys.path[:] = [site] + [p for p in sys.path if os.path.realpath(p or ".") not in here and "__editable__" not in p]
    sys.path_importer_cache.clear()
    sys.dont_write_bytecode = True
    seam.PKG = os.path.join(site, NAME) + os.sep
    TH.patch_locks((seam.PKG,))
    TH.patch_imports()
    mods = modules()
    os.chdir(os.path.join(root, plan["cwd"]))
    sys.stdout = K.Out()
    want = aside(lambda: plain(mods))
    if "surface" not in want:
        out.v("import fails", f"importing everything: {want}")
        return out.result()
    ref = Reference(prop, mods)
    seam.patch_world(seam.Clock(), "start")
    if plan["handler"]:
        logging.getLogger().addHandler(CS.Quiet())
    logging.getLogger().setLevel(plan["level"])
    K.MODULES = Lazy()
    env = K.Env(plan["env"])
    files = D.snapshot(root)
    w = None
    ops = fails = 0
    if "procs" in plan:
        w = threads(plan, out, ref, env)
        ops = 2 * bool(w.switches)
    else:
        for k, o in enumerate(plan["ops"]):
            if o["op"] == "call":
                call(env, dict(o["c"], fresh=True), out, ref, f"op {k}")
            else:
                new = o["m"] not in sys.modules
                err, fired = imp(o, root, out, k)
                ops += new
                fails += err is not None
                out.note(k, "import", o["m"], (err or "").replace(root, "")[:60])
                if err and not fired and o["m"] not in want["bad"]:
                    out.v("import fails", f"op {k}: import {o['m']} of {len(mods)}: {err}")
            if out.viol:
                break
    if not out.viol and not (w and w.error):
        finish(plan, mods, root, out, ref, want, env)
    if not out.viol and D.snapshot(root) != files:
        now = D.snapshot(root)
        out.v("start-up writes files", str([n for n in sorted(set(now) | set(files)) if now.get(n) != files.get(n)][:4]))
    out.counts["modules imported one by one"] = ops
    out.counts["imports that failed"] = fails
    out.nontrivial = ops > 1 or fails > 0
    return out.result(**({"schedule": w.recorded} if w else {}))


def threads(plan, out, ref, env):
    ops = [(j, k, o) for j, p in enumerate(plan["procs"]) for k, o in enumerate(p["ops"])]
    wants = {(j, k): ref.ask(env, o["c"]) for j, k, o in ops if o["op"] == "call"}
    got = {}

    def body(j, ops):
        def run(t):
            for k, o in enumerate(ops):
                try:
                    if o["op"] == "import":
                        do_import(o)
                        got[j, k] = ("ok",)
                    else:
                        got[j, k] = CS.outcome(env, dict(o["c"], fresh=True))[0]
                except seam.SimCrash:
                    raise
                except Exception as e:
                    got[j, k] = ("e", f"{type(e).__name__}: {e}")
                    e.__traceback__ = None
        return run
    before = world()
    importlib.invalidate_caches()
    w = TH.World([body(j, p["ops"]) for j, p in enumerate(plan["procs"])], schedule=plan.get("schedule"), policy=plan.get("policy"), modules=True)
    w.run()
    if w.deadlock:
        out.v("deadlock", "all threads wait for each other: " + "; ".join(list(w.tail)[-4:]))
    elif w.capped:
        out.v("does not finish", f"threads still running after {w.ev} steps")
    out.take(w)
    for j, k, o in ops:
        if w.error or out.viol:
            break
        what = f"thread {j} among {len(plan['procs'])}"
        if o["op"] == "import":
            out.note(j, k, o["m"], got[j, k][0])
            if got[j, k][0] == "e":
                out.v("import fails", f"{what}: import {o['m']}: {got[j, k][1]}")
        else:
            d = CS.compare(got[j, k], wants[j, k])
            out.note(j, k, o["c"]["fn"], got[j, k][0])
            if d:
                out.v("computation depends on the start", f"{what}: {CS.name(o['c'])}: {d}")
    if not out.viol and not w.error:
        before["threads"] = CS.settings()["threads"]    # Python counts threads it did not start once they ask for themselves
        same_world(before, world(), [o["m"] for _, _, o in ops if o["op"] == "import"], out, "threads")
    return w


def simplify(prop, plan):
    for key, v in (("handler", True), ("level", "WARNING"), ("cwd", ""), ("last", [])):
        if plan[key] != v:
            yield dict(copy.deepcopy(plan), **{key: v})
