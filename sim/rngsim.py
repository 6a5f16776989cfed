"""C12: random magnetograms and point sets drawn from a simulated source of randomness: unique values, failing draws, interleaved
and earlier callers."""
import copy
import math
import os
import pickle
import random
import sys

from . import fsim
from . import seam
from . import threads as TH

RUNS = {"C12": (2000, 80000)}
LEVEL = {"C12": "exploration"}
RULE = {"C12": "A run is one history (or, in half of the runs, a seeded interleaving of threads) of noise magnetograms and randomised point sets drawn "
               "from sources that never give a value twice and may fail at any draw; same if the event logs are the same; trivial if nothing was drawn."}
REAL = ["starwinds_magnetogram.coefficients.noise, .fibonacci_sphere (from /repo)", "numpy.random and random global generators (in some runs)"]
STUB = ["the random source given by the caller", "thread scheduling", "outcome and initial content of numpy allocations", "delivery of interrupts"]
ASSUME = ["a source is called as noise_fn(size=...) or noise_fn() and returns an array of that shape"]


def warm(prop):
    import numpy  # noqa
    prefix = os.path.join(seam.repo(), "starwinds_magnetogram") + os.sep
    TH.patch_locks((prefix, os.path.realpath(prefix) + os.sep))
    from starwinds_magnetogram import coefficients, fibonacci_sphere  # noqa
    seam.package_dir()
    seam.quiet_warnings()


class SourceError(Exception):
    pass


EXC = dict(source=SourceError, memory=MemoryError, interrupt=KeyboardInterrupt, stop=StopIteration, index=IndexError, attribute=AttributeError,
           value=ValueError, key=KeyError, assertion=AssertionError, runtime=RuntimeError, os=OSError, arithmetic=ArithmeticError, lookup=LookupError,
           type=TypeError, timeout=TimeoutError, end=EOFError, recursion=RecursionError, warning=RuntimeWarning)


class Source:
    """Never gives a value twice."""

    def __init__(self, seed, fail=None):
        self.rng, self.out, self.fail, self.failed, self.calls = random.Random(seed), [], fail, 0, 0

    def __call__(self, loc=0.0, scale=1.0, size=None):
        import numpy as np
        self.calls += 1
        t = TH.current()
        if t is not None and TH.WORLD is not None:
            TH.WORLD.point(t)
        n = 1 if size is None else int(np.prod(size))
        v = []
        for _ in range(n):
            if self.fail is not None and len(self.out) >= self.fail["at"]:
                self.failed += 1
                if not self.fail.get("sticky"):
                    f, self.fail = self.fail, None
                else:
                    f = self.fail
                raise EXC[f["exc"]]("the random source failed")
            x = self.rng.choice((-1, 1)) * (0.25 + 4 * self.rng.random())
            self.out.append(x)
            v.append(x)
        if t is not None and TH.WORLD is not None:
            TH.WORLD.point(t)
        return v[0] if size is None else np.array(v).reshape(size)


# ------------------------------------------------------------------ plans

def noise_op(r, shared, threads=False):
    lo = r.choice((1, 1, 1, 2, 3, 0))
    hi = lo + r.choice((0, 1, 2, 3, 4, 5, -1))
    if r.random() < 0.06:
        lo, hi = 1, 15
    o = dict(op="noise", lo=lo, hi=hi, beta=r.choice((0, 0, 0, 1, 2, 0.5, -1)) if lo > 0 else 0, src=r.choice(("own", "own", "shared", "global") if shared else
             ("own", "own", "global")), seed=r.getrandbits(30), how=r.choice(("kw", "kw", "pos")))
    n = 2 * sum(l + 1 for l in range(lo, hi + 1))
    if n and o["src"] != "global" and r.random() < 0.3:
        o["fail"] = dict(at=r.randrange(n), exc=r.choice(sorted(EXC)), sticky=r.random() < 0.5)
    elif not threads and r.random() < 0.15:
        o["fault"] = dict(kind=r.choice(("alloc", "interrupt", "memory")), pos=r.random())
    return o


def gen(prop, r, i, tier):
    if r.random() < 0.5:
        shared = r.random() < 0.6
        base = noise_op(r, shared, True)
        procs = []
        for _ in range(r.choice((2, 2, 3))):
            ops = []
            for _ in range(r.choice((1, 1, 2))):
                o = noise_op(r, shared, True)
                if r.random() < 0.6:
                    o = dict(copy.deepcopy(base), seed=r.getrandbits(30), src=o["src"])
                    if o["src"] == "global":
                        o.pop("fail", None)
                o["hi"] = min(o["hi"], o["lo"] + 3)
                if o.get("fail"):
                    o["fail"]["at"] = r.randrange(2 * sum(l + 1 for l in range(o["lo"], o["hi"] + 1)) or 1)
                ops.append(o)
            procs.append(dict(ops=ops))
        policy = dict(seed=r.getrandbits(32), p=r.choice((0.02, 0.1, 0.3, 0.6)))
        if r.random() < 0.4:
            policy.update(p=policy["p"] / 10, rare=r.choice((0.3, 1.0)))
        return dict(mode="threads", procs=procs, policy=policy, schedule=None, opcodes=r.random() < 0.15, gseed=r.getrandbits(30))
    ops = []
    base = noise_op(r, True)
    for _ in range(r.randint(2, 7)):
        x = r.random()
        if x < 0.65:
            o = noise_op(r, True)
            if r.random() < 0.6:
                o = dict(copy.deepcopy(base), seed=base["seed"] if r.random() < 0.4 else r.getrandbits(30))
                if r.random() < 0.5:
                    o.pop("fail", None)
            ops.append(o)
        elif x < 0.93:
            o = dict(op="fib", n=r.choice((1, 2, 3, 5, 7, 7, 12, 40)), seed=r.getrandbits(30) if r.random() < 0.6 else 7, how=r.choice(("global", "global", "patched")))
            if o["how"] == "patched":
                o["draw"] = r.choice((0.0, 0.5, 1 - 2 ** -53, 2 ** -53, r.random(), r.random()))
                if r.random() < 0.3:
                    o["exc"] = r.choice(sorted(EXC))
            ops.append(o)
        else:
            ops.append(dict(op="draw", n=r.choice((1, 3))))
    return dict(mode="history", ops=ops, fill=r.getrandbits(32))


# ------------------------------------------------------------------ execution

def size_of(o):
    return sum(l + 1 for l in range(o["lo"], o["hi"] + 1))


def do_noise(o, src):
    from starwinds_magnetogram import coefficients as shc
    if o["src"] == "global":
        return shc.noise(o["lo"], o["hi"], beta=o["beta"]) if o["how"] == "pos" else shc.noise(degree_min=o["lo"], degree_max=o["hi"], beta=o["beta"])
    if o["how"] == "pos":
        return shc.noise(o["lo"], o["hi"], src, o["beta"])
    return shc.noise(degree_min=o["lo"], degree_max=o["hi"], noise_fn=src, beta=o["beta"])


def parts(o, c):
    """Drawn values as they come back out of the magnetogram: (list, None) or (None, why it is not complete)."""
    got = {(int(l), int(m)): v for (l, m), v in c.contents()}
    want = [(l, m) for l in range(o["lo"], o["hi"] + 1) for m in range(l + 1)]
    if sorted(got) != want:
        return None, f"it has entries {sorted(got)[:40]}, expected degrees {o['lo']} to {o['hi']}"
    out = []
    for l, m in want:
        v = got[l, m]
        if v.shape != (1,):
            return None, f"entry {l, m} has shape {v.shape}"
        v = complex(v[0]) * (2 * l + 1) * (float(l) ** o["beta"] if l else 1.0)
        out += [v.real, v.imag]
    return out, None


def account(values, drawn, what):
    """None, or how the values are not the drawn ones, each once."""
    if len(drawn) != len(values):
        return f"{what} drew {len(drawn)} values for {len(values)} places"
    a, b = sorted(values), sorted(drawn)
    for x, y in zip(a, b):
        if not abs(x - y) <= 1e-9 * abs(y):
            return f"{what}: the values found (such as {x!r}) are not the {len(b)} values drawn (such as {y!r})"
    return None


def key_of(c):
    return [[int(l), int(m), complex(v[0]).real, complex(v[0]).imag] for (l, m), v in c.contents()]


def pristine(fs):
    """Results of functions, each computed in its own copy of this process."""
    res = []
    for f in fs:
        if f is None:
            res.append(None)
            continue
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                x = f()
            except BaseException as e:
                x = ("error", type(e).__name__)
            b = pickle.dumps(x)
            while b:
                b = b[os.write(w, b):]
            os._exit(0)
        os.close(w)
        b = b""
        while True:
            x = os.read(r, 1 << 16)
            if not x:
                break
            b += x
        os.close(r)
        os.waitpid(pid, 0)
        res.append(pickle.loads(b) if b else ("error", "died"))
    return res


def agree(a, b):
    if len(a) != len(b):
        return False
    return all(len(x) == len(y) and all(abs(p - q) <= 1e-9 * max(1e-300, abs(q)) + (1e-13 if len(x) == 3 else 0) for p, q in zip(x, y)) for x, y in zip(a, b))


def seed_all(n):
    import numpy as np
    np.random.seed(n % (2 ** 32))
    random.seed(n)


def fresh_noise(o):
    seed_all(o["seed"])
    return key_of(do_noise(o, Source(o["seed"])))


def fresh_fib(o):
    return fib(o).tolist()


def fib(o):
    from starwinds_magnetogram import fibonacci_sphere as fs
    seed_all(o["seed"])
    if o["how"] == "global":
        return fs.fibonacci_sphere(o["n"], randomize=True)
    real = random.random

    def drawn():
        o["called"] = o.get("called", 0) + 1
        if o.get("exc"):
            raise EXC[o["exc"]]("the random source failed")
        return o["draw"]
    random.random = drawn
    try:
        return fs.fibonacci_sphere(o["n"], True)
    finally:
        random.random = real


def sphere(p, n):
    import numpy as np
    if p.shape != (n, 3):
        return f"shape {p.shape}"
    r = np.sqrt((p ** 2).sum(axis=1))
    if not np.all(np.abs(r - 1) < 1e-9):
        return f"a point has radius {r[np.argmax(np.abs(r - 1))]!r}"
    y = np.sort(p[:, 1])
    lo = -1 + 2 * np.arange(n) / n
    if not np.all((y > lo - 1e-9) & (y < lo + 2 / n + 1e-9)):
        return f"latitude bands: sorted heights {y.tolist()[:8]}"
    return None


def exec_history(plan, out):
    import numpy as np
    ops = plan["ops"]
    seam.patch_world(seam.Clock(), "c12")
    seam.use_numpy_handler()
    lib = seam.shim()
    lib.sim_alloc_fill(1 + (plan["fill"] % 3 == 0), plan["fill"])
    refs = pristine([(lambda o=o: fresh_noise(o)) if o["op"] == "noise" and o["src"] != "shared" and not o.get("fail") else
                     (lambda o=o: fresh_fib(copy.deepcopy(o))) if o["op"] == "fib" and not o.get("exc") else None for o in ops])
    shared = Source("shared%d" % plan["fill"])
    drawn = 0
    for k, o in enumerate(ops):
        what = f"op {k}"
        if o["op"] == "draw":
            for _ in range(o["n"]):
                np.random.normal(), random.random()
            out.note(k, "draw")
            continue
        if o["op"] == "fib":
            o = copy.deepcopy(o)
            out.note(k, "fib", o["n"], o["how"], o.get("exc"))
            try:
                p = fib(o)
            except BaseException as e:
                if not o.get("exc"):
                    out.v("fails without a fault", f"{what}: fibonacci_sphere({o['n']}): {type(e).__name__}: {e}")
                continue
            drawn += 1
            if o.get("exc") and o.get("called"):
                out.v("failure of the source is lost", f"{what}: fibonacci_sphere({o['n']}) returned although the random source raised {o['exc']}")
                continue
            d = sphere(p, o["n"])
            if d:
                out.v("points are not one per band on the sphere", f"{what}: fibonacci_sphere({o['n']}): {d}")
            elif refs[k] is not None and not o.get("exc") and (refs[k][0] == "error" or not agree(p.tolist(), refs[k])):
                out.v("not reproducible", f"{what}: fibonacci_sphere({o['n']}) with the same source state gives other points than in a new process")
            p[...] = 9
            continue
        src = shared if o["src"] == "shared" else Source(o["seed"])
        src.fail = dict(o["fail"], at=len(src.out) + o["fail"]["at"]) if o.get("fail") else None
        was, n0, f0 = shared.fail, len(src.out), src.failed
        seed_all(o["seed"])
        fault, fired = o.get("fault"), 0
        err = c = None
        exc = {"interrupt": KeyboardInterrupt, "memory": MemoryError}.get(fault["kind"]) if fault else None
        lf = seam.LineFault(at=1 + int(fault["pos"] * (20 + 8 * size_of(o))) if exc else None, exc=exc or KeyboardInterrupt)
        if fault and not exc:
            lib.sim_alloc_thread(1)
            at = int(fault["pos"] * (1 + 7 * size_of(o)))
            lib.sim_alloc_arm(1, at, at)
        try:
            with lf:
                c = do_noise(o, src)
            sys.settrace(None)
        except BaseException as e:
            sys.settrace(None)
            if isinstance(e, seam.StepCap):
                out.v("does not finish", f"{what}: noise({o['lo']}, {o['hi']})")
            e.__traceback__ = None
            err = e
        finally:
            if fault and not exc:
                fired = lib.sim_alloc_failed()
                lib.sim_alloc_arm(0, -1, -1)
        fired += lf.fired
        failed = src.failed - f0
        src.fail = None
        if fired:
            out.fired[fault["kind"]] = out.fired.get(fault["kind"], 0) + 1
        if failed:
            out.fired["source failure"] = out.fired.get("source failure", 0) + 1
        drawn += len(src.out) - n0
        out.note(k, "noise", o["src"], o["lo"], o["hi"], "error" if err else "ok", failed, fired, len(src.out) - n0)
        tag = f"{what}: noise({o['lo']}, {o['hi']}, beta={o['beta']})"
        if err is not None:
            if not failed and not fired:
                out.v("fails without a fault", f"{tag}: {type(err).__name__}: {err}")
            continue
        if failed:
            out.v("failure of the source is lost", f"{tag} returned although the random source failed at value {o['fail']['at']} ({o['fail']['exc']})")
            continue
        vals, why = parts(o, c)
        if why is None and o["src"] == "global":
            after = np.random.get_state()
            np.random.seed(o["seed"] % (2 ** 32))
            want = np.random.normal(size=2 * size_of(o)).tolist()
            why = account(vals, want, "the global generator")
            s = np.random.get_state()
            if why is None and not (s[2:] == after[2:] and (s[1] == after[1]).all()):
                why = f"the global generator is not {2 * size_of(o)} draws further"
        elif why is None:
            why = account(vals, src.out[n0:], "the source")
        if why:
            out.v("draws not used once each", f"{tag}: {why}")
        elif refs[k] is not None and not agree(key_of(c), refs[k]):
            out.v("not reproducible", f"{tag} with the same source state differs from the magnetogram of a new process")
        if out.viol:
            break
    out.nontrivial = drawn > 0


def exec_threads(plan, out):
    import numpy as np
    seam.patch_world(seam.Clock(), "c12t")
    seam.shim().sim_alloc_fill(1, 31)
    seed_all(plan["gseed"])
    shared = Source("threads%d" % plan["gseed"])
    results = {}
    sources = {}

    def body(j, ops):
        def run(t):
            seam.use_numpy_handler()
            for k, o in enumerate(ops):
                src = shared if o["src"] == "shared" else Source(o["seed"], dict(o["fail"]) if o.get("fail") and o["src"] == "own" else None)
                sources[j, k] = src
                try:
                    results[j, k] = ("ok", do_noise(o, src))
                except seam.SimCrash:
                    raise
                except BaseException as e:
                    e.__traceback__ = None
                    results[j, k] = ("e", f"{type(e).__name__}: {e}")
        return run
    w = TH.World([body(j, p["ops"]) for j, p in enumerate(plan["procs"])], schedule=plan.get("schedule"), policy=plan.get("policy"), opcodes=plan["opcodes"],
                 cap=3_000_000 if plan["opcodes"] else 400_000).run()
    out.take(w)
    if w.deadlock or w.capped:
        out.v("deadlock" if w.deadlock else "does not finish", "threads drawing noise magnetograms: " + "; ".join(list(w.tail)[-4:]))
        return w
    pool = dict(shared=[], **{"global": []})
    drawn = 0
    for j, p in enumerate(plan["procs"]):
        for k, o in enumerate(p["ops"]):
            kind, x = results.get((j, k), ("e", "call lost"))
            src = sources.get((j, k))
            tag = f"thread {j}: noise({o['lo']}, {o['hi']}, beta={o['beta']})"
            failed = src is not None and src is not shared and src.failed
            drawn += len(src.out) if src else 0
            out.note(j, k, kind, o["src"])
            if failed:
                out.fired["source failure"] = out.fired.get("source failure", 0) + 1
            if kind == "e":
                if not failed:
                    out.v("fails without a fault", f"{tag}: {x}")
                continue
            if failed:
                out.v("failure of the source is lost", f"{tag} returned although its random source failed")
                continue
            vals, why = parts(o, x)
            if why is None and o["src"] == "own":
                why = account(vals, src.out, "the thread's own source")
            elif why is None:
                pool[o["src"]] += vals
            if why:
                out.v("draws not used once each", f"{tag}: {why}")
    clean = not out.viol
    if clean and pool["shared"]:
        why = account(pool["shared"], shared.out, "the shared source")
        if why:
            out.v("draws not used once each", why)
    if clean:
        np.random.seed(plan["gseed"] % (2 ** 32))
        why = account(pool["global"], np.random.normal(size=len(pool["global"])).tolist(), "the global generator")
        if why:
            out.v("draws not used once each", why)
    out.nontrivial = drawn > 0
    return w


def execute(prop, plan, root):
    out = fsim.Out()
    plan = copy.deepcopy(plan)
    if plan["mode"] == "threads":
        w = exec_threads(plan, out)
        return out.result(schedule=w.recorded)
    exec_history(plan, out)
    return out.result()
