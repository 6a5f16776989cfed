"""C17: nothing is left behind. Long series of calls with ever new values, some of them failing: files, threads and processes are
gone when a call ends, objects the program has dropped are released, and memory stays bounded."""
import collections
import copy
import functools
import gc
import io
import logging
import os
import random
import sys
import weakref
import zlib

from . import calls as K
from . import callsim as CS
from . import disk as D
from . import fsim
from . import plotsim as PS
from . import seam
from . import tables as T

RUNS = {"C17": (320, 16000)}
LEVEL = {"C17": "exploration"}
RULE = {"C17": "A run is one long series of computations, file operations or drawings with new values in every round, some rounds ended by an interrupt, a "
               "memory error or a failing file call; same if the event logs are the same; trivial if fewer than five rounds ended normally."}
REAL = ["starwinds_magnetogram computations, reader_writer, .bin.convert_magnetogram (main), plot routines", "numpy, scipy, matplotlib (Agg)", "the memory of the process, "
        "as Python's allocator accounts for it"]
STUB = ["outcome and length of file system calls", "delivery of interrupts and memory errors", "clock, entropy, process id"]
ASSUME = ["a memo that is bounded (up to some hundred entries) is allowed; one that is still growing after some hundred rounds (3000 where spherical harmonics are kept) is not"]

SIZED = {dict, list, set, tuple, collections.deque, collections.OrderedDict, collections.defaultdict, collections.Counter}
MEMO = type(functools.lru_cache(lambda: 0))

warm = PS.warm

# ------------------------------------------------------------------ plans

def gen(prop, r, i, tier):
    x = r.random()
    seed = r.getrandbits(32)
    p = r.choice((0.0, 0.1, 0.3))
    if x < 0.72:
        names = list(K.CAT)
        n = names[i % len(names)] if r.random() < 0.7 else r.choice(names)
        fns = [n] + [r.choice(names) for _ in range(r.choice((0, 0, 1)))]
        return dict(kind="churn", env=K.rand_env(r), fns=fns, seed=seed, fail=p, same=r.random() < 0.3, level=r.choice(("WARNING", "DEBUG")))
    if x < 0.88:
        return dict(kind="files", seed=seed, fail=max(p, 0.1), deg=r.choice((1, 2, 4)), what=r.choice((["write", "read"], ["convert"], ["write"], ["read"], ["write", "read", "convert"])))
    names = sorted(PS.ROUTINES)
    return dict(kind="figs", seed=seed, fail=p / 2, env=dict(deg=r.choice((1, 2)), np=5, na=7, seed=r.randrange(3), mods={}), r=[r.choice(names)],
                own=r.choice(sorted(set(PS.OWN) - {"pslice"})) if r.random() < 0.3 else None, n=3)


# ------------------------------------------------------------------ what is left

def world():
    import threading
    fds = {}
    for n in os.listdir("/proc/self/fd"):
        try:
            fds[int(n)] = os.readlink("/proc/self/fd/" + n)
        except OSError:
            pass
    return dict(fds=fds, tasks=len(os.listdir("/proc/self/task")), threads=[t.name for t in threading.enumerate() if t is not threading.main_thread()],
                loggers=len(logging.root.manager.loggerDict), handlers=[type(h).__name__ for h in logging.getLogger().handlers])


def same_world(a, out, what, root):
    b = world()
    more = {n: p for n, p in b["fds"].items() if a["fds"].get(n) != p and not p.endswith((".ttf", ".otf", ".ttc", ".afm"))}
    if more:
        out.v("open file left behind", f"{what}: {str(list(more.values())[:3]).replace(root, '{root}')}")
    if b["tasks"] > a["tasks"] or b["threads"] != a["threads"]:
        out.v("thread left behind", f"{what}: {b['threads']}")
    try:
        pid, _ = os.waitpid(-1, os.WNOHANG)
        out.v("process left behind", what)
    except ChildProcessError:
        pass
    if b["handlers"] != a["handlers"]:
        out.v("log handler left behind", f"{what}: {b['handlers']} instead of {a['handlers']}")


class Watch:
    """Objects the program has dropped, by round."""

    def __init__(self):
        self.refs = []

    def add(self, k, x, depth=0):
        if isinstance(x, (tuple, list)):
            for v in x[:20]:
                self.add(k, v, depth + 1)
        elif isinstance(x, dict):
            for v in list(x.values())[:20]:
                self.add(k, v, depth + 1)
        else:
            try:
                self.refs.append((k, type(x).__name__, weakref.ref(x)))
            except TypeError:
                pass

    def alive(self):
        """{type: number of rounds of which an object of the type still lives}"""
        gc.collect()
        n = {}
        for k, t, f in self.refs:
            if f() is not None:
                n.setdefault(t, set()).add(k)
        return {t: len(s) for t, s in n.items()}

    def rounds(self):
        n = {}
        for k, t, f in self.refs:
            n.setdefault(t, set()).add(k)
        return {t: len(s) for t, s in n.items()}


def judge_alive(w, out, what, share=0.5, least=5):
    have, total = w.alive(), w.rounds()
    for t in sorted(have):
        if total[t] >= least and have[t] > share * total[t]:
            out.v("dropped objects are kept", f"{what}: {t} of {'most' if have[t] < total[t] else 'all'} rounds still alive")
            return


def size():
    """Number of objects the collector knows, and of entries in containers and memos: exact, and the same in every repetition."""
    gc.collect()
    n = gc.get_objects()
    entries = 0
    for x in n:
        t = type(x)
        if t in SIZED:
            entries += len(x)
        elif t is MEMO:
            entries += x.cache_info().currsize
    for name, m in list(sys.modules.items()):
        if name.startswith("starwinds_magnetogram"):
            for v in list(vars(m).values()):
                if isinstance(v, (str, bytes, bytearray)) or type(v).__name__ == "ndarray":
                    entries += getattr(v, "size", None) or len(v)
    return len(n) + entries


def grow(one, rounds, most, out, what):
    """Rounds in equal segments until one of them leaves no more behind than it found; a leak never stops."""
    k, last, g = 0, 0, [0] * (most // rounds + 1)
    last = size()
    for j in range(most // rounds):
        for _ in range(rounds):
            if one(k) is False:
                return
            k += 1
        now = size()
        g[j], last = now - last, now
        if j and g[j] < max(2, rounds / 20):
            break
    else:
        out.v("memory grows", f"{what}: without end")
    if os.environ.get("SIM_VERBOSE"):
        print("memory", g, "per", rounds, what, file=sys.stderr)


# ------------------------------------------------------------------ computations

def one_round(env, c, at, exc):
    """One call; the objects it used and returned, or the error."""
    lf = None
    try:
        if at:
            lf = seam.LineFault(at=at, exc=exc)
            with lf:
                x = K.perform(env, c)
        else:
            x = K.perform(env, c)
        err = None
    except seam.StepCap:
        raise
    except BaseException as e:
        e.__traceback__ = None
        x, err = None, type(e).__name__
    finally:
        sys.settrace(None)
    return x, err, lf.fired if lf else 0


def churn(plan, out, root):
    seam.patch_world(seam.Clock(), "leak")
    logging.getLogger().addHandler(CS.Quiet())
    logging.getLogger().setLevel(plan["level"])
    r = random.Random(plan["seed"])
    slow = any(K.CAT[f][3] or f in ("geo.ZdiGeometry_default", "zdi.get_all") for f in plan["fns"])
    warmup, seg, most = (24, 12, 300) if slow else (60, 30, 900)
    if any(f.startswith(("img.", "rot.", "conv.")) for f in plan["fns"]):
        most = 3000 * len(plan["fns"])  # The memo of spherical harmonics is full after 900.
    template = {f: dict(fn=f, a=K.CAT[f][0](r)) for f in plan["fns"]}
    before = world()
    n = dict(good=0, bad=0, h=0)

    def one(k):
        f = plan["fns"][k % len(plan["fns"])]
        env = K.Env(dict(plan["env"], seed=plan["env"]["seed"] + 1 + k, turn=(k + 1) / 4096, mods={}))
        c = template[f] if plan["same"] else K.vary(r, template[f])
        at = r.choice((1, 2, 3, 5, 8, 13, 30, 80, 200)) if r.random() < plan["fail"] else None
        x, err, fired = one_round(env, c, at, r.choice((KeyboardInterrupt, MemoryError)))
        n["good"] += err is None
        n["bad"] += fired
        n["h"] = zlib.crc32(f"{c['fn']} {err}".encode(), n["h"])

    for k in range(warmup):
        one(k)
    what = " and ".join(plan["fns"])
    grow(lambda k: one(warmup + k), seg, most, out, what)
    out.note(n["h"])
    out.fired["interrupts and memory errors"] = n["bad"]
    same_world(before, out, what, root)
    out.counts["calls"] = n["good"]
    out.nontrivial = n["good"] >= 5


# ------------------------------------------------------------------ files

FAULTS = ("eio_read", "eio_write", "enospc", "err_open", "err_close", "err_fsync", "err_rename", "err_stat", "err_chmod")


def files(plan, out, root):
    from starwinds_magnetogram import coefficients as shc, reader_writer as rw
    from starwinds_magnetogram.bin import convert_magnetogram as cm
    seam.patch_world(seam.Clock(), "leak")
    r = random.Random(plan["seed"])
    spec = dict(deg=plan["deg"], comps=3, style="dense", seed=1, range="normal")
    rw.write_magnetogram_file(T.make(spec, shc), "in.dat")
    allowed = {"in.dat", "out.dat", "in_zdi.dat", "o2.dat"}

    def one(k, what):
        if what == "write":
            rw.write_magnetogram_file(T.make(dict(spec, seed=k), shc), "out.dat", write_swmf_header=bool(k % 2))
        elif what == "read":
            rw.read_magnetogram_file("in.dat")
        else:
            old = sys.argv
            sys.argv = ["convert_magnetogram", "in.dat", "o2.dat"] + (["--to-pfss"] if k % 3 == 0 and False else [])
            try:
                cm.main()
            finally:
                sys.argv = old
    for w in plan["what"]:
        one(0, w)
    before = world()
    n = dict(good=0, h=0)

    def each(k):
        w = plan["what"][k % len(plan["what"])]
        f = []
        if r.random() < plan["fail"]:
            f = [dict(kind=r.choice(FAULTS), at=r.choice((1, 1, 2, 3)), once=True)]
        d = D.Disk(root, f, known=allowed)
        err = None
        try:
            with d:
                one(k, w)
        except seam.HarnessError:
            raise
        except BaseException as e:
            e.__traceback__ = None
            err = type(e).__name__
        n["good"] += err is None
        for q, c in d.fired.items():
            out.fired[q] = out.fired.get(q, 0) + c
        out.harness = out.harness or d.error
        out.events += d.events
        fired = dict(d.fired)
        del d
        n["h"] = zlib.crc32(f"{w} {err} {sorted(fired.items())}".encode(), n["h"])
        stray = sorted(set(os.listdir(root)) - allowed)
        if stray:
            out.v("file left behind", f"round {k}: {w} with {fired or 'no fault'}, {err or 'success'}: {len(stray)} more files")
        if k % 8 == 0 or f:
            gc.collect()
            same_world(before, out, f"round {k}: {w} with {fired or 'no fault'}, {err or 'success'}", root)
        return not out.viol

    for k in range(24):
        if not out.viol:
            each(k)
    if not out.viol:
        grow(lambda k: each(24 + k), 20, 300, out, "/".join(plan["what"]))
    out.note(n["h"])
    good = n["good"]
    out.counts["file operations"] = good
    out.nontrivial = good >= 5


# ------------------------------------------------------------------ figures

def figs(plan, out, root):
    import matplotlib.pyplot as plt
    seam.patch_world(seam.Clock(), "leak")
    r = random.Random(plan["seed"])
    watch, before = Watch(), None
    good = bad = 0
    rounds = 6
    for k in range(rounds):
        E = PS.Data(dict(plan["env"], seed=k, mods={}))
        a = dict(z="zdi0", g="g0", p="p1", k=k % 4 if plan["n"] else 0, b=k % 2 == 0, w=plan["seed"] % 6)
        fig, axs = PS.make_figure(dict(make="plt", n=3, sub=False), k)
        o = dict(op="own", r=plan["own"], a=a) if plan["own"] else dict(op="call", r=plan["r"][0], ax=list(range(PS.ROUTINES[plan["r"][0]][0])), a=a)
        at = r.choice((1, 3, 8, 20, 50)) if r.random() < plan["fail"] else None
        lf = seam.LineFault(at=at)
        try:
            with lf:
                got = PS.call(o, axs, E)
        except KeyboardInterrupt as e:
            e.__traceback__ = None
            got = "interrupted"
        finally:
            sys.settrace(None)
        if got == "ok" and k == 3:
            for n in plt.get_fignums():
                PS._render(plt.figure(n))
        plt.close("all")
        good += got == "ok"
        bad += lf.fired
        watch.add(k, [fig] + list(axs))
        out.note(k, o["r"], got)
        fig = axs = E = o = a = lf = None
        gc.collect()
        if k == 1:
            before = world()
    what = f"{plan['own'] or plan['r'][0]} in {rounds} figures"
    out.fired["interrupts"] = bad
    judge_alive(watch, out, what)
    same_world(before, out, what, root)
    out.counts["drawings"] = good
    out.nontrivial = good >= 5


def execute(prop, plan, root):
    out = fsim.Out()
    sys.stdout = K.Out()
    plan = copy.deepcopy(plan)
    dict(churn=churn, files=files, figs=figs)[plan["kind"]](plan, out, root)
    return out.result()


def simplify(prop, plan):
    if plan["kind"] == "churn" and len(plan["fns"]) > 1:
        for f in plan["fns"]:
            yield dict(copy.deepcopy(plan), fns=[f])
    for key, v in (("fail", 0.0), ("same", True), ("level", "WARNING")):
        if key in plan and plan[key] != v:
            yield dict(copy.deepcopy(plan), **{key: v})
