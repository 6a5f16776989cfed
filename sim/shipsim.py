"""C15: objects handed to other processes (pickle, fork) and copied, at any moment of a program's history and while other threads
are inside calls on them."""
import copy
import gc
import logging
import os
import pickle
import select
import struct
import sys

from . import calls as K
from . import callsim as CS
from . import fsim
from . import seam
from . import threads as TH

RUNS = {"C15": (1200, 40000)}
LEVEL = {"C15": "exploration"}
RULE = {"C15": "A run is one program (in half of the runs with two or three threads under a seeded schedule) that calls the library, changes its objects, "
               "copies them, sends them to other processes and forks; same if the event logs are the same; trivial if nothing was copied, sent or forked."}
REAL = CS.REAL + ["pickle, copy, os.fork; the receiving processes are real ones"]
STUB = CS.STUB + ["start of a receiving process (a fork of an interpreter that has the package imported and has done nothing else)"]
ASSUME = ["a receiving process has the same versions of the package, numpy and scipy", "shallow copies may share arrays with their original"]

warm = CS.warm


# ------------------------------------------------------------------ receiving processes

class Receivers:
    """Every question goes to a new process that has done nothing before."""

    def __init__(self):
        qr, qw = os.pipe()
        ar, aw = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(qw), os.close(ar)
            try:
                while True:
                    n = CS._read(qr, 4)
                    if not n:
                        break
                    job, blob = pickle.loads(CS._read(qr, struct.unpack("I", n)[0]))
                    kid = os.fork()
                    if kid == 0:
                        try:
                            seam.patch_world(seam.Clock(), "receiver")
                            seam.use_numpy_handler()
                            seam.shim().sim_alloc_fill(1, 0xbad)
                            b = pickle.dumps(receive(job, blob))
                        except BaseException as e:
                            b = pickle.dumps(("e", f"{type(e).__name__}: {str(e)[:150]}"))
                        CS._write(aw, struct.pack("I", len(b)) + b)
                        os._exit(0)
                    _, st = os.waitpid(kid, 0)
                    if st:
                        b = pickle.dumps(("e", f"signal {st}"))
                        CS._write(aw, struct.pack("I", len(b)) + b)
            finally:
                os._exit(0)
        os.close(qr), os.close(aw)
        self.q, self.a = qw, ar

    def ask(self, job, blob):
        b = pickle.dumps((job, blob))
        CS._write(self.q, struct.pack("I", len(b)) + b)
        return pickle.loads(CS._read(self.a, struct.unpack("I", CS._read(self.a, 4))[0]))


class Sent:
    """The objects of one call, as the receiver has them."""

    def __init__(self, objects):
        self.objects = objects

    def get(self, n):
        return self.objects[n]

    fresh = get


def receive(job, blob):
    """In the receiver: what arrived, what the call on it gives (also as it comes back to the sender), and the object after a change."""
    objects = pickle.loads(blob)
    arrived = {n: K.canon(v) for n, v in objects.items()}
    try:
        x = K.perform(Sent(objects), job["c"])
        got = K.canon(x)
        try:
            back = ("raw", pickle.dumps(x, job["proto"]))
        except Exception as e:
            back = ("e", f"{type(e).__name__}: {e}")
    except Exception as e:
        got, back = ("e", type(e).__name__), None
    changed = None
    if job["mod"]:
        n, m = job["mod"]
        objects[n] = K.modify(objects[n], m)
        changed = (n, pickle.dumps(objects[n], job["proto"]))
    return arrived, got, back, changed


# ------------------------------------------------------------------ plans

HOW = ("deep", "deep", "pickle", "pickle", "shallow")


def names(c):
    return sorted({a for a in c["a"] if isinstance(a, str)})


def rand_op(r, c):
    k = r.random()
    if not names(c) or k < 0.3:
        return dict(op="fork", c=c)
    m = CS.rand_mod(r, c) if r.random() < 0.6 else None
    m = [m["n"], m["m"]] if m else None
    if k < 0.65:
        return dict(op="copy", c=c, how=r.choice(HOW), proto=r.randrange(6), mod=m, side=r.choice(("copy", "original")))
    return dict(op="send", c=c, proto=r.randrange(6), mod=m)


def gen(prop, r, i, tier):
    env = K.rand_env(r)
    mix = r.random()
    if r.random() < 0.5:
        n = r.choice((2, 2, 3))
        pool = CS.themed(r, n * r.choice((1, 2, 3)), mix)
        procs = [dict(ops=[dict(op="call", c=pool[k]) for k in range(j, len(pool), n)]) for j in range(n)]
        for _ in range(r.choice((1, 1, 2))):
            p = r.choice(procs)
            c = r.choice(pool)
            p["ops"].insert(r.randint(0, len(p["ops"])), dict(rand_op(r, c if r.random() < 0.6 else K.vary(r, c)), mod=None))
        if r.random() < 0.7:
            # A thread that does nothing but hand things on, at several moments of what the others do.
            c = r.choice(pool)
            procs.append(dict(ops=[dict(rand_op(r, c if r.random() < 0.5 else K.vary(r, c)), mod=None, rest=True) for _ in range(r.choice((2, 4, 6)))]))
        policy = dict(seed=r.getrandbits(32), p=r.choice((0.01, 0.03, 0.1, 0.25, 0.5)))
        if r.random() < 0.5:
            policy.update(p=policy["p"] / 20, rare=r.choice((0.1, 0.3, 0.6, 1.0)))
        return dict(env=env, procs=procs, policy=policy, schedule=None)
    ops = []
    for c in CS.themed(r, r.choice((1, 2, 2, 3)), mix):
        x = r.random()
        if x < 0.35:
            ops.append(dict(op="call", c=c))
        elif x < 0.5:
            ops.append(dict(op="fail", c=c, fault=CS.fault(r)))
        if r.random() < 0.3:
            m = CS.rand_mod(r, c)
            if m:
                ops.append(m)
        for _ in range(r.choice((1, 1, 2))):
            ops.append(rand_op(r, c if r.random() < 0.7 else K.vary(r, c)))
        if r.random() < 0.4:
            ops.append(dict(op="call", c=c if r.random() < 0.6 else K.vary(r, c)))
    return dict(env=env, ops=ops, fill=r.getrandbits(32), level=r.choice(("WARNING", "DEBUG")))


# ------------------------------------------------------------------ execution

def forked(env, c):
    """The call in a process forked here and now: its canonical outcome."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            sys.settrace(None)
            TH.WORLD = None
            TH._me.task = None
            try:
                b = pickle.dumps(CS.outcome(env, c)[0])
            except BaseException as e:
                b = pickle.dumps(("e", f"{type(e).__name__}: {str(e)[:150]}"))
            CS._write(w, b)
        finally:
            os._exit(0)
    os.close(w)
    b = b""
    while True:
        if not select.select([r], [], [], 120)[0]:
            os.kill(pid, 9)
            os.waitpid(pid, 0)
            os.close(r)
            return ("e", "does not finish")
        x = os.read(r, 1 << 16)
        if not x:
            break
        b += x
    os.close(r)
    os.waitpid(pid, 0)
    return pickle.loads(b) if b else ("e", "process died")


def duplicate(x, how, proto):
    if how == "deep":
        return copy.deepcopy(x)
    if how == "shallow":
        return copy.copy(x)
    return pickle.loads(pickle.dumps(x, proto))


def judge(out, cls, what, got, want):
    d = CS.compare(got, want)
    if d:
        out.v(cls, f"{what}: {d}")
    return bool(d)


def same_objects(out, what, a, b, cls):
    """a: canonical forms by name that should be those of b."""
    for n in a:
        if not K.exact(a[n], b[n]):
            out.v(cls, f"{what}: {n} is not the object it should be")
            return True
    return False


def dumps(objects, proto):
    try:
        return pickle.dumps(objects, proto), None
    except Exception as e:
        return None, f"{type(e).__name__}: {e}"


def check_sent(out, what, c, blob, o, env_canon, want, rec, expect):
    """Ask a receiver and judge its answer."""
    a = rec.ask(dict(c=c, proto=o["proto"], mod=o["mod"]), blob)
    if a[0] == "e":
        out.v("object cannot be received", f"{what}: {a[1]}")
        return
    arrived, got, back, changed = a
    if same_objects(out, what, arrived, env_canon, "object changed on the way"):
        return
    if judge(out, "receiver computes something else", what, got, want):
        return
    if back is not None and got[0] not in "f?":
        if back[0] == "e":
            out.v("result cannot be sent", f"{what}: {back[1]}")
        elif judge(out, "result changed on the way", what, K.canon(pickle.loads(back[1])), want):
            return
    if changed is not None:
        same_objects(out, what + ", changed there and sent back", {changed[0]: K.canon(pickle.loads(changed[1]))}, {changed[0]: expect}, "object changed on the way")


def exec_history(plan, out, ref, rec):
    env = K.Env(plan["env"])
    seam.patch_world(seam.Clock(), "ship")
    seam.use_numpy_handler()
    seam.shim().sim_alloc_fill(1 + (plan["fill"] % 3 == 0), plan["fill"])
    logging.getLogger().setLevel(plan["level"])
    used = 0
    for n in CS.names_of(plan["ops"]):
        env.get(n)
    for k, o in enumerate(plan["ops"]):
        c = o.get("c")
        what = f"op {k}: {o['op']} " + (CS.name(c) if c else "")
        if o["op"] == "mod":
            env.modify(o["n"], o["m"])
            out.note(k, "mod", o["n"], o["m"])
            continue
        want = ref.ask(env, c)
        before = env.snapshot()
        if o["op"] == "call":
            judge(out, "result depends on history", what, CS.outcome(env, c)[0], want)
        elif o["op"] == "fail":
            got, f, where = CS.broken(env, c, o["fault"], out)
            out.note(k, "fail", c["fn"], o["fault"]["kind"], f, where)
        elif o["op"] == "fork":
            used += 1
            judge(out, "forked process computes something else", what, forked(env, c), want)
        elif o["op"] == "send":
            used += 1
            blob, err = dumps({n: env.get(n) for n in names(c)}, o["proto"])
            if err:
                out.v("object cannot be sent", f"{what}: {err}")
                break
            expect = None
            if o["mod"]:
                x = env.fresh(o["mod"][0])
                if hasattr(x, "flags") and not x.flags.writeable:
                    o = dict(o, mod=None)       # whether the receiver can write to it depends on the protocol
                else:
                    expect = K.canon(K.modify(x, o["mod"][1]))
            check_sent(out, what, c, blob, o, {n: before[n] for n in names(c)}, want, rec, expect)
        elif o["op"] == "copy":
            used += 1
            what += f" ({o['how']} copies)"
            try:
                objects = {n: duplicate(env.get(n), o["how"], o["proto"]) for n in names(c)}
            except Exception as e:
                out.v("object cannot be copied", f"{what}: {type(e).__name__}: {e}")
                break
            mine = {n: K.canon(v) for n, v in objects.items()}
            if not same_objects(out, what, mine, before, "copy differs from its original"):
                try:
                    got = K.canon(K.perform(Sent(objects), c))
                except Exception as e:
                    got = ("e", type(e).__name__)
                judge(out, "copy computes something else", what, got, want)
            if o["mod"] and o["how"] != "shallow" and not out.viol:
                n, m = o["mod"]
                if o["side"] == "copy":
                    objects[n] = K.modify(objects[n], m)
                    same_objects(out, what + f", then {m} on the copy of {n}", env.snapshot(), before, "change of a copy reaches its original")
                    judge(out, "change of a copy reaches its original", what + f", then {m} on the copy of {n}", CS.outcome(env, c)[0], want)
                else:
                    env.modify(n, m)
                    want2 = ref.ask(env, c)
                    w = what + f", then {m} on the original of {n}"
                    same_objects(out, w, {a: K.canon(v) for a, v in objects.items()}, mine, "change of an original reaches its copy")
                    judge(out, "result depends on history", w, CS.outcome(env, c)[0], want2)
                    try:
                        got = K.canon(K.perform(Sent(objects), c))
                    except Exception as e:
                        got = ("e", type(e).__name__)
                    judge(out, "change of an original reaches its copy", w, got, want)
                    before = env.snapshot()
            del objects
            gc.collect()
        out.note(k, o["op"], CS.name(c), len(out.viol))
        if not out.viol:
            same_objects(out, what, env.snapshot(), before, "objects changed")
        if out.viol:
            break
    out.counts["copied, sent or forked"] = used
    out.nontrivial = used > 0


def exec_threads(plan, out, ref, rec):
    env = K.Env(plan["env"])
    seam.patch_world(seam.Clock(), "ship")
    ops = [(j, k, o) for j, p in enumerate(plan["procs"]) for k, o in enumerate(p["ops"])]
    for n in CS.names_of([o for _, _, o in ops]):
        env.get(n)
    before = env.snapshot()
    wants = {(j, k): ref.ask(env, o["c"]) for j, k, o in ops}
    results = {}
    used = 0

    def body(j, ops):
        def run(t):
            seam.use_numpy_handler()
            for k, o in enumerate(ops):
                c = o["c"]
                if o.get("rest"):
                    w.rest(t)
                try:
                    if o["op"] == "call":
                        x = ("raw", K.perform(env, c))
                    elif o["op"] == "fork":
                        x = ("canon", forked(env, c))
                    elif o["op"] == "send":
                        x = ("blob", pickle.dumps({n: env.get(n) for n in names(c)}, o["proto"]))
                    else:
                        x = ("copy", {n: duplicate(env.get(n), o["how"], o["proto"]) for n in names(c)})
                except seam.SimCrash:
                    raise
                except Exception as e:
                    e.__traceback__ = None
                    x = ("e", type(e).__name__, str(e)[:120])
                results[j, k] = x
        return run
    seam.shim().sim_alloc_fill(1, 77)
    w = TH.World([body(j, p["ops"]) for j, p in enumerate(plan["procs"])], schedule=plan.get("schedule"), policy=plan.get("policy"))
    w.run()
    if w.deadlock:
        out.v("deadlock", "all threads wait for each other: " + "; ".join(list(w.tail)[-4:]))
    elif w.capped:
        out.v("does not finish", f"threads still running after {w.ev} steps")
    out.take(w)
    for j, k, o in ops:
        if w.error or w.deadlock or w.capped or out.viol:
            break
        c, x, want = o["c"], results[j, k], wants[j, k]
        what = f"thread {j}: {o['op']} {CS.name(c)} while other threads were running"
        if o["op"] == "call":
            judge(out, "result differs among threads", what, K.canon(x[1]) if x[0] == "raw" else x[:2], want)
            continue
        used += 1
        if x[0] == "e":
            out.v("object cannot be sent" if o["op"] == "send" else "object cannot be copied", f"{what}: {x[1]}: {x[2]}")
        elif o["op"] == "fork":
            judge(out, "forked process computes something else", what, x[1], want)
        elif o["op"] == "send":
            check_sent(out, what, c, x[1], o, {n: before[n] for n in names(c)}, want, rec, None)
        else:
            if not same_objects(out, what, {n: K.canon(v) for n, v in x[1].items()}, before, "copy differs from its original"):
                try:
                    got = K.canon(K.perform(Sent(x[1]), c))
                except Exception as e:
                    got = ("e", type(e).__name__)
                judge(out, "copy computes something else", what, got, want)
        out.note(j, k, o["op"], len(out.viol))
    if not out.viol:
        same_objects(out, "threads", env.snapshot(), before, "objects changed")
    out.counts["copied, sent or forked"] = used
    out.nontrivial = used > 0 and w.switches > 0
    return w


def execute(prop, plan, root):
    out = fsim.Out()
    sys.stdout = K.Out()
    plan = copy.deepcopy(plan)
    ref, rec = CS.Reference(prop), Receivers()
    if "procs" in plan:
        w = exec_threads(plan, out, ref, rec)
        return out.result(schedule=w.recorded)
    exec_history(plan, out, ref, rec)
    return out.result()


def simplify(prop, plan):
    yield from CS.simplify(prop, plan)
    for key in ("ops", "procs"):
        for i, o in enumerate(plan.get(key, ())):
            for j, q in enumerate(o["ops"]) if key == "procs" else ((None, o),):
                for f, v in (("mod", None), ("proto", 2), ("how", "deep")):
                    if q.get(f, v) != v:
                        p = copy.deepcopy(plan)
                        (p[key][i]["ops"][j] if key == "procs" else p[key][i])[f] = v
                        yield p
