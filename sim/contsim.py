"""C11: several coefficient sets under a random history of changes, rejected and failed changes, and derivations, next to a
dictionary for each of them."""
import gc
import os
import pickle
import random
import sys

from . import fsim
from . import seam

RUNS = {"C11": (1600, 80000)}
LEVEL = {"C11": "exploration"}
RULE = {"C11": "A run is one history of changes, rejected changes, allocation failures and derivations over several sets, all of which are compared "
               "with their dictionaries after every step; same if the event logs are the same; trivial if no set ever held an entry."}
REAL = ["starwinds_magnetogram.coefficients (from /repo)", "numpy"]
STUB = ["outcome and initial content of numpy allocations", "the callers' history"]
ASSUME = ["arithmetic on sets is exercised with a zero default, for which the meaning of a missing entry is unambiguous"]


def warm(prop):
    import numpy  # noqa
    from starwinds_magnetogram import coefficients  # noqa
    seam.package_dir()
    seam.quiet_warnings()


# ------------------------------------------------------------------ plans

DEFAULTS = (dict(v=[0.0, 0.0], k=1, t="c"), dict(v=[0.0, 0.0], k=3, t="c"), dict(v=[0.0, 0.0], k=2, t="c"), dict(v=[0.0, 0.0], k=1, t="f"),
            dict(v=[0.0, 0.0], k=3, t="f"), dict(v=[1.5, -2.0], k=1, t="c"), dict(v=[2.5, 0.0], k=3, t="f"), dict(v=[0.0, 0.0], k=4, t="c", sq=1))


def lm(r, deg):
    l = r.randint(0, deg)
    return l, r.randint(-l, l)


def value(r, near=None):
    if r.random() < 0.08:
        return [0.0, 0.0]
    return [r.choice((-1, 1)) * r.choice((0.5, 1.0, 1.25, 3.75, 1e-9, 12345.678)) * r.randint(1, 9), r.choice((0.0, 0.5, -2.25, 7.0)) * r.randint(1, 5)]


def gen(prop, r, i, tier):
    deg = r.choice((1, 2, 3, 5))
    ops = [dict(op="new", d=r.choice(DEFAULTS)) for _ in range(r.choice((1, 2, 2, 3)))]
    if r.random() < 0.6:
        for o in ops[1:]:
            o["d"] = ops[0]["d"]
    for _ in range(r.randint(8, 40)):
        x = r.random()
        s, t = r.randrange(100), r.randrange(100)
        l, m = lm(r, deg if r.random() < 0.93 else 9)
        form = r.choice(("array", "array", "list", "scalar", "np0", "int", "view"))
        ints = r.choice(("int", "int", "np"))
        if x < 0.34:
            o = dict(op="append", s=s, l=l, m=m, v=value(r), form=form, ints=ints)
        elif x < 0.46:
            o = dict(op="set", s=s, l=l, m=m, v=value(r), form=form, ints=ints)
        elif x < 0.50:
            o = dict(op="many", s=s, deg=r.choice((1, 2, 3)), lo=r.choice((0, 1)), neg=r.random() < 0.5, seed=r.getrandbits(20))
        elif x < 0.58:
            o = dict(op="bad", s=s, how=r.choice(("dup", "dup", "order", "order", "shape", "shape2", "type", "from_arrays")), l=l, m=m, v=value(r),
                     by=r.choice(("append", "set")))
        elif x < 0.62:
            o = dict(op="write_into", s=s, t=t)
        elif x < 0.94:
            o = dict(op=r.choice(("copy", "copy", "add", "add", "sub", "mul", "mulk", "rmulk", "pow", "div", "scale", "trunc", "hstack", "hsplit", "empty", "zeros",
                                  "isclose", "rebuild", "iadd")), s=s, t=t, k=r.choice((2, -1.5, 0.5, 3)), n=r.choice((0, 1, 2, 3, 9)))
        elif x < 0.97:
            o = dict(op="drop", s=s)
        else:
            o = dict(op="new", d=r.choice((ops[0]["d"], r.choice(DEFAULTS))))
        if o["op"] not in ("drop", "bad", "write_into", "many") and r.random() < 0.12:
            o["fault"] = dict(kind=r.choice(("alloc", "alloc", "allocs")), pos=r.random())
        ops.append(o)
    return dict(ops=ops, fill=r.getrandbits(32), look=r.getrandbits(32))


# ------------------------------------------------------------------ model

class Model:
    def __init__(self, default, d=None):
        self.default, self.d = default, dict(d or {})

    def clone(self):
        return Model(self.default.copy(), {k: v.copy() for k, v in self.d.items()})

    def get(self, k):
        return self.d.get(k, self.default)

    def map(self, f):
        return Model(self.default.copy(), {k: f(v).astype(self.default.dtype) for k, v in self.d.items()})


def default_of(d):
    import numpy as np
    v = np.full((2, 2) if d.get("sq") else d["k"], complex(*d["v"]) if d["t"] == "c" else d["v"][0])
    return v


def data_for(m, v, form):
    """The caller's value for an entry: (object to pass, array to store)."""
    import numpy as np
    cplx = m.default.dtype.kind == "c"
    n = m.default.size
    a = np.array([(complex(*v) if cplx else v[0]) * (1 + 0.25 * j) for j in range(n)]).reshape(m.default.shape)
    if m.default.dtype.kind == "b":
        a = np.array([v[0] > 0] * n).reshape(m.default.shape)
    if n == 1 and form == "scalar":
        return a.ravel()[0].item(), a
    if n == 1 and form == "np0":
        return a.reshape(()), a
    if form == "int" and m.default.dtype.kind != "b":
        a = np.round(np.abs(a.real) % 1e6)
        return a.astype(int), a.astype(m.default.dtype)
    if form == "list":
        return a.tolist(), a
    if form == "view":
        big = np.zeros(a.shape + (2,), dtype=a.dtype)
        big[..., 0] = a
        return big[..., 0], a
    return a.copy(), a


def close(a, b):
    import numpy as np
    if a.shape != b.shape:
        return False
    if a.dtype.kind == "b" or b.dtype.kind == "b":
        return a.dtype.kind == b.dtype.kind and bool(np.array_equal(a, b))
    with np.errstate(all="ignore"):
        return bool(np.all((a == b) | (np.isnan(a) & np.isnan(b)) | (np.abs(a - b) <= 1e-12 * np.abs(b))))


def differ(s, m, r):
    """None, or how a set does not agree with its table."""
    import numpy as np
    keys = sorted(m.d)
    n = s.size
    if n != len(keys):
        return f"size is {n}, table has {len(keys)} entries"
    top, low = max([l for l, _ in keys], default=0), min([0] + [o for _, o in keys])
    if s.degree_max != top:
        return f"highest degree is {s.degree_max}, table says {top}"
    if s.order_min != low:
        return f"lowest order is {s.order_min}, table says {low}"
    c = list(s.contents())
    if [k for k, _ in c] != keys:
        return f"listing gives entries {[k for k, _ in c]}, table has {keys}"
    for k, v in c:
        if not close(np.asarray(v), m.d[k]):
            return f"listing gives {v} at {k}, table has {m.d[k]}"
    if not close(np.asarray(s.default_coefficients), m.default):
        return f"default is {s.default_coefficients}, table says {m.default}"
    for k in r.sample(keys, min(3, len(keys))) + [(r.randint(0, 6), r.randint(-3, 3)) for _ in range(2)]:
        if s.has(*k) != (k in m.d):
            return f"membership of {k} is {s.has(*k)}"
        g = s.get(*k)
        if not close(np.asarray(g), m.get(k)):
            return f"lookup of {k} gives {g}, table says {m.get(k)}"
    # Array export of some range.
    unset = r.random() < 0.5
    lmin, lmax = r.choice((None, 0, 1)), r.choice((None, top, 2, 4))
    mmin, mmax = r.choice((None, 0, -1, -9)), r.choice((None, 0, 1, 9))
    a, b = lmin or 0, top if lmax is None else lmax
    want = [(l, o) for l in range(a, b + 1) for o in range(max(-b if mmin is None else mmin, -l), min(b if mmax is None else mmax, l) + 1)]
    if want:
        l, o, v = s.as_arrays(include_unset=unset, degree_l_min=lmin, degree_l_max=lmax, order_m_min=mmin, order_m_max=mmax)
        want = [k for k in want if unset or k in m.d]
        got = list(zip([int(x) for x in l], [int(x) for x in o]))
        if got != want or len(v) != len(want):
            return f"array export({unset}, {lmin}, {lmax}, {mmin}, {mmax}) gives entries {got}, expected {want}"
        for k, x in zip(want, v):
            if not close(np.asarray(x), m.get(k)):
                return f"array export gives {x} at {k}, table says {m.get(k)}"
    return None


# ------------------------------------------------------------------ execution

def derive(shc, o, S, M, T, N):
    """(function computing the derived set or sets, expected models); None if the operation does not apply."""
    import numpy as np
    op, k = o["op"], o["k"]
    zero = not np.any(M.default) and M.default.dtype.kind != "b"
    pair = zero and not np.any(N.default) and N.default.shape == M.default.shape and N.default.dtype == M.default.dtype
    both = sorted(set(M.d) | set(N.d), key=str)
    if op == "copy":
        return (lambda: [S.copy()]), [M.clone()]
    if op == "empty":
        return (lambda: [shc.empty_like(S)]), [Model(M.default.copy())]
    if op == "zeros":
        return (lambda: [shc.zeros_like(S)]), [M.map(lambda v: M.default)]
    if op == "trunc":
        return (lambda: [S.truncated(o["n"])]), [Model(M.default.copy(), {x: v.copy() for x, v in M.d.items() if x[0] <= o["n"]})]
    if op == "rebuild":
        if M.default.ndim > 1 or not zero or not M.d:
            return None

        def f():
            l, m, v = S.as_arrays(include_unset=False)
            p = np.argsort(np.cos(np.arange(len(l)) * 7.0 + o["n"]))
            return [shc.from_arrays(l[p], m[p], v[p])]
        return f, [M.clone()]
    if op == "scale":
        if M.default.dtype.kind == "b":
            return None
        return (lambda: [S.scale(lambda l, m: 1.0 + l + 0.25 * m, -1 if k < 0 else 1)]), [
            Model(M.default.copy(), {x: v * (1.0 + x[0] + 0.25 * x[1]) ** (-1 if k < 0 else 1) for x, v in M.d.items()})]
    if op == "hstack":
        if M.default.ndim > 1 or N.default.ndim > 1 or M.default.dtype.kind == "b" or N.default.dtype.kind == "b":
            return None
        return (lambda: [shc.hstack((S, T))]), [Model(np.hstack((M.default, N.default)), {x: np.hstack((M.get(x), N.get(x))) for x in both})]
    if op == "hsplit":
        n = len(M.default)
        if M.default.ndim > 1:
            return None
        how = None if o["n"] == 0 or n % (o["n"] + 1) else [1] if o["n"] == 1 and n > 1 else o["n"] + 1
        cut = np.hsplit(M.default, n if how is None else how)
        parts = [Model(c.copy()) for c in cut]
        for x, v in M.d.items():
            for p, c in zip(parts, np.hsplit(v, n if how is None else how)):
                p.d[x] = c.copy()
        return (lambda: S.hsplit(how) if o["k"] > 1 else shc.hsplit(S, how)), parts
    if op == "isclose":
        if N.default.shape != M.default.shape or not M.d or M.default.ndim > 1 or "b" in (M.default.dtype.kind, N.default.dtype.kind):
            return None
        want = Model(np.isclose(M.default, N.default), {x: np.isclose(M.get(x), N.get(x)) for x in both})

        def g():
            c = shc.isclose(S, T)
            a = shc.allclose(S, T)
            if bool(a) != all(v.all() for v in want.d.values()):
                raise Disagree(f"allclose is {a}")
            return [c]
        return g, [want]
    if not zero:
        return None
    if op == "mulk":
        return (lambda: [S * k]), [M.map(lambda v: v * k)]
    if op == "rmulk":
        return (lambda: [k * S]), [M.map(lambda v: v * k)]
    if op == "div":
        return (lambda: [S / float(k)]), [M.map(lambda v: v * float(k) ** -1)]
    if op == "pow":
        return (lambda: [S ** 2]), [M.map(lambda v: v ** 2)]
    if not pair:
        return None
    f = {"add": lambda a, b: a + b, "iadd": lambda a, b: a + b, "sub": lambda a, b: a + b * -1, "mul": lambda a, b: a * b}[op]
    want = [Model(M.default.copy(), {x: f(M.get(x), N.get(x)) for x in both})]
    if op == "iadd":
        def h():
            x = S
            x += T
            return [x]
        return h, want
    return {"add": lambda: [S + T], "sub": lambda: [S - T], "mul": lambda: [S * T]}[op], want


class Disagree(Exception):
    pass


def attempt(out, f, fault):
    """Run f, possibly with allocations failing inside; returns (value, error, whether the fault fired)."""
    if not fault:
        try:
            return f(), None, 0
        except Disagree:
            raise
        except Exception as e:
            e.__traceback__ = None
            return None, e, 0
    lib = seam.shim()
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        n = 0
        try:
            lib.sim_alloc_thread(1)
            lib.sim_alloc_arm(1, -1, -1)
            f()
        except BaseException:
            pass
        finally:
            n = lib.sim_alloc_count()
            os.write(w, pickle.dumps(n))
            os._exit(0)
    os.close(w)
    n = pickle.loads(os.read(r, 100))
    os.close(r)
    os.waitpid(pid, 0)
    at = int(fault["pos"] * max(1, n))
    val = err = None
    lib.sim_alloc_thread(1)
    lib.sim_alloc_arm(1, at, at if fault["kind"] == "alloc" else 1 << 40)
    try:
        val = f()
    except Exception as e:
        e.__traceback__ = None
        err = e
    finally:
        fired = lib.sim_alloc_failed()
        lib.sim_alloc_arm(0, -1, -1)
    if fired:
        out.fired[fault["kind"]] = out.fired.get(fault["kind"], 0) + 1
    return val, err, fired


def execute(prop, plan, root):
    import numpy as np
    from starwinds_magnetogram import coefficients as shc
    out = fsim.Out()
    seam.patch_world(seam.Clock(), "c11")
    seam.use_numpy_handler()
    seam.shim().sim_alloc_fill(1 + (plan["fill"] % 3 == 0), plan["fill"])
    look = random.Random(plan["look"])
    live = []          # [set, model, ordinal]
    count = 0
    held = 0

    def born(s, m):
        nonlocal count
        live.append([s, m, count])
        count += 1
        if len(live) > 7:
            live.pop(look.randrange(len(live) - 1))

    for k, o in enumerate(plan["ops"]):
        op = o["op"]
        what = f"op {k} ({op})"
        if op == "new":
            d = default_of(o["d"])
            arg = d if d.size > 1 or o["d"]["k"] > 1 else d[0].item()
            val, err, fired = attempt(out, lambda: shc.Coefficients(arg), o.get("fault"))
            if val is not None:
                born(val, Model(d.copy()))
            elif not fired:
                out.v("rejects a valid change", f"{what}: {type(err).__name__}: {err}")
            out.note(k, op)
            continue
        if not live:
            continue
        S, M, idS = live[o["s"] % len(live)]
        ints = int if o.get("ints", "int") == "int" else np.int64
        if op in ("append", "set"):
            key = (o["l"], o["m"])
            arg, stored = data_for(M, o["v"], o["form"])
            dup = op == "append" and key in M.d
            val, err, fired = attempt(out, lambda: getattr(S, op)(ints(key[0]), ints(key[1]), arg), o.get("fault"))
            if err is None:
                if dup:
                    out.v("accepts a change it must reject", f"{what}: {key} was already there")
                else:
                    M.d[key] = stored.copy()
                if isinstance(arg, np.ndarray):
                    arg[...] = 0 if stored.any() else 1      # the caller goes on using its own array
            elif not fired and not dup:
                out.v("rejects a valid change", f"{what} {key}: {type(err).__name__}: {err}")
            out.note(k, op, idS, key, "error" if err else "ok", fired)
        elif op == "many":
            keys = [(l, m) for l in range(o["lo"], o["deg"] + 1) for m in range(-l if o["neg"] else 0, l + 1)]
            random.Random(o["seed"]).shuffle(keys)
            for j, key in enumerate(keys):
                if key not in M.d:
                    arg, stored = data_for(M, [1.0 + j, -j], "array")
                    S.append(*key, arg)
                    M.d[key] = stored
            out.note(k, op, idS, len(keys))
        elif op == "bad":
            key = (o["l"], o["m"])
            arg, stored = data_for(M, o["v"], "array")
            how, err = o["how"], None
            try:
                if how == "dup":
                    if not M.d:
                        continue
                    key = sorted(M.d)[o["l"] % len(M.d)]
                    S.append(*key, arg)
                elif how == "order":
                    getattr(S, o["by"])(o["l"], (o["l"] + 1) * (-1 if o["m"] < 0 else 1), arg)
                elif how in ("shape", "shape2"):
                    bad = np.concatenate((stored.ravel(), stored.ravel()[:1])) if how == "shape" else np.ones((5, 2)).astype(M.default.dtype)
                    if o["by"] == "append" and key in M.d:
                        continue
                    getattr(S, o["by"])(*key, bad)
                elif how == "type":
                    if M.default.dtype.kind == "b" or o["by"] == "append" and key in M.d:
                        continue
                    getattr(S, o["by"])(*key, "not a number")
                else:
                    shc.from_arrays(np.array([1, 2, 1]), np.array([0, 1, 0]), np.array([1.0, 2.0, 3.0]))
            except Exception as e:
                err = e
                err.__traceback__ = None
            if err is None:
                out.v("accepts a change it must reject", f"{what}: {how} at {key} by {o['by']}")
                live[o["s"] % len(live)][1] = None
                live = [x for x in live if x[1] is not None]
            out.fired["rejected change"] = out.fired.get("rejected change", 0) + 1
            out.note(k, op, idS, how)
        elif op == "drop":
            if len(live) > 1:
                live.pop(o["s"] % len(live))
                del S, M
                gc.collect()
            out.note(k, op, idS)
        elif op == "write_into":
            # A caller writes into whatever the set returned to it.
            for x in [S.default_coefficients] + [v for _, v in S.contents()][:3] + [S.get(9, 9)] + list(S.as_arrays()[2:]):
                if isinstance(x, np.ndarray) and x.flags.writeable and x.size:
                    x[...] = True if x.dtype.kind == "b" else -99
            out.note(k, op, idS)
        else:
            T, N, idT = live[o["t"] % len(live)]
            dv = derive(shc, o, S, M, T, N)
            if dv is None:
                continue
            f, want = dv
            try:
                val, err, fired = attempt(out, f, o.get("fault"))
            except Disagree as e:
                out.v("derived set is wrong", f"{what}: {e}")
                continue
            out.note(k, op, idS, idT, "error" if err else "ok", fired)
            if err is not None:
                if not fired:
                    out.v("derivation fails", f"{what}: {type(err).__name__}: {err}")
            else:
                if len(val) != len(want):
                    out.v("derived set is wrong", f"{what}: {len(val)} sets instead of {len(want)}")
                for s, m in zip(val, want):
                    d = differ(s, m, look)
                    if d:
                        out.v("derived set is wrong", f"{what} of set {idS}: {d}")
                    else:
                        born(s, m)
        for s, m, n in live:
            d = differ(s, m, look)
            if d:
                out.v("set disagrees with its table", f"after {what} (on set {idS}): set {n}: {d}")
            held += len(m.d)
        if out.viol:
            break
    # The order of additions does not show.
    if not out.viol:
        for s, m, n in live:
            t = shc.Coefficients(s.default_coefficients)
            keys = list(m.d)
            look.shuffle(keys)
            for key in keys:
                t.append(*key, dict(s.contents())[key])
            if str(s) != str(t):
                out.v("order of additions shows", f"set {n}: text {str(s)[:120]!r} and {str(t)[:120]!r}")
            a, b = s.as_arrays(), t.as_arrays()
            if not all(np.array_equal(x, y, equal_nan=x.dtype.kind in "fc") for x, y in zip(a, b)):
                out.v("order of additions shows", f"set {n}: array exports differ")
    out.nontrivial = held > 0
    out.counts["sets"] = count
    return out.result()
