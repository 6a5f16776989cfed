"""Magnetogram files under faults: C01 acknowledged writes read back, C02 failed writes harm nothing, C03 reads are whole."""
import gc
import hashlib
import json
import os
import random
import sys

from . import disk as D
from . import procs as P
from . import seam
from . import tables as T

RUNS = {"C01": (1600, 60000), "C02": (1100, 40000), "C03": (1600, 50000)}
LEVEL = {"C01": "exploration", "C02": "fault_enumeration", "C03": "exploration"}
RULE = {
    "C01": "A run is a random sequence of writes and reads of several paths by one process, under short and interrupted system "
           "calls; two runs are the same if their event logs are the same; trivial if nothing was written and read back.",
    "C02": "A run is a few writes of one path, each ended by one fault at a chosen call (kill, torn write, I/O error, full disk, "
           "interrupt, power loss); same if the event logs are the same; trivial if no fault fired.",
    "C03": "A run is one read under faults, or several processes reading and writing the same paths under a random schedule; same "
           "if the event logs are the same; trivial if no fault fired and no switch happened.",
}
REAL = ["starwinds_magnetogram.reader_writer, .coefficients (from /repo)", "CPython I/O stack, numpy", "libc down to the system call"]
STUB = ["scheduling of processes", "outcome and length of file system calls", "clock, entropy, process ids",
        "power loss: journal model over the recorded calls"]
ASSUME = ["metadata changes reach the disk in order and a sync of a file forces out every earlier one (journalled file system)",
          "rename within a directory is atomic"]


def warm(prop):
    import numpy  # noqa
    from starwinds_magnetogram import reader_writer  # noqa
    seam.package_dir()
    seam.quiet_warnings()
    import logging
    logging.disable(logging.NOTSET)


# ------------------------------------------------------------------ plans

NAMES = ("a.dat", "b.dat", "c_1.txt", "sub/d.dat")
ODD_NAMES = ("with space.dat", "100%s.dat", "\u00fcn\u00ef.dat", "1 0 2.5 3.5", "sub/2 1 1e3 4", "1 1 5", "#x", "-dash", ".hidden", "noext", "{0}.dat",
             "two\nlines.dat", "a\n1 0 7.5 8.5", "n m g h", "{root}/abs.dat", "sub/../up.dat", "a.dat.bak", "a.dat~", "x" * 200)


def transient(r, n):
    out = []
    for _ in range(n):
        k = r.choice(("short_read", "short_write", "eintr_read", "eintr_write", "eintr_open"))
        f = dict(kind=k, at=r.choice((1, 1, 2, 3, 4, 6, 9)), frac=r.choice((0.0, 0.1, 0.5, 0.9, 0.999)))
        if k.startswith("short") and r.random() < 0.3:
            f["sticky"] = True
            f["frac"] = r.choice((0.02, 0.1, 0.5))
        out.append(f)
    return out


def rand_write(r, spec=None):
    spec = spec or T.rand_spec(r)
    deg = spec["deg"]
    dmax = r.choice((None, None, deg, deg + 1, deg + 3, max(0, deg - 1), 0))
    omin = r.choice((0, 0, 0, -deg, -1, -(deg + 2))) if spec["style"] == "neg" or r.random() < 0.2 else 0
    return dict(table=spec, dmax=dmax, omin=omin, hdr=r.random() < 0.4)


def gen(prop, r, i, tier):
    if prop == "C01":
        files = r.sample(NAMES, r.choice((1, 1, 2, 3)))
        if r.random() < 0.3:
            files[-1] = r.choice(ODD_NAMES)
        ops = []
        hard = r.random() < 0.25
        for _ in range(r.randint(2, 7)):
            f = r.randrange(len(files))
            if ops and r.random() < 0.4:
                ops.append(dict(op="r", f=f, faults=transient(r, r.choice((0, 1, 2)))))
            elif ops and r.random() < 0.2:
                ops.append(dict(op="c", f=f, to=r.randrange(len(files)), hdr=r.random() < 0.3, faults=transient(r, r.choice((0, 0, 1)))))
            else:
                o = dict(op="w", f=f, **rand_write(r))
                o["table"]["build"] = r.choice(T.BUILD)
                o["path"] = r.random() < 0.15
                o["faults"] = transient(r, r.choice((0, 1, 1, 2)))
                if hard and r.random() < 0.4:
                    o["faults"].append(dict(kind=r.choice(("enospc", "eio_write", "err_open", "err_close")), at=r.choice((1, 1, 2, 3))))
                ops.append(o)
                if r.random() < 0.5:
                    ops.append(dict(op="r", f=f, faults=transient(r, r.choice((0, 1)))))
        old = [dict(table=T.rand_spec(r), style=T.rand_style(r)) if r.random() < 0.35 else None for _ in files]
        if i % 60 == 7:
            ops.insert(0, dict(op="w", f=0, faults=[], **rand_write(r, dict(deg=r.choice((40, 101)), comps=1, style="from1", seed=i))))
        return dict(files=files, old=old, ops=ops)
    if prop == "C02":
        kinds = ("kill", "kill", "kill", "power", "enospc", "eio_write", "err_open", "err_close", "err_fsync", "err_rename", "interrupt",
                 "memory", "alloc")
        ops = []
        for _ in range(r.choice((1, 1, 2, 3))):
            k = r.choice(kinds)
            f = dict(kind=k, pos=r.random())
            if k == "kill":
                f["after"] = r.random() < 0.3
                if r.random() < 0.4:
                    f["torn"] = r.choice((0.0, 0.3, 0.8, 0.999))
            elif k in ("enospc",):
                f["frac"] = r.choice((0, 0, 0.5))
            elif k not in ("power", "interrupt", "memory", "alloc"):
                f["sticky"] = r.random() < 0.4
            w = rand_write(r)
            if r.random() < 0.3:
                w["table"]["deg"], w["table"]["comps"] = r.choice((15, 18)), 3
            w.update(fault=f, extra=transient(r, r.choice((0, 0, 0, 1))))
            if k in ("kill", "power") and r.random() < 0.35:
                # Something goes wrong before the lights go out.
                q = dict(kind=r.choice(("err_rename", "err_rename", "err_fsync", "err_open", "err_close", "err_stat", "err_chmod", "err_unlink", "eio_write", "enospc")),
                         at=r.choice((1, 1, 1, 2, 3)))
                q["sticky"] = r.random() < 0.5
                if q["kind"] == "enospc":
                    q["once"] = r.random() < 0.5
                w["extra"].append(q)
                if k == "kill":
                    f["late"] = r.choice((0, 1, 2, 3, 4, 6))
            ops.append(w)
        return dict(old=dict(table=T.rand_spec(r), style=T.rand_style(r)) if r.random() < 0.7 else None, ops=ops,
                    how=r.choice(("plain", "plain", "plain", "sub", "absolute", "symlink")))
    # C03
    if r.random() < 0.5:
        spec = T.rand_spec(r)
        if r.random() < 0.5:
            spec["deg"] = r.choice((12, 15, 20))
        k = r.choice(("eio_read", "eio_read", "short_read", "eintr_read", "err_open", "err_close", "interrupt", "memory", "alloc", "none"))
        f = dict(kind=k, pos=r.random())
        if k == "eio_read":
            f["sticky"] = r.random() < 0.5
        if k == "short_read":
            f["sticky"], f["frac"] = r.random() < 0.6, r.choice((0.0, 0.01, 0.3, 0.5, 0.99))
        style = T.rand_style(r)
        if r.random() < 0.15:
            style["cut"] = r.choice((0.0, 0.1, 0.5, 0.9))
        if r.random() < 0.08:
            # One byte of one number on the disk has gone bad: it is no character any more.
            return dict(mode="read", table=spec, style=style, fault=dict(kind="none"), extra=transient(r, r.choice((0, 1))), verbose=r.random() < 0.3,
                        bad=[r.random(), r.choice((0x80, 0xff, 0xfe, 0xc3))])
        return dict(mode="read", table=spec, style=style, fault=f, extra=transient(r, r.choice((0, 0, 1, 2))),
                    verbose=r.random() < 0.3)
    files = r.sample(("a.dat", "b.dat"), r.choice((1, 1, 2)))
    procs = []
    for p in range(r.choice((2, 2, 3))):
        ops = []
        for _ in range(r.choice((1, 2, 2, 3))):
            if r.random() < 0.5:
                ops.append(dict(op="w", f=r.randrange(len(files)), deg=r.choice((1, 2, 3, 12, 15)), comps=r.choice((1, 3)), seed=r.getrandbits(30)))
            else:
                ops.append(dict(op="r", f=r.randrange(len(files))))
        fl = transient(r, r.choice((0, 0, 1)))
        if r.random() < 0.2:
            fl.append(dict(kind=r.choice(("kill", "eio_write", "enospc", "eio_read")), at=r.choice((1, 2, 3, 4, 5))))
        procs.append(dict(ops=ops, faults=fl))
    if not any(o["op"] == "w" for p in procs for o in p["ops"]):
        procs[0]["ops"].append(dict(op="w", f=0, deg=15, comps=3, seed=r.getrandbits(30)))
    return dict(mode="conc", files=files, old=[dict(deg=r.choice((2, 15)), comps=r.choice((1, 3)), style="dense", seed=r.getrandbits(30))
                if r.random() < 0.7 else None for _ in files], procs=procs,
                policy=dict(seed=r.getrandbits(40), p=r.choice((0.1, 0.3, 0.6, 0.9))), schedule=None)


# ------------------------------------------------------------------ execution helpers

class Out:
    def __init__(self):
        self.viol, self.log, self.tail = [], hashlib.sha256(), []
        self.fired, self.counts, self.probes = {}, {}, {}
        self.covered, self.events, self.switches, self.harness = 0.0, 0, 0, None
        self.nontrivial = True

    def v(self, cls, msg):
        self.viol.append([cls, msg[:600]])

    def note(self, *a):
        s = "|".join(str(x) for x in a)
        self.log.update(s.encode() + b"\n")
        self.tail.append(s[:160])

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def take(self, d):
        """From a Disk or a Coordinator."""
        for k, n in d.fired.items():
            self.fired[k] = self.fired.get(k, 0) + n
        for k, n in d.counts.items():
            self.counts[k] = self.counts.get(k, 0) + n
        self.log.update(d.log.hexdigest().encode())
        self.tail += list(d.tail)
        self.harness = self.harness or d.error
        self.events += getattr(d, "ev", getattr(d, "events", 0))
        self.switches += getattr(d, "switches", 0)
        self.covered += getattr(d, "covered", 0.0)

    def result(self, **kw):
        h = self.log.hexdigest()
        return dict(viol=self.viol, digest=h, key=h, tail=self.tail[-80:], fired=self.fired, counts=self.counts, probes=self.probes,
                    covered=self.covered, events=self.events, switches=self.switches, harness=self.harness, nontrivial=self.nontrivial, **kw)


def mods():
    from starwinds_magnetogram import coefficients, reader_writer
    return coefficients, reader_writer


def put(path, data):
    os.makedirs(os.path.dirname(path) or ".", exist_ok=True)
    with open(path, "wb") as f:
        f.write(data)


def get(path):
    try:
        with open(path, "rb") as f:
            return f.read()
    except FileNotFoundError:
        return None


def do_write(w, name):
    shc, rw = mods()
    rw.write_magnetogram_file(T.make(w["table"], shc), name, degree_max=w["dmax"], order_min=w["omin"], write_swmf_header=w["hdr"])


def check_file(data, w, what):
    """None, or why the bytes are not the complete file this write should produce."""
    want = T.requested(w["table"], w["dmax"], w["omin"])
    if data is None:
        return "the file does not exist"
    try:
        header, got, n = T.parse_table(data)
    except ValueError as e:
        return f"malformed file: {e}"
    d = T.same(want, got)
    if d:
        return d
    if w["hdr"]:
        try:
            a, b = header[2].split(), header[3].split()
            lines, deg = int(a[0]), int(b[0])
        except (IndexError, ValueError):
            return f"no SWMF header: {header[:5]}"
        if lines != n and not (w["table"]["comps"] > 1 and lines == len(want)):
            return f"header says {lines} data lines, body has {n}"
        if deg != max(l for l, m in got):
            return f"header says degree {deg}, body reaches {max(l for l, m in got)}"
    return None


def hard(faults):
    return any(f["kind"] not in D.TRANSIENT for f in faults)


# ------------------------------------------------------------------ C01

def exec_c01(plan, root, out):
    import pathlib
    shc, rw = mods()
    clock = seam.Clock()
    seam.patch_world(clock, "c01")
    limit = seam.LineFault()
    model = {}
    plan["files"] = [n.replace("{root}", root) for n in plan["files"]]
    for name, old in zip(plan["files"], plan["old"]):
        os.makedirs(os.path.dirname(name) or ".", exist_ok=True)
        if old:
            put(name, T.text(old["table"], old["style"]))
            model[name] = [("t", T.table(old["table"]), get(name))]
    known = [os.path.basename(n) for n in plan["files"]] + ["sub"]
    verified = 0
    for k, op in enumerate(plan["ops"]):
        name = plan["files"][op["f"]]
        err, got = None, None
        d = D.Disk(root, op["faults"], known)
        try:
            with d, limit:
                if op["op"] == "w":
                    do_write(op, pathlib.Path(name) if op.get("path") else name)
                elif op["op"] == "c":
                    got = rw.read_magnetogram_file(name)
                    name = plan["files"][op["to"]]
                    rw.write_magnetogram_file(got, name, write_swmf_header=op["hdr"], order_min=-99)
                else:
                    got = rw.read_magnetogram_file(name)
                gc.collect()
        except seam.StepCap:
            out.v("does not finish", f"op {k}: {op['op']} of {name} ran for ever")
            err = "cap"
        except Exception as e:
            err = f"{type(e).__name__}: {e}"
        finally:
            limit.__exit__()
        out.take(d)
        is_hard = any(d.fired[f["kind"]] for f in op["faults"] if f["kind"] not in D.TRANSIENT)
        out.note(k, op["op"], name, "error " + type(err).__name__ if err else "ok")
        if op["op"] == "c" and got is None:
            continue        # the file to copy could not be read
        if op["op"] != "r":
            if op["op"] == "c":
                new = ("w", dict(table=dict(data=T.observe(got), comps=len(got.default_coefficients)), dmax=None, omin=-99, hdr=op["hdr"]))
            else:
                new = ("w", {x: op[x] for x in ("table", "dmax", "omin", "hdr")})
            if err is None:
                model[name] = [new]
            elif is_hard:
                model[name] = model.get(name, [None]) + [new]
            else:
                out.v("write fails without a fault", f"op {k}: writing {name} raised {err}")
                model[name] = model.get(name, [None]) + [new]
        else:
            exp = model.get(name, [None])
            if err is not None:
                if None not in exp:
                    out.v("read fails", f"op {k}: reading {name} raised {err}")
                continue
            t = T.observe(got)
            diffs = []
            for e in exp:
                if e is None:
                    diffs.append("file should not exist")
                    continue
                want = e[1] if e[0] == "t" else T.requested(e[1]["table"], e[1]["dmax"], e[1]["omin"])
                x = T.same(want, t)
                if x is None:
                    diffs = None
                    verified += 1
                    break
                diffs.append(x)
            if diffs:
                out.v("read back differs", f"op {k}: {name}: " + "; ".join(diffs))
    # Finally everything must read back, from the bytes and through the reader.
    for name, exp in sorted(model.items()):
        data = get(name)
        why = []
        for e in exp:
            if e is None:
                w = None if data is None else "file exists"
            elif e[0] == "w":
                w = check_file(data, e[1], name)
            else:
                w = None if data == e[2] else "bytes of the untouched file changed"
            if w is None:
                why = None
                break
            why.append(w)
        if why:
            out.v("header untrue" if all("header says" in x for x in why) else "file content", f"{name}: " + "; ".join(why))
        if data is not None and exp[-1] is not None and len(exp) == 1:
            try:
                t = T.observe(rw.read_magnetogram_file(name))
                e = exp[0]
                x = T.same(e[1] if e[0] == "t" else T.requested(e[1]["table"], e[1]["dmax"], e[1]["omin"]), t)
            except Exception as ex:
                x = f"{type(ex).__name__}: {ex}"
            if x:
                out.v("read back differs", f"finally: {name}: {x}")
            verified += 1
    out.covered += clock.covered
    out.nontrivial = verified > 0
    out.probe("reads verified", verified)


# ------------------------------------------------------------------ C02

def count_run(root, known, body):
    """Fault-free simulated process: number of calls of every class and of package lines."""
    def runner(ctx, spec):
        lf = seam.LineFault()
        seam.use_numpy_handler()
        lib = seam.shim()
        lib.sim_alloc_thread(1)
        lib.sim_alloc_arm(1, -1, -1)
        err = None
        try:
            with lf:
                body()
        except Exception as e:
            err = f"{type(e).__name__}: {e}"
        finally:
            sys.settrace(None)
            lib.sim_alloc_arm(0, -1, -1)
        return dict(n={str(k): v for k, v in ctx.disk.n.items()}, lines=lf.n, err=err, allocs=lib.sim_alloc_count())
    c = P.Coordinator(root, [dict(faults=[])], runner, known).run()
    return c, c.procs[0].res


def resolve(f, dry):
    """Place a fault at a fraction of the calls the fault-free execution makes."""
    f = dict(f)
    pos = f.pop("pos")
    if f["kind"] in ("interrupt", "memory"):
        f["at"] = 1 + int(pos * dry["lines"])
    elif f["kind"] == "alloc":
        f["at"] = int(pos * max(1, dry["allocs"]))
    elif f["kind"] == "kill":
        f["at"] = 1 + int(pos * dry["n"].get("mut", 1)) + f.pop("late", 0)
    elif f["kind"] in D.CLASS:
        n = sum(dry["n"].get(str(o), 0) for o in D.CLASS[f["kind"]])
        f["at"] = 1 + int(pos * n)
    return f


def faulted_body(f, body, ctx):
    """Run body with a line or allocation fault; returns (outcome, error text, fault fired)."""
    exc = {"interrupt": KeyboardInterrupt, "memory": MemoryError}.get(f["kind"])
    lf = seam.LineFault(at=f["at"] if exc else None, exc=exc or KeyboardInterrupt)
    lib = seam.shim()
    if f["kind"] == "alloc":
        seam.use_numpy_handler()
        lib.sim_alloc_thread(1)
        lib.sim_alloc_arm(1, f["at"], f["at"])
    fired = 0
    try:
        with lf:
            val = body()
        outcome, err = "ok", None
    except seam.StepCap:
        outcome, err, val = "cap", None, None
    except BaseException as e:
        outcome, err, val = "error", f"{type(e).__name__}: {e}", None
        e.__traceback__ = None
    finally:
        sys.settrace(None)
        if f["kind"] == "alloc":
            fired = lib.sim_alloc_failed()
            lib.sim_alloc_arm(0, -1, -1)
    fired += lf.fired
    if fired:
        ctx.disk.fired[f["kind"]] += fired
    return outcome, err, val


def exec_c02(plan, root, out):
    name = {"sub": "sub/a.dat", "absolute": os.path.join(root, "a.dat")}.get(plan["how"], "a.dat")
    rel = os.path.relpath(os.path.join(root, name), root)
    known = ["a.dat", "real.dat", "sub", "ref"]
    os.makedirs("sub", exist_ok=True)
    if plan["old"]:
        put(rel, T.text(plan["old"]["table"], plan["old"]["style"]))
    if plan["how"] == "symlink":
        if plan["old"]:
            os.rename("a.dat", "real.dat")
        os.symlink("real.dat", "a.dat")
        rel = "real.dat"
    fired_any = 0
    accept = [("old", get(rel))]
    for k, op in enumerate(plan["ops"]):
        w = op
        ref = os.path.join(root, "ref")
        # What this write does when nothing fails, in a directory of its own.
        os.makedirs(ref, exist_ok=True)

        def body():
            os.chdir(ref)
            do_write(w, "a.dat")
        if os.path.exists(rel):
            put("ref/a.dat", b"previous\n")
        c, dry = count_run(root, known, body)
        out.take(c)
        refdata = get(os.path.join(ref, "a.dat"))
        for f in os.listdir(ref):
            os.unlink(os.path.join(ref, f))
        os.rmdir(ref)
        if c.error:
            return
        if dry["err"]:
            out.v("write fails without a fault", f"write {k} raised {dry['err']}")
            return
        why = check_file(refdata, w, name)
        if why and "header says" not in why:
            out.v("fault-free write is wrong", f"write {k}: {why}")
            return
        f = resolve(op["fault"], dry)
        line = f["kind"] in ("interrupt", "memory", "alloc", "power")
        journal = f["kind"] == "power"
        before = get(rel)

        def complete(data):
            """Which allowed content is this?"""
            if data == before:
                return "old"
            if data is None:
                return None
            try:
                h, t, n = T.parse_table(data)
            except ValueError:
                return None
            rh, rt, rn = T.parse_table(refdata)
            if T.same(rt, t) is None and n == rn and len(h) == len(rh):
                return "new"
            return None

        def runner(ctx, spec):
            o, e, _ = faulted_body(f, lambda: do_write(w, name), ctx)
            return dict(outcome=o, err=e)
        c = P.Coordinator(root, [dict(faults=([] if line else [f]) + op["extra"])], runner, known, journal=journal, seed=k).run()
        out.take(c)
        if c.error:
            return
        p = c.procs[0]
        fired = sum(n for kk, n in c.fired.items() if kk not in D.TRANSIENT)
        fired_any += fired + journal
        state = "killed" if p.state == "killed" else "cap" if c.capped else p.res.get("outcome")
        data = get(rel)
        got = complete(data)
        out.note(k, f["kind"], state, got)
        where = f"write {k} ({f['kind']} at {f.get('at')}, {plan['how']} path, {'existing' if before is not None else 'new'} file)"
        if state == "cap":
            out.v("does not finish", where)
        desc = "absent" if data is None else f"{len(data)} bytes: {data[:60]!r}"
        if got is None:
            out.v("destination damaged", f"{where}: {state}; it held {'nothing' if before is None else str(len(before)) + ' bytes'}, "
                                         f"new content has {len(refdata)} bytes, found {desc}")
        if state == "ok" and got != "new" and data != refdata:
            out.v("failure not reported", f"{where}: returned normally but the destination is {desc}")
        if state == "ok" and fired and f.get("sticky") and f["kind"] in ("err_fsync", "err_close"):
            out.v("failure not reported", f"{where}: every {f['kind'][4:]} failed and the write returned normally")
        if state == "error" and not fired:
            out.v("write fails without a fault", f"{where}: {p.res.get('err')}")
        if journal:
            if state in ("ok", "error"):
                for content, at in sorted(P.crash_states(c.journal, rel).items(), key=lambda x: str(x[0])):
                    out.probe("power states examined")
                    if complete(content) is None:
                        op_ = c.journal[at[0]]["op"]
                        out.v("power loss damages destination", f"{where}: after losing power at call {at[0]} ({op_}) the destination can "
                              f"hold {'nothing' if content is None else str(len(content)) + ' bytes'}; old "
                              f"{'absent' if before is None else len(before)}, new {len(refdata)}")
                        break
                out.fired["power_loss"] = out.fired.get("power_loss", 0) + 1
        out.probe(f"{state}, {got} content")
        # The fault is gone: the same write must succeed.
        c = P.Coordinator(root, [dict(faults=[])], lambda ctx, spec: dict(zip(("outcome", "err"), faulted_body(
            dict(kind="none"), lambda: do_write(w, name), ctx)[:2])), known, seed=f"{k}r").run()
        out.take(c)
        if c.error:
            return
        p = c.procs[0]
        if c.capped or p.res.get("outcome") != "ok":
            out.v("retry fails", f"{where}: the same write again: {(p.res or {}).get('err') or (p.res or {}).get('outcome')}")
        elif complete(get(rel)) != "new" and get(rel) != refdata:
            out.v("retry fails", f"{where}: the same write again returned but the content is wrong")
        if out.viol:
            return
    out.nontrivial = fired_any > 0


# ------------------------------------------------------------------ C03

def short(t):
    return hashlib.sha1(json.dumps(sorted((list(k), [("%.6e" % (x.real + 0.0), "%.6e" % (x.imag + 0.0)) for x in v]) for k, v in t.items())).encode()).hexdigest()[:12]


def read_damaged(plan, data, rw, root, out):
    """Reading a file in which a digit of a coefficient has become a byte that is no text."""
    places = []
    at = 0
    for ln in data.splitlines(keepends=True):
        tok = ln.split()
        try:
            float(tok[2]), float(tok[3]), int(tok[0]), int(tok[1])
            places += [at + i for i in range(ln.index(tok[2], len(ln) - len(ln.lstrip()) + len(tok[0]) + len(tok[1])), len(ln.rstrip())) if ln[i:i + 1].isdigit()]
        except (IndexError, ValueError):
            pass
        at += len(ln)
    b = bytearray(data)
    b[places[int(plan["bad"][0] * len(places))]] = plan["bad"][1]
    put("a.dat", bytes(b))
    snap = D.snapshot(root)

    def runner(ctx, spec):
        o, e, val = faulted_body(dict(kind="none"), lambda: rw.read_magnetogram_file("a.dat"), ctx)
        return dict(outcome=o, err=e, n=val.size if o == "ok" else None)
    c = P.Coordinator(root, [dict(faults=plan["extra"])], runner, ["a.dat"]).run()
    out.take(c)
    if c.error:
        return
    res = c.procs[0].res or dict(outcome="cap", n=None)
    out.fired["damaged byte"] = 1
    out.note("damaged", res["outcome"])
    if res["outcome"] != "error":
        out.v("partial read", f"a byte of a coefficient is {plan['bad'][1]:#x}, which is no text, and the read {res['outcome']}: {res['n']} entries")
    if D.snapshot(root) != snap:
        out.v("reading changes files", "damaged file")
    out.nontrivial = True
    out.probe("damaged file")


def exec_c03(plan, root, out):
    shc, rw = mods()
    if plan["mode"] == "read":
        want = T.stored(plan["table"], plan["style"])
        data = T.text(plan["table"], plan["style"])
        if plan.get("bad"):
            return read_damaged(plan, data, rw, root, out)
        put("a.dat", data)
        put("other.dat", b"other\n")
        import logging
        logging.getLogger("starwinds_magnetogram").setLevel(logging.DEBUG if plan["verbose"] else logging.WARNING)
        snap = D.snapshot(root)
        c, dry = count_run(root, ["a.dat"], lambda: rw.read_magnetogram_file("a.dat"))
        out.take(c)
        if c.error:
            return
        if dry["err"]:
            out.v("read fails without a fault", dry["err"])
            return
        f = resolve(plan["fault"], dry) if plan["fault"]["kind"] != "none" else dict(kind="none")
        line = f["kind"] in ("interrupt", "memory", "alloc", "none")

        def runner(ctx, spec):
            o, e, val = faulted_body(f, lambda: rw.read_magnetogram_file("a.dat"), ctx)
            diff = None
            if o == "ok":
                diff = T.same(want, T.observe(val))
            return dict(outcome=o, err=e, diff=diff)
        c = P.Coordinator(root, [dict(faults=([] if line else [f]) + plan["extra"])], runner, ["a.dat"]).run()
        out.take(c)
        if c.error:
            return
        res = c.procs[0].res or dict(outcome="cap")
        fired = sum(n for kk, n in c.fired.items() if kk not in D.TRANSIENT)
        where = f"{f['kind']} at {f.get('at')}"
        out.note(where, res["outcome"])
        if res["outcome"] == "cap":
            out.v("does not finish", where)
        if res["outcome"] == "ok" and res["diff"]:
            out.v("partial read", f"{where}: the read returned normally but {res['diff']}")
        if res["outcome"] == "error" and not fired:
            out.v("read fails without a fault", f"{where}, {plan['extra']}: {res['err']}")
        if D.snapshot(root) != snap:
            out.v("reading changes files", where)
        # and afterwards it reads back in full
        c, again = count_run(root, ["a.dat"], lambda: rw.read_magnetogram_file("a.dat"))
        out.take(c)
        if again and again["err"]:
            out.v("read fails without a fault", "after the fault: " + again["err"])
        out.nontrivial = bool(sum(c.fired.values()) or fired or sum(out.fired.values()))
        out.probe(f"{res['outcome']}")
        return
    versions, initial = {}, {}
    for i, (name, old) in enumerate(zip(plan["files"], plan["old"])):
        initial[i] = None
        if old:
            put(name, T.text(old, dict(header=2)))
            initial[i] = short(T.table(old))
            versions[initial[i]] = "initial"
    for pi, p in enumerate(plan["procs"]):
        for oi, o in enumerate(p["ops"]):
            if o["op"] == "w":
                o["table"] = dict(deg=o["deg"], comps=o["comps"], style="dense", seed=o["seed"])
                o["dmax"], o["omin"], o["hdr"] = None, 0, False
                o["ver"] = short(T.requested(o["table"], None, 0))
                versions[o["ver"]] = f"write {oi} of process {pi}"

    def runner(ctx, spec):
        for oi, o in enumerate(spec["ops"]):
            ctx.event("call", i=oi, op=o["op"], f=o["f"], v=o.get("ver"))
            name = plan["files"][o["f"]]
            try:
                with seam.LineFault():
                    if o["op"] == "w":
                        do_write(o, name)
                        ctx.event("return", i=oi, ok=True)
                    else:
                        t = T.observe(rw.read_magnetogram_file(name))
                        sys.settrace(None)
                        ctx.event("return", i=oi, ok=True, v=short(t), n=len(t))
            except seam.StepCap:
                raise
            except Exception as e:
                sys.settrace(None)
                absent = isinstance(e, FileNotFoundError)
                ctx.event("return", i=oi, ok=False, err=type(e).__name__, absent=absent, msg=str(e)[:80])
        return {}
    c = P.Coordinator(root, plan["procs"], runner, ["a.dat", "b.dat"], schedule=plan.get("schedule"), policy=plan.get("policy")).run()
    out.take(c)
    if c.error:
        return
    if c.capped or any(p.res and p.res.get("cap") for p in c.procs):
        out.v("does not finish", "concurrent readers and writers exceeded the step budget")
    pend, ops = {}, {i: [] for i in range(len(plan["files"]))}
    readonly = set(range(len(plan["files"])))
    for seq, tid, m in c.history:
        if m["kind"] == "call":
            pend[tid] = (seq, m)
            if m["op"] == "w":
                readonly.discard(m["f"])
        elif m["kind"] == "killed":
            if tid in pend:
                s, q = pend.pop(tid)
                if q["op"] == "w":
                    ops[q["f"]].append((s, None, "w", q["v"]))
        else:
            s, q = pend.pop(tid)
            anyfault = any(k not in D.TRANSIENT for k in c.fired)
            if q["op"] == "w":
                ops[q["f"]].append((s, seq if m["ok"] else None, "w", q["v"]))
                if not m["ok"] and not anyfault:
                    out.v("write fails without a fault", f"process {tid}: {m['err']} {m['msg']}")
            elif m["ok"]:
                if m["v"] not in versions:
                    out.v("torn read", f"process {tid} read {plan['files'][q['f']]} while others wrote it and got {m['n']} entries that "
                                       f"are no version that was ever written")
                ops[q["f"]].append((s, seq, "r", m["v"]))
            elif m["absent"]:
                ops[q["f"]].append((s, seq, "r", None))
            elif not anyfault:
                out.v("torn read", f"process {tid}: reading raised {m['err']} {m['msg']}")
    for i, hist in ops.items():
        if not out.viol and not P.linearizable(hist, initial[i]):
            out.v("not an atomic register", f"{plan['files'][i]}: no order of the operations explains {hist}; initially {initial[i]}")
        out.probe("histories checked")
    out.nontrivial = c.switches > 0
    out.extra = dict(schedule=c.recorded)


def execute(prop, plan, root):
    out = Out()
    out.extra = {}
    {"C01": exec_c01, "C02": exec_c02, "C03": exec_c03}[prop](plan, root, out)
    return out.result(**out.extra)


def simplify(prop, plan):
    import copy

    def walk(x, path=()):
        if isinstance(x, dict):
            if "deg" in x and "seed" in x:
                yield path
            for k, v in x.items():
                yield from walk(v, path + (k,))
        elif isinstance(x, list):
            for i, v in enumerate(x):
                yield from walk(v, path + (i,))
    for path in list(walk(plan)):
        for key, vals in (("deg", (1, 2, 3)), ("comps", (1,)), ("style", ("dense",)), ("range", ("normal",))):
            q = copy.deepcopy(plan)
            t = q
            for p in path:
                t = t[p]
            for v in vals:
                if key in t and t[key] != v and not (key == "deg" and v > t[key]):
                    t[key] = v
                    yield copy.deepcopy(q)
    for i, o in enumerate(plan.get("ops", [])):
        for key, v in (("hdr", False), ("dmax", None), ("omin", 0), ("extra", [])):
            if key in o and o[key] != v:
                q = copy.deepcopy(plan)
                q["ops"][i][key] = v
                yield q
    if plan.get("how") not in (None, "plain"):
        q = copy.deepcopy(plan)
        q["how"] = "plain"
        yield q
