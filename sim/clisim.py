"""The converter command under faults: C04 harms no other file, C05 success means a correct output, C06 derived names."""
import copy
import io
import logging
import math
import os
import shutil
import sys

from . import disk as D
from . import procs as P
from . import seam
from . import tables as T
from .fsim import Out, faulted_body, put, get, resolve, transient

RUNS = {"C04": (900, 30000), "C05": (700, 25000), "C06": (700, 25000)}
LEVEL = {"C04": "fault_enumeration", "C05": "exploration", "C06": "exploration"}
RULE = {
    "C04": "A run is a few converter commands over a disk with links, aliases and bystanders, each under at most one hard fault or "
           "kill; same if the event logs are the same; trivial if no fault fired and no two names of one file were used.",
    "C05": "A run is a chain of converter commands working on each other's outputs under transient and hard faults; same if the event "
           "logs are the same; trivial if no command succeeded.",
    "C06": "A run is two or more converter commands (at once or in turn) without an output name in one directory under a random "
           "schedule; same if the event logs are the same; trivial if no switch happened and only one command ran.",
}
REAL = ["starwinds_magnetogram.bin.convert_magnetogram (main, with argparse), .reader_writer, .converter, .coefficients (from /repo)",
        "CPython I/O stack, numpy, scipy", "libc down to the system call"]
STUB = ["process start (a forked interpreter that has the package imported)", "scheduling of processes",
        "outcome and length of file system calls", "clock, entropy, process ids"]
ASSUME = ["commands run as root, so permission refusals are injected errors, not real ones"]


def warm(prop):
    import numpy  # noqa
    from starwinds_magnetogram.bin import convert_magnetogram  # noqa
    seam.package_dir()
    seam.quiet_warnings()
    logging.disable(logging.NOTSET)


# ------------------------------------------------------------------ plans

OPTS = dict(mode=("zdi", "zdi", "pfss", "none"), verb=(None, None, "-q", "-v"))


def rand_cmd(r, inp, out, deg, comps=None, mode=None):
    return dict(inp=inp, out=out, mode=mode or r.choice(OPTS["mode"]),
                dmax=r.choice((None, None, None, deg, deg + 1, deg + 3, max(0, deg - 1), 0)),
                nohdr=r.random() < 0.3, verb=r.choice(OPTS["verb"]), both=r.random() < 0.05)


HARD = ("kill", "kill", "kill", "enospc", "eio_write", "err_open", "err_close", "err_fsync", "err_rename", "err_stat", "eio_read",
        "err_unlink", "interrupt", "memory", "alloc")


def rand_fault(r, kinds=HARD):
    k = r.choice(kinds)
    f = dict(kind=k, pos=r.random())
    if k == "kill":
        f["after"] = r.random() < 0.3
        if r.random() < 0.4:
            f["torn"] = r.choice((0.0, 0.3, 0.8, 0.999))
    elif k not in ("interrupt", "memory", "alloc"):
        f["sticky"] = r.random() < 0.4
    return f


def small(r, comps=None):
    return T.rand_spec(r, comps=comps, deg=r.choice((0, 1, 2, 3, 4, 6, 9)))


def gen(prop, r, i, tier):
    return {"C04": gen_c04, "C05": gen_c05, "C06": gen_c06}[prop](r, i)


def gen_c04(r, i):
    spec = small(r)
    world = [dict(path="in.dat", kind="table", table=spec, style=T.rand_style(r)),
             dict(path="bystander.dat", kind="table", table=small(r), style=T.rand_style(r)),
             dict(path="sub/in.dat", kind="table", table=small(r), style=T.rand_style(r)),
             dict(path="notes.txt", kind="junk")]
    extra = [dict(path="link.dat", kind="link", to="in.dat"), dict(path="abs.dat", kind="link", to="{root}/in.dat"),
             dict(path="chain.dat", kind="link", to="link.dat"), dict(path="hard.dat", kind="hard", to="in.dat"),
             dict(path="here", kind="link", to="."), dict(path="dl", kind="link", to="sub"),
             dict(path="sub/up.dat", kind="link", to="../in.dat"), dict(path="dangling.dat", kind="link", to="fresh.dat"),
             dict(path="sub/hard2.dat", kind="hard", to="sub/in.dat"), dict(path="bylink.dat", kind="link", to="bystander.dat"),
             dict(path="loop.dat", kind="link", to="loop.dat"), dict(path="void.dat", kind="link", to="nowhere/in.dat"),
             dict(path="tricky.dat", kind="link", to="nowhere/../in.dat"),
             dict(path="in_wso.dat", kind="junk"), dict(path="in_zdi.dat", kind="link", to="in.dat"),
             dict(path="in_wso.dat", kind="link", to="later.dat")]
    seen = {w["path"] for w in world}
    for w in r.sample(extra, r.choice((2, 4, 8, len(extra)))):
        if w["path"] not in seen:
            seen.add(w["path"])
            world.append(w)
    have = seen | {"in.dat"}
    same = [p for p in ("in.dat", "./in.dat", "{root}/in.dat", "sub/../in.dat", "../d/in.dat", ".//in.dat", "link.dat", "abs.dat",
                        "chain.dat", "hard.dat", "here/in.dat", "here/link.dat", "sub/up.dat", "dl/up.dat", "{root}/sub/../in.dat",
                        "dl/../in.dat", "here/here/hard.dat", "{root}/../d/in.dat")
            if all(q in have or q in ("..", ".", "", "d", "{root}", "sub", "in.dat") for q in [p, p.split("/")[0], p.split("/")[-1]]
                   if q not in ("sub/../in.dat",) and "/" not in q)]
    other = ["out.dat", "sub/out.dat", "{root}/out.dat", "dangling.dat", "sub", "nowhere/out.dat", "nowhere/../in.dat", "bystander.dat",
             "bylink.dat", "sub/in.dat", "dl/in.dat", "hard.dat", "sub/hard2.dat", "loop.dat", "void.dat", "tricky.dat", "", "/dev/null",
             "in.dat/", "in.dat/x", "Z" * 250 + ".dat", "out put.dat", "out"]
    ops = []
    for _ in range(r.choice((1, 1, 2, 3))):
        inp = r.choice(same) if r.random() < 0.7 else r.choice(("sub/in.dat", "bystander.dat", "missing.dat", "notes.txt", "sub"))
        k = r.random()
        out = r.choice(same) if k < 0.45 else None if k < 0.65 else r.choice(other)
        c = rand_cmd(r, inp, out, spec["deg"])
        if r.random() < 0.15:
            c["cwd"] = r.choice(("sub", "here", "dl"))
        c["fault"] = rand_fault(r) if r.random() < 0.6 else None
        c["extra"] = transient(r, r.choice((0, 0, 1)))
        c["ambush"] = r.choice(("file", "file", "hard", "link")) if r.random() < 0.3 else None
        ops.append(c)
    return dict(world=world, ops=ops)


def gen_c05(r, i):
    world, names = [dict(path="sub/notes", kind="junk")], []
    for k in range(r.choice((1, 1, 2))):
        s = small(r, comps=r.choice((1, 3, 3, 1, 2)))
        n = r.choice(("in%d.dat", "star%d.txt", "sub/mag%d", "a.b%d.c")) % k
        world.append(dict(path=n, kind="table", table=s, style=T.rand_style(r)))
        names.append((n, s["deg"], s["comps"]))
    if i % 40 == 5:
        world[1]["table"].update(deg=r.choice((25, 40)), comps=1)
    ops = []
    for _ in range(r.choice((1, 2, 3, 4))):
        n, deg, comps = r.choice(names)
        mode = r.choice(("zdi", "zdi", "pfss", "none")) if comps == 1 else r.choice(("zdi", "zdi", "zdi", "pfss"))
        k = r.random()
        out = r.choice(("o1.dat", "o2.dat", "o1.dat", "sub/o3.dat", "{root}/o4")) if k < 0.85 else None
        if out == n or (out and out.endswith("/" + n)):
            out = "other_" + os.path.basename(n)
        c = rand_cmd(r, n, out, deg, mode=mode)
        c["both"] = False
        c["fault"] = rand_fault(r) if r.random() < 0.45 else None
        c["extra"] = transient(r, r.choice((0, 0, 1, 2)))
        ops.append(c)
        if out:
            names.append((out, deg if c["dmax"] is None else c["dmax"], 3 if mode == "pfss" else 1))
    return dict(world=world, ops=ops)


def gen_c06(r, i):
    world = [dict(path="a/in.dat", kind="table", table=small(r, comps=r.choice((1, 3))), style=T.rand_style(r)),
             dict(path="b/in.dat", kind="table", table=small(r, comps=r.choice((1, 3))), style=T.rand_style(r)),
             dict(path="in.dat", kind="table", table=small(r, comps=1), style=T.rand_style(r)),
             dict(path="c/star.txt", kind="table", table=small(r, comps=1), style=T.rand_style(r)), dict(path="notes", kind="junk")]
    k = r.random()
    if k < 0.25:
        world.append(dict(path=r.choice(("in_wso.dat", "in_wso.dat", "in_zdi.dat", "star_wso.txt")), kind="table", table=small(r),
                          style=T.rand_style(r)))
    elif k < 0.35:
        world.append(dict(path="in_wso.dat", kind="link", to=r.choice(("notes", "in.dat", "missing"))))
    elif k < 0.4:
        world.append(dict(path="in_wso.dat", kind="dir"))
    elif k < 0.65:
        # What earlier runs, other programs and users leave behind.
        w = dict(path=r.choice(("in_wso.dat", "in_wso.dat", "in_zdi.dat", "star_wso.txt")), kind=r.choice(("bytes", "bytes", "bytes", "old", "special")))
        if w["kind"] == "bytes":
            w["text"] = r.choice(("", "", "\n", " ", "title\n1 1 0\n", "1 0 1.0 2.0\n1 1 3.0", "#", "\0" * 64, "l m real imag\n"))
        elif w["kind"] == "old":
            w.update(kind="table", table=small(r), style=T.rand_style(r))
        else:
            w["kind"] = r.choice(("dir", "fifo", "hard"))
            w["to"] = "in.dat"
        if w["kind"] not in ("hard", "fifo"):
            w["mtime"] = r.choice((0, 1, 1_000_000_000, 4_000_000_000))
            w["mode"] = r.choice((0o644, 0o644, 0o444, 0o400, 0o000, 0o200))
        world.append(w)
    if r.random() < 0.1:
        world[0]["table"].update(deg=15, comps=1, style="from1")
    rounds = []
    for _ in range(r.choice((1, 1, 2))):
        procs = []
        same = r.random() < 0.7
        base = r.choice(("a/in.dat", "in.dat"))
        for _ in range(r.choice((2, 2, 3, 4)) if r.random() < 0.8 else 1):
            inp = base if same and r.random() < 0.6 else r.choice(("a/in.dat", "b/in.dat", "in.dat", "{root}/a/in.dat", "c/star.txt", "./in.dat"))
            deg = 3
            c = rand_cmd(r, inp, None, deg, mode=r.choice(("zdi", "zdi", "none", "pfss") if inp.endswith(("in.dat", "star.txt")) else ("zdi",)))
            c["both"] = False
            if r.random() < 0.1:
                c["out"] = r.choice(("x1.dat", "x2.dat"))
            c["faults"] = transient(r, r.choice((0, 0, 0, 1)))
            procs.append(c)
        k = r.random()
        if k < 0.3:
            f = r.choice(("kill", "kill", "eio_write", "enospc", "err_open", "err_rename", "err_fsync", "err_close", "err_stat"))
            q = dict(kind=f, at=r.choice((1, 1, 2, 3, 4, 5)))
            if f == "kill":
                q["after"] = r.random() < 0.5
            r.choice(procs)["faults"].append(q)
        elif k < 0.4:
            for c in procs:      # a disk that knows no hard links
                c["faults"].append(dict(kind="no_link", at=1, sticky=True))
        rounds.append(dict(procs=procs, policy=dict(seed=r.getrandbits(40), p=r.choice((0.1, 0.3, 0.6, 0.9))), schedule=None))
    return dict(world=world, history=rounds)


# ------------------------------------------------------------------ execution

def build(root, world):
    late = []
    for w in world:
        p = os.path.join(root, w["path"])
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if w["kind"] == "table":
            put(p, T.text(w["table"], w["style"]))
        elif w["kind"] == "junk":
            put(p, b"remember the milk\n")
        elif w["kind"] == "bytes":
            put(p, w["text"].encode())
        elif w["kind"] == "fifo":
            os.mkfifo(p)
        elif w["kind"] == "dir":
            os.makedirs(p)
        else:
            late.append((p, w))
        if "mtime" in w:
            os.utime(p, (w["mtime"], w["mtime"]))
            os.chmod(p, w["mode"] | (0o111 if w["kind"] == "dir" else 0))
    for p, w in late:
        to = w["to"].replace("{root}", root)
        if w["kind"] == "link":
            os.symlink(to, p)
        elif os.path.exists(os.path.join(root, to)):
            os.link(os.path.join(root, to), p)


def save(root):
    """What is needed to put the disk back exactly, hard links included."""
    out, first = [], {}
    for d, dirs, files in os.walk(root):
        for n in sorted(dirs) + sorted(files):
            p = os.path.join(d, n)
            st = os.lstat(p)
            if os.path.islink(p):
                out.append(("link", p, os.readlink(p)))
            elif os.path.isdir(p):
                out.append(("dir", p, None))
            elif st.st_ino in first:
                out.append(("hard", p, first[st.st_ino]))
            else:
                first[st.st_ino] = p
                with open(p, "rb") as f:
                    out.append(("file", p, f.read()))
    return out


def restore(root, saved):
    for n in os.listdir(root):
        p = os.path.join(root, n)
        if os.path.isdir(p) and not os.path.islink(p):
            shutil.rmtree(p)
        else:
            os.unlink(p)
    for kind, p, x in saved:
        if kind == "dir":
            os.makedirs(p, exist_ok=True)
    for kind, p, x in saved:
        if kind == "file":
            put(p, x)
    for kind, p, x in saved:
        if kind == "hard":
            os.link(x, p)
        elif kind == "link":
            os.symlink(x, p)


def argv(c, root):
    a = [c["inp"].replace("{root}", root)]
    if c["out"] is not None:
        a.append(c["out"].replace("{root}", root))
    if c["dmax"] is not None:
        a += ["--degree-max", str(c["dmax"])]
    if c["mode"] == "pfss":
        a.append("--pfss-to-zdi")
    if c["mode"] == "none":
        a.append("--no-conversion")
    if c["both"]:
        a += ["--pfss-to-zdi", "--no-conversion"]
    if c["nohdr"]:
        a.append("--no-header")
    if c["verb"]:
        a.insert(0, c["verb"])
    return a


def command(c, root):
    """One command as the shell would run it: (exit status, standard error)."""
    from starwinds_magnetogram.bin import convert_magnetogram
    import traceback
    sys.argv = ["sw-convert-magnetogram"] + argv(c, root)
    err = io.StringIO()
    sys.stderr, sys.stdout = err, io.StringIO()
    try:
        try:
            sys.exit(convert_magnetogram.main())
        except SystemExit as e:
            if e.code is None:
                st = 0
            elif isinstance(e.code, int):
                st = e.code & 255
            else:
                err.write(str(e.code))
                st = 1
        except seam.StepCap:
            raise
        except BaseException as e:
            sys.settrace(None)
            err.write("".join(traceback.format_exception_only(type(e), e)))
            e.__traceback__ = None
            st = 130 if isinstance(e, KeyboardInterrupt) else 1
    finally:
        sys.stderr, sys.stdout = sys.__stderr__, sys.__stdout__
    return st, err.getvalue()


KNOWN = ("in.dat", "bystander.dat", "notes.txt", "sub", "link.dat", "abs.dat", "chain.dat", "hard.dat", "here", "dl", "up.dat", "dangling.dat",
         "fresh.dat", "hard2.dat", "bylink.dat", "loop.dat", "void.dat", "tricky.dat", "in_wso.dat", "in_zdi.dat", "later.dat", "out.dat",
         "out", "out put.dat", "missing.dat", "in0.dat", "in1.dat", "star0.txt", "star1.txt", "mag0", "mag1", "a.b0.c", "a.b1.c", "o1.dat",
         "o2.dat", "o3.dat", "o4", "a", "b", "c", "star.txt", "star_wso.txt", "star_zdi.txt", "notes", "x1.dat", "x2.dat", "d")


def count_cmd(c, root):
    def runner(ctx, spec):
        enter(c, root)
        lf = seam.LineFault()
        seam.use_numpy_handler()
        lib = seam.shim()
        lib.sim_alloc_thread(1)
        lib.sim_alloc_arm(1, -1, -1)
        try:
            with lf:
                st, err = command(c, root)
        finally:
            sys.settrace(None)
            lib.sim_alloc_arm(0, -1, -1)
        return dict(n={str(k): v for k, v in ctx.disk.n.items()}, touched=ctx.disk.touched, lines=lf.n, status=st, err=err[-300:], allocs=lib.sim_alloc_count())
    co = P.Coordinator(root, [dict(faults=[])], runner, KNOWN, seed="dry").run()
    return co, co.procs[0].res


def enter(c, root):
    if c.get("cwd"):
        os.chdir(c["cwd"])


def run_cmd(c, root, fault, extra, seed):
    """Run one command; returns (coordinator, "killed"/"cap"/exit status, standard error)."""
    line = fault is None or fault["kind"] in ("interrupt", "memory", "alloc")

    def runner(ctx, spec):
        enter(c, root)
        o, e, val = faulted_body(fault or dict(kind="none"), lambda: command(c, root), ctx)
        if o == "cap":
            return dict(status="cap", err="")
        if o == "error":
            # A failed allocation or an interrupt that hit the harness' own shell part.
            return dict(status=1, err=e)
        return dict(status=val[0], err=val[1][-400:].replace(root, "{root}"))
    co = P.Coordinator(root, [dict(faults=([] if line else [fault]) + extra)], runner, KNOWN, seed=seed).run()
    p = co.procs[0]
    return co, ("killed" if p.state == "killed" else "cap" if co.capped else p.res.get("status")), (p.res or {}).get("err", "")


def factor(l, m):
    return math.sqrt(2 * l + 1) / ((-1) ** (m % 2) * math.sqrt(1 if m == 0 else 2) * math.sqrt(4 * math.pi))


def expected(c, data):
    """The table the output must hold, or None when the command has to refuse the input."""
    h, t, n = T.parse_table(data, strict=False)
    comps = len(next(iter(t.values())))
    mode = "none" if c["mode"] == "none" or c["both"] else c["mode"]
    if mode != "zdi" and comps != 1:
        return None
    src = {}
    for (l, m), v in t.items():
        if mode == "none":
            src[(l, m)] = [v[0]]
        elif mode == "zdi":
            src[(l, m)] = [v[0] * factor(l, m)]
        else:
            a = v[0] / factor(l, m)
            b = a * (l + 1) * (1 - 3.0 ** -(2 * l + 1)) / (l + 1 + l * 3.0 ** -(2 * l + 1))
            src[(l, m)] = [a, b, 0j]
    z = [0j] * (3 if mode == "pfss" else 1)
    d = max(l for l, m in t) if c["dmax"] is None else c["dmax"]
    return {(l, m): src.get((l, m), z) for l in range(0, d + 1) for m in range(0, l + 1)}


def check_output(c, data, want):
    if data is None:
        return "the output does not exist"
    try:
        header, got, n = T.parse_table(data)
    except ValueError as e:
        return f"the output is malformed: {e}"
    d = T.same(want, got)
    if d:
        return d
    swmf = None
    try:
        swmf = int(header[2].split()[0]), int(header[3].split()[0])
    except (IndexError, ValueError):
        pass
    asked = not c["nohdr"] and (c["mode"] != "pfss" or c["both"])
    if asked and swmf is None:
        return f"the output has no SWMF header: {header[:5]}"
    if not asked and swmf is not None:
        return "the output has an SWMF header that was not asked for"
    if swmf is not None and swmf != (n, max(l for l, m in got)):
        return f"the header says {swmf[0]} lines and degree {swmf[1]}, the body has {n} and {max(l for l, m in got)}"
    return None


def derived(c):
    b, e = os.path.splitext(os.path.basename(c["inp"]))
    return b + ("_zdi" if c["mode"] == "pfss" and not c["both"] else "_wso") + e


def out_path(c, root):
    return (c["out"] if c["out"] is not None else derived(c)).replace("{root}", root)


def stat(p):
    try:
        s = os.stat(p)
        return (s.st_dev, s.st_ino)
    except OSError:
        return None


def within(c, root, p):
    return os.path.join(root, c.get("cwd") or "", p)


def execute(prop, plan, root):
    out = Out()
    out.extra = {}
    build(root, plan["world"])
    {"C04": exec_chain, "C05": exec_chain, "C06": exec_c06}[prop](prop, plan, root, out)
    return out.result(**out.extra)


def ambush(c, root, out):
    """Other people's files under the names this command uses besides its output (as far as they can be known)."""
    saved = save(root)
    co, dry = count_cmd(c, root)
    out.take(co)
    restore(root, saved)
    if co.error:
        return False
    dst = os.path.realpath(within(c, root, out_path(c, root)))
    for n in dry.get("touched", ()):
        p = os.path.join(root, n)
        if os.path.lexists(p) or os.path.realpath(p) == dst or not os.path.isdir(os.path.dirname(p)):
            continue
        if c["ambush"] == "file":
            put(p, b"remember the milk\n")
        elif c["ambush"] == "hard" and os.path.isfile(os.path.join(root, "in.dat")):
            os.link(os.path.join(root, "in.dat"), p)
        else:
            os.symlink(os.path.relpath(os.path.join(root, "in.dat"), os.path.dirname(p)), p)
        out.probe("file put where the command works")
    return True


def exec_chain(prop, plan, root, out):
    interesting = 0
    for k, c in enumerate(plan["ops"]):
        if c.get("cwd") and not os.path.isdir(c["cwd"]):
            c["cwd"] = None
        if c.get("ambush") and not ambush(c, root, out):
            return
        saved = save(root)
        before = D.snapshot(root)
        inp, dst = within(c, root, c["inp"].replace("{root}", root)), within(c, root, out_path(c, root))
        f = None
        dry = None
        if c["fault"]:
            co, dry = count_cmd(c, root)
            out.take(co)
            if co.error:
                return
            restore(root, saved)
            f = resolve(c["fault"], dry)
        ident, di = stat(inp), stat(dst)
        same = ident is not None and ident == di
        # Pre-existing names of the named output: itself, what its links lead to, and its other hard links.
        named, where_to = set(), os.path.dirname(dst)
        if os.path.isdir(where_to):
            named = {os.path.relpath(os.path.join(os.path.realpath(where_to), os.path.basename(dst)), root)}
        if di is not None:
            named |= {r for r in before if stat(os.path.join(root, r)) == di and before[r][0] == "file"}
        data = get(inp) if ident is not None and os.path.isfile(inp) else None
        want = None
        try:
            want = expected(c, data) if data is not None else None
        except (ValueError, StopIteration):
            want = None
        existed = os.path.lexists(dst)
        innames = input_names(saved, root, inp) if ident is not None else set()
        co, status, err = run_cmd(c, root, f, c["extra"], k)
        out.take(co)
        if co.error:
            return
        after = D.snapshot(root)
        fired = sum(n for kk, n in co.fired.items() if kk not in D.TRANSIENT)
        cmd = "convert " + " ".join(argv(c, "{root}")) + (f" in {c['cwd']}" if c.get("cwd") else "") + (f" [{f['kind']} at {f['at']}]" if f else "")
        where = f"command {k}: {cmd}: " + (f"exit {status}" if isinstance(status, int) else str(status))
        out.note(where)
        out.probe("exit 0" if status == 0 else "killed" if status == "killed" else "exit nonzero")
        if status == "cap":
            out.v("does not finish", where)
            return
        interesting += bool(fired) or (same and prop == "C04") or (status == 0 and prop == "C05")
        if prop == "C04":
            if same:
                out.probe("input and output are one file")
                if status == 0:
                    out.v("same file accepted", where)
            for r in sorted(before):
                if before[r] == after.get(r):
                    continue
                isin = r in innames
                if r in named and not same:
                    if c["out"] is None:
                        out.v("derived name overwritten", f"{where}: {r} existed and changed")
                    continue
                what = "removed" if r not in after else "changed"
                out.v("input altered" if isin or same else "bystander altered", f"{where}: {r} was {what}")
        else:
            if status == 0:
                why = "the command should have refused" if want is None else check_output(c, get(dst), want)
                if why:
                    out.v("wrong success", f"{where}: {why}")
            elif status != "killed":
                if not err.strip():
                    out.v("failure without message", where)
                refuse = want is None or same or (c["out"] is None and existed)
                if not fired and not refuse:
                    out.v("valid command fails", f"{where}: {err}")
            if not out.viol and want is not None and (fired or status != 0) and not same:
                # The fault is gone: once more.
                refuse = c["out"] is None and os.path.lexists(dst)
                co, status2, err2 = run_cmd(c, root, None, [], f"{k}r")
                out.take(co)
                if co.error:
                    return
                if refuse and status2 == 0:
                    out.v("derived name overwritten", f"{where}; then again: exit 0")
                if not refuse:
                    why = f"exit {status2} {err2}" if status2 != 0 else check_output(c, get(dst), want)
                    if why:
                        out.v("does not recover", f"{where}; the same command again: {why}")
                out.probe("recoveries checked")
        if out.viol:
            return
    out.nontrivial = interesting > 0


def input_names(saved, root, inp):
    """Names (relative) of the file the input name denoted before the command."""
    real = os.path.realpath(inp)
    head = {p: (x if kind == "hard" else p) for kind, p, x in saved if kind in ("hard", "file")}
    return {os.path.relpath(p, root) for p in head if head[p] == head.get(real, real)}


# ------------------------------------------------------------------ C06

def occupied(p):
    return os.path.exists(p) or (os.path.lexists(p) and not os.path.islink(p))


def exec_c06(prop, plan, root, out):
    D.CLASS["no_link"] = (D.LINK,)
    recorded = []
    for k, rd in enumerate(plan["history"]):
        before = D.snapshot(root)
        for c in rd["procs"]:
            for f in c["faults"]:
                if f["kind"] == "no_link":
                    f["errno"] = 1      # EPERM
        # A link that leads nowhere is a name without a file: refusing it and creating the file it leads to are both right.
        existed = {derived(c): occupied(os.path.join(root, derived(c))) for c in rd["procs"]}

        def runner(ctx, c):
            o, e, val = faulted_body(dict(kind="none"), lambda: command(c, root), ctx)
            if o == "cap":
                return dict(status="cap", err="")
            if o == "error":
                return dict(status=1, err=e)
            return dict(status=val[0], err=val[1][-300:].replace(root, "{root}"))
        co = P.Coordinator(root, rd["procs"], runner, KNOWN, schedule=rd.get("schedule"), policy=rd.get("policy"), seed=k).run()
        out.take(co)
        recorded.append(co.recorded)
        if co.error:
            return
        if co.capped:
            out.v("does not finish", f"round {k}")
            return
        after = D.snapshot(root)
        status = ["killed" if p.state == "killed" else p.res.get("status") for p in co.procs]
        cmds = [" ".join(argv(c, "{root}")) for c in rd["procs"]]
        out.note(k, status)
        story = "; ".join(f"'{a}' -> {s}" for a, s in zip(cmds, status))
        by = {}
        for c, s, p in zip(rd["procs"], status, co.procs):
            if s == "cap":
                out.v("does not finish", story)
            if c["out"] is None:
                by.setdefault(derived(c), []).append((c, s, p.res))
        for r in sorted(before):
            if before[r] != after.get(r) and not any(c["out"] == r for c in rd["procs"]):
                out.v("existing file overwritten" if r in existed else "other file altered", f"round {k}: {r}: {story}")
        for name, lst in sorted(by.items()):
            won = [c for c, s, _ in lst if s == 0]
            for c, s, res in lst:
                if s not in (0, "killed") and not (res.get("err") or "").strip():
                    out.v("failure without message", f"round {k}: {name}: {story}")
            if existed[name]:
                if won:
                    out.v("existing file overwritten", f"round {k}: {name} existed, yet {len(won)} commands reported success: {story}")
                out.probe("existing name refused")
                continue
            if len(won) > 1:
                out.v("two winners", f"round {k}: {len(won)} commands report that they created {name}: {story}")
            data = get(os.path.join(root, name)) if os.path.isfile(os.path.join(root, name)) else None
            wants = []
            for c, s, res in lst:
                src = get(os.path.join(root, c["inp"].replace("{root}", root)))
                w = expected(c, src)
                if w is not None and (s == 0 or (not won and data is not None)):
                    wants.append((c, w))
                if s == 0 and w is None:
                    out.v("wrong success", f"round {k}: {name}: {story}")
            if won or data is not None:
                why = [check_output(c, data, w) for c, w in wants]
                if all(why):
                    nl = any(f["kind"] == "no_link" for c, s, _ in lst for f in c["faults"])
                    if not (nl and not won and data == b""):
                        out.v("survivor incomplete", f"round {k}: {name}: {'; '.join(filter(None, why))[:200]}: {story}")
            out.probe(f"{len(lst)} for one name, {len(won)} won")
        if out.viol:
            break
    out.nontrivial = co.switches > 0 or len(plan["history"]) > 1
    out.extra = dict(schedule=recorded)


def simplify(prop, plan):
    from . import fsim
    yield from fsim.simplify(prop, plan)
    for key in ("ops",):
        for i, c in enumerate(plan.get(key, [])):
            for k, v in (("verb", None), ("nohdr", False), ("dmax", None), ("extra", []), ("both", False), ("fault", None), ("ambush", None)):
                if c.get(k) != v:
                    q = copy.deepcopy(plan)
                    q[key][i][k] = v
                    yield q
    for a, rd in enumerate(plan.get("history", [])):
        for i, c in enumerate(rd["procs"]):
            for k, v in (("verb", None), ("nohdr", False), ("dmax", None), ("mode", "zdi")):
                if c.get(k) != v:
                    q = copy.deepcopy(plan)
                    q["history"][a]["procs"][i][k] = v
                    yield q


def keep_list(prop, plan, path):
    return path[-1] == "procs" and len(plan["history"][path[1]]["procs"]) <= 1


def pin(plan, schedule):
    p = copy.deepcopy(plan)
    for rd, s in zip(p["history"], schedule):
        rd["policy"], rd["schedule"] = None, s
    return p
