"""Pictures: C13 the plot commands under faults and after each other, C14 routines that draw into given axes while other
figures exist. The oracle is the same command or the same figure made alone in a process that has done nothing else."""
import copy
import gc
import hashlib
import io
import logging
import os
import pickle
import random
import struct
import sys

from . import calls as K
from . import clisim
from . import disk as D
from . import fsim
from . import seam
from . import tables as T
from .fsim import get, put, transient

RUNS = {"C13": (300, 12000), "C14": (220, 8000)}
LEVEL = {"C13": "exploration", "C14": "exploration"}
RULE = {
    "C13": "A run is one process that executes a few plot commands and draws figures of its own in between, with short, interrupted and "
           "failing system calls, interrupts and failing allocations; same if the event logs are the same; trivial if no picture was "
           "compared.",
    "C14": "A run is one process with several figures into which plot routines draw in random order while the current figure changes and "
           "some calls fail; same if the event logs are the same; trivial if no call happened while another figure existed.",
}
REAL = ["starwinds_magnetogram.bin.plot_magnetogram, .bin.plot_lsd (main, with argparse), .plot_zdi, .plots, .plot_pfss, .plot_lsd, "
        ".longitudinal_field, .colorbar_manual_tickmarks and the computations below them (from /repo)", "matplotlib (Agg), PIL, numpy, scipy",
        "libc down to the system call"]
STUB = ["outcome and length of file system calls below the working directory", "outcome of numpy allocations", "delivery of interrupts",
        "clock, entropy, process id", "dots per inch and, in most runs, the default grid of a geometry (smaller, for speed)"]
ASSUME = ["matplotlib draws the same artists to the same pixels", "pictures are compared as decoded pixels (PNG, JPEG) or bytes (PDF, SVG with a "
          "fixed date and salt)", "Pillow's JPEG encoder writes to the descriptor by itself and takes every accepted write to be complete and every "
          "interrupted one to have failed, so short and interrupted writes are not injected for .jpg outputs (failed ones are)"]


def warm(prop):
    import numpy  # noqa
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot  # noqa
    import matplotlib.backends.backend_pdf  # noqa
    import matplotlib.backends.backend_svg  # noqa
    import mpl_toolkits.axes_grid1  # noqa
    import PIL.Image, PIL.PngImagePlugin, PIL.JpegImagePlugin  # noqa
    matplotlib.rcParams["figure.dpi"] = 40
    matplotlib.rcParams["savefig.dpi"] = "figure"
    matplotlib.rcParams["svg.hashsalt"] = "salt"
    os.environ["SOURCE_DATE_EPOCH"] = "1700000000"
    from starwinds_magnetogram.bin import plot_lsd, plot_magnetogram  # noqa
    from starwinds_magnetogram import colorbar_manual_tickmarks, longitudinal_field, plot_pfss  # noqa
    K._m()
    seam.package_dir()
    seam.quiet_warnings()
    logging.disable(logging.NOTSET)
    # Fonts and the mathematical text parser, without pyplot.
    from matplotlib.figure import Figure
    from matplotlib.backends.backend_agg import FigureCanvasAgg
    f = Figure(figsize=(1, 1))
    FigureCanvasAgg(f)
    ax = f.subplots(2, 2)
    ax[0, 0].set_title(r"$B_\theta^2 = 10^{-3}$")
    ax[0, 0].plot([0, 1], [0, 1], label="Total")
    ax[0, 0].legend()
    ax[0, 1].set_yscale("log")
    ax[0, 1].set_ylim(1e-3, 1e3)
    f.colorbar(ax[1, 0].pcolormesh([[1, 2], [3, 4]]), ax=ax[1, 0])
    ax[1, 1].set_xlim(0, 360)
    ax[1, 1].set_ylim(180, 0)
    f.canvas.draw()


# ------------------------------------------------------------------ asking a pristine process

class Reference:
    """A copy of the pristine process; every question is answered by a further copy that then goes away."""

    def __init__(self, answer):
        qr, qw = os.pipe()
        ar, aw = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(qw), os.close(ar)
            try:
                while True:
                    n = _read(qr, 4)
                    if not n:
                        break
                    q = pickle.loads(_read(qr, struct.unpack("I", n)[0]))
                    r, w = os.pipe()
                    kid = os.fork()
                    if kid == 0:
                        try:
                            b = pickle.dumps(answer(*q))
                        except BaseException as e:
                            import traceback
                            b = pickle.dumps(("harness", "".join(traceback.format_exception(e))[-1500:]))
                        _write(w, b)
                        os._exit(0)
                    os.close(w)
                    b = _all(r)
                    os.waitpid(kid, 0)
                    _write(aw, struct.pack("I", len(b)) + b)
            finally:
                os._exit(0)
        os.close(qr), os.close(aw)
        self.q, self.a = qw, ar

    def ask(self, *q):
        b = pickle.dumps(q)
        _write(self.q, struct.pack("I", len(b)) + b)
        x = pickle.loads(_read(self.a, struct.unpack("I", _read(self.a, 4))[0]))
        if x and x[0] == "harness":
            raise seam.HarnessError("reference: " + x[1])
        return x


def _read(fd, n):
    b = b""
    while len(b) < n:
        x = os.read(fd, n - len(b))
        if not x:
            return None
        b += x
    return b


def _write(fd, b):
    while b:
        b = b[os.write(fd, b):]


def _all(fd):
    b = []
    while True:
        x = os.read(fd, 1 << 16)
        if not x:
            break
        b.append(x)
    os.close(fd)
    return b"".join(b)


def picture(path):
    """(kind, digest) of a complete image file; raises if it is none."""
    with open(path, "rb") as f:
        data = f.read()
    if data[:8] == b"\x89PNG\r\n\x1a\n" or data[:2] == b"\xff\xd8":
        import PIL.Image
        im = PIL.Image.open(io.BytesIO(data))
        im.load()
        if data[:2] == b"\xff\xd8" and not data.rstrip(b"\0").endswith(b"\xff\xd9"):
            raise ValueError("JPEG without end")
        return (im.format, im.size, hashlib.sha256(im.convert("RGBA").tobytes()).hexdigest())
    if data[:5] == b"%PDF-" or b"<svg" in data[:2000]:
        return (data[:4].decode(), len(data), hashlib.sha256(data).hexdigest())
    raise ValueError("not an image: " + repr(data[:20]))


# ------------------------------------------------------------------ C13 plans

TYPES = ("map", "radial", "polar", "azimuthal", "azimuth", "strength", "energy-by-degree", "energy-matrix", "energy-summary")
PARAMS = ("V", "I", "N", "VI", "IV", "VIN", "NIV", "VN", "VV")


def rand_mag(r):
    return dict(kind="mag", deg=r.choice((1, 2, 3)), comps=r.choice((1, 3, 3)), style=r.choice(("dense", "from1")), seed=r.randrange(4),
                scale=r.choice((1.0, 1.0, 1.0, 1e-3, 300.0)), text=dict(header=r.choice((0, 2, 5)), sep=r.random() < 0.5))


def rand_lsd(r):
    return dict(kind="lsd", rows=r.choice((2, 5, 40)), head=r.choice((0, 1, 2, 2, 3)), seed=r.randrange(4), torn=r.choice((1, 2, 3, 9)) if r.random() < 0.12 else 0)


def gen_c13(r, i):
    files = [dict(rand_mag(r), name=r.choice(("star1.dat", "sub/epoch_star.dat", "mag", "a b.dat", "m.png"))),
             dict(rand_lsd(r), name=r.choice(("p.lsd", "sub/p.s", "prof.png"))), dict(kind="junk", name="notes.txt")]
    if r.random() < 0.3:
        files.append(dict(rand_mag(r), name="other.dat"))
    by = {f["kind"]: [g["name"] for g in files if g["kind"] == f["kind"]] for f in files}
    links = [dict(name="link.png", to=r.choice(by["mag"] + by["lsd"]), hard=r.random() < 0.3)] if r.random() < 0.3 else []
    ops = []
    for _ in range(r.choice((1, 2, 2, 3))):
        k = r.random()
        if k < 0.12:
            ops.append(dict(op="draw", n=r.choice((1, 2, 3)), kind=r.choice(("plot", "image", "empty"))))
            continue
        if k < 0.16:
            ops.append(dict(op="close"))
            continue
        cmd = r.choice(("mag", "mag", "lsd"))
        if cmd == "mag":
            c = dict(op="run", cmd="mag", inp=r.choice(by["mag"]), p=r.choice(TYPES + (None,)), y=r.choice((None, None, "zdi", "pfss")))
        else:
            f = files[1]
            c = dict(op="run", cmd="lsd", inp=f["name"], p=r.choice(PARAMS + (None,)), s=f["head"] if f["head"] != 2 or r.random() < 0.5 else None)
        c["out"] = r.choice(("o1.png", "o1.png", "o2.png", "sub/o3.png", "{root}/o4.png", "o5", "o6.pdf", "o7.svg", "o8.jpg"))
        k = r.random()
        if k < 0.05:
            c["out"] = None
        elif k < 0.12:
            c["out"] = r.choice(("nowhere/o.png", "o.xyz", "sub/x/o.png", "Z" * 300 + ".png"))
        elif k < 0.2 and (links or c["inp"].endswith(".png")):
            c["out"] = "link.png" if links and not c["inp"].endswith(".png") else r.choice((c["inp"], "./" + c["inp"], "{root}/" + c["inp"]))
        k = r.random()
        if k < 0.04:
            c["p"] = r.choice(("maps", "", "energy")) if cmd == "mag" else r.choice(("X", "VX"))
        elif k < 0.08:
            c["inp"] = r.choice(("missing.dat", "notes.txt", "sub"))
        elif k < 0.1 and cmd == "mag":
            c["y"] = "wso"
        c["verb"] = r.choice((None, "-q", "-v", "-q"))
        c["faults"] = transient(r, r.choice((0, 0, 1, 1, 2)))
        if c["out"] and c["out"].endswith("jpg"):
            c["faults"] = [f for f in c["faults"] if not f["kind"].endswith("_write")]      # see ASSUME
        c["ambush"] = r.choice(("hard", "link")) if r.random() < 0.15 else None
        c["line"] = None
        k = r.random()
        if k < 0.25:
            c["faults"].append(dict(kind=r.choice(("eio_read", "eio_write", "enospc", "enospc", "err_open", "err_close", "err_stat")),
                                    at=r.choice((1, 1, 1, 2, 2, 3, 4)), sticky=r.random() < 0.4))
        elif k < 0.40:
            c["line"] = dict(kind=r.choice(("interrupt", "memory", "alloc", "allocs")), pos=r.random())
        ops.append(c)
        if r.random() < 0.35:
            ops.append(dict(copy.deepcopy(c), faults=[], line=None))
    return dict(files=files, links=links, ops=ops, grid="default" if i % 25 == 3 else "small", level=r.choice(("WARNING", "DEBUG")))


def mag_table(f):
    r = random.Random(f"mag:{f['seed']}:{f['deg']}:{f['comps']}")
    out = {}
    for l in range(1 if f["style"] == "from1" else 0, f["deg"] + 1):
        for m in range(l + 1):
            out[(l, m)] = [complex(r.gauss(0, 10), r.gauss(0, 10) if m else 0.0) * f["scale"] for _ in range(f["comps"])]
    return out


def mag_text(f):
    t = mag_table(f)
    n = {0: [], 2: ["A star", "Order:%d" % f["deg"]], 5: ["name", "0 0.0 -2 3 2", "%d 1" % len(t), "%d 0 0.0" % f["deg"], "n m g h nOrder CR dLon"]}
    lines = list(n[f["text"]["header"]])
    for c in range(f["comps"]):
        if c and f["text"]["sep"]:
            lines.append("")
        lines += ["%3d %3d %13e %13e" % (l, m, v[c].real, v[c].imag) for (l, m), v in sorted(t.items())]
    return ("\n".join(lines) + "\n").encode()


def lsd_text(f):
    r = random.Random(f"lsd:{f['seed']}")
    lines = ["***LSD profile", " %d 6" % f["rows"], "third header line"][:f["head"]]
    for k in range(f["rows"]):
        lines.append(" ".join("%.6e" % x for x in (-50 + 3.5 * k, 1 - 0.3 * r.random(), 1e-3 * (1 + r.random()), r.gauss(0, 1e-3), 1e-4 * (1 + r.random()),
                                                   r.gauss(0, 1e-3), 1e-4 * (1 + r.random()))))
    if f.get("torn"):   # a row in the middle or at the end has lost some of its columns
        k = (len(lines) - 1, f["head"] + 1, len(lines) - 1, f["head"] + f["rows"] // 2)[f["torn"] % 4]
        lines[k] = " ".join(lines[k].split()[:1 + f["torn"] % 5])
    return ("\n".join(lines) + "\n").encode()


def text_of(f):
    return mag_text(f) if f["kind"] == "mag" else lsd_text(f) if f["kind"] == "lsd" else b"remember the milk\n"


# ------------------------------------------------------------------ C13 execution

def argv(c, root):
    a = [c["inp"]]
    if c["out"] is not None:
        a.append(c["out"].replace("{root}", root))
    if c["p"] is not None:
        a += ["-p", c["p"]]
    if c.get("y") is not None:
        a += ["-y", c["y"]]
    if c.get("s") is not None:
        a += ["-s", str(c["s"])]
    if c["verb"]:
        a.insert(0, c["verb"])
    return a


def command(c, root):
    """One command as the shell would run it: (exit status, standard error)."""
    from starwinds_magnetogram.bin import plot_lsd, plot_magnetogram
    import traceback
    sys.argv = ["plot"] + argv(c, root)
    err = io.StringIO()
    sys.stderr, sys.stdout = err, io.StringIO()
    try:
        try:
            sys.exit((plot_lsd if c["cmd"] == "lsd" else plot_magnetogram).main())
        except SystemExit as e:
            if e.code is None:
                st = 0
            elif isinstance(e.code, int):
                st = e.code & 255
            else:
                err.write(str(e.code))
                st = 1
        except seam.StepCap:
            raise
        except BaseException as e:
            sys.settrace(None)
            err.write("".join(traceback.format_exception_only(type(e), e)))
            e.__traceback__ = None
            st = 130 if isinstance(e, KeyboardInterrupt) else 1
    finally:
        sys.stderr, sys.stdout = sys.__stderr__, sys.__stdout__
    return st, err.getvalue()


def small_grid():
    from starwinds_magnetogram import geometry
    init = geometry.ZdiGeometry.__init__

    def smaller(self, polar_corners=None, azimuthal_corners=None):
        if polar_corners is None and azimuthal_corners is None:
            polar_corners, azimuthal_corners = 10, 21
        init(self, polar_corners, azimuthal_corners)
    geometry.ZdiGeometry.__init__ = smaller


def world(plan, root):
    for f in plan["files"]:
        put(os.path.join(root, f["name"]), text_of(f))
    os.makedirs(os.path.join(root, "sub"), exist_ok=True)
    for l in plan["links"]:
        p = os.path.join(root, l["name"])
        if l["hard"]:
            os.link(os.path.join(root, l["to"]), p)
        else:
            os.symlink(l["to"], p)


def answer_c13(f, c, grid, d):
    """The command alone in a pristine process: (status, picture or None, standard error)."""
    os.makedirs(d)
    os.chdir(d)
    seam.patch_world(seam.Clock(), "plot")
    if grid == "small":
        small_grid()
    if f:
        put(os.path.join(d, f["name"]), text_of(f))
    c = dict(c, out=None if c["out"] is None else "ref" + os.path.splitext(c["out"])[1])
    st, err = command(c, d)
    pic = None
    if st == 0 and c["out"] is not None:
        p = os.path.join(d, c["out"])
        pic = picture(p if os.path.exists(p) else p + ".png")
    return st, pic, err[-300:]


def memo(root):
    """A place that all runs of one check share: pictures of commands alone depend on nothing but the command."""
    d = os.path.dirname(os.path.dirname(root))
    if os.path.basename(d).startswith("w"):
        d = os.path.dirname(d)
    d = os.path.join(d, "refs")
    os.makedirs(d, exist_ok=True)
    return d


def touched(c, root):
    """Names that a run of this command changes, found out in a copy of this process."""
    saved = clisim.save(root)
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        d = D.Disk(root, [], [])
        try:
            with d:
                command(c, root)
        finally:
            _write(w, pickle.dumps(d.touched))
            os._exit(0)
    os.close(w)
    b = _all(r)
    os.waitpid(pid, 0)
    clisim.restore(root, saved)
    return pickle.loads(b) if b else []


def exec_c13(plan, root, out):
    import matplotlib.pyplot as plt
    store = memo(root)
    ref = Reference(answer_c13)
    world(plan, root)
    clock = seam.Clock()
    seam.patch_world(clock, "plot")
    logging.getLogger().setLevel(plan["level"])
    if plan["grid"] == "small":
        small_grid()
    seam.use_numpy_handler()
    lib = seam.shim()
    by = {f["name"]: f for f in plan["files"]}
    compared = refs = 0

    def reference(c):
        nonlocal refs
        f = by.get(c["inp"])
        q = dict(cmd=c["cmd"], inp=c["inp"], out=None if c["out"] is None else "x" + os.path.splitext(c["out"])[1], p=c["p"], y=c.get("y"), s=c.get("s"),
                 verb=None)
        key = hashlib.sha1(repr((sorted(f.items(), key=str) if f else None, sorted(q.items()), plan["grid"])).encode()).hexdigest()
        path = os.path.join(store, key)
        try:
            with open(path, "rb") as g:
                return pickle.load(g)
        except (FileNotFoundError, EOFError):
            pass
        refs += 1
        a = ref.ask(f, q, plan["grid"], os.path.join(os.path.dirname(root), f"ref{refs}"))
        with open(f"{path}.{os.path.basename(os.path.dirname(os.path.dirname(root)))}", "wb") as g:
            pickle.dump(a, g)
        os.rename(g.name, path)
        return a

    def inputs():
        return {n: get(os.path.join(root, n)) for n in by}
    before = inputs()
    known = [os.path.basename(n) for n in by] + ["sub", "link.png", "o1.png", "o2.png", "o3.png", "o4.png", "o5", "o5.png", "o6.pdf", "o7.svg", "o8.jpg",
                                                 "missing.dat"]
    for k, c in enumerate(plan["ops"]):
        if c["op"] == "draw":
            fig, axs = plt.subplots(c["n"], num=f"own {k}")
            ax = axs if c["n"] == 1 else axs[0]
            if c["kind"] == "plot":
                ax.plot([1, 3, 2])
                plt.title("mine")
            elif c["kind"] == "image":
                plt.imshow([[1, 2], [3, 4]])
                plt.colorbar()
            out.note(k, "draw", c["n"], c["kind"])
            continue
        if c["op"] == "close":
            plt.close("all")
            out.note(k, "close")
            continue
        f = by.get(c["inp"])
        dst = None if c["out"] is None else os.path.join(root, c["out"].replace("{root}", root))
        same = dst is not None and f is not None and os.path.exists(dst) and os.path.samefile(dst, os.path.join(root, c["inp"]))
        good_out = c["out"] is None or not (c["out"].startswith(("nowhere/", "sub/x/", "ZZZ")) or c["out"].endswith(".xyz") or same)
        want_kind = "mag" if c["cmd"] == "mag" else "lsd"
        valid = (f is not None and f["kind"] == want_kind and good_out
                 and (c["p"] is None or (c["p"] in TYPES if c["cmd"] == "mag" else set(c["p"]) <= set("VIN")))
                 and c.get("y") in (None, "zdi", "pfss") and not (c.get("y") == "pfss" and f.get("comps") != 1)
                 and not (c["cmd"] == "lsd" and ((2 if c["s"] is None else c["s"]) != f["head"] or f["torn"])))
        must_fail = (f is None or f["kind"] == "junk" or not good_out or c.get("y") == "wso"
                     or (c["cmd"] == "mag" and c["p"] is not None and c["p"] not in TYPES)
                     or (f.get("torn") and (2 if c["s"] is None else c["s"]) == f["head"] and c["cmd"] == "lsd"))
        want = reference(c) if not same and not (f and f["kind"] == "picture") else None
        if c["ambush"] and dst is not None and f is not None:
            for n in touched(c, root):      # the input has other names where the command works
                p = os.path.join(root, n)
                if os.path.lexists(p) or os.path.realpath(p) == os.path.realpath(dst) or p == dst + ".png" or not os.path.isdir(os.path.dirname(p)):
                    continue
                if c["ambush"] == "hard":
                    os.link(os.path.join(root, c["inp"]), p)
                else:
                    os.symlink(os.path.join(root, c["inp"]), p)
                out.probe("input linked where the command works")
        # the run itself
        d = D.Disk(root, c["faults"], known)
        ln, fired = c["line"], 0
        exc = {"interrupt": KeyboardInterrupt, "memory": MemoryError}.get(ln["kind"]) if ln else None
        lf = seam.LineFault(at=int(10 ** (ln["pos"] * 3.3)) if exc else None, exc=exc or KeyboardInterrupt, cap=4_000_000)
        if ln and not exc:
            at = int(10 ** (ln["pos"] * 3.6)) - 1
            lib.sim_alloc_thread(1)
            lib.sim_alloc_arm(1, at, at if ln["kind"] == "alloc" else 1 << 40)
        try:
            with d:
                if ln:
                    with lf:
                        st, err = command(c, root)
                else:
                    st, err = command(c, root)
                gc.collect()
        except seam.StepCap:
            st, err = "cap", ""
        finally:
            sys.settrace(None)
            if ln and not exc:
                fired = lib.sim_alloc_failed()
                lib.sim_alloc_arm(0, -1, -1)
        fired += lf.fired
        if fired:
            out.fired[ln["kind"]] = out.fired.get(ln["kind"], 0) + 1
        out.take(d)
        if d.error:
            return
        fired += sum(n for kk, n in d.fired.items() if kk not in D.TRANSIENT)
        what = " ".join(c2 + (f" at {x['at']}" if x else "") for c2, x in
                        [(f["kind"], f) for f in c["faults"]] + ([(ln["kind"] + " " + str(lf.where), None)] if ln else []))
        where = f"op {k}: plot_{c['cmd']} {' '.join(argv(c, root)).replace(root, '{root}')}" + (f" [{what}]" if what else "") + f": exit {st}"
        out.note(where)
        out.probe("exit 0" if st == 0 else "exit nonzero")
        if st == "cap":
            out.v("does not finish", where)
            return
        now = inputs()
        for n in before:
            named = dst is not None and not same and n != c["inp"] and os.path.exists(dst) and os.path.samefile(dst, os.path.join(root, n))
            if named and now[n] is not None:    # the user named another file as the output, through a link
                before[n] = now[n]
                by[n] = dict(kind="picture", name=n)
            if now[n] != before[n]:
                out.v("input changed", f"{where}: {n} was {'removed' if now[n] is None else 'changed'}")
        if out.viol:
            return
        if st == 0 and dst is not None:
            if same or must_fail:
                out.v("wrong success", f"{where}: the command should have failed")
                return
            try:
                p = dst if os.path.exists(dst) else dst + ".png"
                pic = picture(p)
            except FileNotFoundError:
                out.v("no output", f"{where}: the output does not exist")
                return
            except Exception as e:
                out.v("incomplete output", f"{where}: {type(e).__name__}: {e}")
                return
            if want is None:
                continue
            if want[0] != 0:
                if valid:
                    out.v("valid command fails", f"{where}, but alone: exit {want[0]}: {want[2][-200:]}")
                else:
                    out.v("outcome depends on history", f"{where}, but alone: exit {want[0]}: {want[2][-200:]}")
                return
            if pic != want[1]:
                out.v("picture differs", f"{where}: {pic[:2]} is not the picture the command makes alone, {want[1][:2]}")
                return
            compared += 1
        elif st == 0 and must_fail:
            out.v("wrong success", f"{where}: the command should have failed")
            return
        elif st != 0:
            if not err.strip():
                out.v("failure without message", where)
            if not fired and valid:
                out.v("valid command fails", f"{where}: {err[-200:]}")
            elif not fired and good_out and want is not None and want[0] == 0:
                out.v("outcome depends on history", f"{where}: {err[-200:]}, but alone it succeeds")
            if out.viol:
                return
    out.probe("pictures compared", compared)
    out.probe("figures left open", len(plt.get_fignums()))
    out.covered += clock.covered
    out.nontrivial = compared > 0


# ------------------------------------------------------------------ C14 routines

class Data:
    """What a program has to plot; built on first use, equal in every process."""

    def __init__(self, spec):
        self.env = K.Env(spec)
        self.o = {}

    def get(self, name):
        return self.env.get(name)

    def fields(self, z, g):
        """Arrays a program computed itself: centres, corners and three components."""
        key = f"{z}:{g}"
        if key not in self.o:
            m, geo = self.get(z), self.get(g)
            p, a = geo.centers()
            pc, ac = geo.corners()
            import numpy as np
            B = np.array([m.get_radial_field(p, a), m.get_polar_field(p, a), m.get_azimuthal_field(p, a)])
            self.o[key] = [p, a, pc, ac, B]
        return self.o[key]

    def lsd(self, n, seed):
        """Line profiles of n observations."""
        key = f"lsd{n}:{seed}"
        if key not in self.o:
            import numpy as np
            self.o[key] = [np.array([[float(x) for x in l.split()] for l in lsd_text(dict(rows=12, head=0, seed=10 * seed + j)).decode().splitlines()])
                           for j in range(n)]
        return self.o[key]

    def spectrum(self, seed):
        key = f"spec:{seed}"
        if key not in self.o:
            import numpy as np
            r = random.Random(key)
            wl = np.concatenate([400 + 30 * k + .05 * np.arange(20) for k in range(1 + seed)])
            self.o[key] = np.column_stack([wl] + [np.array([abs(r.gauss(1, .1)) for _ in wl]) for _ in range(5)])
        return self.o[key]

    def curve(self, k):
        key = f"curve{k}"
        if key not in self.o:
            self.o[key] = self.get("ph0") ** 2 - k
        return self.o[key]

    def snapshot(self):
        s = self.env.snapshot()
        s.update({n: K.canon(v) for n, v in sorted(self.o.items())})
        return s


def _pz():
    from starwinds_magnetogram import plot_zdi
    return plot_zdi


def _pl():
    from starwinds_magnetogram import plots
    return plots


def r_summary(axs, E, a):
    import numpy as np
    _pz().plot_energy_summary(E.get(a["z"]), np.array(axs))


def r_matrix(axs, E, a):
    import numpy as np
    t = ("total", "radial", "poloidal", "toroidal")
    types = t[a["k"] % 4] if len(axs) == 1 else tuple(t[(a["k"] + j) % 4] for j in range(len(axs)))
    _pz().plot_energy_matrix(E.get(a["z"]), types, negative_orders=a["b"], axs=np.array(axs))


def r_degree(axs, E, a):
    _pz().plot_energy_by_degree(E.get(a["z"]), axs[0], scaled=a["b"])


def r_zcomp(axs, E, a):
    _pz().plot_zdi_components(E.get(a["z"]), radius=1 + a["k"], axs=axs, zg=E.get(a["g"]), term=(None, "poloidal", "toroidal", "other")[a["k"] % 4])


def r_zfield(axs, E, a):
    m = E.get(a["z"])
    fn = (m.get_radial_field, m.get_polar_field, m.get_azimuthal_field, m.get_field_strength)[a["k"] % 4]
    _pz().plot_zdi_field(fn, axs[0], E.get(a["g"]), symmetric=(None, True, False)[a["k"] % 3], legend_str="B_r")


def r_stream(axs, E, a):
    _pz().plot_streamtraces(E.get(a["z"]), E.get(a["g"]), axs[0])


def r_equi(axs, E, a):
    p, az, pc, ac, B = E.fields(a["z"], a["g"])
    _pl().plot_equirectangular(E.get(a["g"]), B[a["k"] % 3], axs[0], vmin=-5 if a["b"] else None, vmax=5 if a["b"] else None)


def r_comp(axs, E, a):
    p, az, pc, ac, B = E.fields(a["z"], a["g"])
    _pl().plot_components(p, az, B, axs, ac, pc, radius=2)


def r_field(axs, E, a):
    p, az, pc, ac, B = E.fields(a["z"], a["g"])
    kw = dict(polar_corners=pc, azimuth_corners=ac) if a["b"] else {}
    img, zc = _pl().plot_magnetic_field(axs[0], p, az, B[a["k"] % 3], abs_max=(None, 7.0)[a["k"] % 2], **kw)
    cb = axs[0].figure.colorbar(img, ax=axs[0])
    if zc:
        cb.add_lines(zc)
    _pl().add_contours(p, az, B[a["k"] % 3], axs[0], "B", cb)


def r_extrema(axs, E, a):
    p, az, pc, ac, B = E.fields(a["z"], a["g"])
    axs[0].pcolormesh(B[0])
    _pl().add_extrema(p, az, B[a["k"] % 3], axs[0], markers="ox")
    axs[0].legend()


def r_cax(axs, E, a):
    p, az, pc, ac, B = E.fields(a["z"], a["g"])
    cax = _pl().place_colorbar_axis_right(axs[0], dx=.1 + .05 * a["k"])
    axs[0].figure.colorbar(axs[0].pcolormesh(B[a["k"] % 3]), cax=cax)


def r_pfss(axs, E, a):
    from starwinds_magnetogram import plot_pfss
    plot_pfss.plot_components(E.get(a["p"]), geometry=E.get(a["g"]), radius=1 + .4 * a["k"], radius_source_surface=2.5 if a["b"] else None, axs=axs)


def r_long(axs, E, a):
    from starwinds_magnetogram import longitudinal_field as lf
    lf.plot_longitudinal_field_curve(axs[0], E.get(a["g"]), E.get(a["z"]), .3 + .4 * a["k"], E.get("ph0") if a["b"] else None)


def r_style(axs, E, a):
    from starwinds_magnetogram import longitudinal_field as lf
    lf.plot_style(axs[0], E.curve(a["k"]), E.get("ph0"))


def r_ticks(axs, E, a):
    from matplotlib import colors
    from starwinds_magnetogram import colorbar_manual_tickmarks as t
    p, az, pc, ac, B = E.fields(a["z"], a["g"])
    img = axs[0].pcolormesh(B[0], norm=colors.SymLogNorm(linthresh=.01, vmin=-100, vmax=100, base=10))
    cb = axs[0].figure.colorbar(img, ax=axs[0], orientation="horizontal" if a["b"] else "vertical")
    t.auto_symlog_tickmarks(cb, 1 + a["k"] % 2, axis="x" if a["b"] else "y")


ROUTINES = dict(summary=(3, r_summary), matrix=(1, r_matrix), matrices=(2, r_matrix), degree=(1, r_degree), zcomp=(3, r_zcomp), zfield=(1, r_zfield),
                stream=(1, r_stream), equi=(1, r_equi), comp=(3, r_comp), field=(1, r_field), extrema=(1, r_extrema), cax=(1, r_cax),
                pfss=(3, r_pfss), long=(1, r_long), style=(1, r_style), ticks=(1, r_ticks))


def o_stack(E, a):
    from starwinds_magnetogram import plot_lsd
    n = 2 + a["k"]
    plot_lsd.plot_lsd_stack(E.lsd(n, a["k"]), [f"star {j}" for j in range(n)] if a["b"] else None, y_lim=(None, "same", (-.01, .01))[a["k"] % 3])


def o_spectrum(E, a):
    from starwinds_magnetogram import plot_lsd
    plot_lsd.plot_spectrum(E.spectrum(a["k"] % 3))


def o_profile(E, a):
    """What the command does: own subplots, then the profile goes into the current figure."""
    import matplotlib.pyplot as plt
    from starwinds_magnetogram import plot_lsd
    p = ("VNI", "VI", "N", "IV")[a["k"] % 4]
    plt.subplots(len(p), sharex=True)
    plot_lsd.plot_lsd_profile(E.lsd(2, a["k"])[a["b"]], p)


def o_slice(E, a):
    from starwinds_magnetogram import plot_pfss
    plot_pfss.plot_slice(E.get(a["p"]), normal="xxyz"[a["k"]], rmax=4 + a["k"], radius_source_surface=2.5 if a["b"] else None)


def o_pstream(E, a):
    from starwinds_magnetogram import plot_pfss
    plot_pfss.plot_streamtraces(E.get(a["p"]), E.get(a["g"]))


def o_pcomp(E, a):
    from starwinds_magnetogram import plot_pfss
    plot_pfss.plot_components(E.get(a["p"]), geometry=E.get(a["g"]))


def o_zdi(E, a):
    z, g = E.get(a["z"]), E.get(a["g"])
    (lambda: _pz().plot_energy_summary(z), lambda: _pz().plot_energy_matrix(z, ("total", "radial") if a["b"] else "total"),
     lambda: _pz().plot_energy_by_degree(z, scaled=a["b"]), lambda: _pz().plot_zdi_components(z, zg=g),
     lambda: _pz().plot_zdi_field(z.get_radial_field, zg=g), lambda: _pz().plot_streamtraces(z, g))[a["w"] % 6]()


OWN = dict(stack=o_stack, spectrum=o_spectrum, profile=o_profile, pslice=o_slice, pstream=o_pstream, pcomp=o_pcomp, zdi=o_zdi, zdi2=o_zdi)


def gen_c14(r, i):
    env = dict(deg=r.choice((1, 2, 3)), np=r.choice((5, 6)), na=r.choice((7, 9)), seed=r.randrange(3), mods={})
    figs = [dict(make=r.choice(("plt", "plt", "plt", "bare")), n=r.choice((1, 2, 3, 3)), sub=r.random() < 0.2) for _ in range(r.choice((1, 2, 2, 3)))]
    ops = []
    base = r.choice(sorted(ROUTINES))
    for _ in range(r.choice((2, 3, 4, 5))):
        k = r.random()
        if k < 0.45:
            w = r.random()
            if w < 0.3:
                ops.append(dict(op="other", kind=r.choice(("plot", "image", "empty", "axes"))))
            elif w < 0.5:
                ops.append(dict(op="own", r=r.choice(sorted(set(OWN) - {"pslice"})) if r.random() < 0.96 else "pslice", a=dict(z=r.choice(("zdi0", "zdi1")), g=r.choice(("g0", "g2")), p=r.choice(("p1", "p3")),
                                                                         k=r.randrange(4), b=r.random() < 0.5, w=r.randrange(6)), fault=None))
                if r.random() < 0.2:
                    ops[-1]["fault"] = dict(kind=r.choice(("interrupt", "memory", "alloc", "allocs")), pos=r.random())
            elif w < 0.75:
                ops.append(dict(op="current", fig=r.randrange(len(figs)), ax=r.randrange(3)))
            elif w < 0.85:
                ops.append(dict(op="close", fig=r.randrange(len(figs))))
            else:
                ops.append(dict(op="closeothers"))
        k = r.randrange(len(figs))
        name = base if r.random() < 0.4 else r.choice(sorted(ROUTINES))
        need = ROUTINES[name][0]
        n = figs[k]["n"]
        if need > n:
            if r.random() < 0.9:
                name = r.choice([x for x in sorted(ROUTINES) if ROUTINES[x][0] <= n])
                need = ROUTINES[name][0]
        ax = [j % n for j in range(need)] if need <= n else list(range(n))
        if need == 1:
            ax = [r.randrange(n)]
        o = dict(op="call", fig=k, r=name, ax=ax, a=dict(z=r.choice(("zdi0", "zdi1", "zdi0")), g=r.choice(("g0", "g2", "g0")), p=r.choice(("p1", "p3")),
                                                         k=r.randrange(4), b=r.random() < 0.5), fault=None)
        if r.random() < 0.25:
            o["fault"] = dict(kind=r.choice(("interrupt", "memory", "alloc", "allocs")), pos=r.random())
        ops.append(o)
        if r.random() < 0.2:
            ops.append(dict(o, ax=[(x + 1) % n for x in o["ax"]] if len(ax) == 1 else ax, fault=None))
    return dict(env=env, figs=figs, ops=ops)


# ------------------------------------------------------------------ C14 execution

def make_figure(f, k):
    size = (3.2 * f["n"], 2.4)
    if f["make"] == "bare":
        from matplotlib.backends.backend_agg import FigureCanvasAgg
        from matplotlib.figure import Figure
        fig = Figure(figsize=size)
        FigureCanvasAgg(fig)
        axs = fig.subplots(1, f["n"], squeeze=False)[0]
    else:
        import matplotlib.pyplot as plt
        fig, axs = plt.subplots(1, f["n"], figsize=size, num=f"target {k}", squeeze=False)
        axs = axs[0]
    return fig, list(axs)


def _render(fig):
    from matplotlib.backends.backend_agg import FigureCanvasAgg
    try:
        c = FigureCanvasAgg(fig)   # a closed figure has lost its own
        c.draw()
        return hashlib.sha256(bytes(c.buffer_rgba())).hexdigest()[:20]
    except Exception as e:
        return "cannot be drawn: " + type(e).__name__


def render(figs):
    """What the figures (a dictionary) look like. Drawing changes a figure (limits, places of titles and legends), so it is done in
    a copy of this process."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            _write(w, pickle.dumps({k: _render(f) for k, f in figs.items()}))
        finally:
            os._exit(0)
    os.close(w)
    b = _all(r)
    os.waitpid(pid, 0)
    if not b:
        raise seam.HarnessError("no picture from the copy")
    return pickle.loads(b)


def call(o, axs, E):
    """"ok" or the kind of error."""
    sys.stdout = io.StringIO()
    try:
        if o["op"] == "own":
            OWN[o["r"]](E, o["a"])
        else:
            ROUTINES[o["r"]][1]([axs[j] for j in o["ax"]], E, o["a"])
        return "ok"
    except seam.StepCap:
        raise
    except Exception as e:
        e.__traceback__ = None
        return type(e).__name__
    finally:
        sys.stdout = sys.__stdout__


def answer_c14(env, f, k, ops):
    """One figure and the calls that draw into it, alone in a pristine process: (outcomes, picture in the end)."""
    seam.patch_world(seam.Clock(), "plot")
    seam.use_numpy_handler()
    E = Data(env)
    if f is None:       # a routine that makes its own figure
        import matplotlib.pyplot as plt
        got = call(ops[0], None, E)
        return [got], _render(plt.figure(plt.get_fignums()[-1])) if got == "ok" else None
    fig, axs = make_figure(f, k)
    got = []
    for o in ops:
        got.append(call(o, axs, E))
        if got[-1] != "ok":
            break
    return got, _render(fig)


def settings():
    import warnings

    import matplotlib
    import numpy
    import matplotlib.pyplot as plt
    return dict(rcParams={k: repr(v) for k, v in sorted(matplotlib.rcParams._items())} if hasattr(matplotlib.rcParams, "_items") else
                {k: repr(matplotlib.rcParams[k]) for k in sorted(matplotlib.rcParams) if k != "backend"},
                numpy=(numpy.geterr(), numpy.get_printoptions()), warnings=repr(warnings.filters), logging=logging.getLogger().level,
                colormaps=sorted(matplotlib.colormaps), colours={n: repr(getattr(plt.cm, n)([-1.0, 0.2, 0.7, 2.0, float("nan")]))
                         for n in ("RdBu_r", "viridis", "jet", "magma", "RdBu")}, interactive=plt.isinteractive(), backend=plt.get_backend())


def current():
    import matplotlib.pyplot as plt
    from matplotlib import _pylab_helpers
    m = _pylab_helpers.Gcf.get_active()
    return m.num if m else None


def dry(axs, E, o):
    """Lines and allocations this call would take, found out in a copy of this process."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        n = dict(lines=1, allocs=1)
        try:
            lib = seam.shim()
            lib.sim_alloc_thread(1)
            lib.sim_alloc_arm(1, -1, -1)
            lf = seam.LineFault()
            try:
                with lf:
                    call(o, axs, E)
            except BaseException:
                pass
            sys.settrace(None)
            n = dict(lines=lf.n, allocs=lib.sim_alloc_count())
        finally:
            _write(w, pickle.dumps(n))
            os._exit(0)
    os.close(w)
    b = _all(r)
    os.waitpid(pid, 0)
    return pickle.loads(b) if b else dict(lines=1, allocs=1)


def broken(axs, E, o, out):
    d = dry(axs, E, o)
    f = o["fault"]
    exc = {"interrupt": KeyboardInterrupt, "memory": MemoryError}.get(f["kind"])
    lf = seam.LineFault(at=1 + int(f["pos"] * d["lines"]) if exc else None, exc=exc or KeyboardInterrupt)
    lib = seam.shim()
    if not exc:
        at = int(f["pos"] * max(1, d["allocs"]))
        lib.sim_alloc_thread(1)
        lib.sim_alloc_arm(1, at, at if f["kind"] == "alloc" else 1 << 40)
    fired = 0
    try:
        try:
            with lf:
                got = call(o, axs, E)
        except KeyboardInterrupt:
            got = "KeyboardInterrupt"
    finally:
        sys.settrace(None)
        if not exc:
            fired = lib.sim_alloc_failed()
            lib.sim_alloc_arm(0, -1, -1)
    fired += lf.fired
    if fired:
        out.fired[f["kind"]] = out.fired.get(f["kind"], 0) + 1
    return got, fired, lf.where


def exec_c14(plan, root, out):
    import matplotlib.pyplot as plt
    logging.getLogger().handlers[:] = [logging.NullHandler()]
    ref = Reference(answer_c14)
    seam.patch_world(seam.Clock(), "plot")
    seam.use_numpy_handler()
    E = Data(copy.deepcopy(plan["env"]))
    wants = []
    for k, f in enumerate(plan["figs"]):
        ops = [o for o in plan["ops"] if o["op"] == "call" and o["fig"] == k]
        n = next((j for j, o in enumerate(ops) if o["fault"]), len(ops))
        wants.append(ref.ask(plan["env"], f, k, ops[:n + 1]) if ops else ([], None))
    figs = {k: make_figure(f, k) for k, f in enumerate(plan["figs"])}
    done = [0] * len(figs)
    spoiled = set()
    others = {}
    calls = together = compared = 0
    alone = {k: ref.ask(plan["env"], None, 0, [dict(o, fault=None)]) for k, o in enumerate(plan["ops"]) if o["op"] == "own"}
    for o in plan["ops"]:      # the program's data exists before anything is drawn
        if o["op"] in ("call", "own"):
            for n in ("z", "g", "p"):
                E.get(o["a"][n])
            E.get("ph0")
            E.fields(o["a"]["z"], o["a"]["g"])
            k = o["a"]["k"]
            E.curve(k), E.lsd(2, k), E.lsd(2 + k, k), E.spectrum(k % 3)
    data = E.snapshot()

    def pics(keys):
        return render({k: figs[k[1]][0] if k[0] == "target" else others[k[1]] for k in keys})
    # What every figure should look like in the end: as after the last call that drew into it, or as it was made.
    final = {k: max((j for j, o in enumerate(plan["ops"]) if o["op"] == "call" and o["fig"] == k), default=-1) for k in figs}
    last = pics([("target", k) for k in figs if final[k] < 0])
    for k, o in enumerate(plan["ops"]):
        if o["op"] == "other":
            fig = plt.figure(f"other {k}", figsize=(2, 2))
            if o["kind"] == "plot":
                plt.plot([1, 3, 2])
                plt.title("mine")
            elif o["kind"] == "image":
                plt.imshow([[1, 2], [3, 4]])
                plt.colorbar()
            elif o["kind"] == "axes":
                plt.subplot(2, 1, 1)
                plt.subplot(2, 1, 2)
            others[k] = fig
            last.update(pics([("other", k)]))
            out.note(k, "other", o["kind"])
            continue
        if o["op"] == "current":
            fig, axs = figs[o["fig"]]
            if plt.fignum_exists(f"target {o['fig']}"):
                plt.sca(axs[o["ax"] % len(axs)])
            out.note(k, "current", o["fig"])
            continue
        if o["op"] == "close":
            plt.close(f"target {o['fig']}")
            out.note(k, "close", o["fig"])
            continue
        if o["op"] == "closeothers":
            for n in others:
                plt.close(others[n])
            out.note(k, "closeothers")
            continue
        conf, cur, nums = settings(), current(), plt.get_fignums()
        if o["op"] == "own":
            fig = axs = None
            if o["r"] == "stack" and cur is not None and len(plt.figure(cur).axes) == 2 + o["a"]["k"]:
                continue        # it reuses a current figure that looks like its own
            where = f"op {k}: {o['r']} {o['a']} in a figure of its own"
        else:
            fig, axs = figs[o["fig"]]
            where = f"op {k}: {o['r']} {o['a']} on axes {o['ax']} of figure {o['fig']}"
        cax = None if cur is None else plt.figure(cur).gca() if plt.figure(cur).axes else None
        fired = 0
        try:
            if o["fault"]:
                got, fired, at = broken(axs, E, o, out)
                where += f" [{o['fault']['kind']} at {at or 'an allocation'}]"
            else:
                with seam.LineFault(cap=4_000_000) if k % 3 == 0 else _nothing():
                    got = call(o, axs, E)
        except seam.StepCap:
            out.v("does not finish", where)
            return
        finally:
            sys.settrace(None)
        calls += 1
        together += len(figs) + len(others) > 1
        where += f": {got}"
        out.note(where)
        # nobody else
        new = [n for n in plt.get_fignums() if n not in nums]
        if [n for n in plt.get_fignums() if n in nums] != nums or new and fig:
            out.v("figures appear or vanish", f"{where}: figures {nums} became {plt.get_fignums()}")
        if current() != cur and fig:
            out.v("current figure changed", f"{where}: {cur} became {current()}")
        elif cax is not None and plt.figure(cur) is not fig and plt.figure(cur).gca() is not cax:
            out.v("current axes changed", f"{where}: in another figure")
        now = settings()
        for n in conf:
            if conf[n] != now[n]:
                diff = [x for x in conf[n] if conf[n][x] != now[n].get(x)][:3] if isinstance(conf[n], dict) else now[n]
                out.v("global setting changed", f"{where}: {n}: {diff}")
        snap = E.snapshot()
        for n, c in snap.items():
            if n in data and not K.exact(c, data[n]):
                out.v("plotted data changed", f"{where}: {n}")
        # and the picture itself
        if not fig:
            for n in new:
                others[f"{k}:{n}"] = plt.figure(n)
                last.update(pics([("other", f"{k}:{n}")]))
            if cur is not None and cur in plt.get_fignums():
                plt.figure(cur)
            want, end = alone[k]
            if not fired and got != want[0]:
                out.v("outcome depends on other figures", f"{where}, alone: {want[0]}")
            elif got == "ok" and new and (not out.viol):
                compared += 1
                if last["other", f"{k}:{new[-1]}"] != end:
                    out.v("incomplete picture from a failing call" if fired else "picture depends on other figures",
                          f"{where}: not the picture that the call makes in a process without other figures")
            if got == "ok" and not new:
                out.v("draws into another figure", f"{where}: no figure was made")
            if out.viol:
                return
            continue
        me, new = o["fig"], None
        if k == final[me]:
            new = last["target", me] = pics([("target", me)])["target", me]
        if me not in spoiled:
            want, end = wants[me]
            j = done[me]
            done[me] += 1
            if got != want[j]:
                if not fired:
                    out.v("outcome depends on other figures", f"{where}, alone: {want[j]}")
                spoiled.add(me)
            elif j + 1 == len(want):
                spoiled.add(me)
                if got == "ok":
                    compared += 1
                    if (new or pics([("target", me)])["target", me]) != end:
                        out.v("incomplete picture from a failing call" if fired else "picture depends on other figures",
                              f"{where}: not the picture that the calls make in a lone figure")
        if out.viol:
            return
    for key, h in pics(list(last)).items():
        if last[key] != h:
            out.v("another figure changed", f"{key[0]} figure {key[1]} by calls for other figures")
    out.counts["calls"] = calls
    out.probe("pictures compared", compared)
    out.probe("calls beside other figures", together)
    out.nontrivial = together > 0


class _nothing:
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


# ------------------------------------------------------------------ interface

def gen(prop, r, i, tier):
    return gen_c13(r, i) if prop == "C13" else gen_c14(r, i)


def execute(prop, plan, root):
    out = fsim.Out()
    (exec_c13 if prop == "C13" else exec_c14)(copy.deepcopy(plan), root, out)
    return out.result()


def keep_list(prop, plan, path):
    return path[-1] in ("files", "figs")


def simplify(prop, plan):
    for k, o in enumerate(plan["ops"]):
        for key, v in (("verb", None), ("line", None), ("fault", None), ("ambush", None)):
            if o.get(key) is not None:
                p = copy.deepcopy(plan)
                p["ops"][k][key] = v
                yield p
        if prop == "C14" and o["op"] in ("call", "own"):
            for key, v in (("k", 0), ("b", False), ("z", "zdi0"), ("g", "g0")):
                if o["a"][key] != v:
                    p = copy.deepcopy(plan)
                    p["ops"][k]["a"][key] = v
                    yield p
    if plan.get("links"):
        p = copy.deepcopy(plan)
        p["links"] = []
        yield p
    if prop == "C14":
        used = {o["fig"] for o in plan["ops"] if "fig" in o}
        for k in range(len(plan["figs"]) - 1, -1, -1):
            if k not in used and k == len(plan["figs"]) - 1 and k:
                p = copy.deepcopy(plan)
                p["figs"].pop()
                yield p
