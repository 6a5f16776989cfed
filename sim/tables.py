"""Coefficient tables, magnetogram file texts and an independent parser: the reference model of the file format."""
import random


def table(spec):
    """spec {"deg","comps","style","seed"} -> ({(l, m): [complex]*comps})"""
    if "data" in spec:
        return spec["data"]
    r = random.Random(f"table:{spec['seed']}")
    style, deg, comps = spec["style"], spec["deg"], spec["comps"]
    out = {}
    for l in range(0 if style != "from1" else 1, deg + 1):
        lo = -l if style == "neg" else 0
        for m in range(lo, l + 1):
            if style == "sparse" and r.random() < 0.6 and (l, m) != (deg, deg):
                continue
            out[(l, m)] = [value(r, spec) for _ in range(comps)]
    if not out:
        out[(deg, 0)] = [value(r, spec) for _ in range(comps)]
    return out


def value(r, spec):
    def one():
        k = r.random()
        if k < 0.06:
            return 0.0
        if k < 0.09:
            return -0.0
        if k < 0.14:
            return float(r.randint(-5, 5))
        e = r.choice((0, 0, 0, 1, 2, -2, 5, -7)) if spec.get("range", "normal") == "normal" else r.choice((250, -250, 120, -120, 0))
        return r.gauss(0, 1) * 10.0 ** e
    return complex(one(), one())


BUILD = ("plain", "plain", "plain", "stack", "scalar", "sum", "arrays", "set", "copy", "scaled", "truncated")


def make(spec, shc):
    """The table as a set of coefficients, made in one of many ways."""
    t = table(spec)
    import numpy as np
    how = spec.get("build", "plain")
    if how == "stack" and spec["comps"] > 1:
        parts = [shc.Coefficients() for _ in range(spec["comps"])]
        for (l, m), v in t.items():
            for p, x in zip(parts, v):
                p.append(l, m, x)
        return shc.hstack(parts)
    if how == "scalar" and spec["comps"] == 1:
        c = shc.Coefficients()
        for (l, m), v in reversed(list(t.items())):
            c.append(l, m, v[0])
        return c
    if how == "arrays":
        return shc.from_arrays([l for l, m in t], [m for l, m in t], np.array(list(t.values())))
    if how == "sum":
        a, b = shc.Coefficients(np.zeros(spec["comps"], dtype=complex)), shc.Coefficients(np.zeros(spec["comps"], dtype=complex))
        for k, ((l, m), v) in enumerate(t.items()):
            (a, b)[k % 2].append(l, m, np.array(v))
        return a + b
    if how in ("set", "copy", "scaled", "truncated"):
        c = make(dict(spec, build="plain"), shc)
        if how == "set":
            l, m = next(iter(t))
            c.set(l, m, np.full(spec["comps"], 9j))
            c.set(l, m, np.array(t[l, m]))
            return c
        if how == "truncated":
            d = max(l for l, m in t)
            c.set(d + 2, 1, np.ones(spec["comps"]))
            return c.truncated(d)
        return c.copy() if how == "copy" else c.scale(lambda l, m: 1.0)
    c = shc.Coefficients(np.zeros(spec["comps"], dtype=complex))
    keys = list(t)
    random.Random(f"order:{spec['seed']}").shuffle(keys)
    for k in keys:
        c.append(k[0], k[1], np.array(t[k]))
    return c


def requested(spec, dmax, omin):
    """What a write of the table is asked to put in the file: {(l, m): [value]*comps}."""
    t = table(spec)
    d = max(l for l, m in t) if dmax is None else dmax
    z = [0j] * spec["comps"]
    return {(l, m): t.get((l, m), z) for l in range(0, d + 1) for m in range(max(omin, -l), l + 1)}


def close(a, b):
    """Equal to the seven significant digits of the format."""
    def c1(x, y):
        return x == y or abs(x - y) <= 1.01e-6 * max(abs(x), abs(y))
    return c1(a.real, b.real) and c1(a.imag, b.imag)


def same(t1, t2):
    """None or the first difference between two tables."""
    for k in sorted(set(t1) | set(t2)):
        a, b = t1.get(k), t2.get(k)
        if a is None or b is None:
            return f"{k} {'missing' if b is None else 'unexpected'}"
        if len(a) != len(b):
            return f"{k} has {len(b)} components, expected {len(a)}"
        for i, (x, y) in enumerate(zip(a, b)):
            if not close(x, y):
                return f"{k}[{i}] is {y}, expected {x}"
    return None


def observe(c):
    """A set of coefficients as a table, through its public observers."""
    import numpy as np
    n = len(c.default_coefficients)
    out = {}
    for (l, m), v in c.contents():
        v = np.asarray(v)
        if v.shape != (n,):
            return {"bad shape": str(v.shape)}
        out[(int(l), int(m))] = [complex(x) for x in v]
    return out


def parse(data, strict=True):
    """Strict independent parser of the bytes: (header lines, blocks as list of {(l, m): value}) or raises ValueError."""
    text = data.decode("utf-8")
    lines = text.split("\n")
    if lines and lines[-1] == "":
        lines.pop()
    elif text and strict:
        raise ValueError("file does not end with a line end")
    header, blocks, n = [], [], 0
    for ln in lines:
        tok = ln.split()
        try:
            if len(tok) < 4:
                raise ValueError
            l, m = int(tok[0]), int(tok[1])
            v = complex(float(tok[2]), float(tok[3]))
        except ValueError:
            if blocks and tok and strict:
                raise ValueError(f"line {ln!r} amid the data")
            if not blocks:
                header.append(ln)
            continue
        n += 1
        if not blocks or (l, m) in blocks[-1]:
            blocks.append({})
        blocks[-1][(l, m)] = v
    return header, blocks, n


def parse_table(data, strict=True):
    header, blocks, n = parse(data, strict)
    if not blocks:
        return header, {}, n
    keys = set(blocks[0])
    for b in blocks:
        if set(b) != keys:
            raise ValueError("blocks of different extent")
    return header, {k: [b[k] for b in blocks] for k in keys}, n


def absent(spec, style):
    """Entries that the last component of the file does not have (if it has several)."""
    if not style.get("cut") or spec["comps"] < 2:
        return ()
    t = sorted(table(spec))
    r = random.Random(f"cut:{spec['seed']}")
    gone = t[-int(style["cut"] * len(t)):] if r.random() < 0.5 else r.sample(t, int(style["cut"] * len(t)))
    return set(gone) if len(gone) < len(t) else set(t[1:])


def stored(spec, style):
    """What the text of a table in some style holds."""
    t, gone = table(spec), absent(spec, style)
    return {k: v[:-1] + [0j] if k in gone else v for k, v in t.items()}


def text(spec, style):
    """Bytes of a magnetogram file in one of many layouts that all mean table(spec)."""
    r = random.Random(f"text:{spec['seed']}:{style}")
    t = table(spec)
    eol = "\r\n" if style.get("crlf") else "\n"
    out = []
    for h in range(style.get("header", 2)):
        out.append(r.choice(("General poloidal plus toroidal field", "%d 3 -3" % len(t), "# comment, 1 of 2", "Order:%d" % spec["deg"],
                             "Output of a program", "n m g h", "star 5 x", "!")))
    for c in range(spec["comps"]):
        keys = sorted(t)
        if style.get("shuffle"):
            r.shuffle(keys)
        if c and c == spec["comps"] - 1:
            keys = [k for k in keys if k not in absent(spec, style)]
        if c and style.get("blank", True):
            out.append("")
        for k in keys:
            v = t[k][c]
            fmt = style.get("fmt", "%d %2d %13e %13e")
            out.append(style.get("lead", "") + fmt % (k[0], k[1], v.real, v.imag) + style.get("trail", ""))
            if style.get("noise") and r.random() < 0.1:
                out.append(r.choice(("", "   ", "# note", "end of part")))
    return (eol.join(out) + (eol if style.get("final", True) else "")).encode()


def rand_spec(r, comps=None, deg=None):
    return dict(deg=deg if deg is not None else r.choice((0, 1, 1, 2, 3, 3, 4, 6, 9, 15)),
                comps=comps or r.choice((1, 1, 3, 3, 2, 4)),
                style=r.choice(("dense", "dense", "from1", "from1", "sparse", "neg")), seed=r.getrandbits(40),
                range="normal" if r.random() < 0.85 else "wide")


def rand_style(r):
    return dict(header=r.choice((0, 1, 2, 2, 5)), crlf=r.random() < 0.1, shuffle=r.random() < 0.3, blank=r.random() < 0.8,
                noise=r.random() < 0.15, final=r.random() < 0.9, lead=r.choice(("", "", "  ", "\t")), trail=r.choice(("", "", " ", "  \t")),
                fmt=r.choice(("%d %2d %13e %13e", "%3d  %3d  %13e  %13e", "%2d\t%2d\t%.9e\t%.9e", "%d %d %r %r", "%d %d %+.8E %+.8E")))
