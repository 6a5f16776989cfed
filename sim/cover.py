"""Which lines of the package simulated runs execute (all processes and threads of them): a map in memory shared with every forked copy."""
import glob
import mmap
import os
import sys

from . import seam

BASE, MAP = {}, None


def install():
    global MAP
    pkg = seam.package_dir()
    n = 0
    for f in sorted(glob.glob(os.path.join(pkg, "**", "*.py"), recursive=True)):
        with open(f) as g:
            BASE[f] = n, g.read().splitlines()
        n += len(BASE[f][1]) + 2
    MAP = mmap.mmap(-1, n)
    mon = sys.monitoring
    mon.use_tool_id(3, "simcover")

    def line(code, ln):
        b = BASE.get(code.co_filename)
        if b is not None and 0 <= ln <= len(b[1]):
            MAP[b[0] + ln] = 1
        return mon.DISABLE
    mon.register_callback(3, mon.events.LINE, line)
    mon.set_events(3, mon.events.LINE)


def functions(path):
    import ast
    with open(path) as f:
        for node in ast.walk(ast.parse(f.read())):
            if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
                yield node


def report(show):
    for f, (b, lines) in BASE.items():
        body = set()
        for fn in functions(f):
            import ast
            for st in fn.body:
                for x in ast.walk(st):
                    if isinstance(x, ast.stmt) and not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant)):
                        body.add(x.lineno)
        miss = sorted(x for x in body if not MAP[b + x])
        if body:
            print(f"{os.path.basename(f)}: {len(body) - len(miss)}/{len(body)}")
            for x in miss if show else ():
                print(f"    {x}: {lines[x - 1]}")
