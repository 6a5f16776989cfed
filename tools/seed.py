#!/usr/bin/env python3
"""Planted bugs: make SPEC.py... | test ID... | tests ID...  (scratch copies live in /dev/shm and are removed)

A spec file defines ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new), ...] and DEMO (python source)."""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, "seeded")
PY = "/opt/venv/bin/python"
REPO = os.environ.get("SEED_REPO", "/repo")
DEMO_SH = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
scratch=$(mktemp -d) || exit 2
trap 'rm -rf "$scratch"' EXIT
export MPLBACKEND=Agg MPLCONFIGDIR="$scratch/mpl" PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" DEMO_DIR="$scratch/work"
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
mkdir -p "$scratch/mpl" "$scratch/work"
/opt/venv/bin/python "$here/demo.py"
'''


def copy(tag):
    d = f"/dev/shm/seed-{tag}"
    shutil.rmtree(d, ignore_errors=True)
    subprocess.run(["cp", "-a", REPO, d], check=True)
    subprocess.run(["git", "-C", d, "checkout", "-q", "--", "."], check=True)
    return d


def make(path):
    s = runpy.run_path(path)
    d = copy("make")
    try:
        for f, old, new in s["EDITS"]:
            p = os.path.join(d, "starwinds_magnetogram", f)
            t = open(p).read()
            assert t.count(old) == 1, (path, f, t.count(old), old)
            open(p, "w").write(t.replace(old, new))
        diff = subprocess.run(["git", "-C", d, "diff"], check=True, capture_output=True, text=True).stdout
    finally:
        shutil.rmtree(d, ignore_errors=True)
    o = os.path.join(SEEDED, s["ID"])
    os.makedirs(o, exist_ok=True)
    open(os.path.join(o, "patch.diff"), "w").write(diff)
    open(os.path.join(o, "demo.py"), "w").write(s["DEMO"].lstrip())
    open(os.path.join(o, "demo.sh"), "w").write(DEMO_SH)
    os.chmod(os.path.join(o, "demo.sh"), 0o755)
    json.dump(dict(property=s["PROPERTY"], needs=s["NEEDS"], what_it_breaks=s["BREAKS"]),
              open(os.path.join(o, "meta.json"), "w"), indent=1)
    print("made", s["ID"])


def demo(i, cwd):
    with tempfile.TemporaryDirectory() as t:
        for f in ("demo.sh", "demo.py"):
            shutil.copy(os.path.join(SEEDED, i, f), t)
        r = subprocess.run(["bash", os.path.join(t, "demo.sh")], cwd=cwd, capture_output=True, text=True, timeout=300)
    return r.returncode, (r.stdout + r.stderr).strip().splitlines()[-1:]


def test(i, checks=True, suite=False, props=None):
    d = copy(i)
    try:
        subprocess.run(["git", "-C", d, "apply", os.path.join(SEEDED, i, "patch.diff")], check=True)
        a, b = demo(i, REPO), demo(i, d)
        out = [f"{i}: demo {a[0]}/{b[0]}" + ("" if a[0] == 0 and b[0] else f"  BAD DEMO {a} {b}")]
        if suite:
            env = dict(os.environ, PYTHONPATH=f"{d}:/opt/vp/plugin", MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
                       MPLCONFIGDIR="/tmp/swsim-mpl-0", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", NUMBA_NUM_THREADS="1",
                       VP_WORK=tempfile.mkdtemp())
            r = subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "vp_isolate", "-n", "8", "--dist", "worksteal",
                                "--timeout=300", f"--junitxml={env['VP_WORK']}/j.xml", "-o", "junit_family=xunit2", d + "/tests"],
                               cwd=d, env=env, capture_output=True, text=True)
            out.append("  suite: " + r.stdout.strip().splitlines()[-1])
            base = subprocess.run(["python3", "/opt/vp/results.py", env["VP_WORK"] + "/o.json", f"junit:{env['VP_WORK']}/j.xml"],
                                  capture_output=True, text=True)
            try:
                res = json.load(open(env["VP_WORK"] + "/o.json"))
                stable = json.load(open("/opt/vp/BASELINE.json"))
                stable = stable["stable"]
                got = set(res.get("passed", []))
                miss = [t for t in stable if t not in got]
                out.append(f"  stable: {len(stable) - len(miss)}/{len(stable)}" + (f" MISSING {miss[:3]}" if miss else ""))
            except (OSError, ValueError) as e:
                out.append(f"  stable: ? {e} {base.stdout[-200:]}")
            shutil.rmtree(env["VP_WORK"], ignore_errors=True)
        if checks:
            for p in props or [json.load(open(os.path.join(SEEDED, i, "meta.json")))["property"]]:
                t0 = time.time()
                o = tempfile.mkdtemp()
                r = subprocess.run(["python3", os.path.join(HERE, "run.py"), "check", p], cwd=HERE, capture_output=True, text=True,
                                   env=dict(os.environ, SIM_REPO=d, SIM_OUT=o, VERIF_SEED="1", VERIF_TIER="quick"))
                v = [l for l in r.stdout.splitlines() if l.startswith(("VIOLATION", "violation"))]
                out.append(f"  {p}: exit {r.returncode} {time.time() - t0:.0f}s {(v or (r.stdout + r.stderr).splitlines()[-1:])[0][:300]}")
                shutil.rmtree(o, ignore_errors=True)
        print("\n".join(out), flush=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    what, *a = sys.argv[1:]
    if what == "make":
        for p in a:
            make(p)
    else:
        ps = [x for x in a if len(x) == 3 and x[0] == "C"]
        ids = [x for x in a if x not in ps] or sorted(os.listdir(SEEDED))
        for i in ids:
            test(i, checks=what != "suite", suite=what in ("full", "suite"), props=ps)
