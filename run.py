#!/usr/bin/env python3
"""check PROP | replay FILE | selftest [PROP...] | one PROP INDEX | survey PROP RUNS | cover PROP,.. RUNS | digests PROP RUNS | build"""
import hashlib
import json
import os
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = os.environ.get("SIM_PYTHON", "/opt/venv/bin/python")
REPO = os.environ.get("SIM_REPO", "/repo")


def build_shim():
    src = os.path.join(HERE, "sim", "shim.c")
    with open(src, "rb") as f:
        tag = hashlib.sha256(f.read()).hexdigest()[:12]
    for d in (os.path.join(HERE, "build"), "/tmp/swsim-build-%d" % os.getuid()):
        try:
            os.makedirs(d, exist_ok=True)
            out = os.path.join(d, f"shim-{tag}.so")
            if not os.path.exists(out):
                tmp = f"{out}.{os.getpid()}"
                subprocess.run(["gcc", "-O2", "-w", "-shared", "-fPIC", "-o", tmp, src, "-ldl"], check=True)
                os.replace(tmp, out)
            return out
        except OSError:
            continue
    raise SystemExit(2)


def reexec():
    """Same interpreter settings every time: shim, one numeric thread, no bytecode, fixed hash seed."""
    if os.environ.get("SIM_SHIM"):
        return
    so = build_shim()
    mpl = "/tmp/swsim-mpl-%d" % os.getuid()
    if not os.path.isdir(mpl):
        tmp = f"{mpl}.{os.getpid()}"
        try:
            shutil.copytree("/opt/vp/mplconfig", tmp)
        except OSError:
            os.makedirs(tmp, exist_ok=True)
        try:
            os.rename(tmp, mpl)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    env = {"PATH": "/opt/venv/bin:/usr/local/bin:/usr/bin:/bin", "HOME": os.environ.get("HOME", "/root"), "LANG": "C.UTF-8",
           "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": os.environ.get("SIM_HASHSEED", "0"), "MPLBACKEND": "Agg",
           "MPLCONFIGDIR": mpl, "OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1", "MKL_NUM_THREADS": "1",
           "NUMBA_NUM_THREADS": "1", "LD_PRELOAD": so, "SIM_SHIM": so, "SIM_REPO": REPO, "COLUMNS": "80", "TZ": "UTC",
           "PYTHONPATH": HERE + (os.pathsep + REPO if REPO != "/repo" else "")}
    for k in ("VERIF_SEED", "VERIF_TIER", "SIM_WORKERS", "SIM_RUNS", "SIM_VERBOSE", "SIM_OUT", "NUMBA_CACHE_DIR"):
        if k in os.environ:
            env[k] = os.environ[k]
    os.execve(PY, [PY, "-u", os.path.abspath(__file__)] + sys.argv[1:], env)


def workers():
    try:
        n = len(os.sched_getaffinity(0))
    except AttributeError:
        n = os.cpu_count() or 1
    return int(os.environ.get("SIM_WORKERS", min(8, n)))


def check(prop):
    from sim import engine
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    fam = engine.family(prop)
    t0 = time.time()
    fam.warm(prop)
    n = int(os.environ.get("SIM_RUNS", fam.RUNS[prop][0 if tier == "quick" else 1]))
    print(f"seed={seed} property={prop} tier={tier} runs={n}")
    scratch = engine.make_scratch()
    code = 0
    nviol = 0
    try:
        st = engine.search(prop, seed, tier, n, workers(), 780 if tier == "quick" else 6 * 3600, scratch)
        for sig, what in sorted(st.known.items()):
            print(f"KNOWN-FINDING: property={prop} {sig}: {what}")
        if st.viol:
            code, nviol = report(engine, prop, seed, st, scratch)
        if st.harness and not code:
            for i, h in st.harness[:3]:
                print(f"harness error in run {i}: {h}", file=sys.stderr)
            code = 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    wall = time.time() - t0
    evidence(prop, tier, seed, fam, st, wall, nviol)
    print(f"property={prop} runs={st.runs} distinct={len(st.keys)} faults={sum(st.fired.values())} wall={wall:.1f}s exit={code}")
    return code


def report(engine, prop, seed, st, scratch):
    st.viol.sort(key=lambda v: v[0])
    for i, plan, fresh, schedule in st.viol:
        want = fresh[0][0]
        if want == "hang":
            engine.CPU_LIMIT, engine.IDLE_LIMIT = 60.0, 20.0
        p = engine.pin(plan, schedule, prop)
        if p is not plan and want not in engine.classes(engine.run_plan(prop, p, scratch)):
            p = plan
        first = engine.run_plan(prop, p, scratch)
        if want not in engine.classes(first):
            print(f"run {i}: violation {want} did not repeat: {first.get('harness', '')}", file=sys.stderr)
            continue
        small, used = (p, 0) if want == "hang" else engine.minimise(prop, p, want, scratch)
        final = engine.run_plan(prop, small, scratch)
        small = small if want in engine.classes(final) else p
        msg = next(v[1] for v in (final if small is not p else first)["viol"] if v[0] == want)
        out = os.environ.get("SIM_OUT", os.path.join(HERE, "replays"))
        os.makedirs(out, exist_ok=True)
        path = os.path.join(out, f"{prop}-{seed}-{i}.json")
        with open(path, "w") as f:
            json.dump(dict(property=prop, seed=seed, run=i, violation=want, message=msg, shrink_runs=used, plan=small,
                           digest=final.get("digest"), trace=final.get("tail", [])), f, indent=1)
        env = dict(os.environ)
        env.pop("SIM_SHIM"), env.pop("LD_PRELOAD")
        r = subprocess.run([sys.executable, os.path.abspath(__file__), "replay", path], env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        print(f"violation {want}: {msg}")
        print(f"seed={seed} run={i} minimised with {used} runs; replay in a fresh process: "
              f"{'reproduced' if r.returncode == 1 else 'exit %d' % r.returncode}")
        if r.returncode != 1:
            print(r.stdout[-1500:], file=sys.stderr)
        print(f"VIOLATION property={prop} replay={path}")
        return 1, 1
    return 2, 0


def replay(path):
    from sim import engine
    with open(path) as f:
        d = json.load(f)
    prop = d["property"]
    engine.family(prop).warm(prop)
    scratch = engine.make_scratch()
    try:
        res = engine.run_plan(prop, d["plan"], scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    if res.get("harness"):
        print(res["harness"], file=sys.stderr)
        return 2
    for c, m in res.get("viol", []):
        print(f"{c}: {m}")
    for t in res.get("tail", []):
        print("  ", t)
    if d["violation"] in engine.classes(res):
        print(f"same event log: {res.get('digest') == d.get('digest')}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    print("not reproduced")
    return 0


def evidence(prop, tier, seed, fam, st, wall, nviol):
    hours = max(wall, 1e-9) / 3600
    cov = dict(evaluations=st.runs, distinct_nontrivial=len(st.keys), rule=fam.RULE[prop], samples=st.samples[:2],
               simulated_runs_per_hour=round(st.runs / hours), seeds_per_hour=round(st.runs / hours),
               simulated_seconds_covered=round(st.covered, 3), scheduler_events=st.events, context_switches=st.switches,
               distinct_event_logs=len(st.digests), faults_injected=dict(sorted(st.fired.items())),
               seam_calls=dict(sorted(st.counts.items())), probes=dict(sorted(st.probes.items())),
               real_components=fam.REAL, stubbed_components=fam.STUB,
               known_findings=sorted(st.known))
    ev = dict(property=prop, tier=tier, seed=seed, level=fam.LEVEL[prop], coverage=cov, wall_s=round(wall, 2), violations=nviol,
              assumptions=fam.ASSUME)
    b = json.dumps(ev, indent=1, default=str)
    if len(b) > 60000:
        for s in cov["samples"]:
            s["plan"] = json.dumps(s["plan"])[:4000]
        b = json.dumps(ev, indent=1, default=str)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
        f.write(b + "\n")


def digests(prop, n, survey=False):
    """Event-log digests of the first n runs (for the determinism test), or every violation in them."""
    from sim import engine
    seed = int(os.environ.get("VERIF_SEED", "1"))
    engine.family(prop).warm(prop)
    scratch = engine.make_scratch()
    W = workers()
    try:
        kids = []
        for w in range(W):
            pid = os.fork()
            if pid == 0:
                sub = os.path.join(scratch, "w%02d" % w)
                os.mkdir(sub)
                for i in range(w, n, W):
                    res = engine.run_plan(prop, engine.plan_for(prop, seed, i, "quick"), sub)
                    if survey:
                        for v in res.get("viol", []) + ([["HARNESS", res["harness"]]] if res.get("harness") else []):
                            os.write(1, f"{i:06d} {v[0]} | {v[1][-400:]}\n".encode())
                        continue
                    os.write(1, (f"{i:06d} {res.get('digest')} {sorted(engine.classes(res))} {str(res.get('harness'))[-300:]!r}\n").encode())
                os._exit(0)
            kids.append(pid)
        for k in kids:
            os.waitpid(k, 0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return 0


def selftest(props):
    """The same seeds in fresh processes, at several worker counts and hash seeds, must give the same event logs."""
    from sim import engine
    bad = 0
    for prop in props or sorted(engine.FAMILY):
        ref = None
        for W, hs in ((8, "0"), (3, "0"), (8, "77")):
            env = dict(os.environ, SIM_WORKERS=str(W), SIM_HASHSEED=hs)
            env.pop("SIM_SHIM"), env.pop("LD_PRELOAD")
            r = subprocess.run([sys.executable, os.path.abspath(__file__), "digests", prop, os.environ.get("SIM_RUNS", "120")],
                               env=env, stdout=subprocess.PIPE, text=True)
            got = sorted(r.stdout.splitlines())
            if ref is None:
                ref = got
            diff = [a + " / " + b for a, b in zip(ref, got) if a != b]
            print(prop, f"workers={W} hashseed={hs} runs={len(got)} differing={len(diff)}")
            for x in diff[:3]:
                print("   ", x)
            bad += bool(diff) or len(got) != len(ref) or not got
    return 1 if bad else 0


def one(prop, i):
    from sim import engine
    engine.family(prop).warm(prop)
    plan = engine.plan_for(prop, int(os.environ.get("VERIF_SEED", "1")), i, os.environ.get("VERIF_TIER", "quick"))
    print(json.dumps(plan, indent=1)[:4000])
    scratch = engine.make_scratch()
    try:
        res = engine.run_plan(prop, plan, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    print(json.dumps(res, indent=1)[:6000])
    return 0


def cover(props, n):
    """Package lines executed by the first n runs of each property."""
    from sim import cover as C
    from sim import engine
    scratch = engine.make_scratch()
    try:
        for prop in props:
            engine.family(prop).warm(prop)
        C.install()
        kids = []
        for w in range(8):
            pid = os.fork()
            if pid == 0:
                sub = os.path.join(scratch, f"w{w}")
                os.mkdir(sub)
                for prop in props:
                    for i in range(w, n, 8):
                        engine.run_plan(prop, engine.plan_for(prop, 1, i, "quick"), sub)
                os._exit(0)
            kids.append(pid)
        for k in kids:
            os.waitpid(k, 0)
        C.report(True)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return 0


def main():
    reexec()
    cmd, args = sys.argv[1], sys.argv[2:]
    sys.path.insert(0, HERE)
    if cmd == "check":
        return check(args[0])
    if cmd == "replay":
        return replay(args[0])
    if cmd == "digests":
        return digests(args[0], int(args[1]))
    if cmd == "survey":
        return digests(args[0], int(args[1]), True)
    if cmd == "selftest":
        return selftest(args)
    if cmd == "one":
        return one(args[0], int(args[1]))
    if cmd == "cover":
        return cover(args[0].split(","), int(args[1]))
    if cmd == "build":
        return 0
    raise SystemExit(2)


if __name__ == "__main__":
    sys.exit(main())
