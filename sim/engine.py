"""Runs, searches, minimises and replays simulated executions.

One run = one forked child of a process that has imported everything and done nothing. Its plan is drawn from
random.Random(f"{seed}:{property}:{index}"); executing a plan is a pure function of the plan and the code."""
import collections
import copy
import gc
import hashlib
import importlib
import json
import os
import random
import shutil
import signal
import sys
import time as _time
import traceback

_now = _time.time
_sleep = _time.sleep
_fork_pid = os.getpid

FAMILY = {"C01": "fsim", "C02": "fsim", "C03": "fsim", "C04": "clisim", "C05": "clisim", "C06": "clisim", "C07": "callsim",
          "C08": "callsim", "C09": "callsim", "C10": "callsim", "C11": "contsim", "C12": "rngsim", "C13": "plotsim", "C14": "plotsim",
          "C15": "shipsim", "C16": "impsim", "C17": "leaksim"}

CPU_LIMIT = 120.0        # seconds of processor time of one run (typical: well under one)
IDLE_LIMIT = 40.0        # seconds in which no thread of a run used any processor time
SHRINK_LISTS = ("ops", "faults", "schedule", "procs", "history", "files", "figs", "jumps")


def family(prop):
    return importlib.import_module("sim." + FAMILY[prop])


def scratch_base():
    for d in ("/dev/shm", "/tmp"):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            return d
    raise RuntimeError("no scratch space")


def make_scratch():
    d = os.path.join(scratch_base(), "swsim%07d" % (_fork_pid() % 10_000_000))
    shutil.rmtree(d, ignore_errors=True)
    os.mkdir(d)
    return d


# ------------------------------------------------------------------ one run

def child_main(prop, plan, scratch, wfd):
    os.setpgid(0, 0)
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    gc.set_threshold(10 ** 9)    # Collections happen where the simulation asks for them, but the program finds the collector enabled.
    gc.enable()
    try:
        root = os.path.join(scratch, "d")
        os.mkdir(root)
        os.chdir(root)
        devnull = os.open(os.devnull, os.O_RDWR)
        if not os.environ.get("SIM_VERBOSE"):
            os.dup2(devnull, 1)
            os.dup2(devnull, 2)
        os.dup2(devnull, 0)
        res = family(prop).execute(prop, plan, root)
    except BaseException as e:
        res = {"harness": "".join(traceback.format_exception(e))[-4000:]}
    b = json.dumps(res, default=str).encode()
    while b:
        b = b[os.write(wfd, b):]
    os._exit(0)


def _group_usage(pgid):
    """(processor time, any thread running) of the processes of one run, all started by us."""
    total, running = 0.0, False
    tick = os.sysconf("SC_CLK_TCK")
    for p in os.listdir("/proc"):
        if p.isdigit():
            try:
                with open(f"/proc/{p}/stat") as f:
                    s = f.read().rsplit(")", 1)[1].split()
            except OSError:
                continue
            if int(s[2]) == pgid:
                total += (int(s[11]) + int(s[12])) / tick
                running = running or s[0] in "RD"
    return total, running


def run_plan(prop, plan, scratch):
    """Execute a plan in a fresh child of this process; returns its result, or {"hang": ...}. CPython 3.12 itself can crash when
    threads are exchanged under bytecode tracing: such a run is repeated with line tracing, and what that gives is what counts."""
    res = _run_plan(prop, plan, scratch)
    if res.get("digest") == "crash" and plan.get("opcodes"):
        res = _run_plan(prop, dict(plan, opcodes=False, schedule=None) if plan.get("policy") else dict(plan, opcodes=False), scratch)
        if "probes" in res:
            res["probes"]["repeated by lines after an interpreter crash"] = 1
    return res


def _run_plan(prop, plan, scratch):
    """Execute a plan in a fresh child of this process; returns its result, or {"hang": ...}."""
    import select
    d = os.path.join(scratch, "r")
    shutil.rmtree(d, ignore_errors=True)
    os.mkdir(d)
    r, w = os.pipe()
    sys.stdout.flush(), sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        child_main(prop, plan, d, w)
    os.close(w)
    chunks, hang = [], None
    start = last_change = _now()
    last_cpu = -1.0
    while True:
        ok, _, _ = select.select([r], [], [], 2.0)
        if ok:
            b = os.read(r, 1 << 16)
            if not b:
                break
            chunks.append(b)
            continue
        cpu, running = _group_usage(pid)
        t = _now()
        if running or cpu > last_cpu + 0.005:
            last_cpu, last_change = max(cpu, last_cpu), t
        if cpu > CPU_LIMIT:
            hang = f"the run used more than {CPU_LIMIT:.0f} s of processor time"
        elif t - last_change > IDLE_LIMIT:
            hang = f"every thread of the run was blocked for {IDLE_LIMIT:.0f} s"
        if hang:
            break
    os.close(r)
    try:
        os.killpg(pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
    try:
        _, status = os.waitpid(pid, 0)
    except ChildProcessError:
        status = 0
    shutil.rmtree(d, ignore_errors=True)
    if hang:
        return {"hang": hang, "viol": [["hang", hang]], "digest": "hang", "fired": {}, "counts": {}, "probes": {}}
    try:
        return json.loads(b"".join(chunks))
    except ValueError:
        if os.WIFSIGNALED(status) and os.WTERMSIG(status) in (signal.SIGSEGV, signal.SIGABRT, signal.SIGFPE, signal.SIGBUS):
            m = f"the process died of signal {os.WTERMSIG(status)}"
            return {"viol": [["crash", m]], "digest": "crash", "fired": {}, "counts": {}, "probes": {}}
        return {"harness": f"run child ended with status {status} and no result"}


def plan_for(prop, seed, i, tier):
    rng = random.Random(f"{seed}:{prop}:{i}")
    return family(prop).gen(prop, rng, i, tier)


# ------------------------------------------------------------------ search

class Stats:
    def __init__(self):
        self.runs = 0
        self.fired, self.counts, self.probes = (collections.Counter() for _ in range(3))
        self.digests, self.keys = set(), set()
        self.nontrivial = 0
        self.covered = 0.0
        self.events = self.switches = 0
        self.viol = []
        self.known = {}
        self.harness = []
        self.samples = []

    def add(self, i, plan, res, keep):
        self.runs += 1
        if res.get("harness"):
            self.harness.append((i, res["harness"]))
            return
        self.fired.update(res.get("fired", {}))
        self.counts.update(res.get("counts", {}))
        self.probes.update(res.get("probes", {}))
        self.digests.add(res.get("digest", "")[:16])
        if res.get("nontrivial", True):
            self.keys.add(res.get("key", res.get("digest", ""))[:16])
        self.covered += res.get("covered", 0.0)
        self.events += res.get("events", 0)
        self.switches += res.get("switches", 0)
        if keep:
            self.samples.append(dict(index=i, plan=plan, trace=res.get("tail", [])[:25]))

    def export(self):
        d = dict(self.__dict__)
        for k in ("fired", "counts", "probes"):
            d[k] = dict(d[k])
        for k in ("digests", "keys"):
            d[k] = sorted(d[k])
        return d

    def merge(self, d):
        self.runs += d["runs"]
        for k in ("fired", "counts", "probes"):
            getattr(self, k).update(d[k])
        self.digests.update(d["digests"])
        self.keys.update(d["keys"])
        self.covered += d["covered"]
        self.events += d["events"]
        self.switches += d["switches"]
        self.viol += d["viol"]
        self.harness += d["harness"]
        self.samples += d["samples"]
        for k, v in d["known"].items():
            self.known.setdefault(k, v)


def findings(prop):
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    try:
        with open(os.path.join(here, "known_findings.json")) as f:
            return [x for x in json.load(f)["findings"] if x["property"] == prop and x.get("status", "open") == "open"]
    except FileNotFoundError:
        return []


def split_known(prop, viol, known_list):
    """A violation is known only if its signature is exactly one that is listed."""
    fresh, known = [], []
    for v in viol:
        hit = [k for k in known_list if v[0] == k["signature"]]
        (known if hit else fresh).append(v)
    return fresh, known


def worker(prop, seed, tier, w, W, n, wfd, scratch, stop_path, deadline):
    st = Stats()
    kl = findings(prop)
    for i in range(w, n, W):
        if os.path.exists(stop_path):
            try:
                with open(stop_path) as f:
                    low = int(f.read() or n)
            except ValueError:
                low = n
            if i > low:
                break
        if _now() > deadline:
            st.harness.append((i, "out of time"))
            break
        plan = plan_for(prop, seed, i, tier)
        res = run_plan(prop, plan, scratch)
        st.add(i, plan, res, keep=i < 2)
        fresh, known = split_known(prop, res.get("viol", []), kl)
        for v in known:
            st.known.setdefault(v[0], v[1])
        if fresh:
            st.viol.append((i, plan, fresh, res.get("schedule")))
            tmp = f"{stop_path}.{w}"
            with open(tmp, "w") as f:
                f.write(str(i))
            try:
                cur = int(open(stop_path).read())
            except (FileNotFoundError, ValueError):
                cur = n
            if i < cur:
                os.replace(tmp, stop_path)
            break
        if len(st.harness) > 3:
            break
    b = json.dumps(st.export(), default=str).encode()
    while b:
        b = b[os.write(wfd, b):]
    os._exit(0)


def search(prop, seed, tier, n, workers, limit, scratch):
    stop_path = os.path.join(scratch, "stop")
    deadline = _now() + limit
    kids = []
    for w in range(workers):
        r, wf = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            for k in kids:
                os.close(k[1])
            os.close(r)
            sub = os.path.join(scratch, "w%02d" % w)
            os.mkdir(sub)
            try:
                worker(prop, seed, tier, w, workers, n, wf, sub, stop_path, deadline)
            except BaseException:
                traceback.print_exc()
            os._exit(3)
        os.close(wf)
        kids.append((pid, r))
    st = Stats()
    import threading
    out = [b""] * workers

    def drain(ix):
        parts = []
        while True:
            b = os.read(kids[ix][1], 1 << 20)
            if not b:
                break
            parts.append(b)
        out[ix] = b"".join(parts)
    ths = [threading.Thread(target=drain, args=(ix,)) for ix in range(workers)]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    for ix, (pid, r) in enumerate(kids):
        os.close(r)
        os.waitpid(pid, 0)
        if not out[ix]:
            st.harness.append((-1, f"worker {ix} died"))
        else:
            st.merge(json.loads(out[ix]))
    return st


# ------------------------------------------------------------------ minimise and replay

def _lists(x, path=()):
    if isinstance(x, dict):
        for k, v in x.items():
            if k in SHRINK_LISTS and isinstance(v, list):
                yield path + (k,)
            yield from _lists(v, path + (k,))
    elif isinstance(x, list):
        for i, v in enumerate(x):
            yield from _lists(v, path + (i,))


def _at(x, path):
    for p in path:
        x = x[p]
    return x


def _with(x, path, val):
    y = copy.deepcopy(x)
    t = _at(y, path[:-1])
    t[path[-1]] = val
    return y


def candidates(prop, plan):
    fam = family(prop)
    for path in sorted(_lists(plan), key=lambda p: (len(p), str(p))):
        v = _at(plan, path)
        n = len(v)
        if n == 0:
            continue
        if getattr(fam, "keep_list", lambda *a: False)(prop, plan, path):
            continue
        size = n
        while size >= 1:
            for a in range(0, n, size):
                if size < n or n > 0:
                    yield _with(plan, path, v[:a] + v[a + size:])
            size //= 2
    if hasattr(fam, "simplify"):
        yield from fam.simplify(prop, plan)


def classes(res):
    return {v[0] for v in res.get("viol", [])}


def minimise(prop, plan, want, scratch, budget=160, wall=90.0):
    t0 = _now()
    used = 0
    seen = set()
    again = True
    while again and used < budget:
        again = False
        for c in candidates(prop, plan):
            key = hashlib.sha1(json.dumps(c, sort_keys=True).encode()).hexdigest()
            if key in seen:
                continue
            seen.add(key)
            if used >= budget or _now() - t0 > wall:
                return plan, used
            used += 1
            res = run_plan(prop, c, scratch)
            if want in classes(res):
                plan, again = c, True
                break
    return plan, used


def pin(plan, schedule, prop=None):
    """Turn a plan whose schedule was drawn at random into one that names its switches."""
    if prop and schedule and hasattr(family(prop), "pin"):
        return family(prop).pin(plan, schedule)
    if schedule is None or not plan.get("policy"):
        return plan
    p = copy.deepcopy(plan)
    p["policy"], p["schedule"] = None, schedule
    return p
