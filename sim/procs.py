"""Simulated processes: real forked interpreters that run one at a time. Each stops before every file call (and at the
start, and at each workload event) and waits; a seeded scheduler in the parent decides who goes on."""
import collections
import gc
import hashlib
import json
import os
import random
import sys

from . import disk as D
from . import seam


class Ctx:
    """What a simulated process sees of its coordinator."""

    def __init__(self, tid, out, inp, record):
        self.tid, self.out, self.inp, self.record = tid, out, inp, record
        self.disk = None

    def send(self, m):
        b = (json.dumps(m) + "\n").encode()
        while b:
            b = b[os.write(self.out, b):]

    def ask(self, m):
        self.send(m)
        if os.read(self.inp, 1) != b"g":
            os._exit(9)

    def event(self, kind, **kw):
        """A workload event; a scheduling point, stamped with the global sequence number."""
        self.ask(dict(t="ev", kind=kind, **kw))

    def step(self, name, c1, c2, size, fd):
        m = dict(t="io", op=name, p=c1, q=c2, n=size)
        if self.record and fd >= 0:
            m["ino"] = os.fstat(fd).st_ino
        self.ask(m)


class Proc:
    pass


class Coordinator:
    """specs: [{"faults": [...], ...}], runner(ctx, spec) runs in the child with the disk seam installed."""

    def __init__(self, root, specs, runner, known=(), schedule=None, policy=None, journal=False, seed=0, cap=150000, line_fault=True):
        self.root, self.specs, self.runner, self.known = root, specs, runner, known
        self.schedule = {int(a): int(b) for a, b in (schedule or [])}
        self.policy = policy
        self.rng = random.Random(policy["seed"]) if policy else None
        self.recorded = []
        self.journal = [] if journal else None
        self.seed, self.cap = seed, cap
        self.ev = 0
        self.switches = 0
        self.log = hashlib.sha256()
        self.tail = collections.deque(maxlen=120)
        self.history = []
        self.fired = collections.Counter()
        self.counts = collections.Counter()
        self.covered = 0.0
        self.error = None
        self.capped = False

    def note(self, *a):
        s = "|".join(str(x) for x in a)
        if self.root and self.root in s:
            s = s.replace(self.root, "{root}")
        self.log.update(s.encode() + b"\n")
        self.tail.append(s)

    def _child(self, tid, spec, out, inp):
        ctx = Ctx(tid, out, inp, self.journal is not None)
        clock = seam.Clock()
        real_exit = os._exit
        res = {}
        d = None

        def totals():
            return dict(fired=dict(d.fired), counts=dict(d.counts), err=d.error, events=d.events, covered=clock.covered)
        try:
            seam.patch_world(clock, f"{self.seed}:{tid}", pid=3000 + tid)
            ctx.clock = clock
            d = D.Disk(self.root, spec.get("faults", ()), self.known, step=ctx.step, tid=tid,
                       on_kill=lambda how: (ctx.send(dict(t="killed", how=how, **totals())), real_exit(9)))
            ctx.disk = d
            ctx.ask(dict(t="start"))
            with d:
                try:
                    res = self.runner(ctx, spec) or {}
                except seam.StepCap:
                    res = {"cap": True}
                finally:
                    sys.settrace(None)
                    gc.collect()
            ctx.send(dict(t="end", res=res, **totals()))
        except BaseException as e:
            import traceback
            try:
                ctx.send(dict(t="harness", err="".join(traceback.format_exception(e))[-3000:]))
            except BaseException:
                pass
        real_exit(0)

    def _snap(self):
        names, data = {}, {}
        for d, dirs, files in os.walk(self.root):
            for n in files:
                p = os.path.join(d, n)
                st = os.lstat(p)
                if os.path.islink(p):
                    continue
                names[os.path.relpath(p, self.root)] = st.st_ino
                if st.st_ino not in data:
                    with open(p, "rb") as f:
                        data[st.st_ino] = f.read()
        return names, data

    def run(self):
        procs = []
        for tid, spec in enumerate(self.specs):
            r1, w1 = os.pipe()
            r2, w2 = os.pipe()
            sys.stdout.flush(), sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                os.close(r1), os.close(w2)
                for p in procs:
                    p.f.close(), os.close(p.w)
                self._child(tid, spec, w1, r2)
            os.close(w1), os.close(r2)
            p = Proc()
            p.tid, p.pid, p.f, p.w, p.state, p.res, p.ino = tid, pid, os.fdopen(r1, "rb"), w2, "run", None, None
            procs.append(p)
        self.procs = procs
        for p in procs:
            self._recv(p)
        if self.journal is not None:
            self.journal.append(dict(op="init", ino=None, snap=self._snap()))
        cur = None
        while True:
            ready = [p for p in procs if p.state == "wait"]
            if not ready:
                break
            self.ev += 1
            if self.ev > self.cap:
                self.capped = True
                break
            nxt = self._pick(cur, ready)
            if cur is not None and nxt is not cur:
                self.switches += 1
            cur = nxt
            m = cur.msg
            if m["t"] == "io":
                self.note(cur.tid, m["op"], m["p"], m["q"], m["n"])
            elif m["t"] == "ev":
                self.note(cur.tid, m["kind"], json.dumps(m, sort_keys=True))
                self.history.append((self.ev, cur.tid, m))
            else:
                self.note(cur.tid, m["t"])
            cur.state = "run"
            os.write(cur.w, b"g")
            self._recv(cur)
            if self.journal is not None and m["t"] == "io":
                self.journal.append(dict(op=m["op"], ino=m.get("ino"), snap=self._snap(), tid=cur.tid))
        for p in procs:
            p.f.close()
            os.close(p.w)
            if p.state == "wait":
                os.kill(p.pid, 9)
            try:
                os.waitpid(p.pid, 0)
            except ChildProcessError:
                pass
        return self

    def _recv(self, p):
        line = p.f.readline()
        if not line:
            p.state, p.res = "lost", {"lost": True}
            self.error = self.error or f"simulated process {p.tid} vanished"
            return
        m = json.loads(line)
        p.msg = m
        if m["t"] in ("end", "killed"):
            self.fired.update(m["fired"])
            self.counts.update(m["counts"])
            self.covered += m["covered"]
            self.error = self.error or m["err"]
            p.state = m["t"]
            p.res = m.get("res", {})
            self.note(p.tid, m["t"], json.dumps(p.res, sort_keys=True))
            if m["t"] == "killed":
                self.history.append((self.ev, p.tid, dict(kind="killed")))
        elif m["t"] == "harness":
            self.error = self.error or m["err"]
            p.state, p.res = "lost", {}
        else:
            p.state = "wait"

    def _pick(self, cur, ready):
        default = cur if cur in ready else ready[0]
        if self.policy:
            if cur in ready and self.rng.random() >= self.policy["p"]:
                return cur
            n = self.rng.choice(ready)
            if n is not default:
                self.recorded.append([self.ev, n.tid])
            return n
        want = self.schedule.get(self.ev)
        for p in ready:
            if p.tid == want:
                return p
        return default


def crash_states(journal, name):
    """Every content `name` can have after a power failure, at any instant of the recorded execution.

    Directory changes reach the disk in order and any suffix of them that no later sync forced out may be missing;
    of the data written to a file after its last sync any prefix may be missing."""
    out = {}
    last_any = 0
    last = {}
    for k, e in enumerate(journal):
        if e["op"] == "fsync":
            last_any = k
            last[e["ino"]] = k
        for j in range(last_any, k + 1):
            ino = journal[j]["snap"][0].get(name)
            if ino is None:
                out.setdefault(None, (k, j, None))
                continue
            lo = last.get(ino, 0)
            for i in range(lo, k + 1):
                data = journal[i]["snap"][1].get(ino)
                if data is None:
                    if i == lo and ino in journal[0]["snap"][1]:
                        data = journal[0]["snap"][1][ino]
                    elif any(ino in journal[x]["snap"][1] for x in range(0, i)):
                        continue      # unlinked meanwhile
                    else:
                        data = b""
                out.setdefault(data, (k, j, i))
                base = journal[lo]["snap"][1].get(ino, b"")
                if data != base and data:
                    keep = len(base) if data.startswith(base) else 0
                    out.setdefault(data[:keep + (len(data) - keep) // 2], (k, j, i))
    return out


def linearizable(ops, initial):
    """Wing and Gong search. ops: (invoke, response or None, kind, value); a pending or failed write may or may not
    take effect, at any time after its invocation."""
    done = [o for o in ops if o[2] == "r" and o[1] is not None]
    writes = [o for o in ops if o[2] == "w"]
    items = done + writes
    inf = float("inf")
    seen = set()

    def rec(left, value):
        if not any(items[i][1] is not None for i in left):
            return True
        key = (left, value)
        if key in seen:
            return False
        seen.add(key)
        horizon = min((items[i][1] if items[i][1] is not None else inf) for i in left)
        for i in left:
            inv, res, kind, v = items[i]
            if inv > horizon:
                continue
            rest = left - {i}
            if kind == "w":
                if rec(rest, v):
                    return True
                if res is None and rec(rest, value):
                    return True
            elif v == value and rec(rest, value):
                return True
        return False
    return rec(frozenset(range(len(items))), initial)
