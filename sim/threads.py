"""Simulated threads: real threads of one process that run one at a time. A thread may be exchanged for another at every
executed line (or bytecode) of the package and whenever it waits for a lock that package code made."""
import _thread
import collections
import hashlib
import random
import sys
import threading

from . import seam

_allocate = _thread.allocate_lock
_real = dict(Lock=threading.Lock, RLock=threading.RLock, _allocate_lock=threading._allocate_lock)

WORLD = None
_me = threading.local()


def current():
    return getattr(_me, "task", None)


class SimLock:
    """A lock whose waiting the scheduler sees. Outside simulated threads it behaves like the real one."""

    def __init__(self, reentrant=False):
        self.reentrant = reentrant
        self.owner, self.count = None, 0

    def acquire(self, blocking=True, timeout=-1):
        t = current()
        who = t or _thread.get_ident()
        while True:
            if self.owner is None or (self.reentrant and self.owner == who):
                self.owner = who
                self.count += 1
                return True
            if not blocking or timeout == 0:
                return False
            if t is None or WORLD is None:
                raise seam.WaitsForever("for a lock that nobody is left to release")
            if timeout > 0 and t.timeouts > 3:
                t.timeouts = 0
                return False
            t.timeouts += timeout > 0
            WORLD.block(t, self)

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.count -= 1
        if self.count == 0:
            self.owner = None
            if WORLD is not None:
                WORLD.unblock(self)

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self.owner == (current() or _thread.get_ident())

    def _release_save(self):
        s = (self.owner, self.count)
        self.count = 1
        self.release()
        return s

    def _acquire_restore(self, s):
        self.acquire()
        self.count = s[1]

    def _at_fork_reinit(self):
        self.owner, self.count = None, 0

    def __reduce_ex__(self, protocol):      # like the real ones
        raise TypeError(f"cannot pickle '_thread.{'RLock' if self.reentrant else 'lock'}' object")


def patch_locks(package_prefix):
    """From now on locks created (directly or through threading's own classes) by package code are simulated. Must run
    before the package is imported, so that locks made at import time are included."""
    def made_by_package():
        f = sys._getframe(2)
        for _ in range(6):
            if f is None:
                return False
            n = f.f_code.co_filename
            if n.startswith(package_prefix):
                return True
            if "threading" not in n and "functools" not in n and "contextlib" not in n and "queue" not in n and "dataclasses" not in n:
                return False
            f = f.f_back
        return False

    def lock():
        return SimLock() if made_by_package() else _real["Lock"]()

    def rlock(*a, **k):
        return SimLock(True) if made_by_package() else _real["RLock"]()
    threading.Lock, threading._allocate_lock, threading.RLock = lock, lock, rlock


class ImportLocks:
    """What the import system takes for the _thread module: its waiting is simulated too."""

    def __getattr__(self, n):
        return getattr(_thread, n)

    def allocate_lock(self):
        return SimLock()


def patch_imports():
    sys.modules["_frozen_importlib"]._thread = ImportLocks()


class Task:
    def __init__(self, tid):
        self.tid, self.state, self.on, self.timeouts = tid, "ready", None, 0
        self.baton = _allocate()
        self.baton.acquire()
        self.error = None


class World:
    def __init__(self, bodies, schedule=None, policy=None, opcodes=False, cap=300000, modules=False):
        self.modules = modules      # exchange threads also between the statements of a module that is being imported
        self.bodies, self.opcodes, self.cap = bodies, opcodes, cap
        self.schedule = {int(a): int(b) for a, b in (schedule or [])}
        self.policy = policy
        self.rng = random.Random(policy["seed"]) if policy else None
        self.recorded = []
        self.ev = self.switches = 0
        self.log = hashlib.sha256()
        self.tail = collections.deque(maxlen=80)
        self.deadlock = self.capped = False
        self.abandon = False
        self.covered, self.error = 0.0, None
        self.fired, self.counts = collections.Counter(), collections.Counter()
        self.sites = set()
        self.visits = {}
        self.done = _allocate()
        self.done.acquire()
        seam.package_dir()

    # ---- tracing

    def _local(self, frame, event, arg):
        if event == "line" or event == "opcode":
            t = current()
            if t is not None:
                self.point(t, frame)
        return self._local

    def _glob(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(seam.PKG) and (self.modules or frame.f_code.co_name != "<module>"):
            if self.opcodes:
                frame.f_trace_opcodes = True
            return self._local
        return None

    # ---- scheduling (always called by the thread that holds the baton)

    def point(self, t, frame=None):
        if self.abandon:
            raise seam.SimCrash()
        self.ev += 1
        if self.ev > self.cap:
            self.capped = True
            self._abandon(t)
        nxt = self._pick(t, frame)
        if nxt is not t:
            where = f"{frame.f_code.co_name}:{frame.f_lineno - frame.f_code.co_firstlineno}" if frame is not None else "-"
            self._switch(t, nxt, where)

    def rest(self, t):
        """The program lets other threads go on."""
        self.ev += 1
        nxt = self._pick(t, p=0.9)
        if nxt is not t:
            self._switch(t, nxt, "rest")

    def _ready(self):
        return [x for x in self.tasks if x.state == "ready"]

    def _pick(self, t, frame=None, p=None):
        ready = self._ready()
        default = t if t in ready else (ready[0] if ready else None)
        if len(ready) <= 1:
            return default
        if self.policy:
            p = p or self.policy["p"]
            if frame is not None and "rare" in self.policy:
                # Places this run has seldom been at, such as the statements of an outer function between long inner loops.
                k = frame.f_code, frame.f_lasti
                n = self.visits[k] = self.visits.get(k, 0) + 1
                p = max(p, self.policy["rare"] / n)
            if t in ready and self.rng.random() >= p:
                return t
            n = self.rng.choice(ready)
            if n is not default:
                self.recorded.append([self.ev, n.tid])
            return n
        want = self.schedule.get(self.ev)
        for x in ready:
            if x.tid == want:
                return x
        return default

    def _switch(self, t, nxt, where):
        self.switches += 1
        s = f"{self.ev} thread {t.tid} -> {nxt.tid} at {where}"
        self.log.update(s.encode())
        self.tail.append(s)
        self.sites.add(where)
        nxt.baton.release()
        t.baton.acquire()
        if self.abandon:
            raise seam.SimCrash()

    def _abandon(self, t):
        """Let every thread unwind, one after the other."""
        self.abandon = True
        raise seam.SimCrash()

    def block(self, t, lock):
        t.state, t.on = "blocked", lock
        self.ev += 1
        nxt = self._pick(t)
        if nxt is None:
            self.deadlock = True
            t.state = "ready"
            self._abandon(t)
        self._switch(t, nxt, "lock")

    def unblock(self, lock):
        for x in self.tasks:
            if x.state == "blocked" and x.on is lock:
                x.state, x.on = "ready", None

    def _body(self, t, f):
        t.baton.acquire()
        _me.task = t
        try:
            if not self.abandon:
                sys.settrace(self._glob)
                f(t)
        except seam.SimCrash:
            pass
        except BaseException as e:
            import traceback
            self.error = self.error or "".join(traceback.format_exception(e))[-3000:]
        finally:
            sys.settrace(None)
            t.state = "done"
            _me.task = None
            nxt = None
            if self.abandon:
                left = [x for x in self.tasks if x.state != "done"]
                nxt = left[0] if left else None
            else:
                ready = self._ready()
                if ready:
                    self.ev += 1
                    nxt = self._pick(t)
                    s = f"{self.ev} thread {t.tid} ends -> {nxt.tid}"
                    self.log.update(s.encode())
                    self.tail.append(s)
                elif any(x.state == "blocked" for x in self.tasks):
                    self.deadlock = self.abandon = True
                    nxt = next(x for x in self.tasks if x.state == "blocked")
            if nxt is not None:
                nxt.baton.release()
            else:
                self.done.release()

    def run(self):
        global WORLD
        WORLD = self
        self.tasks = [Task(i) for i in range(len(self.bodies))]
        for t, f in zip(self.tasks, self.bodies):
            _thread.start_new_thread(self._body, (t, f))
        self.ev += 1
        first = self._pick(self.tasks[0])
        first.baton.release()
        self.done.acquire()
        WORLD = None
        self.counts["switch sites"] = len(self.sites)
        return self
