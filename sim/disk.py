"""The disk seam: every libc file call a simulated process makes on the simulated disk comes through here, where the
fault plan lets it pass, shortens it, fails it, or ends the process."""
import collections
import errno
import hashlib
import os
import sys

from . import seam

OPEN, READ, WRITE, CLOSE, FSYNC, TRUNC, RENAME, LINK, UNLINK, MKDIR, RMDIR, SYMLINK, STAT, CHMOD, READLINK, COPY = range(1, 17)
OPN = {OPEN: "open", READ: "read", WRITE: "write", CLOSE: "close", FSYNC: "fsync", TRUNC: "trunc", RENAME: "rename", LINK: "link",
       UNLINK: "unlink", MKDIR: "mkdir", RMDIR: "rmdir", SYMLINK: "symlink", STAT: "stat", CHMOD: "chmod", READLINK: "readlink",
       COPY: "copy"}
MUT = {WRITE, TRUNC, RENAME, LINK, UNLINK, MKDIR, RMDIR, SYMLINK, CHMOD, FSYNC, CLOSE}

CLASS = {"eio_read": (READ,), "short_read": (READ,), "eintr_read": (READ,), "eio_write": (WRITE,), "enospc": (WRITE,),
         "short_write": (WRITE,), "eintr_write": (WRITE,), "err_open": (OPEN,), "eintr_open": (OPEN,), "err_close": (CLOSE,),
         "err_fsync": (FSYNC,), "err_rename": (RENAME, LINK), "err_stat": (STAT,), "err_unlink": (UNLINK,), "err_chmod": (CHMOD,)}
TRANSIENT = {"short_read", "eintr_read", "short_write", "eintr_write", "eintr_open"}


class Disk:
    """Faults: {"kind", "at": nth matching call (1-based), optional "sticky", "frac", "errno", "torn", "after"}.

    kind "kill" counts calls that change the disk; the process dies before the call, after it ("after"), or after a
    part of it ("torn", writes only)."""

    def __init__(self, root, faults=(), known=(), step=None, on_kill=None, post=None, tid=0):
        self.root = root
        self.faults = [dict(f) for f in faults]
        self.known = set(known)
        self.names = {}
        self.step, self.on_kill, self.on_post = step, on_kill, post
        self.tid = tid
        self.n = collections.Counter()
        self.fired = collections.Counter()
        self.counts = collections.Counter()
        self.events = 0
        self.log = hashlib.sha256()
        self.tail = collections.deque(maxlen=80)
        self.full = False
        self.kill_pending = None
        self.error = None
        self.path_of = {}
        self.touched = []

    def note(self, *a):
        s = "|".join(str(x) for x in a)
        if self.root and self.root in s:
            s = s.replace(self.root, "{root}")
        self.log.update(s.encode() + b"\n")
        self.tail.append(s)

    def canon(self, p):
        if p is None:
            return "-"
        s = os.fsdecode(p)
        if self.root and (s == self.root or s.startswith(self.root + "/")):
            s = s[len(self.root):].lstrip("/")
        s = os.path.normpath(s) if s else "."
        if os.path.basename(s) in self.known or s in (".", ".."):
            return s
        return self.names.setdefault(s, f"new#{len(self.names)}")

    def __enter__(self):
        lib = seam.shim()
        self._cb, self._po = seam._CB(self._pre), seam._POST(self._post)
        lib.sim_root(self.root.encode(), int((os.getcwd() + "/").startswith(self.root + "/")))
        lib.sim_install(self._cb, self._po)
        lib.sim_owner(1)
        return self

    def __exit__(self, *a):
        lib = seam.shim()
        lib.sim_owner(0)
        lib.sim_install(seam._CB(0), seam._POST(0))
        return False

    def _pre(self, op, owner, fd, p1, p2, a):
        tr = sys.gettrace()
        try:
            sys.settrace(None)
            return self._pre2(op, fd, p1, p2, a)
        except BaseException as e:
            import traceback
            self.error = self.error or "".join(traceback.format_exception(e))
            return -errno.EIO
        finally:
            sys.settrace(tr)

    def _pre2(self, op, fd, p1, p2, a):
        self.events += 1
        name = OPN[op]
        c1 = self.canon(p1) if p1 is not None else self.path_of.get(fd, "-")
        c2 = self.canon(p2)
        size = a if op in (READ, WRITE, OPEN, TRUNC) else 0
        if self.step:
            self.step(name, c1, c2, size, fd)
        self.note(self.tid, name, c1, c2, size)
        self.counts[name] += 1
        self.n[op] += 1
        mut = op in MUT or (op == OPEN and a & (os.O_CREAT | os.O_TRUNC))
        if mut:
            self.n["mut"] += 1
            for q in (p1, p2):
                if q is not None and op != SYMLINK or q is p2 and q is not None:
                    q = os.path.relpath(os.path.abspath(os.fsdecode(q)), self.root)
                    if q not in self.touched and not q.startswith(".."):
                        self.touched.append(q)
        for f in self.faults:
            if not f.get("spent"):
                r = self._fault(f, op, a, mut)
                if r is not None:
                    return r
        if op == WRITE and self.full:
            self.fired["enospc"] += 1
            return -errno.ENOSPC
        return 0

    def _fault(self, f, op, a, mut):
        kind, at = f["kind"], f["at"]
        if kind == "kill":
            if not mut or self.n["mut"] != at:
                return None
            f["spent"] = True
            if f.get("torn") is not None and op == WRITE and a > 1:
                self.kill_pending = "kill_torn"
                return max(1, min(a - 1, int(a * f["torn"])))
            if f.get("after"):
                self.kill_pending = "kill_after"
                return 0
            self._kill("kill_before")
            return -errno.EIO
        ops = CLASS[kind]
        if op not in ops:
            return None
        n = sum(self.n[o] for o in ops)
        if n < at or (not f.get("sticky") and n != at):
            return None
        if not f.get("sticky"):
            f["spent"] = True
        if kind.startswith("short"):
            if a <= 1:
                return None
            self.fired[kind] += 1
            return max(1, min(a - 1, int(a * f.get("frac", 0.5))))
        self.fired[kind] += 1
        if kind.startswith("eintr"):
            return -errno.EINTR
        if kind == "enospc":
            self.full = not f.get("once")
            return -errno.ENOSPC
        return -f.get("errno", errno.EIO)

    def _kill(self, how):
        self.fired[how] += 1
        self.note("killed", how)
        if self.on_kill:
            self.on_kill(how)

    def _post(self, op, owner, fd, p1, p2, result):
        tr = sys.gettrace()
        try:
            sys.settrace(None)
            if op == OPEN and result >= 0:
                self.path_of[result] = self.canon(p1)
            if self.on_post:
                self.on_post(op, fd, p1, p2, result)
            if self.kill_pending:
                how, self.kill_pending = self.kill_pending, None
                self._kill(how)
        except BaseException as e:
            import traceback
            self.error = self.error or "".join(traceback.format_exception(e))
        finally:
            sys.settrace(tr)


def snapshot(root):
    """Names, kinds and bytes of everything on the simulated disk."""
    out = {}
    for d, dirs, files in os.walk(root):
        dirs.sort()
        for n in dirs + sorted(files):
            p = os.path.join(d, n)
            r = os.path.relpath(p, root)
            if os.path.islink(p):
                out[r] = ("link", os.readlink(p))
            elif os.path.isdir(p):
                out[r] = ("dir", "")
            elif not os.path.isfile(p):
                out[r] = ("special", "")
            else:
                with open(p, "rb") as f:
                    out[r] = ("file", f.read())
    return out
