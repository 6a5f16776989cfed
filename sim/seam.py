"""Seams shared by all families: the preloaded shim, numpy's allocator, the clock, entropy, process ids.

Nothing in here draws from a generator while logging, and nothing reads a real clock."""
import ast
import ctypes
import os
import random
import sys


class WaitsForever(Exception):
    """A call waits for a lock that nobody is left to release."""


class HarnessError(Exception):
    pass


class SimCrash(BaseException):
    """Unwinds the thread of a task that is being abandoned."""


class StepCap(BaseException):
    """The run used up its step budget: the code under test did not finish."""


_CB = ctypes.CFUNCTYPE(ctypes.c_long, ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_char_p, ctypes.c_char_p, ctypes.c_long)
_POST = ctypes.CFUNCTYPE(None, ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_char_p, ctypes.c_char_p, ctypes.c_long)

_shim = None


def shim():
    global _shim
    if _shim is None:
        path = os.environ.get("SIM_SHIM")
        if not path or path not in os.environ.get("LD_PRELOAD", ""):
            raise HarnessError("simulator shim is not preloaded")
        lib = ctypes.CDLL(path)
        lib.sim_root.argtypes = [ctypes.c_char_p, ctypes.c_int]
        lib.sim_handler.restype = ctypes.c_void_p
        lib.sim_alloc_arm.argtypes = [ctypes.c_int, ctypes.c_long, ctypes.c_long]
        lib.sim_alloc_count.restype = ctypes.c_long
        lib.sim_alloc_failed.restype = ctypes.c_long
        lib.sim_alloc_fill.argtypes = [ctypes.c_int, ctypes.c_uint64]
        _shim = lib
    return _shim


_handler_capsule = None
_set_handler = None


def use_numpy_handler():
    """Install the simulated allocator for the calling thread's context."""
    global _handler_capsule, _set_handler
    if _handler_capsule is None:
        from numpy._core import _multiarray_umath as mu
        api = ctypes.pythonapi
        api.PyCapsule_GetPointer.restype = ctypes.c_void_p
        api.PyCapsule_GetPointer.argtypes = [ctypes.py_object, ctypes.c_char_p]
        api.PyCapsule_New.restype = ctypes.py_object
        api.PyCapsule_New.argtypes = [ctypes.c_void_p, ctypes.c_char_p, ctypes.c_void_p]
        table = api.PyCapsule_GetPointer(mu._ARRAY_API, None)
        fn = ctypes.cast(table, ctypes.POINTER(ctypes.c_void_p))[304]
        _set_handler = ctypes.PYFUNCTYPE(ctypes.py_object, ctypes.py_object)(fn)
        _handler_capsule = api.PyCapsule_New(shim().sim_handler(), b"mem_handler", None)
    _set_handler(_handler_capsule)


def repo():
    return os.environ.get("SIM_REPO", "/repo")


PKG = None


def package_dir():
    global PKG
    if PKG is None:
        import starwinds_magnetogram
        PKG = os.path.dirname(os.path.abspath(starwinds_magnetogram.__file__)) + os.sep
        if os.path.realpath(PKG) != os.path.realpath(os.path.join(repo(), "starwinds_magnetogram")):
            raise HarnessError(f"package comes from {PKG}")
    return PKG


_withlines = {}


def withlines(filename):
    """Header lines of with statements: an exception delivered on the way in or out of one can skip its exit, in any
    program, and belongs to the interpreter rather than to the code under test."""
    s = _withlines.get(filename)
    if s is None:
        s = set()
        try:
            with open(filename) as f:
                for node in ast.walk(ast.parse(f.read())):
                    if isinstance(node, (ast.With, ast.AsyncWith)):
                        s.update(range(node.lineno, node.body[0].lineno))
        except Exception:
            pass
        _withlines[filename] = s
    return s


class Clock:
    """Simulated time: moves one millisecond per reading, plus planned jumps (which may be negative or huge)."""

    def __init__(self, jumps=()):
        self.now = 1.7e9
        self.start = self.now
        self.covered = 0.0
        self.reads = 0
        self.jumps = list(jumps)

    def read(self):
        self.reads += 1
        step = 1e-3 + (self.jumps.pop(0) if self.jumps else 0.0)
        self.now += step
        self.covered += abs(step)
        return self.now

    def sleep(self, s):
        self.now += s
        self.covered += abs(s)


def patch_world(clock, seed, pid=4242):
    """Replace clock, entropy and process identity for this (forked) process."""
    import time
    import tempfile
    import uuid
    for n in ("time", "monotonic", "perf_counter", "process_time"):
        setattr(time, n, clock.read)
    for n in ("time_ns", "monotonic_ns", "perf_counter_ns"):
        setattr(time, n, lambda: int(clock.read() * 1e9))
    time.sleep = clock.sleep
    rng = random.Random(seed)
    os.urandom = rng.randbytes
    uuid.uuid4 = lambda: uuid.UUID(int=rng.getrandbits(128), version=4)
    os.getpid = lambda: pid
    tempfile._name_sequence = None
    tempfile._RandomNameSequence.rng = property(lambda self: rng)


def quiet_warnings():
    import warnings
    warnings.simplefilter("ignore")


class StepLimit:
    """Ends a computation that executes far more package lines than any run should."""


def limit_lines(cap):
    package_dir()
    n = [0]

    def local(frame, event, arg):
        n[0] += 1
        if n[0] > cap:
            raise StepCap()
        return local

    def glob(frame, event, arg):
        return local if frame.f_code.co_filename.startswith(PKG) else None
    sys.settrace(glob)
    return n


class LineFault:
    """Raise an exception at the nth executed package line (interrupt, or memory running out there)."""

    def __init__(self, at=None, exc=KeyboardInterrupt, cap=2_000_000, skip_with=True):
        self.at, self.exc, self.cap, self.n, self.fired, self.where = at, exc, cap, 0, 0, None
        self.skip_with = skip_with
        package_dir()

    def _local(self, frame, event, arg):
        if event == "line":
            self.n += 1
            if self.at is not None and self.n >= self.at:
                if not (self.skip_with and frame.f_lineno in withlines(frame.f_code.co_filename)):
                    self.at = None
                    self.fired += 1
                    self.where = f"{os.path.basename(frame.f_code.co_filename)}:{frame.f_code.co_name}"
                    raise self.exc()
            if self.n > self.cap:
                raise StepCap()
        return self._local

    def _glob(self, frame, event, arg):
        return self._local if frame.f_code.co_filename.startswith(PKG) else None

    def __enter__(self):
        sys.settrace(self._glob)
        return self

    def __exit__(self, *a):
        sys.settrace(None)
