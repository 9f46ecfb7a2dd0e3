"""Simulated wall clock (see simclock.c)."""
import ctypes
import os

_lib = None
START = 1_700_000_000_000_000_000


def available():
    global _lib
    if _lib is None:
        p = os.environ.get("CAUSYSIM_CLOCK")
        if not p:
            return False
        _lib = ctypes.CDLL(p)
        _lib.sim_clock_set.argtypes = [ctypes.c_int, ctypes.c_longlong]
        _lib.sim_clock_step.argtypes = [ctypes.c_longlong]
        _lib.sim_clock_reads.restype = ctypes.c_longlong
    return True


class Clock:
    def __init__(self, sim=None, start_ns=START):
        self.sim = sim
        self.ns = start_ns

    def __enter__(self):
        if not available():
            from .core import HarnessError
            raise HarnessError("clock shim not loaded")
        self._set()
        return self

    def __exit__(self, *a):
        _lib.sim_clock_set(0, 0)
        return False

    def _set(self):
        _lib.sim_clock_set(1, self.ns)

    def advance(self, seconds):
        self.ns += int(seconds * 1e9)
        if self.sim is not None:
            self.sim.sim_time += max(0.0, seconds)
        self._set()

    def jump(self, seconds):
        """A step of the wall clock (either direction): a fault, not elapsed time."""
        self.ns += int(seconds * 1e9)
        self._set()

    def step(self, seconds):
        """Every reading of the clock moves it."""
        _lib.sim_clock_step(int(seconds * 1e9))

    @property
    def now(self):
        return self.ns / 1e9
