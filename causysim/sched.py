"""Deterministic scheduler: real threads, one runs at a time.

Exactly one task holds the baton.  A task gives it up only at a *yield point*:
a source line of the code under test (sys.monitoring LINE event), an object
visited by the pickler, a file system call, or a blocking wait.  Whether and to
whom the baton passes is a draw of the run's Sim, so the interleaving is part
of the choice sequence.
"""
import sys
import threading

from .core import REPO, Discard, HarnessError, Violation

REPO_PREFIX = REPO + "/causy/"
TOOL = 4
GAPS = (0, 1, 2, 3, 5, 8, 13, 25, 60, 150, 400, 1000)
# per run, one of these preemption profiles
PROFILES = (GAPS, (60, 0, 1, 2, 3, 4, 6, 9), (400, 25, 60, 100, 150, 1000), (5, 0, 0, 0, 1, 1, 2, 30),
            (150, 13, 25, 40, 60, 80, 100, 2, 0))


class SimKilled(BaseException):
    """The simulated process this code belongs to is dead."""


class SimHang(BaseException):
    """Step budget exhausted."""


class Deadlock(BaseException):
    pass


class Task:
    def __init__(self, sched, name, fn):
        self.sched = sched
        self.name = name
        self.fn = fn
        self.gate = threading.Semaphore(0)
        self.pred = None          # blocked until pred() is true
        self.done = False
        self.killed = False
        self.exc = None
        self.value = None
        self.thread = None
        self.ctx = {}             # per-task context (e.g. simulated process)

    def runnable(self):
        if self.done:
            return False
        if self.killed or self.pred is None:
            return True
        return bool(self.pred())


class Sched:
    """One per run."""

    current = None  # the active scheduler (class attribute: one run at a time)
    harness = 0     # >0: code of the harness runs inside a task

    def __init__(self, sim, line_budget=6_000_000, gaps=None):
        self.sim = sim
        self.main = Task(self, "main", None)
        self.cur = self.main
        self.tasks = [self.main]
        self.actions = []         # callables returning [(label, fn), ...]
        self.atomic = 0
        self.line_budget = line_budget
        self.lines = 0
        self.switches = 0
        self.gaps = gaps or PROFILES[sim.draw(len(PROFILES))]
        self.countdown = None
        self.closing = False
        self.line_switch = True   # preempt at source lines of the code under test
        self.line_hook = None     # called with the current task at every source line
        self.lazy = False         # no draws while there is nothing to switch to
        self.quiet = False        # switch only where the current task has to wait

    # ---- life cycle ------------------------------------------------------
    def __enter__(self):
        if Sched.current is not None:
            raise HarnessError("nested scheduler")
        Sched.current = self
        _monitor_on()
        return self

    def __exit__(self, *exc):
        try:
            self.reap()
        finally:
            _monitor_off()
            Sched.current = None
        return False

    def reap(self):
        """Kill every task that is still alive (called on the main task)."""
        self.closing = True
        self.cur = self.main
        for t in self.tasks:
            if t is self.main or t.done or t.thread is None:
                t.done = True if t is not self.main else t.done
                continue
            t.killed = True
            n = 0
            while not t.done and n < 50:
                n += 1
                self.cur = t
                t.gate.release()
                self.main.gate.acquire()
            self.cur = self.main
            t.thread.join(5)
        self.tasks = [self.main]
        self.actions = []
        self.closing = False

    # ---- tasks -----------------------------------------------------------
    def spawn(self, name, fn, ctx=None):
        t = Task(self, name, fn)
        t.ctx = dict(ctx) if ctx is not None else dict(self.cur.ctx)

        def body():
            t.gate.acquire()
            try:
                if not t.killed:
                    t.value = t.fn()
            except BaseException as e:  # noqa
                t.exc = e
            finally:
                t.done = True
                self._leave(t)

        t.thread = threading.Thread(target=body, name="sim-" + name, daemon=True)
        self.tasks.append(t)
        t.thread.start()
        if self.countdown is None and not self.lazy:
            self._rearm()
        return t

    def _leave(self, t):
        """Task t has ended; hand the baton on."""
        if self.closing or t.killed:
            nxt = self.main
        elif isinstance(t.exc, (Violation, HarnessError, Discard, SimHang, Deadlock)):
            self.main.exc = t.exc
            self.main.pred = None
            nxt = self.main
        else:
            try:
                nxt = self._choose(exclude=t)
            except BaseException as e:
                self.main.exc = e
                nxt = self.main
        if nxt is None:
            self.main.exc = Deadlock("no runnable task after %s ended" % t.name)
            nxt = self.main
        self.cur = nxt
        nxt.gate.release()

    def _rearm(self):
        self.countdown = self.gaps[self.sim.draw(len(self.gaps))]

    def _others(self):
        return len(self.tasks) > 1 and any(t is not self.cur and t.runnable() for t in self.tasks)

    def _avail_actions(self):
        acts = []
        for prov in self.actions:
            acts.extend(prov())
        return acts

    def _choose(self, exclude=None, prefer=None):
        """Run zero or more environment actions, then return the next task."""
        while True:
            cands = [t for t in self.tasks if t is not exclude and t.runnable()]
            if prefer is not None and prefer in cands:
                cands.remove(prefer)
                cands.insert(0, prefer)
            acts = self._avail_actions()
            n = len(cands) + len(acts)
            if n == 0:
                return None
            i = self.sim.draw(n)
            if i < len(cands):
                return cands[i]
            label, fn = acts[i - len(cands)]
            self.sim.inter(label)
            self.atomic += 1
            try:
                fn()
            finally:
                self.atomic -= 1

    def _switch(self, nxt, why):
        me = self.cur
        if nxt is me:
            return
        self.switches += 1
        self.sim.inter("sw:%s>%s@%s" % (me.name, nxt.name, why))
        self.cur = nxt
        nxt.gate.release()
        me.gate.acquire()
        self._check_wake(me)

    def _check_wake(self, me):
        if me is self.main and me.exc is not None:
            e, me.exc = me.exc, None
            raise e
        if me.killed:
            raise SimKilled()

    # ---- yield points ----------------------------------------------------
    def yield_point(self, why):
        """Possible preemption."""
        if self.atomic or self.closing:
            if self.closing and self.cur.killed:
                raise SimKilled()
            return
        if self.quiet:
            return
        if len(self.tasks) == 1 and not self.actions:
            return
        if self.lazy and not self._others() and not self._avail_actions():
            return
        if self.countdown is None:
            self._rearm()
        if self.countdown > 0:
            self.countdown -= 1
            return
        self._rearm()
        if not self.lazy and not self._others() and not self._avail_actions():
            return
        nxt = self._choose(prefer=self.cur)
        if nxt is not None and nxt is not self.cur:
            self._switch(nxt, why)

    def on_line(self, code, line):
        self.lines += 1
        if self.lines > self.line_budget:
            self.lines = 0
            raise SimHang("no progress after %d simulated steps (%s:%d)" % (
                self.line_budget, code.co_filename, line))
        if self.line_hook is not None and not self.closing:
            self.line_hook(self.cur)
        if self.line_switch and (len(self.tasks) > 1 or self.actions):
            self.yield_point("line")

    def block_until(self, pred, why):
        """Suspend the current task until pred() is true."""
        me = self.cur
        if self.atomic:
            raise HarnessError("blocking inside an atomic section")
        while not pred():
            me.pred = pred
            try:
                nxt = self._choose()
            finally:
                me.pred = None
            if nxt is None:
                raise Deadlock("%s waits for %s and nothing can run" % (me.name, why))
            if nxt is me:
                continue
            me.pred = pred
            try:
                self._switch(nxt, why)
            finally:
                me.pred = None

    def kill_task(self, t):
        t.killed = True

    def join(self, t):
        self.block_until(lambda: t.done, "join " + t.name)
        return t


_INTERESTING = {}


def _interesting(code):
    v = _INTERESTING.get(code)
    if v is None:
        fn = code.co_filename
        v = fn.startswith(REPO_PREFIX) or fn.startswith("/simws/") or (
            fn.endswith("pydantic/main.py") and code.co_name == "__getstate__")
        _INTERESTING[code] = v
    return v


def _on_line(code, line):
    if not _interesting(code):
        return sys.monitoring.DISABLE
    s = Sched.current
    if s is None:
        return None
    if threading.current_thread() is not (s.cur.thread or _MAIN_THREAD):
        return None
    s.on_line(code, line)
    return None


_MAIN_THREAD = threading.main_thread()
_REGISTERED = [False]


def _monitor_on():
    m = sys.monitoring
    if not _REGISTERED[0]:
        m.use_tool_id(TOOL, "causysim")
        m.register_callback(TOOL, m.events.LINE, _on_line)
        _REGISTERED[0] = True
    m.set_events(TOOL, m.events.LINE)


def _monitor_off():
    sys.monitoring.set_events(TOOL, 0)


def hang_violation(e):
    return Violation("no-progress", str(e))
