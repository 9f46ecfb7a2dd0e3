"""Simulated workspace deployments: command line processes, a user at the prompts, the UI server.

Real: everything in causy (commands through typer/click, serialisation, data
loaders, discovery, FastAPI application).  Simulated: see vfs.py, clock.py,
pool.py, and the terminal (answers come from a scripted user).
"""
import copy
import gc
import importlib
import io
import json
import re
import sys
import traceback

from . import vfs
from .clock import Clock
from .core import Discard, HarnessError, REPO, Violation
from .pool import PoolWorld
from .sched import Deadlock, Sched, SimHang, SimKilled
from .vfs import CWD, Plan, Proc, World

W = {}           # handles into the code under test


# ---- set-up ----------------------------------------------------------------------
def setup_ws():
    vfs.install()
    _install_prompts()
    from .lib import setup_lib
    setup_lib()
    import causy.cli
    import causy.ui.server
    import causy.workspaces.cli
    import causy.workspaces.models
    import typer
    import rich.live
    rich.live._RefreshThread = _NoThread
    # simulated processes share the interpreter; each has its own terminal
    import rich.console
    rich.console.Console.set_live = lambda self, live: None
    rich.console.Console.clear_live = lambda self: None
    import anyio.to_thread

    async def run_sync(func, *args, **k):
        return func(*args)
    anyio.to_thread.run_sync = run_sync
    W["cmd"] = typer.main.get_command(causy.cli.app)
    W["cli"] = causy.workspaces.cli
    W["server"] = causy.ui.server
    W["models"] = causy.workspaces.models
    W["app"] = causy.ui.server._create_ui_app(with_static=False)
    sys.stdout = Proxy("out", sys.stdout)
    sys.stderr = Proxy("err", sys.stderr)
    import linecache
    linecache.updatecache = lambda *a, **k: []
    _remember()
    # warm up lazily built state (type adapters, templates, parsers)
    from .core import Sim
    for seed in (1, 2):
        try:
            warm(Sim(seed=seed))
        except Violation:
            # the checks themselves will meet it again
            pass


class _NoThread:
    def __init__(self, *a, **k):
        pass

    def start(self):
        pass

    def stop(self):
        pass

    def join(self, timeout=None):
        pass

    def is_alive(self):
        return False


class Proxy(io.TextIOBase):
    """stdout / stderr of whichever process is running."""

    def __init__(self, which, real):
        self.which, self.real = which, real

    encoding = "utf-8"
    errors = "strict"

    def writable(self):
        return True

    def write(self, s):
        if not isinstance(s, str):
            raise TypeError("write() argument must be str")
        p = vfs.cur_proc()
        if p is None:
            if World.current is None and self.which == "err":
                self.real.write(s)
            return len(s)
        if p.dead:
            raise SimKilled()
        p.out.append(s)
        return len(s)

    def flush(self):
        if World.current is None:
            self.real.flush()

    def isatty(self):
        return False

    def fileno(self):
        return self.real.fileno()


# ---- process-wide state of the code under test -----------------------------------
_MODS = {}
_PATH = []
_USER_BASE = set()


def _containers(v):
    return type(v) in (dict, list, set)


def _remember():
    from .lib import ORIG
    _PATH[:] = list(sys.path)
    for name, m in list(sys.modules.items()):
        if name != "causy" and not name.startswith("causy."):
            continue
        d = {}
        for k, v in vars(m).items():
            if k.startswith("__"):
                continue
            d[k] = (v, copy.copy(v) if _containers(v) else None)
        classes = []
        for v in vars(m).values():
            if isinstance(v, type) and v.__module__ == name:
                cd = {}
                for k, x in vars(v).items():
                    if k.startswith("__") and k not in ("__bases__",) or k.startswith("_abc"):
                        continue
                    cd[k] = (x, copy.copy(x) if _containers(x) else None)
                classes.append((v, v.__bases__, cd))
        _MODS[name] = (m, d, classes)
    _USER_BASE.clear()
    _USER_BASE.update(sys.modules)


def _refill(v, saved):
    if type(v) is dict:
        if v != saved or list(v) != list(saved):
            v.clear()
            v.update(saved)
    elif type(v) is list:
        v[:] = saved
    else:
        v.clear()
        v.update(saved)


def fresh_process():
    """What a newly started interpreter would find."""
    from .lib import ORIG, reset_run
    sys.path[:] = _PATH
    for name in list(sys.modules):
        if name in _USER_BASE:
            continue
        f = getattr(sys.modules[name], "__file__", None) or ""
        if f.startswith(vfs.ROOT) or not f:
            if name not in _USER_BASE and (f or getattr(sys.modules[name], "__spec__", None) is None):
                del sys.modules[name]
    for p in [p for p in sys.path_importer_cache if str(p).startswith(vfs.ROOT)]:
        del sys.path_importer_cache[p]
    for name, (m, d, classes) in _MODS.items():
        cur = vars(m)
        for k in [k for k in cur if not k.startswith("__") and k not in d]:
            if not isinstance(cur[k], type(sys)):
                del cur[k]
        for k, (v, saved) in d.items():
            if cur.get(k, None) is not v:
                setattr(m, k, v)
            if saved is not None:
                _refill(v, saved)
            cc = getattr(v, "cache_clear", None)
            if cc is not None and callable(v):
                cc()
        for cls, bases, cd in classes:
            if cls.__bases__ != bases:
                cls.__bases__ = bases
            for k, (x, saved) in cd.items():
                if saved is not None and type(x) is not dict:
                    _refill(x, saved)
                elif saved is not None and k not in ("model_fields", "model_config"):
                    _refill(x, saved)
                cc = getattr(x, "cache_clear", None)
                if cc is not None and callable(x):
                    cc()
    from causy.causal_discovery.constraint.algorithms import pc
    for n, a in ORIG.items():
        getattr(pc, n)._original_algorithm = copy.deepcopy(a)
    reset_run(None)


# ---- the simulated user -------------------------------------------------------------
class User:
    """Answers prompts by what they ask for; aborts at the n-th prompt if told so."""

    def __init__(self, answers=None, abort_at=None, abort_kind="interrupt"):
        self.answers = answers or {}
        self.abort_at = abort_at
        self.abort_kind = abort_kind
        self.asked = []

    def see(self, kind, message):
        n = len(self.asked)
        self.asked.append((kind, str(message)))
        p = vfs.cur_proc()
        if p is not None and World.current is not None:
            World.current.sim.log("%s prompt %s %s" % (p.name, kind, str(message)[:60]))
            s = Sched.current
            if s is not None:
                s.yield_point("prompt")
        if self.abort_at is not None and n == self.abort_at:
            World.current.sim.fault("abort_" + self.abort_kind + "_" + kind)
            if self.abort_kind == "kill":
                # the terminal was closed
                p.die()
                raise SimKilled()
            raise (KeyboardInterrupt if self.abort_kind == "interrupt" else EOFError)()

    def select(self, message, values):
        self.see("select", message)
        a = self.answers
        vs = [str(v) for v in values]
        want = None
        if "PRECONFIGURED" in vs:
            want = a.get("pipeline_kind", "PRECONFIGURED")
        elif "json" in vs and "jsonl" in vs:
            want = a.get("loader_type", "json")
        elif "data loader" in message.lower():
            want = a.get("experiment_loader")
        elif "experiment" in message.lower():
            want = a.get("experiment_pipeline")
        elif "PC" in vs:
            want = a.get("algorithm", "PC")
        for v in values:
            if str(v) == want:
                return v
        return values[a.get("default_choice", 0) % len(values)]

    def text(self, message, default=""):
        self.see("text", message)
        m = message.lower()
        a = self.answers
        if "data loader" in m:
            return a.get("loader_name", "dl")
        if "experiment" in m:
            return a.get("experiment_name", "exp")
        if "pipeline" in m:
            return a.get("pipeline_name", "pl")
        return a.get("text", default)

    def path(self, message, default=""):
        self.see("path", message)
        return self.answers.get("path", "data.json")

    def line(self, prompt):
        """A click prompt; returns the typed line."""
        self.see("line", prompt)
        m = prompt.lower()
        a = self.answers
        if "overwrite" in m:
            return "y" if a.get("overwrite", True) else "n"
        if "experiment" in m:
            return "y" if a.get("with_experiment") else "n"
        if "data loader" in m:
            return "y" if a.get("with_loader") else "n"
        if "pipeline" in m:
            return "y" if a.get("with_pipeline") else "n"
        if "author" in m:
            return a.get("author", "")
        if "name" in m:
            return a.get("name", "")
        return a.get("line", "")


def _user():
    p = vfs.cur_proc()
    if p is None:
        raise HarnessError("prompt outside a simulated process")
    if p.user is None:
        p.user = User()
    return p.user


class FakeQuestion:
    def __init__(self, fn):
        self.fn = fn
        self.skip = None

    def unsafe_ask(self, patch_stdout=False):
        if self.skip is not None:
            return self.skip[0]
        return self.fn()

    def ask(self, patch_stdout=False, kbi_msg="Cancelled by user"):
        try:
            return self.unsafe_ask()
        except KeyboardInterrupt:
            print("\n%s\n" % kbi_msg)
            return None

    def skip_if(self, condition, default=None):
        if condition:
            self.skip = (default,)
        return self

    async def ask_async(self, *a, **k):
        return self.ask()

    async def unsafe_ask_async(self, *a, **k):
        return self.unsafe_ask()


def _values(choices):
    out = []
    for c in choices or []:
        if type(c).__name__ == "Separator":
            continue
        if isinstance(c, dict):
            out.append(c.get("value", c.get("name")))
        elif hasattr(c, "title"):
            if isinstance(c, str):
                out.append(c)
            elif not getattr(c, "disabled", None):
                out.append(c.value)
        else:
            out.append(c)
    return out


def _install_prompts():
    import click
    import click.termui
    import questionary

    def select(message, choices=None, default=None, *a, **k):
        vals = _values(choices)
        if not vals:
            raise ValueError("A list of choices needs to be provided.")
        return FakeQuestion(lambda: _user().select(message, vals))

    def text(message, default="", *a, **k):
        return FakeQuestion(lambda: _user().text(message, default))

    def path(message, default="", *a, **k):
        return FakeQuestion(lambda: _user().path(message, default))

    def confirm(message, default=True, *a, **k):
        return FakeQuestion(lambda: _user().line(message) in ("y", "yes"))

    def checkbox(message, choices=None, *a, **k):
        vals = _values(choices)
        return FakeQuestion(lambda: [_user().select(message, vals)])

    import questionary.prompts
    for name, fn in (("select", select), ("text", text), ("path", path), ("confirm", confirm),
                     ("autocomplete", select), ("rawselect", select), ("checkbox", checkbox)):
        setattr(questionary, name, fn)

    def visible(prompt=""):
        # click echoes all but the last character(s) first, then asks with the rest
        p = vfs.cur_proc()
        text_ = prompt
        if p is not None and len(prompt.strip()) == 0:
            text_ = "".join(p.out).split("\n")[-1] + prompt
        ans = _user().line(text_)
        if p is not None:
            p.out.append("\n")
        return ans
    click.termui.visible_prompt_func = visible
    click.termui.hidden_prompt_func = visible


# ---- processes -----------------------------------------------------------------------
class Ended:
    """Outcome of a process."""

    def __init__(self, proc):
        self.proc = proc

    @property
    def killed(self):
        return self.proc.dead

    @property
    def out(self):
        return self.proc.text()

    @property
    def ok(self):
        """The command reported success."""
        return not self.proc.dead and self.proc.rc == 0 and "\u274c" not in self.out

    def why(self):
        p = self.proc
        return "rc=%s %s%s" % (p.rc, p.err or "", " output: " + self.out[-300:] if self.out else "")


class Sys:
    """One simulated machine."""

    def __init__(self, sim, processes=2):
        self.sim = sim
        self.clock = Clock(sim)
        self.world = World(sim, self.clock)
        self.sched = Sched(sim)
        self.sched.lazy = True
        self.sched.line_hook = self._line
        self.pool = PoolWorld(sim, self.sched, processes=processes, queue_cap=4)
        self.procs = []
        self.n = 0

    def __enter__(self):
        self.clock.__enter__()
        self.sched.__enter__()
        self.world.__enter__()
        self.pool.__enter__()
        return self

    def __exit__(self, *a):
        try:
            for p in self.procs:
                p.die()
            self.sched.__exit__(*a)
        finally:
            self.pool.__exit__(*a)
            self.world.__exit__(*a)
            self.clock.__exit__(*a)
            vfs.LOCKS.clear()
        return False

    def _line(self, task):
        p = task.ctx.get("proc")
        if p is not None and p.task is task:
            self.world.line(p)

    def _spawn(self, name, body, user=None, plan=None):
        self.n += 1
        p = Proc(self.world, "%s%d" % (name, self.n))
        p.user, p.plan = user, plan
        p.rc, p.err, p.tb, p.value, p.ended, p.exc_type = None, None, None, None, False, None
        alive = [q for q in self.procs if not q.ended and not q.dead]
        if not alive:
            fresh_process()
        self.procs.append(p)

        def run():
            try:
                p.value = body()
                p.rc = p.value if isinstance(p.value, int) and not isinstance(p.value, bool) else 0
            except SystemExit as e:
                p.rc = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
            except SimKilled:
                if not p.dead:
                    raise
            except (Violation, HarnessError, Discard, SimHang, Deadlock):
                raise
            except BaseException as e:
                p.rc = 1
                p.err = "%s: %s" % (type(e).__name__, e)
                p.exc_type = type(e).__name__
                p.tb = _where(e)
                e.__traceback__ = None
                c = e
                while c is not None:
                    c.__traceback__ = None
                    c = c.__cause__ or c.__context__
            finally:
                if p.fds and not p.dead:
                    gc.collect()
                p.ended = True
        p.task = None
        t = self.sched.spawn(p.name, run, {"proc": p})
        p.task = t
        return p

    def start(self, args, user=None, plan=None):
        """Start `causy <args>`; returns at once."""
        args = [str(a) for a in args]
        self.sim.log("start %s" % " ".join(args))

        def body():
            return W["cmd"].main(args=args, prog_name="causy", standalone_mode=False)
        return self._spawn("cli", body, user, plan)

    def wait(self, p):
        self.sched.join(p.task)
        if p.task.exc is not None:
            e = p.task.exc
            if isinstance(e, (Violation, HarnessError, Discard, SimHang, Deadlock)):
                raise e
            if not isinstance(e, SimKilled):
                raise HarnessError("task of %s ended with %r" % (p.name, e))
        # what the process leaves running (pool feeders) ends with it
        for t in self.sched.tasks:
            if t is not p.task and t is not self.sched.main and t.ctx.get("proc") is p and not t.done:
                t.killed = True
        self.sched.tasks = [t for t in self.sched.tasks if not t.done or t is self.sched.main]
        self.sim.log("end %s rc=%s%s" % (p.name, p.rc, " killed" if p.dead else ""))
        if p.plan is not None and p.plan.kind == "power" and p.plan.fired:
            self.world.power_loss()
        return Ended(p)

    def cli(self, *args, user=None, plan=None):
        return self.wait(self.start(args, user, plan))

    def call(self, fn, name="lib", plan=None):
        """Run fn() inside a process of its own; re-raises nothing."""
        return self.wait(self._spawn(name, fn, None, plan))

    def trial(self, fn):
        """fn() on a copy of this machine's disk and clock; -> its value."""
        snap = self.world.snapshot()
        n = self.n
        self.sim.log("trial {")
        try:
            return fn()
        finally:
            self.world.restore(snap)
            self.n = n
            self.sim.log("trial }")

    def draw_plan(self, proc, kinds, lines=True):
        """A fault somewhere in an execution like the one of proc."""
        sim = self.sim
        kind = sim.pick(kinds)
        how = sim.pick(("op", "opafter", "line")) if lines and kind in ("kill", "power", "interrupt") else "op"
        if how == "line":
            return Plan(kind, ("line", sim.draw(proc.lines + 1)))
        muts = [i for i, n in enumerate(proc.oplog) if n in vfs.MUTATING]
        if muts and sim.chance(1, 2):
            at = sim.pick(muts)
        else:
            at = sim.draw(proc.ops + 1)
        return Plan(kind, (how, at), sim.pick((0, 1, 7, 64, 1 << 20)))


def _where(e):
    loc = []
    for fr in traceback.extract_tb(e.__traceback__):
        if fr.filename.startswith(REPO + "/"):
            loc.append("%s:%d" % (fr.filename[len(REPO) + 1:], fr.lineno))
    return " < ".join(reversed(loc[-3:]))


def warm(sim):
    with Sys(sim) as s:
        s.world.put("data.json", json.dumps([{"a": 1.0 * i, "b": (i * 7 % 5) * 1.0} for i in range(10)]))
        u = User({"with_pipeline": True, "with_loader": True, "with_experiment": True})
        s.cli("workspace", "init", user=u)
        s.cli("workspace", "execute")

        def ui():
            serve_ws()
            for p in ("workspace", "experiments", "experiments/exp/latest", "experiments/exp/5", "nope"):
                asgi_get("/api/v1/" + p)
        s.call(ui)


# ---- reading the workspace ---------------------------------------------------------------
def load_ws():
    """The workspace as the code under test reads it."""
    fn = getattr(W["cli"], "_current_workspace", None)
    if fn is not None:
        return fn()
    import pydantic_yaml
    with open("workspace.yml") as f:
        return pydantic_yaml.parse_yaml_raw_as(W["models"].Workspace, f.read())


def serve_ws():
    w = load_ws()
    fn = getattr(W["server"], "_set_workspace", None)
    if fn is not None:
        fn(w)
    else:
        W["server"].WORKSPACE = w


def read_ws(s):
    """What a new process reads: plain data, or an error string."""
    e = s.call(load_ws, "read")
    p = e.proc
    if p.err:
        return None, p.err
    return plain(p.value), None


def plain(w):
    def ref(x):
        if x is None:
            return None
        d = {"type": getattr(x.type, "value", x.type), "reference": x.reference}
        if getattr(x, "options", None) is not None:
            d["options"] = x.options
        return d
    return {
        "name": w.name, "author": w.author,
        "pipelines": {k: ref(v) for k, v in (w.pipelines or {}).items()},
        "dataloaders": {k: ref(v) for k, v in (w.dataloaders or {}).items()},
        "experiments": {k: {"pipeline": v.pipeline, "dataloader": v.dataloader,
                            "variables": typed(v.variables or {})}
                        for k, v in (w.experiments or {}).items()},
    }


def typed(d):
    return {k: [type(v).__name__, v] for k, v in d.items()}


VERSION = re.compile(r"(.*)_(0|[1-9][0-9]*)\.json", re.S)


def versions(files, exp):
    """{number: bytes} of the stored results of one experiment."""
    out = {}
    for name, data in files.items():
        m = VERSION.fullmatch(name)
        if m and m.group(1) == exp:
            out[int(m.group(2))] = data
    return out


def complete(data):
    """A complete stored result -> dict, else None."""
    try:
        d = json.loads(data.decode())
    except ValueError:
        return None
    if not isinstance(d, dict) or "edges" not in d or "nodes" not in d or "action_history" not in d:
        return None
    return d


def canon(d):
    """A stored result without what legitimately differs between executions.

    The order of actions within one step depends on the schedule of its workers.
    """
    d = copy.deepcopy(d)
    d.pop("created_at", None)
    d.pop("version", None)

    def strip(steps):
        for s in steps or []:
            s.pop("duration", None)
            for k in ("actions", "all_proposed_actions"):
                if isinstance(s.get(k), list):
                    s[k].sort(key=lambda x: json.dumps(x, sort_keys=True))
            strip(s.get("steps"))
    strip(d.get("action_history"))
    return d


# ---- the UI ---------------------------------------------------------------------------
def asgi_get(path):
    """One GET request handed to the real application; -> (status, parsed body or None)."""
    from urllib.parse import unquote
    sent = []

    async def receive():
        return {"type": "http.request", "body": b"", "more_body": False}

    async def send(m):
        sent.append(m)
    scope = {"type": "http", "asgi": {"version": "3.0", "spec_version": "2.3"}, "http_version": "1.1",
             "method": "GET", "scheme": "http", "path": unquote(path), "raw_path": path.encode(), "query_string": b"",
             "root_path": "", "headers": [(b"host", b"sim")], "client": ("10.0.0.1", 5000), "server": ("sim", 8000),
             "state": {}}
    co = W["app"](scope, receive, send)
    status = None
    try:
        while True:
            y = co.send(None)
            if y is not None:
                raise HarnessError("the application awaits %r" % (y,))
    except StopIteration:
        pass
    except Exception as e:
        return 500, "%s: %s at %s" % (type(e).__name__, e, _where(e))
    body = b""
    for m in sent:
        if m["type"] == "http.response.start":
            status = m["status"]
        elif m["type"] == "http.response.body":
            body += m.get("body", b"")
    try:
        return status, json.loads(body)
    except ValueError:
        return status, body.decode("utf-8", "replace")
