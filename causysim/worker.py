"""Child process: executes simulated runs and reports one JSON line per run."""
import gc
import hashlib
import importlib
import json
import os
import sys
import time
import traceback

sys.dont_write_bytecode = True
REPO = os.environ.get("CAUSYSIM_REPO", "/repo").rstrip("/")
sys.path[:] = [p for p in sys.path if p not in ("/repo", REPO)]
sys.path.insert(0, REPO)

import importlib._bootstrap_external as _be  # noqa

_cfs = _be.cache_from_source


def _no_cache(path, *a, **k):
    # never trust byte code cached for an earlier state of the tree
    if str(path).startswith(REPO + "/"):
        raise NotImplementedError
    return _cfs(path, *a, **k)


_be.cache_from_source = _no_cache

from .core import Discard, HarnessError, Sim, Violation, shrink  # noqa


def run_seed(verif_seed, check, index):
    h = hashlib.sha256(("%s/%s/%d" % (verif_seed, check, index)).encode()).digest()
    return int.from_bytes(h[:6], "big")


class Out:
    """The report channel: a duplicate of the real stdout."""

    def __init__(self):
        self.fd = os.dup(1)
        null = os.open(os.devnull, os.O_WRONLY)
        os.dup2(null, 1)

    def send(self, obj):
        data = (json.dumps(obj) + "\n").encode()
        while data:
            n = os.write(self.fd, data)
            data = data[n:]


def load_check(name):
    mod = importlib.import_module("causysim.checks." + name)
    mod.setup()
    gc.collect()
    gc.freeze()
    return mod


def one_run(mod, sim):
    """-> dict describing the run."""
    from .sched import Deadlock, SimHang, SimKilled
    t0 = time.perf_counter()
    res = {"violation": None, "discard": False, "error": None}
    gc.disable()
    try:
        try:
            mod.run(sim)
        except Violation as v:
            res["violation"] = [v.kind, v.msg]
        except Discard:
            res["discard"] = True
        except SimHang as e:
            res["violation"] = ["no-progress", str(e)]
        except Deadlock as e:
            res["violation"] = ["deadlock", str(e)]
        except SimKilled:
            res["error"] = "SimKilled escaped"
        except (KeyboardInterrupt, SystemExit) as e:
            res["error"] = "escaped %r\n%s" % (e, traceback.format_exc())
        except HarnessError:
            res["error"] = traceback.format_exc()
        except Exception:
            res["error"] = traceback.format_exc()
    finally:
        gc.enable()
    sim.log("case " + json.dumps(sim.desc, sort_keys=True, default=str)[:4000])
    sim.log("verdict %s" % (res["violation"][0] if res["violation"] else "ok"))
    res.update(
        digest=sim.digest()[:20], inter=sim.inter_digest(), n_inter=sim.inter_events,
        faults=sim.faults, probes=sim.probes, sim_time=sim.sim_time,
        nontrivial=bool(sim.nontrivial), n_choices=len(sim.choices),
        wall=time.perf_counter() - t0, desc=sim.desc,
    )
    return res


def main():
    with open(sys.argv[1]) as f:
        spec = json.load(f)
    out = Out()
    check = spec["check"]
    mod = load_check(check)
    out.send({"ready": True})
    mode = spec["mode"]
    if mode == "run":
        seeds = spec["indices"]
        deadline = spec.get("deadline")
        for n, i in enumerate(seeds):
            if deadline and time.time() > deadline:
                out.send({"stopped": True})
                break
            sim = Sim(seed=run_seed(spec["verif_seed"], check, i))
            r = one_run(mod, sim)
            r["index"] = i
            r["seed"] = sim.seed
            if r["violation"]:
                r["choices"] = sim.choices
            out.send(r)
            if n % 20 == 19:
                gc.collect()
    elif mode == "replay":
        # optional history: runs executed first in this process
        for i in spec.get("prefix", []):
            one_run(mod, Sim(seed=run_seed(spec["verif_seed"], check, i)))
        sim = Sim(choices=spec["choices"], keep_log=True)
        r = one_run(mod, sim)
        r["choices"] = sim.choices
        r["log"] = sim.log_lines[-400:]
        out.send(r)
    elif mode == "shrink":
        kind = spec["kind"]
        last = {}

        def attempt(ch):
            sim = Sim(choices=ch)
            r = one_run(mod, sim)
            last["n"] = last.get("n", 0) + 1
            if last["n"] % 20 == 0:
                gc.collect()
            ok = bool(r["violation"]) and r["violation"][0] == kind
            if ok:
                last["r"] = r
            return ok, list(sim.choices)

        ok, used = attempt(spec["choices"])
        if not ok:
            out.send({"shrunk": None})
        else:
            best, tries = shrink(attempt, used, spec.get("max_tries", 400), spec.get("deadline"))
            out.send({"shrunk": best, "tries": tries})
    out.send({"end": True})
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
