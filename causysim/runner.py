"""Parent process of a check: spreads runs over workers, minimises, reports.

usage: python -m causysim.runner <check> [quick|thorough]
       python -m causysim.runner --replay <file>
"""
import atexit
import hashlib
import json
import os
import queue
import re
import subprocess
import sys
import tempfile
import shutil
import threading
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
# the tree under test; the override serves development only
REPO = os.environ.get("CAUSYSIM_REPO", "/repo").rstrip("/")
OUT = os.environ.get("CAUSYSIM_EVIDENCE", HERE)
WORKERS = 8
SILENCE = 240  # seconds without any report from a worker


ZONES = ("UTC", "CET-1CEST,M3.5.0,M10.5.0/3", "EST5EDT,M3.2.0,M11.1.0", "IST-5:30")


def child_env(scratch, hashseed, zone):
    env = {
        "PATH": os.environ.get("PATH", "/usr/bin:/bin"),
        "HOME": scratch,
        "TMPDIR": scratch,
        "LANG": "C.UTF-8",
        "USER": "simuser",
        "PYTHONPATH": REPO + ":" + HERE,
        "PYTHONHASHSEED": str(hashseed),
        "PYTHONDONTWRITEBYTECODE": "1",
        "OMP_NUM_THREADS": "1",
        "MKL_NUM_THREADS": "1",
        "OPENBLAS_NUM_THREADS": "1",
        "TORCHINDUCTOR_CACHE_DIR": scratch,
        "NO_COLOR": "1",
        "TZ": zone,
        "CAUSY_SIM": "1",
    }
    if REPO != "/repo":
        env["CAUSYSIM_REPO"] = REPO
    if os.environ.get("CAUSYSIM_STDERR"):
        env["CAUSYSIM_STDERR"] = "1"
    pre = clock_shim()
    env["LD_PRELOAD"] = pre
    env["CAUSYSIM_CLOCK"] = pre
    return env


_SHIM = []


def clock_shim():
    """Compile the wall clock shim into a scratch directory (once per run of a check)."""
    if not _SHIM:
        d = tempfile.mkdtemp(prefix="causysim-shim-")
        atexit.register(shutil.rmtree, d, True)
        so = os.path.join(d, "simclock.so")
        subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", so,
                        os.path.join(HERE, "causysim", "simclock.c")], check=True)
        _SHIM.append(so)
    return _SHIM[0]


def hashseed_for(k):
    return 101 + 37 * k


class Worker:
    def __init__(self, spec, k, scratch, outq):
        self.k = k
        self.spec = spec
        self.last = time.time()
        cwd = os.path.join(scratch, "w%d_%d" % (k, time.time_ns()))
        os.makedirs(cwd)
        self.err = open(os.path.join(cwd, "stderr.txt"), "wb+")
        # a file: the argument list of a process is limited
        with open(cwd + ".json", "w") as f:
            json.dump(spec, f)
        self.p = subprocess.Popen(
            [PY, "-m", "causysim.worker", cwd + ".json"],
            stdout=subprocess.PIPE, stderr=None if os.environ.get("CAUSYSIM_STDERR") else self.err,
            stdin=subprocess.DEVNULL,
            cwd=cwd, env=child_env(cwd, hashseed_for(k) if "hashseed" not in spec else spec["hashseed"], ZONES[k % len(ZONES)]))
        self.q = outq
        self.ended = False
        self.t = threading.Thread(target=self._read, daemon=True)
        self.t.start()

    def _read(self):
        for line in self.p.stdout:
            try:
                self.q.put((self, json.loads(line)))
            except ValueError:
                pass
        self.p.wait()
        self.q.put((self, None))

    def stderr_text(self):
        try:
            self.err.flush()
            self.err.seek(0)
            return self.err.read().decode("utf-8", "replace")[-3000:]
        except Exception:
            return ""

    def kill(self):
        try:
            self.p.kill()
        except Exception:
            pass


def single(spec, scratch, timeout=300):
    """Run one worker to completion; -> list of messages, or None on timeout/death."""
    q = queue.Queue()
    w = Worker(spec, spec.get("k", 0), scratch, q)
    msgs, ok = [], False
    end = time.time() + timeout
    while True:
        try:
            _, m = q.get(timeout=max(0.1, end - time.time()))
        except queue.Empty:
            w.kill()
            return None, "timeout"
        if m is None:
            break
        if m.get("end"):
            ok = True
        msgs.append(m)
    return (msgs, None) if ok else (None, "worker died: " + w.stderr_text())


def load_known():
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f).get("findings", [])


def known_match(prop, violation, known):
    for k in known:
        if k.get("property") == prop and k.get("status") == "known" and k["kind"] == violation[0] \
                and re.search(k["match"], violation[1]):
            return k
    return None


def confirm(spec, violation, scratch):
    """Replay in a fresh process. -> (reproduced, result)"""
    msgs, err = single(dict(spec, mode="replay"), scratch, timeout=300)
    if msgs is None:
        return False, None
    for m in msgs:
        if "digest" in m:
            return bool(m["violation"]) and m["violation"][0] == violation[0], m
    return False, None


def write_replay(prop, data):
    d = os.path.join(OUT, "replays")
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha256(json.dumps(data["choices"]).encode() + data["violation"][0].encode()).hexdigest()[:10]
    path = os.path.join(d, "%s-%s.json" % (prop, h))
    with open(path, "w") as f:
        json.dump(data, f, indent=1)
    return path


def handle_violation(check, prop, r, verif_seed, indices_of, scratch, t_end):
    """Minimise, confirm in a fresh process, write the replay file."""
    k = r["k"]
    base = {"check": check, "verif_seed": verif_seed, "k": k, "hashseed": hashseed_for(k)}
    choices, prefix = r["choices"], []
    kind = r["violation"][0]
    rep, res = confirm(dict(base, choices=choices), r["violation"], scratch)
    if not rep:
        # depends on what ran before in that process: replay with that history
        earlier = [i for i in indices_of(k) if i < r["index"]]
        for n in (1, 2, 4, 8, 16, 32, 64, 10 ** 9):
            pre = earlier[-n:]
            rep, res = confirm(dict(base, choices=choices, prefix=pre), r["violation"], scratch)
            if rep:
                prefix = pre
                break
            if n >= len(earlier):
                break
    reproduced = rep
    tries = 0
    if rep and not prefix and not os.environ.get("CAUSYSIM_NOSHRINK"):
        budget = max(20.0, min(60.0, t_end - time.time()))
        msgs, err = single(dict(base, mode="shrink", kind=kind, choices=choices,
                                deadline=time.time() + budget, max_tries=600), scratch, timeout=budget + 200)
        if msgs:
            for m in msgs:
                if m.get("shrunk") is not None:
                    rep2, res2 = confirm(dict(base, choices=m["shrunk"]), r["violation"], scratch)
                    if rep2:
                        choices, res, tries = m["shrunk"], res2, m["tries"]
    data = dict(base, property=prop, seed=r["seed"], index=r["index"], prefix=prefix, choices=choices,
                original_choices=len(r["choices"]), shrink_tries=tries, reproduced=reproduced,
                violation=(res or r)["violation"] if (res and res.get("violation")) else r["violation"],
                trace=(res or {}).get("log", []), digest=(res or {}).get("digest"))
    return write_replay(prop, data), data


def run_check(check, tier):
    import importlib.util
    t0 = time.time()
    verif_seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    meta = load_meta(check)
    prop = meta["property"]
    n_runs = meta["runs"][tier]
    cap = meta.get("cap", {"quick": 400, "thorough": 3300})[tier]
    if os.environ.get("CAUSYSIM_RUNS"):
        n_runs = int(os.environ["CAUSYSIM_RUNS"])
    deadline = t0 + cap
    scratch = tempfile.mkdtemp(prefix="causysim-")
    known = load_known()
    try:
        def indices_of(k):
            return list(range(k, n_runs, WORKERS))

        q = queue.Queue()
        ws = [Worker({"check": check, "mode": "run", "indices": indices_of(k), "verif_seed": verif_seed,
                      "deadline": deadline}, k, scratch, q) for k in range(WORKERS)]
        live = set(ws)
        results, errors, bad, silent = [], [], None, None
        known_seen = {}
        clean_end = set()
        t_ready = None
        while live:
            try:
                w, m = q.get(timeout=5)
            except queue.Empty:
                now = time.time()
                for w in list(live):
                    if now - w.last > SILENCE:
                        silent = w
                if silent:
                    break
                continue
            w.last = time.time()
            if m is None:
                live.discard(w)
                if w not in clean_end:
                    errors.append("worker %d died: %s" % (w.k, w.stderr_text()))
                continue
            if m.get("ready"):
                t_ready = t_ready or time.time()
                continue
            if m.get("end"):
                clean_end.add(w)
                continue
            if m.get("stopped"):
                continue
            m["k"] = w.k
            results.append(m)
            if m["error"]:
                errors.append("run index %d seed %d: %s" % (m["index"], m["seed"], m["error"]))
                if len(errors) > 3:
                    break
            if m["violation"]:
                kf = known_match(prop, m["violation"], known)
                if kf:
                    known_seen[kf["id"]] = known_seen.get(kf["id"], 0) + 1
                elif bad is None:
                    bad = m
                    break
        for w in ws:
            w.kill()
        t_run = time.time() - (t_ready or t0)

        if silent is not None and bad is None:
            done = {m["index"] for m in results}
            todo = [i for i in indices_of(silent.k) if i not in done]
            idx = todo[0] if todo else -1
            msgs, err = single({"check": check, "mode": "run", "indices": [idx], "verif_seed": verif_seed,
                                "k": silent.k, "hashseed": hashseed_for(silent.k)}, scratch, timeout=150)
            if msgs is None and err == "timeout":
                data = {"check": check, "property": prop, "verif_seed": verif_seed, "k": silent.k, "index": idx,
                        "hashseed": hashseed_for(silent.k), "choices": [], "seed_index": idx, "hang": True,
                        "violation": ["no-progress", "run %d does not end" % idx], "reproduced": True}
                path = write_replay(prop, data)
                evidence(meta, prop, tier, verif_seed, results, t0, t_run, 1, known_seen, None)
                print("VIOLATION property=%s replay=%s" % (prop, path))
                return 1
            errors.append("worker %d silent" % silent.k)

        if bad is not None:
            path, data = handle_violation(check, prop, bad, verif_seed, indices_of, scratch, time.time() + 100)
            evidence(meta, prop, tier, verif_seed, results, t0, t_run, 1, known_seen, data)
            print("violated: [%s] %s" % tuple(data["violation"]))
            print("seed=%s run=%d choices=%d (from %d), reproduced in a fresh process: %s" % (
                bad["seed"], bad["index"], len(data["choices"]), len(bad["choices"]), data["reproduced"]))
            for l in data["trace"][-40:]:
                print("  " + l)
            print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        if errors:
            for e in errors[:4]:
                sys.stderr.write("HARNESS ERROR: %s\n" % e)
            return 2
        # determinism self-check: repeat a sample in other processes
        det = determinism(check, meta, verif_seed, results, scratch, tier)
        evidence(meta, prop, tier, verif_seed, results, t0, t_run, 0, known_seen, None, det)
        if not results:
            sys.stderr.write("HARNESS ERROR: no runs\n")
            return 2
        for kf in known:
            if kf.get("property") == prop and kf.get("status") == "known":
                print("KNOWN-FINDING: property=%s %s" % (prop, kf["text"]))
        nd = len({m["inter"] + m["digest"] for m in results if m["nontrivial"] and not m["discard"]})
        print("ok property=%s runs=%d distinct=%d wall=%.1fs determinism=%s" % (
            prop, len(results), nd, time.time() - t0, det))
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def determinism(check, meta, verif_seed, results, scratch, tier):
    n = meta.get("det_sample", {"quick": 16, "thorough": 200})[tier]
    by = {m["index"]: m["digest"] for m in results}
    idx = sorted(by)
    step = max(1, len(idx) // max(1, n))
    sample = idx[::step][:n]
    byk = {}
    for i in sample:
        byk.setdefault(i % WORKERS, []).append(i)
    q = queue.Queue()
    # same hash seed, other process, other history, fewer workers
    ws = [Worker({"check": check, "mode": "run", "indices": v[::-1], "verif_seed": verif_seed,
                  "hashseed": hashseed_for(k)}, k, scratch, q) for k, v in byk.items()]
    live, same, diff = set(ws), 0, []
    end = time.time() + 200
    while live and time.time() < end:
        try:
            w, m = q.get(timeout=5)
        except queue.Empty:
            continue
        if m is None:
            live.discard(w)
        elif "digest" in m:
            if by.get(m["index"]) == m["digest"]:
                same += 1
            else:
                diff.append(m["index"])
    for w in ws:
        w.kill()
    return {"repeated": same + len(diff), "identical": same, "different": diff[:10]}


def load_meta(check):
    path = os.path.join(HERE, "causysim", "checks", "meta.json")
    with open(path) as f:
        return json.load(f)[check]


def evidence(meta, prop, tier, seed, results, t0, t_run, violations, known_seen, data, det=None):
    faults, probes = {}, {}
    for m in results:
        for k, v in m["faults"].items():
            faults[k] = faults.get(k, 0) + v
        for k, v in m["probes"].items():
            probes[k] = probes.get(k, 0) + v
    distinct = {m["inter"] + m["digest"] for m in results if m["nontrivial"] and not m["discard"]}
    samples = []
    for m in results:
        if m.get("desc") and m["nontrivial"]:
            samples.append({"seed": m["seed"], "index": m["index"], "case": m["desc"], "decisions": m["n_inter"],
                            "digest": m["digest"]})
        if len(samples) >= 3:
            break
    n = len(results)
    cov = {
        "evaluations": n,
        "distinct_nontrivial": len(distinct),
        "rule": meta["rule"],
        "samples": samples or [{"seed": m["seed"], "digest": m["digest"]} for m in results[:2]],
        "simulated_runs": n,
        "discarded_runs": sum(1 for m in results if m["discard"]),
        "seeds_per_hour": int(n / t_run * 3600) if t_run > 0 else 0,
        "simulated_seconds_covered": round(sum(m["sim_time"] for m in results), 1),
        "scheduling_and_fault_decisions": sum(m["n_inter"] for m in results),
        "distinct_interleavings": len({m["inter"] for m in results}),
        "distinct_measure": "hash of the ordered sequence of task switches, batch completions and injected faults",
        "faults_injected": dict(sorted(faults.items())),
        "probes_hit": dict(sorted(probes.items())),
        "probes_never_hit": [p for p in meta.get("probes", []) if not probes.get(p)],
        "real_components": meta["real"],
        "stubbed_components": meta["stub"],
        "known_findings_hit": known_seen,
    }
    if det is not None:
        cov["determinism_check"] = det
    if data is not None:
        cov["violation"] = {"kind": data["violation"][0], "message": data["violation"][1][:500],
                            "choices": len(data["choices"]), "reproduced": data["reproduced"]}
    ev = {"property": prop, "tier": tier, "seed": seed, "level": meta.get("level", "exploration"), "coverage": cov,
          "assumptions": meta["assumptions"], "wall_s": round(time.time() - t0, 2), "violations": violations}
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    with open(os.path.join(OUT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


def replay(path):
    with open(path) as f:
        d = json.load(f)
    scratch = tempfile.mkdtemp(prefix="causysim-")
    try:
        if d.get("hang"):
            msgs, err = single({"check": d["check"], "mode": "run", "indices": [d["index"]], "k": d["k"],
                                "verif_seed": d["verif_seed"], "hashseed": d["hashseed"]}, scratch, timeout=150)
            if err == "timeout":
                print("VIOLATION property=%s replay=%s" % (d["property"], path))
                return 1
            return 0
        rep, res = confirm(d, d["violation"], scratch)
        if res is None:
            print("replay failed to run")
            return 2
        for l in res.get("log", []):
            print("  " + l)
        if res["violation"]:
            print("violated: [%s] %s" % tuple(res["violation"]))
            print("same digest as recorded: %s" % (res["digest"] == d.get("digest")))
            print("VIOLATION property=%s replay=%s" % (d["property"], path))
            return 1
        print("no violation on this tree")
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def main():
    if sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    return run_check(sys.argv[1], tier)


if __name__ == "__main__":
    sys.exit(main())
