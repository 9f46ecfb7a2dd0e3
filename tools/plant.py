"""Validate planted bugs: usage plant.py ID [ID...]   (development tool)

For each: copy /repo, apply patch, run the stable tests, run the demo on both trees, run the property's quick check.
"""
import json, os, shutil, subprocess, sys, tempfile, concurrent.futures as cf

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = json.load(open("/opt/vp/BASELINE.json"))


def env(tree=None):
    e = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", HOME="/root")
    e.pop("PYTHONPATH", None)
    return e


def tests(tree):
    d = tempfile.mkdtemp()
    try:
        subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "tests", "-q", "-p", "no:cacheprovider", "-p", "no:xdist",
                        "--randomly-dont-reorganize", "--randomly-seed=0", "--timeout=120", "-o", "junit_family=xunit2",
                        "--junitxml=" + d + "/junit.xml"], cwd=tree, env=env(), stdout=subprocess.DEVNULL,
                       stderr=subprocess.DEVNULL)
        subprocess.run(["/usr/bin/python3", "/opt/vp/results.py", d + "/o.json", "junit:" + d + "/junit.xml"])
        o = json.load(open(d + "/o.json"))
        return [t for t in BASE["stable"] if t not in set(o["passed"])]
    finally:
        shutil.rmtree(d)


def demo(pid, tree):
    d = tempfile.mkdtemp()
    try:
        shutil.copytree(os.path.join(V, "seeded", pid), d + "/x", ignore=shutil.ignore_patterns("*.diff", "meta.json"))
        r = subprocess.run(["bash", d + "/x/demo.sh"], cwd=tree, env=env(), capture_output=True, text=True, timeout=300)
        return r.returncode, (r.stdout + r.stderr)[-300:]
    finally:
        shutil.rmtree(d)


def one(pid, skip=()):
    out = {"id": pid}
    d = tempfile.mkdtemp(prefix="plant-")
    tree = d + "/repo"
    try:
        subprocess.run(["cp", "-a", "/repo", tree], check=True)
        r = subprocess.run(["git", "apply", os.path.join(V, "seeded", pid, "patch.diff")], cwd=tree, capture_output=True,
                           text=True)
        if r.returncode:
            out["apply"] = r.stderr
            return out
        prop = json.load(open(os.path.join(V, "seeded", pid, "meta.json")))["property"]
        if "demo" not in skip:
            out["demo_clean"] = demo(pid, "/repo")[0]
            out["demo_bug"] = demo(pid, tree)
        if "tests" not in skip:
            out["tests_missing"] = tests(tree)
        if "check" not in skip:
            e = dict(os.environ, CAUSYSIM_REPO=tree, VERIF_SEED="1", VERIF_TIER="quick", CAUSYSIM_EVIDENCE=d)
            r = subprocess.run(["/opt/venv/bin/python", "-m", "causysim.runner", prop.lower(), "quick"], cwd=V, env=e,
                               capture_output=True, text=True)
            lines = [l for l in r.stdout.splitlines() if l.startswith(("VIOLATION", "violated", "seed="))]
            out["check"] = (r.returncode, lines, r.stderr[-300:] if r.returncode not in (0, 1) else "")
    finally:
        shutil.rmtree(d)
    return out


if __name__ == "__main__":
    skip = [a[2:] for a in sys.argv[1:] if a.startswith("--")]
    ids = [a for a in sys.argv[1:] if not a.startswith("--")] or sorted(os.listdir(V + "/seeded"))
    for i in ids:
        print(json.dumps(one(i, skip), indent=1), flush=True)
