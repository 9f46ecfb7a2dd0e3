"""Run the repository's tests and compare with the stable baseline."""
import json, subprocess, sys, tempfile, os
out = tempfile.mktemp(suffix=".json")
subprocess.run(["bash", "/opt/vp/test.sh", out], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
b = json.load(open("/opt/vp/BASELINE.json")); o = json.load(open(out)); os.unlink(out)
miss = [t for t in b["stable"] if t not in set(o["passed"])]
print("stable", len(b["stable"]), "missing", len(miss)); print("\n".join(miss[:20]))
sys.exit(1 if miss else 0)
