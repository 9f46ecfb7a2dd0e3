"""Development helper: writes seeded/<id>/ from edits of a copy of /repo."""
import json, os, shutil, subprocess, tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def bug(pid, prop, needs, breaks, edits, demo):
    d = tempfile.mkdtemp(prefix="newbug-")
    tree = d + "/repo"
    try:
        subprocess.run(["cp", "-a", "/repo", tree], check=True)
        subprocess.run(["git", "checkout", "-q", "--", "."], cwd=tree, check=True)
        for f, old, new in edits:
            p = os.path.join(tree, f)
            s = open(p).read()
            assert s.count(old) == 1, (pid, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=tree, capture_output=True, text=True).stdout
        o = os.path.join(V, "seeded", pid)
        os.makedirs(o, exist_ok=True)
        open(o + "/patch.diff", "w").write(diff)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(o + "/meta.json", "w"), indent=1)
        open(o + "/demo.sh", "w").write('#!/bin/bash\n# cwd: the tree under test\nhere=$(cd "$(dirname "$0")" && pwd)\n'
                                        'PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 PYTHONPATH="$PWD" exec timeout 250 '
                                        '/opt/venv/bin/python "$here/demo.py"\n')
        open(o + "/demo.py", "w").write(demo.lstrip("\n"))
    finally:
        shutil.rmtree(d)
