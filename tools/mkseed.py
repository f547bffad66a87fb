"""Helper to record a planted change: seed(id, property, needs, breaks, edits, demo)."""
import json
import os
import shutil
import subprocess

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

DEMO_SH = '''#!/bin/bash
export PYTHONPATH="$PWD%s" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
exec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"
'''


def seed(sid, prop, needs, breaks, edits, demo, stubs=False):
    w = "/tmp/mkseed_" + sid
    shutil.rmtree(w, ignore_errors=True)
    subprocess.check_call(["git", "-C", "/repo", "worktree", "prune"])
    subprocess.check_call(["git", "clone", "-q", "/repo", w])
    for path, old, new in edits:
        p = os.path.join(w, path)
        s = open(p).read()
        assert s.count(old) == 1, (sid, path, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.check_output(["git", "-C", w, "diff"]).decode()
    d = ROOT + "/seeded/" + sid
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    here = ':$(cd "$(dirname "$0")" && pwd)/stubs' if stubs else ""
    open(d + "/demo.sh", "w").write(DEMO_SH % here)
    open(d + "/demo.py", "w").write(demo.lstrip("\n"))
    if stubs:
        shutil.rmtree(d + "/stubs", ignore_errors=True)
        shutil.copytree(ROOT + "/stubs", d + "/stubs", ignore=shutil.ignore_patterns("__pycache__"))
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks},
              open(d + "/meta.json", "w"), indent=1)
    shutil.rmtree(w)
    print(subprocess.run(["bash", ROOT + "/tools/seedtest.sh", sid], stdout=subprocess.PIPE
                         ).stdout.decode().strip(), flush=True)
