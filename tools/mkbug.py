#!/usr/bin/env python3
"""mkbug.py ID PROP 'needs' 'breaks' DEMO.py  < edits  (development aid)
stdin: python code defining edit(path, old, new) calls; patch is computed in a scratch copy."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
i, prop, needs, breaks, demo = sys.argv[1:6]
w = tempfile.mkdtemp(prefix="mkbug_"); r = w + "/repo"
subprocess.check_call(["git", "worktree", "prune"], cwd=os.environ.get("VERIF_REPO", "/repo"))
subprocess.check_call(["git", "clone", "-q", os.environ.get("VERIF_REPO", "/repo"), r])
def edit(path, old, new, count=1):
    p = os.path.join(r, path); t = open(p).read()
    assert t.count(old) == count, (path, t.count(old), old)
    open(p, "w").write(t.replace(old, new))
exec(sys.stdin.read())
d = os.path.join(V, "seeded", i); os.makedirs(d, exist_ok=True)
open(d + "/patch.diff", "w").write(subprocess.check_output(["git", "diff"], cwd=r, text=True))
open(d + "/meta.json", "w").write(json.dumps({"property": prop, "needs": needs, "what_it_breaks": breaks}, indent=1) + "\n")
shutil.copy(demo, d + "/demo.py")
open(d + "/demo.sh", "w").write('''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
export PATH_TO_POSYDON=./ PATH_TO_POSYDON_DATA=./posydon/unit_tests/_data/ MESA_DIR=./
export MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore
PYTHONPATH="$PWD" exec /opt/venv/bin/python "$here/demo.py"
''')
shutil.rmtree(w)
