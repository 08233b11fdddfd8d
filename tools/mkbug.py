"""Helper: write seeded/<id>/ from textual replacements in /repo (used while planting bugs)."""
import json, os, subprocess, tempfile, shutil


def bug(bid, prop, edits, demo, needs, breaks):
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    out = os.path.join(here, "seeded", bid)
    os.makedirs(out, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="mk-")
    subprocess.run(f"git -C /repo archive HEAD | tar -x -C {tmp} && cd {tmp} && git init -q . && git add -A && git -c user.email=a -c user.name=a commit -qm x", shell=True, check=True)
    for f, a, b in edits:
        p = os.path.join(tmp, f)
        s = open(p).read()
        assert s.count(a) == 1, (bid, f, s.count(a), a)
        open(p, "w").write(s.replace(a, b))
    diff = subprocess.run(["git", "-C", tmp, "diff"], capture_output=True, text=True).stdout
    open(os.path.join(out, "patch.diff"), "w").write(diff)
    open(os.path.join(out, "demo.py"), "w").write(demo)
    open(os.path.join(out, "demo.sh"), "w").write(
        '#!/bin/bash\nhere="$(cd "$(dirname "$0")" && pwd)"\n'
        'export PYTHONPATH="$PWD:$here" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONWARNINGS=ignore\n'
        'exec /opt/venv/bin/python "$here/demo.py"\n')
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(out, "meta.json"), "w"), indent=1)
    shutil.rmtree(tmp)
