#!/usr/bin/env python3
"""mkseed.py SPEC.py: write /verif/seeded/<id>/ from a spec (ID, PROP, EDITS, DEMO, NEEDS, BREAKS), then confirm it."""
import json, os, runpy, shutil, subprocess, sys, tempfile

for spec in sys.argv[1:]:
    s = runpy.run_path(spec)
    d = f"/verif/seeded/{s['ID']}"
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="mkseed.", dir="/tmp")
    subprocess.run(["cp", "-a", "/repo", w + "/repo"], check=True)
    for f, old, new in s["EDITS"]:
        p = f"{w}/repo/pvgridder/{f}"
        t = open(p).read()
        assert t.count(old) == 1, (f, t.count(old), old)
        open(p, "w").write(t.replace(old, new))
    diff = subprocess.run(["git", "-C", w + "/repo", "diff"], capture_output=True, text=True, check=True).stdout
    shutil.rmtree(w)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.py", "w").write(s["DEMO"].lstrip("\n"))
    open(d + "/demo.sh", "w").write('#!/bin/bash\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": s["PROP"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
    subprocess.run(["bash", "/verif/tools/seed.sh", s["ID"]])
    # do the checks catch it? (scratch copy; PVSTATIC_REPO points the checks there)
