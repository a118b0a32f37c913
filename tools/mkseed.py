#!/usr/bin/env python3
"""mkseed.py ID < spec: build seeded/ID from a python dict literal file:
dict(property, needs, breaks, edits=[(file, old, new)], demo="python source")."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for path in sys.argv[1:]:
    S = eval(open(path).read())
    for i, s in S.items():
        d = os.path.join(V, "seeded", i); os.makedirs(d, exist_ok=True)
        w = tempfile.mkdtemp(prefix="mk_", dir="/tmp")
        subprocess.run(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", w + "/r"], check=True)
        try:
            for f, old, new in s["edits"]:
                p = w + "/r/" + f; t = open(p).read()
                assert t.count(old) == 1, (i, f, t.count(old))
                open(p, "w").write(t.replace(old, new))
            diff = subprocess.run(["git", "-C", w + "/r", "diff"], capture_output=True, text=True).stdout
        finally:
            subprocess.run(["git", "-C", "/repo", "worktree", "remove", "--force", w + "/r"])
            shutil.rmtree(w, ignore_errors=True)
        for f, _, _ in s["edits"]:
            base = subprocess.run(["git", "-C", "/repo", "show", "e4f28f1:" + f], capture_output=True, text=True).stdout.splitlines()
            for line in diff.splitlines():
                if line.startswith("-") and not line.startswith("---") and line[1:] not in base and len(s["edits"]) == 1:
                    print("NOT ORIGINAL", i, line)
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.py", "w").write("import os, sys\nsys.path.insert(0, os.getcwd())\n" + s["demo"].lstrip("\n"))
        open(d + "/demo.sh", "w").write('#!/bin/bash\n# run in /repo\nexport HOME=/root PYTHONDONTWRITEBYTECODE=1 NUMBA_CACHE_DIR=$(mktemp -d)\n'
            'timeout 280 /opt/venv/bin/python "$(dirname "$0")/demo.py"\nrc=$?\nrm -rf "$NUMBA_CACHE_DIR"\nexit $rc\n')
        json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
        for x in s.get("files", []):
            shutil.copy(os.path.join(V, "lib/rec", x), d)
        print("made", i)
