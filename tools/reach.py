"""python3 tools/reach.py [--tier=quick] [ID…]: lines of the library that no recorder of these checks reaches."""
import ast
import glob
import json
import os
import subprocess
import sys
import tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


def main():
    ids = [a for a in sys.argv[1:] if not a.startswith("--")] or ["C%02d" % i for i in range(1, 23)]
    with tempfile.TemporaryDirectory() as d:
        for i in ids:
            r = subprocess.run([sys.executable, os.path.join(HERE, "lib", "runner.py"), i], env=dict(os.environ, VERIF_COV=d), capture_output=True, text=True)
            print(i, r.returncode, file=sys.stderr)
        seen = set()
        for f in glob.glob(d + "/*"):
            seen |= {tuple(x) for x in json.load(open(f))}
    for f in sorted(glob.glob(REPO + "/inflation/**/*.py", recursive=True)):
        rel = os.path.relpath(f, REPO + "/inflation")
        src = open(f).read()
        lines = src.splitlines()
        code, todo = set(), [compile(src, f, "exec")]
        while todo:
            c = todo.pop()
            code |= {n for _, _, n in c.co_lines() if n}
            todo += [x for x in c.co_consts if hasattr(x, "co_lines")]
        miss = sorted(n for n in code if (rel, n) not in seen)
        print("== %s: %d of %d lines not reached" % (rel, len(miss), len(code)))
        for n in miss:
            print("%5d %s" % (n, lines[n - 1]))


main()
