"""setup_cmd: nothing has to be built; verify that the toolchain the checks need is there and the specs parse."""
import glob, os, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from runner import classpath, SPEC
from concurrent.futures import ThreadPoolExecutor
assert os.path.exists("/opt/venv/bin/python")
def sany(m):
    r = subprocess.run(["java", "-cp", classpath(), "-DTLA-Library=" + SPEC, "tla2sany.SANY", m], cwd=SPEC,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return m, r.returncode, r.stdout
bad = 0
with ThreadPoolExecutor(8) as ex:
    for m, rc, out in ex.map(sany, sorted(glob.glob(os.path.join(SPEC, "*.tla")))):
        if rc or "*** Errors" in out or "Fatal errors" in out:
            bad += 1
            print(m, rc, out[-1500:])
print("specification modules parsed, %d bad" % bad)
sys.exit(1 if bad else 0)
