"""python3 tools/selftest.py ID [N]: does the specification bind what is recorded?

Records as the check does, then changes one number, flag or string of one recorded event at a time and has TLC judge the
altered recordings.  Prints, for every field, how many of its alterations were rejected.  (Fields that describe what was
asked, rather than what came out, may be changed into another question with the same answer.)"""
import copy
import json
import os
import random
import shutil
import sys
import tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "lib"))
import checks
import runner
from concurrent.futures import ThreadPoolExecutor


def leaves(x, path=()):
    if isinstance(x, dict):
        for k, v in x.items():
            yield from leaves(v, path + (k,))
    elif isinstance(x, list):
        for i, v in enumerate(x):
            yield from leaves(v, path + (i,))
    else:
        yield path


def alter(rng, v):
    if isinstance(v, bool):
        return not v
    if isinstance(v, int):
        return v + rng.choice([-1, 1, 1, 2])
    if isinstance(v, str):
        return v + "x"
    return v


def main():
    prop, n = sys.argv[1], int(sys.argv[2]) if len(sys.argv) > 2 else 400
    rng = random.Random(7)
    spec = checks.CHECKS[prop]
    work = tempfile.mkdtemp(prefix="verif_self_", dir="/tmp")
    try:
        for g in spec.get("generators", []):
            os.environ[g["env"]] = runner.run_generator(g, 1, "quick", work, 600)
        for r in spec["record"]:
            with ThreadPoolExecutor(8) as ex:
                outs = list(ex.map(lambda s: runner.record(r["recorder"], 1, "quick", s, r.get("shards", 4), False, work, 600), range(r.get("shards", 4))))
            blocks = [b for rc, o, _ in outs if rc == 0 for b in json.load(open(o))]
            cases = []
            evs = [(b, i) for b in blocks for i in range(len(b["ev"]))]
            byk = {}
            for b, i in evs:
                byk.setdefault(b["ev"][i]["k"], []).append((b, i))
            while len(cases) < n:
                k = rng.choice(sorted(byk))
                b, i = rng.choice(byk[k])
                e = b["ev"][i]
                fields = [f for f in e if f not in ("k", "tag", "log")]
                if not fields:
                    continue
                f = rng.choice(fields)
                ps = list(leaves(e[f], (f,)))
                if not ps:
                    continue
                p = rng.choice(ps)
                e2 = copy.deepcopy(e)
                x = e2
                for q in p[:-1]:
                    x = x[q]
                old = x[p[-1]]
                x[p[-1]] = alter(rng, old)
                if x[p[-1]] == old:
                    continue
                b2 = {kk: v for kk, v in b.items() if kk != "ev"}
                b2["ev"] = b["ev"][:i] + [e2]
                cases.append((k, f, p, b2, i + 1))
            # one file per case group; a recording the specification cannot evaluate ends its file, so small groups
            def job(c):
                path = os.path.join(work, "case_%d.json" % id(c))
                json.dump([c[3]], open(path, "w"))
                rc, fails, done, txt = runner.judge(r["judge"], path, work, 300)
                os.remove(path)
                return c, bool(fails) or rc != 0
            with ThreadPoolExecutor(8) as ex:
                res = list(ex.map(job, cases))
            tab = {}
            for c, hit in res:
                t = tab.setdefault("%s.%s" % (c[0], c[1]), [0, 0, []])
                t[0] += hit
                t[1] += 1
                if not hit:
                    t[2].append(c[2])
            for k in sorted(tab):
                print("%-28s %d/%d rejected %s" % (k, tab[k][0], tab[k][1], tab[k][2][:3]))
    finally:
        shutil.rmtree(work, ignore_errors=True)


main()
