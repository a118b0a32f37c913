#!/usr/bin/env python3
"""Driver: record the real code, judge the recordings with TLC against the TLA+ specification.

  python3 lib/runner.py C03            (VERIF_SEED, VERIF_TIER from the environment)

Exit 0: every recorded event was accepted and every exhaustive model passed.
Exit 1: VIOLATION property=<id> replay=<path>.   Exit 2: failure of the machinery itself.
"""
import json
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SPEC = os.path.join(VERIF, "spec")
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
JARS = "/opt/veriftools/tla/tla2tools.jar"
sys.path.insert(0, HERE)


def classpath():
    import glob
    cands = [JARS] + sorted(glob.glob("/opt/veriftools/tla/*.jar"))
    seen, out = set(), []
    for c in cands:
        if c not in seen:
            seen.add(c)
            out.append(c)
    return ":".join(out)


class Machinery(Exception):
    pass


def say(*a):
    print(*a, flush=True)


def run_proc(cmd, env, timeout, cwd, stdout):
    with open(stdout, "w") as f:
        p = subprocess.Popen(cmd, env=env, cwd=cwd, stdout=f, stderr=subprocess.STDOUT, start_new_session=True)
        try:
            return p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
            return "timeout"


def record(recorder, seed, tier, shard, nshards, jit, work, timeout):
    out = os.path.join(work, "trace_%s_%d_%d.json" % (recorder, shard, int(jit)))
    log = out + ".log"
    nb = os.path.join(work, "numba_%d" % shard)
    os.makedirs(nb, exist_ok=True)
    env = dict(os.environ, HOME="/root", PYTHONHASHSEED=str(shard % 1000), NUMBA_CACHE_DIR=nb, PYTHONDONTWRITEBYTECODE="1",
               OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", NUMBA_OPT="0",
               PYTHONPATH=":".join([REPO, HERE]), VERIF_JIT="1" if jit else "0", VERIF_WORK=work)
    env.pop("PYTHONSTARTUP", None)
    rc = run_proc([PY, os.path.join(HERE, "rec", "boot.py"), recorder, out, str(seed), tier, str(shard), str(nshards)],
                  env, timeout, work, log)
    return rc, out, log


def tlc(module, cfg, work, env_extra=None, timeout=800, workers="1", heap="3g", extra=()):
    d = tempfile.mkdtemp(prefix="tlc_", dir=work)
    log = os.path.join(d, "log")
    env = dict(os.environ)
    env.update(env_extra or {})
    env.pop("JAVA_TOOL_OPTIONS", None)
    cmd = ["java", "-Xmx" + heap, "-Djava.io.tmpdir=" + d, "-Xss256m", "-XX:+UseParallelGC" if workers != "1" else "-XX:+UseSerialGC",
           "-XX:TieredStopAtLevel=4", "-DTLA-Library=" + SPEC, "-cp", classpath(), "tlc2.TLC", "-metadir", d,
           "-noGenerateSpecTE", "-workers", workers, "-config", os.path.join(SPEC, cfg)] + list(extra) + \
          [os.path.join(SPEC, module + ".tla")]
    rc = run_proc(cmd, env, timeout, d, log)
    txt = open(log, errors="replace").read()
    return rc, txt


FAIL = re.compile(r'^"FAIL\|(\d+)\|(\d+)\|(.*)"$', re.M)
DONE = re.compile(r'^"DONE\|(\d+)\|(\d+)"$', re.M)


def judge(module, trace, work, timeout):
    rc, txt = tlc(module, module + ".cfg", work, {"TRACE": trace}, timeout)
    fails = [(int(a), int(b), c) for a, b, c in FAIL.findall(txt)]
    done = DONE.search(txt)
    return rc, fails, (int(done.group(1)), int(done.group(2))) if done else None, txt


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [x for x in json.load(open(p)) if x.get("status") == "known"]


def chunk_blocks(blocks, k):
    """Distribute blocks over k files, balancing the number of events (weights optional)."""
    bins = [[] for _ in range(k)]
    load = [0.0] * k
    for b in sorted(blocks, key=lambda b: -b.get("w", len(b["ev"]) + 3)):
        i = load.index(min(load))
        bins[i].append(b)
        load[i] += b.get("w", len(b["ev"]) + 3)
    return [x for x in bins if x]


def main():
    prop = sys.argv[1]
    import checks
    spec = checks.CHECKS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    work = tempfile.mkdtemp(prefix="verif_%s_" % prop, dir="/tmp")
    try:
        rc = run_check(prop, spec, seed, tier, work, evdir, t0)
    except Machinery as e:
        say("MACHINERY-ERROR property=%s %s" % (prop, e))
        rc = 2
    finally:
        if os.environ.get("VERIF_KEEP"):
            say("kept", work)
        else:
            shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def run_check(prop, spec, seed, tier, work, evdir, t0):
    import checks
    thorough = tier == "thorough"
    violations, known_hits, models, notes = [], [], [], []
    known = [k for k in load_known() if k["property"] == prop]
    cap = 780 if not thorough else 6 * 3600
    # 1. exhaustive models, in the background
    pool = ThreadPoolExecutor(8)
    futs = []
    for m in spec.get("models", []):
        cfg = m["cfg"] if not thorough else m.get("cfg_thorough", m["cfg"])
        futs.append((m, cfg, pool.submit(tlc, m["module"], cfg, work, None, cap, m.get("workers", "2"), "4g",
                                         m.get("extra", ()))))
    # 2. specification behaviours to be replayed (generators), if any
    gen_env = {}
    for g in spec.get("generators", []):
        gen_env[g["env"]] = run_generator(g, seed, tier, work, cap)
    os.environ.update(gen_env)
    # 3. recordings
    jobs = []
    for r in spec["record"]:
        n = r.get("shards", 4) if not thorough else r.get("shards_thorough", 8)
        for s in range(n):
            jobs.append((r, s, n, False))
        j = r.get("jit", 0) if not thorough else r.get("jit_thorough", r.get("jit", 0))
        for s in range(j):
            jobs.append((r, 1000 + s, j, True))
    rec_t = 600 if not thorough else 4 * 3600
    def do(job):
        r, s, n, jit = job
        return job, record(r["recorder"], seed, tier, s, n, jit, work, rec_t)
    with ThreadPoolExecutor(8) as ex:
        recs = list(ex.map(do, jobs))
    bymod = {}
    nblocks = 0
    kinds = {}
    feats = {}
    distinct, samples, reached = set(), {}, [0, 0]
    for (r, s, n, jit), (rc, out, log) in recs:
        if rc != 0:
            tail = open(log, errors="replace").read()[-3000:]
            # the recorder catches exceptions of the code under test around every recorded call; it only dies or
            # hangs when the code under test does so outside of them (import, construction) or when it never returns
            path = os.path.join(evdir, "replay_%s.json" % prop)
            json.dump(dict(property=prop, recorder=r["recorder"], shard=s, seed=seed, outcome=str(rc), log=tail),
                      open(path, "w"), indent=1)
            if not violations:
                say("recorder %s shard %d ended with %s\n%s" % (r["recorder"], s, rc, tail[-1500:]))
            violations.append((path, "recorder ended with %s" % rc))
            continue
        bl = json.load(open(out))
        nblocks += len(bl)
        for b in bl:
            for e in b["ev"]:
                h = hash(json.dumps([b["inp"], e], sort_keys=True, default=str))
                distinct.add(h)
                if e["k"] not in samples and len(json.dumps(e)) < 4000:
                    samples[e["k"]] = dict(scenario=b["inp"], event=e)
            b["src"] = dict(recorder=r["recorder"], shard=s, jit=jit, seed=seed)
            for e in b["ev"]:
                kinds[e["k"]] = kinds.get(e["k"], 0) + 1
            for f in b.get("feat", []):
                feats[f] = feats.get(f, 0) + 1
        bymod.setdefault(r["judge"], []).extend(bl)
    # 4. judgement
    nev = 0
    for mod, blocks in bymod.items():
        groups = chunk_blocks(blocks, spec.get("jvms", 8))
        tasks = []
        for i, g in enumerate(groups):
            p = os.path.join(work, "judge_%s_%d.json" % (mod, i))
            json.dump(g, open(p, "w"))
            tasks.append((mod, p, g))
        def dj(t):
            return t, judge(t[0], t[1], work, cap)
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(dj, tasks))
        for (mod, p, g), (rc, fails, done, txt) in res:
            expect = sum(len(b["ev"]) for b in g)
            nev += done[1] if done else 0
            st = re.search(r"(\d+) states generated, (\d+) distinct states found", txt)
            if st:
                reached = [reached[0] + int(st.group(2)), reached[1] + int(st.group(1))]
            for (bi, ei, why) in fails:
                b = g[bi - 1]
                e = b["ev"][ei - 1] if ei >= 1 and ei <= len(b["ev"]) else {}
                note_fail(prop, b, e, ei, why, known, violations, known_hits, evdir)
            if done is None or rc != 0:
                if rc == "timeout" or "java.lang.OutOfMemory" in txt or "StackOverflow" in txt:
                    raise Machinery("TLC on %s: %s\n%s" % (mod, rc, txt[-1500:]))
                m = re.search(r"(?s)Error: .*", txt)
                if "Parsing or semantic analysis failed" in txt or "TLC threw an unexpected exception" in txt and \
                        "evaluating" not in txt and "Attempted" not in txt:
                    raise Machinery("TLC on %s: %s" % (mod, txt[-2500:]))
                at = re.findall(r'^"AT\|(\d+)"$', txt, re.M)
                path = os.path.join(evdir, "replay_%s.json" % prop)
                bb = g[int(at[-1]) - 1] if at else None
                json.dump(dict(property=prop, why="the specification cannot evaluate this recording",
                               tlc=m.group(0)[:3000] if m else txt[-3000:], block=bb), open(path, "w"), indent=1)
                say((m.group(0) if m else txt)[:1500])
                violations.append((path, "recording outside of the specification's domain"))
            elif done[1] != expect:
                raise Machinery("consumed %s of %d events (%s)" % (done, expect, mod))
    # 5. exhaustive models
    for m, cfg, f in futs:
        rc, txt = f.result()
        st = re.search(r"(\d+) states generated, (\d+) distinct states found", txt)
        models.append(dict(module=m["module"], cfg=cfg, rc=rc, states=int(st.group(2)) if st else None,
                           transitions=int(st.group(1)) if st else None,
                           what=m.get("what", "")))
        if rc != 0:
            raise Machinery("model %s/%s: rc=%s\n%s" % (m["module"], cfg, rc, txt[-3000:]))
    pool.shutdown()
    if nev == 0 and not violations:
        raise Machinery("nothing was recorded")
    for k in spec.get("require", []):
        if not kinds.get(k) and not violations:
            raise Machinery("vacuous: no event of kind %s was recorded" % k)
    level = checks.level(spec)
    wall = time.time() - t0
    ev = dict(property=prop, tier=tier, seed=seed, level=level, wall_s=round(wall, 1),
              coverage=dict(blocks=nblocks, events=nev, events_by_kind=kinds, features=feats, models=models,
                            quantifier=spec.get("quantifier", ""), bounds=spec.get("bounds", "")),
              violations=len(violations), known_findings=len(known_hits))
    extra = spec.get("evidence")
    if extra:
        ev["coverage"].update(extra)
    cov = ev["coverage"]
    cov["samples"] = list(samples.values())
    if level == "model_checking":
        cov.update(states=sum(m["states"] or 0 for m in models), transitions=sum(m["transitions"] or 0 for m in models),
                   traces_validated_against_impl=nblocks, trace_states=reached[0], distinct_events=len(distinct))
    else:
        cov.update(evaluations=nev, distinct_nontrivial=len(distinct), trace_states=reached[0],
                   rule="an evaluation is one recorded event (a public call with its observable result, or data crossing the solver "
                        "boundary) judged by TLC as one step of the specification; events are made from fixed families and seeded random "
                        "scenarios, arguments and histories; counted once per scenario and content. " + spec["note"])
    json.dump(ev, open(os.path.join(evdir, prop + ".json"), "w"), indent=1)
    seen = set()
    for k in known_hits:
        if k["id"] not in seen:
            seen.add(k["id"])
            say("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    say("%s %s seed=%d: %d blocks, %d events %s, models %s, %.1fs" % (
        prop, tier, seed, nblocks, nev, json.dumps(kinds, sort_keys=True),
        [(m["module"], m["cfg"], m["states"]) for m in models], wall))
    if violations:
        for path, why in violations[:20]:
            say("  rejected: %s" % why)
        say("VIOLATION property=%s replay=%s" % (prop, violations[0][0]))
        return 1
    return 0


def note_fail(prop, b, e, ei, why, known, violations, known_hits, evdir):
    for k in known:
        m = k["match"]
        if ("clause" not in m or m["clause"] in why.split(",")) and \
           ("only_clauses" not in m or set(why.split(",")) <= set(m["only_clauses"])) and \
           ("kind" not in m or m["kind"] == e.get("k")) and \
           ("tag" not in m or m["tag"] == b["inp"].get("tag")) and \
           ("where" not in m or m["where"] in json.dumps(e)):
            known_hits.append(k)
            return
    path = os.path.join(evdir, "replay_%s_%d.json" % (prop, min(len(violations), 30)))
    json.dump(dict(property=prop, clauses=why, block=b.get("inp"), ops=b.get("ops"), source=b.get("src"),
                   event_index=ei, event=e, history=b["ev"][:max(0, min(ei, 40))]), open(path, "w"), indent=1)
    violations.append((path, "%s in event %d (%s) of %s" % (why, ei, e.get("k"), b["inp"].get("tag"))))


def run_generator(g, seed, tier, work, cap):
    """Let TLC write behaviours of a specification (JSON lines printed from an invariant) for replay."""
    num = g.get("num_thorough" if tier == "thorough" else "num", 0)
    extra = []
    if g.get("mode", "simulate") == "simulate":
        extra = ["-simulate", "num=%d" % num, "-depth", str(g.get("depth", 15)), "-seed", str(seed)]
    rc, txt = tlc(g["module"], g["cfg"] if tier != "thorough" else g.get("cfg_thorough", g["cfg"]), work, {}, cap, "1", "4g", extra)
    lines = re.findall(r'^"BEH\|(.*)"$', txt, re.M)
    if not lines:
        raise Machinery("generator %s produced nothing (rc=%s)\n%s" % (g["module"], rc, txt[-2500:]))
    beh = [json.loads(l.encode().decode("unicode_escape")) for l in sorted(set(lines))]
    n = g.get("take", len(beh)) if tier != "thorough" else g.get("take_thorough", len(beh))
    beh = random.Random(seed).sample(beh, min(n, len(beh)))
    path = os.path.join(work, "beh_%s.json" % g["module"])
    with open(path, "w") as f:
        json.dump(beh, f)
    return path


if __name__ == "__main__":
    main()
