"""C15: the conic program the semidefinite interface hands to the optimiser, and how it reads the answer."""
import contextlib
import io
import numpy as np
import scipy.sparse as sps
import common as cm, scen, alg, fusion_tap as tap
from c14 import NAMES, vec

COEF = [1, -1, 2, 0.5, -3, 0.25, 1]
STATUS = ["PrimalAndDualFeasible"] * 5 + ["PrimalInfeasible", "DualInfeasible", "DualInfeasible", "Unknown", "IllPosed"]


def task_json(r):
    big = lambda b: [b[0], cm.rat(b[1]) if abs(b[1]) < 1e20 else [0, 0], cm.rat(b[2]) if abs(b[2]) < 1e20 else [0, 0]]
    return dict(numvar=r["numvar"], numcon=r["numcon"], dims=list(r["dims"]), c=[cm.rat(x) for x in r["c"]], cfix=cm.rat(r["cfix"]),
                rows=[vec(x) for x in r["rows"]], con=[big(b) for b in r["con"]], var=[big(b) for b in r["var"]], sense=r["sense"],
                bara=[[i + 1, j + 1, k + 1, l + 1, cm.rat(v)] for i, j, k, l, v in r["bara"]],
                barc=[[j + 1, k + 1, l + 1, cm.rat(v)] for j, k, l, v in r["barc"]])


def answer(rng):
    st = rng.choice(STATUS)
    seed = rng.random()

    def f(r):
        import random
        g = random.Random(seed)
        n, m = r["numvar"], r["numcon"]
        pick = lambda k: [g.choice([-1, 1]) * v / 4 for v in g.sample(range(1, max(24, 2 * k)), k)]
        X = []
        for d in r["dims"]:
            A = np.array([[g.randint(-8, 8) / 4 for _ in range(d)] for _ in range(d)])
            X.append(np.tril(A) + np.tril(A, -1).T)
        xx = pick(n)
        for j, b in enumerate(r["var"]):
            if b[0] == "fx":
                xx[j] = b[1]
        return dict(xx=xx, y=pick(m), X=X, p=g.randint(1, 40) / 4, d=g.randint(41, 80) / 4, status=st)
    return f


def mat(M, d):
    return [[cm.rat(float(M[p, q])) for q in range(d)] for p in range(d)]


def todense(M):
    return np.asarray(M.todense()) if sps.issparse(M) else np.asarray(M)


def fire(rec, b, e, kw, vs, kw2, ans):
    """kw is solved, kw2 is the same program with other values; both get the same answer"""
    from inflation.sdp.sdp_utils import solveSDP_MosekFUSION
    pos = {v: i + 1 for i, v in enumerate(vs)}
    d = e["dim"]
    tap.ANSWER[0] = ans
    tap.SEEN.clear()
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            out = solveSDP_MosekFUSION(**kw)
        e["calls"] = len(tap.SEEN)
        a = dict(tap.ANS[0])
        t1 = tap.SEEN[-1]
        with contextlib.redirect_stdout(io.StringIO()):
            solveSDP_MosekFUSION(**kw2)
        t2 = tap.SEEN[-1]
        e.update(exc="", task=task_json(t1), task2=task_json(t2),
                 ans=dict(xx=[cm.rat(x) for x in a["xx"]], y=[cm.rat(x) for x in a["y"]], p=cm.rat(a["p"]), d=cm.rat(a["d"]),
                          status=a["status"], X=mat(a["X"][0], d) if d else [], S=mat(a["S"][0], d) if d else []))
        has = "x" in out
        res = dict(status=str(out["status"]), has=has, hasvalue=False)
        if has:
            num = lambda v: cm.rat(float(v)) if v is not None else [0, 0]
            res.update(hasvalue=out["primal_value"] is not None or out["dual_value"] is not None,
                       primal=num(out["primal_value"]), dual=num(out["dual_value"]),
                       x=[[pos.get(k, len(vs) + 1), cm.rat(float(v))] for k, v in out["x"].items()],
                       cert=[[pos[k], cm.rat(float(v))] for k, v in out["dual_certificate"].items()],
                       F=mat(todense(out["F"]), d) if d else [], Z=mat(todense(out["Z"]), d) if d else [])
        e["res"] = res
    except Exception as x:
        e.update(exc=cm.exc(x))
    rec.ev(b, "sdp", **e)


def case(rec, rng, b):
    n = rng.randint(2, 6)
    vs = rng.sample(NAMES[1:] + rng.choice([[], [], [], ["lambda"], ["lambda", "lambda_", "lambda__"], ["lambda_"]]), n - 1) + ["1"]
    dim = rng.choice([0, 2, 3, 4, 4, 5])
    one = n - 1
    lin = lambda k, must=None: [(j, rng.choice(COEF)) for j in rng.sample(range(n), min(n, rng.randint(1, k)))]
    known = {one: 1.0}
    for j in rng.sample(range(n - 1), rng.choice([0, 0, 1, 1, min(2, n - 2)]) if n > 2 else 0):
        known[j] = rng.choice([0.0, 0.5, 1.0, -0.25])
    free = [j for j in range(n) if j not in known]
    masks = {}
    if dim:
        for p in range(dim):
            for q in range(p, dim):
                masks.setdefault(rng.choice(list(range(n)) + [None]), []).append((p, q, rng.choice([1, 1, 1, 2, -1])))
        masks.pop(None, None)
        for j in range(n):
            if j not in masks and rng.random() < .7:
                masks[j] = []          # an all-zero mask
    if not masks:
        dim = 0
    ineq = [lin(3) for _ in range(rng.randint(0, 3))]
    eq = [lin(3) for _ in range(rng.randint(0, 2))]
    inside = {j for j in masks} | {j for r in ineq + eq for j, _ in r}
    nonneg = rng.random() < .25
    feas = rng.random() < .35
    obj = [(j, c) for j, c in lin(4) if ineq or eq or j in masks or j in known] if rng.random() < .75 else []
    if feas:
        if not dim:
            feas = False
        elif nonneg:
            nonneg = False
    semi = []
    src = [j for j in free if j in masks or not dim]
    if src and len(free) >= 2 and rng.random() < .4:
        a = rng.choice(src)
        # (a variable tied to a fixed negative value is as exempt from the default bound as the fixed one)
        cs = [j for j in range(n) if j != a and j != one and (j in masks or not dim) and not (nonneg and known.get(j, 0) < 0)]
        if cs and (ineq or eq or dim):
            semi = [(a, rng.choice([0.5, 2, 1, 0.25]), rng.choice(cs))]
    process = rng.random() < .75
    if not dim and not ineq and not eq:
        ineq = [lin(2)]
    occurs = set(masks) | {j for r in ineq + eq + [obj] for j, _ in r} | {j for a, _, c in semi for j in (a, c)}
    if semi and semi[0][0] not in (set(masks) | {j for r in ineq + eq + [obj] for j, _ in r}):
        semi, occurs = [], set(masks) | {j for r in ineq + eq + [obj] for j, _ in r}
    live = [j for j in occurs if j not in known and not (process and semi and j == semi[0][0])]
    if not live:
        return
    dual = rng.random() < .6
    # in dual form a variable that is in the objective only would be a constraint without multipliers
    names = lambda r: {vs[j]: v for j, v in r}
    def mask(es):
        M = sps.dok_array((dim, dim))
        for p, q, v in es:
            M[p, q] = v
            M[q, p] = v
        return rng.choice([sps.coo_array, sps.csr_array, sps.dok_array, sps.lil_array])(M)
    mm = {vs[j]: mask(es) for j, es in masks.items()}
    known2 = {j: (v if j == one else rng.choice([0.5, -1.0, 2.0, 0.25])) for j, v in known.items()}
    kw = dict(objective=names(obj), known_vars={vs[j]: v for j, v in known.items()}, inequalities=[names(r) for r in ineq],
              equalities=[names(r) for r in eq], semiknown_vars={vs[a]: (c, vs[d]) for a, c, d in semi},
              solve_dual=dual, default_non_negative=nonneg, feas_as_optim=feas, process_constraints=process)
    if dim:
        kw["mask_matrices"] = mm
    for k in ("objective", "inequalities", "equalities", "semiknown_vars"):
        if not kw[k] and rng.random() < .5:
            kw[k] = None
    kw2 = dict(kw, known_vars={vs[j]: v for j, v in known2.items()})
    e = dict(n=n, dim=dim, masks=[[j + 1, [[p + 1, q + 1, cm.rat(v)] for p, q, v in es]] for j, es in masks.items()],
             obj=vec(obj), ineq=[vec(r) for r in ineq], eq=[vec(r) for r in eq], semi=[[a + 1, cm.rat(c), d + 1] for a, c, d in semi],
             known=vec(known.items()), known2=vec(known2.items()), nonneg=nonneg, feas=feas, process=process, dualform=dual,
             occurs=sorted(j + 1 for j in occurs))
    fire(rec, b, e, kw, vs, kw2, answer(rng))


def library(rec, rng, tier, shard, n):
    """the same, for programs that a relaxation hands over"""
    import sys
    from inflation import InflationSDP
    import inflation.sdp.InflationSDP  # noqa
    mod = sys.modules["inflation.sdp.InflationSDP"]
    inner = mod.solveSDP_MosekFUSION
    got = {}

    def wrap(**kw):
        got["kw"] = kw
        return {"status": "unknown"}
    for d in alg.scenarios(rng, shard, n, 12 if tier != "thorough" else 150, max_ops=12, max_level=2, max_parties=3, max_outs=3):
        p = scen.build(d)
        s = InflationSDP(p, verbose=0)
        s.generate_relaxation(rng.choice(["npa1", "local1", "physical1", "npa2"]))
        if not 2 <= s.n_columns <= 9:
            s.generate_relaxation("npa1")
        if not 2 <= s.n_columns <= 9 or len(s.moments) > 30:
            continue
        b = rec.block(scen.encode(d), feat=["library"])
        ms = [m for m in s.moments if not m.is_zero and not m.is_one]
        atoms = [m for m in ms if m.is_atomic]
        for _ in range(3):
            s.reset("all")
            if atoms and rng.random() < .75:
                s.set_values({m: rng.choice([0.25, 0.5, 0.125, 0.0]) for m in rng.sample(atoms, min(3, len(atoms)))},
                             use_lpi_constraints=rng.random() < .5)
            fr = [m for m in ms if m not in s.known_moments]
            if rng.random() < .5 and fr:
                s.set_objective({m: rng.choice(COEF) for m in rng.sample(fr, min(2, len(fr)))}, rng.choice(["max", "min"]))
            if rng.random() < .5 and fr:
                s.set_bounds({m: rng.choice([0.0, 0.125, -1.0]) for m in rng.sample(fr, 1)}, "lo")
                s.set_bounds({m: rng.choice([1.0, 0.75]) for m in rng.sample(fr, 1)}, "up")
            feas = rng.random() < .4
            mod.solveSDP_MosekFUSION = wrap
            try:
                s.solve(feas_as_optim=feas, solve_dual=rng.random() < .6)
            finally:
                mod.solveSDP_MosekFUSION = inner
            kw = got["kw"]
            vs = sorted(set(kw["mask_matrices"]) | set(kw["known_vars"]) | set(kw["objective"]) | {k for k in kw["semiknown_vars"]} |
                        {v[1] for v in kw["semiknown_vars"].values()} | {k for r in kw["equalities"] + kw["inequalities"] for k in r})
            ix = {v: i for i, v in enumerate(vs)}
            row = lambda r: vec((ix[k], float(v)) for k, v in r.items())
            tri = lambda M: [[int(p) + 1, int(q) + 1, cm.rat(float(v))] for p, q, v in zip(*(lambda c: (c.row, c.col, c.data))(sps.coo_array(M)))
                             if p <= q and v]
            kn2 = {k: (v if k == s.constant_term_name else rng.choice([0.5, 0.25, -1.0])) for k, v in kw["known_vars"].items()}
            e = dict(n=len(vs), dim=int(s.n_columns), masks=[[ix[k] + 1, tri(M)] for k, M in kw["mask_matrices"].items()],
                     obj=row(kw["objective"]), ineq=[row(r) for r in kw["inequalities"]], eq=[row(r) for r in kw["equalities"]],
                     semi=[[ix[k] + 1, cm.rat(float(c)), ix[x] + 1] for k, (c, x) in kw["semiknown_vars"].items()],
                     known=row(kw["known_vars"]), known2=row(kn2), nonneg=False, feas=kw["feas_as_optim"], process=True,
                     dualform=kw["solve_dual"])
            e["occurs"] = sorted({ix[k] + 1 for k in vs})
            fire(rec, b, e, kw, vs, dict(kw, known_vars=kn2), answer(rng))


def main(rec, rng, tier, shard, n):
    tap.install()
    if shard < 1000:
        b = None
        for k in range(150 if tier != "thorough" else 2500):
            if k % 20 == 0:
                b = rec.block(dict(tag="programs"), feat=["direct"])
            case(rec, rng, b)
    library(rec, rng, tier, shard, n)


cm.main(main)
