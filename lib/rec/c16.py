"""C16: certificates against explicit models of the scenario and against the data they were made for."""
import contextlib
import io
import numpy as np
import mosek
import common as cm, scen, alg, model, mosek_tap, fusion_tap, optim
from c06 import lp_cost

UNIT = 4096
LAST, SCALE = {}, [1.0]


def shrink(a):
    """a proof of infeasibility (or an unbounded ray) is one at every scale"""
    if a["sta"] not in ("optimal", "unknown"):
        for k in ("xx", "y", "s", "p", "d", "extra", "X", "S"):
            if a.get(k) is not None:
                a[k] = [np.asarray(v) * SCALE[0] for v in a[k]] if isinstance(a[k], list) else a[k] * SCALE[0]
    return a


def lp_tap(r):
    a = shrink(optim.lp_answer(r))
    LAST.update(a)
    return dict(a, solsta=getattr(mosek.solsta, a["sta"]), primalobj=a["p"], dualobj=a["d"])


def sdp_tap(r):
    a = shrink(optim.sdp_answer(r))
    LAST.clear()
    LAST.update(a)
    n, m = r["numvar"], r["numcon"]
    z = [np.zeros((d, d)) for d in r["dims"]]
    st = dict(optimal="PrimalAndDualFeasible", prim_infeas="PrimalInfeasible", dual_infeas="DualInfeasible", unknown="Unknown")[a["sta"]]
    out = dict(xx=a.get("xx", np.zeros(n)), y=a.get("y", np.zeros(m)), X=a.get("X", z), p=a.get("p", 0.0), d=a.get("d", 0.0), status=st)
    out["S"] = a["S"] if a.get("S") else fusion_tap.slack(r, out["y"])
    return out


def scaled(cert, idx):
    """coefficients as integers, the largest of them UNIT"""
    mx = max([abs(float(v)) for v in cert.values()] or [0.0])
    return [[idx(k), int(round(float(v) / mx * UNIT)) if mx else 0] for k, v in cert.items()], mx


def wide(d):
    """the scenario with one more source, shared by all parties"""
    e = dict(d, dag=dict(d["dag"]))
    e["dag"]["zglob"] = list(scen.parties(d))
    if not isinstance(d["lvl"], int):
        lv = dict(zip(scen.sources(d), d["lvl"]))
        lv["zglob"] = 1
        e["lvl"] = [lv[s] for s in scen.sources(e)]
    if d["cls"] != "all":
        e["cls"] = list(d["cls"])
    return e


def pr(d, rng):
    """two parties with two settings share an ideal box (mixed with noise), the others answer zero"""
    ps = scen.parties(d)
    c = [i for i in range(len(ps)) if d["sets"][i] >= 2 and d["outs"][i] >= 2 and not any(ps[i] in d["dag"].get(q, []) for q in ps)]
    if len(c) < 2:
        return None
    i, j = rng.sample(c, 2)
    den = rng.choice([2, 2, 16])
    out = np.zeros(list(d["outs"]) + list(d["sets"]), dtype=int)
    n = len(ps)
    f = rng.randrange(2)
    for idx in np.ndindex(*out.shape):
        o, x = idx[:n], idx[n:]
        if any(o[k] for k in range(n) if k not in (i, j)) or o[i] > 1 or o[j] > 1:
            continue
        good = (o[i] + o[j] + f) % 2 == (x[i] * x[j]) % 2
        out[idx] = (den // 2 if good else 0) if den == 2 else (7 if good else 1)
    return out, den


def supplied(rng, d):
    q = rng.random()
    if q < .45:
        p = pr(d, rng)
        if p is not None:
            return p
    if q < .9:
        m = model.Model(wide(d), rng, D=2)
        if rng.random() < .6:                 # the extra source decides everything
            g = m.S.index("zglob")
            for s in m.S:
                m.w[s] = [1, 1] if s == "zglob" else [2, 0]
            kind = rng.choice(["eq", "rand"])
            if kind == "eq":
                for i, p in enumerate(m.P):
                    k = m.psrc[p].index("zglob")
                    m.resp[p] = {key: key[k] % d["outs"][i] for key in m.resp[p]}
        return m.dist()
    return model.Model(d, rng, D=2).dist()


def relaxation(rng, d, p, ops, tier):
    from inflation import InflationSDP, InflationLP
    allcl = not p._default_notcomm.any()
    if rng.random() < .5 and lp_cost(d, p) <= 700:
        s = InflationLP(p, nonfanout=not allcl, verbose=0, include_all_outcomes=rng.random() < .25,
                        default_non_negative=rng.random() < .8)
        return ("lp", s) if 3 <= len(s.monomials) <= 150 else (None, None)
    s = InflationSDP(p, verbose=0, include_all_outcomes=rng.random() < .15)
    for spec in rng.sample(["npa2", "local1", "physical1", "npa1", "physical2"], 5) + ["npa1"]:
        try:
            n = len(s.build_columns(spec))
        except Exception:
            continue
        if 3 <= n <= (14 if tier != "thorough" else 22):
            s.generate_relaxation(spec)
            return ("sdp", s) if len(s.moments) <= 150 else (None, None)
    return None, None


def emit(rec, rng, d, p, ops, kind, s, tier):
    moms, table = [], {}

    def idx(m):
        key = m.name
        if key not in table:
            table[key] = len(moms) + 1
            one = m.is_one or key == "constant_term"
            moms.append(dict(zero=bool(m.is_zero), atoms=[] if m.is_zero or one else alg.atoms_of(ops, m)))
        return table[key]
    b = rec.block(scen.encode(d), ops=[list(r) for r in ops.rows], moms=moms, models=[], feat=[kind], unit=UNIT)
    quantum_ok = not d["cil"] and not d["ncil"] and all(len(v) <= 3 for v in d["dag"].values())
    names = b["inp"]["names"]
    dists = []
    for k in range(5 if tier != "thorough" else 10):
        m = model.Stab(d, rng, D=2) if quantum_ok and d["cls"] != "all" and rng.random() < .5 else model.Model(d, rng, D=2)
        enc = m.encode(names)
        enc.setdefault("kind", "classical")
        dist, den = m.dist()
        dists.append((dist, den))
        b["models"].append(enc)
    ones = [m for m in (s.moments if kind == "sdp" else s.monomials) if not m.is_zero and not m.is_one]
    for rep in range(5 if tier != "thorough" else 8):
        s.reset("all")
        dist, den = supplied(rng, d) if rng.random() < .85 else rng.choice(dists)
        e = dict(sdp=kind == "sdp", den=int(den), dist=[int(x) for x in dist.flat], vals=[], byval=False, obj=[], lo=[], up=[], eqs=[], iqs=[])
        try:
            if rng.random() < .75:
                s.set_distribution(dist / den)
            else:                              # only some of the values
                at = [m for m in ones if m.is_atomic and m.knowability_status == "Knowable"]
                vals = {m: float(m.compute_marginal(dist / den)) for m in rng.sample(at, min(len(at), rng.randint(1, 8)))}
                e.update(byval=True, vals=[[idx(m), cm.rat(v)] for m, v in vals.items()])
                s.set_values(vals)
            free = [m for m in ones if m not in s.known_moments]
            if rng.random() < .25 and free:
                ob = {m: rng.choice([1, -1, 2]) for m in rng.sample(free, min(2, len(free)))}
                s.set_objective(ob, rng.choice(["max", "min"]))
                sg = 1 if s.maximize else -1
                e["obj"] = [[idx(m), sg * v] for m, v in ob.items()]
            if rng.random() < .25 and free:
                for m in rng.sample(free, min(2, len(free))):
                    if rng.random() < .5:
                        e["lo"].append([idx(m), cm.rat(v := rng.choice([0.0625, 0.25, 0.0]))])
                        s.set_bounds({m: v}, "lo") if len(e["lo"]) == 1 else e["lo"].pop()
                    else:
                        e["up"].append([idx(m), cm.rat(v := rng.choice([0.75, 0.25, 1.0]))])
                        s.set_bounds({m: v}, "up") if len(e["up"]) == 1 else e["up"].pop()
            if rng.random() < .2:
                one = s.One
                for w, fn in (("iqs", s.set_extra_inequalities), ("eqs", s.set_extra_equalities)):
                    if w == "eqs" and rng.random() < .7:
                        continue
                    k = rng.sample(ones, min(2, len(ones)))
                    r = {m: rng.choice([1, -1, 2, 0.5]) for m in k}
                    if w == "iqs":
                        r[one] = rng.choice([0.25, -0.25, 0.5, -0.0625])
                    else:                      # satisfied by every model in which the two moments agree or vanish
                        r = {m: c for m, c in zip(k, [1, -1])}
                    e[w].append([[idx(m), cm.rat(v)] for m, v in r.items()])
                    fn([r])
            form = dict(solve_dual=rng.random() < .5)
            relaxed = rng.random() < .4 and not e["obj"]
            if relaxed:
                form.update(feas_as_optim=True) if kind == "sdp" or rng.random() < .5 else form.update(
                    rng.choice([dict(relax_known_vars=True), dict(relax_inequalities=True), dict(relax_known_vars=True, relax_inequalities=True)]))
            if kind == "lp" and relaxed and (e["lo"] or e["up"]):
                relaxed = False
                form = dict(solve_dual=form["solve_dual"])
            LAST.clear()
            SCALE[0] = 2.0 ** rng.choice([0, 0, -7, -12, -12, 4])
            with contextlib.redirect_stdout(io.StringIO()):
                s.solve(**form)
            sta = LAST.get("sta")
            if sta in (None, "unknown"):
                b["feat"].append("unknown")
                continue
            if sta == ("dual_infeas_cer" if not form["solve_dual"] else "prim_infeas_cer") and kind == "lp" or \
                    kind == "sdp" and sta == ("prim_infeas" if form["solve_dual"] else "dual_infeas"):
                b["feat"].append("unbounded")
                continue
            infeasible = sta != "optimal"
            raw = s.certificate_as_dict(clean=False)
            cl = s.certificate_as_dict(clean=True, round_decimals=rng.choice([3, 4, 6]))
            value = LAST["p"] if form["solve_dual"] else LAST["d"]
            cert, mx = scaled(raw, idx)
            cert2, mx2 = scaled(cl, idx)
            big = lambda v: max(-2 ** 22, min(2 ** 22, int(round(v / mx * UNIT)))) if mx else (-UNIT if v < -1e-6 else 0)
            extra = LAST.get("extra", 0.0) if kind == "lp" and not form["solve_dual"] else 0.0
            if kind == "lp" and form["solve_dual"]:
                # multipliers of the bounds are variables of the task
                lbs = [v for v in s.sparse_lowerbounds.data] if s.sparse_lowerbounds.nnz else []
                ubs = [v for v in s.sparse_upperbounds.data] if s.sparse_upperbounds.nnz else []
                k = len(lbs) + len(ubs)
                extra = float(np.dot(np.asarray(LAST["xx"])[len(LAST["xx"]) - k:], lbs + [-v for v in ubs])) if k else 0.0
            objk = e["obj"]
            e.update(exc="", infeasible=infeasible, relaxed=relaxed, success=bool(s.success), cert=cert, clean=cert2, value=big(value), extra=big(extra),
                     scale=big(1.0) if objk else UNIT)
            b["feat"].append("infeasible" if infeasible else ("negative" if relaxed and value < -1e-3 else "optimal"))
        except Exception as x:
            e.update(exc=cm.exc(x))
        rec.ev(b, "cert", **e)
    b["w"] = 20 + len(moms) * len(b["models"])


def fixed_case(rec):
    """two fixed marginals, and a bound their overlap exceeds"""
    from inflation import InflationLP
    d = scen.D({"h": ["A", "B"]}, [2, 2], [1, 1], [1], cls="all", tag="bounded")
    p = scen.build(d)
    ops = scen.Ops(p)
    s = InflationLP(p, nonfanout=False, verbose=0, default_non_negative=True)
    by = {m.name: m for m in s.monomials}
    a, b, ab = by["P[A=0]"], by["P[B=0]"], by["P[A=0 B=0]"]
    bl = rec.block(scen.encode(d), ops=[list(r) for r in ops.rows], models=[], feat=["lp"], unit=UNIT,
                   moms=[dict(zero=False, atoms=alg.atoms_of(ops, m)) for m in (a, b, ab)] + [dict(zero=False, atoms=[])])
    for dual in (False, True):
        s.reset("all")
        s.set_values({a: .75, b: .75})
        s.set_bounds({ab: .25}, "up")
        s.solve(solve_dual=dual)
        cert, mx = scaled(s.certificate_as_dict(clean=False), lambda m: 4 if m.is_one else [a, b, ab].index(m) + 1)
        v = LAST["p"] if dual else LAST["d"]
        rec.ev(bl, "cert", sdp=False, den=1, dist=[], byval=True, vals=[[1, [3, 4]], [2, [3, 4]]], obj=[], lo=[], up=[[3, [1, 4]]], eqs=[], iqs=[],
               exc="", infeasible=True, relaxed=False, success=bool(s.success), cert=cert, clean=cert, value=int(round(v / mx * UNIT)) if mx else -UNIT,
               extra=int(round((float(LAST["xx"][-1]) * -.25 if dual else LAST["extra"]) / mx * UNIT)) if mx else 0, scale=UNIT)


def main(rec, rng, tier, shard, n):
    mosek_tap.install()
    fusion_tap.install()
    mosek_tap.ANSWER[0] = lp_tap
    fusion_tap.ANSWER[0] = sdp_tap
    if shard == 0:
        fixed_case(rec)
    count = (22 if shard < 1000 else 3) if tier != "thorough" else 150
    extra = [scen.D({"h": ["A", "B"]}, [2, 2], [2, 2], [1], tag="bell"), scen.D({"h": ["A", "B"]}, [2, 2], [2, 2], [1], cls="all", tag="bell_c")]
    for d in (extra if shard < 2 else []) + list(alg.scenarios(rng, shard, n, count, max_ops=20, max_level=2, max_parties=3, max_outs=2)):
        if np.prod([[1, 1, 2, 6, 24][l] for l in scen.levels(d)]) > 8 or len(scen.parties(d)) < 2:
            continue
        p = scen.build(d)
        ops = scen.Ops(p)
        for _ in range(2):
            kind, s = relaxation(rng, d, p, ops, tier)
            if s is not None:
                emit(rec, rng, d, p, ops, kind, s, tier)


cm.main(main)
