"""C14: what the linear-programming interface hands to the optimiser, and how it reads the answer."""
import mosek
import numpy as np
import scipy.sparse as sps
import common as cm, scen, alg, mosek_tap as tap
from c06 import lp_cost

NAMES = ["1", "x", "y", "P[A=0]", "z3", "a_10", "w"]
COEF = [1, -1, 1, -1, 2, 0.5, -3, 0.25]


def vec(d):
    return [[int(i) + 1, cm.rat(float(v))] for i, v in d]


def task_json(r):
    big = lambda b: [b[0], cm.rat(b[1]) if abs(b[1]) < 1e20 else [0, 0], cm.rat(b[2]) if abs(b[2]) < 1e20 else [0, 0]]
    return dict(numvar=r["numvar"], numcon=r["numcon"], c=[cm.rat(x) for x in r["c"]], cfix=cm.rat(r["cfix"]),
                rows=[vec(x) for x in r["rows"]], con=[big(b) for b in r["con"]], var=[big(b) for b in r["var"]],
                sense=r["sense"])


def answer(rng):
    sta = rng.choice(["optimal", "optimal", "optimal", "prim_infeas_cer", "dual_infeas_cer", "unknown"])

    def f(r):
        return dict(solsta=getattr(mosek.solsta, sta), xx=[rng.randint(-8, 8) / 4 for _ in range(r["numvar"])],
                    y=[rng.randint(-8, 8) / 4 for _ in range(r["numcon"])], primalobj=rng.randint(-9, 9) / 4,
                    dualobj=rng.randint(-9, 9) / 8)
    return sta, f


def result(out, ans, vs):
    pos = {v: i + 1 for i, v in enumerate(vs)}
    return dict(primal=cm.rat(float(out["primal_value"])), dual=cm.rat(float(out["dual_value"])), success=bool(out["success"]),
                status=str(out["status"]), x=[[pos[k], cm.rat(float(v))] for k, v in out["x"].items()],
                cert=[[pos[k], cm.rat(float(v))] for k, v in out["dual_certificate"].items()])


def rowsof(M):
    M = sps.coo_array(M).tocsr()
    M.sum_duplicates()
    return [vec((j, v) for j, v in zip(M.indices[M.indptr[i]:M.indptr[i + 1]], M.data[M.indptr[i]:M.indptr[i + 1]]) if v)
            for i in range(M.shape[0])]


def sp(rng, rows, n, shuffle=True):
    ent = [(i, j, v) for i, r in enumerate(rows) for j, v in r]
    if shuffle:
        rng.shuffle(ent)
    return sps.coo_array(([e[2] for e in ent], ([e[0] for e in ent], [e[1] for e in ent])), shape=(len(rows), n))


def case(rec, rng, b):
    from inflation.lp.lp_utils import solveLP
    n = rng.randint(1, 6)
    vs = rng.sample(NAMES, n)
    lin = lambda k: [(j, rng.choice(COEF)) for j in rng.sample(range(n), min(n, rng.randint(1, k)))]
    st = dict(obj=lin(4) if rng.random() < .8 else [], ineq=[lin(4) for _ in range(rng.randint(0, 3))],
              eq=[lin(3) for _ in range(rng.randint(0, 2))],
              known=[(j, rng.choice([0, 1, 0.5, -0.25, 1])) for j in rng.sample(range(n), rng.choice([0, 0, 1, min(2, n)]))],
              lo=[(j, rng.choice([0, 0.25, -1, -0.5, 0.5])) for j in rng.sample(range(n), rng.choice([0, 0, 1, min(2, n)]))],
              up=[(j, rng.choice([1, 0.75, 0.5, 2])) for j in rng.sample(range(n), rng.choice([0, 0, 1, min(2, n)]))],
              semi=[])
    if n >= 2 and rng.random() < .3:
        a, c = rng.sample(range(n), 2)
        st["semi"] = [(a, rng.choice([0.5, -2, 1]), c)]
    if not st["ineq"] and not st["eq"] and not st["semi"]:
        st["ineq"] = [lin(2)]
    relk, reli = rng.random() < .25, rng.random() < .25
    form = rng.choice(["dict", "dict", "named", "sparse", "sparse", "mixed"])
    dct = lambda r: {vs[j]: v for j, v in r}
    kw = dict(solve_dual=rng.random() < .5, default_non_negative=rng.random() < .5, relax_known_vars=relk,
              relax_inequalities=reli)
    if form in ("dict", "named"):
        kw.update(objective=dct(st["obj"]), known_vars=dct(st["known"]), inequalities=[dct(r) for r in st["ineq"]],
                  equalities=[dct(r) for r in st["eq"]], lower_bounds=dct(st["lo"]), upper_bounds=dct(st["up"]),
                  semiknown_vars={vs[a]: (c, vs[d]) for a, c, d in st["semi"]})
        if form == "dict":
            kw["variables"] = list(vs)
        else:                              # variables are inferred: those that occur
            used = {j for r in st["ineq"] + st["eq"] + [st["obj"], st["known"]] for j, _ in r} | \
                   {j for a, _, c in st["semi"] for j in (a, c)}
            order = sorted(used, key=lambda j: vs[j])
            new = {j: i for i, j in enumerate(order)}
            for k in ("lo", "up"):
                st[k] = [(j, v) for j, v in st[k] if j in used]
            kw["lower_bounds"], kw["upper_bounds"] = dct(st["lo"]), dct(st["up"])
            vs = [vs[j] for j in order]
            n = len(vs)
            m = lambda r: [(new[j], v) for j, v in r]
            st = dict(obj=m(st["obj"]), ineq=[m(r) for r in st["ineq"]], eq=[m(r) for r in st["eq"]], known=m(st["known"]),
                      lo=m(st["lo"]), up=m(st["up"]), semi=[(new[a], c, new[d]) for a, c, d in st["semi"]])
    else:
        ineq = list(st["ineq"])
        if rng.random() < .3:
            ineq.insert(rng.randint(0, len(ineq)), [])        # a row without entries
        eq = st["eq"] + [[(a, 1), (d, -c)] for a, c, d in st["semi"]]
        kw.update(objective=sp(rng, [st["obj"]], n), known_vars=sp(rng, [st["known"]], n), inequalities=sp(rng, ineq, n),
                  equalities=sp(rng, eq, n), lower_bounds=sp(rng, [st["lo"]], n), upper_bounds=sp(rng, [st["up"]], n),
                  variables=list(vs))
        if form == "mixed":
            k = rng.choice(["objective", "known_vars", "inequalities", "equalities"])
            kw[k] = {"objective": dct(st["obj"]), "known_vars": dct(st["known"]), "inequalities": [dct(r) for r in st["ineq"]],
                     "equalities": [dct(r) for r in st["eq"]]}[k]
            if k == "equalities":
                kw["semiknown_vars"] = {vs[a]: (c, vs[d]) for a, c, d in st["semi"]}
    for k in ("objective", "known_vars", "lower_bounds", "upper_bounds", "inequalities", "equalities", "semiknown_vars"):
        if k in kw and rng.random() < .5 and (len(kw[k]) == 0 if isinstance(kw[k], (dict, list)) else kw[k].nnz == 0):
            if rng.random() < .5:
                del kw[k]
            elif k in ("objective", "known_vars", "inequalities", "equalities"):
                kw[k] = None
    sta, f = answer(rng)
    tap.ANSWER[0] = lambda r: tap_keep(f(r))
    tap.SEEN.clear()
    e = dict(n=n, obj=vec(st["obj"]), ineq=[vec(r) for r in st["ineq"]], eq=[vec(r) for r in st["eq"]],
             semi=[[a + 1, cm.rat(c), d + 1] for a, c, d in st["semi"]], known=vec(st["known"]), lo=vec(st["lo"]),
             up=vec(st["up"]), nonneg=kw["default_non_negative"], relk=relk, reli=reli, dualform=kw["solve_dual"], form=form)
    fire(rec, b, e, lambda: solveLP(**kw), vs, sta)


KEEP = {}


def tap_keep(a):
    KEEP["a"] = a
    return a


def fire(rec, b, e, fn, vs, sta):
    try:
        out = fn()
        r = tap.SEEN[-1]
        a = KEEP["a"]
        e.update(exc="", calls=len(tap.SEEN), task=task_json(r), res=result(out, a, vs),
                 ans=dict(xx=[cm.rat(x) for x in a["xx"]], y=[cm.rat(x) for x in a["y"]], p=cm.rat(a["primalobj"]),
                          d=cm.rat(a["dualobj"]), sta=sta))
    except Exception as x:
        e.update(exc=cm.exc(x))
    rec.ev(b, "lp", **e)


def library(rec, rng, tier, shard, n):
    """the same, for programs that a relaxation hands over"""
    import inflation.lp.InflationLP  # noqa
    import sys
    from inflation import InflationLP
    mod = sys.modules["inflation.lp.InflationLP"]
    inner = mod.solveLP
    got = {}

    def wrap(**kw):
        got.update(kw=kw)
        out = inner(**kw)
        got.update(out=out)
        return out
    mod.solveLP = wrap
    for d in alg.scenarios(rng, shard, n, 9 if tier != "thorough" else 100, max_ops=14, max_level=2, max_parties=3, max_outs=2):
        p = scen.build(d)
        if lp_cost(d, p) > 150:
            continue
        s = InflationLP(p, nonfanout=bool(p._default_notcomm.any()), verbose=0, include_all_outcomes=rng.random() < .3,
                        default_non_negative=rng.random() < .6)
        if not 3 <= len(s.monomials) <= 26:
            continue
        b = rec.block(scen.encode(d), feat=["library"])
        for _ in range(3):
            ms = list(s.monomials)
            one = [m for m in ms if m.is_atomic and not m.is_one]
            s.set_values({m: rng.choice([0.25, 0.5, 0.125]) for m in rng.sample(one, min(2, len(one)))} if rng.random() < .7 else None,
                         use_lpi_constraints=rng.random() < .5)
            s.set_objective({m: rng.choice(COEF) for m in rng.sample(ms, 2)} if rng.random() < .5 else None,
                            rng.choice(["max", "min"]))
            if rng.random() < .5:
                s.set_bounds({m: rng.choice([0.0, 0.125, -1.0]) for m in rng.sample(ms[1:], 2)}, "lo")
                s.set_bounds({m: rng.choice([1.0, 0.75]) for m in rng.sample(ms[1:], 2)}, "up")
            sta, f = answer(rng)
            tap.ANSWER[0] = lambda r: tap_keep(f(r))
            tap.SEEN.clear()
            rk, ri = rng.random() < .3, rng.random() < .3
            dual = rng.random() < .5
            vs = [m.name for m in ms]
            e = dict(n=len(ms), relk=rk and len(s.objective) == 0, reli=ri and len(s.objective) == 0, dualform=dual, form="library")
            try:
                s.solve(relax_known_vars=rk, relax_inequalities=ri, solve_dual=dual)
            except Exception as x:
                e["exc"] = cm.exc(x)
            kw = got.get("kw", {})
            one_row = lambda M: (rowsof(M) or [[]])[0]
            e.update(obj=one_row(kw["objective"]), known=one_row(kw["known_vars"]), ineq=rowsof(kw["inequalities"]),
                     eq=rowsof(kw["equalities"]), semi=[], lo=one_row(kw["lower_bounds"]), up=one_row(kw["upper_bounds"]),
                     nonneg=bool(kw["default_non_negative"]))
            # entries that are zero are part of the data (a value of zero is still a value)
            for k, a in (("known", "known_vars"), ("lo", "lower_bounds"), ("up", "upper_bounds")):
                M = sps.coo_array(kw[a])
                e[k] = vec(zip(M.col, M.data)) if M.ndim == 2 else []
            if "exc" in e:
                rec.ev(b, "lp", **e)
            else:
                fire(rec, b, e, lambda: got["out"], vs, sta)
    mod.solveLP = inner


def main(rec, rng, tier, shard, n):
    tap.install()
    if shard < 1000:
        b = None
        for k in range(200 if tier != "thorough" else 4000):
            if k % 30 == 0:
                b = rec.block(dict(tag="programs"), feat=["direct"])
            case(rec, rng, b)
    library(rec, rng, tier, shard, n)


cm.main(main)
