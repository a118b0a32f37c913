"""C21: the search for critical parameters, on real relaxations whose solver answers come from a known family.

The family is a minimum of polynomials in the parameter, written in the known moments of the relaxation;
the solver's entry point is replaced by one that evaluates the family on the values it receives.
"""
import json
import sys
import numpy as np
import sympy as sp
import common as cm, scen, alg, prog

GRID = 4096
V = sp.Symbol("v")
STATE = {}


class TooMany(Exception):
    pass


def solver(kind):
    def run(*args, **kw):
        f, known = STATE["family"], known_of(kw)
        if len(STATE["log"]) >= 400:
            raise TooMany("400 solves")
        vals = [float(known[n]) for n in f["names"]]
        k = int(np.argmin([np.dot(c, vals) for c in f["certs"]]))
        cert = {n: float(c) for n, c in zip(f["names"], f["certs"][k]) if not np.isclose(c, 0)}
        lam = float(np.dot(f["certs"][k], vals))
        ok = len(STATE["log"]) != STATE.get("fail", -1)
        x = [float(known[n]) for n in f["vnames"]]
        STATE["log"].append(dict(x=x, ok=ok, lam=lam, cert=cert, k=k, asked=[bool(kw["solve_dual"]) == STATE["dual"],
                                 (kw.get("solverparameters") or None) == STATE["params"], bool(min(map(abs, x)) < 1e-6) or shape(kw) == STATE["shape"]]))
        r = dict(primal_value=lam, dual_value=lam, dual_certificate=cert, x={}, status="optimal" if kind == "lp" else "feasible", success=True)
        if not ok:
            r = dict(status="unknown", success=False, primal_value=0.0, dual_certificate={}, x={}) if kind == "lp" else dict(status="unknown")
        return r
    return run


def shape(kw):
    """which moments are fixed, and which are tied to others, when no value vanishes"""
    semi = kw.get("semiknown_vars")
    return sorted(known_of(kw)), sorted(semi) if isinstance(semi, dict) else tuple(kw["equalities"].shape)


def known_of(kw):
    k = kw["known_vars"]
    return dict(k) if isinstance(k, dict) else {str(kw["variables"][c]): float(v) for c, v in zip(k.col, k.data)}


def quarter(rng, a):
    return rng.choice(a) / 4


def values(rng, s, lo, hi, partly):
    """polynomials in the parameter for some moments: [monomial, (a, b, c)] with values of a + b v + c v^2"""
    ms = [m for m in prog.moments(s) if not m.is_zero and not m.is_one]
    if not ms:
        return None
    atoms = [m for m in ms if m.n_factors == 1]
    rng.shuffle(atoms)
    rng.shuffle(ms)
    chosen = list(dict.fromkeys((atoms if rng.random() < .8 else ms)[:rng.randint(1, 6)]))
    prods = [m for m in ms if m.n_factors > 1]
    if partly and prods and rng.random() < .7:    # all factors of a product but one
        fs = [s._monomial_from_atoms([f]) for f in rng.choice(prods).factors]
        rng.shuffle(fs)
        chosen = [m for m in dict.fromkeys(fs[1:]) if m in ms and m != fs[0]] or chosen
    out = []
    have = {m for m in chosen if m.n_factors == 1}
    chosen = [m for m in chosen if m.n_factors == 1 or not all(s._monomial_from_atoms([f]) in have for f in m.factors)]
    for i, m in enumerate(chosen):
        r = rng.random()
        if i == 0 or r < .4:
            c = (quarter(rng, [0, 1, 2]), quarter(rng, [-2, -1, 1, 2, 4]), 0.0)
        elif r < .75:
            c = (quarter(rng, [0, 1, 2]), quarter(rng, [-1, 0, 1, 2]), quarter(rng, [-1, 1, 2]))
        else:
            c = (quarter(rng, [1, 2, 3]), 0.0, 0.0)
        out.append((m, c))
    rng.shuffle(out)
    return out


def poly_of(s, mon, given):
    """the polynomial of a known moment, from those of its factors (None if it has none)"""
    if mon.is_zero:
        return np.zeros(1)
    if mon.is_one:
        return np.ones(1)
    if mon in given:
        return np.array(given[mon])
    out = np.ones(1)
    for f in mon.factors:
        p = given.get(s._monomial_from_atoms([f]))
        if p is None:
            return None
        out = np.convolve(out, p)
    return out


def pad(p, n):
    return np.concatenate([p, np.zeros(n - len(p))])


def family(rng, s, vals, lo, hi, prec, kind):
    """pieces (root, certificate) written in the moments that the solver receives as known"""
    given = {m: c for m, c in vals}
    names, polys = [], []
    for nm in known_of(STATE["kw"]):
        mon = s.monomial_from_name[nm]
        p = poly_of(s, mon, given)
        if p is None or (rng.random() < .3 and mon not in given and not mon.is_one):
            continue
        if nm == s.constant_term_name and rng.random() < .5:
            continue
        names.append(nm)
        polys.append(p)
    n = max(5, max(len(p) for p in polys))
    if any(len(p) > 9 for p in polys):
        return None
    A = np.array([pad(p, n) for p in polys]).T
    span = hi - lo
    pieces = []
    where = rng.random()
    for k in range(rng.choice([1, 1, 1, 2, 3])):
        r = lo + span * rng.randint(1, 63) / 64
        if where < .1:
            r = lo - span * rng.choice([0.0, .25, .01])
        elif where < .2:
            r = hi + span * rng.choice([0.0, .25, .01])
        elif where < .3:
            r = rng.choice([lo, hi]) + prec * rng.choice([-3, -1.5, -.5, -.1, .1, .5, 1.5, 3])
        scale = rng.choice([.25, .5, 1.0, 2.0, 5.0])
        target, bent = scale * np.array([r, -1.0]), 0.0
        if rng.random() < .5:
            b = rng.choice([.5, 1.0, -.5, -.8]) / span
            bt = np.convolve(target, [1 - b * lo, b])
            if solve(A, bt, n) is not None:
                target, bent = bt, b
        c = solve(A, target, n)
        if c is None:
            return None
        # the same piece with weights moved between moments
        if rng.random() < .5:
            u, sv, vt = np.linalg.svd(A)
            null = vt[np.sum(sv > 1e-9):]
            if len(null):
                c = c + null.T @ np.array([rng.choice([-1, 0, 1]) for _ in null])
        pieces.append((r, c, scale, bent))
    return dict(names=names, certs=[p[1] for p in pieces], roots=[p[0] for p in pieces], scales=[p[2] for p in pieces],
                bent=[p[3] for p in pieces])


def solve(A, target, n):
    if len(target) > n:
        return None
    t = pad(np.asarray(target), n)
    c, *_ = np.linalg.lstsq(A, t, rcond=None)
    return c if np.allclose(A @ c, t, atol=1e-9) else None


def clean(cert):
    """normalised to largest coefficient one"""
    mx = max([abs(v) for v in cert.values()] or [0])
    return {k: v / mx for k, v in cert.items()} if mx else {}


def same(a, b, tol):
    return all(abs(a.get(k, 0) - b.get(k, 0)) <= tol for k in set(a) | set(b))


def merged(s, cert):
    out = {}
    for k, v in cert.items():
        m = s.monomial_from_name[k]
        if not m.is_zero:
            out[m] = out.get(m, 0) + v
    return out


def key_for(rng, s, m, mode):
    if mode == "moment":
        return m
    if mode == "name" and s.monomial_from_name.get(m.name) == m:
        return m.name
    if mode == "symbol" and s.monomial_from_symbol.get(m.symbol) == m:
        return m.symbol
    return m


def main(rec, rng, tier, shard, n):
    prog.install()
    from inflation import max_within_feasible
    for d in alg.scenarios(rng, shard, n, 40 if tier != "thorough" else 400, max_ops=14, max_level=2, max_parties=3, max_outs=2):
        if np.prod([[1, 1, 2, 6, 24][l] for l in scen.levels(d)]) > 8:
            continue
        kind = rng.choice(["lp", "sdp"])
        prog.install()
        x = prog.build(rng, d, "quick", kind)
        if x is None or x[2]:
            continue
        s = x[0]
        b = rec.block(scen.encode(d), feat=[kind])
        for _ in range(4):
            search(rec, rng, b, s, kind, max_within_feasible)


def search(rec, rng, b, s, kind, fun):
    lo, hi = rng.choice([(0.0, 1.0), (0.0, 1.0), (.25, 1.0), (0.0, 2.0), (-1.0, 1.0), (.5, .75)])
    prec = rng.choice([1e-4, 1e-4, 1e-3, 1e-2, 1e-5, 1 / 256, 1e-6, 1e-7])
    only = rng.random() < .3
    lpi = rng.random() < .35
    vals = values(rng, s, lo, hi, lpi and not only)
    if not vals:
        return
    mod = sys.modules["inflation.lp.InflationLP" if kind == "lp" else "inflation.sdp.InflationSDP"]
    prog.install()
    prog.CAP["script"] = dict(status="unknown", success=False, primal_value=None)
    ev_at = lambda c, v: c[0] + c[1] * v + c[2] * v * v
    try:
        mid = lo + (hi - lo) * .34375
        s.set_values({m: ev_at(c, mid) for m, c in vals}, only_specified_values=only, use_lpi_constraints=lpi)
        s.solve(feas_as_optim=True)
        STATE["kw"] = prog.CAP["kw"]
        STATE["shape"] = shape(STATE["kw"])
    except Exception:
        return
    f = family(rng, s, vals, lo, hi, prec, kind)
    if f is None:
        return
    mode = rng.choice(["moment", "name", "symbol", "mixed"])
    entries = list(vals)
    sym = {}
    for m, c in entries:
        e = sp.Rational(c[0]) + sp.Rational(c[1]) * V + sp.Rational(c[2]) * V ** 2
        if e.is_number:
            e = rng.choice([e, float(e), sp.Float(float(e))])
        elif rng.random() < .3:
            e = sp.Float(c[0]) + c[1] * V + c[2] * V * V
        sym[key_for(rng, s, m, rng.choice(["moment", "name", "symbol"]) if mode == "mixed" else mode)] = e
    if len(sym) != len(vals) or not any(hasattr(e, "free_symbols") and e.free_symbols for e in sym.values()):
        return
    if rng.random() < .4:
        sym[s.One] = 1.0
    method = rng.choice(["bisection", "dual"])
    kw = {}
    default = (lo, hi) == (0.0, 1.0) and rng.random() < .5
    if not default:
        kw["bounds"] = rng.choice([np.array([lo, hi]), [lo, hi], (lo, hi)])
    if prec != 1e-4 or rng.random() < .5:
        kw["precision"] = prec
    if lpi or rng.random() < .2:
        kw["use_lpi_constraints"] = lpi
    STATE["dual"], STATE["params"] = True, None
    if rng.random() < .3:
        STATE["dual"] = kw["solve_dual"] = rng.choice([True, False])
    if rng.random() < .2:
        STATE["params"] = kw["solverparameters"] = {"param": 1.5}
    if only or rng.random() < .3:
        kw["only_specified_values"] = only
    last = rng.random() < .6
    if last or rng.random() < .3:
        kw["return_last_certificate"] = last
    if rng.random() < .2:
        kw["verbose"] = 1
    if method == "bisection" and rng.random() < .2:
        kw[rng.choice(["xtol"])] = prec / rng.choice([1, 2, 8])
    f["vnames"] = [m.name for m, _ in vals]
    STATE.update(family=f, log=[])
    STATE["fail"] = rng.choice([0, 1, 2, 3, 4]) if rng.random() < .08 and (method, kind) != ("dual", "lp") else -1
    setattr(mod, "solveLP" if kind == "lp" else "solveSDP_MosekFUSION", solver(kind))
    u = prec / 64
    pos = lambda v: int(round(max(min((v - lo) / u, 2e9), -2e9)))
    e = dict(method=method, len=pos(hi), roots=[pos(r) for r in f["roots"]], smooth=len(f["roots"]) == 1 and not f["bent"][0],
             slopes=[int(np.ceil(64 * max(1, 1 + f["bent"][k] * (hi - lo)) * f["scales"][k])) for k in range(len(f["roots"]))],
             low=[int(64 * min(1, 1 + f["bent"][k] * (hi - lo)) * f["scales"][k]) for k in range(len(f["roots"]))],
             polys=[[int(round(4 * z)) for z in c] for _, c in vals], fail=False, last=last, certs=[], exc="", result=0, solves=[], kw=sorted(map(str, kw)))
    try:
        r = fun(s, sym, method, **kw)
        cert = {}
        if last:
            r, cert = r
        e["result"] = pos(float(r))
        mine = clean({(s._sanitise_moment if kind == "sdp" else s._sanitise_monomial)(k): float(v) for k, v in cert.items()}) if last else {}
        if last:
            e["certs"] = [i + 1 for i, g in enumerate(STATE["log"]) if same(mine, clean(merged(s, g["cert"])), 4e-3)]
    except Exception as x:
        e["exc"] = type(x).__name__
        e["msg"] = str(x)[:100]
    a = next(i for i, (_, c) in enumerate(vals) if c[1] and not c[2])
    for g in STATE["log"]:
        p = (g["x"][a] - vals[a][1][0]) / vals[a][1][1]
        e["fail"] = e["fail"] or not g["ok"]
        e["solves"].append(dict(p=pos(p), q=int(round(p * GRID)), x=[int(round(z * GRID)) for z in g["x"]], ok=g["ok"],
                                neg=bool(g["lam"] < 0), asked=g["asked"], near=bool(abs(g["lam"]) <= prec / 1000), root=pos(f["roots"][g["k"]])))
    rec.ev(b, "search", **e)


cm.main(main)
