"""C23: what a relaxation reports about its moments and constraints."""
import numpy as np
import common as cm, scen, alg, model
from c06 import lp_cost, moments, gen
from c04 import closed_columns


def w_of(ops, m):
    return alg.words_from(ops, m.as_2d_array)


def flat(s, ops, m):
    return alg.words_from(ops, s._lexorder[np.asarray(m.as_lexmon, dtype=int)]) if len(m.as_lexmon) else []


def attempt(f):
    try:
        return f()
    except Exception as x:
        return cm.exc(x)


def flag(f):
    """0, 1 or 2 when reading the attribute raises"""
    try:
        return int(bool(f()))
    except Exception:
        return 2


def atom_of(s, ops, a, sdp):
    e = dict(w=w_of(ops, a), nops=int(a.n_operators), one=bool(a.is_one), zero=bool(a.is_zero), allcomm=flag(lambda: a.is_all_commuting),
             docond=flag(lambda: a.is_do_conditional), know=flag(lambda: a.is_knowable), rect=[], herm=3, phys=3, dag=[], dagdag=True)
    if a.is_knowable and not a.is_one and not a.is_zero:
        e["rect"] = [[int(x) for x in r] for r in a.rectified_ndarray]
    if sdp and not a.is_zero:
        e["herm"], e["phys"] = flag(lambda: a.is_hermitian), flag(lambda: a.is_physical)
        e["dag"] = w_of(ops, a.dagger)
        e["dagdag"] = bool(a.dagger.dagger == a)
    return e


def moment_of(s, ops, m, sdp):
    return dict(atoms=[w_of(ops, f) for f in m.factors if not f.is_one and not f.is_zero], nfac=int(m.n_factors), len=len(m), nops=int(m.n_operators), atomic=bool(m.is_atomic),
                one=bool(m.is_one), zero=bool(m.is_zero), know=bool(m.is_knowable), status=str(m.knowability_status),
                nk=int(m.n_knowable_factors), nu=int(m.n_unknowable_factors), kf=[w_of(ops, f) for f in m.knowable_factors if not f.is_one and not f.is_zero],
                uf=[w_of(ops, f) for f in m.unknowable_factors], docond=bool(m.is_do_conditional), flat=flat(s, ops, m) if not m.is_zero else [],
                allcomm=flag(lambda: m.is_all_commuting) if sdp else 3, herm=flag(lambda: m.is_hermitian) if sdp else 3,
                phys=flag(lambda: m.is_physical) if sdp else 3)


def entries(idx, d):
    return [[idx[m], cm.rat(float(v))] for m, v in d.items()]


def sparse(M):
    """rows of [column, value], entries of one column added up"""
    out = [dict() for _ in range(M.shape[0])]
    M = M.tocoo()
    for i, j, v in zip(M.row, M.col, M.data):
        out[int(i)][int(j) + 1] = out[int(i)].get(int(j) + 1, 0) + float(v)
    return [[[j, cm.rat(v)] for j, v in r.items()] for r in out]


def views(rec, rng, b, s, idx, nidx):
    """the linear program's constraints in every form it offers"""
    ms = list(s.monomials)
    val = lambda: rng.choice([0, .25, .5, 1, -.5, .125, 2])
    some = lambda k: rng.sample(ms[1:], min(len(ms) - 1, k)) if len(ms) > 1 else []
    try:
        if rng.random() < .7:
            m = model.rich(b["_d"], rng, 4)
            dist, den = m.dist()
            s.set_distribution(dist / den, use_lpi_constraints=rng.random() < .6)
        else:
            s.set_values({m: abs(val()) for m in some(3)}, use_lpi_constraints=rng.random() < .6)
        if rng.random() < .8:
            s.set_objective({m: val() for m in some(3)}, rng.choice(["max", "min"]))
        if rng.random() < .8:
            s.set_bounds({m: abs(val()) for m in some(3)}, "up")
        if rng.random() < .8:
            s.set_bounds({m: abs(val()) for m in some(3)}, "lo")
        if rng.random() < .7:
            s.set_extra_equalities([{m: val() for m in some(3)} for _ in range(rng.randint(0, 3))])
        if rng.random() < .7:
            s.set_extra_inequalities([{m: val() for m in some(3)} for _ in range(rng.randint(0, 3))])
    except AssertionError:
        return                                           # bounds that contradict each other
    by = lambda d: [[nidx[n], cm.rat(float(v))] for n, v in d.items()]
    V = []

    def view(name, truth, got):
        try:
            V.append(dict(name=name, truth=truth(), got=got(), exc=""))
        except Exception as x:
            V.append(dict(name=name, truth=[], got=[], exc=cm.exc(x)))

    for name, d, sp, bn in (("known", s.known_moments, "sparse_known_vars", "known_vars_by_name"),
                            ("lower", s.moment_lowerbounds, "sparse_lowerbounds", "lowerbounds_by_name"),
                            ("upper", s.moment_upperbounds, "sparse_upperbounds", "upperbounds_by_name"),
                            ("objective", s.objective, "sparse_objective", "objective_by_name")):
        view(sp, lambda: [entries(idx, d)], lambda: sparse(getattr(s, sp)))
        view(bn, lambda: [entries(idx, d)], lambda: [by(getattr(s, bn))])
    for sp, dd, bn in (("sparse_equalities", "moment_equalities", "moment_equalities_by_name"),
                       ("sparse_inequalities", "moment_inequalities", "moment_inequalities_by_name")):
        view(dd, lambda: sparse(getattr(s, sp)), lambda: [entries(idx, r) for r in getattr(s, dd)])
        view(bn, lambda: sparse(getattr(s, sp)), lambda: [by(r) for r in getattr(s, bn)])
    for dd, sp in (("extra_equalities", "sparse_extra_equalities"), ("extra_inequalities", "sparse_extra_inequalities")):
        view(sp, lambda: [entries(idx, r) for r in getattr(s, dd)], lambda: sparse(getattr(s, sp)))
    view("semiknown_by_name", lambda: [[[idx[m], cm.rat(float(c))], [idx[r], [1, 1]]] for m, (c, r) in s.semiknown_moments.items()],
         lambda: [[[nidx[m], cm.rat(float(c))], [nidx[r], [1, 1]]] for m, (c, r) in s.semiknown_by_name.items()])
    view("sparse_semiknown", lambda: [[[idx[m], [1, 1]], [idx[r], cm.rat(-float(c))]] for m, (c, r) in s.semiknown_moments.items()],
         lambda: sparse(s.sparse_semiknown))
    rec.ev(b, "views", views=V)


def conditions(rec, b, s, idx, nidx, allm):
    """factorisation conditions of a linear relaxation: [moment, [moments]]"""
    def conv(d, key):
        return [[key(m), [key(x) for x in v]] for m, v in d.items()]
    C, mi = [], lambda m: idx[m]
    for name, key in (("factorization_conditions", mi), ("factorization_conditions_by_name", lambda n: nidx[n]),
                      ("sparse_factorization_conditions", lambda i: int(i) + 1), ("quadratic_factorization_conditions", mi),
                      ("quadratic_factorization_conditions_by_name", lambda n: nidx[n]), ("sparse_quadratic_factorization_conditions", lambda i: int(i) + 1)):
        try:
            C.append(dict(name=name, quad=name.find("quadratic") >= 0, conds=conv(getattr(s, name), key), exc=""))
        except KeyError as x:
            C.append(dict(name=name, quad=name.find("quadratic") >= 0, conds=[], exc="missing"))
        except Exception as x:
            C.append(dict(name=name, quad=name.find("quadratic") >= 0, conds=[], exc=cm.exc(x)))
    rec.ev(b, "conditions", conds=C, mons=allm)


def emit(rec, rng, d, p, ops, s, tier):
    sdp = s.problem_type == "sdp"
    ms = moments(s)
    names = [str(m.name) for m in ms]
    b = rec.block(scen.encode(d), ops=[list(r) for r in ops.rows], sdp=sdp)
    b["feat"] = ["sdp" if sdp else "lp"]
    pick = ms if len(ms) <= 60 else [ms[0]] + rng.sample(ms, 59)
    rec.ev(b, "moments", moms=[moment_of(s, ops, m, sdp) for m in pick], exc="")
    ats = [a for a in s.atomic_factors if not a.is_zero and not a.is_one]
    pa = ats if len(ats) <= 40 else rng.sample(ats, 40)
    rec.ev(b, "atoms", atoms=[atom_of(s, ops, a, sdp) for a in pa],
           order=[[i + 1, j + 1, bool(pa[i] < pa[j]), bool(pa[i] == pa[j]), hash(pa[i]) == hash(pa[j])]
                  for i, j in [(rng.randrange(len(pa)), rng.randrange(len(pa))) for _ in range(40 if pa else 0)]])
    m0 = model.rich(d, rng, 4)
    dist, den = m0.dist()
    know = [m for m in ms if m.is_knowable and not m.is_zero]
    rec.ev(b, "marginal", dist=[int(x) for x in dist.flat], den=int(den),
           moms=[dict(atoms=[w_of(ops, f) for f in m.factors if not f.is_one], v=cm.rat(float(m.compute_marginal(dist / den))))
                 for m in rng.sample(know, min(len(know), 25))])
    E = []
    many = [m for m in ms if len(m.factors) > 1 and not m.is_zero] or ms
    for _ in range(20):
        m, lpi = rng.choice(many), rng.random() < .6
        if m.is_zero:
            continue
        known = {a: rng.choice([0, .25, .5, .5, .75]) for a in set(m.factors) if rng.random() < .6}
        for a in rng.sample(ats, min(len(ats), 2)):
            known.setdefault(a, .125)
        v, unknown, st = m.evaluate(known, lpi)
        E.append(dict(atoms=[w_of(ops, f) for f in m.factors if not f.is_one], known=[[w_of(ops, a), cm.rat(float(x))] for a, x in known.items() if not a.is_one],
                      one=[cm.rat(float(x)) for a, x in known.items() if a.is_one], hasone=any(f.is_one for f in m.factors),
                      lpi=lpi, v=cm.rat(float(v)), unknown=[w_of(ops, f) for f in unknown if not f.is_one], st=st))
    rec.ev(b, "evaluate", evs=[e for e in E if not e["hasone"]])
    allm = [[w_of(ops, f) for f in m.factors if not f.is_zero and not f.is_one] for m in ms]
    rec.ev(b, "lists", all=allm, atomic_factors=[w_of(ops, a) for a in ats], atomic_monomials=attempt(lambda: [[w_of(ops, f) for f in m.factors] for m in s.atomic_monomials
                                                                                                 if not m.is_zero and not m.is_one]),
           knowable=[[w_of(ops, f) for f in m.factors] for m in s.knowable_atoms if not m.is_zero and not m.is_one],
           docond=[[w_of(ops, f) for f in m.factors] for m in s.do_conditional_atoms if not m.is_zero and not m.is_one],
           strings=bool(sdp or [str(x) for x in s.monomials_as_strings] == names))
    eqp = []
    for _ in range(30):
        i, j = rng.randrange(len(ms)), rng.randrange(len(ms))
        eqp.append([i + 1, j + 1, bool(ms[i] == ms[j]), hash(ms[i]) == hash(ms[j])])
    for a in rng.sample(ats, min(len(ats), 10)):
        m = s._monomial_from_atoms([a])
        eqp.append([0, 0, bool(m == a), True, w_of(ops, a)])
    rec.ev(b, "equal", all=allm, pairs=eqp, zero=[bool(m.is_zero) for m in ms])
    idx = {m: i + 1 for i, m in enumerate(ms)}
    nidx = {n: i + 1 for i, n in enumerate(names)}
    if not sdp:
        b["_d"] = d
        conditions(rec, b, s, idx, nidx, allm)
        for _ in range(2):
            views(rec, rng, b, s, idx, nidx)
        del b["_d"]
    else:
        from inflation.sdp.quantum_tools import commutation_relations, lexicographic_order
        byname = {"_".join([p.names[r[0] - 1]] + [str(int(x)) for x in r[1:]]): ops.of_row(r) for r in p._lexorder}
        if len(byname) == len(ops.rows) and len(ops.rows) <= 40:
            try:
                rel = []
                for e in commutation_relations(s).exprs:
                    fac = next(t for t in e.args if -1 not in t.args)
                    rel.append([byname[str(f)] for f in fac.args])
                order = [[byname[str(k)] if str(k) in byname else 0, int(v)] for k, v in lexicographic_order(s).items()]
                rec.ev(b, "relations", rel=rel, order=order, internal=[ops.of_row(r) for r in s._lexorder], exc="")
            except Exception as x:
                rec.ev(b, "relations", rel=[], order=[], internal=[], exc=cm.exc(x))
    b["w"] = len(pick) + len(pa) + len(ms) // 4


def main(rec, rng, tier, shard, n):
    from inflation import InflationSDP, InflationLP
    count = (12 if shard < 1000 else 4) if tier != "thorough" else 120
    for d in alg.scenarios(rng, shard, n, count, max_ops=26, max_level=2, max_parties=3):
        if np.prod([[1, 1, 2, 6, 24][l] for l in scen.levels(d)]) > 24:
            continue
        p = alg.used(rng, scen.build(d))
        ops = scen.Ops(p)
        allcl = not p._default_notcomm.any()
        if lp_cost(d, p) <= 1200 and rng.random() < .6:
            s = InflationLP(p, nonfanout=not allcl, verbose=0, include_all_outcomes=rng.random() < .25, supports_problem=rng.random() < .15,
                            default_non_negative=rng.random() < .7)
            if len(s.monomials) <= 260:
                emit(rec, rng, d, p, ops, s, tier)
                continue
        s = InflationSDP(p, verbose=0, include_all_outcomes=rng.random() < .2, supports_problem=rng.random() < .15)
        if rng.random() < .5:
            spec = closed_columns(rng, s, ops, d)
            s.generate_relaxation(spec if 3 <= len(spec) <= 34 else "npa1")
        else:
            gen(rng, s, d)
        if len(s.moments) <= 500:
            emit(rec, rng, d, p, ops, s, tier)


cm.main(main)
