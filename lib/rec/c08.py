"""C08: variables and constraints of the linear relaxation."""
import numpy as np
import common as cm, scen, alg


def raw_count(p, keep):
    """upper bound on the number of events"""
    c = 1
    for q, groups in enumerate(p._ortho_groups_per_party):
        for g in groups:
            c *= len(g) + (1 if keep[q] else 0)
            if c > 10 ** 7:
                return c
    return c


def rows_of(m):
    m = m.tocsr()
    out = []
    for i in range(m.shape[0]):
        r = m[[i], :].tocoo()
        r.sum_duplicates()
        out.append([[int(j) + 1, int(v)] for j, v in zip(r.coords[1] if hasattr(r, "coords") else r.col, r.data) if v != 0])
    return out


def main(rec, rng, tier, shard, n):
    from inflation import InflationLP
    lim = 700 if tier != "thorough" else 3000
    count = (26 if shard < 1000 else 6) if tier != "thorough" else 120
    for d in alg.scenarios(rng, shard, n, count, max_ops=26, max_level=3, max_parties=4):
        if np.prod([[1, 1, 2, 6, 24][l] for l in scen.levels(d)]) > 36:
            continue
        p = scen.build(d)
        ops = scen.Ops(p)
        if raw_count(p, [True] * len(scen.parties(d))) > 40 * lim:
            continue
        nev = sum(int(np.prod([len(p._ortho_groups[m]) + 0 for m in t])) if t else 1
                  for t in p.all_and_maximal_compatible_templates()[0])
        if nev > lim:
            continue
        alg.used(rng, p)
        for full in (rng.sample([False, True], 2) if rng.random() < .3 else [rng.random() < .2]):
            sup = full and rng.random() < .5
            allcl = not p._default_notcomm.any()
            b = rec.block(scen.encode(d), ops=[list(r) for r in ops.rows], full=full)
            try:
                s = InflationLP(p, nonfanout=not allcl or rng.random() < .3, verbose=0, supports_problem=sup,
                                include_all_outcomes=full and not sup, default_non_negative=rng.random() < .5)
                vs = [dict(fs=alg.atoms_of(ops, m), status=m.knowability_status)
                      for m in s.monomials]
                vs[0]["status"] = ""
                idx = {m: i + 1 for i, m in enumerate(s.monomials)}
                fc, qc = s.factorization_conditions, s.quadratic_factorization_conditions
                fact = [dict(v=idx[m], parts=[alg.atoms_of(ops, x) for x in fc[m]],
                             quad=[alg.atoms_of(ops, x) for x in qc[m]]) for m in fc]
                rec.ev(b, "lp", vars=vs, ineq=rows_of(s.minimal_sparse_inequalities), eq=rows_of(s.minimal_sparse_equalities),
                       fact=fact, exc="")
            except Exception as x:
                rec.ev(b, "lp", vars=[], ineq=[], eq=[], fact=[], exc=cm.exc(x))
            b["w"] = nev
            b["feat"] = ["lp", "children" if any(p.has_children) else "network", "quantum" if not allcl else "classical",
                         "full" if full else "cg"]


cm.main(main)
