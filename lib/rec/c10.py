"""C10: explicit models against the constraints of the relaxations."""
import itertools
import numpy as np
import common as cm, scen, alg, model
from c06 import lp_cost, moments
from c04 import closed_columns


def gen(rng, s, d, ops):
    cand = ["npa2", "local1", "physical1", "physical2", "npa1", "npa3", "closed", "closed"]
    rng.shuffle(cand)
    for spec in cand:
        try:
            if spec == "closed":
                spec = closed_columns(rng, s, ops, d)
                if len(spec) < 3:
                    continue
                n = len(spec)
            else:
                n = len(s.build_columns(spec))
        except Exception:
            continue
        if 3 <= n <= 34:
            s.generate_relaxation(spec)
            return
    s.generate_relaxation("npa1")


def rows(idx, dicts):
    return [[[idx[m], cm.rat(float(v))] for m, v in q.items()] for q in dicts]


def lp_rows(M):
    M = M.tocsr()
    return [[[int(j) + 1, cm.rat(float(v))] for j, v in zip(M.indices[M.indptr[i]:M.indptr[i + 1]], M.data[M.indptr[i]:M.indptr[i + 1]])]
            for i in range(M.shape[0])]


def emit(rec, rng, d, p, ops, kind, s, sup, tier):
    ms = moments(s)
    idx = {m: i + 1 for i, m in enumerate(ms)}
    b = rec.block(scen.encode(d), ops=[list(r) for r in ops.rows], supports=sup,
                  moms=[dict(zero=bool(m.is_zero), atoms=[] if m.is_zero else alg.atoms_of(ops, m)) for m in ms], cells=[])
    b["feat"] = [kind, "supports" if sup else "values"]
    if kind == "sdp":
        cols = [alg.words_from(ops, s._lexorder[np.asarray(c, dtype=int)]) for c in s.generating_monomials_1d]
        pairs = [(i, j) for i in range(len(cols)) for j in range(i, len(cols)) if len(cols[i]) + len(cols[j]) <= 6]
        for i, j in rng.sample(pairs, min(len(pairs), 70 if tier != "thorough" else 200)):
            b["cells"].append(dict(u=cols[i], v=cols[j], m=idx[s.compmoment_from_idx[int(s.momentmatrix[i, j])]]))
    nocells = list(b["cells"])
    quantum_ok = not d["cil"] and not d["ncil"] and all(len(v) <= 3 for v in d["dag"].values())
    for rep in range(2 if not sup else 1):
        if quantum_ok and not (d["cls"] == "all") and rng.random() < .6:
            m = model.Stab(d, rng, D=2)
        else:
            m = model.rich(d, rng, rng.choice([2, 4]))
        dist, den = m.dist()
        enc = m.encode(scen.encode(d)["names"])
        enc.setdefault("kind", "classical")
        e = dict(model=enc, dist=[int(x) for x in dist.flat], den=int(den), checkdist=dist.size <= 64)
        try:
            s.set_distribution(dist / den, use_lpi_constraints=rng.random() < .6)
            k = [[idx[q], cm.rat(float(v))] for q, v in s.known_moments.items() if q in idx]
            semi = [[idx[q], cm.rat(float(c)), idx[r]] for q, (c, r) in s.semiknown_moments.items() if r in idx]
            lo = [[idx[q], cm.rat(float(v))] for q, v in s.moment_lowerbounds.items() if q in idx]
            up = [[idx[q], cm.rat(float(v))] for q, v in s.moment_upperbounds.items() if q in idx]
            if kind == "lp":
                eq, iq = lp_rows(s.sparse_equalities), lp_rows(s.sparse_inequalities)
                if s.default_non_negative:
                    have = {q for q, _ in lo}
                    lo += [[i, [0, 1]] for q, i in idx.items() if i not in have]
            else:
                eq, iq = rows(idx, s.moment_equalities), rows(idx, s.moment_inequalities)
            rec.ev(b, "model", known=k, semi=semi, lo=lo, up=up, eq=eq, ineq=iq, exc="", **e)
        except Exception as x:
            rec.ev(b, "model", known=[], semi=[], lo=[], up=[], eq=[], ineq=[], exc=cm.exc(x), **e)
    b["w"] = len(b["moms"]) + 4 * len(b["cells"]) + 30
    b["feat"] += [ev["model"]["kind"] for ev in b["ev"]]


def main(rec, rng, tier, shard, n):
    from inflation import InflationSDP, InflationLP
    count = (14 if shard < 1000 else 5) if tier != "thorough" else 130
    for d in alg.scenarios(rng, shard, n, count, max_ops=26, max_level=2, max_parties=3):
        if np.prod([[1, 1, 2, 6, 24][l] for l in scen.levels(d)]) > 24:
            continue
        p = scen.build(d)
        ops = scen.Ops(p)
        cost = lp_cost(d, p)
        allcl = not p._default_notcomm.any()
        sup = rng.random() < .2
        if cost <= (1200 if tier != "thorough" else 6000) and rng.random() < .6:
            s = InflationLP(p, nonfanout=not allcl, verbose=0, include_all_outcomes=rng.random() < .25, supports_problem=sup,
                            default_non_negative=rng.random() < .7)
            if len(s.monomials) <= 260:
                emit(rec, rng, d, p, ops, "lp", s, sup, tier)
        s = InflationSDP(p, verbose=0, include_all_outcomes=rng.random() < .2, supports_problem=sup)
        gen(rng, s, d, ops)
        if len(s.moments) <= 350:
            emit(rec, rng, d, p, ops, "sdp", s, sup, tier)


cm.main(main)
