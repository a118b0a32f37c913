"""C06: what supplying a distribution does to the moments of a relaxation."""
import numpy as np
import common as cm, scen, alg, model


def atoms_of(s, ops, m):
    lp = s.problem_type == "lp"
    out = []
    for f in m.factors:
        if f.is_one:
            continue
        out.append(alg.words_from(ops, f.as_2d_array))
    return out


def lp_cost(d, p):
    c = 1
    for g in p._ortho_groups:
        c *= len(g) + 1
        if c > 10 ** 7:
            break
    return c


def relaxations(rng, d, p, tier):
    from inflation import InflationSDP, InflationLP
    cost = lp_cost(d, p)
    allcl = not p._default_notcomm.any()
    if cost <= 4000 and rng.random() < 0.55:
        yield "lp", InflationLP(p, nonfanout=not allcl, verbose=0, include_all_outcomes=rng.random() < .2), False
    else:
        s = InflationSDP(p, verbose=0, include_all_outcomes=rng.random() < .15)
        gen(rng, s, d)
        yield "sdp", s, False
    if rng.random() < 0.35:
        if cost <= 1500 and rng.random() < 0.5:
            yield "lp", InflationLP(p, nonfanout=not allcl, verbose=0, supports_problem=True), True
        else:
            s = InflationSDP(p, verbose=0, supports_problem=True)
            gen(rng, s, d)
            yield "sdp", s, True


def gen(rng, s, d):
    for spec in rng.sample(["npa2", "local1", "physical1", "physical2", "npa1"], 5):
        try:
            n = len(s.build_columns(spec))
        except Exception:
            continue
        if 2 <= n <= 40:
            s.generate_relaxation(spec)
            return
    s.generate_relaxation("npa1")


def moments(s):
    return list(s.moments) if s.problem_type == "sdp" else list(s.monomials)


def tiny(rng, m, s):
    """the same model, its sources almost deterministic (only so many of them not fully so that no product vanishes numerically)"""
    f = max([sum(a.is_knowable for a in x.factors) for x in moments(s) if not x.is_zero] + [1])
    D = rng.choice([64, 128, 256])
    k = max([k for k in range(1, len(m.S) + 1) if D ** (k * f) <= 2 ** 22] + [0])
    if not k or D ** len(m.S) >= 2 ** 30:
        return m
    m.D, live = D, rng.sample(m.S, k)
    for x in m.S:
        v = len(m.w[x])
        m.w[x] = [1 if x in live else 0] * (v - 1)
        m.w[x].append(D - sum(m.w[x]))
        rng.shuffle(m.w[x])
    return m


def observe(rng, s, ops, cap=150):
    ms = moments(s)
    if len(ms) > cap:
        few = [m for m in ms if m.knowability_status == "Semi"]
        set_ = [m for m in ms if m in s.known_moments]
        ms = rng.sample(ms, cap // 3) + rng.sample(few, min(len(few), cap // 3)) + rng.sample(set_, min(len(set_), cap // 3))
    out = []
    for m in ms:
        e = dict(atoms=[] if m.is_zero else atoms_of(s, ops, m), zero=bool(m.is_zero), st="free", v=[0, 1], rest=[],
                 lb=[0, 0])
        if m in s.known_moments:
            e["st"], e["v"] = "fixed", cm.rat(float(s.known_moments[m]))
        if m in s.semiknown_moments:
            c, r = s.semiknown_moments[m]
            e["st"] = "semi" if e["st"] == "free" else "both"
            e["v"], e["rest"] = cm.rat(float(c)), atoms_of(s, ops, r)
        if m in s.moment_lowerbounds:
            e["lb"] = cm.rat(float(s.moment_lowerbounds[m]))
        out.append(e)
    return out


def mixed(rng):
    """products of factors the distribution determines and factors it does not"""
    q = rng.randrange(4)
    if q == 0:
        return scen.D({"s": ["A"], "t": ["B"]}, [2, 2], [2, rng.choice([1, 2])], [rng.choice([1, 2]), 1], tag="mixed")
    if q == 1:
        return scen.D({"s": ["A", "B"], "t": ["A", "B"], "u": ["C"]}, [2, 2, rng.choice([2, 3])], [1, 1, 1], [2, 2, 1],
                      cls=rng.choice([(), "all"]), tag="mixed")
    if q == 2:
        return scen.D({"s": ["A", "B"], "u": ["C"]}, [2, 2, 2], [2, 1, 1], [2, rng.choice([1, 2])], tag="mixed")
    return scen.D({"s": ["B", "C"], "A": ["B"], "g": ["A", "D"], "u": ["D"]}, [2, 2, 2, 2], [1, 1, 1, 1], [1, 1, 1], tag="mixed")


def main(rec, rng, tier, shard, n):
    count = (16 if shard < 1000 else 6) if tier != "thorough" else 130
    for d in [mixed(rng) for _ in range(4)] + list(alg.scenarios(rng, shard, n, count, max_ops=30, max_level=3, max_parties=3)):
        if np.prod([[1, 1, 2, 6, 24][l] for l in scen.levels(d)]) > 24:
            continue
        p = scen.build(d)
        ops = scen.Ops(p)
        for kind, s, sup in relaxations(rng, d, p, tier):
            b = rec.block(scen.encode(d), ops=[list(r) for r in ops.rows], problem=kind, supports=sup,
                          feat=[kind, "supports" if sup else "values"])
            for rep in range(2):
                m = model.rich(d, rng, rng.choice([2, 4]))
                if rng.random() < (.65 if d["tag"] == "mixed" else .35) and m.D > len(m.w[m.S[0]]):        # very small probabilities
                    m = tiny(rng, m, s)
                dist, den = m.dist()
                lpi, shared = rng.random() < .5, rng.random() < .2
                e = dict(dist=[int(x) for x in dist.flat], den=int(den), lpi=lpi, shared=shared)
                try:
                    s.set_distribution(dist / den, use_lpi_constraints=lpi, shared_randomness=shared)
                    rec.ev(b, "dist", moms=observe(rng, s, ops), exc="", **e)
                except Exception as x:
                    rec.ev(b, "dist", moms=[], exc=cm.exc(x), **e)
                if sup:
                    break                  # what later distributions leave behind is judged by C11 and C12
            ats = list(s.atomic_factors)
            rng.shuffle(ats)
            rec.ev(b, "know", dist=e["dist"], den=e["den"],
                   atoms=[dict(w=alg.words_from(ops, a.as_2d_array), know=bool(a.is_knowable),
                               v=cm.rat(float(a.compute_marginal(dist / den))) if a.is_knowable else [0, 0])
                          for a in sorted(ats, key=lambda a: not a.is_knowable)[:60] + ats[:60] if not a.is_zero and not a.is_one])
            b["w"] = sum(len(x.get("moms", [])) for x in b["ev"]) + 10


cm.main(main)
