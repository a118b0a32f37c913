"""C05: splitting products into factors."""
import numpy as np
import common as cm, scen, alg


def chain(rng):
    """parties in a row, in a ring or in a tree, each sharing a source with the next: factors joined through many links"""
    m = rng.randint(5, 8)
    names = rng.sample("ABCDEFGHIJ", m)
    dag = {}
    for k in range(1, m):
        dag["s%d" % k] = [names[k if rng.random() < .85 else rng.randrange(k)], names[k - 1]]
        if dag["s%d" % k][0] == dag["s%d" % k][1] or names.index(dag["s%d" % k][0]) < k:
            dag["s%d" % k] = [names[k], names[rng.randrange(max(0, k - 2), k)]]
    if rng.random() < .2:
        dag["s%d" % m] = [names[-1], names[0]]
    order = sorted(names) if rng.random() < .5 else rng.sample(names, m)
    lv = [rng.choice([1, 2]) for _ in dag]
    return scen.D(dag, [2] * m, [1] * m, lv, order=order, tag="chain", **rng.choice([{}, dict(cls="all")]))


def wide(rng):
    """many sources shared by the same parties"""
    dag = {"s%d" % i: ["A", "B"] for i in range(4)}
    dag["t"] = rng.choice([["C"], ["C", "A"]])
    lv = [2, 2, 2, 1]
    rng.shuffle(lv)
    return scen.D(dag, [2, 2, 2], [1, 1, 1], lv + [1], cls=rng.choice([(), "all", ["s0"]]), tag="wide")


def main(rec, rng, tier, shard, n):
    from inflation import InflationSDP
    count = (20 if shard < 1000 else 7) if tier != "thorough" else 110
    for d in [chain(rng) for _ in range(2)] + [wide(rng)] + list(alg.scenarios(rng, shard, n, count, max_ops=60, max_level=4, max_parties=4)):
        p = scen.build(d)
        ops = scen.Ops(p)
        np_ = 1
        for l in scen.levels(d):
            np_ *= [1, 1, 2, 6, 24][l]
        b = alg.block(rec, d, p, ops, needperms=np_ <= 24)
        dt, wd = p._np_dtype, p._nr_properties
        N = len(ops.rows)
        rec.ev(b, "everfact", flag=bool(p.ever_factorizes))
        for _ in range(30):
            L = rng.randint(0, 7)
            w = [rng.randint(1, N) for _ in range(L)] if rng.random() < 0.7 else alg.random_word(rng, ops, d, 6)
            if d["tag"] == "chain":
                # one or two operators per party, mostly on the first copies: components spread over many links
                far = rng.random() < .5
                w = [i + 1 for i in range(N) if max(ops.rows[i][1:-2]) <= 1 or (not far and rng.random() < .1)]
                w = [rng.choice([i for i in w if ops.rows[i - 1][0] == q]) for q in range(1, len(scen.parties(d)) + 1) if rng.random() < .97]
                rng.shuffle(w)
            a = alg.arr(ops, w, dt, wd)
            how = rng.choice(["2d", "1d"])
            canon = rng.random() < 0.5

            def fac(x, can):
                if how == "2d":
                    return [alg.words_from(ops, f) for f in p.factorize_monomial_2d(x, canonical_order=can)]
                return [alg.words_from(ops, p._lexorder[np.asarray(f, dtype=int)])
                        for f in p.factorize_monomial_1d(p.mon_to_lexrepr(x), canonical_order=can)]
            try:
                out = fac(a, canon)
                same = True
                # the listing order of factors must be a function of the set of factors
                ref = fac(a, True)
                for _ in range(3):
                    fs = list(out)
                    rng.shuffle(fs)
                    # interleave the factors at random, keeping each one's order
                    pos = [i for i, f in enumerate(fs) for _ in f]
                    rng.shuffle(pos)
                    its = [iter(f) for f in fs]
                    v = [next(its[i]) for i in pos]
                    o2 = fac(alg.arr(ops, v, dt, wd), True)
                    same = same and o2 == ref
                rec.ev(b, "factor", w=w, out=[f for f in out if f], same_order=bool(same), how=how)
            except Exception as e:
                rec.ev(b, "factor", w=w, out=[[-1]], same_order=True, exc=cm.exc(e), how=how)
        if np_ <= 24:
            s = InflationSDP(p, verbose=0)
            for _ in range(8):
                w = [rng.randint(1, N) for _ in range(rng.randint(1, 4))]
                alg_moment(rec, b, s, ops, w, rng)


def alg_moment(rec, b, s, ops, w, rng):
    a = alg.arr(ops, w, s.np_dtype, s._nr_properties)
    try:
        m = s._sanitise_moment(a)
        rec.ev(b, "moment", w=w, how="sanitise", zero=bool(m.is_zero), one=bool(m.is_one), exc="",
               atoms=[] if m.is_zero else [alg.words_from(ops, f.as_2d_array) for f in m.factors])
    except Exception as e:
        rec.ev(b, "moment", w=w, how="sanitise", zero=False, one=False, atoms=[[0]], exc=cm.exc(e))


cm.main(main)
