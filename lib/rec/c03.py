import numpy as np
import common as cm, scen, alg


def dense(rng):
    """many operators of few parties, with long chains of operators that do and do not commute"""
    k = rng.randrange(5)
    x = rng.choice([1, 2])
    if k == 0:
        return scen.D({"s": ["A"], "t": ["A"]}, [2], [x], [3, 3], tag="dense")
    if k == 1:
        return scen.D({"s": ["A", "B"], "t": ["B", "A"]}, [2, 2], [x, 1], [2, 2], tag="dense")
    if k == 2:
        return scen.D({"s": ["A"], "t": ["A"], "u": ["A"]}, [2], [x], [2, 2, 2], tag="dense")
    if k == 3:
        return scen.D({"s": ["A", "L"], "t": ["B"], "L": ["A", "B"]}, [2, 2], [x, 2], [2, 2], ncil=["L"], tag="dense")
    return scen.D({"s": ["A"], "t": ["A"], "u": ["A"]}, [2], [1], [3, 2, 3], cls=["u"] if rng.random() < .5 else [], tag="dense")


def words(rec, rng, d):
    """long products over many operators"""
    from inflation import InflationSDP
    p = scen.build(d)
    ops = scen.Ops(p)
    s = InflationSDP(p, verbose=0)
    b = alg.block(rec, d, p, ops)
    n = len(ops.rows)

    def red(w):
        try:
            lex = s.mon_to_lexrepr(alg.arr(ops, w, s.np_dtype, s._nr_properties))
            return alg.words_from(ops, s._lexorder[np.asarray(s._to_canonical_memoized_1d(lex, False), dtype=int)])
        except Exception as e:
            return [-1]
    for _ in range(40):
        pool = rng.sample(range(1, n + 1), rng.randint(2, min(n, 7)))
        w = [rng.choice(pool) for _ in range(rng.randint(3, 9))]
        if rng.random() < .6:
            rec.ev(b, "reduce", w=w, com=False, out=red(w))
            continue
        ws = [w]
        for _ in range(4):
            v = list(ws[-1])
            for _ in range(rng.randint(1, 8)):
                k = rng.randrange(len(v) - 1)
                if rng.random() < .1 or not p._default_notcomm[v[k] - 1, v[k + 1] - 1]:
                    v[k], v[k + 1] = v[k + 1], v[k]
            ws.append(v)
        rec.ev(b, "class", ws=ws, outs=[red(v) for v in ws], com=False)


def main(rec, rng, tier, shard, n):
    from inflation import InflationSDP
    for _ in range(4 if tier != "thorough" else 30):
        words(rec, rng, dense(rng))
    count = (13 if shard < 1000 else 6) if tier != "thorough" else 60
    for d in alg.scenarios(rng, shard, n, count, max_ops=30, max_level=3, max_parties=3):
        p = scen.build(d)
        ops = scen.Ops(p)
        s = InflationSDP(p, verbose=0)
        b = alg.block(rec, d, p, ops, needperms=True)
        dt, wd = s.np_dtype, s._nr_properties

        def red1(w, com=False):
            try:
                lex = s.mon_to_lexrepr(alg.arr(ops, w, dt, wd))
                return alg.words_from(ops, s._lexorder[np.asarray(s._to_canonical_memoized_1d(lex, com), dtype=int)])
            except Exception as e:
                return [-1]
        for _ in range(14):
            w = alg.random_word(rng, ops, d, 6)
            f = red1
            com = rng.random() < 0.25
            rec.ev(b, "reduce", w=w, com=com, out=f(w, com))
            if rng.random() < 0.5:                       # the other flavour, after the first one was cached
                rec.ev(b, "reduce", w=w, com=not com, out=f(w, not com))
                rec.ev(b, "reduce", w=w, com=com, out=f(w, com))
        for _ in range(5):
            w = alg.random_word(rng, ops, d, 5)
            ws = [w]
            for _ in range(5):
                v = list(w)
                for _ in range(rng.randint(1, 4)):
                    if len(v) > 1:
                        k = rng.randrange(len(v) - 1)
                        v[k], v[k + 1] = v[k + 1], v[k]
                if rng.random() < 0.4:
                    k = rng.randrange(len(v))
                    v.insert(k, v[k])
                ws.append(v)
            f = red1
            rec.ev(b, "class", ws=ws, outs=[f(v) for v in ws], com=False)
        for _ in range(10):                              # moments built from arbitrary products, in any order
            w = alg.random_word(rng, ops, d, 4)
            moment(rec, b, s, ops, w, rng)
        for _ in range(8):
            w = alg.random_word(rng, ops, d, 5)
            a = alg.arr(ops, w, dt, wd)
            lex = s.mon_to_lexrepr(a)
            rec.ev(b, "pred", w=w, allcomm=bool(s.all_commuting_q_1d(lex)), hasherm=False, herm=False, atoms=[])
            m = s._sanitise_moment(a)
            if not m.is_zero:
                rec.ev(b, "pred", w=w, allcomm=bool(s.all_commuting_q_1d(lex)), hasherm=True, herm=bool(m.is_hermitian),
                       atoms=[alg.words_from(ops, f.as_2d_array) for f in m.factors])


def moment(rec, b, s, ops, w, rng):
    a = alg.arr(ops, w, s.np_dtype, s._nr_properties)
    how = rng.choice(["Moment_2d", "sanitise"])
    try:
        m = s.Moment_2d(a) if how == "Moment_2d" else s._sanitise_moment(a)
        rec.ev(b, "moment", w=w, how=how, zero=bool(m.is_zero), one=bool(m.is_one), exc="",
               atoms=[] if m.is_zero else [alg.words_from(ops, f.as_2d_array) for f in m.factors])
    except Exception as e:
        rec.ev(b, "moment", w=w, how=how, zero=False, one=False, atoms=[[0]], exc=cm.exc(e))


if __name__ == "__main__":
    cm.main(main)
