"""C04: moment matrices built by the library."""
import itertools
import numpy as np
import common as cm, scen, alg


def specs(rng, d):
    P = len(scen.parties(d))
    out = ["npa1", "npa2", "local1", "physical1", "physical2", "npa3"]
    out.append("local" + "".join(str(rng.choice([1, 1, 2])) for _ in range(P)))
    out.append([[]] + [[p] for p in range(P)] + [sorted(rng.choices(range(P), k=2)) for _ in range(2)])
    out.append("closed")
    out.append("closed")
    return out


def closed_columns(rng, s, ops, d):
    """Random canonical words closed under relabelling of copies (the hypothesis of the symmetrisation)."""
    cols = [()]
    n = len(ops.rows)
    syms = np.asarray(s.lexorder_symmetries)
    for _ in range(rng.randint(1, 3)):
        w = alg.random_word(rng, ops, d, 3)
        lex = s.mon_to_lexrepr(alg.arr(ops, w, s.np_dtype, s._nr_properties))
        for p in syms:
            c = np.asarray(s._to_canonical_memoized_1d(np.asarray(p[lex], dtype=np.intc)))
            t = tuple(int(x) for x in c)
            if t not in cols and t != (0,) and len(t):
                cols.append(t)
    return [np.array(c, dtype=np.intc) for c in cols]


def emit(rec, b, s, ops, spec, again):
    try:
        s.generate_relaxation(spec)
    except Exception as e:
        rec.ev(b, "matrix", cols=[[]], mm=[[1]], vars=[], exc=cm.exc(e), spec=str(spec)[:40])
        return
    cols = [alg.words_from(ops, s._lexorder[np.asarray(c, dtype=int)]) for c in s.generating_monomials_1d]
    vs = []
    for idx, m in s.compmoment_from_idx.items():
        vs.append(dict(id=int(idx), zero=bool(m.is_zero),
                       atoms=[] if m.is_zero else [alg.words_from(ops, f.as_2d_array) for f in m.factors]))
    rec.ev(b, "matrix", cols=cols, mm=np.asarray(s.momentmatrix).astype(int).tolist(), vars=vs, exc="", spec=str(spec)[:40])


def nperms(d):
    import math
    return int(np.prod([math.factorial(k) for k in scen.levels(d)]))


def main(rec, rng, tier, shard, n):
    from inflation import InflationSDP
    count = (16 if shard < 1000 else 6) if tier != "thorough" else 130
    cap = 4000 if tier != "thorough" else 12000
    for d in alg.scenarios(rng, shard, n, count, max_ops=36, max_level=3, max_parties=3):
        p = alg.used(rng, scen.build(d))
        ops = scen.Ops(p)
        full = rng.random() < 0.25
        s = InflationSDP(p, verbose=0, include_all_outcomes=full)
        cand = specs(rng, d)
        rng.shuffle(cand)
        b = alg.block(rec, d, p, ops, needperms=True)
        done = 0
        for spec in cand:
            if done >= 2:
                break
            if spec == "closed":
                spec = closed_columns(rng, s, ops, d)
                ncol = len(spec)
                if ncol < 2:
                    continue
            else:
                import warnings
                try:
                    ncol = len(s.build_columns(spec))
                except Exception as e:
                    ncol = 1
            L = max(len(c) for c in s.generating_monomials_1d) if not isinstance(spec, list) or not isinstance(spec[0], np.ndarray) else 3
            if ncol * ncol / 2 * nperms(d) * (1 + L * L / 4) > cap * 2 or ncol < 2:
                continue
            emit(rec, b, s, ops, spec, done)
            done += 1
        if not b["ev"]:
            rec.blocks.remove(b)
        else:
            b["w"] = sum(len(e["cols"]) ** 2 / 2 * (nperms(d) + 3) for e in b["ev"]) / 50 + 5


cm.main(main)
