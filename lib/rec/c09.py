"""C09: normalisation equalities of the semidefinite relaxation."""
import itertools
import random
import numpy as np
import common as cm, scen, alg
from c04 import closed_columns, nperms

ONE = [scen.D({"h": ["A", "B"], "A": ["B"]}, [1, 2], [1, 1], [2], tag="one_outcome"),
       scen.D({"h": ["A", "B"], "A": ["B"]}, [1, 1], [2, 1], [1], tag="one_outcome2"),
       scen.D({"h": ["A", "B"], "g": ["B", "C"], "A": ["B"], "B": ["C"]}, [1, 1, 2], [1, 1, 1], [1, 1], tag="one_outcome3"),
       scen.D({"h": ["A", "B"], "g": ["A", "C"], "A": ["B", "C"], "B": ["C"]}, [2, 2, 2], [1, 1, 1], [1, 2], tag="two_children"),
       scen.D({"h": ["A", "B"], "A": ["B"]}, [3, 2], [2, 1], [1], tag="three_outcomes"),
       scen.D({"h": ["A", "B"]}, [2, 2], [1, 1], [1], tag="bell")]


def specs(rng, d):
    P = len(scen.parties(d))
    out = ["npa1", "npa2", "npa3", "local1", "physical1", "physical2", "closed", "completed", "completed"]
    for _ in range(3):
        out.append([[]] + [[rng.randrange(P) for _ in range(rng.randint(1, 3))] for _ in range(rng.randint(1, 3))])
    return out


def completed(rng, s, ops, d):
    """Words, some of what is left after deleting a letter, and every outcome of some of their letters, closed under copies."""
    cols = [()]
    syms = np.asarray(s.lexorder_symmetries)
    can = lambda w: tuple(int(x) for x in s._to_canonical_memoized_1d(np.asarray(w, dtype=np.intc)))
    nrow = len(ops.rows)

    def lex(w):
        return s.mon_to_lexrepr(alg.arr(ops, w, s.np_dtype, s._nr_properties))
    todo = []
    for _ in range(rng.randint(1, 2)):
        w = alg.random_word(rng, ops, d, 4)
        todo.append(w)
        for i in range(len(w)):
            if rng.random() < .7:
                todo.append(w[:i] + w[i + 1:])
                row = ops.rows[w[i] - 1]
                for o in range(d["outs"][row[0] - 1]):
                    todo.append(w[:i] + [ops.num[row[:-1] + (o,)]] + w[i + 1:])
    for w in todo:
        if not w:
            continue
        x = lex(w)
        for p in syms:
            c = can(p[x])
            if c not in cols and c != (0,) and len(c):
                cols.append(c)
    return [np.array(c, dtype=np.intc) for c in cols]


def main(rec, rng, tier, shard, n):
    from inflation import InflationSDP
    count = (26 if shard < 1000 else 8) if tier != "thorough" else 200
    cap = 5000 if tier != "thorough" else 15000
    extra = [d for i, d in enumerate(ONE) if shard < 1000 and i % n == shard]
    for d in itertools.chain(extra, alg.scenarios(rng, shard, n, count, max_ops=30, max_level=2, max_parties=4)):
        p = alg.used(rng, scen.build(d))
        ops = scen.Ops(p)
        r = rng.random()
        sup, full = r < .25, r < .32
        if p.is_network and not sup and rng.random() < .7:
            sup = full = True
        s = InflationSDP(p, verbose=0, include_all_outcomes=full, supports_problem=sup)
        cand = specs(rng, d)
        rng.shuffle(cand)
        b = alg.block(rec, d, p, ops, needperms=True)
        b["full"], b["supports"] = full, sup
        done = 0
        for spec in cand:
            if done >= 2:
                break
            if isinstance(spec, str) and spec in ("closed", "completed"):
                spec = (closed_columns if spec == "closed" else completed)(rng, s, ops, d)
                ncol, L = len(spec), 4
            else:
                try:
                    ncol = len(s.build_columns(spec))
                    L = max(len(c) for c in s.generating_monomials_1d)
                except Exception:
                    continue
            if ncol * ncol * L / 2 * nperms(d) * (1 + L * L / 4) > cap * 4 or ncol < 2:
                continue
            try:
                s.generate_relaxation(spec)
                eqs = []
                for eq in s.minimal_equalities:
                    eqs.append([dict(m=dict(zero=bool(m.is_zero), atoms=[] if m.is_zero else alg.atoms_of(ops, m)), c=int(v))
                                for m, v in eq.items()])
                cols = [alg.words_from(ops, s._lexorder[np.asarray(c, dtype=int)]) for c in s.generating_monomials_1d]
                rec.ev(b, "norm", cols=cols, eqs=eqs, exc="", spec=str(spec)[:30])
            except Exception as x:
                rec.ev(b, "norm", cols=[], eqs=[], exc=cm.exc(x), spec=str(spec)[:30])
            done += 1
        if not b["ev"]:
            rec.blocks.remove(b)
            continue
        b["feat"] = ["sdp", "eqs" if any(e["eqs"] for e in b["ev"]) else "noeqs", "supports" if sup else "values"]
        b["w"] = sum(len(e["cols"]) ** 2 * nperms(d) for e in b["ev"]) / 50 + 5


cm.main(main)
