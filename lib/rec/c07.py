"""C07: generating sets."""
import itertools
import random
import numpy as np
import sympy as sp
import common as cm, scen, alg


def cols_of(s, ops):
    return [alg.words_from(ops, s._lexorder[np.asarray(c, dtype=int)]) for c in s.generating_monomials_1d]


def size_ok(use, blocks):
    return sum(np.prod([use[p] for p in b]) if b else 1 for b in blocks) <= 700


def main(rec, rng, tier, shard, n):
    from inflation import InflationSDP
    count = (30 if shard < 1000 else 6) if tier != "thorough" else 140
    for d in alg.scenarios(rng, shard, n, count, max_ops=40, max_level=3, max_parties=4):
        p = alg.used(rng, scen.build(d))
        ops = scen.Ops(p)
        full = rng.random() < .25
        s = InflationSDP(p, verbose=0, include_all_outcomes=full and rng.random() < .5, supports_problem=full)
        full = bool(s.has_children.all()) and full
        P = len(scen.parties(d))
        use = []
        for q in range(P):
            keep = bool(s.has_children[q])
            use.append(sum(1 for r in ops.rows if r[0] == q + 1 and (keep or r[-1] != d["outs"][q] - 1)))
        b = rec.block(scen.encode(d), ops=[list(r) for r in ops.rows], full=full)

        def freqs(caps, top):
            return [f for f in itertools.product(*[range(c + 1) for c in caps]) if sum(f) <= top]

        def expand(f):
            return [q for q, k in enumerate(f) for _ in range(k)]

        def emit(spec, kind, maxlen=0, **kw):
            e = dict(kind=kind, maxlen=maxlen, level=0, caps=[], blocks=[])
            e.update(kw)
            try:
                s.build_columns(spec, max_monomial_length=maxlen)
                rec.ev(b, "columns", cols=cols_of(s, ops), ncols=int(s.n_columns), exc="", **e)
                return True
            except Exception as x:
                rec.ev(b, "columns", cols=[], ncols=0, exc=cm.exc(x), **e)
                return False
        for level in (1, 2, 3):
            for maxlen in (0, rng.randint(1, 3)):
                top = min(level, maxlen) if maxlen else level
                if size_ok(use, [expand(f) for f in freqs([level] * P, top)]) and rng.random() < .7:
                    emit(rng.choice(["npa%d", "NPA%d"]) % level, "npa", maxlen, level=level)
        for _ in range(4):
            caps = [rng.choice([0, 1, 1, 2]) for _ in range(P)]
            if rng.random() < .4:
                caps = [rng.choice([1, 2])] * P
            maxlen = rng.choice([0, 0, 1, 2, 3])
            top = min(sum(caps), maxlen) if maxlen else sum(caps)
            if not size_ok(use, [expand(f) for f in freqs(caps, top)]):
                continue
            txt = "".join(map(str, caps))
            if len(set(caps)) == 1 and rng.random() < .5:
                txt = str(caps[0])
            emit("local" + txt, "local", maxlen, caps=caps)
        for _ in range(3):
            r = rng.random()
            maxlen = rng.choice([0, 0, 1, 2, 3])
            if r < .3:
                caps, txt = [-1] * P, ""
            elif r < .6:
                k = rng.randint(1, 2)
                caps, txt = [k] * P, str(k)
            else:
                caps = [rng.choice([0, 1, 2]) for _ in range(P)]
                txt = "".join(map(str, caps))
            c = 1
            for g in p._ortho_groups:
                c *= len(g) + 1
            if c > 3000:
                continue
            emit("physical" + txt, "physical", maxlen, caps=caps)
        for _ in range(3):
            blocks = [[]] if rng.random() < .8 else []
            for _ in range(rng.randint(1, 4)):
                blocks.append([rng.randrange(P) for _ in range(rng.randint(1, 3))])
            if rng.random() < .3:
                blocks.append(list(rng.choice(blocks)))
            if size_ok(use, blocks):
                emit([list(x) for x in blocks], "blocks", blocks=[[q + 1 for q in x] for x in blocks])
        # symbols written for a generating set and read back
        try:
            if s.build_columns("npa1") is not None and s.n_columns <= 60:
                syms = s.build_columns("npa2" if s.n_columns <= 9 else "npa1", symbolic=True)
                first = cols_of(s, ops)
                s.build_columns(list(syms))
                rec.ev(b, "symbolic", cols=first, back=cols_of(s, ops), exc="")
        except Exception as x:
            rec.ev(b, "symbolic", cols=[], back=[], exc=cm.exc(x))
        # explicit products
        for _ in range(3):
            ws = [[]]
            for _ in range(rng.randint(1, 6)):
                w = alg.random_word(rng, ops, d, 3)
                if w not in ws:
                    ws.append(w)
            how = rng.choice(["2d", "1d", "sym"])
            if how == "2d":
                spec = [alg.arr(ops, w, s.np_dtype, s._nr_properties) for w in ws]
            elif how == "1d":
                spec = [np.array(s.mon_to_lexrepr(alg.arr(ops, w, s.np_dtype, s._nr_properties)), dtype=np.intc) for w in ws]
            else:
                spec = [sp.S.One]
                for w in ws[1:]:
                    x = sp.S.One
                    for i in s.mon_to_lexrepr(alg.arr(ops, w, s.np_dtype, s._nr_properties)):
                        x = x * s._lexrepr_to_symbols[i]
                    spec.append(x)
            try:
                s.build_columns(spec)
                rec.ev(b, "explicit", given=ws, cols=cols_of(s, ops), ncols=int(s.n_columns), how=how, exc="")
            except Exception as x:
                rec.ev(b, "explicit", given=ws, cols=[], ncols=0, how=how, exc=cm.exc(x))
        b["w"] = sum(len(e.get("cols", [])) for e in b["ev"]) + 10


cm.main(main)
