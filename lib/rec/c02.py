import numpy as np
import common as cm, scen, alg


def main(rec, rng, tier, shard, n):
    from inflation import InflationSDP
    count = (24 if shard < 1000 else 10) if tier != "thorough" else 120
    for d in alg.scenarios(rng, shard, n, count, max_ops=36, max_level=3, max_parties=4, allow_latents=True):
        p = scen.build(d)
        ops = scen.Ops(p)
        b = alg.block(rec, d, p, ops)
        rows = [list(map(int, r)) for r in p._lexorder]
        pos = [rows.index(list(r)) for r in ops.rows]
        nc = np.asarray(p._default_notcomm)[np.ix_(pos, pos)].astype(int).tolist()
        s = InflationSDP(p, verbose=0)
        N = len(ops.rows)
        pairq = [[0] * N for _ in range(N)]
        red, pairs = [], []
        for i in range(N):
            for j in range(N):
                w = np.array([ops.rows[i], ops.rows[j]], dtype=s.np_dtype)
                pairq[i][j] = 0 if bool(s.all_commuting_q_2d(w)) else 1
                if rng.random() < 0.4:
                    pairs.append([i + 1, j + 1])
                    red.append(alg.words_from(ops, s._lexorder[np.asarray(s._to_canonical_memoized_1d(s.mon_to_lexrepr(w)), dtype=int)]))
        from inflation.sdp import fast_npa
        kern = []
        if hasattr(fast_npa, "nb_operators_commute"):
            src = p.sources_to_check_for_party_pair_commutation
            lex = [np.array(r, dtype=p._np_dtype) for r in ops.rows]
            kern = [[0 if bool(fast_npa.nb_operators_commute(a, c, src)) else 1 for c in lex] for a in lex]
        rec.ev(b, "commute", notcomm=nc, pairq=pairq, kernel=kern, allcomm=bool(s.all_operators_commute))
        rec.ev(b, "pairs", pairs=pairs, red=red)
        first = [ops.of_row(rows[t]) for t in p._template_idxs]
        rec.ev(b, "templates", first=first, compat=np.asarray(p._compatible_template_measurements).astype(int).tolist())


cm.main(main)
