"""C22: cliques of every graph on up to five vertices, random larger ones, and measurement compatibility graphs."""
import itertools
import numpy as np
import common as cm, scen, alg


def run(rec, b, adj, edges, n, cut, iso, rng):
    from inflation.utils import all_and_maximal_cliques
    a, m = all_and_maximal_cliques(adj, max_n=cut, isolate_maximal=iso)
    rec.ev(b, "graph", n=n, edges=edges, cut=cut, iso=iso, all=[[int(v) + 1 for v in c] for c in a],
           max=[[int(v) + 1 for v in c] for c in m])


def graph(rec, b, n, bits, rng, cut=0, iso=True):
    pairs = list(itertools.combinations(range(n), 2))
    es = [p for k, p in enumerate(pairs) if bits >> k & 1]
    adj = np.zeros((n, n), dtype=rng.choice([bool, bool, int]))
    for u, v in es:
        adj[u, v] = adj[v, u] = 1
    if rng.random() < .5:
        np.fill_diagonal(adj, 1)
    run(rec, b, adj, [[u + 1, v + 1] for u, v in es], n, cut, iso, rng)


def main(rec, rng, tier, shard, n):
    b = None
    k = 0
    if shard < 1000:
        top = 5 if tier != "thorough" else 6
        for size in range(1, top + 1):
            for bits in range(2 ** (size * (size - 1) // 2)):
                k += 1
                if k % n != shard:
                    continue
                if b is None or len(b["ev"]) >= 40:
                    b = rec.block(dict(tag="graphs"), scen=False)
                graph(rec, b, size, bits, rng)
                if rng.random() < 0.2:
                    graph(rec, b, size, bits, rng, cut=rng.randint(1, size), iso=rng.random() < .5)
    for _ in range(40 if tier != "thorough" else 80):
        size = rng.randint(6, 9)
        m = size * (size - 1) // 2
        p = rng.choice([.2, .5, .8, .95])
        bits = sum(1 << i for i in range(m) if rng.random() < p)
        b = rec.block(dict(tag="graphs"), scen=False, w=15)
        graph(rec, b, size, bits, rng, cut=rng.choice([0, 0, 0, 2, 3]))
    for d in alg.scenarios(rng, shard, n, 8 if tier != "thorough" else 80, max_ops=30, max_level=3):
        p = scen.build(d)
        T = [list(map(int, p._lexorder[i])) for i in p._template_idxs]
        if len(T) > 10:
            continue
        b = rec.block(scen.encode(d), scen=True, w=20)
        for cut, iso in ((0, True), (rng.randint(1, 3), False)):
            a, m = p.all_and_maximal_compatible_templates(max_n=cut, isolate_maximal=iso)
            rec.ev(b, "templates", meas=T, cut=cut, iso=iso, all=[[int(v) + 1 for v in c] for c in a],
                   max=[[int(v) + 1 for v in c] for c in m])


cm.main(main)
