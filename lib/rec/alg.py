"""Helpers shared by the recorders of C02 - C05."""
import numpy as np
import scen
import common as cm


def block(rec, d, prob, ops, needperms=False):
    return rec.block(scen.encode(d), ops=[list(r) for r in ops.rows], needperms=needperms)


def arr(ops, w, dtype, width):
    if not w:
        return np.empty((0, width), dtype=dtype)
    return np.array([ops.row(i) for i in w], dtype=dtype)


def words_from(ops, out2d):
    """rows of a 2d result -> word; the all-zero row is the zero operator (number 0)."""
    return [ops.of_row(r) for r in np.asarray(out2d)]


def random_word(rng, ops, d, maxlen):
    """Short words over few operators, so that squares, zeros and commuting pairs are frequent."""
    n = len(ops.rows)
    k = rng.randint(1, min(n, 4))
    base = rng.sample(range(1, n + 1), k)
    if rng.random() < 0.6:                 # add another outcome / copy of one of them
        r = ops.rows[base[0] - 1]
        near = [i for i, q in enumerate(ops.rows, 1) if q[0] == r[0] and sum(a != b for a, b in zip(q, r)) == 1]
        if near:
            base.append(rng.choice(near))
    return [rng.choice(base) for _ in range(rng.randint(1, maxlen))]


def scenarios(rng, shard, n, count, **kw):
    if shard < 1000:
        for i, d in enumerate(scen.FIXED):
            if i % n == shard and scen.nops(d) <= kw.get("max_ops", 40):
                yield d
    if kw.get("max_level", 2) >= 3:
        yield scen.deep(rng)
    for _ in range(count):
        yield scen.random_scenario(rng, **kw)


def used(rng, p, prob=.35):
    """Relaxations of other kinds built from the same problem first: none of it may show in the next one."""
    size = 1
    for g in p._ortho_groups:
        size = min(size * (1 + len(g)), 10 ** 6)
    if rng.random() > prob or size > 400:
        return p
    from inflation import InflationLP, InflationSDP
    for _ in range(rng.randint(1, 2)):
        k = rng.choice(["lp_all", "lp_sup", "lp_nf", "sdp", "sdp_sup", "sdp_all"])
        try:
            if k[:2] == "lp":
                s = InflationLP(p, nonfanout=k == "lp_nf" or bool(p._default_notcomm.any()), verbose=0, supports_problem=k == "lp_sup",
                                include_all_outcomes=k == "lp_all", default_non_negative=rng.random() < .5)
            else:
                s = InflationSDP(p, verbose=0, supports_problem=k == "sdp_sup", include_all_outcomes=k == "sdp_all")
                if rng.random() < .5:
                    s.generate_relaxation("npa1")
        except Exception:
            pass
    return p


def atoms_of(ops, m):
    """the factors of a moment, as words"""
    return [words_from(ops, f.as_2d_array) for f in m.factors if not f.is_one]
