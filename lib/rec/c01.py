"""C01: what the constructor makes of scenario descriptions, well-formed or not."""
import copy
import numpy as np
import common as cm
import scen


def ints(x):
    return np.asarray(x).astype(int).tolist()


def observe(rec, d, container=list, default_levels=False, default_dag=False, rng=None):
    inp = scen.encode(d)
    if default_levels:
        inp["lvl"], inp["lvlint"] = [], False
    b = rec.block(inp)
    nums = container
    verbose = rng.choice([0, 0, 1, 2]) if rng else 0
    children = rng.choice([None, None, set, lambda x: x + x[:1], lambda x: [Text(i) for i in x]]) if rng else None
    if default_sets := bool(rng and rng.random() < .15):
        d = dict(d, sets=[1] * len(d["outs"]))
        inp["sets"] = []
    if container is np.array:
        container = tuple
    args = dict(dag=None if default_dag else {k: (children or container)(v) for k, v in d["dag"].items()}, outs=nums(d["outs"]),
                sets=rng.choice([None, []]) if default_sets else nums(d["sets"]),
                lvl=[] if default_levels else (d["lvl"] if isinstance(d["lvl"], int) else nums(d["lvl"])),
                cls=d["cls"] if isinstance(d["cls"], str) else container(d["cls"]), cil=container(d["cil"]),
                ncil=container(d["ncil"]), order=container(d["order"]))
    before = copy.deepcopy(args)
    from inflation import InflationProblem

    def make():
        return InflationProblem(args["dag"], args["outs"], args["sets"], args["lvl"], classical_sources=args["cls"],
                                classical_intermediate_latents=args["cil"],
                                nonclassical_intermediate_latents=args["ncil"], order=args["order"], verbose=verbose)
    try:
        p = make()
    except Exception as e:
        rec.ev(b, "refused", exc=cm.exc(e))
        return
    rk = {n: i + 1 for i, n in enumerate(inp["names"])}
    S, P = p.nr_sources, p.nr_parties
    same = True
    q = make()
    try:
        same = np.array_equal(p._lexorder, q._lexorder)
    except Exception:
        same = False
    rec.ev(b, "unpacked",
           parties=[rk[str(x)] for x in p.names], sources=[rk[str(x)] for x in p._actual_sources],
           outs=ints(p.outcomes_per_party), priv=ints(p.private_settings_per_party), sets=ints(p.settings_per_party),
           lv=ints(p.inflation_level_per_source), cls=ints(p._classical_sources), hyp=ints(p.hypergraph),
           par=[[int(x) + 1 for x in v] for v in p.parents_per_party],
           eff=[[list(map(int, m[k])) for k in sorted(m)] for m in p.effective_to_parent_settings],
           haschild=ints(p.has_children), network=bool(p.is_network), ops=ints(p._lexorder),
           copies=[ints(x) for x in p.inflation_indices_per_party],
           kind=ints(p.sources_to_check_for_party_pair_commutation), shape=list(map(int, p.expected_distro_shape)),
           orig=ints(p.original_dag_events), groups=[ints(g) for g in p._ortho_groups],
           unmodified=bool(all(type(before[k]) is type(args[k]) and (np.array_equal(before[k], args[k]) if
                           isinstance(before[k], np.ndarray) else before[k] == args[k]) for k in before)), same_again=bool(same))


class Text:
    """a node that is not a string, only written as one"""

    def __init__(self, s):
        self.s = s

    def __str__(self):
        return self.s

    def __deepcopy__(self, memo):
        return self


def odd_order(rng, d):
    """an order that does not name the parties is no order"""
    ps = scen.parties(d)
    k = rng.randrange(5)
    o = [["Q%d" % i for i in range(len(ps))], ps[:-1], ps + ["Q"], [ps[0]] * len(ps), ps[1:] + ["Q"]][k]
    return dict(d, order=o, tag="order_%d" % k)


def mutate(rng, d):
    """Break a description in one of the ways the constructor must notice (or leave it well-formed by luck)."""
    d = copy.deepcopy(d)
    k = rng.choice(["outs_short", "outs_long", "sets", "cls", "obs_to_latent", "lat_to_lat", "orphan", "lvl", "both", "qlat"])
    ps, ss = scen.parties(d), scen.sources(d)
    if k == "outs_short":
        d["outs"] = d["outs"][:-1]
        d["sets"] = d["sets"][:-1]
    elif k == "outs_long":
        d["outs"] = d["outs"] + [2]
        d["sets"] = d["sets"] + [1]
    elif k == "sets":
        d["sets"] = d["sets"] + [1]
    elif k == "cls":
        d["cls"] = ["nosuch"]
    elif k == "obs_to_latent":
        l = "Lx"
        d["dag"] = dict(d["dag"], **{l: [ps[0]]})
        d["dag"][ps[-1]] = d["dag"].get(ps[-1], []) + [l]
        d["cil"] = d["cil"] + [l]
        d["dag"][ss[0]] = d["dag"][ss[0]] + [l]
    elif k == "lat_to_lat":
        d["dag"] = dict(d["dag"], Lx=[ps[0], "Ly"], Ly=[ps[-1]])
        d["cil"] = d["cil"] + ["Lx", "Ly"]
        d["dag"][ss[0]] = d["dag"][ss[0]] + ["Lx"]
    elif k == "orphan":
        d["dag"][ps[0]] = d["dag"].get(ps[0], []) + ["Zz"]
        d["outs"] = d["outs"] + [2]
        d["sets"] = d["sets"] + [1]
        d["order"] = []
    elif k == "lvl":
        d["lvl"] = scen.levels(d) + [2]
    elif k == "both":
        d["dag"] = dict(d["dag"], Lx=[ps[0]])
        d["dag"][ss[0]] = d["dag"][ss[0]] + ["Lx"]
        d["cil"], d["ncil"] = d["cil"] + ["Lx"], d["ncil"] + ["Lx"]
    elif k == "qlat":
        d["dag"] = dict(d["dag"], Lx=[ps[0]])
        d["dag"][ss[0]] = d["dag"][ss[0]] + ["Lx"]
        d["ncil"] = d["ncil"] + ["Lx"]
        d["cls"] = "all" if rng.random() < .5 else [ss[0]]
    d["tag"] = "malformed_" + k
    return d


def wide(rng):
    """Cardinalities and levels whose products pass 255: the sizes at which narrow integer types give in."""
    a = rng.randint(15, 18)
    b = 255 // a + rng.randint(1, 2)
    D, c = scen.D, rng.choice([{}, dict(cls="all")])
    return [D({"h": ["A", "B", "C"], "A": ["C"], "B": ["C"]}, [a, b, 2], [1, 1, 1], [1], order=["A", "B", "C"], tag="wide_eff", **c),
            D({"h": ["A", "B"], "A": ["B"]}, [a, 2], [1, b], [1], order=["A", "B"], tag="wide_priv_eff", **c),
            D({"h": ["A", "B"]}, [rng.randint(256, 300), 2], [1, 2], [1], order=["A", "B"], tag="wide_outs", **c),
            D({"h": ["A", "B"]}, [2, 2], [rng.randint(257, 300), 1], [1], order=["A", "B"], tag="wide_sets", **c),
            D({"h": ["A"], "g": ["A"]}, [2], [1], [a, b], order=["A"], tag="wide_copies", **c),
            D({"h": ["A"]}, [2], [1], [rng.randint(256, 300)], order=["A"], tag="wide_level", **c)]


def main(rec, rng, tier, shard, n):
    N = 70 if tier != "thorough" else 600
    if shard < 1000:
        for i, d in enumerate(scen.FIXED):
            if i % n == shard:
                observe(rec, d)
                observe(rec, d, tuple)
                observe(rec, d, default_levels=True)
                observe(rec, d, np.array)
        for m in (1, 2, 3):
            nm = rng.sample(["Q", "A", "Z", "M"], m)
            for order in (nm, []):
                names = order or ["A", "B", "C"][:m]
                observe(rec, scen.D({"h_global": names}, [rng.randint(2, 3) for _ in names], [rng.randint(1, 2) for _ in names],
                                    [rng.randint(1, 2)], order=order or names, tag="default_dag"), list, default_dag=True)
    if shard < 1000:
        for i, d in enumerate(wide(rng)):
            if i % n == shard:
                observe(rec, d)
    for i in range(N):
        d = scen.random_scenario(rng, max_ops=150, max_level=4, max_parties=4)
        observe(rec, odd_order(rng, d) if rng.random() < .15 else d, rng.choice([list, tuple, np.array]), rng=rng)
        if rng.random() < 0.5:
            observe(rec, mutate(rng, d))


cm.main(main)
