"""Scenario descriptions shared by all recorders.

A description is a plain dict with the arguments of the library's constructor:
  dag, outs, sets, lvl (list, or int), cls ("all" or list), cil, ncil, order.
`encode` turns it into the integer-coded record the TLA+ specification starts from (node names
are replaced by their rank in alphabetical order; nothing else is interpreted here).
"""
import itertools
import random


def D(dag, outs, sets=None, lvl=None, cls=(), cil=(), ncil=(), order=(), tag=""):
    return dict(dag={k: list(v) for k, v in dag.items()}, outs=list(outs),
                sets=list(sets) if sets is not None else [1] * len(outs),
                lvl=lvl if lvl is not None else 1, cls=cls if isinstance(cls, str) else list(cls),
                cil=list(cil), ncil=list(ncil), order=list(order), tag=tag)


def deep(rng):
    """four copies of a source"""
    k = rng.randrange(5)
    q = rng.choice([(), "all"])
    if k == 0:
        return D({"h": ["A"]}, [2], [rng.choice([1, 2])], [4], cls=q, tag="deep")
    if k == 1:
        return D({"h": ["A"], "g": ["A", "B"]}, [2, 2], [1, 1], [4, 1], cls=q, tag="deep")
    if k == 2:
        return D({"h": ["A", "B"]}, [2, rng.choice([1, 2])], [1, 1], [4], cls=q, tag="deep")
    if k == 3:
        return D({"g": ["A", "B"], "h": ["B"]}, [2, 2], [1, 1], [1, 4], cls=q, tag="deep")
    return D({"h": ["A"]}, [3], [1], [4], cls=q, tag="deep")


def sources(d):
    names = {c for v in d["dag"].values() for c in v} - set(d["cil"]) - set(d["ncil"])
    return [k for k in d["dag"] if k not in names and k not in d["cil"] and k not in d["ncil"]]


def parties(d):
    names = {c for v in d["dag"].values() for c in v} - set(d["cil"]) - set(d["ncil"])
    o = list(d["order"])
    if o and set(o) == names:
        return o
    return sorted(names)


def levels(d):
    n = len(sources(d))
    return [d["lvl"]] * n if isinstance(d["lvl"], int) else list(d["lvl"])


FIXED = [
    D({"v": ["A"]}, [2], [2], [2], tag="single"),
    D({"h": ["A", "B"]}, [2, 2], [2, 2], [1], tag="bell"),
    D({"h": ["A", "B"]}, [2, 3], [2, 1], [2], tag="bell2"),
    D({"h1": ["A", "B"], "h2": ["B", "C"]}, [2, 2, 2], [1, 1, 1], [2, 2], tag="bilocal"),
    D({"h1": ["A", "B"], "h2": ["B", "C"]}, [2, 3, 2], [2, 1, 2], [2, 1], tag="bilocal_b"),
    D({"h1": ["A", "B"], "h2": ["B", "C"]}, [2, 2, 2], [1, 2, 1], [2, 2], cls="all", tag="bilocal_c"),
    D({"h1": ["A", "B"], "h2": ["B", "C"]}, [2, 2, 2], [1, 1, 1], [2, 2], cls=["h1"], tag="bilocal_hyb"),
    D({"h1": ["A", "B"], "h2": ["B", "C"], "h3": ["A", "C"]}, [2, 2, 2], [1, 1, 1], [2, 2, 2], tag="triangle"),
    D({"h1": ["A", "B"], "h2": ["B", "C"], "h3": ["A", "C"]}, [2, 2, 2], [1, 1, 1], [2, 1, 2], cls=["h3", "h1"],
      tag="triangle_hyb"),
    D({"U": ["B", "C"], "A": ["B"], "B": ["C"], "h0": ["A"]}, [2, 2, 2], [1, 1, 1], [1, 2], order=["A", "B", "C"],
      tag="instr_like"),
    D({"U_AB": ["A", "B"], "U_AC": ["A", "C"], "U_AD": ["A", "D"], "C": ["D"], "A": ["B", "C", "D"]},
      [2, 2, 2, 2], [1, 1, 1, 1], [1, 1, 1], tag="evans_like"),
    D({"h": ["A", "B"], "A": ["B"]}, [2, 3], [2, 2], [2], tag="instrumental"),
    D({"s1": ["L", "A"], "L": ["B", "C"]}, [2, 2, 2], [1, 1, 1], [2], ncil=["L"], tag="latent_q"),
    D({"s1": ["L", "A"], "s2": ["L"], "L": ["B", "C"]}, [2, 2, 2], [1, 2, 1], [2, 1], cil=["L"], tag="latent_c"),
    D({"s1": ["L", "A"], "s2": ["L", "B"], "L": ["B", "C"]}, [2, 2, 2], [1, 1, 1], [2, 2], cls=["s2"], ncil=["L"],
      tag="latent_hyb"),
    D({"s1": ["L", "K"], "L": ["A", "B"], "K": ["B", "C"]}, [2, 2, 2], [1, 1, 1], [2], ncil=["L"], cil=["K"],
      tag="latent_two"),
    D({"g2": ["b1", "a0"], "g1": ["c", "a0"]}, [3, 2, 2], [1, 2, 1], [1, 2], order=["c", "a0", "b1"], tag="order"),
    D({"h": ["A", "B", "C"]}, [2, 2, 2], [1, 1, 1], [2], tag="tripartite"),
    D({"s": ["A"], "t": ["B"]}, [2, 2], [2, 2], [1, 1], tag="islands"),
    D({"s": ["A", "B", "C"], "A": ["C"], "B": ["C"]}, [2, 2, 2], [1, 1, 1], [1], tag="collider"),
    D({"s": ["A", "B"], "t": ["C", "B"], "A": ["C"], "B": ["C"]}, [2, 2, 2], [1, 1, 1], [1, 2], tag="collider2"),
    D({"s": ["A", "K", "L"], "K": ["A", "B"], "L": ["A", "B"]}, [2, 2], [2, 2], [2], ncil=["K"], cil=["L"], tag="latent_mixed"),
]


def random_scenario(rng, max_ops=40, max_level=3, allow_latents=True, allow_children=True, classical=None,
                    max_parties=3, min_parties=1, max_outs=3):
    for _ in range(10000):
        n = rng.randint(min_parties, max_parties)
        pool = ["A", "B", "C", "D", "E"]
        rng.shuffle(pool)
        ps = pool[:n]
        ns = rng.randint(1, 3)
        dag = {}
        srcs = ["s%d" % i for i in range(ns)]
        rng.shuffle(srcs)
        lats = []
        if allow_latents and n >= 2 and rng.random() < 0.35:
            lats = ["L%d" % i for i in range(rng.choice([1, 1, 2]))]
        kinds = {l: rng.choice(["c", "q"]) for l in lats}
        for s in srcs:
            ch = rng.sample(ps, rng.randint(1, min(n, 3)))
            if lats and rng.random() < 0.7:
                ch = rng.sample(ps, rng.randint(0, min(n, 2))) + [rng.choice(lats)]
            rng.shuffle(ch)
            dag[s] = ch
        if n >= 2 and not lats and rng.random() < .06:      # many sources with the same descendants
            for s in srcs + ["s%d" % i for i in range(ns, rng.choice([4, 5]))]:
                dag[s] = rng.sample(ps[:2], 2) if rng.random() < .85 else [rng.choice(ps)]
            srcs = [s for s in dag]
        ok = True
        for l in lats:
            dag[l] = rng.sample(ps, rng.randint(1, n))
            if not any(l in dag[s] for s in srcs):
                ok = False
        if not ok:
            continue
        order = list(ps)
        if allow_children and n >= 2 and rng.random() < 0.35:
            topo = list(ps)
            rng.shuffle(topo)
            collider = n >= 3 and rng.random() < .3    # one party observes all the others
            for i in range(n - 1):
                ch = [q for q in topo[i + 1:] if rng.random() < 0.5] if not collider else [topo[-1]]
                if ch:
                    dag[topo[i]] = ch
        items = list(dag.items())
        rng.shuffle(items)
        dag = dict(items)
        rng.shuffle(order)
        if rng.random() < 0.4:
            order = []
        if classical == "all" or (classical is None and rng.random() < 0.2):
            cls = "all"
        elif classical == "none":
            cls = []
        else:
            cls = [s for s in srcs if rng.random() < 0.4]
        outs = [rng.choice([2, 2, 2, max_outs]) for _ in ps]
        sets = [rng.choice([1, 1, 2]) for _ in ps]
        lvl = [rng.randint(1, max_level) for _ in srcs]
        if rng.random() < 0.1:
            lvl = rng.randint(1, 2)
        d = D(dag, outs, sets, lvl, cls, [l for l in lats if kinds[l] == "c"], [l for l in lats if kinds[l] == "q"],
              order, tag="random")
        names = parties(d)
        if len(names) != n:
            continue
        ss = sources(d)
        if not ss:
            continue
        # a nonclassical latent needs a nonclassical parent
        cl = set(ss) if cls == "all" else set(cls)
        if any(k == "q" and all(s in cl for s in ss if l in dag[s]) for l, k in kinds.items()):
            continue
        if not reach_ok(d):
            continue
        if nops(d) > max_ops:
            continue
        return d
    raise RuntimeError("scenario generator exhausted")


def reach(d):
    """party name -> list of source names it descends from through latents."""
    out = {}
    for p in parties(d):
        out[p] = [s for s in sources(d) if p in d["dag"][s] or any(
            l in d["dag"][s] and p in d["dag"].get(l, []) for l in d["cil"] + d["ncil"])]
    return out


def reach_ok(d):
    return all(reach(d).values())


def nops(d):
    ps = parties(d)
    L = dict(zip(sources(d), levels(d)))
    tot = 0
    for i, p in enumerate(ps):
        n = d["outs"][i] * d["sets"][i]
        for j, q in enumerate(ps):
            if p in d["dag"].get(q, []):
                n *= d["outs"][j]
        for s in reach(d)[p]:
            n *= L[s]
        tot += n
    return tot


def encode(d):
    names = sorted(set(d["dag"]) | {c for v in d["dag"].values() for c in v} | set(d["cil"]) | set(d["ncil"])
                   | set(d["order"]) | (set() if isinstance(d["cls"], str) else set(d["cls"])))
    rk = {n: i + 1 for i, n in enumerate(names)}
    lv = d["lvl"]
    return dict(names=names,
                dag=[[rk[k], sorted(rk[c] for c in v)] for k, v in d["dag"].items()],
                outs=d["outs"], sets=d["sets"],
                lvl=[lv] if isinstance(lv, int) else lv, lvlint=isinstance(lv, int),
                clsall=isinstance(d["cls"], str),
                cls=[] if isinstance(d["cls"], str) else [rk[s] for s in d["cls"]],
                cil=[rk[x] for x in d["cil"]], ncil=[rk[x] for x in d["ncil"]],
                order=[rk[x] for x in d["order"]], tag=d["tag"])


def build(d, **kw):
    from inflation import InflationProblem
    return InflationProblem({k: list(v) for k, v in d["dag"].items()}, list(d["outs"]), list(d["sets"]),
                            d["lvl"] if isinstance(d["lvl"], int) else list(d["lvl"]),
                            classical_sources=d["cls"] if isinstance(d["cls"], str) else list(d["cls"]),
                            classical_intermediate_latents=list(d["cil"]),
                            nonclassical_intermediate_latents=list(d["ncil"]),
                            order=list(d["order"]), **kw)


def op_table(prob):
    """Rows of the operator table in the documented order (party, copies, setting, outcome)."""
    return sorted(tuple(int(x) for x in r) for r in prob._lexorder)


class Ops:
    """Numbering of operators used in traces: 1-based position in the sorted table."""

    def __init__(self, prob):
        self.prob = prob
        self.rows = op_table(prob)
        self.num = {r: i + 1 for i, r in enumerate(self.rows)}

    def of_row(self, row):
        return self.num.get(tuple(int(x) for x in row), 0)     # 0: not an operator (e.g. the zero operator)

    def word(self, rows):
        return [self.of_row(r) for r in rows]

    def row(self, i):
        return list(self.rows[i - 1])
