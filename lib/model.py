"""Explicit classical models of a scenario: finite sources, deterministic latents and responses."""
import itertools
import numpy as np
import scen


class Model:
    """weights[s]: integers summing to D; lat[l]: table over its sources' values; resp[p]: table over
    (direct sources' values, latents' values, private setting, observed parents' outcomes)."""

    def __init__(self, d, rng, D=4, vals=2):
        self.d = d
        self.P, self.S = scen.parties(d), scen.sources(d)
        self.D = D
        self.w = {}
        for s in self.S:
            while True:
                k = [rng.randint(0, D) for _ in range(vals - 1)]
                rest = D - sum(k)
                if rest >= 0:
                    break
            self.w[s] = k + [rest]
        self.vals = vals
        self.L = list(d["cil"]) + list(d["ncil"])
        self.lsrc = {l: [s for s in self.S if l in d["dag"][s]] for l in self.L}
        self.lat = {l: {v: rng.randrange(2) if rng.random() < .8 else v[0] % 2
                        for v in itertools.product(range(vals), repeat=len(self.lsrc[l]))} for l in self.L}
        self.psrc = {p: [s for s in self.S if p in d["dag"][s]] for p in self.P}
        self.plat = {p: [l for l in self.L if p in d["dag"].get(l, [])] for p in self.P}
        self.pobs = {p: [q for q in self.P if p in d["dag"].get(q, [])] for p in self.P}
        self.resp = {}
        for i, p in enumerate(self.P):
            dims = [vals] * len(self.psrc[p]) + [2] * len(self.plat[p]) + [d["sets"][i]] + \
                   [d["outs"][self.P.index(q)] for q in self.pobs[p]]
            style = rng.random()
            t = {}
            for key in itertools.product(*[range(x) for x in dims]):
                t[key] = rng.randrange(d["outs"][i]) if style < .75 else sum(key) % d["outs"][i]
            self.resp[p] = t

    def outcome(self, p, sv, lv, x, obs):
        key = tuple(sv[s] for s in self.psrc[p]) + tuple(lv[l] for l in self.plat[p]) + (x,) + \
              tuple(obs[q] for q in self.pobs[p])
        return self.resp[p][key]

    def topo(self):
        done, order = set(), []
        while len(order) < len(self.P):
            for p in self.P:
                if p not in done and all(q in done for q in self.pobs[p]):
                    done.add(p)
                    order.append(p)
        return order

    def dist(self):
        """integer numerators over D**S, shape outs + private settings."""
        d = self.d
        out = np.zeros(list(d["outs"]) + list(d["sets"]), dtype=int)
        order = self.topo()
        for vals in itertools.product(range(self.vals), repeat=len(self.S)):
            w = 1
            sv = dict(zip(self.S, vals))
            for s in self.S:
                w *= self.w[s][sv[s]]
            if not w:
                continue
            lv = {l: self.lat[l][tuple(sv[s] for s in self.lsrc[l])] for l in self.L}
            for xs in itertools.product(*[range(k) for k in d["sets"]]):
                obs = {}
                for p in order:
                    obs[p] = self.outcome(p, sv, lv, xs[self.P.index(p)], obs)
                out[tuple(obs[p] for p in self.P) + xs] += w
        return out, self.D ** len(self.S)

    def encode(self, names):
        """tables for the specification, node names as in scen.encode"""
        rk = {n: i + 1 for i, n in enumerate(names)}
        return dict(D=self.D, vals=self.vals, w=[self.w[s] for s in self.S],
                    lat=[dict(node=rk[l], src=[self.S.index(s) + 1 for s in self.lsrc[l]],
                              tab=[self.lat[l][k] for k in sorted(self.lat[l])]) for l in self.L],
                    resp=[dict(src=[self.S.index(s) + 1 for s in self.psrc[p]],
                               lat=[self.L.index(l) + 1 for l in self.plat[p]],
                               obs=[self.P.index(q) + 1 for q in self.pobs[p]],
                               tab=[self.resp[p][k] for k in sorted(self.resp[p])]) for p in self.P])


def rich(d, rng, D):
    """A classical model; usually one whose distribution has many different nonzero entries."""
    n = sum(scen.levels(d))
    vals = rng.choice([v for v in (2, 3, 4, 4) if v == 2 or v ** n <= 256])
    D = max(D, vals)
    if rng.random() < .2:
        return Model(d, rng, D=D, vals=vals)
    best, score = None, -1
    for _ in range(6):
        m = Model(d, rng, D=D, vals=vals)
        t, _ = m.dist()
        sc = 2 * len(np.unique(t)) + np.count_nonzero(t) / t.size
        if sc > score:
            best, score = m, sc
    return best


# ------------------------------------------------------------------ stabiliser models
def pmul(a, b):
    if a == 0 or b == 0:
        return 0, a or b
    if a == b:
        return 0, 0
    return (1 if b == a % 3 + 1 else 3), 6 - a - b


STATES = {1: [[[3]], [[1]], [[2]]],
          2: [[[1, 1], [3, 3]], [[1, 1], [3, 3]], [[1, 1], [3, 3]], [[3, 0], [0, 1]]],
          3: [[[1, 1, 1], [3, 3, 0], [0, 3, 3]], [[1, 1, 1], [3, 3, 0], [0, 3, 3]],
              [[1, 3, 0], [3, 1, 3], [0, 3, 1]], [[1, 1, 0], [3, 3, 0], [0, 0, 2]]]}


class Stab:
    """Nonclassical sources are stabiliser states, measurements are Pauli observables. No intermediate latents."""

    def __init__(self, d, rng, D=2):
        self.d, self.D = d, D
        self.P, self.S = scen.parties(d), scen.sources(d)
        self.src = []
        for s in self.S:
            kids = sorted(self.P.index(c) for c in d["dag"][s] if c in self.P)
            cls = d["cls"] == "all" or s in d["cls"]
            if cls:
                a = rng.randint(0, D)
                self.src.append(dict(cls=True, w=[a, D - a], kids=kids, gens=[]))
            else:
                gens = []
                perm = [rng.sample([1, 2, 3], 3) for _ in kids]
                for g in rng.choice(STATES[len(kids)]):
                    gens.append(dict(phase=rng.choice([0, 0, 2]), p=[0 if x == 0 else perm[i][x - 1] for i, x in enumerate(g)]))
                self.src.append(dict(cls=False, w=[], kids=kids, gens=gens))
        self.grp = [None if x["cls"] else self.group(x) for x in self.src]
        self.resp, self.keys = [], []
        for i, p in enumerate(self.P):
            cs = [s for s, x in enumerate(self.src) if x["cls"] and i in x["kids"]]
            qs = [s for s, x in enumerate(self.src) if not x["cls"] and i in x["kids"]]
            obs = [self.P.index(q) for q in self.P if p in d["dag"].get(q, [])]
            dims = [2] * len(cs) + [d["sets"][i]] + [d["outs"][q] for q in obs]
            t = {}
            for key in itertools.product(*[range(x) for x in dims]):
                a = rng.randrange(d["outs"][i])
                b = rng.choice([o for o in range(d["outs"][i]) if o != a] or [a])
                t[key] = dict(P=[rng.choice([0, 1, 2, 3, 1, 3]) for _ in qs], plus=a, minus=b)
            self.resp.append(t)
            self.keys.append((cs, qs, obs))

    @staticmethod
    def mul(x, y):
        ph, out = x[0] + y[0], []
        for a, b in zip(x[1], y[1]):
            f, c = pmul(a, b)
            ph += f
            out.append(c)
        return ph % 4, tuple(out)

    def group(self, x):
        g = {(0, (0,) * len(x["kids"]))}
        for e in x["gens"]:
            g |= {self.mul((e["phase"], tuple(e["p"])), h) for h in g}
        return dict((p, ph) for ph, p in g)

    def stab(self, s, ps):
        ph = self.grp[s].get(tuple(ps))
        return 0 if ph is None else (1 if ph == 0 else -1)

    def dist(self):
        d, n = self.d, len(self.P)
        out = np.zeros(list(d["outs"]) + list(d["sets"]), dtype=int)
        cl = [s for s, x in enumerate(self.src) if x["cls"]]
        qu = [s for s, x in enumerate(self.src) if not x["cls"]]
        for vals in itertools.product([0, 1], repeat=len(cl)):
            v = dict(zip(cl, vals))
            w = 1
            for s in cl:
                w *= self.src[s]["w"][v[s]]
            if not w:
                continue
            for idx in np.ndindex(*out.shape):
                o, x = idx[:n], idx[n:]
                ls = []
                for i in range(n):
                    cs, qs, obs = self.keys[i]
                    t = self.resp[i][tuple(v[s] for s in cs) + (x[i],) + tuple(o[q] for q in obs)]
                    a = o[i]
                    if not any(t["P"]):
                        ls.append((2 if t["plus"] == a else 0, 0, t))
                    elif t["plus"] == a == t["minus"]:
                        ls.append((2, 0, t))
                    else:
                        ls.append((1, 1, t) if t["plus"] == a else ((1, -1, t) if t["minus"] == a else (0, 0, t)))
                tot = 0
                for use in itertools.product([0, 1], repeat=n):
                    c = 1
                    for u, l in zip(use, ls):
                        c *= l[u]
                    if not c:
                        continue
                    for s in qu:
                        kids = self.src[s]["kids"]
                        c *= self.stab(s, [ls[k][2]["P"][self.keys[k][1].index(s)] if use[k] else 0 for k in kids])
                    tot += c
                out[idx] += w * tot
        return out, self.D ** len(cl) * 2 ** n

    def encode(self, names=None):
        return dict(kind="stabiliser", D=self.D,
                    src=[dict(cls=x["cls"], w=x["w"], kids=[k + 1 for k in x["kids"]], gens=x["gens"]) for x in self.src],
                    resp=[[t[k] for k in sorted(t)] for t in self.resp])
