"""C17: cleaning coefficients, and the views of certificates and polynomials."""
import re
import numpy as np
import sympy as sp
import common as cm, scen, alg
from c06 import lp_cost
from c16 import relaxation

BIG, UNIT = 1024 * 1000, 1024
TOLS = [0, 0, 1e-10, 1e-10, 1 / 16, 1 / 8, 1 / 4, 1 / 2]


class Table:
    """atoms (irreducible factors) by number, and the ways they are written"""
    def __init__(self, s, ops, atoms):
        self.words, self.by_name, self.by_symbol, self.by_atom = [], {}, {}, {}
        self.big = BIG
        for a in atoms:
            if a.is_one or a.is_zero:
                continue
            self.words.append(alg.words_from(ops, a.as_2d_array))
            i = len(self.words)
            self.by_name[a.name] = i
            self.by_symbol[str(a.symbol)] = i
            self.by_atom[a] = i

    def mon(self, m):
        return sorted(self.by_atom[f] for f in m.factors if not f.is_one)

    def poly(self, d):
        return [[self.mon(m), int(round(float(v) * self.big))] for m, v in d.items() if not m.is_zero]

    def expr(self, e):
        out = []
        for k, v in sp.expand(e).as_coefficients_dict().items():
            at = []
            for b, x in k.as_powers_dict().items():
                if b != 1:
                    at += [self.by_symbol[str(b)]] * int(x)
            out.append([sorted(at), int(round(float(v) * self.big))])
        return out

    def string(self, t):
        """reads  c*name*name^k - name + c ..."""
        out, i, t = [], 0, t.strip()
        if t == "0":
            return []
        while i < len(t):
            s = 1
            if t[i] in "+-":
                s = -1 if t[i] == "-" else 1
                i += 1
            elif out:
                raise ValueError("no sign at %d in %s" % (i, t))
            c, at = 1.0, []
            m = re.match(r"\d+(\.\d*)?(e[+-]?\d+)?", t[i:])
            more = True
            if m:
                c = float(m.group())
                i += m.end()
                more = i < len(t) and t[i] == "*"
                i += more
            while more:
                close = {"P": "]", "<": ">"}[t[i]]
                j = t.index(close, i) + 1
                name, i, k = t[i:j], j, 1
                m = re.match(r"\^(\d+)", t[i:])
                if m:
                    k = int(m.group(1))
                    i += m.end()
                at += [self.by_name[name]] * k
                more = i < len(t) and t[i] == "*"
                i += more
            out.append([sorted(at), int(round(s * c * self.big))])
        return out


def coef(rng, wide=False):
    n = rng.choice([1, -1, 2, -3, 16, -16, 5, 24, -8, 7, 33, -48])
    n = n * 64 + rng.choice([0, 0, 0, 1, -1, 4, -4])      # also close to, but different from, round ones
    return rng.choice([0, n, n]) if wide else n


def clean_case(rec_b, rec, rng, U):
    n = rng.randint(1, 6)
    if rng.random() < .05:
        n = 0
    ints = rng.random() < .15
    ns = [(coef(rng, True) // 64 * UNIT if ints else coef(rng, True)) for _ in range(n)]
    if rng.random() < .08:
        ns = [0] * n
    tol, r = rng.choice(TOLS), rng.randrange(4)
    if rng.random() < .1:
        tol = -tol
    src = {"k%d" % i: (v // UNIT if ints else v / UNIT) for i, v in enumerate(ns)}
    before = dict(src)
    e = dict(src=ns, tol=cm.rat(abs(tol)) if abs(tol) > 1e-9 else [0, 1], r=r, out=[], exc="", keys=True, grid=True, same=True)
    try:
        kw = dict(chop_tol=tol, round_decimals=r)
        if rng.random() < .2:
            kw, e["r"], e["tol"] = {}, 3, [0, 1]
        out = U.clean_coefficients(src, **kw)
        e["keys"] = list(out) == list(before)
        e["same"] = src == before and all(type(src[k]) is type(before[k]) for k in src)
        f = [float(out[k]) * 10 ** e["r"] for k in before]
        e["out"] = [int(round(x)) for x in f]
        e["grid"] = all(abs(x - round(x)) < 1e-6 for x in f)
    except Exception as x:
        e["exc"] = cm.exc(x)
    rec.ev(rec_b, "clean", **e)


def key_for(rng, s, kind, m, ops):
    """one of the ways of writing a registered moment"""
    q = rng.random()
    if q < .3:
        return m
    if q < .55:
        return m.name
    if q < .8:
        return m.symbol
    if q < .9 and m.is_atomic and not m.is_one:
        return tuple(map(tuple, np.asarray(m.factors[0].as_2d_array).tolist()))
    return 1 if m.is_one else m.name


def user_poly(rng, s, kind, ops, moms, atoms):
    """terms [(atoms, key, coefficient)]"""
    out, seen = [], set()
    for _ in range(rng.randint(1, 6)):
        q = rng.random()
        if q < .55:
            m = rng.choice(moms)
            k, fs = key_for(rng, s, kind, m, ops), list(m.factors)
        elif q < .65:
            k, fs = rng.choice([1, s.One, "1", sp.S.One]), []
        else:
            fs = [rng.choice(atoms) for _ in range(rng.randint(1, 3))]
            if not all(getattr(f, "is_hermitian", True) for f in fs):
                continue
            k = "*".join(f.name for f in fs) if rng.random() < .5 else sp.Mul(*[f.symbol for f in fs])
        try:
            if (h := (type(k).__name__, k)) in seen:
                continue
        except Exception:
            continue
        if any(type(k) is not type(o) and k == o for _, o in seen if isinstance(k, (int, float, sp.Expr)) and isinstance(o, (int, float, sp.Expr))):
            continue
        seen.add(h)
        out.append((fs, k, coef(rng)))
    return out


def distribution(rng, d):
    out = np.zeros(list(d["outs"]) + list(d["sets"]), dtype=int)
    n = len(d["outs"])
    for x in np.ndindex(*d["sets"]):
        for _ in range(16):
            out[tuple(rng.randrange(o) for o in d["outs"]) + x] += 1
    return out


def emit(rec, rng, d, ops, kind, s, U, tier):
    atoms = list(s.atomic_factors)
    moms = [m for m in (s.moments if kind == "sdp" else s.monomials) if not m.is_zero and m.n_factors <= 3]
    extra = {f for m in moms for f in m.factors}
    T = Table(s, ops, list(dict.fromkeys(atoms + sorted(extra))))
    at = [a for a in T.by_atom]
    kn = [m for m in moms if m.is_knowable]
    kat = [a for a in at if a.is_knowable]
    b = rec.block(scen.encode(d), ops=[list(r) for r in ops.rows], atoms=T.words, big=BIG, unit=UNIT, feat=[kind])
    for rep in range(14 if tier != "thorough" else 30):
        dist = distribution(rng, d)
        ev = rng.random() < .7 and kn
        base = dict(den=16, dist=[int(x) for x in dist.flat], value=[0, 1], ev=bool(ev), exc="")
        sc = 2.0 ** rng.choice([0, 0, -6, -13, -13, 3])          # everything in a smaller unit
        T.big = BIG / sc
        if rng.random() < .5:                   # a polynomial of the user
            terms = user_poly(rng, s, kind, ops, kn if ev else moms, (kat if ev else at) or at)
            if not terms or ev and not all(f.is_knowable for fs, _, _ in terms for f in fs):
                continue
            want = [[sorted(T.by_atom[f] for f in fs if not f.is_one), n] for fs, _, n in terms]
            poly = {k: n * sc / UNIT for _, k, n in terms}
            base.update(form="dict")
            if rng.random() < .25 and all(isinstance(k, sp.Expr) for k in poly):
                base.update(form="expr")
            if rng.random() < .35:
                poly = sum((n * sc / UNIT * sp.Mul(*[f.symbol for f in fs]) for fs, _, n in terms), sp.S.Zero)
                base.update(form="expr")
            e = dict(base, want=want, views=[])
            try:
                e["views"].append(T.poly(s._sanitise_dict(poly)))
                e["views"].append(T.expr(s.probs_from_dict(poly)))
                e["views"].append(T.string(s.string_from_dict(poly)))
                if ev:
                    e["value"] = cm.rat(float(s.evaluate_polynomial(poly, dist / 16)) / sc)
            except Exception as x:
                e["exc"] = cm.exc(x)
            rec.ev(b, "poly", **e)
        else:                                   # a certificate
            ms = rng.sample(kn if ev else moms, min(len(kn if ev else moms), rng.randint(0, 6)))
            terms = [(m, m.name, coef(rng, True)) for m in ms if not m.is_one]
            if rng.random() < .6:
                terms += [(s.One, c, coef(rng)) for c in rng.choice([["1"], ["constant_term"], ["1", "constant_term"]]) if c in s.monomial_from_name]
            if rng.random() < .3 and "0" in s.monomial_from_name:
                terms.append((s.monomial_from_name["0"], "0", coef(rng)))
            rng.shuffle(terms)
            tol, r = rng.choice(TOLS), rng.randrange(4)
            names = {c: n * sc / UNIT for _, c, n in terms}
            s.solution_object = dict(dual_certificate=dict(names))
            e = dict(base, want=[[T.mon(m), n] for m, _, n in terms if not m.is_zero], allc=[n for _, _, n in terms], tol=cm.rat(tol) if tol > 1e-9 else [0, 1],
                     r=r, views=[], clean=[], std=[])
            try:
                e["views"].append(T.poly(s.certificate_as_dict(clean=False)))
                e["views"].append(T.expr(s.certificate_as_probs(clean=False)))
                t = s.certificate_as_string(clean=False)
                assert t.endswith(" < 0")
                e["views"].append(T.string(t[:-4]))
                kw, T.big = dict(clean=True, chop_tol=tol * sc, round_decimals=r), BIG
                e["clean"].append(T.poly(s.certificate_as_dict(**kw)))
                e["clean"].append(T.expr(s.certificate_as_probs(**kw)))
                e["clean"].append(T.string(s.certificate_as_string(**kw)[:-4]))
                e["std"] = T.poly(s.certificate_as_dict())
                if ev:
                    e["value"] = [int(round(float(s.evaluate_certificate(dist / 16)) * 10 ** 6)), 10 ** 6]
                e["kept"] = s.solution_object["dual_certificate"] == names
            except Exception as x:
                e["exc"] = cm.exc(x)
            rec.ev(b, "cert", **e)


def main(rec, rng, tier, shard, n):
    import inflation.utils as U
    d0 = scen.D({"h": ["A"]}, [2], [1], [1], tag="one")
    ops = scen.Ops(scen.build(d0))
    b = rec.block(scen.encode(d0), ops=[list(r) for r in ops.rows], atoms=[], big=BIG, unit=UNIT, feat=["clean"])
    for _ in range(60 if tier != "thorough" else 600):
        clean_case(b, rec, rng, U)
    count = (40 if shard < 1000 else 3) if tier != "thorough" else 150
    for d in alg.scenarios(rng, shard, n, count, max_ops=24, max_level=2, max_parties=3, max_outs=3):
        if np.prod([[1, 1, 2, 6, 24][l] for l in scen.levels(d)]) > 8:
            continue
        p = scen.build(d)
        ops = scen.Ops(p)
        kind, s = relaxation(rng, d, p, ops, tier)
        if s is not None:
            emit(rec, rng, d, ops, kind, s, U, tier)


cm.main(main)
