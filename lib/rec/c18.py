"""C18: names and symbols of operators and moments, and reading them back."""
import contextlib
import io
import numpy as np
import sympy as sp
import common as cm, scen, alg
from c16 import relaxation

POOLS = [["A", "AB", "B"], ["P", "p", "A"], ["1", "2", "10"], ["A1", "A", "1A"], ["pA", "A", "A0"], ["d", "do", "o"],
         ["x", "X", "xX"], ["N", "E", "I"], ["Alice", "Bob", "B0b"], ["0", "00", "P0"], ["ab", "a", "b"], ["S", "pi", "oo"]]


def rename(d, rng):
    ps = scen.parties(d)
    to = list(rng.choice(POOLS))
    rng.shuffle(to)
    f = dict(zip(ps, to))
    g = lambda x: f.get(x, x)
    return dict(d, dag={g(k): [g(c) for c in v] for k, v in d["dag"].items()}, order=[g(x) for x in d["order"]], tag="renamed")


def wide_case(rng):
    """two-digit outcomes, settings, copies"""
    k = rng.randrange(4)
    if k == 0:
        return scen.D({"h": ["A", "B"]}, [12, 2], [1, 2], [1], tag="outs")
    if k == 1:
        return scen.D({"h": ["A", "B"]}, [2, 2], [12, 1], [1], cls=rng.choice([(), "all"]), tag="sets")
    if k == 2:
        return scen.D({"h": ["B"], "A": ["B"], "g": ["A"]}, [11, 2], [1, 1], [1, 1], tag="do")
    return scen.D({"h": ["A", "B"], "g": ["B"]}, [2, 2], [1, 1], [4, 2], tag="copies")


def words_of(ops, m):
    return [[0]] if m.is_zero else sorted(alg.atoms_of(ops, m))


def attempt(f):
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            return f()
    except Exception as x:
        return cm.exc(x)


def islands(rec, rng, tier):
    """products of moments and of their conjugates"""
    from inflation import InflationSDP
    d = scen.D({"s": ["A"], "t": ["B"]}, [2, 2], [2, 2], [rng.choice([1, 1, 2]), 1], tag="islands")
    p = scen.build(d)
    ops = scen.Ops(p)
    s = InflationSDP(p, verbose=0)
    s.generate_relaxation(rng.choice(["local1", "npa2"]))
    b = rec.block(scen.encode(d), ops=[list(r) for r in ops.rows], feat=["sdp"])
    moments(rec, b, rng, ops, "sdp", s, tier)
    effects(rec, b, rng, ops, "sdp", s, tier)


def operators(rec, b, p, ops, S):
    order = [ops.of_row(r) for r in p._lexorder]
    n = len(order)
    tab = p._lexrepr_to_all_names
    syms = [str(x) for x in p._lexrepr_to_symbols]
    e = dict(full=[""] * n, free=[""] * n, old=[""] * n, old0=[""] * n, sym=[""] * n, back=[[] for _ in range(n)], exc="")
    try:
        for i, o in enumerate(order):
            for k, form in enumerate(("full", "free", "old", "old0")):
                e[form][o - 1] = str(tab[i][k])
            e["sym"][o - 1] = syms[i]
            row = [ops.of_row(S._interpret_operator_string(str(tab[i][k]))) for k in range(4)]
            r = S._interpret_name(p._lexrepr_to_symbols[i])
            row.append(ops.of_row(np.atleast_2d(np.asarray(r))[0]))
            e["back"][o - 1] = row
    except Exception as x:
        e["exc"] = cm.exc(x)
    rec.ev(b, "ops", **e)


def moments(rec, b, rng, ops, kind, s, tier):
    san = s._sanitise_moment if kind == "sdp" else s._sanitise_monomial
    moms = [m for m in (s.moments if kind == "sdp" else s.monomials)]
    atoms = [s._monomial_from_atoms([a]) for a in s.atomic_factors]
    every = list({id(m): m for m in moms + atoms}.values())
    some = set(map(id, rng.sample(every, min(len(every), 40 if tier != "thorough" else 400))))
    e = dict(moms=[], exc="", lp=kind == "lp", plain=all(len(x) == 1 and x.isalpha() for x in s.InflationProblem.names))
    for m in every:
        r = dict(w=words_of(ops, m), name=str(m.name), sym=str(m.symbol), old=str(m.legacy_name), back=[], exc="")
        if id(m) in some and not (m.is_zero and kind == "lp"):
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    r["back"] = [words_of(ops, san(x)) for x in (m, m.name, m.symbol, m.legacy_name)]
                    r["back"].append(words_of(ops, s.monomial_from_name[m.name]))
                    if not m.is_one and not m.is_zero:
                        f = list(m.factors)
                        rng.shuffle(f)
                        r["back"].append(words_of(ops, san("*".join(x.name for x in f))))
                        r["back"].append(words_of(ops, san(sp.Mul(*[x.symbol for x in f]))))
                        if m.is_atomic:
                            a = np.asarray(f[0].as_2d_array)
                            r["back"].append(words_of(ops, san(a)))
                            r["back"].append(words_of(ops, san(a.tolist())))
                            r["back"].append(words_of(ops, san(f[0])))
                    else:
                        k = 0 if m.is_zero else 1
                        r["back"] += [words_of(ops, san(x)) for x in (k, float(k), str(k), sp.Integer(k))]
            except Exception as x:
                r["exc"] = cm.exc(x)
        e["moms"].append(r)
    rec.ev(b, "moms", **e)


def reads(rec, b, rng, d, p, ops, kind, s, tier):
    """words that need not be moments of the relaxation"""
    san = s._sanitise_moment if kind == "sdp" else s._sanitise_monomial
    names = {ops.of_row(r): (str(p._lexrepr_to_names[i]), str(p._lexrepr_to_all_names[i][2]), p._lexrepr_to_symbols[i]) for i, r in enumerate(p._lexorder)}
    for _ in range(8 if tier != "thorough" else 40):
        w = alg.random_word(rng, ops, d, 4)
        if kind == "lp":
            ev = {}
            for i in w:
                ev.setdefault(tuple(ops.rows[i - 1][:-1]), i)
            w = list(dict.fromkeys(ev.values()))
            rng.shuffle(w)
        n = [names[i][0] for i in w]
        o = [names[i][1] for i in w]
        forms = [np.array([ops.row(i) for i in w]), "*".join(n), "<" + " ".join(n) + ">", "P[" + " ".join(n) + "]", "P[" + " & ".join(n) + "]",
                 "<" + " ".join(o) + ">", sp.Mul(*[names[i][2] for i in w])]
        rng.shuffle(forms)                       # what is read first is remembered
        r = [attempt(lambda f=f: words_of(ops, san(f))) for f in forms]
        bad = [x for x in r if isinstance(x, str)]
        rec.ev(b, "read", w=w, lp=kind == "lp", got=[x for x in r if not isinstance(x, str)], exc=bad[0] if bad else "")


def products(rec, b, rng, ops, kind, s, tier):
    """products of moments, with repetitions, that need not be moments of the relaxation"""
    san = s._sanitise_moment if kind == "sdp" else s._sanitise_monomial
    atoms = [a for a in s.atomic_factors if not a.is_one and not a.is_zero]
    if not atoms:
        return
    for _ in range(6 if tier != "thorough" else 30):
        fs = []
        for a in rng.sample(atoms, min(len(atoms), rng.randint(1, 3))):
            fs += [a] * rng.choice([1, 1, 2, 3, 4])
        rng.shuffle(fs)
        runs = []                                # "name^k" for runs, in the order they come
        for f in fs:
            if runs and runs[-1][0] is f:
                runs[-1][1] += 1
            else:
                runs.append([f, 1])
        forms = ["*".join(f.name for f in fs), sp.Mul(*[f.symbol for f in fs]),
                 "*".join(f.name + ("^%d" % k if k > 1 else "") for f, k in runs)]
        if len(fs) == 1:
            forms.append(fs[0])
        rng.shuffle(forms)                       # what is read first is remembered
        r = [attempt(lambda f=f: words_of(ops, san(f))) for f in forms]
        bad = [x for x in r if isinstance(x, str)]
        rec.ev(b, "prod", want=[alg.words_from(ops, f.as_2d_array) for f in fs], got=[x for x in r if not isinstance(x, str)], exc=bad[0] if bad else "")


def columns(rec, b, rng, d, p, ops, S, tier):
    names = {ops.of_row(r): p._lexrepr_to_symbols[i] for i, r in enumerate(p._lexorder)}
    cols = []
    for _ in range(rng.randint(2, 5)):
        w = list(dict.fromkeys(alg.random_word(rng, ops, d, 3)))
        if w not in cols:
            cols.append(w)
    for form in ("sym", "2d", "1d"):
        e = dict(cols=[[]] + cols, got=[], exc="", form=form)
        try:
            if form == "sym":
                spec = [1] + [sp.Mul(*[names[i] for i in w]) for w in cols]
                spec = [sp.S.One] + spec[1:]
            elif form == "2d":
                spec = [np.empty((0, len(ops.rows[0])), dtype=int)] + [np.array([ops.row(i) for i in w]) for w in cols]
            else:
                spec = [np.array([], dtype=int)] + [S.mon_to_lexrepr(np.array([ops.row(i) for i in w], dtype=S.np_dtype)) for w in cols]
            got = S.build_columns(spec)
            e["got"] = [[ops.of_row(r) for r in S._lexorder[np.asarray(c, dtype=int)]] for c in got]
        except Exception as x:
            e["exc"] = cm.exc(x)
        rec.ev(b, "cols", **e)


def snapshot(s, kind, ops):
    def enc(dct):
        return sorted([words_of(ops, m), cm.rat(float(v))] for m, v in dct.items())
    semi = sorted([words_of(ops, m), cm.rat(float(c)), words_of(ops, r)] for m, (c, r) in s.semiknown_moments.items())
    return [enc(s.known_moments), semi, enc(s.moment_lowerbounds), enc(s.moment_upperbounds), enc(s.objective),
            [enc(q) for q in s.extra_equalities], [enc(q) for q in s.extra_inequalities]]


def digits(rec, rng, shard):
    """numbers of one and of two digits next to each other"""
    from inflation import InflationLP
    o, x = [([2, 2], [12, 11]), ([12, 11], [1, 1])][shard % 2]
    d = scen.D({"h": ["A", "B"]}, o, x, [1], tag="digits")
    p = scen.build(d)
    ops = scen.Ops(p)
    s = InflationLP(p, nonfanout=True, verbose=0)
    b = rec.block(scen.encode(d), ops=[list(r) for r in ops.rows], feat=["lp"])
    moments(rec, b, rng, ops, "lp", s, "quick")


def effects(rec, b, rng, ops, kind, s, tier):
    moms = [m for m in (s.moments if kind == "sdp" else s.monomials) if not m.is_zero and not m.is_one]
    def terms(k, pool):
        return [(m, rng.choice([1, -1, 2, .5, .25])) for m in rng.sample(pool, min(len(pool), k))]
    for _ in range(3 if tier != "thorough" else 12):
        at = [m for m in moms if m.is_atomic] or moms
        what = rng.choice(["values", "lo", "up", "objective", "eqs", "iqs", "all"])
        use = ["values", "objective", "eqs", "iqs"] if what == "all" else [what]
        pick = dict(values=[(m, rng.choice([.5, .25, 0])) for m, _ in terms(4, at)], lo=[(m, .125) for m, _ in terms(2, moms)],
                    up=[(m, .5) for m, _ in terms(2, moms)], objective=terms(3, moms), eqs=terms(3, moms), iqs=terms(3, moms))
        if rng.random() < .5:
            for k in ("objective", "eqs", "iqs"):
                pick[k].append((s.One, rng.choice([.5, -.25])))
        snaps, bad = [], ""
        forms = dict(obj=lambda m: m, name=lambda m: m.name, sym=lambda m: m.symbol,
                     mix=lambda m: rng.choice([m, m.name, m.symbol, 1 if m.is_one else m.name]), expr=None)
        for fn, f in forms.items():
            s.reset("all")
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    for k in use:
                        if fn == "expr" and k in ("objective", "eqs", "iqs"):
                            v = sum((c * m.symbol for m, c in pick[k]), sp.S.Zero)
                        else:
                            v = {(f or (lambda m: m.symbol))(m): c for m, c in pick[k]}
                        if k == "values":
                            s.set_values(v)
                        elif k in ("lo", "up"):
                            s.set_bounds(v, k)
                        elif k == "objective":
                            s.set_objective(v, "max")
                        elif k == "eqs":
                            s.set_extra_equalities([v])
                        else:
                            s.set_extra_inequalities([v])
                    snaps.append(snapshot(s, kind, ops))
            except Exception as x:
                bad = bad or fn + ": " + cm.exc(x)
        rec.ev(b, "effect", what=what, snaps=snaps, exc=bad)


def main(rec, rng, tier, shard, n):
    from inflation import InflationSDP
    count = (36 if shard < 1000 else 3) if tier != "thorough" else 120
    ds = [rename(d, rng) if rng.random() < .5 else d
          for d in alg.scenarios(rng, shard, n, count, max_ops=24, max_level=2, max_parties=3, max_outs=3)]
    ds += [wide_case(rng) for _ in range(3 if tier != "thorough" else 8)]
    islands(rec, rng, tier)
    if shard < 2:
        digits(rec, rng, shard)
    for d in ds:
        if np.prod([[1, 1, 2, 6, 24][l] for l in scen.levels(d)]) > 50:
            continue
        p = scen.build(d)
        ops = scen.Ops(p)
        b = rec.block(scen.encode(d), ops=[list(r) for r in ops.rows], feat=[d["tag"]])
        S = InflationSDP(p, verbose=0)
        operators(rec, b, p, ops, S)
        columns(rec, b, rng, d, p, ops, S, tier)
        kind, s = relaxation(rng, d, p, ops, tier)
        if s is None:
            continue
        b["feat"].append(kind)
        if len(s.moments if kind == "sdp" else s.monomials) <= 120:
            moments(rec, b, rng, ops, kind, s, tier)
            effects(rec, b, rng, ops, kind, s, tier)
            reads(rec, b, rng, d, p, ops, kind, s, tier)
            products(rec, b, rng, ops, kind, s, tier)


cm.main(main)
