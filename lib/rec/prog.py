"""Histories of calls on one relaxation object (C11, C12, C13).

Every public call is one event with its arguments, its outcome and the projected state afterwards;
solves are intercepted at the solver's entry point, so that the program handed over is part of the
recording, and answered with scripted results.
"""
import gc
gc.collect = lambda *a, **k: 0            # the library calls it after every modification
import json
import os
import numpy as np
import sympy as sp
import common as cm, scen, alg
from c06 import lp_cost, moments

VALS = [0.0, 0.25, 0.5, 0.75, 1.0]
SMALL = 1 / 128
CAP = {}


def fake(kind):
    def solver(*args, **kw):
        CAP["kw"] = kw
        return dict(CAP["script"])
    return solver


def install():
    import sys
    import inflation  # noqa
    sys.modules["inflation.sdp.InflationSDP"].solveSDP_MosekFUSION = fake("sdp")
    sys.modules["inflation.lp.InflationLP"].solveLP = fake("lp")


class Table:
    """Moments by number; numbers are what the specification talks about."""

    def __init__(self, s, ops):
        self.s, self.ops = s, ops
        self.idx, self.rows, self.objs, self.names = {}, [], [], {}
        self.lp = s.problem_type == "lp"
        for m in moments(s):
            self.add(m, True)
        self.one = self.of(s.One)
        for a in s_atoms(s):
            self.of(a)

    def add(self, m, inrel):
        s = self.s
        i = len(self.rows) + 1
        self.idx[m] = i
        self.objs.append(m)
        zero = bool(m.is_zero)
        self.rows.append(dict(atoms=[] if zero else alg.atoms_of(self.ops, m), zero=zero, inrel=inrel,
                              nonneg=(not self.lp) and m in s.nonnegative_moments))
        self.names.setdefault(m.name, i)
        return i

    def of(self, m):
        try:
            return self.idx[m]
        except KeyError:
            return self.add(m, False)

    def name(self, nm):
        if nm in ("1", 1, self.s.constant_term_name):
            return self.one
        if nm in self.names:
            return self.names[nm]
        return self.of(self.s.monomial_from_name[nm])


def s_atoms(s):
    seen = {}
    for m in moments(s):
        if m.is_zero:
            continue
        for f in m.factors:
            seen.setdefault(f.name, f)
    return [s._monomial_from_atoms([f]) for f in seen.values()]


def row(t, d):
    out = {}
    for m, v in d.items():
        i = t.of(m)
        out[i] = out.get(i, 0) + v
    return [[i, cm.rat(float(v))] for i, v in out.items()]


def byname(t, d):
    out = {}
    for nm, v in d.items():
        i = t.name(nm)
        out[i] = out.get(i, 0) + v
    return [[i, cm.rat(float(v))] for i, v in out.items()]


def sparse_rows(M):
    if not hasattr(M, "tocsr") or M.shape[0] == 0 or M.ndim != 2:
        return []
    M = M.tocsr()
    return [[[int(j) + 1, cm.rat(float(v))] for j, v in zip(M.indices[M.indptr[i]:M.indptr[i + 1]],
                                                            M.data[M.indptr[i]:M.indptr[i + 1]])]
            for i in range(M.shape[0])]


def pairs(t, d):
    return [[t.of(m), cm.rat(float(v))] for m, v in d.items()]


def observe(t, s):
    o = dict(known=pairs(t, s.known_moments),
             semi=[[t.of(m), cm.rat(float(c)), alg.atoms_of(t.ops, r)] for m, (c, r) in s.semiknown_moments.items()],
             lo=pairs(t, s.moment_lowerbounds), up=pairs(t, s.moment_upperbounds), obj=pairs(t, s.objective),
             max=bool(s.maximize), eq=[row(t, e) for e in s.extra_equalities], iq=[row(t, e) for e in s.extra_inequalities])
    o["status"] = str(s.status)
    for k, a in [("hasval", "objective_value"), ("hasprim", "primal_objective"), ("hassol", "solution_object"),
                 ("hassucc", "success")]:
        o[k] = hasattr(s, a)
    v = getattr(s, "objective_value", None)
    o["val"] = cm.rat(float(v)) if isinstance(v, (int, float, np.floating)) else [0, 0]
    o["succ"] = bool(getattr(s, "success", False))
    try:
        c = s.certificate_as_dict(clean=False)
        o["cert"], o["certexc"] = pairs(t, c), ""
    except KeyError as e:
        o["cert"], o["certexc"] = [], "none"
    except Exception as e:
        o["cert"], o["certexc"] = [], "refused" if "you need to solve" in str(e) else cm.exc(e)
    return o


def program(t, s, kw):
    """What the solver was given, by moment number."""
    p = {}
    if t.lp:
        def vec(M):
            r = sparse_rows(M)
            return r[0] if r else []
        p["names"] = [str(x) for x in kw["variables"]] == [str(m.name) for m in s.monomials]
        p["obj"], p["known"] = vec(kw["objective"]), vec(kw["known_vars"])
        p["eq"], p["iq"] = sparse_rows(kw["equalities"]), sparse_rows(kw["inequalities"])
        p["lo"], p["up"] = vec(kw["lower_bounds"]), vec(kw["upper_bounds"])
        p["semi"], p["masks"] = [], []
        p["nonneg"] = bool(kw["default_non_negative"])
        p["relax"] = bool(kw["relax_known_vars"]) or bool(kw["relax_inequalities"])
        p["relk"], p["reli"] = bool(kw["relax_known_vars"]), bool(kw["relax_inequalities"])
    else:
        p["names"] = True
        p["obj"], p["known"] = byname(t, kw["objective"]), byname(t, kw["known_vars"])
        p["eq"], p["iq"] = [byname(t, r) for r in kw["equalities"]], [byname(t, r) for r in kw["inequalities"]]
        p["lo"], p["up"] = [], []
        p["semi"] = [[t.name(a), cm.rat(float(c)), t.name(b)] for a, (c, b) in kw["semiknown_vars"].items()]
        masks = []
        for nm, M in kw["mask_matrices"].items():
            M = M.tocoo()
            cells = sorted({(int(a), int(b)) for a, b, v in zip(M.row, M.col, M.data) if v})
            masks.append([t.name(nm), [list(c) for c in cells]])
        p["masks"] = masks
        p["nonneg"] = False
        p["relax"] = bool(kw["feas_as_optim"])
    p["dual"] = bool(kw["solve_dual"])
    return p


def build(rng, d, tier, want):
    from inflation import InflationSDP, InflationLP
    p = scen.build(d)
    ops = scen.Ops(p)
    sup = rng.random() < .2
    if want == "lp":
        if lp_cost(d, p) > 400:
            return None
        s = InflationLP(p, nonfanout=bool(p._default_notcomm.any()), verbose=0, supports_problem=sup,
                        include_all_outcomes=rng.random() < .3, default_non_negative=rng.random() < .6)
        return (s, ops, sup) if 3 <= len(s.monomials) <= 40 else None
    s = InflationSDP(p, verbose=0, supports_problem=sup, include_all_outcomes=rng.random() < .2)
    if not sdpgen(rng, s):
        return None
    return s, ops, sup


def sdpgen(rng, s):
    specs = ["npa1", "npa2", "local1", "physical1", "physical2"]
    rng.shuffle(specs)
    for spec in specs:
        try:
            n = len(s.build_columns(spec))
        except Exception:
            continue
        if 2 <= n <= 16:
            s.generate_relaxation(spec)
            if 3 <= len(s.moments) <= 45:
                return True
    return False


def key_for(rng, s, m):
    """A user's way of referring to the moment."""
    r = rng.random()
    if r < .4:
        return m
    if r < .75 and s.monomial_from_name.get(m.name) == m:
        return m.name
    if m.name != "1" and s.monomial_from_symbol.get(m.symbol) == m:
        return m.symbol
    return m


class History:
    def __init__(self, rec, rng, d, s, ops, sup, tag):
        self.rec, self.rng, self.d, self.s, self.sup = rec, rng, d, s, sup
        self.ops = ops
        self.open(tag)

    def open(self, tag):
        s = self.s
        self.t = t = Table(s, self.ops)
        self.b = b = self.rec.block(scen.encode(self.d), ops=[list(r) for r in self.ops.rows], mode=s.problem_type,
                                    supports=self.sup, table=t.rows, one=t.one,
                                    haszero=(not t.lp) and bool(s.momentmatrix_has_a_zero))
        b["zero"] = next((i + 1 for i, r in enumerate(t.rows) if r["zero"] and r["inrel"]), 0)
        if t.lp:
            b["mineq"], b["miniq"] = sparse_rows(s.minimal_sparse_equalities), sparse_rows(s.minimal_sparse_inequalities)
            b["nonneg"], b["cells"] = bool(s.default_non_negative), []
        else:
            b["mineq"], b["miniq"] = [row(t, e) for e in s.minimal_equalities], [row(t, e) for e in s.minimal_inequalities]
            b["nonneg"] = False
            cells = {}
            for i, j in zip(*np.nonzero(np.ones_like(s.momentmatrix))):
                cells.setdefault(t.of(s.compmoment_from_idx[int(s.momentmatrix[i, j])]), []).append([int(i), int(j)])
            b["cells"] = [[i, sorted(c)] for i, c in cells.items()]
        b["feat"] = [s.problem_type + (":supports" if self.sup else ""), tag]
        ms = [m for m in moments(s) if not m.is_zero]
        self.all = ms
        self.atomic = [m for m in ms if m.n_factors == 1]
        self.dead = False
        rels = {r for r in range(1, len(t.rows) + 1) if t.rows[r - 1]["inrel"]}
        self.allatoms = all(t.of(a) in rels for a in s_atoms(s))
        self.valued = False                # values given since the relaxation was generated
        self.partial = False               # values of factors that are no moments themselves were given
        self.call("init", lambda: None)

    def call(self, op, fn, **args):
        e = dict(op=op, vals=[], lpi=False, only=False, bound="", none=False, which=[], rows=[], dir="max", dist=[], den=1)
        e.update(args)
        try:
            fn()
            e["exc"] = ""
        except AssertionError as x:
            e["exc"], e["msg"] = "refused", cm.exc(x)
        except Exception as x:
            e["exc"] = cm.exc(x)
        e["prog"] = e.get("prog") or dict()
        if op == "solve" and e["exc"] == "":
            try:
                e["prog"] = program(self.t, self.s, CAP["kw"])
            except Exception as x:
                e["exc"] = "program " + cm.exc(x)
        try:
            e["obs"] = observe(self.t, self.s)
        except Exception as x:
            e["exc"], e["obs"] = "observe " + cm.exc(x), {}
        self.rec.ev(self.b, "call", **e)
        if e["exc"]:
            self.dead = True

    # ---- the calls -------------------------------------------------------------------------
    hint = None

    def coin(self, word, p):
        """a choice that a behaviour of the specification may prescribe"""
        return self.rng.random() < p if self.hint is None else word in self.hint

    def pick(self, words):
        named = [w for w in words if w in (self.hint or [])]
        return self.rng.choice(named or words)

    def some(self, pool, k):
        return self.rng.sample(pool, min(len(pool), self.rng.randint(1, k)))

    def op_values(self, update):
        rng, s = self.rng, self.s
        lpi, only = self.coin("lpi", .5), self.coin("only", .2)
        if update and self.partial:
            only = True
            if s.semiknown_moments:
                return
        if update and only and s.semiknown_moments:
            lpi = False
        if update and self.sup:
            return
        r = rng.random()
        if r < .08:
            vals, none = None, True
        elif r < .12:
            vals, none = {}, False
        else:
            none = False
            pool = self.atomic if not only else self.all[1:] or self.all
            ms = self.some(pool, 4)
            tiny = rng.randrange(4 * len(ms))          # at most one very small value
            vals = {key_for(rng, s, m): (SMALL if j == tiny else rng.choice(VALS) if rng.random() < .93 else float("nan")) for j, m in enumerate(ms)}
            vmap = [(self.t.of(m), v) for m, v in zip(ms, vals.values())]
            if len(vals) != len(ms):
                return
        rows = [] if not vals else [[i, cm.rat(v) if v == v else [0, 0]] for i, v in vmap]
        fn = s.update_values if update else s.set_values
        self.valued = True
        if not update:
            self.partial = False
        self.call("update_values" if update else "set_values",
                  lambda: fn(vals, use_lpi_constraints=lpi, only_specified_values=only),
                  vals=rows, lpi=lpi, only=only, none=none)

    def op_dist(self):
        rng, s = self.rng, self.s
        if rng.random() < .08:
            self.partial = False
            self.call("set_distribution", lambda: s.set_distribution(None), none=True)
            return
        shp = s.InflationProblem.expected_distro_shape
        den = rng.choice([1, 2, 4])
        P = s.InflationProblem.nr_parties
        a = np.zeros(shp, dtype=int)
        no = int(np.prod(shp[:P]))
        flat = a.reshape(no, -1)
        for j in range(flat.shape[1]):
            for _ in range(den):
                flat[rng.randrange(no), j] += 1
        if den == 4 and rng.random() < .4:       # some very small probabilities
            den = 128
            for j in range(flat.shape[1]):
                flat[rng.randrange(no), j] += den - 4
        a = flat.reshape(shp)
        lpi, shared = rng.random() < .6, rng.random() < .2
        self.partial, self.valued = not self.allatoms, True
        self.call("set_distribution", lambda: s.set_distribution(a / den, use_lpi_constraints=lpi, shared_randomness=shared),
                  dist=[int(x) for x in a.flat], den=den, lpi=lpi, only=shared)

    def op_bounds(self, tie=.25):
        rng, s = self.rng, self.s
        typ = self.pick(["up", "lo"])
        if self.sup and typ == "lo" and self.valued:
            typ = "up"
        if self.coin("none", .1):
            self.call("set_bounds", lambda: s.set_bounds(None, typ), bound=typ, none=True)
            return
        ms = self.tied(tie) or self.some(self.all[1:], 3)
        lo = [-1.0, 0.0, 0.0, 0.125, 0.25, SMALL, -SMALL]
        hi = [1.0, 1.0, 0.75, 0.875, 2.0, SMALL]
        bs = {key_for(rng, s, m): rng.choice(hi if typ == "up" else lo) for m in ms}
        if len(bs) != len(ms):
            return
        rows = [[self.t.of(m), cm.rat(v)] for m, v in zip(ms, bs.values())]
        if rng.random() < .08:               # the same moment twice, under two names
            m = ms[0]
            alt = [k for k in (m, m.name) if k not in bs]
            if alt:
                v = list(bs.values())[0] + rng.choice([0.0, 0.0, 0.125])
                bs[alt[0]] = v
                rows.append([self.t.of(m), cm.rat(v)])
        self.call("set_bounds", lambda: s.set_bounds(bs, typ), bound=typ, vals=rows)

    def linear(self, k, const=True):
        rng = self.rng
        ms = self.some(self.all[1:], k)
        tie = self.tied()
        if tie:
            ms = [m for m in ms if m not in tie] + tie
            rng.shuffle(ms)
        if const and rng.random() < .5:
            ms.append(self.all[0] if self.all[0].is_one else self.s.One)
        return ms, [rng.choice([1, -1, 2, 0.5, -0.25, 3, SMALL, 1 + SMALL]) for _ in ms]

    def tied(self, p=.25):
        """sometimes a moment that is a multiple of another one, together with that one"""
        if self.s.semiknown_moments and self.rng.random() < p:
            m, (_, x) = self.rng.choice(list(self.s.semiknown_moments.items()))
            if m in self.all and x in self.all:
                return [m, x]
        return []

    def expr(self, ms, cs):
        """dictionary or symbolic expression"""
        rng, s = self.rng, self.s
        if rng.random() < .3 and all(m.is_one or s.monomial_from_symbol.get(m.symbol) == m for m in ms):
            e = sp.S.Zero
            for m, c in zip(ms, cs):
                e += c * (1 if m.is_one else m.symbol)
            return e
        out = {}
        for m, c in zip(ms, cs):
            out[key_for(rng, s, m)] = c
        return out if len(out) == len(ms) else dict(zip(ms, cs))

    def op_objective(self):
        rng, s = self.rng, self.s
        dr = self.pick(["max", "min"])
        if self.coin("none", .15):
            self.call("set_objective", lambda: s.set_objective(None, dr), none=True, dir=dr)
            return
        if self.sup and rng.random() < .8:
            return
        ms, cs = self.linear(4)
        if rng.random() < .1:
            ms, cs = [s.One], [3]
        e = self.expr(ms, cs)
        self.call("set_objective", lambda: s.set_objective(e, dr), vals=[[self.t.of(m), cm.rat(float(c))] for m, c in zip(ms, cs)],
                  dir=dr)

    def op_extra(self, which):
        rng, s = self.rng, self.s
        fn = s.set_extra_equalities if which == "eq" else s.set_extra_inequalities
        r = rng.random()
        if r < .12:
            self.call("set_extra_" + which, lambda: fn(None if r < .06 else []), none=True)
            return
        rows, ex = [], []
        for _ in range(rng.randint(1, 2)):
            ms, cs = self.linear(3)
            ex.append(self.expr(ms, cs))
            rows.append([[self.t.of(m), cm.rat(float(c))] for m, c in zip(ms, cs)])
        self.call("set_extra_" + which, lambda: fn(ex), rows=rows)

    def op_reset(self):
        rng, s = self.rng, self.s
        w = self.pick(["all", "bounds", "lowerbounds", "upperbounds", "objective", "values"] + ["LIST"] * (self.hint is None))
        arg, which = w, [w]
        if w == "LIST":
            which = rng.sample(["bounds", "lowerbounds", "upperbounds", "objective", "values"], rng.randint(1, 3))
            arg = list(which)
        if w == "all":
            which = ["values", "bounds", "objective"]
        if "values" in which:
            self.partial = False
        self.call("reset", lambda: s.reset(arg), which=which)

    def op_solve(self):
        rng, s = self.rng, self.s
        st = rng.choice(["feasible", "feasible", "feasible", "infeasible", "unknown", "dual_infeas_cer"])
        val = rng.choice([0.5, -0.25, 0.0, 2.0])
        script = dict(status=st, success=st == "feasible", primal_value=val if st == "feasible" else None)
        cert = []
        if st in ("feasible", "infeasible"):
            ms = self.some(self.all[1:], 3)
            script["dual_certificate"] = {m.name: rng.choice([1.0, -0.5, 2.0]) for m in ms}
            cert = [[self.t.of(m), cm.rat(v)] for m, v in zip(ms, script["dual_certificate"].values())]
        CAP["script"] = script
        relax = rng.random() < .4
        dual = rng.random() < .5
        if self.t.lp:
            kw = dict(solve_dual=dual)
            if relax:
                for k in rng.choice([["relax_known_vars"], ["relax_inequalities"], ["feas_as_optim"], ["relax_known_vars", "relax_inequalities"]]):
                    kw[k] = True
            if (nn := rng.choice([None, None, True, False])) is not None:
                kw["default_non_negative"] = nn
        else:
            kw = dict(solve_dual=dual, feas_as_optim=relax)
        CAP.pop("kw", None)
        self.call("solve", lambda: s.solve(**kw), script=dict(status=st, success=st == "feasible",
                  val=cm.rat(val) if st == "feasible" else [0, 0], cert=cert, hascert=st in ("feasible", "infeasible")),
                  relax=relax, relk=bool(kw.get("relax_known_vars")), reli=bool(kw.get("relax_inequalities") or relax and kw.get("feas_as_optim")),
                  nn=self.b["nonneg"] if kw.get("default_non_negative") is None else kw["default_non_negative"], dual=dual)

    def op_regenerate(self):
        if self.t.lp:
            return
        try:
            if sdpgen(self.rng, self.s):
                self.open("regenerated")
            else:
                self.dead = True
        except Exception as x:
            self.call("regenerate", lambda: (_ for _ in ()).throw(x))

    OPS = dict(set_values=lambda h: h.op_values(False), update_values=lambda h: h.op_values(True), dist=lambda h: h.op_dist(),
               bounds=lambda h: h.op_bounds(), objective=lambda h: h.op_objective(), eq=lambda h: h.op_extra("eq"),
               iq=lambda h: h.op_extra("iq"), reset=lambda h: h.op_reset(), solve=lambda h: h.op_solve(),
               regenerate=lambda h: h.op_regenerate())


WEIGHTS = dict(set_values=3, update_values=4, dist=3, bounds=5, objective=4, eq=2, iq=2, reset=3, solve=6, regenerate=1)


def history(rec, rng, d, built, n, tag, script=None):
    s, ops, sup = built
    h = History(rec, rng, d, s, ops, sup, tag)
    names, w = list(WEIGHTS), list(WEIGHTS.values())
    seq = script if script is not None else [rng.choices(names, w)[0] for _ in range(n)]
    for op in seq:
        if h.dead:
            break
        kind, *hint = op.split(":")
        h.hint = hint if hint else None
        History.OPS[kind](h)
    h.hint = None
    if not h.dead:
        h.op_solve()
    return h


def run(rec, rng, tier, shard, n, want):
    install()
    beh = json.load(open(os.environ["BEH"])) if os.environ.get("BEH") else []
    mine = [b for i, b in enumerate(beh) if shard < 1000 and i % n == shard]
    count = (26 if shard < 1000 else 5) if tier != "thorough" else 150
    built = []
    for d in alg.scenarios(rng, shard, n, count, max_ops=18, max_level=2, max_parties=3, max_outs=2):
        if np.prod([[1, 1, 2, 6, 24][l] for l in scen.levels(d)]) > 8:
            continue
        kind = want if want != "both" else rng.choice(["sdp", "lp"])
        x = build(rng, d, tier, kind)
        if x is None:
            continue
        history(rec, rng, d, x, rng.randint(8, 16), "random")
        built.append((d, kind))
    # two independent parties with noncommuting operators: factors that are not self-adjoint
    if want == "sdp" and shard < 1000:
        d = next(x for x in scen.FIXED if x["tag"] == "islands")
        p = scen.build(d)
        for k in range(2 if tier != "thorough" else 20):
            from inflation import InflationSDP
            s = InflationSDP(p, verbose=0)
            s.generate_relaxation("local1")
            history(rec, rng, d, (s, scen.Ops(p), False), 10, "islands",
                    script=["set_values", "update_values", "solve"] * 4 if k % 2 else None)
        # relaxations of the same problem one after the other, larger ones last
        for k in range(2):
            d = scen.D({"h": ["A", "B"]}, [2, 2], [2, 1 + k], [1], tag="bell") if rng.random() < .5 else \
                scen.D({"h": ["A", "B"], "t": ["B"]}, [2, 2], [1, 1], [1 + k, 1], tag="chain")
            s = InflationSDP(scen.build(d), verbose=0)
            s.generate_relaxation(s.build_columns("npa1")[:rng.choice([2, 3])])
            history(rec, rng, d, (s, scen.Ops(s.InflationProblem), False), 10, "again", script=["dist", "solve", "regenerate", "dist", "solve"] * 2)
    # behaviours of the specification: the kinds of calls in the order TLC chose
    for ops_seq in mine:
        if not built:
            break
        d, kind = rng.choice(built)
        x = None
        for _ in range(4):
            x = build(rng, d, tier, kind)
            if x is not None:
                break
            d, kind = rng.choice(built)
        if x is not None:
            history(rec, rng, d, x, 0, "behaviour", script=ops_seq)
