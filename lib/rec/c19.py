"""C19: the files written for linear relaxations, read back by a reader of the format, against the program solved."""
import os
import re
import numpy as np
import scipy.sparse as sps
import common as cm, scen, alg, prog
from c14 import vec, task_json, rowsof, COEF
import mosek_tap as tap
import mosek

TASK = mosek.Task
EXACT = [0.25, 0.5, -0.75, 1.0, 2.0, -1.5, 0.0, 3.0]
FINE = [1 / 3, 2 / 7, -5 / 9, 0.015625, 12.5]
FINEV = [1 / 3, 2 / 7, -5 / 9, 0.013]
TINY = [2 ** -8, -2 ** -8, 2 ** -10, 1.0, 0.5, 1 + 2 ** -8]


def lp_constant(path):
    """the constant of an objective in LP format; MOSEK's reader of the format drops the sign of that constant"""
    text = "\n".join(l.split("\\")[0] for l in open(path))
    body = re.split(r"subject\s+to", re.split(r"maximize|minimize", text, flags=re.I)[1], flags=re.I)[0]
    body = re.sub(r"^\s*\w+\s*:", "", body)
    tot, sign, num = 0.0, 1, None
    for tok in re.findall(r"[+-]|[0-9.]+(?:[eE][+-]?[0-9]+)?|[A-Za-z_]\w*", body) + ["+"]:
        if tok in "+-":
            if num is not None:
                tot, num, sign = tot + sign * num, None, 1
            sign = -sign if tok == "-" else sign
        elif tok[0].isalpha() or tok[0] == "_":
            num, sign = None, 1
        else:
            num = float(tok)
    return tot


def read(path, n):
    """the file as the format's reader understands it; variables are those named x<position>"""
    with TASK() as t:
        t.readdata(path)
        r = tap.read(t)
        pos = []
        for j in range(r["numvar"]):
            nm = t.getvarname(j)
            if not (nm[:1] == "x" and nm[1:].isdigit() and int(nm[1:]) < n):
                raise ValueError("unknown variable " + nm)
            pos.append(int(nm[1:]))
        if path.endswith(".lp"):
            k = lp_constant(path)
            if abs(k) != abs(r["cfix"]):
                raise ValueError("constant of the objective: %r and %r" % (k, r["cfix"]))
            r["cfix"] = k
    if len(set(pos)) != len(pos):
        raise ValueError("variable listed twice")
    out = task_json(r)
    out["pos"] = [p + 1 for p in pos]
    return out


def args_stated(kw, n):
    """the program handed to the solver, as stated data"""
    one_row = lambda M: (rowsof(M) or [[]])[0]
    e = dict(n=n, obj=one_row(kw["objective"]), ineq=rowsof(kw["inequalities"]), eq=rowsof(kw["equalities"]), semi=[],
             nonneg=bool(kw["default_non_negative"]), relk=False, reli=False)
    for k, a in (("known", "known_vars"), ("lo", "lower_bounds"), ("up", "upper_bounds")):
        M = sps.coo_array(kw[a])
        e[k] = vec(zip(M.col, M.data)) if M.ndim == 2 else []
    return e


def write(rec, b, e, fn, path, n):
    try:
        fn()
        e["exc"] = ""
        e["task"] = read(path, n)
    except Exception as x:
        e["exc"] = cm.exc(x)
    finally:
        if os.path.exists(path):
            os.remove(path)
    rec.ev(b, "file", **e)


def export(rec, rng, b, s, work, tag, log):
    from inflation.lp.writer_utils import lp_to_mps
    n = len(s.monomials)
    prog.CAP["script"] = dict(status="unknown", success=False, primal_value=None)
    prog.CAP.pop("kw", None)
    try:
        s.solve()
        e = args_stated(prog.CAP["kw"], n)
    except Exception:
        return False
    forms = ["lp", "mps"] + (["lp_to_mps"] if rng.random() < .3 else [])
    bare = rng.random() < .3
    for f in forms:
        path = os.path.join(work, "out." + f.split("_")[-1])
        if f == "lp_to_mps":
            if any(i in dict(e["known"]) for i, _ in e["obj"]):
                continue                   # its detour through MOSEK's reader loses the sign of the constant
            fn = lambda: lp_to_mps(s._prepare_solver_arguments(separate_bounds=True), path)
        else:
            # names without a format default to LP, wherever the file is
            fn = lambda: s.write_to_file(path[:-3] if f == "lp" and bare else path)
        write(rec, b, dict(e, form=f, tag=tag, log=list(log)), fn, path, n)
    return True


def histories(rec, rng, tier, shard, n, work):
    prog.install()
    names, w = list(prog.WEIGHTS), list(prog.WEIGHTS.values())
    for d in alg.scenarios(rng, shard, n, 16 if tier != "thorough" else 120, max_ops=18, max_level=2, max_parties=3, max_outs=2):
        x = prog.build(rng, d, tier, "lp")
        if x is None:
            continue
        s, ops, sup = x
        h = prog.History(cm.Rec(), rng, d, s, ops, sup, "export")
        b = rec.block(scen.encode(d), feat=["supports" if sup else "lp"])
        for _ in range(3):
            log = []
            for op in rng.choices(names, w, k=rng.randint(2, 5)):
                if not h.dead:
                    prog.History.OPS[op](h)
                    log.append(op)
            if h.dead or not export(rec, rng, b, s, work, "library", log):
                break


def direct(rec, rng, b, work):
    """arguments written out without a relaxation"""
    from inflation.lp.writer_utils import write_to_lp, write_to_mps
    n = rng.randint(1, 7)
    vs = rng.sample(["1", "x", "y", "P[A=0]", "z3", "a_10", "w w", "free", "e1"], n)
    kind = rng.choice(["exact", "exact", "coef", "val", "tiny"])      # where numbers that need all their digits occur
    co = FINE if kind == "coef" else TINY if kind == "tiny" else EXACT[:6]
    val = FINEV if kind == "val" else TINY + [0.0] if kind == "tiny" else [0.0, 1.0] if kind == "coef" else EXACT
    lin = lambda k: [(j, rng.choice(co)) for j in rng.sample(range(n), min(n, rng.randint(1, k)))]
    some = lambda pool: [(j, rng.choice(pool)) for j in rng.sample(range(n), rng.choice([0, 0, 1, min(2, n) if kind in ("exact", "tiny") else 1]))]
    st = dict(obj=lin(4) if rng.random() < .8 else [], ineq=[lin(4) for _ in range(rng.randint(0, 3))],
              eq=[lin(3) for _ in range(rng.randint(0, 2))], known=some(val), lo=some(val + [0.0]), up=some(val))
    st["semi"] = []
    if n >= 2 and rng.random() < .3:
        a, c = rng.sample(range(n), 2)
        st["semi"] = [(a, rng.choice(co + [0.0]), c)]
    dct = lambda r: {vs[j]: v for j, v in r}
    args = dict(variables=list(vs), objective=dct(st["obj"]), known_vars=dct(st["known"]), inequalities=[dct(r) for r in st["ineq"]],
                equalities=[dct(r) for r in st["eq"]], lower_bounds=dct(st["lo"]), upper_bounds=dct(st["up"]),
                semiknown_vars={vs[a]: (c, vs[d]) for a, c, d in st["semi"]})
    nn = rng.choice([True, False, None])
    if nn is not None:
        args["default_non_negative"] = nn
    for k in ("objective", "lower_bounds", "upper_bounds"):
        if not args[k] and rng.random() < .4:
            del args[k]
    e = dict(n=n, obj=vec(st["obj"]), ineq=[vec(r) for r in st["ineq"]], eq=[vec(r) for r in st["eq"]],
             semi=[[a + 1, cm.rat(c), d + 1] for a, c, d in st["semi"]], known=vec(st["known"]), lo=vec(st["lo"]),
             up=vec(st["up"]), nonneg=nn is not False, relk=False, reli=False, tag="direct", log=[])
    for f, fn in (("lp", write_to_lp), ("mps", write_to_mps)):
        path = os.path.join(work, "out." + f)
        write(rec, b, dict(e, form=f), lambda: fn(args, path), path, n)


def main(rec, rng, tier, shard, n):
    work = os.environ.get("VERIF_WORK") or "/tmp"
    work = os.path.join(work, "files.%d" % shard)
    os.makedirs(work, exist_ok=True)
    for k in range(60 if tier != "thorough" else 1500):
        if k % 20 == 0:
            b = rec.block(dict(tag="programs"), feat=["direct"])
        direct(rec, rng, b, work)
    histories(rec, rng, tier, shard, n, work)


cm.main(main)
