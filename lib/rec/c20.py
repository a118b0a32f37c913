"""C20: the files written for semidefinite relaxations, read back by the rules of each format, against the program solved."""
import os
import re
import numpy as np
import scipy.sparse as sps
from scipy.io import loadmat
import common as cm, scen, alg, prog
from c14 import vec

NUM = r"\d+\.?\d*(?:[eE][+-]?\d+)?"


def parse_expr(text, ix, one):
    """sum of terms `coefficient*moment`, `moment` or `constant`"""
    text, out, i = text.replace(" ", ""), [], 0
    if not text:
        return []
    while i < len(text):
        m = re.compile(r"([+-]*)(?:(" + NUM + r")(?=\*|[+-]|$)\*?)?([^+\-]*)").match(text, i)
        if not m or m.end() == i:
            raise ValueError("expression " + text[:60])
        c = float(m.group(2)) if m.group(2) else 1.0
        if m.group(1).count("-") % 2:
            c = -c
        if not m.group(2) and not m.group(3):
            raise ValueError("expression " + text[:60])
        if m.group(3) and m.group(3) not in ix:
            raise ValueError("moment " + m.group(3))
        out.append([ix[m.group(3)] + 1 if m.group(3) else one, cm.rat(c)])
        i = m.end()
    return out


def read_csv(path, ix, one):
    L = open(path).read().split("\n")
    if not L[0].startswith("Objective: ") and L[0] != "Objective:":
        raise ValueError("objective line")
    b = L.index("Bounds:")
    e = next(k for k, l in enumerate(L) if l.startswith("Equalities"))
    q = next(k for k, l in enumerate(L) if l.startswith("Inequalities"))
    cell = lambda t: parse_expr(t.replace(";", ","), ix, one)
    mat = [l.split(",") for l in L[1:b]]
    if any(len(r) != len(mat) for r in mat):
        raise ValueError("matrix is not square")
    cells = [[i + 1, j + 1, cell(mat[i][j])] for i in range(len(mat)) for j in range(i, len(mat))]
    low = all(float(mat[i][j]) == 0 for i in range(len(mat)) for j in range(i))
    bnds = []
    for l in L[b + 2:e]:
        if l.strip():
            *v, lo, up = l.split(",")
            bnds.append([[k, cell(",".join(v)), cm.rat(float(x))] for k, x in (("lo", lo), ("up", up)) if x != "None"])
    return dict(dim=len(mat), cells=cells, low=low, obj=parse_expr(L[0][10:], ix, one), bounds=[x for g in bnds for x in g],
                eq=[parse_expr(l, ix, one) for l in L[e + 1:q] if l.strip()], ineq=[parse_expr(l, ix, one) for l in L[q + 1:] if l.strip()])


def read_sdpa(path):
    """the sparse SDPA format: comments, number of variables, number of blocks, structure, costs, entries"""
    L = [l for l in open(path).read().split("\n")]
    const = 0.0
    while L and L[0][:1] in '"*':
        m = re.search(r"constant term of value (\S+)", L.pop(0))
        if m:
            const = float(m.group(1))
    first = lambda l: int(re.match(r"\s*(-?\d+)", l).group(1))
    nums = lambda l: [float(x) for x in re.findall(r"[+-]?\d+\.?\d*(?:[eE][+-]?\d+)?", l)]
    n, nb = first(L[0]), first(L[1])
    struct = [int(x) for x in nums(L[2].split("=")[0])]
    c = nums(L[3])
    ents = []
    for l in L[4:]:
        if l.strip():
            p = l.split()
            if len(p) != 5:
                raise ValueError("entry " + l)
            ents.append([int(x) for x in p[:4]] + [cm.rat(float(p[4]))])
    return dict(nvars=n, nblocks=nb, struct=struct, c=[cm.rat(x) for x in c], ents=ents, const=cm.rat(const))


def read_mat(path, ix, s):
    M = loadmat(path)
    names = {}
    for k, nm in M["moments_idx2name"]:
        names[int(np.ravel(k)[0])] = str(np.ravel(nm)[0]).replace(" ", "")
    of = lambda k: ix[names[int(k)]] + 1
    two = lambda A: [[of(r[0]), cm.rat(float(r[1]))] for r in (A if A.size else [])]

    def rows(A):
        out = []
        for c in np.ravel(A):
            c = c[0, 0] if hasattr(c, "shape") and c.ndim == 2 else c
            out.append([[of(i), cm.rat(float(v))] for i, v in zip(np.ravel(c["moments"]), np.ravel(c["coeffs"]))])
        return out
    mm = M["momentmatrix"]
    masks = {}
    for i in range(mm.shape[0]):
        for j in range(i, mm.shape[1]):
            masks.setdefault(of(mm[i, j]), []).append([i + 1, j + 1, cm.rat(1.0)])
    return dict(dim=int(mm.shape[0]), sym=bool((mm == mm.T).all()), masks=[[k, v] for k, v in masks.items()], obj=two(M["objective"]),
                known=two(M["known_moments"]), lo=two(M["moment_lowerbounds"]), up=two(M["moment_upperbounds"]),
                semi=[[of(r[0]), cm.rat(float(r[1])), of(r[2])] for r in (M["semiknown_moments"] if M["semiknown_moments"].size else [])],
                eq=rows(M["moment_equalities"]), ineq=rows(M["moment_inequalities"]))


def stated(s, kw):
    names = [m.name for m in s.moments]
    vs = list(dict.fromkeys(names + sorted(set(kw["mask_matrices"]) | set(kw["known_vars"]) | set(kw["objective"]) | set(kw["semiknown_vars"]) |
              {v[1] for v in kw["semiknown_vars"].values()} | {k for r in kw["equalities"] + kw["inequalities"] for k in r})))
    ix = {v: i for i, v in enumerate(vs)}
    row = lambda r: vec((ix[k], float(v)) for k, v in r.items())
    tri = lambda M: [[int(p) + 1, int(q) + 1, cm.rat(float(v))] for p, q, v in zip(*(lambda c: (c.row, c.col, c.data))(sps.coo_array(M)))
                     if p <= q and v]
    used = set(kw["mask_matrices"]) | set(kw["objective"]) | set(kw["semiknown_vars"]) | {v[1] for v in kw["semiknown_vars"].values()} | \
        {k for r in kw["equalities"] + kw["inequalities"] for k in r}
    return ix, dict(n=len(vs), dim=int(s.n_columns), masks=[[ix[k] + 1, tri(M)] for k, M in kw["mask_matrices"].items()],
                    obj=row(kw["objective"]), ineq=[row(r) for r in kw["inequalities"]], eq=[row(r) for r in kw["equalities"]],
                    semi=[[ix[k] + 1, cm.rat(float(c)), ix[x] + 1] for k, (c, x) in kw["semiknown_vars"].items()],
                    known=row(kw["known_vars"]), nonneg=False, feas=False, process=True, occurs=sorted(ix[k] + 1 for k in used))


def export(rec, rng, b, s, work, log):
    prog.CAP["script"] = dict(status="unknown", success=False, primal_value=None)
    prog.CAP.pop("kw", None)
    try:
        s.solve()
        kw = prog.CAP["kw"]
        ix, e = stated(s, kw)
    except Exception:
        return False
    one = ix[s.constant_term_name] + 1
    # when the unit moment is not fixed (supports problems), every number in the table for people is a multiple of it
    unit = one if s.One.name in kw["known_vars"] or s.One.name not in ix else ix[s.One.name] + 1
    flat = {k.replace(" ", ""): v for k, v in ix.items()}
    if len(flat) != len(ix):
        return False
    bare = rng.random() < .3
    for f in ("dat-s", "csv", "mat"):
        path = os.path.join(work, "out." + f)
        ev = dict(e, form=f, log=list(log), file={}, one=one)
        try:
            s.write_to_file(path[:-6] if f == "dat-s" and bare else path)
            ev["exc"] = ""
            ev["file"] = read_sdpa(path) if f == "dat-s" else read_csv(path, flat, unit) if f == "csv" else read_mat(path, flat, s)
        except Exception as x:
            ev["exc"] = cm.exc(x)
        finally:
            if os.path.exists(path):
                os.remove(path)
        rec.ev(b, "file", **ev)
    return True


def main(rec, rng, tier, shard, n):
    prog.install()
    prog.VALS = prog.VALS + [-0.25]
    work = os.path.join(os.environ.get("VERIF_WORK") or "/tmp", "sfiles.%d" % shard)
    os.makedirs(work, exist_ok=True)
    names, w = list(prog.WEIGHTS), list(prog.WEIGHTS.values())
    for d in alg.scenarios(rng, shard, n, 16 if tier != "thorough" else 120, max_ops=18, max_level=2, max_parties=3, max_outs=2):
        if np.prod([[1, 1, 2, 6, 24][l] for l in scen.levels(d)]) > 8:
            continue
        x = prog.build(rng, d, tier, "sdp")
        if x is None:
            continue
        s, ops, sup = x
        h = prog.History(cm.Rec(), rng, d, s, ops, sup, "export")
        b = rec.block(scen.encode(d), feat=["supports" if sup else "sdp"])
        for _ in range(3):
            log = []
            for op in rng.choices(names, w, k=rng.randint(2, 5)):
                if not h.dead:
                    prog.History.OPS[op](h)
                    log.append(op)
            for _ in range(2):
                if not h.dead and s.semiknown_moments and rng.random() < .6:
                    h.op_bounds(1)         # a moment and a multiple of it, both with bounds
                    log.append("bounds")
            if h.dead or not export(rec, rng, b, s, work, log):
                break


cm.main(main)
