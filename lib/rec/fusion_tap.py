"""Reads the conic program a Fusion model hands to MOSEK at the moment it would be solved.

The optimiser has no licence here: `solve` writes the task, reads it back through MOSEK's own accessors
into SEEN, asks ANSWER for values (by task index) and the solution accessors return those.
"""
import os
import mosek
import mosek.fusion as fu
import numpy as np
from mosek_tap import kind

SEEN, ANS = [], [None]
ANSWER = [lambda task: {}]
RealTask = mosek.Task


def read(path):
    with mosek.Env() as env, RealTask(env) as t:
        t.readdata(path)
        n, m, nb = t.getnumvar(), t.getnumcon(), t.getnumbarvar()
        if t.getnumacc() or t.getnumcone():
            raise RuntimeError("cones other than the semidefinite one")
        dims = [t.getdimbarvarj(j) for j in range(nb)]
        rows = []
        for i in range(m):
            _, sub, val = t.getarow(i)
            acc = {}
            for j, v in zip(sub, val):
                acc[j] = acc.get(j, 0) + v
            rows.append(sorted((j, v) for j, v in acc.items() if v))

        def trip(r, lead):
            return list(zip(*r[1:])) if r[0] else []
        bara = trip(t.getbarablocktriplet(), 2)          # (row, bar, k, l, v), k >= l
        barc = trip(t.getbarcblocktriplet(), 1)          # (bar, k, l, v)
        return dict(numvar=n, numcon=m, dims=dims, c=list(t.getc()) if n else [], cfix=t.getcfix(), rows=rows,
                    con=[(kind(b[0]), b[1], b[2]) for b in (t.getconbound(i) for i in range(m))],
                    var=[(kind(b[0]), b[1], b[2]) for b in (t.getvarbound(j) for j in range(n))],
                    bara=bara, barc=barc, sense="max" if t.getobjsense() == mosek.objsense.maximize else "min")


def entry(task, k):
    """native index of a matrix entry -> (matrix, row, column)"""
    for j, d in enumerate(task["dims"]):
        w = d * (d + 1) // 2
        if k < w:
            for q in range(d):
                if k < d - q:
                    return j, q + k, q
                k -= d - q
        k -= w
    raise IndexError(k)


def slack(task, y):
    """the dual matrices that go with the multipliers y: C - sum y_i A_i"""
    S = [np.zeros((d, d)) for d in task["dims"]]
    for j, k, l, v in task["barc"]:
        S[j][k, l] += v
        if k != l:
            S[j][l, k] += v
    for i, j, k, l, v in task["bara"]:
        S[j][k, l] -= y[i] * v
        if k != l:
            S[j][l, k] -= y[i] * v
    return S


def native(obj, name):
    return np.atleast_1d(getattr(obj, name)).ravel()


def var_level(self, *a):
    t, s = SEEN[-1], ANS[0]
    out = []
    for k in native(self, "_BaseVariable__basevar_nativeidxs"):
        if k >= 0:
            out.append(s["xx"][k])
        else:
            j, p, q = entry(t, -int(k) - 1)
            out.append(s["X"][j][p, q])
    return np.array(out, dtype=float)


def var_dual(self, *a):
    t, s = SEEN[-1], ANS[0]
    out = []
    for k in native(self, "_BaseVariable__basevar_nativeidxs"):
        if k >= 0:
            out.append(t["c"][k] - sum(y * dict(r).get(k, 0) for y, r in zip(s["y"], t["rows"])))
        else:
            j, p, q = entry(t, -int(k) - 1)
            out.append(s["S"][j][p, q])
    return np.array(out, dtype=float)


def con_dual(self, *a):
    return np.array([ANS[0]["y"][k] for k in native(self, "_Constraint__con_nativeidxs")], dtype=float)


def solve(self, *a):
    path = os.path.join(os.environ.get("VERIF_WORK", "/tmp"), f"fusion{os.getpid()}.jtask")
    self.writeTask(path)
    try:
        t = read(path)
    finally:
        os.unlink(path)
    SEEN.append(t)
    s = ANSWER[0](t)
    s.setdefault("S", slack(t, s["y"]))
    ANS[0] = s


def status(self, *a):
    return getattr(fu.ProblemStatus, ANS[0]["status"])


def install():
    B, C, M = fu.BaseVariable if hasattr(fu, "BaseVariable") else None, fu.Constraint, fu.Model
    if B is None:
        with fu.Model() as m:
            B = [k for k in type(m.variable(1)).__mro__ if k.__name__ == "BaseVariable"][0]
    B.level, B.dual, C.dual = var_level, var_dual, con_dual
    M.solve, M.getProblemStatus = solve, status
    M.getPrimalSolutionStatus = M.getDualSolutionStatus = lambda self, *a: fu.SolutionStatus.Optimal
    M.primalObjValue = lambda self: ANS[0]["p"]
    M.dualObjValue = lambda self: ANS[0]["d"]
    M.getSolverIntInfo = lambda self, *a: int(mosek.rescode.trm_max_iterations.value if hasattr(mosek.rescode.trm_max_iterations, "value")
                                              else mosek.rescode.trm_max_iterations)
