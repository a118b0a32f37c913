"""A stand-in for the optimiser: answers a recorded task with an exact-in-principle dual solution.

Linear tasks go to HiGHS; a proof of infeasibility is found as the optimum of an auxiliary program.
Semidefinite tasks are reduced to linear ones over rank-one matrices v v' with integer v (cuts in the
direct form, columns in the dual form), so the dual matrices returned are positive semidefinite by
construction.  Answers are in MOSEK's conventions (multipliers of a maximisation have the signs of
derivatives of the optimum).
"""
import numpy as np
from scipy.optimize import linprog

INF = 1e20


def highs(c, A, bl, bu, xl, xu):
    """min c.x, bl <= A x <= bu, xl <= x <= xu"""
    eq = [i for i in range(len(bl)) if bl[i] == bu[i]]
    lo = [i for i in range(len(bl)) if bl[i] != bu[i] and bl[i] > -INF]
    up = [i for i in range(len(bl)) if bl[i] != bu[i] and bu[i] < INF]
    kw = {}
    if eq:
        kw.update(A_eq=A[eq], b_eq=bu[eq])
    if lo or up:
        kw.update(A_ub=np.vstack([-A[lo], A[up]]), b_ub=np.concatenate([-bl[lo], bu[up]]))
    r = linprog(c, bounds=[(l if l > -INF else None, u if u < INF else None) for l, u in zip(xl, xu)], method="highs", **kw)
    y = np.zeros(len(bl))
    if r.status == 0:
        if eq:
            y[eq] = r.eqlin.marginals
        if lo or up:
            m = r.ineqlin.marginals
            for k, i in enumerate(lo):
                y[i] -= m[k]
            for k, i in enumerate(up):
                y[i] += m[len(lo) + k]
    return r, y


def farkas(A, bl, bu, xl, xu):
    """y with sup over the box of y.A x below the least y.b: no x satisfies the constraints; None if none was found"""
    m, n = A.shape
    # y = s - t, -A'y = p - q; maximise bl.s - bu.t + xl.p - xu.q
    fin = lambda v: np.where(np.abs(v) < INF, v, 0.0)
    c = -np.concatenate([fin(bl), -fin(bu), fin(xl), -fin(xu)])
    M = np.hstack([A.T, -A.T, np.eye(n), -np.eye(n)])
    ub = np.concatenate([bl > -INF, bu < INF, xl > -INF, xu < INF]).astype(float)
    r = linprog(c, A_eq=M, b_eq=np.zeros(n), A_ub=np.ones((1, len(c))), b_ub=[1.0],
                bounds=[(0, None if u else 0) for u in ub], method="highs")
    if r.status != 0 or r.fun > -1e-7:
        return None
    s, t, p, q = np.split(r.x, np.cumsum([m, m, n]))
    return s - t, p - q, -r.fun


def ray(c, A, bl, bu, xl, xu):
    """direction along which min c.x has no lower bound"""
    h = lambda v: np.where(np.abs(v) < INF, 0.0, v)
    r, _ = highs(c, A, h(bl), h(bu), np.maximum(h(xl), -1), np.minimum(h(xu), 1))
    if r.status != 0 or r.fun > -1e-7:
        return None
    return r.x


def tidy(x):
    """drop noise and make the smallest entry one"""
    x = np.where(np.abs(x) < 1e-9 * max(1e-300, np.abs(x).max()), 0.0, x)
    nz = np.abs(x[x != 0])
    return x / nz.min() if len(nz) and nz.max() / nz.min() < 1e4 else x


def bounds(bs):
    bl, bu = np.full(len(bs), -1e30), np.full(len(bs), 1e30)
    for i, (k, l, u) in enumerate(bs):
        if k in ("lo", "fx", "ra"):
            bl[i] = l
        if k in ("up", "fx", "ra"):
            bu[i] = u
        if k == "fx":
            bu[i] = l
    return bl, bu


def dense(t, n=None):
    A = np.zeros((t["numcon"], n or t["numvar"]))
    for i, r in enumerate(t["rows"]):
        for j, v in r:
            A[i, j] += v
    return A


def lp_answer(t):
    """dict(sta, xx, y, p, d, extra): extra is what the bounds of the variables contribute to y.b"""
    s = 1 if t["sense"] == "min" else -1
    A, c = dense(t), np.array(t["c"], dtype=float)
    bl, bu = bounds(t["con"])
    xl, xu = bounds(t["var"])
    r, y = highs(s * c, A, bl, bu, xl, xu)
    n, m = t["numvar"], t["numcon"]
    if r.status == 0:
        z = s * c - A.T @ y
        extra = sum((zz * (xl[j] if zz > 0 else xu[j]) for j, zz in enumerate(z) if abs(zz) > 1e-9))
        v = s * r.fun + t["cfix"]
        return dict(sta="optimal", xx=r.x, y=s * y, p=v, d=v, extra=s * extra)
    f = farkas(A, bl, bu, xl, xu)
    if f is not None:
        y, z, v = f
        k = tidy(np.concatenate([y, z]))
        f = np.abs(k).max() / max(1e-300, np.abs(np.concatenate([y, z])).max())
        y, z, v = k[:m], k[m:], v * f
        extra = sum((zz * (xl[j] if zz > 0 else xu[j]) for j, zz in enumerate(z) if abs(zz) > 1e-9))
        return dict(sta="prim_infeas_cer", xx=np.zeros(n), y=s * y, p=0.0, d=s * v, extra=s * extra)
    x = ray(s * c, A, bl, bu, xl, xu)
    if x is not None:
        x = tidy(x)
        return dict(sta="dual_infeas_cer", xx=x, y=np.zeros(m), p=s * float(c @ x), d=0.0, extra=0.0)
    return dict(sta="unknown", xx=np.zeros(n), y=np.zeros(m), p=0.0, d=0.0, extra=0.0)


# ------------------------------------------------------------------ semidefinite
def barmats(t):
    d = t["dims"][0]
    Am = np.zeros((t["numcon"], d, d))
    for i, j, k, l, v in t["bara"]:
        Am[i, k, l] += v
        if k != l:
            Am[i, l, k] += v
    C = np.zeros((d, d))
    for j, k, l, v in t["barc"]:
        C[k, l] += v
        if k != l:
            C[l, k] += v
    return d, Am, C


def intvec(S, V):
    """an integer vector along which the symmetric matrix S is negative, not used before; None if S is (almost) positive"""
    w, U = np.linalg.eigh((S + S.T) / 2)
    out = []
    for k in range(len(w)):
        if w[k] > -1e-7 * max(1.0, np.abs(w).max()):
            break
        u = U[:, k] / np.abs(U[:, k]).max()
        for q in (1, 2, 4, 8, 16, 64, 256):
            v = np.round(u * q)
            if v.any() and v @ S @ v < -1e-8 * (v @ v) and tuple(v) not in V:
                out.append(v)
                break
    return out


def start(d):
    V = {}
    for i in range(d):
        e = np.zeros(d)
        e[i] = 1
        V[tuple(e)] = e
        for j in range(i):
            for sg in (1, -1):
                f = e.copy()
                f[j] = sg
                V[tuple(f)] = f
    return V


def direct_form(t):
    rows = {}
    for i, j, k, l, v in t["bara"]:
        rows.setdefault(i, []).append((k, l))
    return not t["barc"] and all(len(r) == 1 for r in rows.values()) and \
        len({r[0] for r in rows.values()}) == len(rows) == t["dims"][0] * (t["dims"][0] + 1) // 2


NONE = dict(sta="unknown")


def sdp_answer(t, rounds=60):
    """dict(sta: optimal / prim_infeas / dual_infeas / unknown, xx, y, X, S, p, d)"""
    if not t["dims"]:
        a = lp_answer(t)
        a["X"] = []
        a["sta"] = dict(optimal="optimal", prim_infeas_cer="prim_infeas", dual_infeas_cer="dual_infeas", unknown="unknown")[a["sta"]]
        return a
    return direct(t, rounds) if direct_form(t) else columns(t, rounds)


def direct(t, rounds):
    d, Am, C = barmats(t)
    n, m = t["numvar"], t["numcon"]
    s = 1 if t["sense"] == "min" else -1
    cells = [(p, q) for p in range(d) for q in range(p + 1)]
    A = np.hstack([dense(t), np.array([[Am[i, p, q] * (1 if p == q else 2) for p, q in cells] for i in range(m)]).reshape(m, len(cells))])
    c = s * np.concatenate([t["c"], np.zeros(len(cells))])
    bl, bu = bounds(t["con"])
    xl, xu = bounds(t["var"])
    xl, xu = np.concatenate([xl, np.full(len(cells), -1e30)]), np.concatenate([xu, np.full(len(cells), 1e30)])
    V = start(d)
    cut = lambda v: np.concatenate([np.zeros(n), [v[p] * v[q] * (1 if p == q else 2) for p, q in cells]])
    for _ in range(rounds):
        vs = list(V.values())
        B = np.vstack([A] + [cut(v) for v in vs])
        l2, u2 = np.concatenate([bl, np.zeros(len(vs))]), np.concatenate([bu, np.full(len(vs), 1e30)])
        r, y = highs(c, B, l2, u2, xl, xu)
        if r.status == 0:
            x = r.x
        else:
            f = farkas(B, l2, u2, xl, xu)
            if f is not None:
                y, val = f[0] / np.abs(f[0]).max(), f[2] / np.abs(f[0]).max()
                S = sum((y[m + k] * np.outer(v, v) for k, v in enumerate(vs)), np.zeros((d, d)))
                return dict(sta="prim_infeas", xx=np.zeros(n), X=[np.zeros((d, d))], y=s * y[:m], S=[s * S], p=0.0, d=s * val)
            q, _ = highs(c, B, l2, u2, np.maximum(xl, -50), np.minimum(xu, 50))
            if q.status != 0:
                return NONE
            x = q.x
        X = np.zeros((d, d))
        for k, (p, q) in enumerate(cells):
            X[p, q] = X[q, p] = x[n + k]
        new = intvec(X, V)
        if not new:
            if r.status != 0:
                return NONE
            S = sum((y[m + k] * np.outer(v, v) for k, v in enumerate(vs)), np.zeros((d, d)))
            val = s * r.fun + t["cfix"]
            return dict(sta="optimal", xx=x[:n], X=[X], y=s * y[:m], S=[s * S], p=val, d=val)
        for v in new:
            V[tuple(v)] = v
    return NONE


def columns(t, rounds):
    d, Am, C = barmats(t)
    n, m = t["numvar"], t["numcon"]
    s = 1 if t["sense"] == "min" else -1
    A0 = dense(t)
    bl, bu = bounds(t["con"])
    xl, xu = bounds(t["var"])
    V = start(d)
    for _ in range(rounds):
        vs = list(V.values())
        A = np.hstack([A0, np.array([[v @ Am[i] @ v for v in vs] for i in range(m)]).reshape(m, len(vs))])
        c = s * np.concatenate([t["c"], [v @ C @ v for v in vs]])
        l2, u2 = np.concatenate([xl, np.zeros(len(vs))]), np.concatenate([xu, np.full(len(vs), 1e30)])
        mat = lambda x: sum((x[n + k] * np.outer(v, v) for k, v in enumerate(vs)), np.zeros((d, d)))
        r, y = highs(c, A, bl, bu, l2, u2)
        if r.status == 0:
            S = s * C - np.tensordot(y, Am, 1)
            new = intvec(S, V)
            if not new:
                val = s * r.fun + t["cfix"]
                return dict(sta="optimal", xx=r.x[:n], X=[mat(r.x)], y=s * y, p=val, d=val)
        else:
            f = farkas(A, bl, bu, l2, u2)
            if f is None:
                x = ray(c, A, bl, bu, l2, u2)
                if x is None:
                    return NONE
                x = x / np.abs(x).max()
                return dict(sta="dual_infeas", xx=x[:n], X=[mat(x)], y=np.zeros(m), S=[np.zeros((d, d))], p=s * float(c @ x), d=0.0)
            new = intvec(-np.tensordot(f[0], Am, 1), V)
            if not new:
                return NONE
        for v in new:
            V[tuple(v)] = v
    return NONE
