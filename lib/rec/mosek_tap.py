"""Reads the optimisation task back through MOSEK's own accessors at the moment it would be solved.

The optimiser itself has no licence here; `optimize` records the task and the solution accessors
return whatever `ANSWER` says (a function from the recorded task to a dictionary).
"""
import mosek
import numpy as np

SEEN = []
ANSWER = [lambda task: {}]
_Task = mosek.Task


def kind(bk):
    return repr(bk).split(".")[-1]


def read(t):
    n, m = t.getnumvar(), t.getnumcon()
    rows = []
    for i in range(m):
        _, sub, val = t.getarow(i)
        acc = {}
        for j, v in zip(sub, val):
            acc[j] = acc.get(j, 0) + v
        rows.append(sorted((j, v) for j, v in acc.items() if v))
    return dict(numvar=n, numcon=m, c=list(t.getc()) if n else [], cfix=t.getcfix(), rows=rows,
                con=[(kind(b[0]), b[1], b[2]) for b in (t.getconbound(i) for i in range(m))],
                var=[(kind(b[0]), b[1], b[2]) for b in (t.getvarbound(j) for j in range(n))],
                sense="max" if t.getobjsense() == mosek.objsense.maximize else "min")


class Tap(_Task):
    def optimize(self, *a):
        self._read = read(self)
        SEEN.append(self._read)
        self._ans = ANSWER[0](self._read)
        return self._ans.get("code", mosek.rescode.ok)

    def _vec(self, k, n):
        return list(self._ans.get(k, [0.0] * n))

    def getsolution(self, which):
        r = self._read
        n, m = r["numvar"], r["numcon"]
        sk = [mosek.stakey.unk]
        return (self._ans.get("prosta", mosek.prosta.prim_and_dual_feas), self.getsolsta(which), sk * m, sk * n, [],
                self._vec("xc", m), self._vec("xx", n), self._vec("y", m), self._vec("slc", m), self._vec("suc", m),
                self._vec("slx", n), self._vec("sux", n), self._vec("snx", n))

    def getsolsta(self, which):
        return self._ans.get("solsta", mosek.solsta.optimal)

    def getprosta(self, which):
        return self._ans.get("prosta", mosek.prosta.prim_and_dual_feas)

    def getxx(self, which):
        return self._vec("xx", self._read["numvar"])

    def gety(self, which):
        return self._vec("y", self._read["numcon"])

    def getslx(self, which):
        return self._vec("slx", self._read["numvar"])

    def getsux(self, which):
        return self._vec("sux", self._read["numvar"])

    def getprimalobj(self, which):
        return self._ans.get("primalobj", 0.0)

    def getdualobj(self, which):
        return self._ans.get("dualobj", 0.0)


def install():
    mosek.Task = Tap
