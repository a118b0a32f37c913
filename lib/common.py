"""Recorder-side helpers (run inside the interpreter that imports the code under test)."""
import json
import os
import random
import sys
import traceback
import warnings
from fractions import Fraction

warnings.simplefilter("ignore")


class Rec:
    def __init__(self):
        self.blocks = []

    def block(self, inp, **kw):
        b = dict(inp=inp, ev=[])
        b.update(kw)
        self.blocks.append(b)
        return b

    def ev(self, b, k, **kw):
        e = dict(k=k)
        e.update(kw)
        b["ev"].append(e)
        return e


def rat(x):
    """Exact rational of a float as [num, den]; values TLC's 32-bit integers cannot hold become [0, 0]."""
    try:
        f = Fraction(x).limit_denominator(10 ** 12) if not isinstance(x, float) else Fraction(x)
    except (TypeError, ValueError, OverflowError):
        try:
            f = Fraction(float(x))
        except (TypeError, ValueError, OverflowError):
            return [0, 0]
    if abs(f.numerator) > 2 ** 30 or f.denominator > 2 ** 30:
        g = f.limit_denominator(20000)
        if abs(f - g) < Fraction(1, 10 ** 9):
            f = g
    if abs(f.numerator) > 2 ** 30 or f.denominator > 2 ** 30:
        return [0, 0]
    return [f.numerator, f.denominator]


def exc(e):
    tb = traceback.extract_tb(e.__traceback__)
    where = "%s:%s" % (os.path.basename(tb[-1].filename), tb[-1].name) if tb else ""
    return "%s: %s @ %s" % (type(e).__name__, str(e)[:120].replace("\n", " "), where)


def main(fn):
    """fn(rec, rng, tier, shard, nshards); does nothing when the recorder is imported by another one"""
    if sys._getframe(1).f_globals.get("__name__") != "__main__":
        return
    out, seed, tier, shard, nshards = sys.argv[1], int(sys.argv[2]), sys.argv[3], int(sys.argv[4]), int(sys.argv[5])
    rec = Rec()
    rng = random.Random(seed * 7919 + shard * 104729 + 17)
    fn(rec, rng, tier, shard, nshards)
    with open(out, "w") as f:
        json.dump(rec.blocks, f)
