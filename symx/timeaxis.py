"""
Symbolic time axes: the dates of a scenario become integers (seconds since 1970).

A scenario is built on placeholder dates; ``ScmRun["time"]`` and ``ScmRun["year"]`` (the two
ways scmdata offers to read a time axis) return the symbolic dates (in days) and calendar years
for them.  Concretely, the real dates are used and nothing is stubbed.
"""
import datetime as dt
from fractions import Fraction

import numpy as np
import z3

from . import core
from .core import Sym

_PLACE = {}
_installed = False
EPOCH = dt.datetime(1970, 1, 1)
ORD = EPOCH.toordinal()
DAY = 86400


def _patch():
    global _installed
    if _installed:
        return
    _installed = True
    import pandas as pd
    from scmdata.run import BaseScmRun

    real = BaseScmRun.__getitem__

    def getitem(self, key):
        if _PLACE and isinstance(key, str) and key in ("time", "year"):
            pts = [np.datetime64(x, "s") for x in self._time_points.values]
            if pts and all(p in _PLACE for p in pts):
                vals = [_PLACE[p][0 if key == "time" else 1] for p in pts]
                out = np.empty(len(vals), dtype=object)
                for i, v in enumerate(vals):
                    out[i] = v
                return pd.Series(out, dtype=object)
        return real(self, key)

    BaseScmRun.__getitem__ = getitem


def year_of(c, name, secs):
    """calendar year of a symbolic date (proleptic Gregorian calendar)"""
    y = c.int("year of " + name)
    day = z3.ToInt(z3.ToReal(secs.t) / DAY) + ORD

    def first(yy):
        p = yy - 1
        return 365 * p + p / 4 - p / 100 + p / 400 + 1

    c.assume(Sym(day) >= Sym(first(y.t)))
    c.assume(Sym(day) < Sym(first(y.t + 1)))
    return y


def axis(c, n, lo=-270 * 365 * DAY, hi=330 * 365 * DAY, span=3 * 366 * DAY, slot=0):
    """(columns, [time in days], [year]) of n increasing dates"""
    hs = [c.int("s%d[%d]" % (slot, i)) for i in range(n)]
    c.assume(hs[0] >= lo)
    c.assume(hs[0] <= hi)
    for a, b in zip(hs, hs[1:]):
        c.assume(a < b)
        c.assume(b - a <= span)
    if not c.symbolic:
        cols = [EPOCH + dt.timedelta(seconds=h) for h in hs]
        return cols, [Fraction(int(h), DAY) for h in hs], [x.year for x in cols]
    _patch()
    if slot == 0:
        _PLACE.clear()
    cols = [dt.datetime(3000 + 100 * slot + i, 1, 1) for i in range(n)]
    days, yrs = [], []
    for i, (h, col) in enumerate(zip(hs, cols)):
        d = Sym(z3.ToReal(h.t)) / DAY
        y = year_of(c, "%d[%d]" % (slot, i), h)
        _PLACE[np.datetime64(col, "s")] = (d, y)
        days.append(d)
        yrs.append(y)
    return cols, days, yrs
