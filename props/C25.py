"""Results do not depend on when the forcing happens."""
import datetime as dt

from .C15 import same_table
from .common import *  # noqa: F401,F403
from .scen import meta, months, results, scenario, table, years

ASSUMPTIONS = [REALS, STUBS, EXP]


def delayed(c):
    """k points without forcing first: the same results, k points later"""
    t = kind(c)
    v = values(c, t)
    k = c.choose("k", [1, 2, c.tiered(5, 20)] + code_sizes(c, quick=(130, 4), thorough=(600, 20)))
    n = c.choose("n", [1, 3]) if k < 6 else 2
    F = forcing(c, n)
    m = build(t, v)
    x = run(m, c.array([0.0] * k + list(F)))
    observe_state(c, m)
    y = run(oracle(t, v), F)
    for nm, p, q in zip(names(m), x, y):
        c.true(nm + " length", len(p) == n + k)
        for i in range(k):
            c.eq("%s[%d] before the forcing" % (nm, i), p[i], 0.0)
        for i in range(n):
            c.eq("%s[%d] delayed" % (nm, i), p[k + i], q[i])


def far(c):
    """many points without forcing first"""
    t = kind(c)
    v = values(c, t)
    n, F = far_run(c)
    x = run(build(t, v), F)
    y = run(oracle(t, v), c.array(list(F)[-4:]))
    for nm, p, q in zip("ABR", x, y):
        c.true(nm + " length", len(p) == n)
        for i in range(4):
            c.eq("%s[%d] delayed" % (nm, i), p[n - 4 + i], q[i])


def any_position(c):
    """one step from the same state at two positions of a run"""
    t = kind(c)
    v = values(c, t)
    n, j = c.choose("points and position", [(4, 1), (4, 2), (4, 3)] + [(k, k - 1) for k in code_sizes(c)])
    f = c.real("f", -20, 20)
    A0, B0 = c.real("A0", -50, 50), c.real("B0", -50, 50)

    def go(m, n, at):
        F = list(forcing(c, min(n, 4), "other%d" % at)) + [0.5] * (n - 4)
        F[at - 1] = f
        drive(m, c.array(F))
        for _ in range(at):
            m.step()
        poke(m, at - 1, (A0, B0))
        m.step()
        A, B, R = state(m)
        return A[at], B[at], R[at]

    x = go(build(t, v), n, j)
    y = go(oracle(t, v), 4, 1 if j != 1 else 3)
    for nm, p, q in zip("ABR", x, y):
        c.observe(nm, p)
        c.eq("step of " + nm, p, q, scale=100 * (c.abs(f) + c.abs(A0) + c.abs(B0)))


def dates(start, n):
    kind_, y, m, d = start
    if kind_ == "yr":
        return [dt.datetime(y + i, m, d) for i in range(n)]
    return [dt.datetime(y + (m - 1 + i) // 12, (m - 1 + i) % 12 + 1, d) for i in range(n)]


STARTS = [("yr", y, 1, 1) for y in (1500, 1600, 1700, 1750, 1850, 1899, 1900, 1969, 1970, 1999, 2000, 2015,
                                    2020, 2023, 2038, 2099, 2100, 2261, 2262, 2299, 2500, 3000)]
STARTS += [("yr", 2010, 7, 1), ("yr", 2010, 12, 31), ("yr", 2003, 2, 28), ("yr", 1999, 6, 30)]
STARTS += [("month", 2000, m, 1) for m in range(1, 13)]
STARTS += [("month", 1850, 1, 1), ("month", 1999, 11, 15), ("month", 2003, 12, 5), ("month", 2100, 1, 1),
           ("month", 2262, 3, 1), ("month", 1700, 5, 28)]


def in_code():
    """dates around the years that occur in the package's code"""
    ys = [y for y in world.numbers(1000, 9990)][:10]
    return [(k, y + d, m, 1) for y in ys for k, m in (("yr", 1), ("yr", 7), ("month", 1), ("month", 12))
            for d in (-2, -1, 0)]


def label(s):
    return "%s from %d-%02d-%02d" % s


def calendar(c):
    """the same values on other dates"""
    t = kind(c)
    starts = {label(x): x for x in STARTS + in_code()}
    s = starts[c.choose("start", list(starts))]
    v = values(c, t)
    F = list(forcing(c, 3))
    ref = ("yr", 2005, 1, 1) if s[0] == "yr" else ("month", 2005, 8, 1)
    a = results(c, build(t, v), scenario([(meta(), F)], dates(s, 3)))
    b = results(c, oracle(t, v), scenario([(meta(), F)], dates(ref, 3)))
    for n in sorted(a):
        if n != "Effective Radiative Forcing":
            c.observe(n, a[n][1][-1])
    same_table(c, "on other dates", b, a)


def delayed_scenario(c):
    """years or months without forcing first"""
    t = kind(c)
    v = values(c, t)
    k = c.choose("k", [1, 3])
    F = list(forcing(c, 2))
    ax = c.choose("axis", ["yr", "month"])
    start = (ax, 1998, 12, 1)
    a = results(c, build(t, v), scenario([(meta(), [0.0] * k + F)], dates(start, 2 + k)))
    b = results(c, oracle(t, v), scenario([(meta(), F)], dates(start, 2 + k)[k:]))
    c.true("variables", sorted(a) == sorted(b))
    for n in sorted(a):
        for i in range(k):
            c.eq("%s[%d] before the forcing" % (n, i), a[n][1][i], 0.0)
        for i in range(2):
            c.eq("%s[%d] delayed" % (n, i), a[n][1][k + i], b[n][1][i])


O = dict(nocut=True, budget=(150, 600))
HARNESSES = [
    H("delayed", delayed, budget=(150, 500), bounds="1, 2 and 5 (thorough: 20) points, and sizes near the code's constants, without forcing before up to 3 points "
      "of any forcing"),
    H("far", far, **dict(FAR, nocut=True)),
    H("any_position", any_position, bounds="one step from any state at positions 1 to 3 of a run of 4 and "
      "at the end of runs of sizes near the code's constants"),
    H("calendar", calendar, bounds="3 points, %d first dates between 1500 and 3000, and dates around "
      "every year among the code's constants, yearly and monthly" % len(STARTS), **O),
    H("delayed_scenario", delayed_scenario, bounds="1 or 3 points without forcing before 2 of any", **O),
]
