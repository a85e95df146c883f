"""The model time step follows the scenario's time axis."""
import datetime as dt

from symx.timeaxis import axis

from .common import *  # noqa: F401,F403
from .scen import META, meta, months, results, scenario, table, years

ASSUMPTIONS = [REALS, STUBS, EXP,
               "symbolic dates reach the code through ScmRun['time'] and ScmRun['year']"]


def expected(days, yrs):
    """'month', 'yr' or None for dates given in days and calendar years"""
    n = len(days)
    if n > 1 and all(bool(b - a >= 28) and bool(b - a <= 31) for a, b in zip(days, days[1:])):
        return "month"
    if all(bool(b - a == 1) for a, b in zip(yrs, yrs[1:])):
        return "yr"
    return None


def check(c, t, v, m, run_, F, want):
    if want is None:
        c.raises("no time step for this axis", NotImplementedError,
                 lambda: m.run_scenarios(run_, progress=False))
        return
    out = m.run_scenarios(run_, progress=False)
    c.eq("time step", m.delta_t.to("s").magnitude, ur.Quantity(1.0, want).to("s").magnitude)
    w = oracle(t, v)
    w.delta_t = Q(1, want)
    A, B, R = run(w, c.array(list(F)))
    tab = table(out)
    names_ = (("Surface Temperature|Upper", A), ("Surface Temperature|Lower", B)) if (
        t == "two_layer") else (("Surface Temperature|Box 1", A), ("Surface Temperature|Box 2", B))
    for k, s in names_ + (("Heat Uptake", R),):
        c.true(k + " is there", k in tab)
        c.eqs(k, tab[k][1], s)


def any_dates(c):
    t = kind(c)
    v = values(c, t)
    n = c.choose("n", list(range(1, c.tiered(3, 4) + 1)))
    cols, days, yrs = axis(c, n)
    F = list(forcing(c, n))
    want = expected(days, yrs)
    check(c, t, v, build(t, v), scenario([(meta(), F)], cols), F, want)


def D(y, m=1, d=1, h=0):
    return dt.datetime(y, m, d, h)


AXES = {
    "years": (years(4), "yr"),
    "one point": (years(1), "yr"),
    "two years": (years(2), "yr"),
    "1 July": ([D(y, 7, 1) for y in range(2000, 2004)], "yr"),
    "changing day of year": ([D(2000, 1, 5), D(2001, 12, 30), D(2002, 1, 1)], "yr"),
    "29 February": ([D(2004, 2, 29), D(2005, 2, 28), D(2006, 2, 28)], "yr"),
    "before 1900": ([D(y) for y in (1750, 1751, 1752)], "yr"),
    "beyond 2262": ([D(y) for y in (2299, 2300, 2301)], "yr"),
    "months": (months(5), "month"),
    "two months": (months(2), "month"),
    "December to January": (months(2, (2003, 12)), "month"),
    "over two year ends": (months(26, (2003, 11)), "month"),
    "February, leap year": ([D(2004, 1, 31), D(2004, 2, 29), D(2004, 3, 31)], "month"),
    "February": ([D(2005, 1, 31), D(2005, 2, 28), D(2005, 3, 31)], "month"),
    "mid month": ([D(2005, m, 15) for m in range(1, 13)], "month"),
    "28 days": ([D(2005) + dt.timedelta(days=28 * i) for i in range(5)], "month"),
    "31 days": ([D(2005) + dt.timedelta(days=31 * i) for i in range(5)], "month"),
    "32 days": ([D(2005) + dt.timedelta(days=32 * i) for i in range(5)], None),
    "27 days": ([D(2005) + dt.timedelta(days=27 * i) for i in range(5)], None),
    "31 days and an hour": ([D(2005), D(2005, 2, 1, 1)], None),
    "31 days and a second": ([D(2005), D(2005, 2) + dt.timedelta(seconds=1)], None),
    "31 days and 20 minutes": ([D(2005), D(2005, 2), D(2005, 3), D(2005, 3, 31) + dt.timedelta(days=1, minutes=20)], None),
    "a second less than 28 days": ([D(2005), D(2005, 1, 28, 23) + dt.timedelta(seconds=3599)], None),
    "28 days and some seconds": ([D(2005, 2, 1), D(2005, 3, 1) + dt.timedelta(seconds=7)], "month"),
    "days": ([D(2005, 1, i) for i in range(1, 6)], None),
    "decades": ([2000, 2010, 2020], None),
    "a gap": ([2000, 2001, 2003], None),
    "a gap at the end": ([2000, 2001, 2002, 2003, 2013], None),
    "a missing month": ([D(2005, m) for m in (1, 2, 4, 5)], None),
    "months then years": (months(3) + [D(2001), D(2002)], None),
    "years then months": ([D(1998), D(1999)] + months(3), None),
    "half years": ([D(2000), D(2000, 7), D(2001), D(2001, 7)], None),
    "quarters": ([D(2000), D(2000, 4), D(2000, 7)], None),
    "one year on average": ([D(2000), D(2000, 7), D(2002)], None),
    "a month on average": ([D(2005), D(2005, 1, 12), D(2005, 2, 28)], None),
    "a year in total": ([D(2000), D(2000, 4), D(2001)], None),
    "backwards by one at the end": ([D(2000), D(2001), D(2002), D(2002, 12)], None),
    "a gap in the middle": ([D(y) for y in (2000, 2001, 2002, 2005, 2006, 2007)], None),
    "a missing month in the middle": ([D(2005, m) for m in (1, 2, 3, 5, 6, 7)], None),
    "a late month in the middle": ([D(2005, 1), D(2005, 2), D(2005, 3), D(2005, 4, 15), D(2005, 5, 15),
                                    D(2005, 6, 15)], None),
    "an early month": ([D(2005, 1), D(2005, 2), D(2005, 2, 20), D(2005, 3, 20), D(2005, 4, 20)], None),
    "a year twice in the middle": ([D(2000), D(2001), D(2001, 3), D(2002), D(2003), D(2004)], None),
    "year ends": ([D(y, 12, 31) for y in (1999, 2000, 2001)], "yr"),
    "almost two years": ([D(2000, 1, 1), D(2001, 12, 31), D(2002, 1, 1)], "yr"),
    "long": (years(130, 1901), "yr"),
    "long, a gap": (years(60, 1901) + years(60, 1962), None),
    "long, monthly": (months(120, (1995, 5)), "month"),
    "two in one year": ([D(2000), D(2001), D(2001, 6), D(2002)], None),
}


def named_dates(c):
    """chosen dates, every forcing and parameter"""
    name = c.choose("axis", sorted(AXES))
    cols, want = AXES[name]
    t = "two_layer" if len(name) % 2 else "impulse"
    v = values(c, t)
    F = list(forcing(c, len(cols)))
    check(c, t, v, build(t, v), scenario([(meta(), F)], cols), F, want)


def own_step(c):
    """each of two scenarios gets its own time step"""
    t = kind(c)
    v = values(c, t)
    kinds_ = [c.choose("first", ["yr", "month", "none"]), c.choose("second", ["yr", "month", "none"])]
    ax = {"yr": [D(2000), D(2001), D(2002)], "month": months(3), "none": [D(2000), D(2000, 1, 9)]}
    cols = sorted(set(ax[kinds_[0]]) | set(ax[kinds_[1]]))
    rows, Fs = [], []
    for i, k in enumerate(kinds_):
        F = list(forcing(c, len(ax[k]), "F%d" % i))
        Fs.append(F)
        vals = [float("nan")] * len(cols)
        for x, f in zip(ax[k], F):
            vals[cols.index(x)] = f
        rows.append((meta("s%d" % i), vals))
    m = build(t, v)
    if "none" in kinds_:
        c.raises("no time step for one of them", NotImplementedError,
                 lambda: m.run_scenarios(scenario(rows, cols), progress=False))
        return
    out = m.run_scenarios(scenario(rows, cols), progress=False)
    for i, k in enumerate(kinds_):
        w = oracle(t, v)
        w.delta_t = Q(1, k)
        A, B, R = run(w, c.array(Fs[i]))
        tab = table(out, scenario="s%d" % i)
        got = [x for x in tab["Heat Uptake"][1] if not (isinstance(x, float) and x != x)]
        c.true("length %d" % i, len(got) == len(Fs[i]))
        c.eqs("uptake of scenario %d" % i, got, R)


def no_influence(c):
    """whatever time step the model had"""
    t = kind(c)
    v = values(c, t)
    k = c.choose("axis", ["years", "two months", "months"])
    cols, want = AXES[k]
    F = list(forcing(c, len(cols)))
    m = build(t, v)
    how = c.choose("step before", ["constructed", "set", "month", "another unit"])
    if how == "set":
        m.delta_t = Q(other_value(c, t, "delta_t", "dt"), UNITS[t]["delta_t"])
    elif how == "month":
        m.delta_t = Q(1, "month")
    elif how == "another unit":
        m.delta_t = Q(c.pos("dt", 1e4, typical=(2.0, 9.0)), "day")
    check(c, t, v, m, scenario([(meta(), F)], cols), F, want)


TWINS = {
    "years": ([D(2000), D(2001), D(2002)], [D(2000), D(2000, 7), D(2002)]),
    "years, many": (years(6), [D(2000), D(2001), D(2002), D(2002, 9), D(2004), D(2005)]),
    "months": ([D(2005, m) for m in (1, 2, 3, 4)], [D(2005), D(2005, 1, 12), D(2005, 2, 28), D(2005, 4)]),
    "a gap instead": ([D(2000), D(2001), D(2002), D(2003)], [D(2000), D(2001), D(2003)]),
    "same end": ([D(2001), D(2002), D(2003)], [D(1999), D(2001), D(2003)]),
    "same begin": ([D(2000), D(2001), D(2002)], [D(2000), D(2001), D(2005)]),
    "months or years": (months(3), [D(2000), D(2001), D(2002)]),
    "one point": ([D(2000)], [D(2000), D(2000, 2)]),
    "one point or no": ([D(2000)], [D(2000), D(2010)]),
    "same years": ([D(2000), D(2001), D(2002)], [D(2000, 1), D(2001, 3), D(2002, 2)]),
    "same months": ([D(2000), D(2000, 2), D(2000, 3)], [D(2000), D(2000, 2), D(2000, 3, 31)]),
}


def seen_before(c):
    """a similar time axis seen earlier, by this or another model of its kind"""
    name = c.choose("axes", sorted(TWINS))
    cols = list(TWINS[name])
    if c.flag("other first"):
        cols.reverse()
    t = "two_layer" if len(name) % 2 else "impulse"
    v = values(c, t)
    m = build(t, v)
    G = [0.25 * (i + 1) for i in range(len(cols[0]))]
    first = m if c.flag("same model") else build(t, v)
    try:
        first.run_scenarios(scenario([(meta(), G)], cols[0]), progress=False)
    except NotImplementedError:
        pass
    F = list(forcing(c, len(cols[1])))
    days = [(x if isinstance(x, dt.datetime) else D(x)).toordinal() for x in cols[1]]
    yrs = [x.year if isinstance(x, dt.datetime) else x for x in cols[1]]
    check(c, t, v, m, scenario([(meta(), F)], cols[1]), F, expected(days, yrs))


def in_code(c):
    """axes as long as the numbers in the package's code, regular or with one gap"""
    n = c.choose("n", [k for k in world.sizes(3, 150, c.tiered(10, 40))])
    ax = c.choose("axis", ["yr", "month"])
    at = c.choose("gap", ["no", "first", "middle", "last"])
    cols = [D(1901 + i) for i in range(n + 1)] if ax == "yr" else months(n + 1, (1901, 5))
    out = {"no": n, "first": 1, "middle": n // 2, "last": n - 1}[at]
    del cols[out]
    t = "two_layer" if n % 2 else "impulse"
    v = values(c, t)
    F = list(c.vec("F", 2, -20, 20)) + [0.5] * (n - 2)
    check(c, t, v, build(t, v), scenario([(meta(), F)], cols), F, ax if at == "no" else None)


O = dict(nocut=True, budget=(150, 600))
HARNESSES = [
    H("any_dates", any_dates, bounds="1 to 3 (thorough: 4) increasing dates by the second between 1700 and "
      "2300 (first), up to 3 years apart", **O),
    H("named_dates", named_dates, bounds="48 chosen time axes, every forcing", **O),
    H("seen_before", seen_before, bounds="%d pairs of similar axes, either first, same or another model"
      % len(TWINS), **O),
    H("in_code", in_code, bounds="regular axes and axes with a gap, about as long as the whole numbers "
      "among the code's constants (up to 150)", max_witnesses=2, **O),
    H("own_step", own_step, bounds="2 scenarios, 9 pairs of time axes", **O),
    H("no_influence", no_influence, bounds="3 time axes, 4 kinds of earlier time steps of any size", **O),
]
