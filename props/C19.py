"""Missing values never turn into results."""
from openscm_twolayermodel.errors import ModelStateError

from .common import *  # noqa: F401,F403
from .scen import DRIVER, META, NAN, frame, jan, meta, months, outputs, results, scenario, table, years

from scmdata.run import ScmRun

ASSUMPTIONS = [REALS, STUBS, EXP]


def isnan(x):
    return isinstance(x, (float, np.floating)) and x != x


def by_time(out, **sel):
    """{variable: {year-month: value}}"""
    ts = out.timeseries()
    nm = list(ts.index.names)
    res = {}
    for lab, vals in zip(ts.index, ts.values):
        m = dict(zip(nm, lab))
        if all(m.get(k) == v for k, v in sel.items()):
            res[m["variable"]] = {(x.year, x.month): v for x, v in zip(ts.columns, vals)}
    return res


def compare(c, label, t, v, step, out, cols, F, **sel):
    """out has the results of the points of F that are not NaN, and nothing elsewhere"""
    keep = [i for i, f in enumerate(F) if not isnan(f)]
    w = oracle(t, v)
    w.delta_t = Q(1, step)
    A, B, R = run(w, c.array([F[i] for i in keep]))
    exp = outputs(t, A, B, R)
    exp[DRIVER] = [F[i] for i in keep]
    got = by_time(out, **sel)
    c.true(label + ": variables", sorted(got) == sorted(exp))
    for k in exp:
        for j, i in enumerate(keep):
            p = (cols[i].year, cols[i].month)
            c.true("%s: %s has point %d" % (label, k, i), p in got[k] and not isnan(got[k][p]))
            c.eq("%s: %s[%d]" % (label, k, i), got[k][p], exp[k][j])
        for i, f in enumerate(F):
            if isnan(f):
                c.true("%s: no %s at point %d" % (label, k, i),
                       isnan(got[k].get((cols[i].year, cols[i].month), NAN)))
    return w


def ends(c, n):
    """which points are missing: any number at the start and at the end"""
    a = c.choose("missing at the start", list(range(n)))
    b = c.choose("missing at the end", list(range(n - a)))
    return [i < a or i >= n - b for i in range(n)]


def missing_ends(c):
    """one scenario without data at its ends, and one that has all"""
    t = kind(c)
    v = values(c, t)
    n = c.tiered(4, 5)
    step = c.choose("step", ["yr", "month"])
    cols = jan(n) if step == "yr" else months(n)
    miss = ends(c, n)
    F, G = list(forcing(c, n)), list(forcing(c, n, "G"))
    F = [NAN if x else f for x, f in zip(miss, F)]
    if step == "month" and sum(not x for x in miss) == 1:
        step1 = "yr"  # a single point: the step does not matter
    else:
        step1 = step
    rows = [(meta("a"), F), (meta("b"), G)]
    m = build(t, v)
    out = m.run_scenarios(scenario(rows, cols), progress=False)
    w = compare(c, "with missing", t, v, step1, out, cols, F, scenario="a")
    for nm, s in zip(names(w), state(w)):
        c.observe(nm, s)
    compare(c, "complete", t, v, step, out, cols, G, scenario="b")


def alone(c):
    """a single scenario whose first or last points are missing"""
    t = kind(c)
    v = values(c, t)
    n = 4
    step = c.choose("step", ["yr", "month"])
    cols = jan(n) if step == "yr" else months(n)
    F = [NAN if x else f for x, f in zip(ends(c, n), forcing(c, n))]
    if sum(not isnan(f) for f in F) == 1:
        step = "yr"
    as_frame = c.flag("as frame")
    rows = [(meta("a"), F)]
    x = frame(rows, cols) if as_frame else scenario(rows, cols)
    out = build(t, v).run_scenarios(x, progress=False)
    compare(c, "alone", t, v, step, out, cols, F)


def gaps(c):
    """missing inside: the time axis that is left decides"""
    t = kind(c)
    v = values(c, t)
    n = c.tiered(4, 5)
    step = c.choose("step", ["yr", "month"])
    cols = jan(n) if step == "yr" else months(n, (2001, c.choose("first", [1, 11])))
    miss = [c.flag("missing %d" % i) for i in range(n)]
    if all(miss):
        c.assume(False)
    F = [NAN if x else f for x, f in zip(miss, forcing(c, n))]
    keep = [i for i, x in enumerate(miss) if not x]
    G = list(forcing(c, n, "G"))
    two = c.flag("with another")
    rows = [(meta("a"), F)] + ([(meta("b"), G)] if two else [])
    x = scenario(rows, cols)
    contiguous = all(q - p == 1 for p, q in zip(keep, keep[1:]))
    left = [cols[i] for i in keep]
    gap = [b - a for a, b in zip(left, left[1:])]
    yearly = all(b.year - a.year == 1 for a, b in zip(left, left[1:]))
    monthly = gap and all(28 <= g.days <= 31 for g in gap)
    m = build(t, v)
    if not monthly and not yearly:
        c.raises("no time step with the gap", NotImplementedError,
                 lambda: m.run_scenarios(x, progress=False))
        return
    c.true("oracle", contiguous or yearly)
    out = m.run_scenarios(x, progress=False)
    compare(c, "with missing", t, v, "month" if monthly else "yr", out, cols, F, scenario="a")
    if two:
        compare(c, "complete", t, v, step, out, cols, G, scenario="b")


def nan_drivers(c):
    """drivers with NaN at any position are not accepted"""
    t = kind(c)
    v = values(c, t)
    m = build(t, v)
    n = c.choose("n", list(range(1, c.tiered(4, 7) + 1)))
    at = c.choose("NaN at", list(range(n)))
    more = c.flag("a second NaN") if n > 1 else False
    F = list(forcing(c, n))
    G = list(F)
    G[at] = NAN
    if more:
        G[(at + 1) % n] = NAN
    before = c.choose("before", ["new", "run", "reset"])
    if before != "new":
        drive(m, forcing(c, 2, "E"))
        if before == "run":
            m.run()
    unit = c.choose("unit", ["W/m^2", "kW/m^2"])
    how = c.choose("how", ["set_drivers", "erf"])

    def go():
        q = Q(c.array(G), unit)
        if how == "erf":
            m.erf = q
        else:
            m.set_drivers(q)
        m.reset()

    c.raises("NaN in the drivers", ModelStateError, go)
    A, B, R = run(m, c.array(F))
    observe_state(c, m)
    same_results(c, "good drivers afterwards", m, run(oracle(t, v), c.array(F)))


def no_drivers(c):
    """never driven, or only driven with nothing but NaN"""
    t = kind(c)
    m = build(t, values(c, t))
    how = c.choose("how", ["new", "all NaN", "reset twice"])
    if how == "all NaN":
        m.set_drivers(Q(c.array([NAN] * 3), ERF))
    if how == "reset twice":
        try:
            m.reset()
        except ModelStateError:
            pass
    c.raises("no drivers", ModelStateError, m.reset)


def all_missing(c):
    """a scenario that has no value at all gives no value"""
    t = kind(c)
    v = values(c, t)
    cols = jan(3)
    G = list(forcing(c, 3, "G"))
    rows = [(meta("a"), [NAN] * 3), (meta("b"), G)]
    if c.flag("reversed"):
        rows = rows[::-1]
    m = build(t, v)
    try:
        out = m.run_scenarios(scenario(rows, cols), progress=False)
    except Exception:
        c.true("refused", True)
        return
    compare(c, "the other scenario", t, v, "yr", out, cols, G, scenario="b")
    for k, vals in by_time(out, scenario="a").items():
        c.true("no values of " + k, all(isnan(x) for x in vals.values()))


O = dict(nocut=True, budget=(150, 600))
HARNESSES = [
    H("missing_ends", missing_ends, bounds="4 points (thorough: 5), any number missing at each end, "
      "yearly and monthly, next to a complete scenario", **O),
    H("alone", alone, bounds="4 points, any number missing at each end", **O),
    H("gaps", gaps, bounds="every pattern of missing points of 4 (thorough: 5)", **O),
    H("nan_drivers", nan_drivers, bounds="1 to 4 (thorough: 7) points, NaN at every position", **O),
    H("no_drivers", no_drivers, bounds="3 ways", **O),
    H("all_missing", all_missing, bounds="2 scenarios", **O),
]
