"""Scenarios run together give the same as each one run alone."""
import datetime as dt

from .C18 import ALIKE, alike
from .common import *  # noqa: F401,F403
from .scen import DRIVER, META, NAN, frame, jan, meta, months, outputs, results, scenario, table, years

from scmdata.run import ScmRun

ASSUMPTIONS = [REALS, STUBS, EXP]

def same_table(c, label, a, b, tolerant=True):
    """two {variable: (unit, values)} agree"""
    c.true(label + ": variables", sorted(a) == sorted(b))
    for n in sorted(a):
        if n not in b:
            continue
        c.true("%s: unit of %s" % (label, n), a[n][0] == b[n][0])
        x, y = drop(a[n][1]), drop(b[n][1])
        c.true("%s: points of %s" % (label, n), len(x) == len(y))
        for i, (p, q) in enumerate(zip(x, y)):
            c.eq("%s: %s[%d]" % (label, n, i), p, q)


def drop(xs):
    return [x for x in xs if not (isinstance(x, float) and x != x)]


AXES = {
    "yearly": [jan(3), jan(3), jan(3)],
    "monthly": [months(3), months(3), months(3)],
    "yearly and monthly": [jan(3), months(3), jan(3)],
    "monthly and yearly": [months(3), jan(3), months(3)],
    "different lengths": [jan(3), jan(2), jan(4)],
    "different years": [jan(2), jan(3, 2001), jan(2, 2005)],
    "lengths and steps": [months(2), jan(4), months(4, (2001, 11))],
}


def together(c, number, axes):
    t = kind(c)
    v = values(c, t)
    cols = sorted({x for a in axes for x in a})
    Fs = [list(forcing(c, len(a), "F%d" % i)) for i, a in enumerate(axes)]
    rows = []
    for i, a in enumerate(axes):
        vals = [NAN] * len(cols)
        for x, f in zip(a, Fs[i]):
            vals[cols.index(x)] = f
        rows.append((meta("s%d" % i), vals))
    order = c.choose("order", [list(range(number)), list(range(number))[::-1]])
    m = build(t, v)
    out = m.run_scenarios(scenario([rows[i] for i in order], cols), progress=False)
    for i, a in enumerate(axes):
        w = oracle(t, v)
        alone = results(c, w, scenario([(meta("s%d" % i), Fs[i])], a))
        for nm, s in zip(names(w), state(w)):
            c.observe("%s %d" % (nm, i), s)
        same_table(c, "scenario %d" % i, alone, table(out, scenario="s%d" % i))


def pairs(c):
    axes = AXES[c.choose("axes", sorted(AXES))]
    together(c, 2, axes[:2])


def triples(c):
    axes = AXES[c.choose("axes", ["monthly and yearly", "lengths and steps", "yearly"])]
    together(c, 3, axes)


def many(c):
    """a large number of scenarios in one call, each with its own time points"""
    t = kind(c)
    n = c.choose("number", sorted({12, 33} | set(world.sizes(6, 70, c.tiered(6, 30)))))
    v = values(c, t)
    # three different time axes, each with a year or month of its own
    axes = [jan(2), jan(3), months(2)]
    cols = sorted({x for a in axes for x in a})
    a, b = c.vec("F", 3, -20, 20), c.vec("G", 3, -20, 20)
    rows, Fs = [], []
    for i in range(n):
        ax = axes[i % 3]
        F = [p + i * q for p, q in zip(a, b)][:len(ax)]
        Fs.append(F)
        vals = [NAN] * len(cols)
        for x, f in zip(ax, F):
            vals[cols.index(x)] = f
        rows.append((meta("s%03d" % i), vals))
    out = build(t, v).run_scenarios(scenario(rows, cols), progress=False)
    c.true("number of time series", len(out) == n * (4 if t == "two_layer" else 5))
    by = {}
    ts = out.timeseries()
    for lab, vals in zip(ts.index, ts.values):
        d = dict(zip(ts.index.names, lab))
        by.setdefault(d["scenario"], {})[d["variable"]] = (d["unit"], list(vals))
    for i in range(n):
        w = oracle(t, v)
        w.delta_t = Q(1, "month" if i % 3 == 2 else "yr")
        A, B, R = run(w, c.array(Fs[i]))
        got = by["s%03d" % i]
        for k, s in outputs(t, A, B, R).items():
            x = drop(got[k][1])
            c.true("points of %s %d" % (k, i), len(x) == len(s))
            c.eqs("%s %d" % (k, i), x, s)


def often(c):
    """a scenario in each of many calls, every one a new object"""
    t = kind(c)
    v = values(c, t)
    m = build(t, v)
    F = list(forcing(c, 3))
    for i in range(c.tiered(15, 60)):
        ax, step = (jan(3), "yr") if i % 3 else (months(3), "month")
        G = [f + i for f in F]
        got = results(c, m, scenario([(meta("s%d" % (i // 2)), G)], ax))
        w = oracle(t, v)
        w.delta_t = Q(1, step)
        for k, s in outputs(t, *run(w, c.array(G))).items():
            c.eqs("%s of call %d" % (k, i), got[k][1], s)


def one_is_longer(c):
    """one of up to 6 scenarios has points where none of the others has any"""
    t = kind(c)
    v = values(c, t)
    n = c.choose("number", [3, 4, c.tiered(6, 12)])
    k = c.choose("which", list(range(n)))
    where = c.choose("more", ["at the end", "at the start", "elsewhere"])
    cols = jan(5 if where != "elsewhere" else 6)
    mine = {"at the end": (0, 5), "at the start": (0, 5), "elsewhere": (3, 6)}[where]
    others = {"at the end": (0, 3), "at the start": (2, 5), "elsewhere": (0, 3)}[where]
    F = list(forcing(c, 6))
    rows = []
    for i in range(n):
        a, b = mine if i == k else others
        rows.append((meta("s%02d" % i), [F[j] + i if a <= j < b else NAN for j in range(len(cols))]))
    out = build(t, v).run_scenarios(scenario(rows, cols), progress=False)
    for i in {0, k, n - 1}:
        w = oracle(t, v)
        w.delta_t = Q(1, "yr")
        G = drop(rows[i][1])
        got = table(out, scenario="s%02d" % i)
        for nm, s in outputs(t, *run(w, c.array(G))).items():
            x = drop(got[nm][1])
            c.true("points of %s %d" % (nm, i), len(x) == len(s))
            c.eqs("%s %d" % (nm, i), x, s)


def identical_metadata_otherwise(c):
    """scenarios that differ in metadata other than the scenario name, in units, in sign of F"""
    t = kind(c)
    v = values(c, t)
    which = c.choose("differ in", ["model", "climate scenario id", "unit", "ensemble"])
    F, G = list(forcing(c, 3, "F")), list(forcing(c, 3, "G"))
    a, b = meta("s", **{"ensemble_member": 0, "id": "x"}), meta("s", **{"ensemble_member": 0, "id": "x"})
    k = 1.0
    if which == "model":
        b["model"] = "m2"
    elif which == "climate scenario id":
        b["id"] = "y"
    elif which == "ensemble":
        b["ensemble_member"] = 1
    else:
        b["scenario"], b["unit"], k = "t", "kW/m^2", 1000.0
        b["model"] = "m2"
    sel = [{n: x[n] for n in ("model", "scenario", "ensemble_member", "id")} for x in (a, b)]
    m = build(t, v)
    cols = years(3)
    out = m.run_scenarios(scenario([(a, F), (b, G)], cols), progress=False)
    one = results(c, oracle(t, v), scenario([(a, F)], cols))
    two = results(c, oracle(t, v), scenario([(b, G)], cols))
    same_table(c, "first", one, table(out, **sel[0]))
    same_table(c, "second", two, table(out, **sel[1]))


def earlier_use(c):
    """what the model did before does not matter"""
    t = kind(c)
    v = values(c, t)
    m = build(t, v)
    before = c.choose("before", ["monthly scenario", "longer scenario", "run", "no data", "same",
                                 "two scenarios", "unsuitable time"])
    G = list(forcing(c, 4, "G"))
    if before == "monthly scenario":
        m.run_scenarios(scenario([(meta(), G)], months(4)), progress=False)
    elif before == "longer scenario":
        m.run_scenarios(scenario([(meta("other"), G)], jan(4)), progress=False)
    elif before == "run":
        run(m, c.array(G))
    elif before == "two scenarios":
        m.run_scenarios(scenario([(meta("a"), G), (meta("b"), G[::-1])], jan(4)), progress=False)
    elif before == "no data":
        try:
            m.run_scenarios(scenario([(meta(variable="x"), G)], jan(4)), progress=False)
            c.fail("no data, no error")
        except ValueError:
            pass
    elif before == "unsuitable time":
        try:
            m.run_scenarios(scenario([(meta(), G)], [2000, 2001, 2002, 2004]), progress=False)
            c.fail("irregular time, no error")
        except NotImplementedError:
            pass
    cols = c.choose("cols", [jan(3), months(3)])
    F = list(forcing(c, 3, "F"))
    run_ = scenario([(meta(), F)], cols)
    if before == "same":
        m.run_scenarios(run_, progress=False)
    a = results(c, m, run_)
    b = results(c, oracle(t, v), scenario([(meta(), F)], cols))
    same_table(c, "second use", b, a)


def against_the_model(c):
    """what run_scenarios reports is what stepping the model with that driver gives"""
    t = kind(c)
    v = values(c, t)
    n = c.choose("n", [1, 2, 3])
    step = c.choose("step", ["yr", "month"])
    F = list(forcing(c, n))
    if n == 1:
        step = "yr"
    a = results(c, oracle(t, v), scenario([(meta(), F)], jan(n) if step == "yr" else months(n)))
    w = oracle(t, v)
    w.delta_t = Q(1, step)
    A, B, R = run(w, c.array(F))
    observe_state(c, w)
    if t == "two_layer":
        exp = {"Surface Temperature|Upper": A, "Surface Temperature|Lower": B, "Heat Uptake": R}
    else:
        exp = {"Surface Temperature|Box 1": A, "Surface Temperature|Box 2": B, "Heat Uptake": R,
               "Surface Temperature": [p + q for p, q in zip(A, B)]}
    for k, s in exp.items():
        c.true(k + " is there", k in a)
        c.eqs(k, a[k][1], s)


O = dict(nocut=True, budget=(150, 600))
HARNESSES = [
    H("pairs", pairs, bounds="2 scenarios, 7 pairs of time axes, both orders", **O),
    H("triples", triples, bounds="3 scenarios, 3 mixes of time axes, 2 orders", **O),
    H("many", many, bounds="12, 33 and as many scenarios as numbers among the code's constants suggest "
      "(up to 70), 3 time axes", max_witnesses=2, **O),
    H("often", often, bounds="15 (thorough: 60) calls with a scenario each, yearly and monthly", max_witnesses=2, **O),
    H("one_is_longer", one_is_longer, bounds="3, 4 and 6 (thorough: 12) scenarios, each in turn with points of its "
      "own at the start, at the end or elsewhere", **O),
    H("identical_metadata_otherwise", identical_metadata_otherwise,
      bounds="2 scenarios told apart by model, id, unit or ensemble member", **O),
    H("alike", alike, bounds="%d pairs of scenarios whose metadata hardly differ, both orders" % len(ALIKE), **O),
    H("earlier_use", earlier_use, bounds="7 kinds of earlier use, yearly and monthly", **O),
    H("against_the_model", against_the_model, bounds="1 to 3 points, yearly and monthly", **O),
]
