"""Parameters are kept exactly as given."""
from .common import *  # noqa: F401,F403
from .scen import one_scenario

ASSUMPTIONS = [REALS, STUBS, EXP]

ORDER = {
    "two_layer": ["du", "dl", "lambda0", "a", "efficacy", "eta", "delta_t"],
    "impulse": ["q1", "q2", "d1", "d2", "efficacy", "delta_t"],
}
DEFAULTS = {
    "two_layer": {"du": 50, "dl": 1200, "lambda0": 3.74 / 3, "a": 0, "efficacy": 1, "eta": 0.8},
    "impulse": {"q1": 0.3, "q2": 0.4, "d1": 9, "d2": 400, "efficacy": 1},
}
STEP = {"two_layer": (1, "yr"), "impulse": (1, "month")}


def default(t, p):
    if p == "delta_t":
        n, u = STEP[t]
        return ur.Quantity(float(n), u).to(UNITS[t][p]).magnitude
    return DEFAULTS[t][p]


def given(c, t, p, x, i=0):
    """(the quantity to give, magnitude, unit) for x in default units"""
    u = c.choose("unit%d" % i, ["default", "other", "any"])
    if u == "default":
        unit, k = ur.Unit(UNITS[t][p]), 1.0
    elif u == "other":
        unit = ur.Unit(OTHER_UNITS[p])
        k = ur.Quantity(1.0, unit).to(UNITS[t][p]).magnitude
    else:
        k = c.pos("k%d" % i, 1e3, typical=(0.2, 5.0))
        unit = ur.Unit(c.scale_unit(ur, p, UNITS[t][p], k))
    return Q(x / k, unit), x / k, unit


def reads(c, label, m, p, mag, unit):
    q = getattr(m, p)
    c.true(label + ": unit of " + p, q.units == unit)
    c.eq(label + ": " + p, q.magnitude, mag)


def constructed(c):
    """one parameter given, by keyword, the others at their defaults"""
    t = kind(c)
    p = c.choose("parameter", ORDER[t])
    x = other_value(c, t, p, "x")
    if p == "d1":
        c.assume(x < 400)
    if p == "d2":
        c.assume(x > 9)
    q, mag, unit = given(c, t, p, x)
    m = CLS[t](**{p: q})
    c.observe("p", getattr(m, p).magnitude)
    reads(c, "given", m, p, mag, unit)
    for o in ORDER[t]:
        if o != p:
            c.eq("default " + o, getattr(m, o).to(UNITS[t][o]).magnitude, default(t, o))


def defaults(c):
    t = kind(c)
    m = CLS[t]()
    v = {p: default(t, p) for p in ORDER[t]}
    for p in ORDER[t]:
        c.eq("default " + p, getattr(m, p).to(UNITS[t][p]).magnitude, v[p])
    F = forcing(c, 3)
    x = run(m, F)
    observe_state(c, m)
    same_results(c, "as if given", x, run(oracle(t, v), F))


def positional(c):
    t = kind(c)
    v = values(c, t)
    n = c.choose("by position", list(range(len(ORDER[t]) + 1)))
    qs = [Q(v[p], UNITS[t][p]) for p in ORDER[t]]
    rest = list(zip(ORDER[t], qs))[n:]
    if c.flag("reversed"):
        rest = rest[::-1]
    m = CLS[t](*qs[:n], **dict(rest))
    for p, q in zip(ORDER[t], qs):
        reads(c, "by position", m, p, v[p], ur.Unit(UNITS[t][p]))
        c.eq("quantity untouched", q.magnitude, v[p])
    F = forcing(c, 3)
    same_results(c, "by position", run(m, F), run(oracle(t, v), F))


def assigned(c):
    """two assignments in any order; nothing else changes"""
    t = kind(c)
    v = values(c, t)
    m = build(t, v)
    want = {p: (v[p], ur.Unit(UNITS[t][p])) for p in ORDER[t]}
    for i in range(2):
        p = c.choose("parameter %d" % i, ORDER[t] if i == 0 or c.tier == "thorough" else
                     [ORDER[t][0], ORDER[t][-2], ORDER[t][-1]])
        x = other_value(c, t, p, "x%d" % i)
        q, mag, unit = given(c, t, p, x, i) if i == 0 else (Q(x, UNITS[t][p]), x, ur.Unit(UNITS[t][p]))
        setattr(m, p, q)
        want[p] = mag, unit
        for o in ORDER[t]:
            reads(c, "after assignment %d" % i, m, o, *want[o])


def after_use(c):
    """nothing the model does changes its parameters or drivers"""
    t = kind(c)
    v = values(c, t)
    m = build(t, v, **{p: Q(v[p] / ur.Quantity(1.0, OTHER_UNITS[p]).to(UNITS[t][p]).magnitude,
                            OTHER_UNITS[p]) for p in c.choose("in other units", [(), ORDER[t]])})
    want = {p: (getattr(m, p).magnitude, getattr(m, p).units) for p in ORDER[t]}
    F = forcing(c, 3)
    keep = list(F)
    m.set_drivers(Q(F, ERF))
    use = c.choose("use", ["reset", "step", "run", "run twice", "convert", "heat capacities", "scenario",
                           "failed scenario"])
    m.reset()
    if use == "step":
        m.step()
        m.step()
    elif use in ("run", "run twice"):
        m.run()
        if use == "run twice":
            m.reset()
            m.run()
    elif use == "convert":
        try:
            (m.get_impulse_response_parameters if t == "two_layer" else m.get_two_layer_parameters)()
        except ValueError:
            pass
    elif use == "heat capacities" and t == "two_layer":
        m.heat_capacity_upper, m.heat_capacity_lower
    elif use == "scenario":
        m.run_scenarios(one_scenario(list(forcing(c, 3, "G"))), progress=False)
    elif use == "failed scenario":
        c.raises("no such driver", ValueError, lambda: m.run_scenarios(
            one_scenario(list(forcing(c, 3, "G"))), driver_var="x", progress=False))
    for p in ORDER[t]:
        if use == "scenario" and p == "delta_t":
            continue
        reads(c, "after " + use, m, p, *want[p])
    if use != "scenario":
        c.true("unit of the drivers", m.erf.units == ur.Unit(ERF))
        c.eqs("drivers", m.erf.magnitude, keep)


def drivers(c):
    t = kind(c)
    m = CLS[t]()
    n = c.choose("n", [1, 3])
    F = forcing(c, n)
    u = c.choose("unit", ["W/m^2", "kW/m^2", "any"])
    if u == "any":
        u = c.scale_unit(ur, "erf", ERF, c.pos("k", 1e3, typical=(0.2, 5.0)))
    how = c.choose("how", ["set_drivers", "keyword", "assigned", "twice"])
    q = Q(F, u)
    if how == "twice":
        m.set_drivers(Q(forcing(c, 4, "G"), ERF))
    if how == "assigned":
        m.erf = q
    elif how == "keyword":
        m.set_drivers(erf=q)
    else:
        m.set_drivers(q)
    c.true("unit", m.erf.units == ur.Unit(u))
    c.eqs("drivers", m.erf.magnitude, F)
    m.reset()
    m.run()
    c.eqs("drivers after the run", m.erf.magnitude, F)


def from_conversion(c):
    """converted parameters are accepted as they are, and read back the same"""
    t = kind(c)
    v = values(c, t, a=False)
    m = build(t, v)
    o = "impulse" if t == "two_layer" else "two_layer"
    ps = m.get_impulse_response_parameters() if t == "two_layer" else m.get_two_layer_parameters()
    c.true("names", set(ps) == set(ORDER[o]) - {"delta_t", "a"})
    q = CLS[o](**ps)
    for p in sorted(ps):
        c.eq("converted " + p, getattr(q, p).to(UNITS[o][p]).magnitude, ps[p].to(UNITS[o][p]).magnitude)
    for p in ORDER[o]:
        if p not in ps:
            c.eq("default " + p, getattr(q, p).to(UNITS[o][p]).magnitude, default(o, p))


HARNESSES = [
    H("constructed", constructed, bounds="each parameter, in 2 units and one of any size"),
    H("defaults", defaults, bounds="runs of 3 points"),
    H("positional", positional, bounds="any number of parameters by position"),
    H("assigned", assigned, nocut=True, bounds="sequences of two assignments, all parameters and units"),
    H("after_use", after_use, nocut=True, bounds="8 kinds of use, all parameters in default or other units"),
    H("drivers", drivers, bounds="1 and 3 points, 2 units and one of any size, 4 ways"),
    H("from_conversion", from_conversion, bounds="all parameters"),
]
