"""Invalid inputs are rejected and leave the model untouched."""
from openscm_twolayermodel.errors import ModelStateError, UnitError

from .common import *  # noqa: F401,F403

ASSUMPTIONS = [REALS, STUBS, EXP]

WRONG = ["kg", "delta_degC", "m", "s", "W/m^2", "W/m^2/delta_degC", "W/m^2/delta_degC^2",
         "delta_degC/(W/m^2)", "dimensionless", "yr", "m^2", "W", "W/m", "J/m^2", "1/s", "K^2"]


def wrong_units(right):
    d = ur.Quantity(1.0, right).dimensionality
    return [u for u in WRONG if ur.Quantity(1.0, u).dimensionality != d]


def inputs(t):
    return list(UNITS[t]) + ["erf"]


def unit_of(t, p):
    return ERF if p == "erf" else UNITS[t][p]


NOT_QUANTITIES = ["number", "float", "int", "zero", "None", "string", "array", "list", "tuple", "unit",
                  "bool", "look-alike"]


class LookAlike:
    """has what a quantity has, without being one"""

    def __init__(self, x, unit):
        self.magnitude = self.m = x
        self.units = self.u = ur.Unit(unit)
        self.dimensionality = self.units.dimensionality
        self.shape = getattr(x, "shape", ())

    def to(self, unit):
        return Q(self.m, self.u).to(unit)

    def __mul__(self, other):
        return Q(self.m, self.u) * other

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(Q(self.m, self.u), name)

    def __len__(self):
        return len(self.m)

    def __iter__(self):
        return iter(self.m)


def not_quantity(c, which, unit=ERF):
    return {
        "look-alike": lambda: LookAlike(c.real("x", 1, 5), unit),
        "number": lambda: c.real("x", -5, 5), "float": lambda: 1.3, "int": lambda: 2,
        "zero": lambda: 0, "None": lambda: None, "string": lambda: "1 W/m^2",
        "array": lambda: c.vec("X", 2, -5, 5), "list": lambda: [1.0, 2.0],
        "tuple": lambda: (1.0, "W/m^2"), "unit": lambda: ur.Unit("W/m^2"), "bool": lambda: True,
    }[which]()


def untouched(c, t, v, m, F, before):
    """m still is a model of parameters v driven by F"""
    for p in UNITS[t]:
        c.eq("parameter %s as before" % p, getattr(m, p).to(UNITS[t][p]).magnitude, v[p])
        c.true("parameter %s unit as before" % p, getattr(m, p).units == ur.Unit(UNITS[t][p]))
    c.eqs("drivers as before", m.erf.to(ERF).magnitude, F)
    same_results(c, "results as before", before, m)
    m.reset()
    m.run()
    w = oracle(t, v)
    run(w, F)
    same_results(c, "a further run as before", m, w)


def prepared(c, t):
    v = values(c, t)
    m = build(t, v)
    F = forcing(c, 3)
    run(m, F)
    return v, m, F, tuple(list(s) for s in state(m))


def assign_not_quantity(c):
    t = kind(c)
    p = c.choose("input", inputs(t))
    x = not_quantity(c, c.choose("value", NOT_QUANTITIES), unit_of(t, p))
    v, m, F, before = prepared(c, t)
    c.raises("%s needs a quantity" % p, TypeError, lambda: setattr(m, p, x))
    untouched(c, t, v, m, F, before)


def assign_wrong_unit(c):
    t = kind(c)
    p = c.choose("input", inputs(t))
    u = c.choose("unit", wrong_units(unit_of(t, p)))
    x = c.vec("X", 2, -5, 5) if p == "erf" else c.real("x", -5, 5)
    v, m, F, before = prepared(c, t)
    c.raises("%s needs other dimensions" % p, UnitError, lambda: setattr(m, p, Q(x, u)))
    untouched(c, t, v, m, F, before)


def construct(c):
    t = kind(c)
    p = c.choose("input", list(UNITS[t]))
    v = values(c, t)
    if c.flag("unit"):
        u = c.choose("which unit", wrong_units(UNITS[t][p]))
        x = c.real("x", -5, 5)
        c.raises("constructor checks units", UnitError, lambda: build(t, v, **{p: Q(x, u)}))
    else:
        x = not_quantity(c, c.choose("value", NOT_QUANTITIES))
        c.raises("constructor checks type", TypeError, lambda: build(t, v, **{p: x}))
    w = build(t, v)
    for p in UNITS[t]:
        c.eq("other models work", getattr(w, p).to(UNITS[t][p]).magnitude, v[p])


def drivers(c):
    t = kind(c)
    v, m, F, before = prepared(c, t)
    what = c.choose("drivers", ["number", "1 by 2", "2 by 1", "2 by 2", "0 by 2", "1 by 1 by 1", "unit",
                                "array"])
    if what == "unit":
        X = c.vec("X", 3, -5, 5)
        u = c.choose("which unit", wrong_units(ERF))
        c.raises("driver unit", UnitError, lambda: m.set_drivers(Q(X, u)))
    elif what == "array":
        X = c.vec("X", 3, -5, 5)
        c.raises("driver type", TypeError, lambda: m.set_drivers(X))
    elif what == "number":
        c.raises("driver shape", AssertionError,
                 lambda: m.set_drivers(Q(c.array([c.real("X", -5, 5)]).reshape(()), ERF)))
    else:
        shape = tuple(int(s) for s in what.split(" by "))
        n = 1
        for s in shape:
            n *= s
        X = c.vec("X", n, -5, 5).reshape(shape)
        c.raises("driver shape", AssertionError, lambda: m.set_drivers(Q(X, ERF)))
    untouched(c, t, v, m, F, before)


def order(c):
    """d1 >= d2 is refused, d1 < d2 accepted, whatever units they are in"""
    v = ir_values(c, ordered=False)
    how = c.choose("units", ["default", "d1", "d2", "both", "month"])
    over = {}
    if how == "month":
        k = ur.Quantity(1.0, "month").to("yr").magnitude
        over["d1"] = Q(v["d1"] / k, "month")
    for p in ("d1", "d2"):
        if how in (p, "both"):
            k = c.pos("k_" + p, 1e3)
            over[p] = Q(v[p] / k, c.scale_unit(ur, p, "yr", k))
    if c.flag("equal"):
        c.assume(how == "default")
        v["d2"] = v["d1"]
    if v["d1"] < v["d2"]:
        m = ir_model(v, **over)
        c.eq("accepted", m.d1.to("yr").magnitude, v["d1"])
    else:
        c.raises("d1 must be the short timescale", ValueError, lambda: ir_model(v, **over))


def defaults_order(c):
    """the same when only one of them is given"""
    p = c.choose("given", ["d1", "d2"])
    x = c.pos("x", 1e4, typical=(1.0, 300.0))
    ok = x < 400.0 if p == "d1" else x > 9.0
    if ok:
        m = ImpulseResponseModel(**{p: Q(x, "yr")})
        c.eq("accepted", getattr(m, p).to("yr").magnitude, x)
    else:
        c.raises("order", ValueError, lambda: ImpulseResponseModel(**{p: Q(x, "yr")}))


def no_drivers(c):
    t = kind(c)
    v = values(c, t)
    m = build(t, v)
    c.raises("reset needs drivers", ModelStateError, m.reset)
    if c.flag("after a rejected assignment"):
        c.raises("driver unit", UnitError, lambda: m.set_drivers(Q(c.vec("X", 2, -5, 5), "kg")))
        c.raises("reset still needs drivers", ModelStateError, m.reset)
    F = forcing(c, 3)
    run(m, F)
    w = oracle(t, v)
    run(w, F)
    same_results(c, "works afterwards", m, w)


HARNESSES = [
    H("assign_not_quantity", assign_not_quantity, nocut=True, budget=(120, 500),
      bounds="every input, 11 kinds of non-quantities"),
    H("assign_wrong_unit", assign_wrong_unit, nocut=True, budget=(120, 500),
      bounds="every input, up to 15 units of other dimensions, every magnitude"),
    H("construct", construct, nocut=True, budget=(120, 500), bounds="the same through the constructors"),
    H("drivers", drivers, nocut=True, bounds="8 kinds of wrong drivers"),
    H("order", order, bounds="all d1, d2, in default units, months and units of any size"),
    H("defaults_order", defaults_order, bounds="all d1 or d2 with the default for the other"),
    H("no_drivers", no_drivers, nocut=True, bounds="reset before set_drivers"),
]
