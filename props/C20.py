"""Feedback to climate sensitivity conversion is exact."""

from .common import *  # noqa: F401,F403

ASSUMPTIONS = [REALS, STUBS]

F2X = 3.74


def lam(c, positive=False):
    x = c.real("lambda", -20, 20, typical=(-3.0, -0.4))
    c.assume(x != 0)
    return x


def default(c):
    x = lam(c)
    e = convert_lambda_to_ecs(Q(x, "W/m^2/delta_degC"))
    c.observe("ecs", e.to("delta_degC").magnitude)
    c.eq("ecs", e.to("delta_degC").magnitude, -F2X / x)


def given(c):
    x, f = lam(c), c.real("f2x", -20, 20)
    how = c.choose("how", ["positional", "keyword"])
    q = Q(x, "W/m^2/delta_degC")
    fq = Q(f, "W/m^2")
    e = convert_lambda_to_ecs(q, fq) if how == "positional" else convert_lambda_to_ecs(
        lambda_val=q, f2x=fq)
    c.observe("ecs", e.to("delta_degC").magnitude)
    c.eq("ecs", e.to("delta_degC").magnitude, -f / x)
    c.eq("lambda untouched", q.magnitude, x)
    c.eq("f2x untouched", fq.magnitude, f)
    c.true("units untouched", q.units == ur.Unit("W/m^2/delta_degC") and fq.units == ur.Unit("W/m^2"))


def inverse(c):
    """its own inverse for the same f2x"""
    x = lam(c)
    kw = {}
    if c.flag("f2x"):
        f = c.real("f2x", -20, 20)
        c.assume(f != 0)
        kw["f2x"] = Q(f, "W/m^2")
    e = convert_lambda_to_ecs(Q(x, "W/m^2/delta_degC"), **kw)
    b = convert_lambda_to_ecs(e, **kw)
    c.observe("back", b.to("W/m^2/delta_degC").magnitude)
    c.eq("back", b.to("W/m^2/delta_degC").magnitude, x)


def linear(c):
    x = lam(c)
    f, g, p = c.real("f", -20, 20), c.real("g", -20, 20), c.real("p", -5, 5)
    q = Q(x, "W/m^2/delta_degC")
    one = lambda z: convert_lambda_to_ecs(q, Q(z, "W/m^2")).to("delta_degC").magnitude
    c.eq("linear", one(p * f + g), p * one(f) + one(g), scale=c.abs(p * f / x) + c.abs(g / x))


def units(c):
    x, f = lam(c), c.real("f2x", -20, 20)
    kl, kf = c.pos("kl", 1e3), c.pos("kf", 1e3)
    ul = c.scale_unit(ur, "l", "W/m^2/delta_degC", kl)
    uf = c.scale_unit(ur, "f", "W/m^2", kf)
    which = c.choose("which", ["lambda", "f2x", "both"])
    ql = Q(x / kl, ul) if which != "f2x" else Q(x, "W/m^2/delta_degC")
    qf = Q(f / kf, uf) if which != "lambda" else Q(f, "W/m^2")
    e = convert_lambda_to_ecs(ql, qf)
    c.observe("ecs", e.to("delta_degC").magnitude)
    c.eq("ecs in other units", e.to("delta_degC").magnitude, -f / x)
    if which == "lambda":
        d = convert_lambda_to_ecs(ql)
        c.eq("default f2x, other units", d.to("delta_degC").magnitude, -F2X / x)


REAL_L = ["W/m^2/K", "kW/m^2/delta_degC", "W/m^2/delta_degF", "J/yr/km^2/K", "mW/m^2/mK"]
REAL_F = ["W/m^2", "kW/m^2", "J/yr/m^2", "TW/km^2"]


def real_units(c):
    ul, uf = c.choose("ul", REAL_L), c.choose("uf", REAL_F)
    kl = ur.Quantity(1.0, ul).to("W/m^2/delta_degC").magnitude
    kf = ur.Quantity(1.0, uf).to("W/m^2").magnitude
    x, f = lam(c), c.real("f2x", -20, 20)
    e = convert_lambda_to_ecs(Q(x / kl, ul), Q(f / kf, uf))
    c.eq("ecs in real units", e.to("delta_degC").magnitude, -f / x)
    c.true("units follow", e.units == ur.Unit(uf) / ur.Unit(ul))


def types(c):
    x = c.real("x", -5, 5)
    bad = c.choose("bad", ["number", "float", "int", "None", "string", "array"])
    b = {"number": x, "float": 1.2, "int": -1, "None": None, "string": "1 W/m^2/K",
         "array": c.array([x, 1.0])}[bad]
    which = c.choose("which", ["lambda", "f2x", "both"])
    good_l, good_f = Q(-1.2, "W/m^2/delta_degC"), Q(3.9, "W/m^2")
    if which == "lambda":
        c.raises("lambda must be a quantity", TypeError, lambda: convert_lambda_to_ecs(b))
        c.raises("lambda must be a quantity", TypeError, lambda: convert_lambda_to_ecs(b, good_f))
    elif which == "f2x":
        c.raises("f2x must be a quantity", TypeError, lambda: convert_lambda_to_ecs(good_l, b))
        c.raises("f2x must be a quantity", TypeError, lambda: convert_lambda_to_ecs(good_l, f2x=b))
    else:
        c.raises("both must be quantities", TypeError, lambda: convert_lambda_to_ecs(b, b))
    e = convert_lambda_to_ecs(good_l)
    c.eq("still works", e.to("delta_degC").magnitude, F2X / 1.2)


def arrays(c):
    """arrays of feedbacks are converted element by element"""
    xs = [c.real("l%d" % i, -20, 20, typical=(-3.0, -0.4)) for i in range(3)]
    for x in xs:
        c.assume(x != 0)
    q = Q(c.array(xs), "W/m^2/delta_degC")
    e = convert_lambda_to_ecs(q)
    for i in range(3):
        c.eq("element", e[i].to("delta_degC").magnitude, -F2X / xs[i])
        c.eq("input untouched", q.magnitude[i], xs[i])


def integers(c):
    """whole numbers, as integers"""
    n = c.int("n", -20, 20)
    c.assume(n != 0)
    k = c.int("k", -20, 20)
    e = convert_lambda_to_ecs(Q(n, "W/m^2/delta_degC"), Q(k, "W/m^2"))
    c.observe("ecs", e.to("delta_degC").magnitude)
    c.eq("ecs", e.to("delta_degC").magnitude, -1.0 * k / n)
    e = convert_lambda_to_ecs(Q(n, "W/m^2/delta_degC"))
    c.eq("default f2x", e.to("delta_degC").magnitude, -F2X / n)
    xs = c.array([n, n + 40], "i")
    e = convert_lambda_to_ecs(Q(xs, "W/m^2/delta_degC"), Q(c.array([k, k], "i"), "W/m^2"))
    for i, x in enumerate((n, n + 40)):
        c.eq("element %d" % i, e[i].to("delta_degC").magnitude, -1.0 * k / x)


def often(c):
    """many conversions, every quantity a new one"""
    x, f = lam(c), c.real("f2x", -20, 20)
    c.assume(x > 0)
    for i in range(c.tiered(40, 200)):
        e = convert_lambda_to_ecs(Q(x + i, "W/m^2/delta_degC"), Q(f + i, "W/m^2"))
        c.eq("ecs", e.to("delta_degC").magnitude, -(f + i) / (x + i))
        e = convert_lambda_to_ecs(Q(x + i, "W/m^2/delta_degC"))
        c.eq("ecs, default", e.to("delta_degC").magnitude, -F2X / (x + i))


def array_f2x(c):
    """arrays for both arguments"""
    xs = [c.real("l%d" % i, -20, 20, typical=(-3.0, -0.4)) for i in range(2)]
    fs = [c.real("f%d" % i, -20, 20) for i in range(2)]
    for x in xs:
        c.assume(x != 0)
    how = c.choose("array", ["both", "f2x"])
    q = Q(c.array(xs), "W/m^2/delta_degC") if how == "both" else Q(xs[0], "W/m^2/delta_degC")
    fq = Q(c.array(fs), c.choose("unit", ["W/m^2", "kW/m^2"]))
    k = ur.Quantity(1.0, fq.units).to("W/m^2").magnitude
    e = convert_lambda_to_ecs(q, fq)
    for i in range(2):
        c.eq("element %d" % i, e[i].to("delta_degC").magnitude,
             -fs[i] * k / (xs[i] if how == "both" else xs[0]))
        c.eq("f2x untouched", fq.magnitude[i], fs[i])


HARNESSES = [
    H("default", default, bounds="every lambda != 0"),
    H("given", given, bounds="every lambda != 0 and f2x"),
    H("inverse", inverse, bounds="every lambda != 0, f2x != 0"),
    H("linear", linear, bounds="every lambda != 0, two values of f2x and a factor"),
    H("units", units, bounds="both arguments in units of any size"),
    H("real_units", real_units, bounds="5 times 4 real units"),
    H("types", types, bounds="6 kinds of non-quantities for either argument"),
    H("arrays", arrays, bounds="arrays of 3"),
    H("integers", integers, bounds="integers up to 20 in size, single and in arrays of 2"),
    H("often", often, bounds="40 (thorough: 200) conversions in a row"),
    H("array_f2x", array_f2x, bounds="arrays of 2, in 2 units"),
]
