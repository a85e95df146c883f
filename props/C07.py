"""State-dependent feedback is never silently dropped."""
from .common import *  # noqa: F401,F403

ASSUMPTIONS = [REALS, STUBS]


def attempt(c, a, zero, over):
    """a: the physical value as a Quantity; zero: whether it is zero"""
    v = tl_values(c, a=False)
    del v["a"]
    how = c.choose("set", ["constructor", "setter", "changed", "after a conversion"])
    if how == "constructor":
        m = tl_model(v, a=a)
    else:
        start = {"setter": 0.0, "changed": 0.3, "after a conversion": 0.0}[how]
        m = tl_model(v, a=Q(start, TL_UNITS["a"]))
        if how == "after a conversion":
            m.get_impulse_response_parameters()
        m.a = a
    if zero:
        p = m.get_impulse_response_parameters()
        c.true("converted", sorted(p) == ["d1", "d2", "efficacy", "q1", "q2"])
    else:
        c.raises("a is refused", ValueError, m.get_impulse_response_parameters)
        c.raises("and again", ValueError, m.get_impulse_response_parameters)


def nonzero(c):
    a = c.real("a", -5, 5, typical=(-0.2, 0.2))
    c.assume(a != 0)
    attempt(c, Q(a, TL_UNITS["a"]), False, {})


def other_unit(c):
    k = c.pos("k", 1e6)
    u = c.scale_unit(ur, "a", TL_UNITS["a"], k)
    zero = c.flag("zero")
    a = 0.0 if zero else c.real("a", -5, 5, typical=(-0.2, 0.2))
    if not zero:
        c.assume(a != 0)
    attempt(c, Q(a, u), zero, {})


def real_unit(c):
    u = c.choose("unit", ["W/m^2/K^2", "kW/m^2/delta_degC^2", "uW/km^2/K^2", "W/m^2/delta_degF^2",
                          "GW/m^2/K/delta_degC", "J/yr/m^2/K^2", "W/m^2/mK^2"])
    zero = c.flag("zero")
    a = 0.0 if zero else c.real("a", -5, 5, typical=(-0.2, 0.2))
    if not zero:
        c.assume(a != 0)
    attempt(c, Q(a, u), zero, {})


def tiny(c):
    """magnitudes of any size, including ones far below rounding"""
    e = c.choose("exponent", [-300, -150, -100, -50, -30, -20, -16, -12, -9, -6, 3, 100])
    s = c.pos("s", 10.0, typical=(1.0, 9.0))
    a = s * (10.0 ** e) * c.choose("sign", [1, -1])
    v = tl_values(c, a=False)
    m = tl_model({k: x for k, x in v.items() if k != "a"}, a=Q(a, TL_UNITS["a"]))
    c.raises("tiny a is refused", ValueError, m.get_impulse_response_parameters)


def zero(c):
    z = c.choose("zero", [0.0, 0, -0.0])
    attempt(c, Q(z, TL_UNITS["a"]), True, {})


HARNESSES = [
    H("nonzero", nonzero, bounds="every non-zero a; by constructor, setter, change"),
    H("zero", zero, bounds="a = 0, 0.0, -0.0"),
    H("other_unit", other_unit, bounds="every a, zero or not, in units of arbitrary size"),
    H("real_unit", real_unit, bounds="7 real units of a, every a"),
    H("tiny", tiny, bounds="a = s * 10^e, 12 exponents from -300 to 100, all s, both signs"),
]
