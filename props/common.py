"""Builders and reference equations shared by the harnesses."""
import numpy as np
from openscm_units import unit_registry as ur

from symx import core, world
from symx.run import Harness as H  # noqa: F401

TwoLayerModel = world.Lazy("", "TwoLayerModel")
ImpulseResponseModel = world.Lazy("", "ImpulseResponseModel")
convert_lambda_to_ecs = world.Lazy("utils", "convert_lambda_to_ecs")

RHO_C = 1000 * 4181  # J / delta_degC / m^3

TL_UNITS = {
    "du": "m", "dl": "m", "lambda0": "W/m^2/delta_degC", "a": "W/m^2/delta_degC^2",
    "efficacy": "dimensionless", "eta": "W/m^2/delta_degC", "delta_t": "s",
}  # fmt: skip
IR_UNITS = {
    "q1": "delta_degC/(W/m^2)", "q2": "delta_degC/(W/m^2)", "d1": "yr", "d2": "yr",
    "efficacy": "dimensionless", "delta_t": "yr",
}  # fmt: skip
ERF = "W/m^2"
OTHER_UNITS = {
    "du": "km", "dl": "cm", "lambda0": "kW/m^2/delta_degC", "a": "W/m^2/kelvin^2",
    "efficacy": "cm/m", "eta": "W/m^2/kelvin", "q1": "kelvin/(W/m^2)",
    "q2": "delta_degC/(kW/m^2)", "d1": "month", "d2": "century", "delta_t": "month",
}  # fmt: skip

REALS = (
    "exact real arithmetic stands for IEEE doubles: equality of results is decided in the reals "
    "(float literals and conversion factors read as the simplest rational within 4 ulp) and claimed for "
    "doubles up to rounding, not bit for bit"
)
STUBS = (
    "numpy array creation/isnan, math functions, float()/int() in the package's modules and "
    "pandas astype(float) are replaced by versions that accept symbolic values; numpy indexing, "
    "pint, pandas and scmdata run unmodified"
)
EXP = (
    "exp is constrained by axioms (positivity, monotonicity, exp(0)=1, injectivity, 1+x <= exp(x), "
    "and products where stated), not by its exact values"
)


def Q(mag, unit):
    return ur.Quantity(mag, unit)


def tl_values(c, a=True, positive=True, prefix=""):
    """values of the two-layer parameters in default units"""
    n = lambda s: prefix + s
    v = {
        "du": c.pos(n("du"), 1e4, typical=(20.0, 100.0)),
        "dl": c.pos(n("dl"), 1e4, typical=(300.0, 2000.0)),
        "delta_t": c.pos(n("delta_t"), 1e8, typical=(1e6, 4e7)),
    }
    if positive:
        v["lambda0"] = c.pos(n("lambda0"), 20, typical=(0.6, 2.0))
        v["efficacy"] = c.pos(n("efficacy"), 20, typical=(0.7, 1.7))
        v["eta"] = c.pos(n("eta"), 20, typical=(0.4, 1.4))
    else:
        v["lambda0"] = c.real(n("lambda0"), -20, 20, typical=(0.6, 2.0))
        v["efficacy"] = c.real(n("efficacy"), -20, 20, typical=(0.7, 1.7))
        v["eta"] = c.real(n("eta"), -20, 20, typical=(0.4, 1.4))
    v["a"] = c.real(n("a"), -5, 5, typical=(-0.2, 0.2)) if a else 0.0
    return v


def tl_model(v, **over):
    kw = {k: Q(x, TL_UNITS[k]) for k, x in v.items()}
    kw.update(over)
    return TwoLayerModel(**kw)


def ir_values(c, positive=True, prefix="", ordered=True):
    n = lambda s: prefix + s
    v = {
        "d1": c.pos(n("d1"), 1e3, typical=(1.0, 9.0)),
        "d2": c.pos(n("d2"), 1e5, typical=(60.0, 500.0)),
        "delta_t": c.pos(n("delta_t"), 1e3, typical=(0.05, 2.0)),
    }
    if positive:
        v["q1"] = c.pos(n("q1"), 20, typical=(0.2, 0.6))
        v["q2"] = c.pos(n("q2"), 20, typical=(0.2, 0.6))
        v["efficacy"] = c.pos(n("efficacy"), 20, typical=(0.7, 1.7))
    else:
        v["q1"] = c.real(n("q1"), -20, 20, typical=(0.2, 0.6))
        v["q2"] = c.real(n("q2"), -20, 20, typical=(0.2, 0.6))
        v["efficacy"] = c.real(n("efficacy"), -20, 20, typical=(0.7, 1.7))
    if ordered:
        c.assume(v["d1"] < v["d2"])
    return v


def ir_model(v, **over):
    kw = {k: Q(x, IR_UNITS[k]) for k, x in v.items()}
    kw.update(over)
    return ImpulseResponseModel(**kw)


def forcing(c, n, name="F", hi=20):
    return c.vec(name, n, -hi, hi)


def drive(m, F, unit=ERF):
    m.set_drivers(Q(F, unit))
    m.reset()


def state(m):
    """(temperatures, heat uptake) arrays of a model"""
    if isinstance(m, TwoLayerModel):
        return m._temp_upper_mag, m._temp_lower_mag, m._rndt_mag
    return m._temp1_mag, m._temp2_mag, m._rndt_mag


def names(m):
    if isinstance(m, TwoLayerModel):
        return ("T_upper", "T_lower", "uptake")
    return ("T_1", "T_2", "uptake")


def observe_state(c, m):
    for n, x in zip(names(m), state(m)):
        c.observe(n, x)


def run(m, F, unit=ERF):
    drive(m, F, unit)
    m.run()
    return state(m)


# -- reference equations (written from the documentation) ----------------------


def tl_ref(c, v, T, D, F):
    """one step: ((T', scale), (D', scale), (uptake, scale))"""
    Cu, Cl = v["du"] * RHO_C, v["dl"] * RHO_C
    h = v["delta_t"]
    x, y, e = v["eta"], v["efficacy"], T - D
    t, ts = c.terms(
        T, h * F / Cu, -(h * v["lambda0"] * T / Cu), h * v["a"] * T * T / Cu,
        -(h * y * x * T / Cu), h * y * x * D / Cu,
    )  # fmt: skip
    d, ds = c.terms(D, h * x * T / Cl, -(h * x * D / Cl))
    r, rs = c.terms(
        F, -(v["lambda0"] * T), v["a"] * T * T, -((y - 1) * x * T), (y - 1) * x * D
    )
    # the uptake is computed from finite differences: rounding is relative to C * T / delta_t
    rs = rs + (c.abs(T) * Cu + c.abs(D) * Cl) / h
    return (t, ts), (d, ds), (r, rs)


def decay(c, h, d):
    """exp(-h/d)"""
    return c.expf(-h / d)


def ir_ref(c, v, T1, T2, F):
    out = []
    for T, q, d in ((T1, v["q1"], v["d1"]), (T2, v["q2"], v["d2"])):
        k = decay(c, v["delta_t"], d)
        out.append(c.terms(T * k, q * F, -(q * F * k)))
    return out


def fin(c, *xs):
    """assume intermediate values stay in a moderate box (for the margin queries only)"""
    return xs


# -- both models --------------------------------------------------------------

KINDS = ("two_layer", "impulse")
UNITS = {"two_layer": TL_UNITS, "impulse": IR_UNITS}
CLS = {"two_layer": TwoLayerModel, "impulse": ImpulseResponseModel}


def kind(c):
    return c.choose("model", KINDS)


def values(c, k, prefix="", a=True, positive=True):
    if k == "two_layer":
        return tl_values(c, a=a, positive=positive, prefix=prefix)
    return ir_values(c, positive=positive, prefix=prefix)


def build(k, v, **over):
    return (tl_model if k == "two_layer" else ir_model)(v, **over)


def oracle(k, v, **over):
    """a reference instance: like build(), but from its own copy of the package"""
    with world.other():
        return build(k, v, **over)


PLAIN = {
    "two_layer": {"du": 50.0, "dl": 1200.0, "lambda0": 1.25, "a": 0.0625, "efficacy": 1.25, "eta": 0.75,
                  "delta_t": 31536000.0},
    "impulse": {"q1": 0.25, "q2": 0.375, "d1": 8.0, "d2": 400.0, "efficacy": 1.25, "delta_t": 1.0},
}


def other_value(c, k, p, name):
    """a fresh value for parameter p"""
    t = {"du": (20.0, 100.0), "dl": (300.0, 2000.0), "d1": (1.0, 9.0), "d2": (60.0, 500.0),
         "a": (-0.2, 0.2), "efficacy": (0.7, 1.7), "q1": (0.2, 0.6), "q2": (0.2, 0.6),
         "delta_t": (1e6, 4e7) if k == "two_layer" else (0.05, 2.0)}.get(p, (0.5, 2.0))
    if p == "a":
        return c.real(name, -5, 5, typical=t)
    return c.pos(name, 100 * t[1], typical=t)


def same_results(c, label, x, y, upto=None):
    """two models (or result tuples) hold the same results"""
    for n, p, q in zip(("A", "B", "uptake"), x if isinstance(x, tuple) else state(x),
                       y if isinstance(y, tuple) else state(y)):
        p, q = list(p), list(q)
        c.true("%s: %s length" % (label, n), len(p) == len(q))
        for i in range(len(p) if upto is None else min(upto, len(p))):
            c.eq("%s: %s[%d]" % (label, n, i), p[i], q[i])


def code_sizes(c, lo=6, quick=(130, 6), thorough=(600, 30)):
    """run lengths around the whole numbers among the constants of the package's code"""
    return world.sizes(lo, *c.tiered(quick, thorough))


def far_run(c):
    """
    a forcing as long as one of the larger numbers in the code, nothing until shortly before the end
    """
    n = c.choose("n", world.far_sizes(131, c.tiered(2100, 20000)) or [200])
    return n, c.array([0.0] * (n - 4) + list(forcing(c, 4)))


FAR = dict(max_witnesses=0, no_witness=True, local_only=True, budget=(200, 600), best_effort=True,
           bounds="runs as long as, and 2 longer than, each constant up to 2100 (thorough: 20000) in the "
           "code, with any forcing at the last 4 points")


def points(c):
    """the number of points of a run: 2, or one of the sizes found in the code"""
    return c.choose("points", [2] + code_sizes(c))


# -- starting from any state ----------------------------------------------------
# Harnesses that start a step from an arbitrary state write it into the arrays of results. That is a
# shortcut, no part of what the package promises: where the code does not take the state from there,
# the harness says so and decides nothing (the harnesses with whole runs remain).


def _same(x, y):
    return all(abs(float(p) - float(q)) <= 1e-9 * (1 + abs(float(q))) for p, q in zip(x, y))


def _plain_run(m, F, to):
    drive(m, np.array(F))
    for _ in range(to):
        m.step()
    return m


def state_is_in_the_results(two_layer):
    """on an ordinary run: after its state is written into another one's results, both go on alike"""
    with world.other():
        new = TwoLayerModel if two_layer else ImpulseResponseModel
        a = _plain_run(new(), [1.0, 1.02, 1.03, 1.04], 3)
        b = _plain_run(new(), [1.01, 1.0, 1.03, 1.04], 3)
        for s, t in zip(state(a)[:2], state(b)[:2]):
            t[2] = s[2]
        a.step()
        b.step()
        return _same([s[3] for s in state(b)], [s[3] for s in state(a)])


def state_is_all_there_is(two_layer):
    """the arrays, forcing and position are all a step needs"""
    with world.other():
        new = TwoLayerModel if two_layer else ImpulseResponseModel
        a = _plain_run(new(), [1.0, 1.02, 1.03, 1.04], 3)
        b = new()
        b._erf_mag = a._erf_mag.copy()
        place(b, *[s.copy() for s in state(a)], 2)
        a.step()
        b.step()
        return b._timestep_idx == a._timestep_idx and _same(
            [s[3] for s in state(b)], [s[3] for s in state(a)])


def place(m, A, B, R, i):
    if isinstance(m, TwoLayerModel):
        m._temp_upper_mag, m._temp_lower_mag, m._rndt_mag = A, B, R
    else:
        m._temp1_mag, m._temp2_mag, m._rndt_mag = A, B, R
    m._timestep_idx = i


_KNOWN = {}


def _need(test, m):
    key = test.__name__, isinstance(m, TwoLayerModel)
    if key not in _KNOWN:
        try:
            _KNOWN[key] = test(key[1])
        except Exception:  # whatever it is, it is not about a property
            _KNOWN[key] = False
    if not _KNOWN[key]:
        raise core.Unsupported("a step from a state written into the arrays of results")


def poke(m, i, S):
    """give the (two) temperatures at point i other values"""
    _need(state_is_in_the_results, m)
    A, B, _ = state(m)
    A[i], B[i] = S


def poke_run(c, m, k, S, F):
    """make a model that is at point k - 1 of a run, in state S and with forcing F there"""
    _need(state_is_all_there_is, m)
    m._erf_mag = c.sparse("erf", k + 2, [(k - 1, F)])
    place(m, c.sparse("A", k + 2, [(k - 1, S[0])]), c.sparse("B", k + 2, [(k - 1, S[1])]),
          c.sparse("R", k + 2, []), k - 1)


def private(f, *args):
    """a function that is not part of the interface: if it is not there like this, nothing is decided"""
    try:
        return f(*args)
    except (AttributeError, TypeError) as e:
        raise core.Unsupported("a step function on its own: %s" % e)


def last_step(c, m, S, F, n=2):
    """the last step of a run of n points, from state S under forcing F"""
    drive(m, c.array([0.0] * (n - 2) + [F, 0.0]))
    for _ in range(n - 1):
        m.step()
    poke(m, n - 2, S)
    m.step()
    A, B, R = state(m)
    return A[n - 1], B[n - 1], R[n - 1]


CODE_SIZES = "runs of 2 points and of up to 6 (thorough: 30) sizes near the constants in the code"
