"""Without heat exchange only one layer responds."""
from .C15 import same_table
from .common import *  # noqa: F401,F403
from .scen import meta, months, results, scenario, table, years

ASSUMPTIONS = [REALS, STUBS, EXP]


def none_of(c, v):
    """eta = 0, said in one of several ways"""
    how = c.choose("zero", ["0.0", "0", "other unit", "-0.0"])
    v["eta"] = {"0": 0, "-0.0": -0.0}.get(how, 0.0)
    return {"eta": Q(0.0, "kW/m^2/kelvin")} if how == "other unit" else {}


def one_layer(c, v, T, F):
    C, h = v["du"] * RHO_C, v["delta_t"]
    t, ts = c.terms(T, h * F / C, -(h * v["lambda0"] * T / C), h * v["a"] * T * T / C)
    r, rs = c.terms(F, -(v["lambda0"] * T), v["a"] * T * T)
    return t, ts, r, rs + c.abs(T) * C / h


def any_state(c):
    v = tl_values(c, positive=False)
    m = tl_model(v, **none_of(c, v))
    T, D, F = c.real("T", -50, 50), c.real("D", -50, 50), c.real("F", -20, 20)
    A, B, R = last_step(c, m, (T, D), F, points(c))
    c.observe("A", A)
    t, ts, r, rs = one_layer(c, v, T, F)
    c.eq("upper layer", A, t, scale=ts)
    c.eq("lower layer keeps its temperature", B, D)
    c.eq("uptake", R, r, scale=rs + c.abs(D) * v["dl"] * RHO_C / v["delta_t"])


def whole_run(c):
    v = tl_values(c)
    over = none_of(c, v)
    how = c.choose("given", ["constructed", "assigned", "assigned after a run"])
    w = dict(v, eta=c.pos("old eta", 20, typical=(0.5, 1.0)))
    m = tl_model(v, **over) if how == "constructed" else tl_model(w)
    if how == "assigned after a run":
        run(m, forcing(c, 2, "G"))
    if how != "constructed":
        m.eta = over.get("eta", Q(v["eta"], TL_UNITS["eta"]))
    n = 4
    F = forcing(c, n)
    A, B, R = run(m, F)
    observe_state(c, m)
    c.true("length", len(A) == n and len(B) == n and len(R) == n)
    for i in range(n):
        c.eq("lower layer stays at rest[%d]" % i, B[i], 0.0)
    for i in range(1, n):
        t, ts, r, rs = one_layer(c, v, A[i - 1], F[i - 1])
        c.eq("upper layer[%d]" % i, A[i], t, scale=ts)
        c.eq("uptake[%d]" % i, R[i], r, scale=rs)


def far(c):
    v = tl_values(c)
    over = none_of(c, v)
    n, F = far_run(c)
    A, B, R = run(tl_model(v, **over), F)
    for i in range(n - 4, n):
        c.eq("lower layer stays at rest[%d]" % i, B[i], 0.0)
        t, ts, r, rs = one_layer(c, v, A[i - 1], F[i - 1])
        c.eq("upper layer[%d]" % i, A[i], t, scale=ts)
        c.eq("uptake[%d]" % i, R[i], r, scale=rs)


def no_influence(c):
    """depth of the lower layer and efficacy have no influence"""
    v = tl_values(c)
    over = none_of(c, v)
    which = c.choose("other", ["dl", "efficacy", "both"])
    w = dict(v)
    for p in ("dl", "efficacy"):
        if which in (p, "both"):
            w[p] = other_value(c, "two_layer", p, "other " + p)
    F = forcing(c, 4)
    x, y = run(oracle("two_layer", v), F), run(tl_model(w, **over), F)
    for nm, p, q in zip(("upper", "lower", "uptake"), y, x):
        c.eqs(nm, p, q)


def equilibrium(c):
    """the layer alone settles where the forcing balances the feedback"""
    v = tl_values(c, a=c.flag("a"))
    over = none_of(c, v)
    T = c.real("T", -20, 20)
    F = (v["lambda0"] - v["a"] * T) * T
    m = tl_model(v, **over)
    drive(m, c.array([F, F]))
    m.step()
    poke(m, 0, (T, 0.0))
    m.step()
    A, B, R = state(m)
    s = c.abs(T) + c.abs(v["delta_t"] * F / (v["du"] * RHO_C)) + c.abs(
        v["delta_t"] * v["lambda0"] * T / (v["du"] * RHO_C))
    c.eq("stays", A[1], T, scale=s)
    c.eq("no uptake", R[1], 0.0, scale=c.abs(F) + c.abs(v["lambda0"] * T)
         + c.abs(T) * v["du"] * RHO_C / v["delta_t"])


def one_box(c):
    """an impulse response model whose second box has no response (efficacy 1)"""
    v = ir_values(c)
    v["q2"], v["efficacy"] = c.choose("zero", [0.0, 0]), 1.0
    n = 4
    F = forcing(c, n)
    m = ir_model(v)
    A, B, R = run(m, F)
    observe_state(c, m)
    k = decay(c, v["delta_t"], v["d1"])
    for i in range(n):
        c.eq("second box[%d]" % i, B[i], 0.0)
    for i in range(1, n):
        t, ts = c.terms(A[i - 1] * k, v["q1"] * F[i - 1], -(v["q1"] * F[i - 1] * k))
        c.eq("first box[%d]" % i, A[i], t, scale=ts)
        r, rs = c.terms(F[i - 1], -(A[i - 1] / v["q1"]))
        c.eq("uptake[%d]" % i, R[i], r, scale=rs)


def from_scenario(c):
    v = tl_values(c)
    over = none_of(c, v)
    cols = c.choose("cols", [years(3), months(3)])
    F = list(forcing(c, 3))
    m = tl_model(v, **over)
    got = results(c, m, scenario([(meta(), F)], cols))
    v["delta_t"] = m.delta_t.to("s").magnitude
    T = 0.0
    for i in range(3):
        c.eq("lower layer[%d]" % i, got["Surface Temperature|Lower"][1][i], 0.0)
        c.eq("upper layer[%d]" % i, got["Surface Temperature|Upper"][1][i], T)
        T = one_layer(c, v, T, F[i])[0]


HARNESSES = [
    H("any_state", any_state, bounds="one step from any state (induction over steps), last step of "
      + CODE_SIZES),
    H("whole_run", whole_run, bounds="runs of 4 points, eta = 0 said in 4 ways, given or assigned"),
    H("far", far, **FAR),
    H("no_influence", no_influence, bounds="runs of 4 points"),
    H("equilibrium", equilibrium, bounds="one step from every equilibrium"),
    H("one_box", one_box, bounds="runs of 4 points, q2 = 0, efficacy 1"),
    H("from_scenario", from_scenario, nocut=True, bounds="scenarios of 3 points, yearly and monthly"),
]
