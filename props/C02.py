"""Two-layer heat uptake closes the energy budget."""
from .common import *  # noqa: F401,F403

ASSUMPTIONS = [REALS, STUBS]


def budget(c, v, m, F, lo, hi):
    T, D, R = state(m)
    Cu, Cl, h = v["du"] * RHO_C, v["dl"] * RHO_C, v["delta_t"]
    for i in range(lo, hi):
        _, _, (r, rs) = tl_ref(c, v, T[i - 1], D[i - 1], F[i - 1])
        c.eq("uptake is the top-of-atmosphere imbalance[%d]" % i, R[i], r, scale=rs)
        t, ts = c.terms(
            Cu * T[i] / h, -(Cu * T[i - 1] / h), Cl * D[i] / h, -(Cl * D[i - 1] / h)
        )
        c.eq("uptake is the change in heat content[%d]" % i, R[i], t, scale=ts)


def whole_run(c):
    n = c.choose("n", [1, 2, 3, 4])
    v = tl_values(c, positive=False)
    F = forcing(c, n)
    m = tl_model(v)
    run(m, F)
    observe_state(c, m)
    T, D, R = state(m)
    c.true("length", len(R) == n)
    c.eq("start", R[0], 0.0)
    budget(c, v, m, F, 1, n)
    Cu, Cl, h = v["du"] * RHO_C, v["dl"] * RHO_C, v["delta_t"]
    tot, mag = c.terms(*[R[i] * h for i in range(n)])
    c.eq("cumulative", tot, Cu * T[n - 1] + Cl * D[n - 1],
         scale=mag + c.abs(Cu * T[n - 1]) + c.abs(Cl * D[n - 1]))


def any_state(c):
    v = tl_values(c, positive=False)
    F = forcing(c, 3)
    m = tl_model(v)
    drive(m, F)
    m.step()
    poke(m, 0, (c.real("T0", -50, 50), c.real("D0", -50, 50)))
    m.step()
    observe_state(c, m)
    budget(c, v, m, F, 1, 2)


def function(c):
    v = tl_values(c, positive=False)
    m = tl_model(v)
    Tn, Tp, Dn, Dp = [c.real(k, -50, 50) for k in ("Tn", "Tp", "Dn", "Dp")]
    Cu, Cl, h = c.pos("Cu", 1e10), c.pos("Cl", 1e10), v["delta_t"]
    r = private(m._calculate_next_rndt, h, Dn, Dp, Cl, Tn, Tp, Cu)
    t, ts = c.terms(Cu * Tn / h, -(Cu * Tp / h), Cl * Dn / h, -(Cl * Dp / h))
    c.observe("r", r)
    c.eq("uptake", r, t, scale=ts)


def any_index(c):
    v = tl_values(c, positive=False)
    m = tl_model(v)
    k = c.int("k", 1, 3000)
    T0, D0, F0 = c.real("T0", -50, 50), c.real("D0", -50, 50), c.real("F0", -50, 50)
    poke_run(c, m, k, (T0, D0), F0)
    m.step()
    _, _, (r, rs) = tl_ref(c, v, T0, D0, F0)
    c.eq("uptake", m._rndt_mag[k], r, scale=rs)


def sizes_in_code(c):
    """runs as long as the numbers in the package's code"""
    n = c.choose("n", world.sizes(6, c.tiered(70, 700), c.tiered(5, 20)))
    v = tl_values(c, positive=False)
    F = forcing(c, n)
    m = tl_model(v)
    run(m, F)
    budget(c, v, m, F, 1, n)


def far(c):
    n, F = far_run(c)
    v = tl_values(c, positive=False)
    m = tl_model(v)
    run(m, F)
    budget(c, v, m, F, n - 4, n)


def long_run(c):
    v = tl_values(c, positive=False)
    n = c.tiered(50, 400)
    F = forcing(c, n)
    m = tl_model(v)
    run(m, F)
    budget(c, v, m, F, 1, n)


HARNESSES = [
    H("whole_run", whole_run, bounds="runs of 1 to 4 time points, all parameters and forcings"),
    H("any_state", any_state, bounds="one step from an arbitrary state (induction over steps)"),
    H("function", function, bounds="the uptake function on arbitrary reals"),
    H("any_index", any_index, best_effort=True,
      bounds="one step at an arbitrary (symbolic) position of a run of arbitrary length"),
    H("long_run", long_run, bounds="every step of a run of 50 (thorough: 400) points",
      max_witnesses=0, no_witness=True, local_only=True),
    H("sizes_in_code", sizes_in_code, bounds="every step of runs about as long as the whole numbers "
      "among the code's constants (up to 5 lengths up to 70; thorough: 20 up to 700)",
      max_witnesses=0, no_witness=True, local_only=True),
]
HARNESSES += [H("far", far, **FAR)]
