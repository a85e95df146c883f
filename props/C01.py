"""Two-layer temperatures follow the documented energy balance."""
from .common import *  # noqa: F401,F403

ASSUMPTIONS = [REALS, STUBS]


def check_steps(c, v, m, F, lo, hi):
    T, D, _ = state(m)
    for i in range(lo, hi):
        (t, ts), (d, ds), _ = tl_ref(c, v, T[i - 1], D[i - 1], F[i - 1])
        c.eq("T_upper[%d]" % i, T[i], t, scale=ts)
        c.eq("T_lower[%d]" % i, D[i], d, scale=ds)


def whole_run(c):
    n = c.choose("n", [1, 2, 3, 5])
    v = tl_values(c, positive=False)
    F = forcing(c, n)
    m = tl_model(v)
    run(m, F)
    observe_state(c, m)
    T, D, _ = state(m)
    c.true("length", len(T) == n and len(D) == n)
    c.eq("start upper", T[0], 0.0)
    c.eq("start lower", D[0], 0.0)
    check_steps(c, v, m, F, 1, n)


def any_state(c):
    """one step from an arbitrary state"""
    v = tl_values(c, positive=False)
    F = forcing(c, 3)
    m = tl_model(v)
    drive(m, F)
    m.step()
    poke(m, 0, (c.real("T0", -50, 50), c.real("D0", -50, 50)))
    m.step()
    observe_state(c, m)
    check_steps(c, v, m, F, 1, 2)


def functions(c):
    """the step functions on their own, floats and ints"""
    v = tl_values(c, positive=False)
    T, D, F = c.real("T", -50, 50), c.real("D", -50, 50), c.real("F", -50, 50)
    m = tl_model(v)
    Cu, Cl = v["du"] * RHO_C, v["dl"] * RHO_C
    t = private(
        m._calculate_next_temp_upper, v["delta_t"], T, D, F, v["lambda0"], v["a"], v["efficacy"], v["eta"], Cu
    )
    d = private(m._calculate_next_temp_lower, v["delta_t"], D, T, v["eta"], Cl)
    (tr, ts), (dr, ds), _ = tl_ref(c, v, T, D, F)
    c.observe("t", t)
    c.observe("d", d)
    c.eq("upper", t, tr, scale=ts)
    c.eq("lower", d, dr, scale=ds)


HARNESSES = [
    H("whole_run", whole_run, bounds="runs of 1, 2, 3 and 5 time points, all parameters and forcings"),
    H("any_state", any_state, bounds="one step from an arbitrary state (induction over steps)"),
    H("functions", functions, bounds="the step functions on arbitrary reals"),
]


def any_index(c):
    """the step at an arbitrary position k of a run of arbitrary length"""
    v = tl_values(c, positive=False)
    m = tl_model(v)
    k = c.int("k", 1, 3000)
    T0, D0, F0 = c.real("T0", -50, 50), c.real("D0", -50, 50), c.real("F0", -50, 50)
    poke_run(c, m, k, (T0, D0), F0)
    m.step()
    (t, ts), (d, ds), _ = tl_ref(c, v, T0, D0, F0)
    c.eq("index", m._timestep_idx, k)
    c.eq("T_upper", m._temp_upper_mag[k], t, scale=ts)
    c.eq("T_lower", m._temp_lower_mag[k], d, scale=ds)
    c.eq("previous T_upper", m._temp_upper_mag[k - 1], T0)
    c.eq("previous T_lower", m._temp_lower_mag[k - 1], D0)


def sizes_in_code(c):
    """runs as long as the numbers in the package's code"""
    n = c.choose("n", world.sizes(6, c.tiered(130, 1500), c.tiered(16, 40)))
    v = tl_values(c, positive=False)
    F = forcing(c, n)
    m = tl_model(v)
    run(m, F)
    check_steps(c, v, m, F, 1, n)


def far(c):
    n, F = far_run(c)
    v = tl_values(c, positive=False)
    m = tl_model(v)
    run(m, F)
    check_steps(c, v, m, F, n - 4, n)


def long_run(c):
    v = tl_values(c, positive=False)
    n = c.tiered(100, 1000)
    F = forcing(c, n)
    m = tl_model(v)
    run(m, F)
    check_steps(c, v, m, F, 1, n)


HARNESSES += [
    H("any_index", any_index, best_effort=True,
      bounds="one step at an arbitrary (symbolic) position of a run of arbitrary length"),
    H("long_run", long_run, bounds="every step of a run of 100 (thorough: 1000) points",
      max_witnesses=0, no_witness=True, local_only=True),
    H("sizes_in_code", sizes_in_code, bounds="every step of runs about as long as the whole numbers "
      "among the code's constants (up to 16 lengths up to 130; thorough: 40 up to 1500)",
      max_witnesses=0, no_witness=True, local_only=True),
]
HARNESSES += [H("far", far, **FAR)]
