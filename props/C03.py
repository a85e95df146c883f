"""Impulse response boxes relax exactly to their equilibria."""
from .common import *  # noqa: F401,F403

ASSUMPTIONS = [REALS, STUBS, EXP]


def check_steps(c, v, m, F, lo, hi):
    T1, T2, _ = state(m)
    for i in range(lo, hi):
        (a, sa), (b, sb) = ir_ref(c, v, T1[i - 1], T2[i - 1], F[i - 1])
        c.eq("T_1[%d]" % i, T1[i], a, scale=sa)
        c.eq("T_2[%d]" % i, T2[i], b, scale=sb)


def whole_run(c):
    n = c.choose("n", [1, 2, 3, 4])
    v = ir_values(c)
    F = forcing(c, n)
    m = ir_model(v)
    run(m, F)
    observe_state(c, m)
    T1, T2, _ = state(m)
    c.true("length", len(T1) == n and len(T2) == n)
    c.eq("start 1", T1[0], 0.0)
    c.eq("start 2", T2[0], 0.0)
    check_steps(c, v, m, F, 1, n)


def any_state(c):
    v = ir_values(c)
    F = forcing(c, 3)
    m = ir_model(v)
    drive(m, F)
    m.step()
    poke(m, 0, (c.real("T10", -50, 50), c.real("T20", -50, 50)))
    m.step()
    observe_state(c, m)
    check_steps(c, v, m, F, 1, 2)


def function(c):
    """the box function on its own, for all reals"""
    h, d = c.pos("h", 1e3), c.pos("d", 1e5)
    T, q, F = c.real("T", -50, 50), c.real("q", -50, 50), c.real("F", -50, 50)
    m = ImpulseResponseModel()
    r = private(m._calculate_next_temp, h, T, q, d, F)
    k = decay(c, h, d)
    e, s = c.terms(T * k, q * F, -(q * F * k))
    c.observe("r", r)
    c.eq("box", r, e, scale=s)


def splitting(c):
    """n steps of h/n under constant forcing equal one step of h"""
    n = c.choose("n", [2, 3])
    v = ir_values(c)
    v["efficacy"] = 1.0
    f, T10, T20 = c.real("f", -20, 20), c.real("T10", -20, 20), c.real("T20", -20, 20)

    def go(h, steps):
        w = dict(v)
        w["delta_t"] = h
        m = ir_model(w)
        drive(m, c.array([f] * (steps + 1)))
        m.step()
        poke(m, 0, (T10, T20))
        for _ in range(steps):
            m.step()
        T1, T2, _ = state(m)
        return T1[steps], T2[steps]

    h = v["delta_t"]
    fine = go(h, n)
    coarse = go(h * n, 1)
    for i in (0, 1):
        c.observe("fine%d" % i, fine[i])
        c.eq("box %d" % (i + 1), fine[i], coarse[i],
             scale=c.abs((T10, T20)[i]) + c.abs(v["q%d" % (i + 1)] * f))


def efficacy(c):
    """temperatures do not depend on the efficacy"""
    v = ir_values(c)
    w = dict(v)
    w["efficacy"] = 1.0
    F = forcing(c, 3)
    m, k = ir_model(v), ir_model(w)
    run(m, F)
    run(k, F)
    observe_state(c, m)
    for i in (0, 1):
        c.eqs(names(m)[i], state(m)[i], state(k)[i])


def any_index(c):
    v = ir_values(c)
    v["efficacy"] = 1.0
    m = ir_model(v)
    k = c.int("k", 1, 3000)
    T10, T20, F0 = c.real("T10", -50, 50), c.real("T20", -50, 50), c.real("F0", -50, 50)
    poke_run(c, m, k, (T10, T20), F0)
    m.step()
    (a, sa), (b, sb) = ir_ref(c, v, T10, T20, F0)
    c.eq("T_1", m._temp1_mag[k], a, scale=sa)
    c.eq("T_2", m._temp2_mag[k], b, scale=sb)


def sizes_in_code(c):
    """runs as long as the numbers in the package's code"""
    n = c.choose("n", world.sizes(6, c.tiered(130, 1500), c.tiered(16, 40)))
    v = ir_values(c)
    v["efficacy"] = 1.0
    F = forcing(c, n)
    m = ir_model(v)
    run(m, F)
    check_steps(c, v, m, F, 1, n)


def far(c):
    n, F = far_run(c)
    v = ir_values(c)
    v["efficacy"] = 1.0
    m = ir_model(v)
    run(m, F)
    check_steps(c, v, m, F, n - 4, n)


def long_run(c):
    v = ir_values(c)
    v["efficacy"] = 1.0
    n = c.tiered(60, 600)
    F = forcing(c, n)
    m = ir_model(v)
    run(m, F)
    check_steps(c, v, m, F, 1, n)


HARNESSES = [
    H("whole_run", whole_run, bounds="runs of 1 to 4 time points, all parameters and forcings"),
    H("any_state", any_state, bounds="one step from an arbitrary state (induction over steps)"),
    H("function", function, bounds="the box function on arbitrary reals"),
    H("splitting", splitting, bounds="2 and 3 substeps, all states, parameters, forcings",
      exp_products=True),
    H("efficacy", efficacy, bounds="runs of 3 points, all efficacies against efficacy 1"),
    H("any_index", any_index, best_effort=True,
      bounds="one step at an arbitrary (symbolic) position of a run of arbitrary length"),
    H("long_run", long_run, bounds="every step of a run of 60 (thorough: 600) points, efficacy 1",
      max_witnesses=0, no_witness=True, local_only=True),
    H("sizes_in_code", sizes_in_code, bounds="every step of runs about as long as the whole numbers "
      "among the code's constants (up to 16 lengths up to 130; thorough: 40 up to 1500)",
      max_witnesses=0, no_witness=True, local_only=True),
]
HARNESSES += [H("far", far, **FAR)]
