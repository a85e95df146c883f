"""Whole numbers, and any kind of array, count as the numbers they are."""
import fractions

from .common import *  # noqa: F401,F403
from .scen import META, frame, jan, meta, months, outputs, results, scenario, table, years

from scmdata.run import ScmRun

ASSUMPTIONS = [
    REALS, STUBS, EXP,
    "symbolic whole numbers are unbounded; the limited ranges of numpy's integers are covered by chosen values",
]

NARROW = {
    "int8": [120, -100, 90, 127, -128], "uint8": [200, 255, 0, 3, 254], "int16": [32000, -32768, 7, -1, 30000],
    "uint16": [65535, 0, 65000, 2, 1], "int32": [2 ** 31 - 1, -5, 2 ** 31 - 2, 3, -2 ** 31],
    "uint32": [2 ** 32 - 1, 0, 7, 2 ** 31, 1], "int64": [2 ** 40, -3, 2, 5, -(2 ** 41)],
    "uint64": [2 ** 40, 0, 3, 1, 2 ** 33], "longdouble": [3, -2, 5, 4, 1], ">f8": [3, -2, 5, 4, 1],
    ">i4": [3, -2, 5, 4, 1],
}
X = [3, -2, 5, 4, 1]


def locked(x):
    x = np.array(x)
    x.setflags(write=False)
    return x


SHAPES = {
    "list": lambda: list(X),
    "list of both": lambda: [3, -2.0, 5, 4.0, 1],
    "tuple": lambda: tuple(X),
    "array of floats": lambda: np.array(X, dtype=float),
    "every other": lambda: np.array([y for x in X for y in (x, 99)], dtype=float)[::2],
    "every other int": lambda: np.array([y for x in X for y in (x, 99)])[::2],
    "backwards": lambda: np.array(X[::-1], dtype=float)[::-1],
    "column": lambda: np.array([[x, 99.0] for x in X])[:, 0],
    "read-only": lambda: locked([float(x) for x in X]),
    "read-only ints": lambda: locked(X),
    "masked": lambda: np.ma.array(X, mask=False),
    "flattened": lambda: np.array([X], dtype=float).ravel(),
    "from an iterator": lambda: np.fromiter(X, dtype=float),
}


def same_run(c, t, m, v, F, label):
    w = oracle(t, v)
    A, B, R = run(w, c.array([1.0 * f for f in F]))
    m.run()
    for n, p, q in zip(names(m), state(m), (A, B, R)):
        c.true("%s: %s length" % (label, n), len(p) == len(q))
        for i in range(len(q)):
            c.eq("%s: %s[%d]" % (label, n, i), p[i], q[i])


def forcing_numbers(c):
    """forcing of chosen whole numbers in arrays of each integer type, every parameter"""
    t = kind(c)
    v = values(c, t)
    k = c.choose("type", sorted(NARROW))
    F = np.array(NARROW[k], dtype=k)
    u = c.choose("unit", [ERF, "mW/m^2"])
    m = build(t, v)
    drive(m, F, u)
    same_run(c, t, m, v, [fractions.Fraction(int(x)) / (1 if u == ERF else 1000) for x in NARROW[k]], k)
    c.true("array left alone", F.dtype == np.dtype(k) and [int(x) for x in F] == NARROW[k])


def forcing_shapes(c):
    """the same numbers in several kinds of sequence and array"""
    t = kind(c)
    v = values(c, t)
    k = c.choose("as", sorted(SHAPES))
    u = c.choose("unit", [ERF, "mW/m^2"])
    m = build(t, v)
    drive(m, SHAPES[k](), u)
    same_run(c, t, m, v, [fractions.Fraction(x) / (1 if u == ERF else 1000) for x in X], k)
    m.reset()
    same_run(c, t, m, v, [fractions.Fraction(x) / (1 if u == ERF else 1000) for x in X], k + " again")


def forcing_ints(c):
    """any whole numbers"""
    t = kind(c)
    v = values(c, t)
    n = c.choose("points", [2, 3])
    F = c.vec("F", n, -50, 50, kind="i")
    m = build(t, v)
    drive(m, F)
    same_run(c, t, m, v, list(F), "ints")
    observe_state(c, m)


INT = {"du": (1, 500), "dl": (1, 5000), "lambda0": (1, 9), "a": (-4, 4), "efficacy": (1, 9), "eta": (1, 9),
       "q1": (1, 9), "q2": (1, 9), "d1": (1, 50), "d2": (51, 5000), "delta_t": (1, 10 ** 7)}


def whole(c, t, p, tag=""):
    lo, hi = INT[p] if p != "delta_t" or t == "two_layer" else (1, 50)
    return c.int(p + tag, lo, hi)


def int_parameters(c):
    """any whole numbers as parameters, all or one of them"""
    t = kind(c)
    v = values(c, t)
    which = c.choose("which", ["all"] + sorted(UNITS[t]))
    w = dict(v)
    for p in UNITS[t]:
        if which in ("all", p):
            v[p] = whole(c, t, p, " as int")
            w[p] = 1.0 * v[p]
    if t == "impulse":
        c.assume(v["d1"] < v["d2"])
    F = forcing(c, 3)
    if c.flag("assigned"):
        m = CLS[t]()
        for p in sorted(v):
            setattr(m, p, Q(v[p], UNITS[t][p]))
    else:
        m = build(t, v)
    drive(m, F)
    for p in v:
        c.eq(p, getattr(m, p).magnitude, v[p])
    same_run(c, t, m, w, list(F), which)


KINDS_OF_NUMBER = {
    "int": int, "int8": np.int8, "int16": np.int16, "int32": np.int32, "int64": np.int64, "uint8": np.uint8,
    "0-d array": lambda x: np.array(x), "0-d array of float": lambda x: np.array(float(x)),
    "float64": np.float64, "longdouble": np.longdouble, "fraction": lambda x: fractions.Fraction(x),
}
PLAIN_INT = {"two_layer": {"du": 50, "dl": 120, "lambda0": 2, "a": 1, "efficacy": 2, "eta": 3, "delta_t": 100},
             "impulse": {"q1": 1, "q2": 2, "d1": 9, "d2": 100, "efficacy": 2, "delta_t": 1}}


def kinds_of_number(c):
    """one parameter as each kind of number, in its own and in other units; the others any"""
    t = kind(c)
    v = values(c, t)
    p = c.choose("parameter", sorted(UNITS[t]))
    k = c.choose("as", sorted(KINDS_OF_NUMBER))
    x = PLAIN_INT[t][p]
    # fractions are converted exactly, which is not what the float here would be
    unit = c.choose("unit", sorted({UNITS[t][p], OTHER_UNITS[p]} if k != "fraction" else {UNITS[t][p]}))
    v[p] = float(x)
    if unit != UNITS[t][p]:
        # not a whole number any more in the model's unit
        x = {"d1": 100, "dl": 101, "q1": 3}.get(p, x)
        v[p] = float(Q(1.0 * x, unit).to(UNITS[t][p]).magnitude)
    if t == "impulse":
        c.assume(v["d1"] < v["d2"])
    m = build(t, v)
    setattr(m, p, Q(KINDS_OF_NUMBER[k](x), unit))
    F = forcing(c, 3)
    drive(m, F)
    same_run(c, t, m, v, list(F), "%s as %s" % (p, k))


def int_units(c):
    """whole numbers in other units, where conversion gives fractions"""
    t = kind(c)
    v = values(c, t)
    p = c.choose("parameter", sorted(OTHER_UNITS.keys() & UNITS[t].keys()))
    n = c.int(p + " as int", 1, 50)
    f = float(Q(1.0, OTHER_UNITS[p]).to(UNITS[t][p]).magnitude)
    v[p] = f * n
    if t == "impulse":
        c.assume(v["d1"] < v["d2"])
    m = build(t, v, **{p: Q(n, OTHER_UNITS[p])})
    F = forcing(c, 3)
    drive(m, F)
    same_run(c, t, m, v, list(F), p)


def converted(c):
    """conversion of whole numbers"""
    t = kind(c)
    v = dict(PLAIN_INT[t])
    if t == "two_layer":
        v["a"] = 0
    p = c.choose("any value of", sorted(set(v) - {"a", "delta_t"}))
    v[p] = whole(c, t, p)
    w = {k: 1.0 * x for k, x in v.items()}
    if t == "impulse":
        c.assume(v["d1"] < v["d2"])
        x, y = (f.get_two_layer_parameters() for f in (build(t, v), oracle(t, w)))
    else:
        x, y = (f.get_impulse_response_parameters() for f in (build(t, v), oracle(t, w)))
    c.true("same parameters", sorted(x) == sorted(y))
    for k in sorted(y):
        u = TL_UNITS.get(k) or IR_UNITS[k]
        c.eq(k, x[k].to(u).magnitude, y[k].to(u).magnitude)


def ecs_numbers(c):
    """climate sensitivity of each kind of number"""
    k = c.choose("as", sorted(KINDS_OF_NUMBER))
    x = c.real("x", -20, 20, typical=(-3.0, -0.4))
    c.assume(x != 0)
    n = KINDS_OF_NUMBER[k](4)
    for label, e, r in (("f2x", convert_lambda_to_ecs(Q(x, "W/m^2/delta_degC"), Q(n, "W/m^2")), -4 / x),
                        ("lambda", convert_lambda_to_ecs(Q(n, "W/m^2/delta_degC"), Q(x, "W/m^2")), -x / 4),
                        ("lambda, default f2x", convert_lambda_to_ecs(Q(n, "W/m^2/delta_degC")), -0.935)):
        c.eq("%s as %s" % (label, k), e.to("delta_degC").magnitude, r)
    f = sorted(NARROW)[c.choose("type", list(range(len(NARROW))))]
    e = convert_lambda_to_ecs(Q(x, "W/m^2/delta_degC"), Q(np.array([3, 2, 5], dtype=f), "W/m^2"))
    c.eqs("f2x of " + f, e.to("delta_degC").magnitude, [-3 / x, -2 / x, -5 / x])


def scenario_numbers(c):
    """scenarios in columns of whole numbers"""
    t = kind(c)
    v = values(c, t)
    k = c.choose("type", ["int64", "int32", "int8", "uint8", "mixed"])
    cols = c.choose("cols", [years(4), months(4)])
    rows = [(meta("a"), [3, 2, 5, 4]), (meta("b"), [0, 100, 120, 7])]
    df = frame(rows, cols)
    if k == "mixed":
        df[cols[1]] = df[cols[1]].astype("int64")
        df[cols[3]] = df[cols[3]].astype("int8")
    else:
        df = df.astype(k)
    given = ScmRun(df) if c.flag("ScmRun") else df
    out = build(t, v).run_scenarios(given, progress=False)
    for mm, F in rows:
        w = oracle(t, v)
        w.delta_t = Q(1, "yr" if cols == years(4) else "month")
        got = table(out, scenario=mm["scenario"])
        for nm, s in outputs(t, *run(w, c.array([1.0 * f for f in F]))).items():
            c.eqs("%s of %s" % (nm, mm["scenario"]), got[nm][1], s)


O = dict(nocut=True, budget=(150, 600))
HARNESSES = [
    H("forcing_numbers", forcing_numbers, bounds="runs of 5 chosen values at the ends of %d types of number, 2 units, "
      "any parameters" % len(NARROW), **O),
    H("forcing_shapes", forcing_shapes, bounds="runs of 5 chosen values in %d kinds of sequence, 2 units, any "
      "parameters" % len(SHAPES), **O),
    H("forcing_ints", forcing_ints, bounds="runs of 2 and 3 points, any whole numbers", **O),
    H("int_parameters", int_parameters, bounds="runs of 3 points, one or all parameters any whole numbers", **O),
    H("kinds_of_number", kinds_of_number, bounds="each parameter a chosen value of %d kinds of number, 2 units" %
      len(KINDS_OF_NUMBER), max_witnesses=4, **O),
    H("int_units", int_units, bounds="each parameter any whole number in another unit", **O),
    H("converted", converted, bounds="each parameter in turn any whole number, the others chosen", **O),
    H("ecs_numbers", ecs_numbers, bounds="chosen values of each kind and type of number, the other argument any", **O),
    H("scenario_numbers", scenario_numbers, bounds="2 scenarios of 4 chosen values, 5 column types, any parameters",
      **O),
]
