"""A failed or interrupted operation leaves nothing behind."""
import sys

from .C13 import Doer
from .C15 import same_table
from .C23 import snapshot, unchanged
from .common import *  # noqa: F401,F403
from .scen import NAN, jan, meta, months, results, scenario, table

ASSUMPTIONS = [REALS, STUBS, EXP, "an interruption is a KeyboardInterrupt raised at a line of the package's own code, "
               "outside the setters of parameters; interruptions within numpy, pint, pandas and scmdata are not explored"]


class Lines:
    """counts the lines of the package run in a block, and interrupts it at one of them"""

    def __init__(self, m, at=None):
        self.at, self.n, self.hit = at, 0, False
        self.root = sys.modules[type(m).__module__].__file__.rsplit("/", 1)[0] + "/"
        self.skip = {f.__code__ for k in type(m).__mro__ for p in vars(k).values()
                     if isinstance(p, property) for f in (p.fset,) if hasattr(f, "__code__")}

    def call(self, frame, event, arg):
        f = frame
        if not f.f_code.co_filename.startswith(self.root):
            return None
        while f is not None:
            if f.f_code in self.skip:
                return None
            f = f.f_back
        return self.line

    def line(self, frame, event, arg):
        if event == "line" and not self.hit:
            self.n += 1
            if self.n == self.at:
                self.hit = True
                raise KeyboardInterrupt
        return self.line

    def __enter__(self):
        self.before = sys.gettrace()
        sys.settrace(self.call)
        return self

    def __exit__(self, kind, exc, tb):
        sys.settrace(self.before)
        return kind is KeyboardInterrupt and self.hit


_NUMBER = {}


def crash_point(c, t, m, what, do, step):
    """one of the lines that what runs (counted once for each model)"""
    if (what, t) not in _NUMBER:
        with Lines(m) as n:
            do(m)
        _NUMBER[what, t] = n.n
    return c.choose("interrupted at line", list(range(1, _NUMBER[what, t] + 1, step)))


def way(c, at, ways):
    """quick: one of the ways to go on after each crash point, thorough: all"""
    return c.tiered(False, True) and c.choose("then", ways) or ways[at % len(ways)]


def stepped(m, F):
    drive(m, F)
    for _ in F:
        m.step()
    return state(m)


def intact(c, t, m, v, but=()):
    for p in UNITS[t]:
        if p not in but:
            c.true("unit of " + p, getattr(m, p).units == ur.Unit(UNITS[t][p]))
            c.eq("parameter " + p, getattr(m, p).magnitude, v[p])


def interrupted_run(c):
    """a run is interrupted at any line; the next one is that of a fresh model"""
    t = kind(c)
    v = values(c, t)
    m, w = build(t, v), oracle(t, v)
    F, G = forcing(c, 3), forcing(c, 3, "G")
    drive(w, F)
    if c.tiered(False, True) and c.flag("used before"):
        run(m, forcing(c, 4, "H"))
    drive(m, F)
    at = crash_point(c, t, w, "run", lambda x: x.run(), c.tiered(3, 1))
    with Lines(m, at):
        m.run()
    intact(c, t, m, v)
    then = way(c, at, ["other drivers", "reset", "converted", "changed"])
    if then == "converted":
        Doer(c, t, v, m).do("convert")
    if then == "changed":
        for p in ("lambda0", "du") if t == "two_layer" else ("q2", "d1"):
            Doer(c, t, v, m).do("set " + p)
        x, y = stepped(m, G), run(oracle(t, v), G)
    elif then == "reset":
        m.reset()
        m.run()
        x, y = state(m), run(oracle(t, v), F)
    else:
        x, y = run(m, G), run(oracle(t, v), G)
    for nm, s in zip(names(m), x):
        c.observe(nm, s)
    same_results(c, "as a fresh model", x, y)


def interrupted_conversion(c):
    """the same for a conversion, which can be repeated"""
    t = kind(c)
    v = values(c, t, a=False)
    m, w = build(t, v), oracle(t, v)
    get = "get_impulse_response_parameters" if t == "two_layer" else "get_two_layer_parameters"
    us = IR_UNITS if t == "two_layer" else TL_UNITS
    a = getattr(w, get)()
    with Lines(m, crash_point(c, t, w, "conversion", lambda x: getattr(x, get)(), 1)):
        getattr(m, get)()
    intact(c, t, m, v)
    b = getattr(m, get)()
    c.true("names", sorted(a) == sorted(b))
    for p in sorted(a):
        c.eq(p, b[p].to(us[p]).magnitude, a[p].to(us[p]).magnitude)
    F = forcing(c, 3)
    same_results(c, "as a fresh model", run(m, F), run(oracle(t, v), F))


def interrupted_scenarios(c):
    """run_scenarios is interrupted at any line; what was given is intact and the next call as the first"""
    t = kind(c)
    v = values(c, t)
    F, G = list(forcing(c, 2)), list(forcing(c, 2, "G"))
    cols = jan(2) + months(2, (2001, 2))
    rows = [(meta("a"), F + [NAN, NAN]), (meta("b", unit="kW/m^2"), [NAN, NAN] + G)]
    given = scenario(rows, cols)
    before = snapshot(given)
    at = crash_point(c, t, oracle(t, v), "scenarios",
                     lambda x: x.run_scenarios(scenario(rows, cols), progress=False), c.tiered(5, 1))
    m = build(t, v)
    with Lines(m, at):
        m.run_scenarios(given, progress=False)
    intact(c, t, m, v, but=("delta_t",))
    unchanged(c, "scenarios", snapshot(given), before)
    if way(c, at, ["the same", "another"]) == "the same":
        got = m.run_scenarios(given, progress=False)
        ref = oracle(t, v).run_scenarios(scenario(rows, cols), progress=False)
        for s in ("a", "b"):
            same_table(c, "scenario " + s, table(ref, scenario=s), table(got, scenario=s))
    else:
        H_ = list(forcing(c, 3, "H"))
        other = [(meta("x"), H_)]
        same_table(c, "another scenario", results(c, oracle(t, v), scenario(other, jan(3, 1990))),
                   results(c, m, scenario(other, jan(3, 1990))))


BAD = {
    "uneven steps": lambda F: (dict(), [F[0], NAN, F[1], F[2]]),
    "unit of another dimension": lambda F: (dict(unit="kg"), F),
    "no unit": lambda F: (dict(unit="not a unit"), F),
}


def bad_scenario(c):
    """one of three scenarios cannot be run: no result, and the model can be used as before"""
    t = kind(c)
    v = values(c, t)
    k = c.choose("which", [0, 1, 2])
    bad = c.choose("wrong", sorted(BAD))
    m = build(t, v)
    used = ["nothing", "run", "scenario"][k] if c.tiered(True, False) else c.choose(
        "before", ["nothing", "run", "scenario"])
    G = list(forcing(c, 4, "G"))
    if used == "run":
        run(m, c.array(G[:3]))
    elif used == "scenario":
        m.run_scenarios(scenario([(meta("x"), G)], months(4)), progress=False)
    rows = []
    for i in range(3):
        F = list(forcing(c, 4, "F%d" % i))
        d, f = BAD[bad](F) if i == k else (dict(), F)
        rows.append((meta("s%d" % i, **d), f))
    given = scenario(rows, jan(4))
    before = snapshot(given)
    try:
        m.run_scenarios(given, progress=False)
        c.true("no result", False)
    except Exception as exc:
        if bad == "uneven steps":
            c.true("error", isinstance(exc, NotImplementedError))
    unchanged(c, "scenarios", snapshot(given), before)
    intact(c, t, m, v, but=("delta_t",))
    then = c.choose("then", ["the others", "run", "other steps"])
    if then == "run":
        w = oracle(t, v)
        m.delta_t = w.delta_t = Q(c.pos("new step", 10), "yr")
        same_results(c, "run", stepped(m, c.array(G)), run(w, c.array(G)))
        return
    rest, cols = ([r for i, r in enumerate(rows) if i != k], jan(4)) if then == "the others" else (
        [(meta("y"), G)], months(4))
    got = m.run_scenarios(scenario(rest, cols), progress=False)
    ref = oracle(t, v).run_scenarios(scenario(rest, cols), progress=False)
    for r in rest:
        s = r[0]["scenario"]
        same_table(c, "scenario " + s, table(ref, scenario=s), table(got, scenario=s))


def past_the_end(c):
    """a step after the last one fails each time it is tried, the results stay as they are"""
    t = kind(c)
    v = values(c, t)
    n = c.choose("points", [1, 2, 3])
    m = build(t, v)
    F = forcing(c, n)
    run(m, F)
    y = run(oracle(t, v), F)
    for i in range(c.choose("steps after the last", c.tiered([1, n], [1, 2, n, n + 1]))):
        try:
            m.step()
            c.true("a step after the last", False)
        except Exception:
            c.true("a step after the last", True)
        same_results(c, "results", m, y)
    if c.flag("run once more"):
        try:
            m.run()
            c.true("a run after the last step", False)
        except Exception:
            pass
        same_results(c, "results", m, y)
    p = c.choose("changed", [None] + list(UNITS[t]))
    if p:
        Doer(c, t, v, m).do("set " + p)
    G = forcing(c, 3, "G")
    x = (run if c.flag("run") else stepped)(m, G)
    same_results(c, "as a fresh model", x, run(oracle(t, v), G))


O = dict(nocut=True, budget=(200, 600))
HARNESSES = [
    H("interrupted_run", interrupted_run, bounds="runs of 3 points interrupted at every third (thorough: every) "
      "line of the package", max_witnesses=10, **O),
    H("interrupted_conversion", interrupted_conversion, bounds="at every line", max_witnesses=5, **O),
    H("interrupted_scenarios", interrupted_scenarios, bounds="2 scenarios with other steps, at every 5th (thorough: "
      "every) line of the package", max_witnesses=8, **O),
    H("bad_scenario", bad_scenario, bounds="one of 3 scenarios of 4 points, 3 defects, 3 histories, 3 ways to go on",
      **O),
    H("past_the_end", past_the_end, bounds="runs of 1-3 points, up to 3 (4) steps more, one parameter changed", **O),
]
