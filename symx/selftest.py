"""The machinery itself: true assertions are discharged, false ones are refuted and replayed."""
import contextlib
import io
import json
import os

from . import run


def good(c):
    x, y = c.real("x", -10, 10), c.pos("y", 10)
    c.eq("square", (x + y) * (x + y), x * x + 2 * x * y + y * y)
    c.eq("exp", c.expf(x) * c.expf(-x) if False else c.expf(x), c.expf(x))
    c.true("order", x - y < x)


def bad(c):
    x = c.real("x", -10, 10)
    c.eq("wrong", x * x * x, x * x * x + (x - 3) * (1 if bool(x > 9) else 0))


def branch(c):
    x = c.real("x", -10, 10)
    if x > 7:
        if x * x < 50:
            c.fail("reached")
    c.true("reachable", True)


def main():
    ok = True
    for h, want in ((good, 0), (bad, 1), (branch, 1)):
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            rc = run.run_property("SELFTEST", [run.Harness(h.__name__, h, budget=(30, 30))], "quick", 1)
        print(h.__name__, "expected", want, "got", rc)
        ok = ok and rc == want
    path = os.path.join(run.ROOT, "evidence", "SELFTEST.json")
    if os.path.exists(path):
        os.remove(path)
    for f in os.listdir(os.path.join(run.ROOT, "replays")):
        if f.startswith("SELFTEST"):
            os.remove(os.path.join(run.ROOT, "replays", f))
    return 0 if ok else 1
