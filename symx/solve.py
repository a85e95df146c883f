"""
Solver dispatch with hard time limits.

Linear queries are decided in process.  Non-linear ones go to a small portfolio (z3's nlsat,
z3's default solver, cvc5, another nlsat pipeline), each in its own forked process that is
killed when its time is over: nlsat does not always honour its own timeout.
"""
import json
import os
import select
import signal
import time
from fractions import Fraction

import z3

from .core import Unsupported, rv

_NL = {}
_INT_CACHE = {}


def _walk(t, pred, cache):
    k = t.get_id()
    r = cache.get(k)
    if r is None:
        stack, seen, res = [t], set(), False
        while stack:
            x = stack.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            c = cache.get(i)
            if c is not None:
                if c[1]:
                    res = True
                    break
                continue
            if pred(x):
                res = True
                break
            stack.extend(x.children())
        r = cache[k] = (t, res)
    return r[1]


def _num(x):
    return z3.is_rational_value(x) or z3.is_int_value(x) or z3.is_algebraic_value(x)


def _is_nl(x):
    if not z3.is_app(x):
        return False
    k = x.decl().kind()
    if k == z3.Z3_OP_MUL:
        return sum(1 for a in x.children() if not _num(a)) > 1
    if k in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_REM):
        return not _num(x.arg(1))
    return k == z3.Z3_OP_POWER


def nonlinear(t):
    return _walk(t, _is_nl, _NL)


_DIV = {}


def has_div(t):
    return _walk(
        t, lambda x: z3.is_app_of(x, z3.Z3_OP_DIV) and not _num(x.arg(1)), _DIV
    )


def has_int(t):
    return _walk(t, lambda x: z3.is_int(x) and not z3.is_int_value(x), _INT_CACHE)


# ---------------------------------------------------------------- models


def num_value(v):
    if z3.is_algebraic_value(v):
        v = v.approx(30)
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return v.as_fraction()
    v = z3.simplify(v)
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return v.as_fraction()
    if z3.is_algebraic_value(v):
        return v.approx(30).as_fraction()
    raise Unsupported("model value %s" % v)


class Model:
    """variable name -> number; terms are evaluated by substitution"""

    def __init__(self, vals, defs=None):
        self.vals = vals  # name -> (sort, Fraction)
        self.defs = defs or {}  # var id -> term, for variables inlined before solving

    def number(self, t):
        pairs = []
        for x in consts(t):
            if z3.is_bool(x):
                pairs.append((x, z3.BoolVal(bool(self.vals.get(x.decl().name(), ("b", 0))[1]))))
                continue
            n = x.decl().name()
            if n not in self.vals and x.get_id() in self.defs:
                self.vals[n] = ("r", Fraction(self.number(self.defs[x.get_id()])))
            v = self.vals.get(n, ("r", Fraction(0)))[1]
            pairs.append((x, z3.IntVal(int(v)) if x.is_int() else rv(Fraction(v))))
        return num_value(z3.simplify(z3.substitute(t, pairs) if pairs else t))


_CONSTS = {}


def consts(t):
    k = t.get_id()
    r = _CONSTS.get(k)
    if r is None:
        r = _CONSTS[k] = (t, _consts(t))
    return r[1]


def _consts(t):
    seen, out, stack = set(), [], [t]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(x)
        stack.extend(x.children())
    return out


def _dump_model(m):
    out = {}
    for d in m.decls():
        if d.arity():
            continue
        v = m[d]
        if z3.is_bool(v):
            out[d.name()] = ["b", "1" if z3.is_true(v) else "0"]
            continue
        try:
            out[d.name()] = ["i" if z3.is_int(v) else "r", str(Fraction(num_value(v)))]
        except Unsupported:
            return None
    return out


def _load_model(d):
    return Model({k: (s, Fraction(v)) for k, (s, v) in d.items()})


# ---------------------------------------------------------------- back ends


def _solver(which):
    if which == "nlsat":
        return z3.SolverFor("QF_NRA")
    if which == "nlsat-tactic":
        return z3.Then("simplify", "solve-eqs", "purify-arith", "elim-term-ite",
                       "qfnra-nlsat").solver()
    return z3.Solver()


def _z3_answer(constraints, which, timeout_ms=None):
    s = _solver(which)
    if timeout_ms:
        s.set("timeout", int(timeout_ms))
    s.add(*constraints)
    r = s.check()
    if r == z3.sat:
        return "sat", s.model()
    return ("unsat", None) if r == z3.unsat else ("unknown", None)


def _cvc5_answer(constraints):
    """unsat/unknown from cvc5 (no model is taken from it)"""
    import cvc5

    s = z3.Solver()
    s.add(*constraints)
    text = s.to_smt2()
    if "(root-obj" in text:
        return "unknown"
    tm = cvc5.TermManager()
    sl = cvc5.Solver(tm)
    sl.setLogic("QF_NIRA" if any(has_int(c) for c in constraints) else "QF_NRA")
    p = cvc5.InputParser(sl)
    p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, text, "q")
    sm = p.getSymbolManager()
    res = "unknown"
    while True:
        cmd = p.nextCommand()
        if cmd.isNull():
            break
        out = cmd.invoke(sl, sm).strip()
        if "error" in out:
            return "unknown"
        if out in ("sat", "unsat", "unknown"):
            res = out
    return "unsat" if res == "unsat" else "unknown"


class _Job:
    def __init__(self, which, constraints):
        self.which = which
        r, w = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(r)
                for s in (signal.SIGINT, signal.SIGTERM):
                    signal.signal(s, signal.SIG_DFL)
                dn = os.open(os.devnull, os.O_WRONLY)
                os.dup2(dn, 1)
                os.dup2(dn, 2)
                signal.alarm(900)
                if which == "cvc5":
                    ans, model = _cvc5_answer(constraints), None
                else:
                    ans, m = _z3_answer(constraints, which)
                    model = _dump_model(m) if ans == "sat" else None
                    if ans == "sat" and model is None:
                        ans = "unknown"
                data = json.dumps([ans, model]).encode()
                while data:
                    data = data[os.write(w, data):]
            except BaseException:
                pass
            os._exit(0)
        os.close(w)
        self.fd = r
        self.buf = b""

    def stop(self):
        try:
            os.kill(self.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        try:
            os.waitpid(self.pid, 0)
        except ChildProcessError:
            pass
        os.close(self.fd)


def _portfolio(raw, poly, ints, budget):
    """[(start in seconds, solver, query)]; the first definite answer wins"""
    if ints:
        plan = [(0.0, "z3", raw), (0.3, "cvc5", raw)]
    elif poly is None:
        plan = [(0.0, "nlsat", raw), (0.3, "z3", raw), (1.0, "cvc5", raw),
                (2.0, "nlsat-tactic", raw)]
    else:
        plan = [(0.0, "nlsat", poly), (0.3, "z3", poly), (0.8, "nlsat", raw), (1.5, "cvc5", poly),
                (2.5, "nlsat-tactic", raw), (4.0, "cvc5", raw)]
    t0 = time.time()
    jobs = []
    try:
        while True:
            now = time.time() - t0
            if now >= budget:
                return "unknown", None, None
            while plan and (plan[0][0] <= now or not jobs):
                jobs.append(_Job(*plan.pop(0)[1:]))
            wait = budget - now
            if plan:
                wait = min(wait, max(0.0, plan[0][0] - now))
            ready, _, _ = select.select([j.fd for j in jobs], [], [], wait)
            for j in [j for j in jobs if j.fd in ready]:
                part = os.read(j.fd, 65536)
                if part:
                    j.buf += part
                    continue
                jobs.remove(j)
                j.stop()
                try:
                    ans, model = json.loads(j.buf.decode())
                except ValueError:
                    ans, model = "unknown", None
                if ans == "unsat":
                    return ans, None, j.which
                if ans == "sat" and model is not None:
                    return ans, _load_model(model), j.which
            if not jobs and not plan:
                return "unknown", None, None
    finally:
        for j in jobs:
            j.stop()


_RELAXED = {}


def _relax(t):
    """t with its whole numbers replaced by reals, or None where that makes a difference to operations"""
    k = t.get_id()
    if k in _RELAXED:
        return _RELAXED[k][1]
    r = _relaxed(t)
    _RELAXED[k] = (t, r)
    return r


def _relaxed(t):
    if not has_int(t):
        return rv(Fraction(t.as_long())) if z3.is_int_value(t) else t
    if not z3.is_app(t):
        return None
    kind = t.decl().kind()
    if kind == z3.Z3_OP_UNINTERPRETED:
        return z3.Real(t.decl().name() + "!real") if not t.children() and z3.is_int(t) else None
    if kind in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_REM, z3.Z3_OP_TO_INT, z3.Z3_OP_IS_INT):
        return None
    args = [_relax(a) for a in t.children()]
    if any(a is None for a in args):
        return None
    if kind == z3.Z3_OP_TO_REAL:
        return args[0]
    f = {z3.Z3_OP_ADD: lambda *a: z3.Sum(*a), z3.Z3_OP_MUL: lambda *a: z3.Product(*a),
         z3.Z3_OP_SUB: lambda a, b: a - b, z3.Z3_OP_DIV: lambda a, b: a / b, z3.Z3_OP_UMINUS: lambda a: -a,
         z3.Z3_OP_LE: lambda a, b: a <= b, z3.Z3_OP_LT: lambda a, b: a < b, z3.Z3_OP_GE: lambda a, b: a >= b,
         z3.Z3_OP_GT: lambda a, b: a > b, z3.Z3_OP_EQ: lambda a, b: a == b, z3.Z3_OP_AND: z3.And,
         z3.Z3_OP_OR: z3.Or, z3.Z3_OP_NOT: z3.Not, z3.Z3_OP_IMPLIES: z3.Implies, z3.Z3_OP_ITE: z3.If,
         z3.Z3_OP_DISTINCT: z3.Distinct}.get(kind)
    return None if f is None else f(*args)


def _without_ints(constraints, stats, budget_s, poly):
    """whether the constraints have no solution even in the reals"""
    real = [_relax(c) for c in constraints]
    if any(c is None for c in real):
        return False
    return solve(real, stats, budget_s, poly)[0] == "unsat"


def solve(constraints, stats, budget_s=20.0, poly=None):
    """
    ('sat', Model) / ('unsat', None) / ('unknown', None)

    poly(constraints) -> (equivalent polynomial constraints, inlined definitions) or None
    """
    original = constraints
    constraints = [c for c in (z3.simplify(c) for c in constraints) if not z3.is_true(c)]
    if any(z3.is_false(c) for c in constraints):
        return "unsat", None
    t0 = time.time()
    stats.queries += 1
    try:
        if not any(nonlinear(c) for c in constraints):
            r, m = _z3_answer(constraints, "z3", 1000 * budget_s)
            if r == "sat":
                d = _dump_model(m)
                m = None if d is None else _load_model(d)
            which = "z3"
        else:
            ints = any(has_int(c) for c in constraints)
            if ints and _without_ints(original, stats, min(3.0, budget_s), poly):
                return "unsat", None
            alt = poly(original) if poly is not None and not ints else None
            pc = None
            if alt is not None:
                pc = [c for c in (z3.simplify(c) for c in alt[0]) if not z3.is_true(c)]
                if any(z3.is_false(c) for c in pc):
                    stats.by_solver["normal form"] = stats.by_solver.get("normal form", 0) + 1
                    return "unsat", None
            r, m, which = _portfolio(constraints, pc, ints, max(0.3, budget_s))
            if m is not None and alt is not None:
                m.defs = alt[1]
        if r == "unsat" or (r == "sat" and m is not None):
            stats.by_solver[which] = stats.by_solver.get(which, 0) + 1
            return r, m
        stats.unknown += 1
        return "unknown", None
    finally:
        stats.solver_s += time.time() - t0


def num_of(m, t):
    return m.number(t)
