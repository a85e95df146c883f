"""
Path exploration, obligations and solver dispatch.

Two interchangeable contexts run the same harness function:

* ``SymCtx``   - inputs are symbolic, obligations go to the solver;
* ``RealCtx``  - inputs are given numbers, obligations are evaluated in floats
                 (replay of a counterexample / of a path witness on the real code).
"""
import math
import random
import re
import time
from fractions import Fraction

import numpy as np
import z3

from . import core
from . import norm
from . import sample
from . import solve as solve_mod
from . import world
from .solve import num_of
from .core import Budget, EngineError, PathAbort, Sym, SymBool, Unsupported, as_real, rv

# ---------------------------------------------------------------- solving


class Stats:
    def __init__(self):
        self.queries = 0
        self.obligations = 0
        self.discharged = 0
        self.discharged_exact = 0
        self.discharged_tol = 0
        self.structural = 0
        self.discharged_normal = 0
        self.normal_s = 0.0
        self.branch_queries = 0
        self.solver_s = 0.0
        self.unknown = 0
        self.paths = 0
        self.forks = 0
        self.by_solver = {}

    def as_dict(self):
        return dict(self.__dict__)


_VARS = {}


def free_vars(t):
    """frozenset of ids of uninterpreted constants in t"""
    k = t.get_id()
    r = _VARS.get(k)
    if r is not None:
        return r[1]
    seen, out, stack = set(), set(), [t]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        c = _VARS.get(i)
        if c is not None:
            out |= c[1]
            continue
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(i)
        stack.extend(x.children())
    r = frozenset(out)
    _VARS[k] = (t, r)
    return r


def slice_facts(facts, goal_vars):
    """facts connected to goal_vars through shared variables"""
    want = set(goal_vars)
    rest = [(f, free_vars(f)) for f in facts]
    picked = []
    changed = True
    while changed:
        changed = False
        nxt = []
        for f, v in rest:
            if not v or v & want:
                picked.append(f)
                if not v <= want:
                    want |= v
                    changed = True
            else:
                nxt.append((f, v))
        rest = nxt
    return picked


def to_float(fr):
    if isinstance(fr, int):
        return fr
    try:
        return float(fr)
    except OverflowError:
        return math.inf if fr > 0 else -math.inf


# ---------------------------------------------------------------- contexts


def _where(exc):
    """innermost frames, for messages"""
    tb, out = exc.__traceback__, []
    while tb is not None:
        out.append("%s:%d" % (tb.tb_frame.f_code.co_name, tb.tb_lineno))
        tb = tb.tb_next
    return " [%s]" % " > ".join(out[-4:])


class Candidate(EngineError):
    def __init__(self, info):
        super().__init__(info["label"])
        self.info = info


class BaseCtx:
    symbolic = False

    # shared conveniences -------------------------------------------------

    tier = "quick"

    def tiered(self, quick, thorough):
        return thorough if self.tier == "thorough" else quick

    def raises(self, label, exc_types, fn):
        """fn() must raise exactly one of exc_types"""
        try:
            fn()
        except exc_types:
            self.true(label, True)
        except Exception as exc:
            self.fail("%s: raised %s (%s) instead" % (label, type(exc).__name__, exc))
        else:
            self.fail("%s: nothing raised" % label)

    def terms(self, *ts):
        """(sum, sum of absolute values) of the terms"""
        tot, mag = 0.0, 0.0
        for t in ts:
            tot = tot + t
            mag = mag + self.abs(t)
        return tot, mag

    def pos(self, name, hi=None, lo=0.0, typical=None):
        return self.real(name, lo=lo, hi=hi, lo_strict=True, typical=typical)

    def vec(self, name, n, lo=None, hi=None, kind="f"):
        vals = [
            self.int("%s[%d]" % (name, i), lo, hi)
            if kind == "i"
            else self.real("%s[%d]" % (name, i), lo, hi)
            for i in range(n)
        ]
        return self.array(vals, kind)

    def eqs(self, label, xs, ys, **kw):
        xs, ys = list(xs), list(ys)
        self.true(label + " (length)", len(xs) == len(ys))
        for i, (x, y) in enumerate(zip(xs, ys)):
            self.eq("%s[%d]" % (label, i), x, y, **kw)


class SymCtx(BaseCtx):
    symbolic = True

    def __init__(self, stats, deadline, opts):
        self.stats = stats
        self.deadline = deadline
        self.opts = opts
        self.query_s = opts.get("query_s", 30.0)
        self.branch_s = opts.get("branch_s", 3.0)
        self.max_paths = opts.get("max_paths", 4000)
        self._memo = {}
        self._keep = []
        self.labels = {}

    # -- driving ----------------------------------------------------------

    def explore(self, fn):
        """run fn on every feasible path; returns list of candidates"""
        work = [[]]
        self.candidates = []
        self.witnesses = []
        self.unsupported = []
        self.incomplete = None
        self.undecided = []
        self.decisions = 0
        while work:
            if time.time() > self.deadline:
                self.incomplete = "time budget exhausted with %d paths pending" % len(work)
                break
            if self.stats.paths >= self.max_paths:
                self.incomplete = "path budget exhausted with %d paths pending" % len(work)
                break
            prefix = work.pop()
            self._start(prefix)
            world.renew()
            core.CTX = self
            try:
                try:
                    fn(self)
                except Exception as exc:  # the code under test failed on this path
                    where = _where(exc)
                    self.violation("unexpected %s: %s%s" % (type(exc).__name__, exc, where))
                self.stats.paths += 1
                self._witness()
            except PathAbort:
                pass
            except Candidate as c:
                self.stats.paths += 1
                self.candidates.append(c.info)
                if len(self.candidates) >= self.opts.get("max_candidates", 4):
                    self.incomplete = "stopped after %d counterexamples" % len(self.candidates)
                    break
            except Unsupported as u:
                self.stats.paths += 1
                info = {"why": str(u), "where": _where(u), "values": None}
                try:
                    m = self._model(z3.BoolVal(True))
                    if m is not None:
                        info["values"] = self._values(m)
                        info["choices"] = dict(self.choices)
                except EngineError:
                    pass
                self.unsupported.append(info)
                if len(self.unsupported) >= 6:
                    self.incomplete = "stopped after paths that cannot be encoded"
                    break
            except Budget as b:
                self.incomplete = str(b)
                break
            finally:
                core.CTX = None
            self.decisions += len(self.trace) - len(prefix) + 1
            for i in range(len(prefix), len(self.trace)):
                d = self.trace[i]
                if d[1] is not None:  # alternatives
                    for alt in d[1]:
                        work.append([x[0] for x in self.trace[:i]] + [alt])
        if self.undecided and self.incomplete is None:
            self.incomplete = "no answer from the solvers for " + ", ".join(
                map(repr, self.undecided[:6])
            )
        return self.candidates

    def _start(self, prefix):
        self.prefix = prefix
        self.trace = []  # (decision, alternatives or None)
        self.facts = []
        self.boxes = []
        self.vars = {}
        self.typical = {}
        self.decided = {}
        self.absdefs = {}
        self.rounds = []
        self.texts = {}
        self._signs = {}
        self._local_key = None
        self._cut_vars = set()
        self._depth_hint = 1
        self._points = None
        self.defs = {}
        self._def_of = {}
        self._plain = []
        self._indexed = 0
        self.choices = {}
        self.obs = []
        self.cuts = 0
        self.aux = 0
        self.exps = []
        self.sqrts = {}
        self.lemmas = 0
        self.path_obligations = 0
        self.expected_exc = None

    # -- inputs -----------------------------------------------------------

    def real(self, name, lo=None, hi=None, lo_strict=False, typical=None):
        """lo: a domain bound (always assumed); hi: size of the explored box"""
        v = z3.Real(name)
        self.vars[name] = v
        if typical is not None:
            self.typical[name] = typical
        elif lo is not None and lo < 0:
            self.typical[name] = (max(lo, -3.0), min(hi if hi is not None else 3.0, 3.0))
        elif lo is None:
            self.typical[name] = (-3.0, 3.0)
        if lo is not None:
            c = v > rv(core.frac(lo)) if lo_strict else v >= rv(core.frac(lo))
            # a zero lower bound with strict is a domain restriction, any other is a box
            if lo == 0 or self.opts.get("hard_box"):
                self.facts.append(c)
                if lo_strict and lo == 0:
                    self._signs[v.get_id()] = (v, 1)
                if lo == 0 and lo_strict:
                    self.boxes.append(v >= rv(Fraction(1, 1000000)))
            else:
                self.boxes.append(c)
        if hi is not None:
            c = v <= rv(core.frac(hi))
            (self.facts if self.opts.get("hard_box") else self.boxes).append(c)
        return Sym(v)

    def int(self, name, lo=None, hi=None):
        v = z3.Int(name)
        self.vars[name] = v
        if lo is not None:
            self.facts.append(v >= lo)
            if lo > 0:
                self._signs[v.get_id()] = (v, 1)
        if hi is not None:
            self.boxes.append(v <= hi)
        return Sym(v)

    def array(self, vals, kind="f"):
        from .arrays import symarray

        return symarray(vals, kind)

    def nan_array(self, n):
        from .arrays import symarray

        return symarray([float("nan")] * n)

    def sparse(self, name, size, entries):
        """a sequence of `size` arbitrary values apart from `entries` [(index, value)]"""
        from .seq import SymSeq

        return SymSeq(name, entries)

    def choose(self, name, options):
        options = list(options)
        i = self._decide_n(len(options))
        self.choices[name] = i
        return options[i]

    def flag(self, name):
        return self.choose(name, [False, True])

    def assume(self, cond):
        if isinstance(cond, (bool, np.bool_)):
            if not cond:
                raise PathAbort()
            return
        t = cond.t if isinstance(cond, SymBool) else cond
        self.facts.append(t)

    def scale_unit(self, reg, name, base, factor):
        return _define_unit(reg, name, base, factor)

    def value(self, x):
        return x

    def abs(self, x):
        t = core.to_term(x)
        if t is None:
            raise Unsupported("abs of %r" % (x,))
        c = core._const(z3.simplify(t))
        if c is not None:
            return abs(float(c))
        t = as_real(t)
        m = self.fresh("abs")
        self.absdefs[m.get_id()] = (m, t)
        return Sym(m)

    def expf(self, x):
        return x.exp() if isinstance(x, Sym) else math.exp(x)

    def text(self, v, spec):
        """v as text: numbers that are the same once rounded have the same text"""
        if not spec[-1:] in list("fFeEgG") and not core._on_grid(v.t):
            return repr(v)
        m = re.search(r"\.(\d+)", spec)
        n = int(m.group(1)) if m else 6
        seen = self.texts.setdefault(spec, [])
        for w, s in seen:
            if w.t.eq(v.t):
                return s
        for w, s in seen:
            if core._on_grid(v.t):
                same = v == w
            elif spec[-1] in "fF":
                same = v.__round__(n) == w.__round__(n)
            else:
                near = abs(v - w) * 10 ** (n + 1) <= abs(w)
                same = near
            if bool(same):
                return s
        s = repr(v)
        seen.append((v, s))
        return s

    def rounded32(self, v):
        """v after rounding to single precision: relative error of at most 2**-24"""
        k = core._const(z3.simplify(v.t))
        if k is not None:
            return Sym(rv(core.frac(float(np.float32(float(k))))))
        e = self.fresh("r32")
        self.rounds.append((as_real(v.t), e))
        self.facts += [e >= rv(Fraction(-1, 2 ** 24)), e <= rv(Fraction(1, 2 ** 24))]
        return Sym(as_real(v.t) * (1 + e))

    # -- decisions --------------------------------------------------------

    def _decide_n(self, n):
        p = len(self.trace)
        if p < len(self.prefix):
            d = self.prefix[p]
            self.trace.append((d, None))
            return d
        self.trace.append((0, list(range(1, n)) or None))
        self.stats.forks += n - 1
        return 0

    def branch(self, t):
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        neg = z3.is_not(t)
        atom = t.arg(0) if neg else t
        known = self.decided.get(atom.get_id())
        if known is not None:
            return known[1] != neg
        d = self._branch(t)
        self.decided[atom.get_id()] = (atom, d != neg)
        return d

    def _branch(self, t):
        p = len(self.trace)
        if p < len(self.prefix):
            d = self.prefix[p]
            self.trace.append((d, None))
            self.facts.append(t if d else z3.Not(t))
            return bool(d)
        if time.time() > self.deadline:
            raise Budget("time budget exhausted")
        can_t = self._feasible(t)
        can_f = True if not can_t else self._feasible(z3.Not(t))
        if not can_t and not can_f:
            raise PathAbort()
        if can_t and can_f:
            self.trace.append((True, [False]))
            self.stats.forks += 1
            self.facts.append(t)
            return True
        self.trace.append((can_t, None))
        self.facts.append(t if can_t else z3.Not(t))
        return can_t

    def _feasible(self, t):
        if len(self.defs) > 6:
            loc = self._local(t)
            key = (t.get_id(), tuple(sorted(f.get_id() for f in loc)), "local")
            if key not in self._memo:
                self._keep.append((t, loc))
                self.stats.branch_queries += 1
                self._memo[key] = self._solve(loc + [t], self.branch_s)[0] == "unsat"
            if self._memo[key]:
                return False
        fs = slice_facts(self.facts, free_vars(t))
        key = (t.get_id(), tuple(sorted(f.get_id() for f in fs)))
        if key in self._memo:
            return self._memo[key]
        self._keep.append((t, fs))
        self.stats.branch_queries += 1
        r, _ = self._solve(fs + [t], self.branch_s)
        res = r != "unsat"
        self._memo[key] = res
        return res

    # -- arithmetic services ------------------------------------------------

    def nonzero(self, b):
        c = core._const(b)
        if c is not None:
            if c == 0:
                raise ZeroDivisionError("float division by zero")
            return
        if self._sign(b) in (1, -1):
            return
        if self.branch(b == 0):
            raise ZeroDivisionError("float division by zero")

    def _sign(self, t):
        """1 / -1 / 0 when the sign follows from those of the inputs by itself, else None"""
        i = t.get_id()
        if i in self._signs:
            return self._signs[i][1]
        r = self._sign_of(t)
        if r is not None:
            self._signs[i] = (t, r)
        return r

    def _sign_of(self, t):
        c = core._const(t)
        if c is not None:
            return (c > 0) - (c < 0)
        k = t.decl().kind()
        if k == z3.Z3_OP_UNINTERPRETED:
            return None
        if k == z3.Z3_OP_TO_REAL:
            return self._sign(t.arg(0))
        if k == z3.Z3_OP_UMINUS:
            r = self._sign(t.arg(0))
            return None if r is None else -r
        if k == z3.Z3_OP_MUL or k == z3.Z3_OP_DIV and not t.is_int():
            r = 1
            for a in t.children():
                g = self._sign(a)
                if g is None or (g == 0 and k == z3.Z3_OP_DIV):
                    return None
                r *= g
            return r
        if k == z3.Z3_OP_ADD:
            gs = {self._sign(a) for a in t.children()}
            gs.discard(0)
            return gs.pop() if len(gs) == 1 else (0 if not gs else None)
        return None

    def fresh(self, stem):
        self.aux += 1
        return z3.Real("%s!%d" % (stem, self.aux))

    def cut(self, v):
        """name an intermediate result (SSA): the returned value is a fresh variable"""
        t = v.t
        if core._const(t) is not None or z3.is_const(t):
            return v
        if self.opts.get("nocut"):
            return v
        x = self.fresh("c")
        f = x == as_real(t)
        self.facts.append(f)
        self.defs[f.get_id()] = x.get_id()
        self._cut_vars.add(x.get_id())
        return Sym(x)

    def sqrt(self, x):
        t = z3.simplify(as_real(x.t))
        c = core._const(t)
        if c is not None:
            if c < 0:
                raise ValueError("math domain error")
            r = Fraction(math.isqrt(c.numerator), math.isqrt(c.denominator))
            return Sym(rv(r)) if r * r == c else Sym(rv(core.frac(math.sqrt(c))))
        k = t.get_id()
        if k in self.sqrts:
            return self.sqrts[k][1]
        r = self._square(x.t)
        if r is not None:
            return Sym(r) if self.branch(r >= 0) else Sym(-r)
        if self.branch(t < 0):
            raise ValueError("square root of a negative number")
        s = self.fresh("sqrt")
        f = s * s == t
        self.facts += [s >= 0, f]
        self.sqrts[k] = (t, Sym(s), f)
        return self.sqrts[k][1]

    def _square(self, t):
        if free_vars(t) & frozenset(self._cut_vars):
            return self._perfect_square(t)
        key = (t.get_id(), tuple(sorted(v[1].t.get_id() for v in self.sqrts.values())), "square")
        if key not in self._memo:
            self._keep.append((t, [v[1].t for v in self.sqrts.values()]))
            self._memo[key] = self._perfect_square(t)
        return self._memo[key]

    def _perfect_square(self, t):
        t = as_real(t)
        names = {v.get_id(): v for v in solve_mod.consts(t)}
        self._index()
        defs = {v: f.arg(1) for v, f in self._def_of.items() if v in names}
        for d in defs.values():
            for v in solve_mod.consts(d):
                names[v.get_id()] = v
        n = norm.Norm(defs, {s.t.get_id(): u for u, s, _f in self.sqrts.values()},
                      time.time() + 2.0, limit=3000)
        try:
            return n.square_root(t, names)
        except (norm.TooBig, ZeroDivisionError, RecursionError):
            return None

    def _exp_entry(self, a, e):
        """axioms tying e = exp(a)"""
        f = self.facts
        f += [e > 0, (a == 0) == (e == 1), (a < 0) == (e < 1), e >= 1 + a]
        f += [z3.Implies(a <= 0, e * (1 - a) <= 1)]
        for a2, e2 in self.exps:
            f += [(a == a2) == (e == e2), (a < a2) == (e < e2)]
        if self.opts.get("exp_products"):
            for a2, e2 in self.exps:
                p, q = e, e2
                for k in range(2, 6):
                    p, q = p * e, q * e2
                    f += [z3.Implies(a == k * a2, e == q), z3.Implies(a2 == k * a, e2 == p)]
            ent = self.exps + [(a, e)]
            for i, (p, ep) in enumerate(ent):
                for j, (q, eq) in enumerate(ent):
                    if j < i:
                        continue
                    for k, (r, er) in enumerate(ent):
                        if len(self.exps) not in (i, j, k):
                            continue
                        f.append(z3.Implies(p + q == r, ep * eq == er))
        self.exps.append((a, e))

    def exp(self, x):
        a = z3.simplify(as_real(x.t))
        c = core._const(a)
        if c is not None:
            return Sym(z3.RealVal(1)) if c == 0 else Sym(rv(core.frac(math.exp(c))))
        for a2, e2 in self.exps:
            if a.eq(a2) or z3.is_true(z3.simplify(a == a2)):
                return Sym(e2)
        for a2, e2 in self.exps:
            if free_vars(a) & free_vars(a2) and self._identical(a, a2):
                return Sym(e2)
        e = self.fresh("exp")
        self._exp_entry(a, e)
        return Sym(e)

    def log(self, x):
        t = as_real(x.t)
        if self.branch(t <= 0):
            raise ValueError("math domain error")
        l = self.fresh("log")
        self._exp_entry(l, t)
        return Sym(l)

    def concretise_int(self, x):
        t = x.t if x.t.is_int() else z3.ToInt(x.t)
        for _ in range(self.opts.get("max_concretise", 64)):
            r, m = self._solve(slice_facts(self.facts, free_vars(t)), self.branch_s)
            if r != "sat":
                raise Unsupported("cannot pick an integer")
            v = int(num_of(m, t))
            if self.branch(t == v):
                return v
        raise Unsupported("too many integer values")

    def timedelta_value(self, td):
        """timedelta64 in days"""
        return Fraction(int(td / np.timedelta64(1, "s")), 86400)

    # -- obligations ------------------------------------------------------

    def _lift(self, x):
        """python/sym scalar -> term or None (nan)"""
        if hasattr(x, "_magnitude"):
            raise Unsupported("quantity in obligation; take its magnitude")
        if isinstance(x, np.ndarray) and x.ndim == 0:
            x = x[()]
        t = core.to_term(x)
        return None if t is None else as_real(t)

    def _index(self):
        """keep definitions of intermediate results apart from the other facts"""
        for f in self.facts[self._indexed:]:
            x = self.defs.get(f.get_id())
            if x is not None:
                self._def_of[x] = f
            else:
                self._plain.append((f, free_vars(f)))
        self._indexed = len(self.facts)

    def _local(self, t, depth=1):
        """definitions of the intermediate results in t, and facts about just its variables"""
        self._index()
        want = set(free_vars(t))
        ds, done = [], set()
        for _ in range(depth):
            for x in sorted(want - done):
                done.add(x)
                f = self._def_of.get(x)
                if f is not None:
                    ds.append(f)
                    want |= free_vars(f)
        return ds + [f for f, v in self._plain if v <= want]

    def _solve(self, constraints, budget):
        if self.absdefs:
            constraints = self._with_abs(constraints)
        left = self.deadline + 20.0 - time.time()
        if left <= 0:
            raise Budget("time budget exhausted")
        return solve_mod.solve(constraints, self.stats, min(budget, left), self._poly)

    def _with_abs(self, constraints):
        """add what the absolute values mentioned stand for"""
        out, seen, todo = list(constraints), set(), list(constraints)
        while todo:
            for v in free_vars(todo.pop()):
                if v in self.absdefs and v not in seen:
                    seen.add(v)
                    m, t = self.absdefs[v]
                    f = [m >= t, m >= -t, z3.Or(m <= t, m <= -t)]
                    out += f
                    todo += f
        return out

    def _poly(self, constraints):
        """polynomial form of the constraints, definitions inlined (see norm.py); or None"""
        if self.opts.get("nopoly"):
            return None
        defs, rest, names = {}, [], {}
        for f in constraints:
            x = self.defs.get(f.get_id())
            if x is not None:
                defs[x] = f.arg(1)
            else:
                rest.append(f)
            for v in solve_mod.consts(f):
                names[v.get_id()] = v
        roots, own = {}, set()
        have = {f.get_id() for f in rest}
        for t, s, f in self.sqrts.values():
            if f.get_id() in have:
                roots[s.t.get_id()] = t
                own.add(f.get_id())
        t0 = time.time()
        lim = min(self.opts.get("norm_s", 3.0), max(0.0, self.deadline - t0))
        n = norm.Norm(defs, roots, t0 + lim, limit=2000)
        plain = norm.Norm(defs, {}, t0 + lim, limit=2000)
        try:
            goal = n.formula(rest[-1], names) if rest else None
            if goal is not None and z3.is_false(z3.simplify(goal)):
                return [goal], defs
            cut = frozenset(defs)
            rkey = tuple(sorted(roots))
            out = []
            for f in rest[:-1]:
                if not (solve_mod.has_div(f) or free_vars(f) & cut):
                    out.append(f)
                    continue
                own_f = f.get_id() in own
                key = None if free_vars(f) & cut else (f.get_id(), own_f, rkey, "poly")
                g = self._memo.get(key) if key else None
                if g is None:
                    g = (plain if own_f else n).formula(f, names)
                    if key:
                        self._memo[key] = g
                        self._keep.append((f, [t for t in roots.values()]))
                out.append(g)
            if goal is not None:
                out.append(goal)
        except (norm.TooBig, ZeroDivisionError, RecursionError):
            return None
        finally:
            self.stats.normal_s += time.time() - t0
        return out, defs

    def _by_local(self, neg, box):
        """unsat from the definitions around neg alone"""
        key = (neg.get_id(), box, len(self.facts))
        if self._local_key == key:
            return self._local_res
        res = False
        for depth in (2, 1) if self._depth_hint == 2 else (1, 2):
            loc = self._local(neg, depth)
            if box:
                vs = set(free_vars(neg))
                for f in loc:
                    vs |= free_vars(f)
                loc = loc + [b for b in self.boxes if free_vars(b) <= vs]
            r, _ = self._solve(loc + [neg], self.opts.get("local_s", 2.0))
            if r == "unsat":
                res = True
                self._depth_hint = depth
                break
        self._local_key, self._local_res, self._local_keep = key, res, neg
        return res

    def _query(self, neg, box=True, extra=(), budget=None):
        if time.time() > self.deadline:
            raise Budget("time budget exhausted")
        if (not box and len(self.defs) > 6) or self.opts.get("local_only"):
            if self._by_local(neg, box):
                return "unsat", None
            if self.opts.get("local_only"):
                return "unknown", None
        fs = slice_facts(self.facts, free_vars(neg))
        if box:
            vs = set()
            for f in fs + [neg]:
                vs |= free_vars(f)
            fs = fs + [b for b in self.boxes if free_vars(b) & vs]
        return self._solve(fs + [neg] + list(extra), budget or self.query_s)

    def _record(self, label, kind):
        self.stats.obligations += 1
        self.path_obligations += 1
        d = self.labels.setdefault(label.split("[")[0], {})
        d[kind] = d.get(kind, 0) + 1

    def _point(self, rng):
        """a point (input -> value) at typical values, and its evaluation"""
        pins, vals = [], {}
        for name, v in self.vars.items():
            lo, hi = self.typical.get(name, (0.2, 3.0))
            if v.is_int():
                x = Fraction(rng.randint(1, 5))
            else:
                x = Fraction(round(rng.uniform(lo, hi), 3)).limit_denominator(1000)
            pins.append(v == (z3.IntVal(int(x)) if v.is_int() else rv(x)))
            vals[v.get_id()] = float(x)
        self._index()
        lazy = {}
        for k, f in self._def_of.items():
            lazy[k] = ([f.arg(1)], float)
        for t, s, _f in self.sqrts.values():
            lazy[s.t.get_id()] = ([t], lambda x: math.sqrt(x) if x >= 0 else math.nan)
        for m, t in self.absdefs.values():
            lazy[m.get_id()] = ([t], abs)
        for a, e in self.exps:
            if e.get_id() not in lazy:
                lazy[e.get_id()] = ([a], math.exp)
        for t, e in self.rounds:
            lazy[e.get_id()] = ([t], lambda x: float(np.float32(x)) / x - 1 if x else 0.0)
        return pins, sample.Point(vals, lazy)

    def _on_path(self, pt):
        skip = {f.get_id() for _t, _s, f in self.sqrts.values()}
        for f, _v in self._plain:
            if f.get_id() not in skip and not pt(f):
                return False
        return True

    def _sampled(self, label, neg, last=False):
        """look for a point of this path where neg holds; the solver then decides there"""
        local = self.opts.get("local_only")
        if (local and not last and len(self.facts) > 300) or len(self.facts) > 3000:
            return
        key = (len(self.facts), len(self.vars), len(self.absdefs))
        if self._points is None or self._points[0] != key:
            rng = random.Random(7)
            good = []
            for _ in range(4):
                try:
                    pins, pt = self._point(rng)
                    if self._on_path(pt):
                        good.append((pins, pt))
                except (sample.CannotSay, ArithmeticError, ValueError):
                    continue
                if len(good) == 2:
                    break
            self._points = (key, good)
        for pins, pt in self._points[1]:
            try:
                if not pt(neg):
                    continue
                ext = []
                for a, e in self.exps:
                    ev = math.exp(pt(a))
                    ext += [e >= rv(core.frac(ev * (1 - 1e-12))), e <= rv(core.frac(ev * (1 + 1e-12)))]
                    ext += [] if ev else [e >= 0]
            except (sample.CannotSay, ArithmeticError, ValueError):
                continue
            facts = slice_facts(self.facts, free_vars(neg)) if local else self.facts
            r, m = self._solve(facts + pins + ext + [neg], 5.0)
            if r == "sat":
                self._record(label, "violated")
                raise Candidate({"label": label, "values": self._values(m),
                                 "choices": dict(self.choices), "outside_box": False})

    def eq(self, label, a, b, tol=1e-9, floor=1e-9, scale=None):
        an = isinstance(a, (float, np.floating)) and math.isnan(a)
        bn = isinstance(b, (float, np.floating)) and math.isnan(b)
        if an or bn:
            self._record(label, "structural")
            if an and bn:
                self.stats.discharged += 1
                self.stats.structural += 1
                return
            self._violate(label + ": NaN mismatch", z3.BoolVal(True))
            return
        x, y = self._lift(a), self._lift(b)
        if x is None or y is None:
            if x is None and y is None and a == b:
                self._record(label, "structural")
                self.stats.discharged += 1
                return
            raise Unsupported("cannot compare %r and %r" % (a, b))
        if x.eq(y) or core._const(z3.simplify(x - y)) == 0:
            self._record(label, "structural")
            self.stats.discharged += 1
            self.stats.structural += 1
            return
        if len(self.defs) > 6:
            loc = self._by_local(x != y, box=False)
            if loc:
                self._record(label, "exact")
                self.stats.discharged += 1
                self.stats.discharged_exact += 1
                return
        if not self.opts.get("local_only") and self._identical(x, y):
            self._record(label, "normal form")
            self.stats.discharged += 1
            self.stats.discharged_normal += 1
            return
        mag = rv(core.frac(floor))
        for v in (x, y) if scale is None else (self._lift(scale),):
            mag = mag + as_real(core.to_term(self.abs(Sym(v))))
        lim = rv(4 * core.frac(tol)) * mag
        off = z3.Or(x - y > lim, y - x > lim)
        self._sampled(label, off)
        r, _ = self._query(x != y, box=False, budget=self.opts.get("exact_s", 10.0))
        if r == "unsat":
            self._record(label, "exact")
            self.stats.discharged += 1
            self.stats.discharged_exact += 1
            return
        self._decide(label, off, "tol")

    def _identical(self, x, y):
        """x and y have the same polynomial normal form (see norm.py)"""
        if solve_mod.has_int(x) or solve_mod.has_int(y):
            return False
        self._index()
        defs = {v: f.arg(1) for v, f in self._def_of.items()}
        roots = {s.t.get_id(): t for t, s, _f in self.sqrts.values()}
        lim = min(self.opts.get("norm_s", 3.0), max(0.0, self.deadline - time.time()))
        t0 = time.time()
        n = norm.Norm(defs, roots, t0 + lim)
        try:
            return n.vanishes(x, y)
        except (norm.TooBig, ZeroDivisionError, RecursionError):
            return False
        finally:
            self.stats.normal_s += time.time() - t0

    def _decide(self, label, neg, kind):
        r, m = self._query(neg, box=True)
        if r == "sat":
            self._record(label, "violated")
            self._violate(label, neg, m)
            return
        if r == "unknown":
            r2, m2 = self._query(neg, box=False)
            if r2 == "sat":
                self._record(label, "violated")
                self._violate(label, neg, m2)
                return
            if r2 == "unsat":
                self._record(label, kind)
                self.stats.discharged += 1
                return
            if self.opts.get("local_only"):
                self._sampled(label, neg, last=True)
            self._record(label, "unknown")
            if label not in self.undecided:
                self.undecided.append(label)
            return
        # unsat inside the box: try the whole domain
        r2, m2 = self._query(neg, box=False, budget=self.query_s / 3)
        if r2 == "sat":
            self._record(label, "violated")
            self._violate(label, neg, m2, outside_box=True)
            return
        self._record(label, kind if r2 == "unsat" else kind + " (in box)")
        self.stats.discharged += 1
        if kind == "tol":
            self.stats.discharged_tol += 1
        else:
            self.stats.discharged_exact += 1

    def true(self, label, cond):
        if isinstance(cond, (bool, np.bool_)):
            self._record(label, "structural")
            if cond:
                self.stats.discharged += 1
                self.stats.structural += 1
                return
            self._violate(label, z3.BoolVal(True))
            return
        t = cond.t if isinstance(cond, SymBool) else cond
        neg = z3.simplify(z3.Not(t))
        if z3.is_false(neg):
            self._record(label, "structural")
            self.stats.discharged += 1
            self.stats.structural += 1
            return
        self._sampled(label, neg)
        r, _ = self._query(neg, box=False, budget=self.opts.get("exact_s", 10.0))
        if r == "unsat":
            self._record(label, "exact")
            self.stats.discharged += 1
            self.stats.discharged_exact += 1
            return
        self._decide(label, neg, "exact")

    def _order(self, label, a, b, strict, tol, floor):
        for v in (a, b):
            if isinstance(v, (float, np.floating)) and math.isnan(v):
                self._record(label, "structural")
                self._violate(label + ": NaN", z3.BoolVal(True))
                return
        x, y = self._lift(a), self._lift(b)
        r, _ = self._query(
            z3.simplify(x >= y if strict else x > y),
            box=False,
            budget=self.opts.get("exact_s", 10.0),
        )
        if r == "unsat":
            self._record(label, "exact")
            self.stats.discharged += 1
            self.stats.discharged_exact += 1
            return
        mag = rv(core.frac(floor))
        for v in (x, y):
            mag = mag + as_real(core.to_term(self.abs(Sym(v))))
        self._decide(label, x - y > rv(4 * core.frac(tol)) * mag, "tol")

    def le(self, label, a, b, tol=1e-9, floor=1e-9):
        self._order(label, a, b, False, tol, floor)

    def lt(self, label, a, b, tol=1e-9, floor=1e-9):
        self._order(label, a, b, True, tol, floor)

    def lemma(self, label, cond):
        """proved, then assumed (a stepping stone for later queries)"""
        t = cond.t if isinstance(cond, SymBool) else cond
        if isinstance(t, (bool, np.bool_)):
            if not t:
                raise Unsupported("lemma %s is false" % label)
            return
        r, _ = self._query(z3.Not(t), box=False)
        if r == "unsat":
            self.facts.append(t)
            self.lemmas += 1
        # a lemma that does not go through is simply not used

    def fail(self, label):
        self._record(label, "structural")
        self._violate(label, z3.BoolVal(True))

    def observe(self, name, x):
        if hasattr(x, "_magnitude"):
            x = x._magnitude
        if isinstance(x, np.ndarray) and x.ndim:
            for i, v in enumerate(x.flat):
                self.observe("%s[%d]" % (name, i), v)
            return
        t = core.to_term(x) if not isinstance(x, SymBool) else None
        if t is not None:
            self.obs.append((name, t))

    # -- models -----------------------------------------------------------

    def _values(self, m):
        return {k: to_float(num_of(m, v)) for k, v in self.vars.items()}

    def _model(self, neg, m=None):
        """a model of all facts and neg, with exp() pinned to true values if possible"""
        if self.opts.get("local_only"):
            raise Unsupported("no model in a local run")
        if not self.exps:
            r, full = self._solve(self.facts + self.boxes + [neg], self.query_s)
            if r == "sat":
                return full
            r, full = self._solve(self.facts + [neg], self.query_s)
            return full if r == "sat" else m
        # fix the exponents to simple values with known exponentials
        for box in (self.boxes, []):
            for guess in ((-1.0, -0.25, -0.5, -2.0), (-0.1, -0.01, -0.3, -0.7), None):
                ext = []
                if guess is None:
                    base = m
                    if base is None:
                        continue
                    ext = self._exp_pins(base)
                else:
                    for i, (a, e) in enumerate(self.exps):
                        g = guess[i % len(guess)]
                        ev = math.exp(g)
                        ext += [a == rv(core.frac(g)), e >= rv(core.frac(ev * (1 - 1e-12))),
                                e <= rv(core.frac(ev * (1 + 1e-12)))]
                r, full = self._solve(self.facts + box + ext + [neg], self.query_s / 3)
                if r == "sat":
                    return full
        r, full = self._solve(self.facts + self.boxes + [neg], self.query_s)
        return full if r == "sat" else m

    def _violate(self, label, neg, m=None, outside_box=False):
        if self.opts.get("local_only"):
            raise Candidate(
                {
                    "label": label,
                    "values": self._random_values(),
                    "choices": dict(self.choices),
                    "outside_box": False,
                }
            )
        model = self._model(neg, m)
        if model is None:
            raise Unsupported("no full model for the violation of %r" % label)
        raise Candidate(
            {
                "label": label,
                "values": self._values(model),
                "choices": dict(self.choices),
                "outside_box": outside_box,
            }
        )

    def violation(self, label):
        """the current path itself is the violation (e.g. an unexpected exception)"""
        self._record(label, "structural")
        self._violate(label, z3.BoolVal(True))

    def _generic_model(self):
        """a model of the path condition away from special values, if there is one"""
        rng = self.opts["rng"]
        fs = self.facts + self.boxes
        want = []
        for name, v in self.vars.items():
            if v.is_int():
                continue
            lo, hi = self.typical.get(name, (0.2, 3.0))
            want.append(v == rv(Fraction(round(rng.uniform(lo, hi), 3)).limit_denominator(1000)))
        keep = []

        def attempt(extra, t):
            r, m = self._solve(fs + keep + extra, t)
            return m if r == "sat" else None

        m = attempt(want, 3.0)
        if m is not None:
            return m, want
        calls = 0

        def split(ws):
            nonlocal calls, m
            if not ws or calls > 40:
                return
            calls += 1
            mm = attempt(ws, 1.0)
            if mm is not None:
                keep.extend(ws)
                m = mm
                return
            if len(ws) == 1:
                return
            h = len(ws) // 2
            split(ws[:h])
            split(ws[h:])

        h = max(1, len(want) // 2)
        split(want[:h])
        split(want[h:])
        if m is None:
            r, m = self._solve(self.facts, 5.0)
            if r != "sat":
                return None, []
        return m, keep

    def _random_values(self):
        """typical values for a step whose failure the solver found with the state left free"""
        rng = self.opts["rng"]
        out = {}
        for name, v in self.vars.items():
            lo, hi = self.typical.get(name, (0.2, 3.0))
            out[name] = rng.randint(1, 5) if v.is_int() else round(rng.uniform(lo, hi), 6)
        return out

    def _witness(self):
        if len(self.witnesses) >= self.opts.get("max_witnesses", 12):
            return
        if self.path_obligations == 0:
            return
        m, keep = self._generic_model()
        if m is None:
            return
        exact = True
        if self.exps:
            ext = self._exp_pins(m)
            r, m2 = self._solve(self.facts + keep + ext, 5.0)
            exact = r == "sat"
            if exact:
                m = m2
            else:
                mm = self._model(z3.BoolVal(True))
                if mm is not None:
                    m = mm
        try:
            self.witnesses.append(
                {
                    "values": self._values(m),
                    "choices": dict(self.choices),
                    "obs": [(n, to_float(num_of(m, t))) for n, t in self.obs],
                    "exp": bool(self.exps) and not exact,
                    "generic": bool(keep),
                }
            )
        except EngineError:
            pass

    def _exp_pins(self, base):
        ext = []
        for a, e in self.exps:
            av = num_of(base, a)
            try:
                ev = math.exp(av)
            except OverflowError:
                continue
            if ev == 0.0:
                continue
            ext += [
                a == rv(Fraction(av)),
                e >= rv(core.frac(ev * (1 - 1e-12))),
                e <= rv(core.frac(ev * (1 + 1e-12))),
            ]
        return ext


class RealCtx(BaseCtx):
    """Concrete run of a harness on the real code."""

    def __init__(self, values, choices, slack=1.0):
        self.values_in = values
        self.choices_in = choices
        self._failures = []
        self.overflow = False
        self.obs = []
        self.count = 0
        self.slack = slack

    def real(self, name, lo=None, hi=None, lo_strict=False, typical=None):
        if name in self.values_in:
            return float(self.values_in[name])
        return float(typical[0] if typical else 1.0)

    def int(self, name, lo=None, hi=None):
        return int(self.values_in[name]) if name in self.values_in else int(lo or 1)

    def array(self, vals, kind="f"):
        return np.array(list(vals), dtype=float if kind == "f" else int)

    def nan_array(self, n):
        return np.full(n, np.nan)

    def sparse(self, name, size, entries):
        out = 7.3 + 0.1 * np.arange(int(size))
        for i, v in entries:
            out[int(i)] = v
        return out

    def choose(self, name, options):
        return list(options)[self.choices_in.get(name, 0)]

    def flag(self, name):
        return self.choose(name, [False, True])

    def assume(self, cond):
        if not bool(cond):
            raise PathAbort("assumption does not hold in floats")

    def scale_unit(self, reg, name, base, factor):
        return _define_unit(reg, name, base, factor)

    def fresh(self, stem):
        raise Unsupported("fresh in a concrete run")

    def lemma(self, label, cond):
        pass

    def observe(self, name, x):
        if hasattr(x, "_magnitude"):
            x = x._magnitude
        if isinstance(x, np.ndarray) and x.ndim:
            for i, v in enumerate(x.flat):
                self.observe("%s[%d]" % (name, i), v)
            return
        try:
            self.obs.append((name, float(x)))
        except (TypeError, ValueError):
            pass

    def _fail(self, label, detail, soft=False):
        """soft: may be due to an overflow of floats (outside every claim), if there is one"""
        self._failures.append(("%s: %s" % (label, detail), soft))

    @property
    def failures(self):
        return [x for x, soft in self._failures if not (soft and self.overflow)]

    def eq(self, label, a, b, tol=1e-9, floor=1e-9, scale=None):
        self.count += 1
        try:
            x, y = float(a), float(b)
        except (TypeError, ValueError) as exc:
            self._fail(label, "not comparable: %r" % exc)
            return
        if math.isnan(x) and math.isnan(y):
            return
        big = [not abs(v) < 1e150 for v in (x, y)]
        if all(big):
            self.overflow = True
            return
        if math.isnan(x) or math.isnan(y):
            self._fail(label, "got %r, expected %r" % (x, y), soft=True)
            return
        mag = floor + (abs(x) + abs(y) if scale is None else abs(float(scale)))
        if not abs(x - y) <= tol * mag * self.slack:
            self._fail(label, "got %r, expected %r" % (x, y), soft=any(big))

    def true(self, label, cond):
        self.count += 1
        if not bool(cond):
            self._fail(label, "does not hold", soft=True)

    def le(self, label, a, b, tol=1e-9, floor=1e-9):
        self.count += 1
        a, b = float(a), float(b)
        if all(not abs(v) < 1e150 for v in (a, b)):
            self.overflow = True
            return
        if not a - b <= tol * (abs(a) + abs(b) + floor) * self.slack:
            self._fail(label, "%r > %r" % (a, b))

    lt = le

    def fail(self, label):
        self.count += 1
        self._fail(label, "reached")

    violation = fail

    def value(self, x):
        return x

    def abs(self, x):
        return abs(x)

    def expf(self, x):
        return math.exp(x)


_unit_serial = 0


def _define_unit(reg, name, base, factor):
    """a fresh unit worth `factor` of `base` (a unit string); returns its Unit"""
    global _unit_serial
    from pint.converters import ScaleConverter
    from pint.definitions import UnitDefinition

    _unit_serial += 1
    uname = "vu%s%d" % ("".join(ch for ch in name if ch.isalpha()), _unit_serial)
    ref = reg.Unit(base)._units
    reg.define(UnitDefinition(uname, uname, (), ScaleConverter(factor), ref))
    return reg.Unit(reg.UnitsContainer({uname: 1}))
