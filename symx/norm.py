"""
Polynomial normal form of an equality between rational terms.

A term built from + - * / over real constants is a rational function of them; a
constant that stands for a square root satisfies s*s = radicand.  ``difference_vanishes(x, y)``
rewrites x - y to (numerator)/(denominator), reduces the numerator by those equations and
reports whether it is identically zero, which makes ``x != y`` unsatisfiable on any path on
which the denominators are non-zero (the engine forks on every division).  This is the
rewriting step done before a query is handed to the solvers, which do not always find
it within their time limits.
"""
import math
import time
from fractions import Fraction

import z3

from .core import _const


class TooBig(Exception):
    pass


class Poly(dict):
    """monomial (sorted tuple of (var, exponent)) -> Fraction"""

    __slots__ = ("_h",)


LIMIT = 60000


def _mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    i = j = 0
    out = []
    while i < len(a) and j < len(b):
        va, ea = a[i]
        vb, eb = b[j]
        if va == vb:
            out.append((va, ea + eb))
            i += 1
            j += 1
        elif va < vb:
            out.append(a[i])
            i += 1
        else:
            out.append(b[j])
            j += 1
    out.extend(a[i:])
    out.extend(b[j:])
    return tuple(out)


def const(c):
    return {(): Fraction(c)} if c else {}


def add(p, q, k=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + k * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


class Norm:
    def __init__(self, defs, roots, deadline, limit=LIMIT):
        self.defs = defs  # var id -> term
        self.roots = roots  # var id -> radicand term
        self.cache = {}
        self.keep = []
        self.deadline = deadline
        self.limit = limit
        self.factors = {}  # frozen poly -> (index, poly)
        self.flist = []

    def mul(self, p, q):
        if len(p) * len(q) > self.limit * 8:
            raise TooBig()
        if time.time() > self.deadline:
            raise TooBig()
        if len(p) > len(q):
            p, q = q, p
        r = {}
        for m1, c1 in p.items():
            for m2, c2 in q.items():
                m = _mono_mul(m1, m2)
                v = r.get(m, 0) + c1 * c2
                if v:
                    r[m] = v
                else:
                    r.pop(m, None)
        if len(r) > self.limit:
            raise TooBig()
        return r

    def power(self, p, n):
        r = const(1)
        for _ in range(n):
            r = self.mul(r, p)
        return r

    # rational: (poly, {factor index: exponent})
    def factor(self, p):
        """split p into constant * monomial * primitive factor; returns (const, {idx: e})"""
        if not p:
            raise ZeroDivisionError
        # monomial content
        monos = list(p)
        common = dict(monos[0])
        for m in monos[1:]:
            d = dict(m)
            common = {v: min(e, d[v]) for v, e in common.items() if v in d}
        out = {}
        if common:
            for v, e in common.items():
                out[self._fidx({((v, 1),): Fraction(1)})] = e
            q = {}
            for m, c in p.items():
                q[tuple((v, e - common.get(v, 0)) for v, e in m if e > common.get(v, 0))] = c
            p = q
        lead = p[max(p)]
        if len(p) == 1 and () in p:
            return p[()], out
        p = {m: c / lead for m, c in p.items()}
        out[self._fidx(p)] = out.get(self._fidx(p), 0) + 1
        return lead, out

    def _fidx(self, p):
        k = frozenset(p.items())
        if k not in self.factors:
            self.factors[k] = len(self.flist)
            self.flist.append(p)
        return self.factors[k]

    def expand(self, f):
        r = const(1)
        for i, e in f.items():
            r = self.mul(r, self.power(self.flist[i], e))
        return r

    def rat(self, t):
        k = t.get_id()
        r = self.cache.get(k)
        if r is None:
            r = self._rat(t)
            self.cache[k] = r
            self.keep.append(t)
        return r

    def addr(self, a, b, k=1):
        (n1, d1), (n2, d2) = a, b
        if not n1:
            return ({m: k * c for m, c in n2.items()}, d2)
        if not n2:
            return a
        if d1 == d2:
            return self.cancel(add(n1, n2, k), dict(d1))
        com, m1, m2 = {}, {}, {}
        for i in set(d1) | set(d2):
            e = max(d1.get(i, 0), d2.get(i, 0))
            com[i] = e
            if e - d1.get(i, 0):
                m1[i] = e - d1.get(i, 0)
            if e - d2.get(i, 0):
                m2[i] = e - d2.get(i, 0)
        return self.cancel(
            add(self.mul(n1, self.expand(m1)), self.mul(n2, self.expand(m2)), k), com
        )

    def cancel(self, n, d):
        """cancel monomial factors only (and whole-factor matches)"""
        if not n:
            return {}, {}
        if not d:
            return n, d
        # monomial factors
        dv = {}
        big = []
        for i in d:
            p = self.flist[i]
            if len(p) == 1:
                (m,) = p
                dv[m[0][0]] = i
            else:
                big.append(i)
        if dv:
            common = None
            for m in n:
                e = {v: k for v, k in m if v in dv}
                if common is None:
                    common = e
                else:
                    common = {v: min(k, e[v]) for v, k in common.items() if v in e}
                if not common:
                    break
            if common:
                cut = {}
                for v, k in common.items():
                    k = min(k, d[dv[v]])
                    cut[v] = k
                    d[dv[v]] -= k
                    if not d[dv[v]]:
                        del d[dv[v]]
                n = {
                    tuple((v, e - cut.get(v, 0)) for v, e in m if e > cut.get(v, 0)): c
                    for m, c in n.items()
                }
        # whole factors
        for i in big:
            p = self.flist[i]
            if len(p) == len(n):
                top = max(n)
                if top in p and all(m in p for m in n):
                    k = n[top] / p[top]
                    if all(c == k * p[m] for m, c in n.items()):
                        d[i] -= 1
                        if not d[i]:
                            del d[i]
                        return const(k), d
        return n, d

    def mulr(self, a, b):
        d = dict(a[1])
        for i, e in b[1].items():
            d[i] = d.get(i, 0) + e
        return self.cancel(self.mul(a[0], b[0]), d)

    def inv(self, a):
        c, f = self.factor(a[0])
        n = self.expand(a[1])
        return self.cancel({m: v / c for m, v in n.items()}, f)

    def _rat(self, t):
        c = _const(t)
        if c is not None:
            return const(c), {}
        k = t.decl().kind()
        if k == z3.Z3_OP_UNINTERPRETED and t.num_args() == 0:
            d = self.defs.get(t.get_id())
            if d is not None:
                return self.rat(d)
            return {((t.get_id(), 1),): Fraction(1)}, {}
        if k == z3.Z3_OP_TO_REAL:
            return self.rat(t.arg(0))
        args = [self.rat(a) for a in t.children()]
        if k == z3.Z3_OP_ADD:
            r = args[0]
            for a in args[1:]:
                r = self.addr(r, a)
            return r
        if k == z3.Z3_OP_SUB:
            r = args[0]
            for a in args[1:]:
                r = self.addr(r, a, -1)
            return r
        if k == z3.Z3_OP_UMINUS:
            return {m: -v for m, v in args[0][0].items()}, args[0][1]
        if k == z3.Z3_OP_MUL:
            r = args[0]
            for a in args[1:]:
                r = self.mulr(r, a)
            return r
        if k == z3.Z3_OP_DIV:
            return self.mulr(args[0], self.inv(args[1]))
        if k == z3.Z3_OP_POWER:
            e = _const(t.arg(1))
            if e is not None and e.denominator == 1 and 0 <= e < 12:
                r = const(1), {}
                for _ in range(int(e)):
                    r = self.mulr(r, args[0])
                return r
        raise TooBig()

    def reduce_roots(self, n):
        """rewrite s*s in a numerator until no root has an even power; returns numerator"""
        for _ in range(12):
            hit = None
            for m in n:
                for v, e in m:
                    if v in self.roots and e >= 2:
                        hit = v
                        break
                if hit is not None:
                    break
            if hit is None:
                return n
            rn, rd = self.rat(self.roots[hit])
            rdp = self.expand(rd)
            by = {}
            top = 0
            for m, c in n.items():
                e = dict(m).get(hit, 0)
                rest = tuple(x for x in m if x[0] != hit)
                if e % 2:
                    rest = _mono_mul(rest, ((hit, 1),))
                by.setdefault(e // 2, {})
                by[e // 2][rest] = by[e // 2].get(rest, 0) + c
                top = max(top, e // 2)
            acc = {}
            for j, p in by.items():
                acc = add(acc, self.mul(p, self.mul(self.power(rn, j), self.power(rdp, top - j))))
            n = acc
        raise TooBig()

    # -- perfect squares

    def poly_sqrt(self, p):
        """polynomial r with r*r == p, or None"""
        if not p:
            return {}
        rank = sorted({v for m in p for v, _e in m})

        def key(m):  # lexicographic order: compatible with multiplication
            d = dict(m)
            return tuple(d.get(v, 0) for v in rank)

        top = max(p, key=key)
        c = p[top]
        if c <= 0:
            return None
        a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if a * a != c.numerator or b * b != c.denominator or any(e % 2 for _v, e in top):
            return None
        lead_m, lead_c = tuple((v, e // 2) for v, e in top), Fraction(a, b)
        r = {lead_m: lead_c}
        rest = add(p, self.mul(r, r), -1)
        ld = dict(lead_m)
        for _ in range(len(p) + 2):
            if not rest:
                return r
            m = max(rest, key=key)
            d = dict(m)
            if any(d.get(v, 0) < e for v, e in ld.items()):
                return None
            q = tuple(sorted((v, e - ld.get(v, 0)) for v, e in d.items() if e > ld.get(v, 0)))
            t = {q: rest[m] / (2 * lead_c)}
            # (r + t)^2 = r^2 + 2 r t + t^2
            rest = add(rest, self.mul(r, t), -2)
            rest = add(rest, self.mul(t, t), -1)
            r = add(r, t)
        return None

    def square_root(self, t, names):
        """a term whose square is t, or None"""
        n, d = self.rat(t)
        if any(v in self.roots for m in n for v, _e in m):
            return None
        odd = {i: 1 for i, e in d.items() if e % 2}
        r = self.poly_sqrt(self.mul(n, self.expand(odd)))
        if r is None:
            return None
        den = self.expand({i: (e + 1) // 2 for i, e in d.items()})
        num = self.term(r, names)
        return num if den == const(1) else num / self.term(den, names)

    # -- back to terms

    def term(self, p, names):
        """polynomial as a z3 term; names: var id -> constant"""
        if not p:
            return z3.RealVal(0)
        out = []
        for m, c in sorted(p.items()):
            fs = []
            for v, e in m:
                fs += [names[v]] * e
            if c != 1 or not fs:
                fs.insert(0, z3.RealVal(str(c)))
            t = fs[0]
            for f in fs[1:]:
                t = t * f
            out.append(t)
        return z3.Sum(out) if len(out) > 1 else out[0]

    def atom(self, op, x, y, names):
        """x op y, op in (==, <=, <), as a polynomial atom (denominators are non-zero)"""
        n, d = self.addr(self.rat(x), self.rat(y), -1)
        n = self.reduce_roots(n)
        if op == "==":
            if n:
                _c, f = self.factor(n)
                n = self.expand({i: 1 for i in f}) if f else const(1)
            return self.term(n, names) == 0
        if n:
            c, f = self.factor(n)
        else:
            c, f = Fraction(0), {}
        # sign of n / d = sign of c * product of the factors of odd multiplicity; a factor of
        # even multiplicity in n matters only for being zero
        odd, even = {}, {}
        for i, e in f.items():
            (odd if e % 2 else even)[i] = 1
        for i, e in d.items():
            if e % 2:
                odd[i] = 1
        prod = self.expand(odd)
        prod = {m: v * (1 if c > 0 else -1 if c < 0 else 0) for m, v in prod.items()}
        prod = {m: v for m, v in prod.items() if v}
        t = self.term(prod, names)
        if op == "<=":
            alts = [t <= 0]
            for i in even:
                alts.append(self.term(self.flist[i], names) == 0)
            return z3.Or(*alts) if len(alts) > 1 else alts[0]
        parts = [t < 0]
        for i in even:
            parts.append(self.term(self.flist[i], names) != 0)
        return z3.And(*parts) if len(parts) > 1 else parts[0]

    def formula(self, t, names):
        if z3.is_true(t) or z3.is_false(t):
            return t
        k = t.decl().kind()
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES, z3.Z3_OP_XOR):
            cs = [self.formula(c, names) for c in t.children()]
            return {
                z3.Z3_OP_AND: z3.And, z3.Z3_OP_OR: z3.Or, z3.Z3_OP_NOT: z3.Not,
                z3.Z3_OP_IMPLIES: z3.Implies, z3.Z3_OP_XOR: z3.Xor,
            }[k](*cs)
        if k == z3.Z3_OP_ITE:
            return z3.If(*[self.formula(c, names) for c in t.children()])
        if t.num_args() == 2:
            x, y = t.children()
            if z3.is_bool(x):
                return t.decl()(self.formula(x, names), self.formula(y, names))
            if not x.is_int():
                if k == z3.Z3_OP_EQ:
                    return self.atom("==", x, y, names)
                if k == z3.Z3_OP_DISTINCT:
                    return z3.Not(self.atom("==", x, y, names))
                if k == z3.Z3_OP_LE:
                    return self.atom("<=", x, y, names)
                if k == z3.Z3_OP_GE:
                    return self.atom("<=", y, x, names)
                if k == z3.Z3_OP_LT:
                    return self.atom("<", x, y, names)
                if k == z3.Z3_OP_GT:
                    return self.atom("<", y, x, names)
        return t

    def vanishes(self, x, y):
        n, _d = self.addr(self.rat(x), self.rat(y), -1)
        if not n:
            return True
        return not self.reduce_roots(n)
