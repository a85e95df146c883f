"""
Numeric evaluation of terms at a chosen point.

Only a guide: it finds points at which an assertion seems to fail; the solver is then asked for a
model of the path and the failed assertion with the inputs pinned to that point.
"""
import math

import z3

from .solve import num_value

_OPS = {
    z3.Z3_OP_ADD: lambda *a: sum(a),
    z3.Z3_OP_SUB: lambda a, *b: a - sum(b),
    z3.Z3_OP_UMINUS: lambda a: -a,
    z3.Z3_OP_MUL: lambda *a: math.prod(a),
    z3.Z3_OP_DIV: lambda a, b: a / b,
    z3.Z3_OP_POWER: lambda a, b: a ** b,
    z3.Z3_OP_LE: lambda a, b: a <= b,
    z3.Z3_OP_LT: lambda a, b: a < b,
    z3.Z3_OP_GE: lambda a, b: a >= b,
    z3.Z3_OP_GT: lambda a, b: a > b,
    z3.Z3_OP_EQ: lambda a, b: a == b,
    z3.Z3_OP_DISTINCT: lambda *a: len(set(a)) == len(a),
    z3.Z3_OP_AND: lambda *a: all(a),
    z3.Z3_OP_OR: lambda *a: any(a),
    z3.Z3_OP_NOT: lambda a: not a,
    z3.Z3_OP_IMPLIES: lambda a, b: (not a) or b,
    z3.Z3_OP_ITE: lambda c, a, b: a if c else b,
    z3.Z3_OP_TO_REAL: lambda a: float(a),
    z3.Z3_OP_TO_INT: lambda a: math.floor(a),
    z3.Z3_OP_TRUE: lambda: True,
    z3.Z3_OP_FALSE: lambda: False,
}


class CannotSay(Exception):
    pass


class Point:
    """vals: variable id -> number; lazy: variable id -> function computing it from this point"""

    def __init__(self, vals, lazy):
        self.memo = {}
        self.vals = vals
        self.lazy = lazy

    def __call__(self, t):
        stack = [t]
        memo = self.memo
        while stack:
            x = stack[-1]
            i = x.get_id()
            if i in memo:
                stack.pop()
                continue
            if z3.is_rational_value(x) or z3.is_int_value(x):
                memo[i] = float(num_value(x))
                continue
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                if i in self.vals:
                    memo[i] = self.vals[i]
                    continue
                d = self.lazy.get(i)
                if d is None:
                    raise CannotSay()
                args, f = d
                todo = [a for a in args if a.get_id() not in memo]
                if todo:
                    stack.extend(todo)
                    continue
                memo[i] = f(*[memo[a.get_id()] for a in args])
                continue
            op = _OPS.get(x.decl().kind())
            if op is None:
                raise CannotSay()
            kids = x.children()
            todo = [a for a in kids if a.get_id() not in memo]
            if todo:
                stack.extend(todo)
                if len(stack) > 100000:
                    raise CannotSay()
                continue
            memo[i] = op(*[memo[a.get_id()] for a in kids])
        return memo[t.get_id()]
