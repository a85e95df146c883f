"""A sequence of unknown length, indexed symbolically (for 'at every position' claims)."""
import z3

from . import core
from .core import Sym, Unsupported, ctx


class SymSeq:
    ndim = 1

    def __init__(self, name, init):
        self.name = name
        self.log = []  # (index term, value), latest last
        for i, v in init:
            self.log.append((self._term(i), v))

    @staticmethod
    def _term(i):
        t = core.to_term(i)
        if t is None or not t.is_int():
            raise Unsupported("index %r" % (i,))
        return z3.simplify(t)

    def _same(self, a, b):
        d = core._const(z3.simplify(a - b))
        if d is not None:
            return d == 0
        return ctx().branch(a == b)

    def __getitem__(self, i):
        if isinstance(i, slice):
            raise Unsupported("slice of a symbolic sequence")
        t = self._term(i)
        for j, v in reversed(self.log):
            if self._same(t, j):
                return v
        v = Sym(ctx().fresh(self.name))
        self.log.insert(0, (t, v))
        return v

    def __setitem__(self, i, v):
        if isinstance(i, slice):
            raise Unsupported("slice of a symbolic sequence")
        if isinstance(v, Sym):
            v = ctx().cut(Sym(core.as_real(v.t)))
        self.log.append((self._term(i), v))

    def isnan_seq(self):
        raise Unsupported("isnan of a symbolic sequence")
