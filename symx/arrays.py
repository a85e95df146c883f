"""
Arrays of symbolic values: an ndarray subclass of dtype object, so that numpy's own
indexing, slicing, iteration and shape logic is what runs.  ``kind`` remembers
whether the array stands for a float64 or an int64 array (an int64 array truncates
what is stored in it, and cannot hold NaN).
"""
import builtins
import math

import numpy as np
import z3

from . import core
from .core import Sym, SymBool, Unsupported, ctx


def is_symbolic(x):
    if isinstance(x, (Sym, SymBool)):
        return True
    return isinstance(x, np.ndarray) and x.dtype == object


def has_sym(x):
    if isinstance(x, (Sym, SymBool)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object and any(isinstance(v, (Sym, SymBool)) for v in x.flat)
    if isinstance(x, (list, tuple)):
        return any(has_sym(v) for v in x)
    if is_pandas(x):
        return has_sym(np.asarray(x))
    return False


def is_pandas(x):
    return type(x).__module__.startswith("pandas.") and type(x).__name__ in (
        "Series", "DataFrame", "Index"
    )


# -- elementwise table --------------------------------------------------------


def _m(name, fallback):
    def f(x):
        if isinstance(x, Sym):
            return getattr(x, name)()
        if isinstance(x, SymBool):
            return getattr(x._num(), name)()
        return fallback(x)

    return f


def _max(a, b):
    for v in (a, b):
        if core.is_num(v) and v != v:
            return v
    return a if bool(a >= b) else b


def _min(a, b):
    for v in (a, b):
        if core.is_num(v) and v != v:
            return v
    return a if bool(a <= b) else b


def _div(a, b):
    if isinstance(a, (Sym, SymBool)) or isinstance(b, (Sym, SymBool)):
        return a / b
    return np.true_divide(a, b)


def _and(a, b):
    if isinstance(a, SymBool) or isinstance(b, SymBool):
        a = a if isinstance(a, SymBool) else bool(a)
        b = b if isinstance(b, SymBool) else bool(b)
        return a & b
    return bool(a) and bool(b)


def _or(a, b):
    if isinstance(a, SymBool) or isinstance(b, SymBool):
        a = a if isinstance(a, SymBool) else bool(a)
        b = b if isinstance(b, SymBool) else bool(b)
        return a | b
    return bool(a) or bool(b)


def _not(a):
    return ~a if isinstance(a, SymBool) else not bool(a)


def _invert(a):
    if isinstance(a, SymBool):
        return ~a
    if isinstance(a, (bool, np.bool_)):
        return not a
    return ~a


def _clip(a, lo, hi):
    if lo is not None:
        a = _max(a, lo)
    if hi is not None:
        a = _min(a, hi)
    return a


def _op(name):
    import operator

    return getattr(operator, name)


TABLE = {
    np.add: _op("add"),
    np.subtract: _op("sub"),
    np.multiply: _op("mul"),
    np.true_divide: _div,
    np.floor_divide: _op("floordiv"),
    np.remainder: _op("mod"),
    np.power: lambda a, b: core.sym_pow(a, b) if has_sym(a) or has_sym(b) else a ** b,
    np.float_power: lambda a, b: core.sym_pow(a, b),
    np.negative: _op("neg"),
    np.positive: _op("pos"),
    np.absolute: builtins.abs,
    np.fabs: builtins.abs,
    np.exp: _m("exp", np.exp),
    np.expm1: _m("expm1", np.expm1),
    np.log: _m("log", np.log),
    np.log1p: _m("log1p", np.log1p),
    np.sqrt: _m("sqrt", np.sqrt),
    np.square: _m("square", np.square),
    np.reciprocal: _m("reciprocal", np.reciprocal),
    np.isnan: _m("isnan", lambda v: bool(v != v)),
    np.isinf: _m("isinf", np.isinf),
    np.isfinite: _m("isfinite", np.isfinite),
    np.sign: _m("sign", np.sign),
    np.floor: _m("floor", np.floor),
    np.ceil: _m("ceil", np.ceil),
    np.rint: _m("rint", np.rint),
    np.trunc: _m("trunc", np.trunc),
    np.equal: _op("eq"),
    np.not_equal: _op("ne"),
    np.less: _op("lt"),
    np.less_equal: _op("le"),
    np.greater: _op("gt"),
    np.greater_equal: _op("ge"),
    np.logical_and: _and,
    np.logical_or: _or,
    np.logical_not: _not,
    np.bitwise_and: _and,
    np.bitwise_or: _or,
    np.invert: _invert,
    np.maximum: _max,
    np.minimum: _min,
    np.fmax: _max,
    np.fmin: _min,
    np.conjugate: lambda a: a,
    np.hypot: lambda a, b: _m("sqrt", np.sqrt)(a * a + b * b),
    np.heaviside: lambda a, b: b if bool(a == 0) else (1.0 if bool(a > 0) else 0.0),
}
if hasattr(np.core.umath, "clip"):
    TABLE[np.core.umath.clip] = _clip

_BOOL = {
    np.isnan, np.isinf, np.isfinite, np.equal, np.not_equal, np.less, np.less_equal,
    np.greater, np.greater_equal, np.logical_and, np.logical_or, np.logical_not,
}
_FLOAT = {
    np.true_divide, np.exp, np.expm1, np.log, np.log1p, np.sqrt, np.float_power, np.reciprocal,
}


def _kind(x):
    if isinstance(x, SymArray):
        return x.kind
    if isinstance(x, Sym):
        return "i" if x.t.is_int() else "f"
    if isinstance(x, (bool, np.bool_, int, np.integer)):
        return "i"
    if isinstance(x, np.ndarray) and x.dtype.kind in "iub":
        return "i"
    return "f"


def _finish(values, shape, kind, want_bool):
    if shape == ():
        return values[0]
    if want_bool and all(isinstance(v, (bool, np.bool_)) for v in values):
        return np.array(values, dtype=bool).reshape(shape)
    out = np.empty(len(values), dtype=object)
    for i, v in enumerate(values):
        out[i] = v
    out = out.reshape(shape)
    if want_bool:
        return out.view(SymArray)
    out = out.view(SymArray)
    out.kind = kind
    return out


def _reduce(ufunc, x, axis, initial=None):
    f = TABLE[ufunc]
    x = np.asarray(x, dtype=object).view(np.ndarray)
    if axis is None or x.ndim == 1:
        vals = list(x.flat)
        if not vals:
            if initial is not None:
                return initial
            return {np.add: 0.0, np.multiply: 1.0, np.logical_and: True, np.logical_or: False}[
                ufunc
            ]
        acc = vals[0] if initial is None else f(initial, vals[0])
        for v in vals[1:]:
            acc = f(acc, v)
        return acc
    return along_axis(lambda row: _reduce(ufunc, row, None, initial), axis, x)


def along_axis(f, axis, x):
    """numpy.apply_along_axis, for functions whose results can be symbolic"""
    if isinstance(axis, tuple):
        raise Unsupported("several axes")
    x = np.moveaxis(np.asarray(x, dtype=object).view(np.ndarray), axis, -1)
    flat = x.reshape(-1, x.shape[-1])
    res = [f(row) for row in flat]
    if res and isinstance(res[0], np.ndarray):
        out = np.empty(flat.shape[:1] + res[0].shape, dtype=object)
        for i, r in enumerate(res):
            out[i] = r
        return np.moveaxis(out.reshape(x.shape[:-1] + res[0].shape), -1, axis).view(SymArray)
    out = np.empty(len(res), dtype=object)
    for i, r in enumerate(res):
        out[i] = r
    return out.reshape(x.shape[:-1]).view(SymArray)


def _plain(v):
    """numpy scalars would dispatch back to the ufunc"""
    if isinstance(v, np.floating):
        return float(v)
    if isinstance(v, np.integer):
        return int(v)
    return v


def apply_ufunc(ufunc, method, inputs, kwargs):
    for x in inputs:
        if not (
            isinstance(x, (Sym, SymBool, np.ndarray, list, tuple))
            or core.is_num(x)
            or isinstance(x, (bool, np.timedelta64))
            or x is None
        ):
            return NotImplemented  # pint quantities, pandas objects
    if ufunc is np.matmul and method == "__call__" and len(inputs) == 2:
        a, b = [np.asarray(_obj(x), dtype=object).view(np.ndarray) for x in inputs]
        if 0 < a.ndim <= 2 and 0 < b.ndim <= 2 and kwargs.get("out") is None:
            r = np.dot(a, b)
            return r.view(SymArray) if isinstance(r, np.ndarray) and r.ndim else r
    if ufunc not in TABLE:
        raise Unsupported("ufunc %s on symbolic values" % ufunc.__name__)
    out = kwargs.pop("out", None)
    where = kwargs.pop("where", True)
    kwargs.pop("dtype", None)
    kwargs.pop("casting", None)
    kwargs.pop("subok", None)
    if where is not True:
        raise Unsupported("ufunc where=")
    f = TABLE[ufunc]
    if method == "__call__":
        arrs = [np.asarray(_obj(x), dtype=object).view(np.ndarray) for x in inputs]
        b = np.broadcast_arrays(*arrs) if len(arrs) > 1 else arrs
        shape = b[0].shape
        vals = [f(*args) for args in zip(*[[_plain(v) for v in a.flat] for a in b])]
        kinds = [_kind(x) for x in inputs]
        kind = "f" if ufunc in _FLOAT or "f" in kinds else "i"
        res = _finish(vals, shape, kind, ufunc in _BOOL)
    elif method == "reduce":
        axis = kwargs.get("axis", 0)
        res = _reduce(ufunc, inputs[0], axis, kwargs.get("initial"))
        if kwargs.get("keepdims"):
            if axis is not None and not isinstance(axis, (int, np.integer)):
                raise Unsupported("keepdims of several axes")
            shape = list(np.shape(inputs[0]))
            for i in range(len(shape)) if axis is None else [axis]:
                shape[i] = 1
            res = symarray(res.flat if isinstance(res, np.ndarray) else [res], "f", tuple(shape))
    elif method == "accumulate":
        vals, acc = [], None
        for i, v in enumerate(np.asarray(inputs[0], dtype=object).flat):
            acc = v if i == 0 else f(acc, v)
            vals.append(acc)
        res = _finish(vals, (len(vals),), "f", False)
    elif method == "outer":
        a, c = [np.asarray(_obj(x), dtype=object).view(np.ndarray) for x in inputs]
        vals = [f(_plain(p), _plain(q)) for p in a.flat for q in c.flat]
        res = _finish(vals, a.shape + c.shape, "f", ufunc in _BOOL)
    else:
        raise Unsupported("ufunc method %s" % method)
    if out is not None:
        tgt = out[0]
        if isinstance(tgt, np.ndarray) and tgt.dtype == object:
            tgt[...] = res
            return tgt
        raise Unsupported("ufunc out= into a non-object array")
    return res


def _obj(x):
    if isinstance(x, (Sym, SymBool)):
        a = np.empty((), dtype=object)
        a[()] = x
        return a
    return x


class SymArray(np.ndarray):
    """ndarray (dtype object) holding symbolic numbers, Python floats and NaN."""

    def __array_finalize__(self, obj):
        self.kind = getattr(obj, "kind", "f")
        self.cut = getattr(obj, "cut", True)

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        return apply_ufunc(ufunc, method, inputs, kwargs)

    def __array_function__(self, func, types, args, kwargs):
        from . import shims

        h = shims.ARRAY_FUNCTIONS.get(func)
        if h is not None:
            return h(*args, **kwargs)
        if any(not issubclass(t, np.ndarray) for t in types):
            return NotImplemented
        return super().__array_function__(func, types, args, kwargs)

    def _store(self, v):
        if isinstance(v, SymBool):
            v = v._num()
        if self.kind == "i":
            if isinstance(v, Sym):
                return v if v.t.is_int() else v.__trunc__()
            if isinstance(v, (float, np.floating)):
                if math.isnan(v):
                    raise ValueError("cannot convert float NaN to integer")
                return int(v)
            return v
        if isinstance(v, np.ndarray) and v.ndim == 0:
            v = v[()]
        if isinstance(v, Sym):
            if v.t.is_int():
                v = Sym(core.as_real(v.t))
            if self.kind == "f4":
                v = ctx().rounded32(v)
            return ctx().cut(v) if self.cut else v
        if core.is_num(v):
            return float(np.float32(v)) if self.kind == "f4" else float(v)
        if v is None:
            return v
        raise ValueError("setting an array element with %r" % (v,))

    def __setitem__(self, idx, val):
        if isinstance(val, np.ndarray) and val.ndim > 0:
            flat = [self._store(v) for v in np.asarray(val, dtype=object).flat]
            tmp = np.empty(len(flat), dtype=object)
            for i, v in enumerate(flat):
                tmp[i] = v
            super().__setitem__(idx, tmp.reshape(np.shape(val)))
        elif isinstance(val, (list, tuple)):
            tmp = np.empty(len(val), dtype=object)
            for i, v in enumerate(val):
                tmp[i] = self._store(v)
            super().__setitem__(idx, tmp)
        else:
            v = self._store(val)
            if isinstance(idx, Sym):
                idx = int(idx.__index__())
            super().__setitem__(idx, v)

    def __getitem__(self, idx):
        if isinstance(idx, Sym):
            idx = int(idx.__index__())
        return super().__getitem__(idx)

    def astype(self, dtype, *a, **k):
        from .shims import _real_dtype

        dt = np.dtype(_real_dtype(dtype))
        if dt == object:
            return self.copy()
        if dt.kind == "f":
            r = self.copy()
            r.kind = "f"
            if dt.itemsize < 8:
                r.kind = "f4"
                for i in np.ndindex(*r.shape):
                    np.ndarray.__setitem__(r, i, r._store(self[i]))
            return r
        if dt.kind in "iu":
            r = self.copy()
            r.kind = "i"
            for i in np.ndindex(*r.shape):
                np.ndarray.__setitem__(r, i, r._store(self[i]))
            return r
        if dt.kind == "b":
            return np.array([bool(v) for v in self.flat], dtype=bool).reshape(self.shape)
        raise Unsupported("astype %s" % dt)

    def any(self, axis=None, out=None, **k):
        if axis is None or self.ndim == 1:
            r = _reduce(np.logical_or, self, None)
            return _truth(r)
        return _reduce(np.logical_or, self, axis)

    def all(self, axis=None, out=None, **k):
        if axis is None or self.ndim == 1:
            r = _reduce(np.logical_and, self, None)
            return _truth(r)
        return _reduce(np.logical_and, self, axis)

    def _extreme(self, f, axis):
        if axis is not None and self.ndim > 1:
            raise Unsupported("min/max along axis")
        vals = list(self.flat)
        acc = vals[0]
        for v in vals[1:]:
            acc = f(acc, v)
        return acc

    def max(self, axis=None, out=None, **k):
        return self._extreme(_max, axis)

    def min(self, axis=None, out=None, **k):
        return self._extreme(_min, axis)

    def mean(self, axis=None, **k):
        if axis is not None and self.ndim > 1:
            raise Unsupported("mean along axis")
        return self.sum() / self.size

    def tolist(self):
        return [v.tolist() if isinstance(v, np.ndarray) else v for v in self]


def _truth(r):
    if isinstance(r, Sym):
        return r != 0
    if core.is_num(r) and not isinstance(r, (bool, np.bool_)):
        return bool(r)
    return r


def symarray(values, kind="f", shape=None):
    values = list(values)
    out = np.empty(len(values), dtype=object)
    for i, v in enumerate(values):
        out[i] = v
    if shape is not None:
        out = out.reshape(shape)
    out = out.view(SymArray)
    out.kind = kind
    return out
