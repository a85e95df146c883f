"""
Environment stubs: what the code under test sees instead of C code that would have to
turn a symbolic number into a machine float.

* ``np``/``numpy`` in the package's modules: a proxy that creates object arrays and
  knows the few functions that have no object loop (isnan, full, zeros ...);
* ``math``: exp, sqrt, ... accept symbolic values;
* ``float``/``int`` in the package's modules: identity / truncation on symbolic values;
* pandas ``astype(float)``: identity on frames holding symbolic values.

Everything else (numpy indexing, pint, pandas, scmdata, the package) runs unmodified.
"""
import builtins
import math
import types

import numpy as np

from . import arrays, core, world
from .arrays import SymArray, has_sym, symarray
from .core import Sym, SymBool, Unsupported


def _shape(s):
    if isinstance(s, Sym):
        s = int(s)
    if isinstance(s, (int, np.integer)):
        return (int(s),)
    return tuple(int(v) for v in s)


def _dtype_kind(dtype, default="f"):
    if dtype is None:
        return default
    dtype = _real_dtype(dtype)
    dt = np.dtype(dtype)
    if dt.kind == "f" and dt.itemsize < 8:
        return "f4"
    return {"i": "i", "u": "i", "f": "f", "O": "f"}.get(dt.kind, None)


def _filled(shape, value, kind):
    shape = _shape(shape)
    n = int(np.prod(shape)) if shape else 1
    if kind == "i" and core.is_num(value):
        # an unsafe cast of NaN, as numpy's full_like and friends do it
        value = -(2 ** 63) if value != value else int(value)
    elif core.is_num(value) and not isinstance(value, Sym):
        value = float(value)
    return symarray([value] * n, kind, shape)


def zeros(shape, dtype=None, *a, **k):
    kd = _dtype_kind(dtype)
    return np.zeros(shape, dtype, *a, **k) if kd is None else _filled(shape, 0, kd)


def ones(shape, dtype=None, *a, **k):
    kd = _dtype_kind(dtype)
    return np.ones(shape, dtype, *a, **k) if kd is None else _filled(shape, 1, kd)


def empty(shape, dtype=None, *a, **k):
    kd = _dtype_kind(dtype)
    if kd is None:
        return np.empty(shape, dtype, *a, **k)
    # arbitrary contents: NaN for floats, an arbitrary integer otherwise
    return _filled(shape, -987654321, "i") if kd == "i" else _filled(shape, float("nan"), kd)


def full(shape, fill_value, dtype=None, *a, **k):
    if dtype is None:
        if isinstance(fill_value, (bool, np.bool_)):
            return np.full(shape, fill_value)
        kd = "i" if isinstance(fill_value, (int, np.integer)) else "f"
    else:
        kd = _dtype_kind(dtype)
        if kd is None:
            return np.full(shape, fill_value, dtype, *a, **k)
    return _filled(shape, fill_value, kd)


def _like(x, value, dtype, shape=None):
    if hasattr(x, "_magnitude"):
        return NotImplemented
    arr = np.asarray(x) if not isinstance(x, np.ndarray) else x
    kd = arrays._kind(arr) if dtype is None else _dtype_kind(dtype)
    if isinstance(arr, np.ndarray) and arr.dtype == object and not isinstance(arr, SymArray):
        kd = "f" if dtype is None else kd
    if kd is None:
        return np.full(arr.shape if shape is None else _shape(shape), value, dtype=dtype)
    return _filled(arr.shape if shape is None else shape, value, kd)


def zeros_like(x, dtype=None, order=None, subok=True, shape=None):
    return _like(x, 0, dtype, shape)


def ones_like(x, dtype=None, order=None, subok=True, shape=None):
    return _like(x, 1, dtype, shape)


def empty_like(x, dtype=None, order=None, subok=True, shape=None):
    kd = arrays._kind(x) if dtype is None else _dtype_kind(dtype)
    return _like(x, -987654321 if kd == "i" else float("nan"), dtype, shape)


def full_like(x, fill_value, dtype=None, order=None, subok=True, shape=None):
    return _like(x, fill_value, dtype, shape)


def _sym_from(x, copy=True):
    if isinstance(x, SymArray):
        return x.copy() if copy else x
    if isinstance(x, (Sym, SymBool)):
        return arrays._obj(x).view(SymArray)
    if isinstance(x, np.ndarray):
        vals = x.copy() if copy else x
        return vals.view(SymArray)
    base = np.array(x, dtype=object)
    return base.view(SymArray)


def array(x, dtype=None, *a, **k):
    if isinstance(x, SymArray) or has_sym(x):
        r = _sym_from(x, k.get("copy", True))
        if k.get("ndmin"):
            while r.ndim < k["ndmin"]:
                r = r[None]
        return r if dtype is None else r.astype(_real_dtype(dtype))
    r = np.array(x, _real_dtype(dtype), *a, **k)
    return _maybe(r)


def _real_dtype(dtype):
    if isinstance(dtype, type) and isinstance(dtype, _Meta):
        return dtype._real
    return dtype


def _maybe(r):
    """fresh float arrays may later receive symbolic values"""
    if isinstance(r, np.ndarray) and type(r) is np.ndarray and r.dtype.kind == "f" and r.ndim:
        return symarray([float(v) for v in r.flat], "f", r.shape)
    return r


def asarray(x, dtype=None, *a, **k):
    if isinstance(x, SymArray):
        return x if dtype is None else x.astype(_real_dtype(dtype))
    if has_sym(x):
        return array(x, dtype, copy=False)
    return np.asarray(x, _real_dtype(dtype), *a, **k)


def _mag(x):
    return x.magnitude if hasattr(x, "magnitude") and hasattr(x, "units") else x


def isnan(x, *a, **k):
    m = _mag(x)
    if hasattr(m, "isnan_seq"):
        return m.isnan_seq()
    if isinstance(m, (Sym, SymBool)):
        return False
    if isinstance(m, np.ndarray) and m.dtype == object:
        return np.array(
            [isinstance(v, (float, np.floating)) and v != v for v in m.flat], dtype=bool
        ).reshape(m.shape)
    return np.isnan(x, *a, **k)


def isfinite(x, *a, **k):
    m = _mag(x)
    if isinstance(m, (Sym, SymBool)):
        return True
    if isinstance(m, np.ndarray) and m.dtype == object:
        return np.array(
            [not isinstance(v, (float, np.floating)) or bool(np.isfinite(v)) for v in m.flat],
            dtype=bool,
        ).reshape(m.shape)
    return np.isfinite(x, *a, **k)


def _plain(x):
    """the values of a pandas object that holds symbolic values"""
    if arrays.is_pandas(x) and has_sym(x):
        return _sym_from(np.asarray(x))
    return x


def isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    a, b = _plain(a), _plain(b)
    if has_sym(a) or has_sym(b):
        return np.less_equal(np.absolute(np.subtract(a, b)), np.absolute(b) * rtol + atol)
    return np.isclose(a, b, rtol, atol, equal_nan)


def allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    r = isclose(a, b, rtol, atol, equal_nan)
    return bool(r.all()) if isinstance(r, np.ndarray) else bool(r)


def any_(x, *a, **k):
    x = _plain(x)
    if isinstance(x, SymBool):
        return x
    if isinstance(x, SymArray):
        return x.any()
    return np.any(x, *a, **k)


def all_(x, *a, **k):
    x = _plain(x)
    if isinstance(x, SymBool):
        return x
    if isinstance(x, SymArray):
        return x.all()
    return np.all(x, *a, **k)


def where(cond, *args):
    cond = _plain(cond)
    args = [_plain(v) for v in args]
    if not args:
        return np.where(cond)
    a, b = args
    if isinstance(cond, np.ndarray) and cond.ndim:
        cb = np.array([bool(c) for c in np.asarray(cond, dtype=object).flat]).reshape(cond.shape)
        if has_sym(a) or has_sym(b):
            aa, bb = np.broadcast_to(arrays._obj(a), cb.shape), np.broadcast_to(
                arrays._obj(b), cb.shape
            )
            return symarray(
                [x if c else y for c, x, y in zip(cb.flat, aa.flat, bb.flat)], "f", cb.shape
            )
        return np.where(cb, a, b)
    if isinstance(cond, (SymBool, Sym)) or has_sym(a) or has_sym(b):
        return a if bool(cond) else b
    return np.where(cond, a, b)


def _seq(name):
    real = getattr(np, name)

    def f(x, axis=None, *a, **k):
        if has_sym(x) or isinstance(x, SymArray):
            x = np.asarray(x, dtype=object)
            if axis is not None and x.ndim > 1:
                return arrays.along_axis(f, axis, x)
            x = [v for v in x.flat]
            out, acc = [], None
            for i, v in enumerate(x):
                acc = v if i == 0 else (acc + v if name == "cumsum" else acc * v)
                out.append(acc)
            return symarray(out)
        return real(x, axis, *a, **k)

    return f


def asum(x, axis=None, *a, **k):
    x = _plain(x)
    if has_sym(x):
        k = {n: v for n, v in k.items() if v is not np._NoValue}
        if a or k.get("out") is not None or k.get("where", True) is not True or k.get("keepdims"):
            raise Unsupported("sum with further arguments")
        return arrays._reduce(
            np.add, np.asarray(x, dtype=object), axis, k.get("initial"))
    return np.sum(x, axis, *a, **k)


def matmul(x, y, *a, **k):
    x, y = _plain(x), _plain(y)
    if has_sym(x) or has_sym(y):
        return np.dot(_sym_from(x), _sym_from(y)) if np.ndim(x) <= 2 >= np.ndim(y) else (
            np.matmul(x, y))
    return np.matmul(x, y, *a, **k)


class vectorize(np.vectorize):
    def __call__(self, *args, **kwargs):
        if any(has_sym(x) for x in args) and not kwargs and self.signature is None:
            return np.frompyfunc(self.pyfunc, len(args), 1)(
                *[np.asarray(x, dtype=object).view(np.ndarray) for x in args]).view(SymArray)
        return super().__call__(*args, **kwargs)


def _floating(dtype):
    try:
        return float if np.dtype(_real_dtype(dtype)) == object else _real_dtype(dtype)
    except TypeError:
        return dtype


def finfo(dtype):
    return np.finfo(float if isinstance(dtype, (Sym, SymArray)) else _floating(dtype))


def issubdtype(a, b):
    return np.issubdtype(_floating(a), _real_dtype(b))


OVERRIDES = {
    "zeros": zeros, "ones": ones, "empty": empty, "full": full,
    "zeros_like": zeros_like, "ones_like": ones_like, "empty_like": empty_like,
    "full_like": full_like, "array": array, "asarray": asarray, "asanyarray": asarray,
    "ascontiguousarray": asarray, "isnan": isnan, "isfinite": isfinite, "isclose": isclose,
    "allclose": allclose, "any": any_, "all": all_, "where": where,
    "cumsum": _seq("cumsum"), "cumprod": _seq("cumprod"), "sum": asum,
    "matmul": matmul, "vectorize": vectorize, "finfo": finfo, "issubdtype": issubdtype,
}  # fmt: skip

ARRAY_FUNCTIONS = {
    np.zeros_like: zeros_like, np.ones_like: ones_like, np.empty_like: empty_like,
    np.full_like: full_like, np.isclose: isclose, np.allclose: allclose,
    np.where: where, np.cumsum: _seq("cumsum"), np.sum: asum,
}  # fmt: skip


class NumpyProxy(types.ModuleType):
    def __init__(self):
        super().__init__("numpy")

    def __getattr__(self, name):
        return getattr(np, name)


NP = NumpyProxy()
for _k, _v in OVERRIDES.items():
    setattr(NP, _k, _v)


class _Meta(type):
    def __instancecheck__(cls, x):
        if isinstance(x, Sym):
            return cls is SNumber or x.t.is_int() == (cls in (SInt, SInteger))
        return isinstance(x, cls._real)

    def __subclasscheck__(cls, c):
        return issubclass(c, cls._real)


class SFloat(float, metaclass=_Meta):
    _real = float

    def __new__(cls, x=0.0):
        if isinstance(x, Sym):
            return Sym(core.as_real(x.t))
        if isinstance(x, SymBool):
            return Sym(core.as_real(x._num().t))
        if hasattr(x, "_magnitude") and isinstance(x._magnitude, Sym):
            return x.to("dimensionless").magnitude
        if isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
            return SFloat(x.item())
        return float(x)


class SFloat64(SFloat):
    _real = np.float64

    def __new__(cls, x=0.0):
        if has_sym(x) or (hasattr(x, "_magnitude") and has_sym(x._magnitude)):
            return SFloat.__new__(SFloat, x)
        return np.float64(x)


class SFloat32(float, metaclass=_Meta):
    _real = np.float32

    def __new__(cls, x=0.0):
        if has_sym(x):
            v = SFloat(x)
            return core.ctx().rounded32(v) if isinstance(v, Sym) else np.float32(v)
        return np.float32(x)


class SInt(int, metaclass=_Meta):
    _real = int

    def __new__(cls, x=0, *a):
        if isinstance(x, Sym):
            return x if x.t.is_int() else x.__trunc__()
        return int(x, *a)


class SFloating(metaclass=_Meta):
    _real = np.floating


class SInteger(metaclass=_Meta):
    _real = np.integer


class SNumber(metaclass=_Meta):
    _real = np.number


for _n, _c in (("floating", SFloating), ("integer", SInteger), ("number", SNumber),
               ("float64", SFloat64), ("float_", SFloat64), ("double", SFloat64),
               ("float32", SFloat32), ("single", SFloat32)):
    OVERRIDES[_n] = _c
    setattr(NP, _n, _c)


def _math1(name, meth):
    real = getattr(math, name)

    def f(x, *a):
        if hasattr(x, "_magnitude") and has_sym(x._magnitude):
            x = x.to("dimensionless").magnitude
        if isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
            x = x.item()
        if isinstance(x, Sym):
            return meth(x, *a)
        return real(x, *a)

    f.__name__ = name
    f._real = real
    return f


_MATH = {
    "exp": lambda x: x.exp(), "expm1": lambda x: x.expm1(), "log": lambda x: x.log(),
    "log1p": lambda x: x.log1p(), "sqrt": lambda x: x.sqrt(), "fabs": lambda x: abs(x),
    "isnan": lambda x: False, "isinf": lambda x: False, "isfinite": lambda x: True,
    "pow": lambda x, y: core.sym_pow(x, y), "floor": lambda x: x.__floor__(),
    "ceil": lambda x: x.__ceil__(), "trunc": lambda x: x.__trunc__(),
}  # fmt: skip


def _patch_math():
    for name, meth in _MATH.items():
        if not hasattr(getattr(math, name), "_real"):
            setattr(math, name, _math1(name, meth))
    real_isclose = math.isclose

    def misclose(a, b, *, rel_tol=1e-09, abs_tol=0.0):
        if has_sym(a) or has_sym(b):
            d = abs(a - b)
            return bool(d <= arrays._max(rel_tol * arrays._max(abs(a), abs(b)), abs_tol))
        return real_isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)

    math.isclose = misclose
    real_fsum = math.fsum

    def fsum(xs):
        xs = list(xs)
        if has_sym(xs):
            acc = 0.0
            for v in xs:
                acc = acc + v
            return acc
        return real_fsum(xs)

    math.fsum = fsum


def _patch_pandas():
    import pandas as pd

    def wrap(cls):
        real = cls.astype

        def astype(self, dtype, *a, **k):
            dtype = _real_dtype(dtype) if not isinstance(dtype, dict) else dtype
            if not isinstance(dtype, dict) and dtype in (float, "float", "float64", np.float64):
                vals = self._values if hasattr(self, "_values") else self.values
                if getattr(vals, "dtype", None) == object and has_sym(np.asarray(vals)):
                    return self.copy()
            return real(self, dtype, *a, **k)

        cls.astype = astype

    wrap(pd.DataFrame)
    wrap(pd.Series)


_installed = False


def apply(mods):
    """let the modules of the package see the stubs"""
    for m in mods:
        if m.__name__.endswith("._version"):
            continue
        d = m.__dict__
        for k, v in list(d.items()):
            if v is np:
                d[k] = NP
            elif id(v) in _REAL_FN and v is not builtins.any and v is not builtins.all:
                d[k] = _REAL_FN[id(v)]
            elif id(v) in _MATH_FN:
                d[k] = _MATH_FN[id(v)]
        d["float"] = SFloat
        d["int"] = SInt


_REAL_FN, _MATH_FN = {}, {}


def install(pandas=False):
    global _installed
    if _installed:
        return
    _installed = True
    _REAL_FN.update({id(getattr(np, k)): v for k, v in OVERRIDES.items()})
    _patch_math()
    _MATH_FN.update({id(getattr(math, k)._real): getattr(math, k) for k in _MATH})
    world.on_load = apply
    if pandas:
        _patch_pandas()
    world.renew()
