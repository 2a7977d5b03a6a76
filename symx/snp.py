"""A numpy stand-in for symbolic execution.

`A` is an ndarray subclass with object storage (so views, slicing, aliasing and
broadcasting are numpy's own) plus a tag `_dt` saying which dtype the real array
would have.  Operations on arrays that hold no symbolic element are delegated to
the real numpy on real typed arrays; operations on symbolic elements are carried
out exactly, forking through core.SBool where a decision is needed.
"""
import math
import operator
import types
from fractions import Fraction

import numpy as rnp

from . import core
from .core import (E, SBool, SNum, Sym, Undecidable, concretize, concretize_int, sall, sand, sany, sfloor, snot, sor,
                   ssincos, ssqrt, strunc)

_obj = rnp.dtype(object)
F8 = rnp.dtype("float64")
I8 = rnp.dtype("int64")
B1 = rnp.dtype(bool)
_ndset = rnp.ndarray.__setitem__
_ndget = rnp.ndarray.__getitem__
nomask = rnp.False_


# ------------------------------------------------------------------ scalars
def is_sym(x):
    return isinstance(x, Sym)


def tag_of_scalar(x):
    if isinstance(x, SNum):
        return I8 if x.isint else F8
    if isinstance(x, SBool):
        return B1
    if isinstance(x, (bool, rnp.bool_)):
        return B1
    if isinstance(x, rnp.generic):
        return x.dtype
    if isinstance(x, int):
        return I8
    if isinstance(x, float):
        return F8
    if isinstance(x, Fraction):
        return F8
    if isinstance(x, (str, bytes, complex)):
        return rnp.asarray(x).dtype
    return _obj


def cast_scalar(x, dt):
    """value of element x after conversion to dtype dt"""
    k = dt.kind
    if isinstance(x, SNum):
        if k == "f":
            if dt.itemsize < 8 and x.const() is None and not (x.isint):
                return _round_f32(x)
            return SNum(x.n, x.d, False) if x.isint else x
        if k in "iu":
            return x if x.isint else strunc(x)
        if k == "b":
            return x != 0
        return x
    if isinstance(x, SBool):
        if k == "b" or k == "O":
            return x
        if k == "f":
            n = x.as_num()
            return SNum(n.n, n.d, False)
        return x.as_num()
    if isinstance(x, Sym) or k == "O":
        return x
    if isinstance(x, Masked):
        return x
    if isinstance(x, Fraction):
        x = float(x)
    if k == "f":
        if dt.itemsize == 8 and type(x) is float:
            return x
        return dt.type(x).item()
    if k in "iu" and isinstance(x, (float, rnp.floating)) and not math.isfinite(x):
        with rnp.errstate(all="ignore"):
            return rnp.asarray(x).astype(dt).item()
    return rnp.asarray(x).astype(dt).item() if not isinstance(x, str) else rnp.asarray(x).astype(dt).item()


_F32 = {}


def _round_f32(x):
    """conversion to 32 bit: an unknown relative error of at most 2**-24"""
    e = E()
    key = ("f32", x.n.key, tuple(f.key for f in x.d))
    if key in e.aux:
        return e.aux[key]
    for k, v in e.aux.items():  # already a float32 value
        if k[0] == "f32" and v.n.key == x.n.key and v.d == x.d:
            return x
    d = e.fresh_real("f32d")
    e.assume_fact(d <= Fraction(1, 2**24))
    e.assume_fact(d >= Fraction(-1, 2**24))
    e.aux[key] = r = x + x * d
    return r


def out_scalar(x, dt):
    """element as handed out by indexing: numpy scalar when concrete"""
    if isinstance(x, Sym) or dt.kind == "O" or isinstance(x, rnp.generic):
        return x
    try:
        return dt.type(x) if dt.kind in "biufc" else rnp.asarray(x, dtype=dt)[()]
    except (TypeError, ValueError, OverflowError):
        return x


# ------------------------------------------------------------------ array class
class A(rnp.ndarray):
    _dt = _obj

    def __array_finalize__(self, obj):
        if obj is not None:
            self._dt = getattr(obj, "_dt", _obj)

    @property
    def data(self):
        """the buffer: indexable like the array"""
        return mk(rnp.ndarray.view(self, rnp.ndarray), self._dt)

    @property
    def dtype(self):
        return self._dt

    @dtype.setter
    def dtype(self, dt):
        self._dt = _dtype(dt)

    def __setattr__(self, k, v):
        if type(self) is A and k not in ("_dt", "shape", "dtype", "flat", "strides"):
            raise AttributeError(f"'numpy.ndarray' object has no attribute '{k}'")
        rnp.ndarray.__setattr__(self, k, v)

    @property
    def itemsize(self):
        return self._dt.itemsize

    @property
    def nbytes(self):
        return self._dt.itemsize * self.size

    @property
    def raw(self):
        """plain object ndarray sharing the storage"""
        return rnp.ndarray.view(self, rnp.ndarray)

    # ---- element access
    def __getitem__(self, key):
        r = _ndget(self, norm_key(key))
        if isinstance(r, A):
            return r
        return out_scalar(r, self._dt)

    def __setitem__(self, key, value):
        key = norm_key(key)
        if not self._writable():
            raise ValueError("assignment destination is read-only")
        if isinstance(value, MA):
            value = value.data_A()
        if value is masked:
            value = rnp.nan if self._dt.kind == "f" else 0
        if isinstance(value, (str, bytes)) or (self._dt.kind == "O" and not isinstance(value, (rnp.ndarray, list, tuple))):
            _ndset(self, key, cast_scalar(value, self._dt) if not isinstance(value, Sym) else value)
            return
        v = cast_obj(to_obj(value)[0], self._dt)
        _ndset(self, key, v if v.ndim else v[()])

    def _writable(self):
        return self.flags.writeable

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        for i in range(len(self)):
            yield self[i]

    def __contains__(self, x):
        if x is masked:  # what numpy's comparison of masks amounts to
            return bool(sany(list(_elts(getmaskarray(self)))))
        return bool(sany(list(_elts(asA(eq_any(self, x))))))

    def __bool__(self):
        if self.size == 1:
            x = self.raw.reshape(-1)[0]
            return bool(x)
        if self.size == 0:
            raise ValueError("The truth value of an empty array is ambiguous.")
        raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")

    def _one(self):
        if self.size != 1:
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        return self.raw.reshape(-1)[0]

    def __float__(self):
        if self.ndim > 0:
            raise TypeError("only 0-dimensional arrays can be converted to Python scalars")
        return float(self._one())

    def __int__(self):
        if self.ndim > 0:
            raise TypeError("only 0-dimensional arrays can be converted to Python scalars")
        return int(self._one())

    def __index__(self):
        if self.ndim != 0 or self._dt.kind not in "iub":
            raise TypeError("only integer scalar arrays can be converted to a scalar index")
        return operator.index(self._one())

    def __hash__(self):
        raise TypeError("unhashable type: 'numpy.ndarray'")

    def __repr__(self):
        r = rnp.ndarray.view(self, rnp.ndarray)
        if r.size > 1000:  # numpy abbreviates: only the corners are told
            r = r[tuple(slice(None) if n <= 6 else [0, 1, 2, -3, -2, -1] if k == 0 else slice(None) for k, n in enumerate(r.shape))]
            return f"A({r.tolist()!r}..., {self._dt})"
        return f"A({r.tolist()!r}, {self._dt})"

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __reduce__(self):
        raise TypeError("no pickling")

    def __deepcopy__(self, memo):
        return self.copy()

    # ---- conversions
    def astype(self, dt, copy=True, **kw):
        dt = _dtype(dt)
        if not copy and dt == self._dt:
            return self
        r = cast_obj(self.raw.copy(), dt)
        r = mk(r, dt)
        return r

    def copy(self, order="C"):
        return mk(self.raw.copy(order), self._dt)

    def __copy__(self):
        return self.copy()

    def tolist(self):
        def conv(x):
            if isinstance(x, list):
                return [conv(y) for y in x]
            return x

        return self.raw.tolist()

    def item(self, *a):
        if not a:
            if self.size != 1:
                raise ValueError("can only convert an array of size 1 to a Python scalar")
            return self.raw.reshape(-1)[0]
        return self.raw.item(*[int(x) for x in a])

    def view(self, *a, **k):
        if a and isinstance(a[0], type) and issubclass(a[0], rnp.ndarray):
            if issubclass(a[0], MA):
                return MA._make(self, nomask)
            return mk(self.raw, self._dt)
        if not a and not k:
            return mk(self.raw, self._dt)
        dt = _dtype(a[0] if a else k["dtype"])
        if not has_sym(self):
            return from_real(to_real(self).view(dt))
        raise Undecidable("reinterpreting view")

    def tobytes(self, *a, **k):
        return SBytes(self)

    # ---- reductions & friends
    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        return f_sum(self, axis=axis, dtype=dtype, out=out, keepdims=keepdims, **kw)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False):
        return f_prod(self, axis=axis, dtype=dtype, keepdims=keepdims)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        return f_mean(self, axis=axis, keepdims=keepdims)

    def min(self, axis=None, out=None, keepdims=False, **kw):
        return f_min(self, axis=axis, keepdims=keepdims)

    def max(self, axis=None, out=None, keepdims=False, **kw):
        return f_max(self, axis=axis, keepdims=keepdims)

    def ptp(self, axis=None, **kw):
        return self.max(axis) - self.min(axis)

    def any(self, axis=None, out=None, keepdims=False, **kw):
        return f_any(self, axis=axis, keepdims=keepdims)

    def all(self, axis=None, out=None, keepdims=False, **kw):
        return f_all(self, axis=axis, keepdims=keepdims)

    def argmin(self, axis=None, out=None, keepdims=False):
        return f_argmin(self, axis)

    def argmax(self, axis=None, out=None, keepdims=False):
        return f_argmax(self, axis)

    def cumsum(self, axis=None, dtype=None, out=None):
        return f_cumsum(self, axis)

    def dot(self, b):
        return f_dot(self, b)

    def clip(self, min=None, max=None, out=None, **kw):
        return f_clip(self, min, max, out=out)

    def round(self, decimals=0, out=None):
        return f_round(self, decimals)

    def nonzero(self):
        return f_nonzero(self)

    def take(self, indices, axis=None, out=None, mode="raise"):
        return f_take(self, indices, axis=axis, mode=mode)

    def put(self, indices, values, mode="raise"):
        return f_put(self, indices, values, mode)

    def repeat(self, repeats, axis=None):
        return mk(self.raw.repeat(conc_index(repeats), axis), self._dt)

    def compress(self, cond, axis=None, out=None):
        return f_compress(cond, self, axis)

    def searchsorted(self, v, side="left", sorter=None):
        return f_searchsorted(self, v, side)

    def sort(self, axis=-1, **kw):
        r = f_sort(self, axis)
        _ndset(self, Ellipsis, r.raw)

    def argsort(self, axis=-1, **kw):
        return f_argsort(self, axis)

    def fill(self, v):
        self[...] = v

    def std(self, axis=None, **kw):
        return f_std(self, axis, **kw)

    def var(self, axis=None, **kw):
        return f_var(self, axis, **kw)

    def conj(self):
        return self

    def byteswap(self, *a):
        raise Undecidable("byteswap")

    def choose(self, choices, out=None, mode="raise"):
        return f_choose(self, choices)

    # ---- in-place operators (ndarray's refuse operands without ufunc support)
    def _inplace(uf):
        def op(self, o):
            return do_ufunc(uf, "__call__", (self, o), (self,), True, {})

        return op

    __iadd__, __isub__, __imul__, __itruediv__ = map(_inplace, (rnp.add, rnp.subtract, rnp.multiply, rnp.true_divide))
    __ifloordiv__, __imod__, __ipow__ = map(_inplace, (rnp.floor_divide, rnp.remainder, rnp.power))
    __iand__, __ior__, __ixor__ = map(_inplace, (rnp.bitwise_and, rnp.bitwise_or, rnp.bitwise_xor))
    del _inplace

    # ---- binary operators: ndarray's defer to operands without ufunc support
    def _binop(name, uf, swap):
        base = getattr(rnp.ndarray, name)

        def op(self, o):
            if isinstance(o, Sym):
                if isinstance(o, Masked):
                    return masked
                return do_ufunc(uf, "__call__", (o, self) if swap else (self, o), None, True, {})
            return base(self, o)

        return op

    for _n, _u in dict(add=rnp.add, sub=rnp.subtract, mul=rnp.multiply, truediv=rnp.true_divide, floordiv=rnp.floor_divide,
                       mod=rnp.remainder, pow=rnp.power).items():
        locals()[f"__{_n}__"] = _binop(f"__{_n}__", _u, False)
        locals()[f"__r{_n}__"] = _binop(f"__r{_n}__", _u, True)
    for _n, _u in dict(lt=rnp.less, le=rnp.less_equal, gt=rnp.greater, ge=rnp.greater_equal, eq=rnp.equal, ne=rnp.not_equal).items():
        locals()[f"__{_n}__"] = _binop(f"__{_n}__", _u, False)
    del _binop, _n, _u

    # ---- numpy protocol
    def __array_ufunc__(self, ufunc, method, *inputs, out=None, where=True, **kw):
        return do_ufunc(ufunc, method, inputs, out, where, kw)

    def __array_function__(self, func, types_, args, kwargs):
        f = getattr(_module(func), func.__name__, None)
        if f is not None and f is not func:
            return f(*args, **kwargs)
        return generic(func, args, kwargs)


def _module(func):
    m = getattr(func, "__module__", "") or ""
    if m.startswith("numpy.linalg"):
        return SHIM.linalg
    return SHIM


class SBytes:
    """content of an array (for digests): equality is equality of dtype and elements"""

    def __init__(self, a):
        self.parts = [(a._dt.str, tuple(a.raw.reshape(-1).tolist()))]

    def __add__(self, o):
        r = SBytes.__new__(SBytes)
        r.parts = self.parts + (o.parts if isinstance(o, SBytes) else [("b", o)])
        return r

    def __radd__(self, o):
        r = SBytes.__new__(SBytes)
        r.parts = [("b", o)] + self.parts
        return r

    def same(self, o):
        if not isinstance(o, SBytes) or len(o.parts) != len(self.parts):
            return False
        r = True
        for (ka, va), (kb, vb) in zip(self.parts, o.parts):
            if ka != kb:
                return False
            if ka == "b":
                if va != vb:
                    return False
                continue
            if len(va) != len(vb):
                return False
            for x, y in zip(va, vb):
                r = sand(r, s_eq(x, y))
                if r is False:
                    return False
        return r

    def __eq__(self, o):
        return bool(self.same(o))

    def __hash__(self):
        return 11

    def __len__(self):
        return sum(len(v) * (rnp.dtype(k).itemsize if k != "b" else 1) for k, v in self.parts)


def mk(objarr, dt):
    """A over an object ndarray (shares storage)"""
    r = rnp.ndarray.view(objarr, A)
    r._dt = dt
    return r


def from_real(arr):
    """A (or MA) holding a copy of a real array"""
    if isinstance(arr, rnp.ma.MaskedArray):
        m = arr.mask
        mm = nomask if m is rnp.ma.nomask else from_real(rnp.array(m, dtype=bool))
        return MA._make(from_real(rnp.asarray(arr.data)), mm, fill_value=arr._fill_value)
    o = rnp.empty(arr.shape, dtype=object)
    if arr.dtype.kind == "M" or arr.dtype.kind == "m":
        raise Undecidable("datetime64")
    o[...] = arr.astype(object)
    return mk(o, arr.dtype)


def has_sym(x):
    if isinstance(x, Sym):
        return True
    if isinstance(x, MA):
        if any(isinstance(e, Sym) for e in x.raw.flat):
            return True
        return x._mask is not nomask and has_sym(x._mask)
    if isinstance(x, A):
        return any(isinstance(e, Sym) for e in x.raw.flat)
    if isinstance(x, rnp.ndarray):
        return x.dtype == object and any(isinstance(e, Sym) for e in x.flat)
    if isinstance(x, (list, tuple, set)):
        return any(has_sym(e) for e in x)
    if isinstance(x, dict):
        return any(has_sym(e) for e in x.values())
    if isinstance(x, slice):
        return has_sym(x.start) or has_sym(x.stop) or has_sym(x.step)
    return False


def to_real(x):
    """real numpy value of an all-concrete shim value (deep)"""
    if isinstance(x, MA):
        d = to_real(x.data_A())
        if x._mask is nomask:
            r = rnp.ma.MaskedArray(d)
        else:
            r = rnp.ma.MaskedArray(d, mask=to_real(x._mask))
        if x._fill_value is not None:
            try:
                r.fill_value = x._fill_value
            except Exception:
                pass
        return r
    if isinstance(x, A):
        raw = x.raw
        if x._dt == _obj:
            return raw
        with rnp.errstate(all="ignore"):
            return raw.astype(x._dt)
    if isinstance(x, Masked):
        return rnp.ma.masked
    if isinstance(x, list):
        return [to_real(e) for e in x]
    if type(x) is tuple:
        return tuple(to_real(e) for e in x)
    if isinstance(x, dict):
        return {k: to_real(v) for k, v in x.items()}
    if isinstance(x, Fraction):
        return float(x)
    return x


def wrap(x):
    """shim value of a real numpy result (deep)"""
    if isinstance(x, A):
        return x
    if x is rnp.ma.masked:
        return masked
    if isinstance(x, rnp.ndarray):
        return from_real(x)
    if type(x) is tuple:
        return tuple(wrap(e) for e in x)
    if isinstance(x, tuple) and hasattr(x, "_fields"):
        return type(x)(*[wrap(e) for e in x])
    if type(x) is list:
        return [wrap(e) for e in x]
    return x


def to_obj(x):
    """(object ndarray, tag) for anything array-like; shares storage for A"""
    if isinstance(x, A):
        return x.raw, x._dt
    if isinstance(x, rnp.ma.MaskedArray):
        x = x.data
    if isinstance(x, rnp.ndarray):
        o = rnp.empty(x.shape, dtype=object)
        o[...] = x.astype(object) if x.dtype != object else x
        return o, x.dtype
    if isinstance(x, (list, tuple)):
        return list_to_obj(x)
    if isinstance(x, range):
        return list_to_obj(list(x))
    if hasattr(x, "__symarray__"):
        return to_obj(x.__symarray__())
    if hasattr(x, "__array__") and not isinstance(x, rnp.generic):
        return to_obj(x.__array__())
    if hasattr(x, "__len__") and hasattr(x, "__getitem__") and not isinstance(x, (str, bytes, dict, Sym)) and not hasattr(x, "keys"):
        return list_to_obj([x[i] for i in range(len(x))])
    o = rnp.empty((), dtype=object)
    if x is masked:
        x = rnp.nan
    t = tag_of_scalar(x)
    o[()] = x.item() if isinstance(x, rnp.generic) and t.kind in "biufcSU" else x
    return o, t


def _join_tags(tags):
    tags = list(dict.fromkeys(tags))
    if not tags:
        return F8
    if len(tags) == 1:
        return tags[0]
    if any(t == _obj for t in tags):
        return _obj
    return rnp.result_type(*tags)


def list_to_obj(x):
    x = list(x)
    if not _needs_shim(x):
        try:
            r = rnp.array(x)
        except ValueError:
            raise
        o = rnp.empty(r.shape, dtype=object)
        o[...] = r.astype(object)
        return o, r.dtype
    parts = [to_obj(e) for e in x]
    shp = {p.shape for p, _ in parts}
    if len(shp) > 1:
        raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
    shape = shp.pop()
    o = rnp.empty((len(parts),) + shape, dtype=object)
    for i, (p, _) in enumerate(parts):
        _ndset(o, i, p[()] if p.ndim == 0 else p)
    t = _join_tags([t for _, t in parts])
    return cast_obj(o, t), t


def _needs_shim(x):
    """does the nested list contain anything the real numpy cannot convert by itself?"""
    for e in x:
        if isinstance(e, (Sym, A, Masked)) or hasattr(e, "__symarray__"):
            return True
        if isinstance(e, (list, tuple)) and _needs_shim(e):
            return True
    return False


def cast_obj(o, dt):
    """object ndarray with every element converted to dt (new array if anything changes)"""
    if dt == _obj:
        return o
    out = None
    flat = o.reshape(-1) if o.ndim else o.reshape(1)
    for i, e in enumerate(flat):
        c = cast_scalar(e, dt)
        if c is not e:
            if out is None:
                out = flat.copy()
            out[i] = c
    return o if out is None else out.reshape(o.shape)


def _dtype(dt):
    if dt in (float, "float", "f8", "d"):
        return F8
    n = getattr(dt, "_shim_dtype", None)
    if n is not None:
        return n
    return rnp.dtype(dt)


def asA(x):
    if isinstance(x, MA):
        return x.data_A()
    if isinstance(x, A):
        return x
    o, t = to_obj(x)
    return mk(o, t)


def asAny(x):
    return x if isinstance(x, A) else asA(x)


def _elts(a):
    return a.raw.reshape(-1) if isinstance(a, A) else [a]


def ret(o, dt):
    """0-d object array -> scalar, else A"""
    if isinstance(o, rnp.ndarray):
        if o.ndim == 0:
            return out_scalar(o[()], dt)
        return mk(o, dt)
    return out_scalar(o, dt)


# ------------------------------------------------------------------ index keys
def conc_index(x):
    """concrete real index object for an index component"""
    if isinstance(x, SNum):
        return x.__index__()
    if isinstance(x, SBool):
        return bool(x)
    if isinstance(x, MA):
        x = x.data_A()
    if isinstance(x, A):
        if x._dt.kind == "b":
            o = rnp.empty(x.shape, dtype=bool)
            for i, e in enumerate(x.raw.reshape(-1)):
                o.reshape(-1)[i] = bool(e)
            return o
        if x._dt.kind in "iu":
            o = rnp.empty(x.shape, dtype=rnp.intp)
            for i, e in enumerate(x.raw.reshape(-1)):
                o.reshape(-1)[i] = concretize_int(e)
            return o
        if x.size == 0 and x._dt == F8:
            return rnp.empty(x.shape, dtype=float)
        if x._dt == _obj:
            return x.raw
        return to_real(x) if not has_sym(x) else rnp.zeros(x.shape)
    if isinstance(x, list):
        if has_sym(x) or any(isinstance(e, A) for e in x):
            return conc_index(asA(x))
        return x
    if isinstance(x, slice):
        return slice(*[None if v is None else operator.index(v) for v in (x.start, x.stop, x.step)])
    return x


def norm_key(key):
    if isinstance(key, tuple):
        return tuple(conc_index(k) for k in key)
    return conc_index(key)


# ------------------------------------------------------------------ scalar kernels
def s_eq(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        if isinstance(a, Sym):
            return a == b
        return b == a
    r = a == b
    return bool(r) if not isinstance(r, Sym) else r


def _num(x):
    return x.as_num() if isinstance(x, SBool) else x


def k_maximum(a, b):
    if _isnan(a):
        return a
    if _isnan(b):
        return b
    return a if bool(a >= b) else b


def k_minimum(a, b):
    if _isnan(a):
        return a
    if _isnan(b):
        return b
    return a if bool(a <= b) else b


def _isnan(x):
    return isinstance(x, (float, rnp.floating)) and x != x


def k_fmax(a, b):
    if _isnan(a):
        return b
    if _isnan(b):
        return a
    return a if bool(a >= b) else b


def k_fmin(a, b):
    if _isnan(a):
        return b
    if _isnan(b):
        return a
    return a if bool(a <= b) else b


def _tobool(x):
    if isinstance(x, SBool):
        return x
    if isinstance(x, SNum):
        return x != 0
    return bool(x)


def k_sign(a):
    s = core.sign_of(a)
    return SNum(core.pconst(s), (), a.isint)


def k_arctan2(y, x):
    """angle as an auxiliary variable whose sine and cosine are y/r, x/r"""
    e = E()
    y, x = SNum.lift(y), SNum.lift(x)
    if bool(sand(y == 0, x == 0)):
        return 0.0
    r = ssqrt(y * y + x * x)
    t = e.memo_aux(("atan2", y.n.key, tuple(f.key for f in y.d), x.n.key, tuple(f.key for f in x.d)),
                   lambda: e.fresh_real("at"))
    s, c = ssincos(t)
    e.assume_fact(s * r == y)
    e.assume_fact(c * r == x)
    pi = Fraction(math.pi)
    e.assume_fact(t <= pi)
    e.assume_fact(t >= -pi)
    # half planes
    e.assume_fact(core._xnor(y > 0, sand(t > 0, t < pi)))
    e.assume_fact(core._xnor(y < 0, t < 0))
    return t


def k_uninterp(name, fn):
    """monotone-agnostic transcendental function: concretize (recorded)"""

    def f(x):
        e = E()
        e.degrade(name)
        return fn(float(concretize(x)))

    return f


def k_power(a, b):
    r = (a if isinstance(a, SNum) else SNum.lift(a)) ** b
    if r is NotImplemented:
        E().degrade("power")
        return float(concretize(a)) ** float(concretize(b))
    return r


def k_round(x):
    return core.sround(x)


def k_hypot(a, b):
    return ssqrt(_num(a) * _num(a) + _num(b) * _num(b))


def _lift(x):
    return x


KERN = {
    "add": lambda a, b: _num(a) + _num(b),
    "subtract": lambda a, b: _num(a) - _num(b),
    "multiply": lambda a, b: _num(a) * _num(b),
    "divide": lambda a, b: _fdiv(_num(a), _num(b)),
    "true_divide": lambda a, b: _fdiv(_num(a), _num(b)),
    "floor_divide": lambda a, b: _num(a) // _num(b),
    "remainder": lambda a, b: _num(a) % _num(b),
    "mod": lambda a, b: _num(a) % _num(b),
    "power": k_power,
    "float_power": k_power,
    "negative": lambda a: -_num(a),
    "positive": lambda a: _num(a),
    "absolute": lambda a: abs(_num(a)),
    "fabs": lambda a: abs(_num(a)),
    "less": lambda a, b: _num(a) < _num(b),
    "less_equal": lambda a, b: _num(a) <= _num(b),
    "greater": lambda a, b: _num(a) > _num(b),
    "greater_equal": lambda a, b: _num(a) >= _num(b),
    "equal": lambda a, b: s_eq(a, b),
    "not_equal": lambda a, b: snot(s_eq(a, b)),
    "logical_and": lambda a, b: sand(_tobool(a), _tobool(b)),
    "logical_or": lambda a, b: sor(_tobool(a), _tobool(b)),
    "logical_xor": lambda a, b: snot(core._xnor(_tobool(a), _tobool(b))),
    "logical_not": lambda a: snot(_tobool(a)),
    "bitwise_and": lambda a, b: (sand(a, b) if _boolish(a) and _boolish(b) else _cint(a) & _cint(b)),
    "bitwise_or": lambda a, b: (sor(a, b) if _boolish(a) and _boolish(b) else _cint(a) | _cint(b)),
    "bitwise_xor": lambda a, b: (snot(core._xnor(a, b)) if _boolish(a) and _boolish(b) else _cint(a) ^ _cint(b)),
    "invert": lambda a: (snot(a) if _boolish(a) else -a - 1),
    "minimum": k_minimum,
    "maximum": k_maximum,
    "fmin": k_fmin,
    "fmax": k_fmax,
    "sqrt": lambda a: ssqrt(_num(a)),
    "square": lambda a: _num(a) * _num(a),
    "reciprocal": lambda a: 1 / _num(a),
    "sign": k_sign,
    "floor": lambda a: _asfloat(sfloor(_num(a))),
    "ceil": lambda a: _asfloat(-sfloor(-_num(a))),
    "trunc": lambda a: _asfloat(strunc(_num(a))),
    "rint": lambda a: _asfloat(k_round(_num(a))),
    "isnan": lambda a: False,
    "isinf": lambda a: False,
    "isfinite": lambda a: True,
    "sin": lambda a: ssincos(_num(a))[0],
    "cos": lambda a: ssincos(_num(a))[1],
    "tan": lambda a: ssincos(_num(a))[0] / ssincos(_num(a))[1],
    "arctan2": k_arctan2,
    "hypot": k_hypot,
    "deg2rad": lambda a: _num(a) * (math.pi / 180),
    "radians": lambda a: _num(a) * (math.pi / 180),
    "rad2deg": lambda a: _num(a) * (180 / math.pi),
    "degrees": lambda a: _num(a) * (180 / math.pi),
    "exp": k_uninterp("exp", math.exp),
    "log": k_uninterp("log", math.log),
    "log10": k_uninterp("log10", math.log10),
    "cosh": k_uninterp("cosh", math.cosh),
    "sinh": k_uninterp("sinh", math.sinh),
    "tanh": k_uninterp("tanh", math.tanh),
    "arcsin": k_uninterp("arcsin", math.asin),
    "arccos": k_uninterp("arccos", math.acos),
    "arctan": k_uninterp("arctan", math.atan),
    "conjugate": lambda a: a,
    "signbit": lambda a: _num(a) < 0,
}


def _asfloat(x):
    return SNum(x.n, x.d, False) if isinstance(x, SNum) else float(x)


def _boolish(x):
    return isinstance(x, (SBool, bool, rnp.bool_))


def _cint(x):
    return concretize_int(x)


def _fdiv(a, b):
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        with rnp.errstate(all="ignore"):
            return float(rnp.float64(a) / rnp.float64(b)) if not isinstance(a, _TD) else a / b
    return a / b


class _TD:  # replaced by symbolic timedelta in sdt
    pass


_tagcache = {}


def ufunc_tag(uf, tags):
    """result dtype for operand descriptions (dtype or python scalar for weak ones)"""
    key = (uf.__name__, tuple(t if isinstance(t, rnp.dtype) else type(t) for t in tags))
    r = _tagcache.get(key)
    if r is None:
        if any(t == _obj for t in tags if isinstance(t, rnp.dtype)):
            n = uf.__name__
            r = B1 if n in ("less", "less_equal", "greater", "greater_equal", "equal", "not_equal", "isnan", "logical_or",
                            "logical_and", "logical_not") else _obj
        else:
            with rnp.errstate(all="ignore"):
                args = [rnp.ones(1, dtype=t) if isinstance(t, rnp.dtype) else t for t in tags]
                r = uf(*args).dtype
        _tagcache[key] = r
    return r


def _weak(x):
    """python scalars are weak in promotion; symbolic scalars stand for numpy scalars or python ones alike"""
    if isinstance(x, (bool, rnp.bool_)):
        return B1
    if isinstance(x, SNum):
        return 1 if x.isint else 1.0
    if isinstance(x, SBool):
        return B1
    if isinstance(x, rnp.generic):
        return x.dtype
    if isinstance(x, int):
        return 1
    if isinstance(x, (float, Fraction)):
        return 1.0
    if isinstance(x, complex):
        return 1j
    return _obj


def apply_kernel(uf, name, objs):
    """elementwise over broadcast object arrays"""
    k = KERN.get(name)
    b = rnp.broadcast(*objs) if len(objs) > 1 else None
    shape = b.shape if b is not None else objs[0].shape
    out = rnp.empty(shape, dtype=object)
    flat = out.reshape(-1) if out.ndim else out.reshape(1)
    it = b if b is not None else ((x,) for x in (objs[0].reshape(-1)))
    for i, args in enumerate(it):
        flat[i] = elem(uf, name, k, args)
    return out


def elem(uf, name, k, args):
    if any(isinstance(a, Sym) for a in args):
        if name in ("isnan", "isinf", "isfinite"):
            return name == "isfinite"
        if k is None:
            E().degrade("ufunc " + name)
            return _item(uf(*[concretize(a) for a in args]))
        a0 = [SNum.lift(a) if (name in ("sign", "negative", "square") and _isn(a)) else a for a in args]
        r = k(*a0)
        if r is NotImplemented:
            raise TypeError(f"unsupported operand types for {name}")
        return r
    with rnp.errstate(all="ignore"):
        if all(isinstance(a, (int, float, bool, rnp.generic)) for a in args):
            return _item(uf(*args))
        return _item(uf(*[_box(a) for a in args]))


def _isn(a):
    return isinstance(a, (int, float))


def _box(a):
    if isinstance(a, (int, float, bool, rnp.generic, complex, str, bytes)):
        return a
    if isinstance(a, Fraction):
        return float(a)
    o = rnp.empty((), dtype=object)
    o[()] = a
    return o


def _item(x):
    if isinstance(x, rnp.generic):
        return x.item()
    if isinstance(x, rnp.ndarray) and x.ndim == 0:
        return x[()]
    return x


_NONNUM_OK = {"equal", "not_equal"}


def do_ufunc(uf, method, inputs, out, where, kw):
    name = uf.__name__
    if any(isinstance(x, MA) for x in inputs) and method == "__call__":
        return ma_ufunc(uf, inputs, out, where, kw)
    if any(isinstance(x, Masked) for x in inputs):
        return masked
    if out is not None and not isinstance(out, tuple):
        out = (out,)
    if method == "__call__":
        dtype = kw.get("dtype")
        if uf.nout != 1 or name == "matmul":
            if name == "matmul":
                return f_matmul(*inputs)
            if name == "divmod":
                return f_generic2(rnp.floor_divide, inputs), f_generic2(rnp.remainder, inputs)
            return generic(uf, inputs, kw)
        if where is True and not has_sym(list(inputs)):
            r = wrap(uf(*[to_real(x) for x in inputs], **({"dtype": dtype} if dtype else {})))
            if out is not None and out[0] is not None:
                return _write_out(out[0], r)
            return r
        tags = []
        objs = []
        allscalar = True
        for x in inputs:
            if isinstance(x, rnp.ndarray) or isinstance(x, (list, tuple)):
                o, t = to_obj(x)
                objs.append(o)
                tags.append(t)
                allscalar = False
            else:
                o = rnp.empty((), dtype=object)
                o[()] = x.item() if isinstance(x, rnp.generic) else x
                objs.append(o)
                tags.append(_weak(x))
        rt = _dtype(dtype) if dtype else ufunc_tag(uf, tags)
        if where is not True:
            w = conc_index(asA(where))
            base = out[0] if out is not None and out[0] is not None else None
            res = apply_kernel_where(uf, name, objs, w, base)
            if base is not None:
                return base
            return ret(cast_obj(res, rt), rt)
        res = apply_kernel(uf, name, objs)
        if rt.kind != "b" or True:
            res = cast_obj(res, rt) if rt != _obj else res
        r = ret(res, rt)
        if out is not None and out[0] is not None:
            return _write_out(out[0], r, rt)
        return r
    if method == "reduce":
        a = inputs[0]
        axis = kw.get("axis", 0)
        keep = kw.get("keepdims", False)
        f = {"add": f_sum, "multiply": f_prod, "logical_or": f_any, "logical_and": f_all, "maximum": f_max,
             "minimum": f_min}.get(name)
        if f:
            return f(a, axis=axis, keepdims=keep)
        return reduce_axis(asA(a), axis, lambda xs: _fold(KERN[name], xs), keep, None)
    if method == "accumulate" and name == "add":
        return f_cumsum(inputs[0], kw.get("axis", 0))
    if method == "accumulate":
        return accumulate(asA(inputs[0]), kw.get("axis", 0), KERN[name])
    if method == "outer":
        a, b = asA(inputs[0]), asA(inputs[1])
        return do_ufunc(uf, "__call__", (a.reshape(a.shape + (1,) * b.ndim), b), None, True, {})
    if method == "at":
        a, idx = inputs[0], norm_key(inputs[1])
        if len(inputs) == 2:
            raise Undecidable("ufunc.at unary")
        vals = rnp.broadcast_to(to_obj(inputs[2])[0], _ndget(rnp.arange(a.size).reshape(a.shape), idx).shape)
        pos = _ndget(rnp.arange(a.size).reshape(a.shape), idx).reshape(-1)
        for p, v in zip(pos, vals.reshape(-1)):
            u = rnp.unravel_index(p, a.shape)
            a[u] = elem(uf, name, KERN.get(name), (a.raw[u], v))
        return None
    raise Undecidable(f"ufunc method {method}")


def f_generic2(uf, inputs):
    return do_ufunc(uf, "__call__", inputs, None, True, {})


def _fold(k, xs):
    r = xs[0]
    for x in xs[1:]:
        r = k(r, x)
    return r


def apply_kernel_where(uf, name, objs, w, base):
    shape = rnp.broadcast(w, *objs).shape
    bo = [rnp.broadcast_to(o, shape) for o in objs]
    w = rnp.broadcast_to(w, shape)
    if base is not None:
        for i in rnp.ndindex(*shape):
            if w[i]:
                base[i] = elem(uf, name, KERN.get(name), tuple(o[i] for o in bo))
        return base
    out = rnp.empty(shape, dtype=object)
    for i in rnp.ndindex(*shape):
        out[i] = elem(uf, name, KERN.get(name), tuple(o[i] for o in bo)) if w[i] else 0.0
    return out


def _write_out(out, r, rt=None):
    if isinstance(out, tuple):
        out = out[0]
    src = r.dtype if isinstance(r, (A, rnp.generic)) else tag_of_scalar(r)
    if isinstance(out, A):
        if src != _obj and out._dt != _obj and not rnp.can_cast(src, out._dt, "same_kind"):
            raise TypeError(f"Cannot cast ufunc output from {src} to {out._dt} with casting rule 'same_kind'")
        if isinstance(r, A) and r.shape != out.shape:
            raise ValueError("non-broadcastable output operand")
        out[...] = r
        return out
    raise Undecidable("out= real array")


# ------------------------------------------------------------------ reductions
def _axes(axis, ndim):
    if axis is None:
        return tuple(range(ndim))
    if not isinstance(axis, tuple):
        axis = (axis,)
    r = []
    for a in axis:
        a = operator.index(a)
        if a < -ndim or a >= ndim:
            raise rnp.exceptions.AxisError(a, ndim)
        r.append(a % ndim)
    return tuple(r)


def reduce_axis(a, axis, fn, keepdims=False, tag=None):
    """fn(list of elements) -> element"""
    raw = a.raw
    nd = raw.ndim
    ax = _axes(axis, nd)
    rest = [i for i in range(nd) if i not in ax]
    t = raw.transpose(rest + list(ax)).reshape([raw.shape[i] for i in rest] + [-1])
    outshape = tuple(raw.shape[i] for i in rest)
    out = rnp.empty(outshape, dtype=object)
    for idx in rnp.ndindex(*outshape):
        out[idx] = fn(list(t[idx]))
    if keepdims:
        out = out.reshape([1 if i in ax else raw.shape[i] for i in range(nd)])
    dt = tag or a._dt
    if keepdims and out.ndim:
        return mk(out, dt)
    return ret(out, dt)


def _red(name, kern, tagf):
    def f(a, axis=None, dtype=None, out=None, keepdims=False, where=None, initial=None, **kw):
        if isinstance(a, MA):
            return ma_reduce(name, a, axis, keepdims)
        a = asA(a)
        if where is not None:
            raise Undecidable("reduction where=")
        if not has_sym(a):
            k = dict(axis=axis)
            if keepdims:
                k["keepdims"] = True
            if dtype is not None:
                k["dtype"] = dtype
            r = wrap(getattr(rnp, name)(to_real(a), **k))
        else:
            t = _dtype(dtype) if dtype is not None else tagf(a._dt)
            src = a if a._dt == t or t == B1 else a.astype(t)
            r = reduce_axis(src, axis, kern, keepdims, t)
        if out is not None:
            return _write_out(out, r)
        return r

    f.__name__ = name
    return f


def _sumtag(t):
    if t.kind == "b":
        return I8
    if t.kind in "iu":
        return rnp.sum(rnp.ones(1, t)).dtype
    return t


def _ksum(xs):
    if not xs:
        return 0
    r = _num(xs[0])
    for x in xs[1:]:
        r = r + _num(x)
    return r


def _kprod(xs):
    r = 1
    for x in xs:
        r = KERN["multiply"](r, x)
    return r


def _kmean(xs):
    if not xs:
        return math.nan
    s = _ksum(xs)
    return s / len(xs)


def _kmax(xs):
    if not xs:
        raise ValueError("zero-size array to reduction operation maximum which has no identity")
    return _fold(k_maximum, xs)


def _kmin(xs):
    if not xs:
        raise ValueError("zero-size array to reduction operation minimum which has no identity")
    return _fold(k_minimum, xs)


f_sum = _red("sum", _ksum, _sumtag)
f_prod = _red("prod", _kprod, _sumtag)
f_mean = _red("mean", _kmean, lambda t: t if t.kind == "f" else F8)
f_max = _red("max", _kmax, lambda t: t)
f_min = _red("min", _kmin, lambda t: t)
f_any = _red("any", lambda xs: sany([_tobool(x) for x in xs]), lambda t: B1)
f_all = _red("all", lambda xs: sall([_tobool(x) for x in xs]), lambda t: B1)
f_nanmax = _red("nanmax", lambda xs: _fold(k_fmax, xs), lambda t: t)
f_nanmin = _red("nanmin", lambda xs: _fold(k_fmin, xs), lambda t: t)
f_nansum = _red("nansum", lambda xs: _ksum([x for x in xs if not _isnan(x)]), _sumtag)
f_nanmean = _red("nanmean", lambda xs: _kmean([x for x in xs if not _isnan(x)]), lambda t: t)


def f_ptp(a, axis=None, keepdims=False):
    return f_max(a, axis=axis, keepdims=keepdims) - f_min(a, axis=axis, keepdims=keepdims)


def f_count_nonzero(a, axis=None, **kw):
    a = asA(a)
    return reduce_axis(mk(a.raw, I8), axis, lambda xs: sum(1 for x in xs if bool(x)), False, I8)


def _karg(xs, cmp):
    if not xs:
        raise ValueError("attempt to get argmin of an empty sequence")
    best = 0
    for i in range(1, len(xs)):
        if _isnan(xs[best]):
            return best
        if _isnan(xs[i]):
            return i
        if bool(cmp(_num(xs[i]), _num(xs[best]))):
            best = i
    return best


def f_argmin(a, axis=None, **kw):
    a = asA(a)
    if not has_sym(a):
        return wrap(rnp.argmin(to_real(a), axis=axis))
    return reduce_axis(a, axis, lambda xs: _karg(xs, operator.lt), False, I8)


def f_argmax(a, axis=None, **kw):
    a = asA(a)
    if not has_sym(a):
        return wrap(rnp.argmax(to_real(a), axis=axis))
    return reduce_axis(a, axis, lambda xs: _karg(xs, operator.gt), False, I8)


def accumulate(a, axis, k, tag=None):
    if axis is None:
        a = a.reshape(-1)
        axis = 0
    axis = _axes(axis, a.ndim)[0]
    out = a.raw.copy()
    m = rnp.moveaxis(out, axis, 0)
    for i in range(1, m.shape[0]):
        for j in rnp.ndindex(*m.shape[1:]):
            m[(i,) + j] = k(m[(i - 1,) + j], m[(i,) + j])
    return mk(out, tag or a._dt)


def f_cumsum(a, axis=None, dtype=None, **kw):
    a = asA(a)
    if not has_sym(a):
        return wrap(rnp.cumsum(to_real(a), axis=axis))
    return accumulate(a.astype(_sumtag(a._dt)), axis, KERN["add"])


def f_var(a, axis=None, ddof=0, keepdims=False, **kw):
    a = asA(a)
    if not has_sym(a):
        return wrap(rnp.var(to_real(a), axis=axis, ddof=ddof, keepdims=keepdims))

    def k(xs):
        m = _ksum(xs) / len(xs)
        return _ksum([(x - m) * (x - m) for x in xs]) / (len(xs) - ddof)

    return reduce_axis(a, axis, k, keepdims, F8)


def f_std(a, axis=None, ddof=0, keepdims=False, **kw):
    return SHIM.sqrt(f_var(a, axis, ddof, keepdims))


def f_average(a, axis=None, weights=None, **kw):
    if weights is None:
        return f_mean(a, axis=axis)
    a, w = asA(a), asA(weights)
    if a.shape != w.shape:
        ax = _axes(axis, a.ndim)[0]
        sh = [1] * a.ndim
        sh[ax] = w.size
        w = w.reshape(sh)
    return f_sum(a * w, axis=axis) / f_sum(w + a * 0, axis=axis)


# ------------------------------------------------------------------ creation
def f_array(x, dtype=None, copy=True, order=None, subok=False, ndmin=0, **kw):
    if subok and isinstance(x, MA):
        r = x.copy() if copy else x
        return r if dtype is None else r.astype(dtype)
    if isinstance(x, Masked):
        x = 0.0
    shared = isinstance(x, A)
    o, t = to_obj(x)
    dt = _dtype(dtype) if dtype is not None else t
    n = cast_obj(o, dt) if dt != t else o
    if shared and n is o and copy:
        n = o.copy()
    if dt.kind in "SU" and dt.itemsize == 0:
        dt = rnp.array(n.tolist()).dtype
    if n.ndim < ndmin:
        n = n.reshape((1,) * (ndmin - n.ndim) + n.shape)
    return mk(n, dt)


def f_asarray(x, dtype=None, order=None, copy=None, **kw):
    if isinstance(x, A) and not isinstance(x, MA) and (dtype is None or _dtype(dtype) == x._dt) and not copy:
        return x
    if isinstance(x, MA) and (dtype is None or _dtype(dtype) == x._dt) and not copy:
        return x.data_A()
    return f_array(x, dtype=dtype, copy=bool(copy))


def f_asanyarray(x, dtype=None, order=None, copy=None, **kw):
    if isinstance(x, MA):
        return x if dtype is None or _dtype(dtype) == x._dt else x.astype(dtype)
    return f_asarray(x, dtype=dtype, copy=copy)


def f_ascontiguousarray(x, dtype=None, **kw):
    r = f_asarray(x, dtype)
    if r.ndim == 0:
        r = r.reshape(1)
    if not r.flags["C_CONTIGUOUS"]:
        r = mk(rnp.ascontiguousarray(r.raw), r._dt)
    return r


def _shape(s):
    if isinstance(s, SNum):
        return (operator.index(s),)
    if isinstance(s, A):
        return tuple(int(x) for x in s.reshape(-1))
    if isinstance(s, (list, tuple)):
        return tuple(operator.index(x) for x in s)
    return (operator.index(s),)


def full_(shape, v, dt):
    o = rnp.empty(_shape(shape), dtype=object)
    v = cast_scalar(v, dt)
    flat = o.reshape(-1)
    for i in range(flat.size):
        flat[i] = v
    return mk(o, dt)


def _zero_of(dt):
    return rnp.zeros((), dtype=dt).item() if dt != _obj else 0


def f_zeros(shape, dtype=float, order="C", **kw):
    dt = _dtype(dtype if dtype is not None else float)
    return full_(shape, _zero_of(dt), dt)


def f_ones(shape, dtype=None, order="C", **kw):
    dt = _dtype(dtype if dtype is not None else float)
    return full_(shape, 1 if dt == _obj else rnp.ones((), dtype=dt).item(), dt)


def f_empty(shape, dtype=float, order="C", **kw):
    # uninitialised memory: an arbitrary recognisable value, not zero
    dt = _dtype(dtype if dtype is not None else float)
    if dt.kind == "f":
        return full_(shape, 7.7777e7, dt)
    if dt.kind in "iu":
        return full_(shape, 77, dt)
    if dt == _obj:
        return full_(shape, None, dt)
    return f_zeros(shape, dt)


def f_full(shape, fill_value, dtype=None, order="C", **kw):
    if isinstance(fill_value, (A, list, tuple)) and (not isinstance(fill_value, A) or fill_value.ndim):
        v = asA(fill_value)
        r = f_empty(shape, dtype or v._dt)
        r[...] = v
        return r
    if isinstance(fill_value, A):
        fill_value = fill_value.item()
    dt = _dtype(dtype) if dtype is not None else tag_of_scalar(fill_value)
    return full_(shape, fill_value, dt)


def _like(f):
    def g(a, dtype=None, order="K", subok=True, shape=None, **kw):
        m = a if isinstance(a, MA) else None
        b = asA(a)
        r = f(shape if shape is not None else b.shape, dtype=dtype or b._dt)
        if m is not None and subok:
            return MA._make(r, nomask if m._mask is nomask else m._mask.copy())
        return r

    return g


f_zeros_like = _like(f_zeros)
f_ones_like = _like(f_ones)
f_empty_like = _like(f_empty)


def f_full_like(a, fill_value, dtype=None, shape=None, **kw):
    b = asA(a)
    r = f_full(shape or b.shape, fill_value, dtype=dtype or b._dt)
    if isinstance(a, MA):
        return MA._make(r, nomask if a._mask is nomask else a._mask.copy())
    return r


def f_arange(*a, **kw):
    kw = {k: v for k, v in kw.items()}
    dt = kw.pop("dtype", None)
    a = [concretize(x) if isinstance(x, Sym) else x for x in a]
    return from_real(rnp.arange(*a, **({"dtype": dt} if dt is not None else {})))


def f_linspace(start, stop, num=50, endpoint=True, **kw):
    if not has_sym([start, stop]):
        return wrap(rnp.linspace(start, stop, int(num), endpoint=endpoint, **kw))
    d = (num - 1) if endpoint else num
    return f_array([start + (stop - start) * Fraction(i, d) for i in range(int(num))])


def f_eye(n, m=None, k=0, dtype=float, **kw):
    return from_real(rnp.eye(int(n), None if m is None else int(m), k, dtype=dtype))


def f_indices(dims, dtype=int, sparse=False):
    return wrap(rnp.indices(_shape(dims), dtype=dtype, sparse=sparse))


# ------------------------------------------------------------------ structure (views)
def _tolistA(xs):
    return [asA(x) for x in xs]


def _join(xs, fn):
    xs = _tolistA(xs)
    t = _join_tags([x._dt for x in xs])
    return mk(fn([cast_obj(x.raw, t) for x in xs]), t)


def _mjoin(fn):
    def f(xs, *a, **kw):
        if isinstance(xs, A):
            xs = [xs[i] for i in range(len(xs))]
        xs = list(xs)
        kw.pop("dtype", None)
        if any(isinstance(x, MA) for x in xs):
            # numpy's own joins of masked arrays keep the data and drop the masks
            return MA._make(_join(xs, lambda l: fn(l, *a, **kw)), nomask)
        return _join(xs, lambda l: fn(l, *a, **kw))

    return f


def _mjoin_ma(fn):
    def f(xs, *a, **kw):
        if isinstance(xs, A):
            xs = [xs[i] for i in range(len(xs))]
        xs = list(xs)
        d = _join(xs, lambda l: fn(l, *a, **kw))
        if all(getmask(x) is nomask for x in xs):
            return MA._make(d, nomask)
        m = _join([getmaskarray(x) for x in xs], lambda l: fn(l, *a, **kw))
        return MA._make(d, m)

    return f


f_concatenate = _mjoin(rnp.concatenate)
f_stack = _mjoin(rnp.stack)
f_vstack = _mjoin(rnp.vstack)
f_hstack = _mjoin(rnp.hstack)
f_dstack = _mjoin(rnp.dstack)
f_column_stack = _mjoin(rnp.column_stack)


def f_append(arr, values, axis=None):
    arr, values = asA(arr), asA(values)
    if axis is None:
        arr, values = arr.reshape(-1), values.reshape(-1)
        axis = 0
    return f_concatenate((arr, values), axis=axis)


def _viewf(fn):
    """structure functions acting on the object storage: fn(raw, *args)"""

    def f(a, *args, **kw):
        args = [conc_index(x) if isinstance(x, (Sym, A)) else x for x in args]
        kw = {k: (conc_index(x) if isinstance(x, (Sym, A)) else x) for k, x in kw.items()}
        if isinstance(a, MA):
            d = mk(fn(a.raw, *args, **kw), a._dt)
            m = nomask if a._mask is nomask else mk(fn(a._mask.raw, *args, **kw), B1)
            return MA._make(d, m)
        a = asA(a)
        r = fn(a.raw, *args, **kw)
        if isinstance(r, (list, tuple)):
            return type(r)(mk(x, a._dt) for x in r)
        return mk(r, a._dt) if isinstance(r, rnp.ndarray) else out_scalar(r, a._dt)

    return f


VIEWFUNCS = """reshape transpose ravel squeeze swapaxes moveaxis rollaxis expand_dims broadcast_to flip fliplr flipud rot90 roll tile
repeat diagonal atleast_1d atleast_2d atleast_3d delete triu tril resize permute_dims matrix_transpose split array_split
hsplit vsplit""".split()


def f_atleast(n):
    rf = getattr(rnp, f"atleast_{n}d")

    def f(*arys):
        r = []
        for a in arys:
            if isinstance(a, MA):
                d = mk(rf(a.raw), a._dt)
                r.append(MA._make(d, nomask if a._mask is nomask else mk(rf(a._mask.raw), B1)))
            else:
                a = asA(a)
                r.append(mk(rf(a.raw), a._dt))
        return r[0] if len(r) == 1 else tuple(r)

    return f


def f_broadcast_arrays(*arys, **kw):
    arys = _tolistA(arys)
    shape = rnp.broadcast_shapes(*[a.shape for a in arys])
    return tuple(mk(rnp.broadcast_to(a.raw, shape), a._dt) for a in arys)


def f_meshgrid(*xs, indexing="xy", sparse=False, copy=True):
    xs = _tolistA(xs)
    r = rnp.meshgrid(*[x.raw for x in xs], indexing=indexing, sparse=sparse, copy=copy)
    return tuple(mk(o, x._dt) for o, x in zip(r, xs))


def f_pad(a, pad_width, mode="constant", constant_values=0, **kw):
    a = asA(a)
    if mode == "constant":
        if isinstance(constant_values, (bool, int, float, Sym)):
            cv = cast_scalar(constant_values, a._dt)
            idx = rnp.pad(rnp.arange(a.size).reshape(a.shape), pad_width, mode="constant", constant_values=-1)
            o = rnp.empty(idx.shape, dtype=object)
            fl = a.raw.reshape(-1)
            for i in rnp.ndindex(*idx.shape):
                o[i] = cv if idx[i] < 0 else fl[idx[i]]
            return mk(o, a._dt)
        raise Undecidable("pad")
    idx = rnp.pad(rnp.arange(a.size).reshape(a.shape), pad_width, mode=mode, **kw)
    return mk(a.raw.reshape(-1)[idx], a._dt)


def f_insert(arr, obj, values, axis=None):
    a = asA(arr)
    v = asA(values)
    return mk(rnp.insert(a.raw, conc_index(obj), cast_obj(v.raw, a._dt), axis), a._dt)


def f_take(a, indices, axis=None, out=None, mode="raise"):
    idx = conc_index(asA(indices)) if not isinstance(indices, (int, rnp.integer)) else indices
    if isinstance(idx, rnp.ndarray) and idx.dtype.kind == "f":
        if idx.size:
            raise TypeError("Cannot cast array data from dtype('float64') to dtype('int64') according to the rule 'safe'")
        idx = idx.astype(int)
    if isinstance(a, MA):
        d = a.raw.take(idx, axis, mode=mode)
        m = nomask if a._mask is nomask else a._mask.raw.take(idx, axis, mode=mode)
        im = indices._mask if isinstance(indices, MA) else nomask
        if not isinstance(d, rnp.ndarray):
            if m is not nomask and bool(m):
                return masked
            return out_scalar(d, a._dt)
        mm = nomask if m is nomask else mk(rnp.asarray(m, dtype=object), B1)
        if im is not nomask and axis is None:
            mm = mask_or(mm, im)
        return MA._make(mk(rnp.asarray(d, dtype=object), a._dt), mm)
    a = asA(a)
    r = a.raw.take(idx, axis, mode=mode)
    if isinstance(r, rnp.ndarray):
        return mk(r, a._dt)
    return out_scalar(r, a._dt)


def f_put(a, ind, v, mode="raise"):
    idx = conc_index(asA(ind))
    vals = asA(v)
    rv = cast_obj(vals.raw, a._dt)
    rnp.ndarray.put(rnp.ndarray.view(a, rnp.ndarray), idx, rv, mode)


def f_take_along_axis(arr, indices, axis=-1):
    idx = conc_index(asA(indices))
    if isinstance(arr, MA):
        d = mk(rnp.take_along_axis(arr.raw, idx, axis), arr._dt)
        return MA._make(d, nomask if arr._mask is nomask else mk(rnp.take_along_axis(arr._mask.raw, idx, axis), B1))
    a = asA(arr)
    return mk(rnp.take_along_axis(a.raw, idx, axis), a._dt)


def f_put_along_axis(arr, indices, values, axis):
    idx = conc_index(asA(indices))
    v = asA(values)
    rnp.put_along_axis(arr.raw, idx, cast_obj(v.raw, arr._dt), axis)


def f_compress(cond, a, axis=None, **kw):
    a = asA(a)
    return mk(rnp.compress(conc_index(asA(cond)), a.raw, axis), a._dt)


def f_extract(cond, a):
    return asA(a).reshape(-1)[asA(cond).astype(bool).reshape(-1)]


def f_copyto(dst, src, where=True, **kw):
    if where is True:
        dst[...] = src
    else:
        w = conc_index(asA(where))
        s = rnp.broadcast_to(to_obj(src)[0], dst.shape)
        w = rnp.broadcast_to(w, dst.shape)
        for i in rnp.ndindex(*dst.shape):
            if w[i]:
                dst[i] = s[i]


def f_putmask(a, mask, values):
    f_copyto(a, values, where=mask)


def f_choose(a, choices, out=None, mode="raise"):
    if isinstance(choices, A):
        choices = [choices[i] for i in range(len(choices))]
    ch = _tolistA(choices)
    idx = conc_index(asA(a).astype(int) if asA(a)._dt.kind == "b" else asA(a))
    t = _join_tags([c._dt for c in ch])
    sh = rnp.broadcast_shapes(idx.shape, *[c.shape for c in ch])
    idx = rnp.broadcast_to(idx, sh)
    co = [rnp.broadcast_to(cast_obj(c.raw, t), sh) for c in ch]
    o = rnp.empty(sh, dtype=object)
    for i in rnp.ndindex(*sh):
        k = idx[i]
        if k < 0 or k >= len(co):
            if mode == "raise":
                raise ValueError("invalid entry in choice array")
            k = min(max(k, 0), len(co) - 1) if mode == "clip" else k % len(co)
        o[i] = co[k][i]
    return ret(o, t)


def f_select(condlist, choicelist, default=0):
    r = asA(default)
    for c, v in reversed(list(zip(condlist, choicelist))):
        r = f_where(c, v, r)
    return r


def f_where(cond, x=None, y=None):
    if x is None and y is None:
        return f_nonzero(cond)
    if isinstance(cond, MA):
        cond = cond.data_A()
    c = asA(cond)
    if isinstance(x, MA):
        x = x.data_A()
    if isinstance(y, MA):
        y = y.data_A()
    if not has_sym([c]) and not has_sym([x, y]):
        return wrap(rnp.where(to_real(c), to_real(x), to_real(y)))
    xo, xt = to_obj(x)
    yo, yt = to_obj(y)
    wx = _weak(x) if not isinstance(x, (rnp.ndarray, list, tuple)) else xt
    wy = _weak(y) if not isinstance(y, (rnp.ndarray, list, tuple)) else yt
    if wx is _obj or wy is _obj:
        t = _obj
    else:
        t = rnp.result_type(*[w if isinstance(w, rnp.dtype) else w for w in (wx, wy)])
        t = rnp.dtype(t)
    sh = rnp.broadcast_shapes(c.shape, xo.shape, yo.shape)
    cb, xb, yb = (rnp.broadcast_to(o, sh) for o in (c.raw, xo, yo))
    out = rnp.empty(sh, dtype=object)
    for i in rnp.ndindex(*sh):
        out[i] = xb[i] if bool(_tobool(cb[i])) else yb[i]
    r = mk(cast_obj(out, t), t)
    return r


def f_nonzero(a):
    if isinstance(a, MA):
        return f_nonzero(a.filled(0) if a._mask is not nomask else a.data_A())
    b = conc_index(asA(a).astype(bool))
    return tuple(from_real(x) for x in rnp.nonzero(b))


def f_argwhere(a):
    b = conc_index(asA(a).astype(bool))
    return from_real(rnp.argwhere(b))


def f_flatnonzero(a):
    return f_nonzero(asA(a).reshape(-1))[0]


def f_clip(a, a_min=None, a_max=None, out=None, **kw):
    a_min = kw.get("min", a_min)
    a_max = kw.get("max", a_max)
    r = a
    if a_min is not None:
        r = SHIM.maximum(r, a_min)
    if a_max is not None:
        r = SHIM.minimum(r, a_max)
    if out is not None:
        out[...] = r
        return out
    return r


def f_round(a, decimals=0, out=None):
    if isinstance(a, Sym):
        return core.sround(a, decimals) if decimals else _asfloat(core.sround(a))
    if not has_sym(a):
        return wrap(rnp.round(to_real(a), decimals))
    b = asA(a)
    o = rnp.empty(b.shape, dtype=object)
    for i in rnp.ndindex(*b.shape):
        e = b.raw[i]
        o[i] = (core.sround(e, decimals) if decimals else _asfloat(core.sround(e))) if isinstance(e, Sym) else round(e, decimals)
    r = mk(cast_obj(o, b._dt), b._dt)
    return MA._make(r, a._mask) if isinstance(a, MA) else r


# ------------------------------------------------------------------ sorting and searching
def _lt(a, b):
    if _isnan(a):
        return False
    if _isnan(b):
        return True
    return bool(_num(a) < _num(b))


def _argsort_list(xs):
    """stable insertion argsort (forks)"""
    order = []
    for i, x in enumerate(xs):
        j = len(order)
        while j > 0 and _lt(x, xs[order[j - 1]]):
            j -= 1
        order.insert(j, i)
    return order


def f_argsort(a, axis=-1, **kw):
    a = asA(a)
    if axis is None:
        a = a.reshape(-1)
        axis = 0
    if not has_sym(a):
        return wrap(rnp.argsort(to_real(a), axis=axis, kind="stable"))
    m = rnp.moveaxis(a.raw, axis, -1)
    o = rnp.empty(m.shape, dtype=object)
    for i in rnp.ndindex(*m.shape[:-1]):
        for k, v in enumerate(_argsort_list(list(m[i]))):
            o[i + (k,)] = v
    return mk(rnp.moveaxis(o, -1, axis), I8)


def f_sort(a, axis=-1, **kw):
    if isinstance(a, MA):
        a = a.data_A()
    a = asA(a)
    if axis is None:
        a = a.reshape(-1)
        axis = 0
    if not has_sym(a):
        return wrap(rnp.sort(to_real(a), axis=axis))
    idx = f_argsort(a, axis)
    return f_take_along_axis(a, idx, axis)


def f_lexsort(keys, axis=-1):
    ks = [list(asA(k).raw) for k in keys]
    n = len(ks[0])

    def less(i, j):
        for k in reversed(ks):
            if _lt(k[i], k[j]):
                return True
            if _lt(k[j], k[i]):
                return False
        return False

    order = []
    for i in range(n):
        j = len(order)
        while j > 0 and less(i, order[j - 1]):
            j -= 1
        order.insert(j, i)
    return f_array(order, dtype=int)


def f_unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None, **kw):
    a = asA(a)
    if not has_sym(a):
        return wrap(rnp.unique(to_real(a), return_index=return_index, return_inverse=return_inverse,
                               return_counts=return_counts, axis=axis))
    if axis is None:
        rows = [(x,) for x in a.raw.reshape(-1)]
    else:
        m = rnp.moveaxis(a.raw, axis, 0)
        rows = [tuple(m[i].reshape(-1)) for i in range(m.shape[0])]

    def less(r, s):
        for x, y in zip(r, s):
            if _lt(x, y):
                return True
            if _lt(y, x):
                return False
        return False

    order = []
    for i in range(len(rows)):
        j = len(order)
        while j > 0 and less(rows[i], rows[order[j - 1]]):
            j -= 1
        order.insert(j, i)
    reps, inv, cnt = [], [0] * len(rows), []
    for i in order:
        if reps and not less(rows[reps[-1]], rows[i]):
            cnt[-1] += 1
        else:
            reps.append(i)
            cnt.append(1)
        inv[i] = len(reps) - 1
    if axis is None:
        o = rnp.empty(len(reps), dtype=object)
        for k, i in enumerate(reps):
            o[k] = rows[i][0]
        u = mk(o, a._dt)
    else:
        u = mk(rnp.moveaxis(rnp.moveaxis(a.raw, axis, 0)[reps], 0, axis), a._dt)
    out = [u]
    if return_index:
        out.append(f_array(reps, dtype=int))
    if return_inverse:
        iv = f_array(inv, dtype=int)
        out.append(iv.reshape(a.shape) if axis is None else iv)
    if return_counts:
        out.append(f_array(cnt, dtype=int))
    return out[0] if len(out) == 1 else tuple(out)


def _search(xs, v, side):
    """binary search, as numpy does it"""
    lo, hi = 0, len(xs)
    while lo < hi:
        mid = (lo + hi) // 2
        c = _lt(xs[mid], v) if side == "left" else not _lt(v, xs[mid])
        if c:
            lo = mid + 1
        else:
            hi = mid
    return lo


def f_searchsorted(a, v, side="left", sorter=None):
    a = asA(a)
    if not has_sym([a, v]) and a._dt != _obj:
        return wrap(rnp.searchsorted(to_real(a), to_real(v), side=side, sorter=to_real(sorter)))
    if sorter is not None:
        a = a[sorter]
    xs = list(a.raw)
    if isinstance(v, (A, list, tuple)):
        vo, _ = to_obj(v)
        o = rnp.empty(vo.shape, dtype=object)
        for i in rnp.ndindex(*vo.shape):
            o[i] = _search(xs, vo[i], side)
        return ret(o, I8)
    return rnp.int64(_search(xs, v, side))


def f_digitize(x, bins, right=False):
    bins = asA(bins)
    if not has_sym([x, bins]):
        return wrap(rnp.digitize(to_real(x if isinstance(x, (A, list, tuple)) else x), to_real(bins), right=right))
    if bins.ndim != 1:
        raise ValueError("object of too small depth for desired array" if bins.ndim == 0 else "object too deep for desired array")
    b = list(bins.raw)
    inc = all(not bool(b[i] > b[i + 1]) for i in range(len(b) - 1))
    if not inc:
        if not all(not bool(b[i] < b[i + 1]) for i in range(len(b) - 1)):
            raise ValueError("bins must be monotonically increasing or decreasing")
    xo, _ = to_obj(x)
    o = rnp.empty(xo.shape, dtype=object)
    side = "left" if right else "right"
    for i in rnp.ndindex(*xo.shape):
        if inc:
            o[i] = _search(b, xo[i], side)
        else:
            o[i] = len(b) - _search(b[::-1], xo[i], "left" if side == "right" else "right")
    return ret(o, I8)


def f_interp(x, xp, fp, left=None, right=None, period=None):
    xp, fp = asA(xp), asA(fp)
    if not has_sym([x, xp, fp, left, right]):
        return wrap(rnp.interp(to_real(x), to_real(xp), to_real(fp), left, right))
    xs, fs = list(xp.raw), list(fp.raw)
    xo, _ = to_obj(x)
    o = rnp.empty(xo.shape, dtype=object)
    for i in rnp.ndindex(*xo.shape):
        v = xo[i]
        if bool(v < xs[0]):
            o[i] = fs[0] if left is None else left
        elif bool(v > xs[-1]):
            o[i] = fs[-1] if right is None else right
        else:
            k = min(_search(xs, v, "right") - 1, len(xs) - 2)
            o[i] = fs[k] + (fs[k + 1] - fs[k]) * (v - xs[k]) / (xs[k + 1] - xs[k])
    return ret(o, F8)


def f_isin(a, b, invert=False, **kw):
    a, b = asA(a), asA(b)
    if not has_sym([a, b]):
        return wrap(rnp.isin(to_real(a), to_real(b), invert=invert))
    bl = list(b.raw.reshape(-1))
    o = rnp.empty(a.shape, dtype=object)
    for i in rnp.ndindex(*a.shape):
        r = sany([s_eq(a.raw[i], y) for y in bl])
        o[i] = snot(r) if invert else r
    return ret(o, B1)


def f_diff(a, n=1, axis=-1, **kw):
    if n != 1 or kw:
        raise Undecidable("diff")
    a = asAny(a)
    sl1 = [slice(None)] * a.ndim
    sl2 = [slice(None)] * a.ndim
    sl1[axis] = slice(1, None)
    sl2[axis] = slice(None, -1)
    return a[tuple(sl1)] - a[tuple(sl2)]


def f_gradient(*a, **kw):
    return generic(rnp.gradient, a, kw)


# ------------------------------------------------------------------ equality
def eq_any(a, b):
    return SHIM.equal(a, b)


def f_array_equal(a, b, equal_nan=False):
    a, b = asA(a), asA(b)
    if a.shape != b.shape:
        return False
    r = True
    for x, y in zip(a.raw.reshape(-1), b.raw.reshape(-1)):
        if equal_nan and _isnan(x) and _isnan(y):
            continue
        r = sand(r, s_eq(x, y))
        if r is False:
            return False
    return bool(r)


def f_array_equiv(a, b):
    return bool(f_all(SHIM.equal(a, b)))


def _close(x, y, rtol, atol):
    if not is_sym(x) and not is_sym(y):
        return bool(rnp.isclose(x, y, rtol=rtol, atol=atol))
    for u in (x, y):
        if isinstance(u, float) and not math.isfinite(u):
            return False
    x, y = _num(x), _num(y)
    ay = abs(y)
    t = ay * core.to_frac(rtol) + core.to_frac(atol)
    d = x - y
    return sand(d <= t, -d <= t)


def f_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    if not has_sym([a, b]):
        return wrap(rnp.isclose(to_real(a), to_real(b), rtol=rtol, atol=atol, equal_nan=equal_nan))
    ao, bo = to_obj(a)[0], to_obj(b)[0]
    sh = rnp.broadcast_shapes(ao.shape, bo.shape)
    ao, bo = rnp.broadcast_to(ao, sh), rnp.broadcast_to(bo, sh)
    o = rnp.empty(sh, dtype=object)
    for i in rnp.ndindex(*sh):
        o[i] = _close(ao[i], bo[i], rtol, atol)
    if isinstance(a, MA) or isinstance(b, MA):
        m = mask_or(getmask(a) if isinstance(a, MA) else nomask, getmask(b) if isinstance(b, MA) else nomask)
        return MA._make(mk(o, B1), nomask if m is nomask else mk(rnp.broadcast_to(asA(m).raw, sh).copy(), B1))
    return ret(o, B1)


def f_allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return bool(f_all(f_isclose(a, b, rtol, atol, equal_nan)))


# ------------------------------------------------------------------ linear algebra
def f_dot(a, b):
    a0, b0 = a, b
    a, b = asA(a), asA(b)
    if not has_sym([a, b]):
        return wrap(rnp.dot(to_real(a), to_real(b)))
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    t = rnp.result_type(a._dt, b._dt)
    bb = rnp.moveaxis(b.raw, -2, 0) if b.ndim > 1 else b.raw
    ar = a.raw.reshape(-1, a.shape[-1])
    br = bb.reshape(bb.shape[0], -1)
    if ar.shape[1] != br.shape[0]:
        raise ValueError("shapes not aligned")
    o = rnp.empty((ar.shape[0], br.shape[1]), dtype=object)
    for i in range(ar.shape[0]):
        for j in range(br.shape[1]):
            o[i, j] = _ksum([KERN["multiply"](ar[i, k], br[k, j]) if is_sym(ar[i, k]) or is_sym(br[k, j]) else ar[i, k] * br[k, j]
                             for k in range(ar.shape[1])])
    o = o.reshape(a.shape[:-1] + bb.shape[1:])
    return ret(cast_obj(o, t), t)


def f_matmul(a, b, **kw):
    a, b = asA(a), asA(b)
    if a.ndim <= 2 and b.ndim <= 2:
        return f_dot(a, b)
    ash, bsh = a.shape[:-2], b.shape[:-2]
    sh = rnp.broadcast_shapes(ash, bsh)
    ab = rnp.broadcast_to(a.raw, sh + a.shape[-2:])
    bb = rnp.broadcast_to(b.raw, sh + b.shape[-2:])
    o = rnp.empty(sh + (a.shape[-2], b.shape[-1]), dtype=object)
    for i in rnp.ndindex(*sh):
        r = f_dot(mk(ab[i], a._dt), mk(bb[i], b._dt))
        o[i] = r.raw
    return mk(o, rnp.result_type(a._dt, b._dt))


def f_einsum(spec, *ops, **kw):
    ops = _tolistA(ops)
    if not has_sym(ops):
        return wrap(rnp.einsum(spec, *[to_real(o) for o in ops]))
    spec = spec.replace(" ", "")
    if "..." in spec:
        raise Undecidable("einsum ellipsis")
    lhs, _, rhs = spec.partition("->")
    subs = lhs.split(",")
    if "->" not in spec:
        from collections import Counter

        c = Counter("".join(subs))
        rhs = "".join(sorted(k for k, v in c.items() if v == 1))
    dims = {}
    for s, o in zip(subs, ops):
        for ch, n in zip(s, o.shape):
            dims[ch] = n
    sumix = [c for c in dims if c not in rhs]
    out = rnp.empty(tuple(dims[c] for c in rhs), dtype=object)
    for oi in rnp.ndindex(*out.shape):
        env = dict(zip(rhs, oi))
        acc = 0
        for si in rnp.ndindex(*[dims[c] for c in sumix]):
            env.update(zip(sumix, si))
            p = 1
            for s, o in zip(subs, ops):
                p = _num(o.raw[tuple(env[c] for c in s)]) * p
            acc = p + acc
        out[oi] = acc
    return ret(out, rnp.result_type(*[o._dt for o in ops]))


def f_cross(a, b, axis=-1, **kw):
    a, b = asA(a), asA(b)
    if a.shape[-1] == 2 and b.shape[-1] == 2:
        return a[..., 0] * b[..., 1] - a[..., 1] * b[..., 0]
    return f_stack([a[..., 1] * b[..., 2] - a[..., 2] * b[..., 1], a[..., 2] * b[..., 0] - a[..., 0] * b[..., 2],
                    a[..., 0] * b[..., 1] - a[..., 1] * b[..., 0]], axis=-1)


def _det(m):
    n = len(m)
    if n == 1:
        return m[0][0]
    r = 0
    for j in range(n):
        if not is_sym(m[0][j]) and m[0][j] == 0:
            continue
        minor = [row[:j] + row[j + 1:] for row in m[1:]]
        t = _num(m[0][j]) * _det(minor)
        r = r + t if j % 2 == 0 else r - t
    return r


def l_det(a):
    a = asA(a)
    if not has_sym(a):
        return wrap(rnp.linalg.det(to_real(a)))
    if a.ndim > 2:
        return f_array([l_det(a[i]) for i in range(len(a))])
    return _det([list(r) for r in a.raw])


def l_inv(a):
    a = asA(a)
    if not has_sym(a):
        return wrap(rnp.linalg.inv(to_real(a)))
    if a.ndim > 2:
        return f_array([l_inv(a[i]) for i in range(len(a))])
    m = [list(r) for r in a.raw]
    n = len(m)
    d = _det(m)
    if bool(s_eq(d, 0)):
        raise rnp.linalg.LinAlgError("Singular matrix")
    o = rnp.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            minor = [row[:i] + row[i + 1:] for k, row in enumerate(m) if k != j]
            c = _det(minor) if n > 1 else 1
            o[i, j] = (c if (i + j) % 2 == 0 else -c) / d
    return mk(o, F8)


def l_solve(a, b):
    if not has_sym([a, b]):
        return wrap(rnp.linalg.solve(to_real(asA(a)), to_real(asA(b))))
    return f_dot(l_inv(a), b)


def l_norm(x, ord=None, axis=None, keepdims=False):
    if not has_sym(x):
        return wrap(rnp.linalg.norm(to_real(asA(x)), ord=ord, axis=axis, keepdims=keepdims))
    x = asA(x)
    return SHIM.sqrt(f_sum(x * x, axis=axis, keepdims=keepdims))


# ------------------------------------------------------------------ index arithmetic
def f_ravel_multi_index(multi, dims, mode="raise", order="C"):
    masked = isinstance(multi, MA) or (not isinstance(multi, A) and any(isinstance(m, MA) for m in multi))
    if isinstance(multi, A):
        if isinstance(multi, MA):  # the data under the mask counts; the result comes out unmasked
            multi = multi.data
        multi = [multi[i] for i in range(len(multi))]
    parts = [conc_index(asA(m.data if isinstance(m, MA) else m)) for m in multi]
    dims = _shape(dims)
    out = wrap(rnp.ravel_multi_index(tuple(p if p.ndim else int(p) for p in parts), dims, mode=mode, order=order))
    return MA(out) if masked and isinstance(out, A) else out


def f_unravel_index(ind, shape, order="C"):
    i = conc_index(asA(ind))
    return wrap(rnp.unravel_index(i if i.ndim else int(i), _shape(shape), order=order))


class vectorize:
    def __init__(self, pyfunc=None, otypes=None, signature=None, **kw):
        self.f, self.signature = pyfunc, signature
        self.otypes = otypes

    def __call__(self, *args, **kw):
        if self.signature is None:
            os = [to_obj(a) for a in args]
            objs = [o for o, _ in os]
            sh = rnp.broadcast_shapes(*[o.shape for o in objs])
            bs = [rnp.broadcast_to(o, sh) for o in objs]
            res = []
            for i in rnp.ndindex(*sh):
                res.append(self.f(*[out_scalar(b[i], t) for b, (_, t) in zip(bs, os)], **kw))
            if not res:
                raise ValueError("cannot call `vectorize` on size 0 inputs unless `otypes` is set")
            if isinstance(res[0], tuple):
                return tuple(asA([r[k] for r in res]).reshape(sh) for k in range(len(res[0])))
            o = rnp.empty(len(res), dtype=object)
            for i, r in enumerate(res):
                o[i] = r.item() if isinstance(r, rnp.generic) else r
            # numpy takes the dtype of the first result
            t = _dtype(self.otypes[0]) if self.otypes else tag_of_scalar(res[0])
            o = cast_obj(o, t)
            return ret(o.reshape(sh), t)
        ins, outs = self.signature.replace(" ", "").split("->")
        import re

        ind = [tuple(x for x in g.split(",") if x) for g in re.findall(r"\(([^)]*)\)", ins)]
        outd = [tuple(x for x in g.split(",") if x) for g in re.findall(r"\(([^)]*)\)", outs)]
        As = _tolistA(args)
        loop = rnp.broadcast_shapes(*[a.shape[: a.ndim - len(c)] for a, c in zip(As, ind)])
        bs = [mk(rnp.broadcast_to(a.raw, loop + a.shape[a.ndim - len(c):]), a._dt) for a, c in zip(As, ind)]
        res = [self.f(*[b[i] if i else b for b in bs], **kw) for i in rnp.ndindex(*loop)]
        if len(outd) == 1:
            res = [(r,) for r in res]
        out = []
        for k in range(len(outd)):
            st = asA([asA(r[k]) for r in res])
            out.append(st.reshape(loop + st.shape[1:]))
        return out[0] if len(out) == 1 else tuple(out)


def f_apply_along_axis(func, axis, arr, *a, **kw):
    arr = asA(arr)
    axis = _axes(axis, arr.ndim)[0]
    m = mk(rnp.moveaxis(arr.raw, axis, -1), arr._dt)
    res = [func(m[i], *a, **kw) for i in rnp.ndindex(*m.shape[:-1])]
    st = asA([asA(r) for r in res])
    st = st.reshape(m.shape[:-1] + st.shape[1:])
    if st.ndim == arr.ndim:
        return mk(rnp.moveaxis(st.raw, -1, axis), st._dt)
    return st


# ------------------------------------------------------------------ masked arrays
class Masked:
    """np.ma.masked"""

    _inst = None
    shape = ()
    ndim = 0
    size = 1
    dtype = F8
    mask = rnp.True_

    def __repr__(self):
        return "masked"

    def __bool__(self):
        return False

    def _m(self, *a):
        return self

    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __neg__ = __abs__ = _m
    __lt__ = __gt__ = __le__ = __ge__ = __pow__ = __rpow__ = _m

    def __eq__(self, o):
        return self

    def __ne__(self, o):
        return self

    def __hash__(self):
        raise TypeError("unhashable type: 'MaskedConstant'")

    def __float__(self):
        return math.nan

    def filled(self, v=None):
        return v

    def item(self):
        return self

    __array_ufunc__ = None


masked = Masked()


def getmask(x):
    if isinstance(x, MA):
        return x._mask
    if x is masked:
        return rnp.True_
    return nomask


def getmaskarray(x):
    if isinstance(x, MA):
        if x._mask is nomask:
            return f_zeros(x.shape, bool)
        return x._mask
    return f_zeros(asA(x).shape, bool)


def mask_or(a, b):
    if a is nomask or a is None:
        return b
    if b is nomask or b is None:
        return a
    return SHIM.logical_or(a, b)


_DEFFILL = {"f": 1e20, "i": 999999, "u": 999999, "b": True, "O": "?", "S": b"N/A", "U": "N/A", "c": 1e20 + 0j}


class MA(A):
    """np.ma.MaskedArray"""

    _mask = nomask
    _fill_value = None
    _hardmask = False

    def __new__(cls, data=None, mask=nomask, dtype=None, copy=False, subok=True, ndmin=0, fill_value=None,
                keep_mask=True, hard_mask=None, shrink=True, order=None):
        if data is masked:
            d = f_zeros((), dtype or float)
            return cls._make(d, full_((), True, B1))
        dm = nomask
        if isinstance(data, MA):
            dm = data._mask
            if fill_value is None:
                fill_value = data._fill_value
        elif isinstance(data, (list, tuple)) and _has_masked(data):
            d, dm = _split_masked(data)
            data = d
        d = data.data_A() if isinstance(data, MA) else asA(data)
        if dtype is not None and _dtype(dtype) != d._dt:
            d = d.astype(dtype)
        elif copy or not isinstance(data, A):
            d = d.copy()
        elif d is data:
            d = mk(d.raw, d._dt)
        if ndmin and d.ndim < ndmin:
            d = d.reshape((1,) * (ndmin - d.ndim) + d.shape)
        if mask is nomask or mask is None and False:
            m = dm
            if m is not nomask and copy:
                m = m.copy()
            if m is not nomask and m.shape != d.shape:
                m = m.reshape(d.shape)
        else:
            if mask is True or isinstance(mask, rnp.bool_) and bool(mask):
                m = full_(d.shape, True, B1)
            elif mask is False or isinstance(mask, rnp.bool_):
                m = full_(d.shape, False, B1)
            else:
                m = asA(mask)
                if m._dt != B1:
                    m = m.astype(bool)
                elif copy:
                    m = m.copy()
                if m.shape != d.shape:
                    if m.size == 1:
                        m = full_(d.shape, m.raw.reshape(-1)[0], B1)
                    elif m.size == d.size:
                        m = m.reshape(d.shape)
                    else:
                        raise rnp.ma.MaskError(f"Mask and data not compatible: data size is {d.size}, mask size is {m.size}.")
            if dm is not nomask and keep_mask:
                m = mask_or(m, dm)
        r = cls._make(d, m, fill_value)
        if hard_mask:
            r._hardmask = True
        elif hard_mask is None and isinstance(data, MA):
            r._hardmask = data._hardmask
        return r

    @classmethod
    def _make(cls, d, m, fill_value=None):
        r = rnp.ndarray.view(d, MA)
        r._dt = d._dt
        r._mask = m if m is nomask else (m if type(m) is A else asA(m))
        r._fill_value = fill_value
        r._hardmask = False
        return r

    def __init__(self, *a, **k):
        pass

    def __array_finalize__(self, obj):
        if obj is not None:
            self._dt = getattr(obj, "_dt", _obj)
        self._mask = nomask

    # data/mask
    def data_A(self):
        return mk(rnp.ndarray.view(self, rnp.ndarray), self._dt)

    @property
    def data(self):
        return self.data_A()

    @property
    def _data(self):
        return self.data_A()

    @property
    def base_data(self):
        return self.data_A()

    @property
    def mask(self):
        if self._mask is nomask:
            return nomask
        return mk(self._mask.raw, B1)

    @mask.setter
    def mask(self, m):
        self._setmask(m)

    def _setmask(self, m):
        if m is masked:
            m = True
        if self._mask is nomask:
            if m is nomask:
                return
            self._mask = full_(self.shape, False, B1)
        ma = asA(m).astype(bool)
        if self._hardmask:
            new = SHIM.logical_or(self._mask, ma)
            self._mask[...] = new
        else:
            if ma.ndim == 0:
                self._mask[...] = ma.raw[()]
            else:
                try:
                    self._mask[...] = ma
                except ValueError:
                    if ma.size == self._mask.size:
                        self._mask[...] = ma.reshape(self._mask.shape)
                    else:
                        raise

    __setmask__ = _setmask

    def harden_mask(self):
        self._hardmask = True
        return self

    def soften_mask(self):
        self._hardmask = False
        return self

    hardmask = property(lambda self: self._hardmask)

    def unshare_mask(self):
        if self._mask is not nomask:
            self._mask = self._mask.copy()
        return self

    @property
    def fill_value(self):
        if self._fill_value is None:
            v = _DEFFILL.get(self._dt.kind, 1e20)
            return out_scalar(v, self._dt) if self._dt.kind in "fiub" else v
        return self._fill_value

    @fill_value.setter
    def fill_value(self, v):
        if v is None:
            self._fill_value = None
        else:
            self._fill_value = out_scalar(cast_scalar(v, self._dt), self._dt)

    def set_fill_value(self, v):
        self.fill_value = v

    def get_fill_value(self):
        return self.fill_value

    def filled(self, fill_value=None):
        if self._mask is nomask:
            return self.data_A()
        fv = self.fill_value if fill_value is None else fill_value
        if isinstance(fv, rnp.generic):
            fv = fv.item()
        if isinstance(fv, A):
            fvb = rnp.broadcast_to(fv.raw, self.shape)
        else:
            fvb = None
            fv = cast_scalar(fv, self._dt)
        o = self.raw.copy()
        any_ = False
        for i in rnp.ndindex(*self.shape):
            if bool(self._mask.raw[i]):
                o[i] = fv if fvb is None else fvb[i]
                any_ = True
        return mk(o, self._dt) if any_ else self.data_A()

    def compressed(self):
        d = self.data_A().reshape(-1)
        if self._mask is nomask:
            return d
        keep = ~conc_index(self._mask).reshape(-1)
        return d[keep]

    def count(self, axis=None, keepdims=False):
        m = getmaskarray(self)
        return reduce_axis(mk(m.raw, I8), axis, lambda xs: sum(1 for x in xs if not bool(x)), keepdims, I8)

    def __array__(self, dtype=None, copy=None):
        raise Undecidable("real numpy reached a symbolic masked array")

    # indexing
    def __getitem__(self, key):
        key = norm_key(key)
        r = _ndget(rnp.ndarray.view(self, rnp.ndarray), key)
        m = nomask
        if self._mask is not nomask:
            m = _ndget(self._mask.raw, key)
        if not isinstance(r, rnp.ndarray):
            if m is not nomask and bool(m):
                return masked
            return out_scalar(r, self._dt)
        if isinstance(r, Sym):
            return r
        x = MA._make(mk(r, self._dt), m if m is nomask else mk(m, B1), self._fill_value)
        x._hardmask = self._hardmask
        return x

    def __setitem__(self, key, value):
        key = norm_key(key)
        if value is masked:
            if self._mask is nomask:
                self._mask = full_(self.shape, False, B1)
            self._mask[key] = True
            return
        vm = getmask(value)
        vd = value.data_A() if isinstance(value, MA) else value
        if isinstance(value, (list, tuple)) and _has_masked(value):
            vd, vm = _split_masked(value)
        d = self.data_A()
        if self._mask is nomask:
            d[key] = vd
            if vm is not nomask:
                self._mask = full_(self.shape, False, B1)
                self._mask[key] = vm
        elif not self._hardmask:
            d[key] = vd
            self._mask[key] = vm if vm is not nomask else False
        else:
            cur = self._mask[key]
            if not isinstance(cur, A):
                if not bool(cur):
                    d[key] = vd
                    if vm is not nomask:
                        self._mask[key] = vm
                return
            keep = conc_index(cur)
            sub = d[key]
            vb = rnp.broadcast_to(to_obj(vd)[0], sub.shape)
            new = sub.raw.copy()
            for i in rnp.ndindex(*sub.shape):
                if not keep[i]:
                    new[i] = vb[i]
            d[key] = mk(new, d._dt)
            if vm is not nomask:
                self._mask[key] = SHIM.logical_or(cur, vm)

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    def __bool__(self):
        if self.size == 1:
            if self._mask is not nomask and bool(self._mask.raw.reshape(-1)[0]):
                return False
            return bool(self.raw.reshape(-1)[0])
        return A.__bool__(self)

    def __float__(self):
        if self._mask is not nomask and bool(self._mask.raw.reshape(-1)[0]):
            return math.nan
        return float(self._one())

    def __repr__(self):
        return f"MA({self.raw.tolist()!r}, mask={self._mask!r}, {self._dt})"

    __str__ = __repr__

    # structure
    def _both(self, fn):
        d = fn(self.raw)
        m = nomask if self._mask is nomask else mk(fn(self._mask.raw), B1)
        x = MA._make(mk(d, self._dt), m, self._fill_value)
        x._hardmask = self._hardmask
        return x

    def reshape(self, *s, **kw):
        s = s[0] if len(s) == 1 and isinstance(s[0], (tuple, list)) else s
        return self._both(lambda r: r.reshape(tuple(operator.index(x) for x in s), **kw))

    def ravel(self, order="C"):
        return self._both(lambda r: r.ravel(order))

    def flatten(self, order="C"):
        return self._both(lambda r: r.flatten(order))

    def transpose(self, *a):
        return self._both(lambda r: r.transpose(*a))

    @property
    def T(self):
        return self.transpose()

    def swapaxes(self, a, b):
        return self._both(lambda r: r.swapaxes(a, b))

    def squeeze(self, axis=None):
        return self._both(lambda r: r.squeeze(axis))

    def copy(self, order="C"):
        return self._both(lambda r: r.copy())

    def repeat(self, n, axis=None):
        return self._both(lambda r: r.repeat(conc_index(n), axis))

    @property
    def shape(self):
        return rnp.ndarray.view(self, rnp.ndarray).shape

    @shape.setter
    def shape(self, s):
        rnp.ndarray.shape.__set__(self, s)
        if self._mask is not nomask:
            self._mask.shape = s

    @property
    def flat(self):
        return self.ravel()

    def astype(self, dt, copy=True, **kw):
        dt = _dtype(dt)
        return MA._make(self.data_A().astype(dt), nomask if self._mask is nomask else self._mask.copy())

    def view(self, *a, **k):
        if a and isinstance(a[0], type) and issubclass(a[0], rnp.ndarray):
            if not issubclass(a[0], MA):
                return self.data_A()
        x = MA._make(self.data_A(), self._mask)
        return x

    def take(self, indices, axis=None, out=None, mode="raise"):
        return f_take(self, indices, axis, mode=mode)

    def put(self, indices, values, mode="raise"):
        f_put(self, indices, values, mode)
        if self._mask is not nomask:
            v = getmask(values)
            f_put(self._mask, indices, False if v is nomask else v, mode)

    def tolist(self, fill_value=None):
        if self._mask is nomask:
            return self.raw.tolist()
        o = self.raw.copy()
        for i in rnp.ndindex(*self.shape):
            if bool(self._mask.raw[i]):
                o[i] = fill_value
        return o.tolist()

    def item(self, *a):
        return self.data_A().item(*a)

    def dot(self, b):
        return f_dot(self.filled(0), b.filled(0) if isinstance(b, MA) else b)

    def nonzero(self):
        return f_nonzero(self)

    def tobytes(self, fill_value=None, order="C"):
        return SBytes(self.filled(fill_value))

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        return ma_reduce("sum", self, axis, keepdims)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        return ma_reduce("mean", self, axis, keepdims)

    def prod(self, axis=None, **kw):
        return ma_reduce("prod", self, axis, False)

    def min(self, axis=None, out=None, fill_value=None, keepdims=False):
        return ma_reduce("min", self, axis, keepdims)

    def max(self, axis=None, out=None, fill_value=None, keepdims=False):
        return ma_reduce("max", self, axis, keepdims)

    def any(self, axis=None, out=None, keepdims=False):
        return ma_reduce("any", self, axis, keepdims)

    def all(self, axis=None, out=None, keepdims=False):
        return ma_reduce("all", self, axis, keepdims)

    def argmin(self, axis=None, fill_value=None, out=None, **kw):
        return f_argmin(self.filled(math.inf if fill_value is None else fill_value), axis)

    def argmax(self, axis=None, fill_value=None, out=None, **kw):
        return f_argmax(self.filled(-math.inf if fill_value is None else fill_value), axis)

    def clip(self, min=None, max=None, out=None, **kw):
        return MA._make(f_clip(self.data_A(), min, max), self._mask)

    @property
    def real(self):
        return self

    def ids(self):
        return (id(self),)


def _has_masked(x):
    for e in x:
        if e is masked:
            return True
        if isinstance(e, MA) and e._mask is not nomask:
            return True
        if isinstance(e, (list, tuple)) and _has_masked(e):
            return True
    return False


def _split_masked(x):
    """(data, mask) of a nested list with masked entries"""
    def d(e):
        if e is masked:
            return 0.0
        if isinstance(e, MA):
            return e.data_A()
        if isinstance(e, (list, tuple)):
            return [d(y) for y in e]
        return e

    def m(e):
        if e is masked:
            return True
        if isinstance(e, MA):
            return getmaskarray(e)
        if isinstance(e, (list, tuple)):
            return [m(y) for y in e]
        if isinstance(e, A):
            return f_zeros(e.shape, bool)
        return False

    return asA(d(x)), asA(m(x))


def ma_reduce(name, a, axis, keepdims=False):
    kern = {"sum": _ksum, "prod": _kprod, "mean": _kmean, "max": _kmax, "min": _kmin,
            "any": lambda xs: sany([_tobool(x) for x in xs]), "all": lambda xs: sall([_tobool(x) for x in xs])}.get(name)
    if not has_sym(a) or kern is None:
        if has_sym(a):
            raise Undecidable("masked reduction " + name)
        f = getattr(rnp.ma.MaskedArray, name, None)
        k = {"keepdims": True} if keepdims else {}
        return wrap(f(to_real(a), axis=axis, **k))
    m = conc_index(getmaskarray(a))
    tag = {"sum": _sumtag, "prod": _sumtag, "mean": lambda t: t if t.kind == "f" else F8,
           "any": lambda t: B1, "all": lambda t: B1}.get(name, lambda t: t)(a._dt)
    pair = rnp.empty(a.shape, dtype=object)
    for i in rnp.ndindex(*a.shape):
        pair[i] = (bool(m[i]), a.raw[i])
    res = reduce_axis(mk(pair, _obj), axis, lambda ps: _mred(kern, ps), keepdims, _obj)
    if not isinstance(res, A):
        return masked if res is masked else out_scalar(cast_scalar(res, tag), tag)
    mm = rnp.empty(res.shape, dtype=object)
    dd = rnp.empty(res.shape, dtype=object)
    for i in rnp.ndindex(*res.shape):
        e = res.raw[i]
        mm[i] = e is masked
        dd[i] = _zero_of(tag) if e is masked else cast_scalar(e, tag)
    anym = a._mask is not nomask
    return MA._make(mk(dd, tag), mk(mm, B1) if anym else nomask)


def _mred(kern, ps):
    xs = [v for m, v in ps if not m]
    return masked if not xs else kern(xs)


_DOMAIN_DIV = {"divide", "true_divide", "floor_divide", "remainder", "mod"}


def ma_ufunc(uf, inputs, out, where, kw):
    name = uf.__name__
    ms = [getmask(x) if isinstance(x, MA) else (rnp.True_ if x is masked else nomask) for x in inputs]
    if any(x is masked for x in inputs):
        return masked
    m = nomask
    for x in ms:
        m = mask_or(m, x)
    ds = [x.data_A() if isinstance(x, MA) else x for x in inputs]
    # domain
    if name in _DOMAIN_DIV:
        b = asA(ds[1])
        if has_sym(b):
            dz = SHIM.equal(b, 0)
        else:
            with rnp.errstate(all="ignore"):
                bb = to_real(b)
                dz = wrap(rnp.asarray(rnp.absolute(bb) <= rnp.finfo(float).tiny * 1)) if bb.dtype.kind in "fiu" else nomask
                if isinstance(dz, A) and not conc_index(dz).any():
                    dz = nomask
        if dz is not nomask and (isinstance(dz, A) or is_sym(dz) or dz):
            dzc = conc_index(asA(dz))
            if dzc.any():
                m = mask_or(m, from_real(rnp.asarray(dzc)))
                # avoid dividing by zero: masked anyway
                ds[1] = f_where(from_real(rnp.asarray(dzc)), 1, ds[1])
    elif name in ("sqrt",):
        neg = SHIM.less(ds[0], 0)
        nc = conc_index(asA(neg))
        if nc.any():
            m = mask_or(m, from_real(rnp.asarray(nc)))
    r = do_ufunc(uf, "__call__", tuple(ds), None, where, kw)
    ra = asA(r)
    if m is not nomask:
        m = asA(m)
        if m.shape != ra.shape:
            m = mk(rnp.broadcast_to(m.raw, ra.shape).copy(), B1)
        # masked positions keep the first operand's data
        first = rnp.broadcast_to(to_obj(ds[0])[0], ra.shape)
        o = ra.raw.copy()
        for i in rnp.ndindex(*ra.shape):
            mi = m.raw[i]
            if not is_sym(mi) and mi:
                try:
                    o[i] = cast_scalar(first[i], ra._dt) if ra._dt.kind != "b" else o[i]
                except Exception:
                    pass
        if name in ("equal", "not_equal") and len(inputs) == 2:
            # the operators' rule: masked in both means equal, masked in one means different
            pq = [rnp.broadcast_to(asA(x).raw, ra.shape) if x is not nomask else None for x in ms]
            for i in rnp.ndindex(*ra.shape):
                p, q = (False if x is None else x[i] for x in pq)
                same = core._xnor(p, q)
                o[i] = core.sor(core.sand(m.raw[i], same if name == "equal" else snot(same)), core.sand(snot(m.raw[i]), o[i]))
        ra = mk(o, ra._dt)
    if ra.ndim == 0 and not (out is not None):
        if m is not nomask and bool(asA(m).raw[()]):
            return masked
        return out_scalar(ra.raw[()], ra._dt)
    if out is not None:
        o = out[0] if isinstance(out, tuple) else out
        if isinstance(o, MA):
            o.data_A()[...] = ra
            if m is not nomask:
                if o._mask is nomask:
                    o._mask = full_(o.shape, False, B1)
                o._mask[...] = m
            return o
        o[...] = ra
        return o
    res = MA._make(ra, m if m is nomask else asA(m))
    return res


# np.ma namespace functions -----------------------------------------------
def ma_array(data=None, dtype=None, copy=False, order=None, mask=nomask, fill_value=None, keep_mask=True, hard_mask=False,
             shrink=True, subok=True, ndmin=0):
    return MA(data, mask=mask, dtype=dtype, copy=copy, fill_value=fill_value, keep_mask=keep_mask, hard_mask=hard_mask,
              ndmin=ndmin)


def ma_filled(a, fill_value=None):
    if isinstance(a, MA):
        return a.filled(fill_value)
    if a is masked:
        return fill_value
    return a if isinstance(a, A) else asA(a)


def ma_is_masked(x):
    m = getmask(x)
    if m is nomask:
        return False
    if m is rnp.True_ or isinstance(m, rnp.bool_):
        return bool(m)
    return bool(sany([_tobool(e) for e in m.raw.reshape(-1)]))


def ma_masked_where(cond, a, copy=True):
    c = asA(cond)
    c = SHIM.logical_or(c, False) if c._dt != B1 else c
    cm = getmask(cond)
    if cm is not nomask:
        # masked condition entries: condition is taken as its data
        c = asA(cond.filled(True) if False else cond.data_A())
    d = MA(a, copy=copy)
    om = d._mask
    d._mask = mask_or(c.copy() if isinstance(c, A) else c, om)
    if not isinstance(d._mask, A):
        d._mask = full_(d.shape, bool(d._mask), B1)
    return d


def _mcmp(uf, shrink=True):
    def f(x, value, copy=True):
        return ma_masked_where(getattr(SHIM, uf)(asA(x), value), x, copy)

    return f


def ma_masked_invalid(a, copy=True):
    d = asA(a)
    return ma_masked_where(SHIM.logical_not(SHIM.isfinite(d)), a, copy)


def ma_masked_all(shape, dtype=float):
    return MA._make(f_empty(shape, dtype), full_(shape, True, B1))


def ma_compressed(x):
    return x.compressed() if isinstance(x, MA) else asA(x).reshape(-1)


def ma_where(cond, x=None, y=None):
    if x is None:
        return f_nonzero(cond)
    xm, ym = (getmaskarray(v) if isinstance(v, MA) else (True if v is masked else False) for v in (x, y))
    d = f_where(cond, 0.0 if x is masked else x, 0.0 if y is masked else y)
    m = f_where(cond, xm, ym)
    cm = getmask(cond)
    if cm is not nomask:
        m = SHIM.logical_or(m, cm)
    return MA._make(asA(d), asA(m).astype(bool))


def ma_choose(indices, choices, out=None, mode="raise"):
    d = f_choose(asA(indices), [c.data_A() if isinstance(c, MA) else c for c in choices], mode=mode)
    m = f_choose(asA(indices), [getmaskarray(c) if isinstance(c, MA) else f_zeros(asA(c).shape, bool) for c in choices], mode=mode)
    return MA._make(asA(d), asA(m).astype(bool))


def ma_set_fill_value(a, v):
    if isinstance(a, MA):
        a.set_fill_value(v)


def ma_average(a, axis=None, weights=None, **kw):
    if weights is None:
        return ma_reduce("mean", MA(a), axis)
    a = MA(a)
    w = asA(weights)
    return ma_reduce("sum", a * w, axis) / ma_reduce("sum", MA(w + a.data_A() * 0, mask=a._mask), axis)


def ma_allequal(a, b, fill_value=True):
    m = mask_or(getmask(a), getmask(b))
    eq = SHIM.equal(asA(a), asA(b))
    if m is nomask:
        return bool(f_all(eq))
    if fill_value:
        return bool(f_all(SHIM.logical_or(eq, m)))
    return False


# ------------------------------------------------------------------ generic fallback
def _deep_conc(x):
    """concretize every symbolic element (loss of generality, recorded)"""
    if isinstance(x, MA):
        return MA._make(_deep_conc(x.data_A()), nomask if x._mask is nomask else _deep_conc(x._mask), x._fill_value)
    if isinstance(x, A):
        o = x.raw.copy()
        f = o.reshape(-1) if o.ndim else o.reshape(1)
        for i, e in enumerate(f):
            if is_sym(e):
                f[i] = concretize(e)
        return mk(o, x._dt)
    if isinstance(x, Sym):
        return concretize(x)
    if isinstance(x, list):
        return [_deep_conc(e) for e in x]
    if type(x) is tuple:
        return tuple(_deep_conc(e) for e in x)
    if isinstance(x, dict):
        return {k: _deep_conc(v) for k, v in x.items()}
    return x


def generic(func, args, kwargs):
    """real numpy function on (concretized) real arrays"""
    if has_sym(list(args)) or has_sym(kwargs):
        E().degrade("numpy." + getattr(func, "__name__", "?"))
        args = _deep_conc(tuple(args))
        kwargs = _deep_conc(dict(kwargs))
    return wrap(func(*[to_real(a) for a in args], **{k: to_real(v) for k, v in kwargs.items()}))


class UF:
    """ufunc stand-in"""

    def __init__(self, uf):
        self._u = uf
        self.__name__ = uf.__name__
        self.nin, self.nout = uf.nin, uf.nout

    def __call__(self, *args, out=None, where=True, **kw):
        ins = args[: self._u.nin]
        if len(args) > self._u.nin:
            out = args[self._u.nin]
        if self._u.nout == 1 and not any(isinstance(a, (rnp.ndarray, list, tuple, Masked)) for a in ins) and out is None:
            if any(isinstance(a, Sym) for a in ins):
                r = elem(self._u, self._u.__name__, KERN.get(self._u.__name__), ins)
                return rnp.bool_(r) if isinstance(r, bool) else r
            return wrap(self._u(*ins, **kw))
        ins = tuple(asA(a) if isinstance(a, (list, tuple)) else a for a in ins)
        kw.pop("casting", None)
        return do_ufunc(self._u, "__call__", ins, out, where, kw)

    def reduce(self, a, axis=0, **kw):
        return do_ufunc(self._u, "reduce", (a,), None, True, dict(axis=axis, **kw))

    def accumulate(self, a, axis=0, **kw):
        return do_ufunc(self._u, "accumulate", (a,), None, True, dict(axis=axis))

    def outer(self, a, b, **kw):
        return do_ufunc(self._u, "outer", (a, b), None, True, {})

    def at(self, a, idx, *b):
        return do_ufunc(self._u, "at", (a, idx) + b, None, True, {})


class _CShim:
    def __getitem__(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        parts = []
        for k in key:
            a = asA(k)
            if a.ndim < 2:
                a = a.reshape(-1, 1)
            parts.append(a)
        return f_concatenate(parts, axis=-1)


class _RShim:
    def __getitem__(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        if any(isinstance(k, (slice, str)) for k in key):
            return wrap(rnp.r_[key])
        return f_concatenate([asA(k).reshape(-1) if asA(k).ndim < 2 else asA(k) for k in key])


class _TypeMeta(type):
    def __instancecheck__(cls, x):
        if isinstance(x, Sym):
            return False
        return isinstance(x, cls._real)


def _numtype(name):
    return getattr(rnp, name)


class _Shim(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        v = getattr(rnp, name)
        return _wrapattr(v, self, name)


def _wrapattr(v, mod, name):
    if isinstance(v, rnp.ufunc):
        r = UF(v)
    elif isinstance(v, type) or isinstance(v, types.ModuleType) or not callable(v):
        r = v
        if isinstance(v, rnp.ndarray):
            r = from_real(v)
    else:
        def r(*a, **k):
            return generic(v, a, k)

        r.__name__ = name
    mod.__dict__[name] = r
    return r


SHIM = _Shim("numpy")
MASHIM = _Shim("numpy.ma")


class _MaShim(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        v = getattr(rnp.ma, name)
        uf = getattr(rnp, name, None)
        if isinstance(uf, rnp.ufunc):
            u = UF(uf)

            def r(*a, **k):
                a = [MA(x) if isinstance(x, (A, list, tuple)) and not isinstance(x, MA) else x for x in a]
                return u(*a, **k)
        elif isinstance(v, type) or not callable(v):
            r = v
        else:
            def r(*a, **k):
                return generic(v, a, k)
        self.__dict__[name] = r
        return r


MASHIM = _MaShim("numpy.ma")
LINSHIM = types.ModuleType("numpy.linalg")
LINSHIM.__dict__.update(inv=l_inv, det=l_det, solve=l_solve, norm=l_norm, LinAlgError=rnp.linalg.LinAlgError)


class _LinShim(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        v = getattr(rnp.linalg, name)
        if callable(v) and not isinstance(v, type):
            return lambda *a, **k: generic(v, a, k)
        return v


_l = _LinShim("numpy.linalg")
_l.__dict__.update({k: v for k, v in LINSHIM.__dict__.items() if not k.startswith("__")})
LINSHIM = _l


class _NumTypeMeta(type):
    def __instancecheck__(cls, x):
        if isinstance(x, SNum):
            k = cls._shim_dtype.kind
            return (k in "iu") == x.isint and k in "iuf"
        return isinstance(x, cls._real)

    def __subclasscheck__(cls, c):
        return issubclass(c, cls._real)

    def __call__(cls, x=0, *a):
        if isinstance(x, A):
            return x.astype(cls._shim_dtype)
        if isinstance(x, (list, tuple)):
            return asA(x).astype(cls._shim_dtype)
        if isinstance(x, Sym):
            return cast_scalar(x, cls._shim_dtype)
        return cls._real(x)

    def __eq__(cls, o):
        return o is cls or o is cls._real or (isinstance(o, rnp.dtype) and o == cls._shim_dtype)

    def __hash__(cls):
        return hash(cls._real)


def _mktype(name):
    real = getattr(rnp, name)
    return _NumTypeMeta(name, (), {"_real": real, "_shim_dtype": rnp.dtype(real), "dtype": rnp.dtype(real)})


_NUMTYPES = {}
for _n in ("float64", "float32", "int64", "int32", "int8", "int16", "uint8", "bool_", "intp", "uint32"):
    _NUMTYPES[_n] = _mktype(_n)


def f_ndim(a):
    if isinstance(a, (rnp.ndarray, Sym)):
        return a.ndim
    return to_obj(a)[0].ndim


def f_shape(a):
    if isinstance(a, (rnp.ndarray, Sym)):
        return a.shape
    return to_obj(a)[0].shape


def f_size(a, axis=None):
    s = f_shape(a)
    return int(rnp.prod(s)) if axis is None else s[axis]


def f_copy(a, order="K", subok=False):
    if isinstance(a, MA) and not subok:
        return a.data_A().copy()
    return asAny(a).copy()


def f_shares_memory(a, b):
    return rnp.shares_memory(a.raw, b.raw)


def f_result_type(*a):
    return rnp.result_type(*[x._dt if isinstance(x, A) else (_weak(x) if isinstance(x, Sym) else x) for x in a])


def f_can_cast(a, b, casting="safe"):
    return rnp.can_cast(_dtype(a._dt if isinstance(a, A) else a), _dtype(b), casting)


def f_issubdtype(a, b):
    b = getattr(b, "_real", b)
    a = getattr(a, "_real", a)
    return rnp.issubdtype(a, b)


def f_dtype(x, *a, **k):
    return _dtype(x)


def f_matrix(*a, **k):
    raise Undecidable("np.matrix")


def f_isscalar(x):
    return isinstance(x, Sym) or rnp.isscalar(x)


def f_iterable(x):
    return not isinstance(x, Sym) and rnp.iterable(x)


def f_fromiter(it, dtype, count=-1):
    return f_array(list(it), dtype=dtype)


def f_nan_to_num(x, copy=True, nan=0.0, **kw):
    a = asA(x)
    o = a.raw.copy()
    for i in rnp.ndindex(*a.shape):
        if _isnan(o[i]):
            o[i] = nan
    return ret(o, a._dt)


def f_block(x):
    raise Undecidable("block")


def f_trapz(*a, **k):
    raise Undecidable("trapz")


class _Test:
    @staticmethod
    def assert_allclose(a, b, *x, **k):
        if not f_allclose(a, b, *x, **k):
            raise AssertionError("not close")


def _install():
    d = SHIM.__dict__
    g = globals()
    for n in list(g):
        if n.startswith("f_") and n not in ("f_generic2", "f_atleast"):
            d[n[2:]] = g[n]
    for n in VIEWFUNCS:
        if n.startswith("atleast"):
            continue
        d[n] = _viewf(getattr(rnp, n))
    for k in (1, 2, 3):
        d[f"atleast_{k}d"] = f_atleast(k)
    d["amin"], d["amax"], d["alltrue"], d["sometrue"] = f_min, f_max, f_all, f_any
    d["around"] = f_round
    d["in1d"] = lambda a, b, **k: f_isin(asA(a).reshape(-1), b, **k)
    d["row_stack"] = f_vstack
    d["concat"] = f_concatenate
    d["abs"] = UF(rnp.absolute)
    d["vectorize"] = vectorize
    d["ndarray"] = A
    d["c_"], d["r_"] = _CShim(), _RShim()
    d["ma"], d["linalg"] = MASHIM, LINSHIM
    d["dtype"] = rnp.dtype
    d["nan"], d["inf"], d["pi"], d["newaxis"] = rnp.nan, rnp.inf, rnp.pi, None
    d["bool"] = _NUMTYPES["bool_"]
    for n, t in _NUMTYPES.items():
        d[n] = t
    d["float_"] = _NUMTYPES["float64"]
    m = MASHIM.__dict__
    m.update(MaskedArray=MA, masked_array=MA, array=ma_array, masked=masked, nomask=nomask, isMA=lambda x: isinstance(x, MA),
             isMaskedArray=lambda x: isinstance(x, MA), isarray=lambda x: isinstance(x, MA), is_masked=ma_is_masked,
             getmask=getmask, getmaskarray=getmaskarray, getdata=lambda x, subok=True: x.data_A() if isinstance(x, MA) else asA(x),
             filled=ma_filled, masked_where=ma_masked_where, masked_equal=_mcmp("equal"), masked_values=_mcmp("equal"),
             masked_less=_mcmp("less"), masked_less_equal=_mcmp("less_equal"), masked_greater=_mcmp("greater"),
             masked_greater_equal=_mcmp("greater_equal"), masked_not_equal=_mcmp("not_equal"),
             masked_invalid=ma_masked_invalid, masked_all=ma_masked_all, compressed=ma_compressed, where=ma_where,
             choose=ma_choose, set_fill_value=ma_set_fill_value, mask_or=mask_or, average=ma_average, allequal=ma_allequal,
             concatenate=_mjoin_ma(rnp.concatenate), stack=_mjoin_ma(rnp.stack), vstack=_mjoin_ma(rnp.vstack),
             hstack=_mjoin_ma(rnp.hstack), dstack=_mjoin_ma(rnp.dstack), column_stack=_mjoin_ma(rnp.column_stack),
             MaskError=rnp.ma.MaskError, count=lambda x, axis=None: MA(x).count(axis),
             count_masked=lambda x, axis=None: f_sum(getmaskarray(x).astype(int), axis=axis),
             make_mask=lambda m, **k: asA(m).astype(bool), make_mask_none=lambda s, **k: f_zeros(s, bool),
             clip=lambda x, a, b: MA(x).clip(a, b), copy=lambda x: x.copy(),
             asarray=lambda x, dtype=None: MA(x, dtype=dtype), asanyarray=lambda x, dtype=None: x if isinstance(x, MA) else MA(x, dtype=dtype),
             take=lambda a, i, axis=None, **k: f_take(MA(a), i, axis), put=lambda a, i, v, mode="raise": a.put(i, v, mode),
             allclose=lambda a, b, masked_equal=True, rtol=1e-5, atol=1e-8: _ma_allclose(a, b, rtol, atol),
             ndim=f_ndim, shape=f_shape, size=f_size, mvoid=rnp.ma.mvoid, MAError=rnp.ma.MAError)
    for n in ("zeros", "ones", "empty", "arange", "full"):
        fn = d.get(n)
        m[n] = (lambda fn: lambda *a, **k: MA._make(fn(*a, **k), nomask))(fn)
    for n in ("zeros_like", "ones_like", "empty_like"):
        m[n] = (lambda fn: lambda a, **k: MA(fn(a, **k)))(d[n])
    for n in ("sum", "mean", "prod", "min", "max", "any", "all"):
        m[n] = (lambda n: lambda a, axis=None, **k: ma_reduce(n, MA(a), axis, k.get("keepdims", False)))(n)
    for n in ("reshape", "transpose", "ravel", "squeeze", "swapaxes", "expand_dims", "repeat", "diagonal", "atleast_1d", "atleast_2d"):
        m[n] = (lambda fn: lambda a, *x, **k: fn(MA(a), *x, **k))(d[n])
    m["diff"] = lambda a, **k: f_diff(MA(a), **k)
    d["asfarray"] = lambda a: f_asarray(a, float)
    class _Emath:
        sqrt = staticmethod(lambda x: UF(rnp.sqrt)(x))
    d["testing"] = _Test
    d["s_"] = rnp.s_
    d["index_exp"] = rnp.index_exp
    d["lib"] = rnp.lib


def _ma_allclose(a, b, rtol, atol):
    m = mask_or(getmask(a), getmask(b))
    c = f_isclose(asA(a), asA(b), rtol, atol)
    if m is not nomask:
        c = SHIM.logical_or(c, m)
    return bool(f_all(c))


_install()
