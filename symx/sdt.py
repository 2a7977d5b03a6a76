"""Symbolic datetime / timedelta, and str/bytes/digest stand-ins that keep symbolic content."""
import datetime as _dt
import hashlib as _hashlib
import math
from fractions import Fraction

import numpy as rnp

from . import core, snp
from .core import SNum, Sym, sall

EPOCH = _dt.datetime(2000, 1, 1)


class SStr(str):
    """text of a symbolic value: compares by the value"""

    def __new__(cls, ref):
        r = str.__new__(cls, "<sym>")
        r.ref = ref
        return r

    def _same(self, o):
        if isinstance(o, SStr):
            if type(self.ref) is not type(o.ref):
                return False
            return bool(self.ref == o.ref)
        return False

    def __eq__(self, o):
        return self._same(o)

    def __ne__(self, o):
        return not self._same(o)

    def __hash__(self):
        return 17

    def encode(self, *a):
        return SRefBytes(self.ref)


class SRefBytes:
    def __init__(self, ref):
        self.ref = ref

    def __eq__(self, o):
        return isinstance(o, SRefBytes) and type(o.ref) is type(self.ref) and bool(self.ref == o.ref)

    def __hash__(self):
        return 19


def secs(x):
    """seconds since EPOCH (exact) of a datetime"""
    if isinstance(x, SDT):
        return x.t
    if isinstance(x, _dt.datetime):
        d = x - EPOCH
        return SNum(core.pconst(Fraction(d.days * 86400 + d.seconds) + Fraction(d.microseconds, 10**6)))
    return None


def dsecs(x):
    if isinstance(x, STD):
        return x.t
    if isinstance(x, _dt.timedelta):
        return SNum(core.pconst(Fraction(x.days * 86400 + x.seconds) + Fraction(x.microseconds, 10**6)))
    return None


class SDT(Sym):
    __slots__ = ("t",)
    tzinfo = None

    def __init__(self, t):
        self.t = t if isinstance(t, SNum) else SNum.lift(t)

    @property
    def dtype(self):
        return rnp.dtype(object)

    def __add__(self, o):
        if isinstance(o, rnp.ndarray):
            return NotImplemented
        d = dsecs(o)
        if d is None:
            return NotImplemented
        return SDT(self.t + d)

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, rnp.ndarray):
            return NotImplemented
        d = dsecs(o)
        if d is not None:
            return SDT(self.t - d)
        s = secs(o)
        if s is not None:
            return STD(self.t - s)
        return NotImplemented

    def __rsub__(self, o):
        s = secs(o)
        if s is not None:
            return STD(s - self.t)
        return NotImplemented

    def _c(self, o, op):
        if isinstance(o, rnp.ndarray):
            return NotImplemented
        s = secs(o)
        if s is None:
            if op == "eq":
                return False
            if op == "ne":
                return True
            return NotImplemented
        return core._cmp(self.t, s, op)

    def __lt__(self, o):
        return self._c(o, "lt")

    def __le__(self, o):
        return self._c(o, "le")

    def __gt__(self, o):
        return self._c(o, "gt")

    def __ge__(self, o):
        return self._c(o, "ge")

    def __eq__(self, o):
        return self._c(o, "eq")

    def __ne__(self, o):
        return self._c(o, "ne")

    def __hash__(self):
        return 23

    def __bool__(self):
        return True

    def __repr__(self):
        return f"SDT[{self.t!r}]"

    def __str__(self):
        return SStr(self)

    def __format__(self, spec):
        return "<sym datetime>"

    def isoformat(self, *a):
        return SStr(self)

    def strftime(self, *a):
        return SStr(self)

    def timestamp(self):
        return self.t + 946684800

    def replace(self, **kw):
        raise core.Undecidable("datetime.replace")

    def timetuple(self):
        raise core.Undecidable("timetuple")


class STD(Sym):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t if isinstance(t, SNum) else SNum.lift(t)

    @property
    def dtype(self):
        return rnp.dtype(object)

    def total_seconds(self):
        return SNum(self.t.n, self.t.d, False)

    @property
    def days(self):
        return core.sfloor(self.t / 86400)

    @property
    def seconds(self):
        return core.sfloor(self.t - self.days * 86400)

    @property
    def microseconds(self):
        return core.sfloor((self.t - core.sfloor(self.t)) * 10**6)

    def __add__(self, o):
        if isinstance(o, rnp.ndarray):
            return NotImplemented
        d = dsecs(o)
        if d is not None:
            return STD(self.t + d)
        s = secs(o)
        if s is not None:
            return SDT(self.t + s)
        return NotImplemented

    __radd__ = __add__

    def __sub__(self, o):
        d = dsecs(o)
        if d is None:
            return NotImplemented
        return STD(self.t - d)

    def __rsub__(self, o):
        d = dsecs(o)
        if d is not None:
            return STD(d - self.t)
        s = secs(o)
        if s is not None:
            return SDT(s - self.t)
        return NotImplemented

    def __neg__(self):
        return STD(-self.t)

    def __abs__(self):
        return STD(abs(self.t))

    def __mul__(self, o):
        if isinstance(o, rnp.ndarray):
            return NotImplemented
        return STD(self.t * o)

    __rmul__ = __mul__

    def __truediv__(self, o):
        d = dsecs(o)
        if d is not None:
            r = self.t / d
            if isinstance(r, float) or False:
                raise ZeroDivisionError("division by zero")
            return r
        return STD(self.t / o)

    def __rtruediv__(self, o):
        d = dsecs(o)
        if d is None:
            return NotImplemented
        r = d / self.t
        if isinstance(r, float):
            raise ZeroDivisionError("division by zero")
        return r

    def __floordiv__(self, o):
        d = dsecs(o)
        return self.t // d if d is not None else STD(self.t // o)

    def _c(self, o, op):
        if isinstance(o, rnp.ndarray):
            return NotImplemented
        s = dsecs(o)
        if s is None:
            if op == "eq":
                return False
            if op == "ne":
                return True
            return NotImplemented
        return core._cmp(self.t, s, op)

    def __lt__(self, o):
        return self._c(o, "lt")

    def __le__(self, o):
        return self._c(o, "le")

    def __gt__(self, o):
        return self._c(o, "gt")

    def __ge__(self, o):
        return self._c(o, "ge")

    def __eq__(self, o):
        return self._c(o, "eq")

    def __ne__(self, o):
        return self._c(o, "ne")

    def __hash__(self):
        return 29

    def __bool__(self):
        return bool(self.t != 0)

    def __repr__(self):
        return f"STD[{self.t!r}]"

    def __str__(self):
        return SStr(self)

    def __format__(self, spec):
        return "<sym timedelta>"


class _DTMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (SDT, _dt.datetime))

    def __getattr__(cls, n):
        return getattr(_dt.datetime, n)

    def __call__(cls, *a, **k):
        return _dt.datetime(*a, **k)


class datetime(metaclass=_DTMeta):
    @staticmethod
    def now(*a):
        return _dt.datetime(2020, 1, 1, 12, 30, 15, 1234)

    @staticmethod
    def utcnow():
        return _dt.datetime(2020, 1, 1, 12, 30, 15, 1234)

    today = now


class _TDMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (STD, _dt.timedelta))

    def __getattr__(cls, n):
        return getattr(_dt.timedelta, n)

    def __call__(cls, days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0, hours=0, weeks=0):
        a = [days, seconds, microseconds, milliseconds, minutes, hours, weeks]
        if not any(isinstance(x, Sym) for x in a):
            return _dt.timedelta(*a)
        m = [86400, 1, Fraction(1, 10**6), Fraction(1, 1000), 60, 3600, 604800]
        s = SNum.lift(0)
        for x, k in zip(a, m):
            if isinstance(x, (float, rnp.floating)) and not isinstance(x, Sym) and not math.isfinite(x):
                raise ValueError("cannot convert float NaN to integer")
            s = s + (x.as_num() if isinstance(x, core.SBool) else SNum.lift(x)) * SNum.lift(k)
        return STD(s)


class timedelta(metaclass=_TDMeta):
    pass


# --------------------------------------------------------------- hashlib
class HDigest:
    """digest of some content: equal exactly when the contents are (no collisions assumed)"""

    def __init__(self, parts):
        self.parts = parts

    def __eq__(self, o):
        if not isinstance(o, HDigest) or len(o.parts) != len(self.parts):
            return False
        for a, b in zip(self.parts, o.parts):
            if type(a) is not type(b) or not (a == b):
                return False
        return True

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return 31

    def __add__(self, o):
        return HDigest(self.parts + (o.parts if isinstance(o, HDigest) else [o]))

    def __radd__(self, o):
        return HDigest([o] + self.parts)


class _Hash:
    def __init__(self, name, data=None):
        self.name = name
        self.parts = [("h", name)]
        if data is not None:
            self.update(data)

    def update(self, data):
        if isinstance(data, snp.A):
            data = data.tobytes()
        self.parts.append(data)

    def _digest(self, hexa):
        if all(isinstance(p, (bytes, bytearray)) for p in self.parts[1:]):
            h = _hashlib.new(self.name)
            for p in self.parts[1:]:
                h.update(p)
            return h.hexdigest() if hexa else h.digest()
        return HDigest(self.parts)

    def hexdigest(self, *a):
        return self._digest(True)

    def digest(self, *a):
        return self._digest(False)

    def copy(self):
        h = _Hash(self.name)
        h.parts = list(self.parts)
        return h


class FakeHashlib:
    def __getattr__(self, n):
        if n in ("sha1", "sha256", "md5", "sha512", "sha224", "sha384", "blake2b", "blake2s", "sha3_256"):
            return lambda data=None, **k: _Hash(n, data)
        if n == "new":
            return lambda name, data=None, **k: _Hash(name, data)
        return getattr(_hashlib, n)


class _IntMeta(type):
    def __instancecheck__(cls, x):
        if isinstance(x, SNum):
            return False
        return isinstance(x, int)

    def __subclasscheck__(cls, c):
        return issubclass(c, int)

    def __call__(cls, *a, **k):
        if a and isinstance(a[0], SNum):
            return core.strunc(a[0])
        return int(*a, **k)

    def __eq__(cls, o):
        return o is cls or o is int

    def __hash__(cls):
        return hash(int)


class sint(metaclass=_IntMeta):
    _shim_dtype = rnp.dtype("int64")
    _real = int


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        if isinstance(x, SNum):
            return not x.isint
        return isinstance(x, float)

    def __subclasscheck__(cls, c):
        return issubclass(c, float)

    def __call__(cls, *a, **k):
        if a and isinstance(a[0], SNum):
            return SNum(a[0].n, a[0].d, False)
        if a and isinstance(a[0], core.SBool):
            n = a[0].as_num()
            return SNum(n.n, n.d, False)
        if a and isinstance(a[0], snp.A) and a[0].size == 1 and snp.has_sym(a[0]):
            return cls(a[0].item())
        if a and isinstance(a[0], str) and "~" in a[0]:
            v = core.text_value(a[0])
            if v is not None:
                return v
        return float(*a, **k)

    def __eq__(cls, o):
        return o is cls or o is float

    def __hash__(cls):
        return hash(float)


class sfloat(metaclass=_FloatMeta):
    _shim_dtype = rnp.dtype("float64")
    _real = float
    fromhex = float.fromhex
