"""Symbolic scalars and the path-exploring engine.

Numbers are rational functions (exact polynomials over a product of non-zero
denominators) of base variables; conditions are sign conditions on polynomials,
combined with and/or/not.  `bool()` of a symbolic condition asks z3 which
outcomes are feasible under the current path condition and forks.
"""
import math
import re as _re
import os
import sys
import time
from fractions import Fraction
from numbers import Number

_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _VT not in sys.path:
    sys.path.append(_VT)
import z3  # noqa: E402
import numpy as rnp  # noqa: E402  (the real numpy)


class PathAbort(BaseException):
    """assumption false / infeasible path."""


class PathLimit(BaseException):
    """this path cannot be finished within the limits (inconclusive)."""


class Undecidable(BaseException):
    """operation that cannot be represented (inconclusive path)."""


# --------------------------------------------------------------------------
# variables
# --------------------------------------------------------------------------
class VarTable:
    def __init__(self):
        self.names = []
        self.z = []
        self.isint = []
        self.idx = {}

    def get(self, name, isint):
        k = (name, isint)
        i = self.idx.get(k)
        if i is None:
            i = len(self.names)
            self.idx[k] = i
            self.names.append(name)
            self.isint.append(isint)
            self.z.append(z3.Int(name) if isint else z3.Real(name))
        return i


VARS = VarTable()

# --------------------------------------------------------------------------
# polynomials:  dict  monomial(tuple of (var, exp) sorted) -> coefficient (int|Fraction)
# --------------------------------------------------------------------------


def _norm(c):
    if type(c) is Fraction and c.denominator == 1:
        return c.numerator
    return c


class Poly:
    __slots__ = ("t", "_key", "_z", "_int", "_lin")

    def __init__(self, t):
        self.t = t
        self._key = None
        self._z = None
        self._int = None
        self._lin = None

    @property
    def key(self):
        k = self._key
        if k is None:
            k = self._key = tuple(sorted(self.t.items(), key=lambda kv: _mkey(kv[0])))
        return k

    def __hash__(self):
        return hash(self.key)

    def __eq__(self, o):
        return self.t == o.t

    def const(self):
        """the constant value, or None"""
        t = self.t
        if not t:
            return 0
        if len(t) == 1 and () in t:
            return t[()]
        return None

    def is_intpoly(self):
        if self._int is None:
            self._int = all(
                type(c) is int and all(VARS.isint[v] for v, _ in m) for m, c in self.t.items()
            )
        return self._int

    def z3(self):
        """(expr) Int-sorted if is_intpoly() else Real-sorted"""
        if self._z is None:
            asint = self.is_intpoly()
            terms = []
            for m, c in self.key:
                fs = []
                for v, e in m:
                    x = VARS.z[v]
                    if VARS.isint[v] and not asint:
                        x = z3.ToReal(x)
                    fs.extend([x] * e)
                if asint:
                    cz = z3.IntVal(c)
                else:
                    cz = z3.RealVal(c if type(c) is int else str(c))
                if not fs:
                    terms.append(cz)
                else:
                    e = fs[0]
                    for f in fs[1:]:
                        e = e * f
                    terms.append(e if c == 1 else cz * e)
            if not terms:
                self._z = z3.IntVal(0) if asint else z3.RealVal(0)
            elif len(terms) == 1:
                self._z = terms[0]
            else:
                self._z = z3.Sum(terms)
        return self._z

    def eval(self, env):
        s = 0
        for m, c in self.t.items():
            p = c
            for v, e in m:
                p = p * env[v] ** e
            s = s + p
        return s

    def vars(self):
        return {v for m in self.t for v, _ in m}

    def degree(self):
        return max((sum(e for _, e in m) for m in self.t), default=0)


def _mkey(m):
    return (sum(e for _, e in m), m)


ZERO = Poly({})
ONE = Poly({(): 1})


def pconst(c):
    c = _norm(c)
    return Poly({(): c}) if c else ZERO


def pvar(i):
    return Poly({((i, 1),): 1})


def padd(a, b, s=1):
    r = dict(a.t)
    for m, c in b.t.items():
        v = r.get(m)
        if v is None:
            r[m] = c if s == 1 else _norm(s * c)
        else:
            v = _norm(v + s * c)
            if v == 0:
                del r[m]
            else:
                r[m] = v
    return Poly(r)


_mmcache = {}


def _mmul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    k = (m1, m2)
    r = _mmcache.get(k)
    if r is None:
        d = dict(m1)
        for v, e in m2:
            d[v] = d.get(v, 0) + e
        r = tuple(sorted(d.items()))
        if len(_mmcache) > 400000:
            _mmcache.clear()
        _mmcache[k] = r
    return r


MAX_TERMS = 6000
LAZY_HASH = False  # all symbolic integers hash alike, so that dict and set lookups fork on equality only (no lookups of symbolic among concrete integers then)


def pmul(a, b):
    if len(a.t) * len(b.t) > 3000000:
        raise Undecidable("polynomial too large")
    r = {}
    for m1, c1 in a.t.items():
        for m2, c2 in b.t.items():
            m = _mmul(m1, m2)
            v = r.get(m)
            r[m] = c1 * c2 if v is None else v + c1 * c2
    r = {m: _norm(c) for m, c in r.items() if c != 0}
    if len(r) > MAX_TERMS:
        raise Undecidable("polynomial too large")
    return Poly(r)


def pscale(a, c):
    if c == 1:
        return a
    if c == 0:
        return ZERO
    return Poly({m: _norm(v * c) for m, v in a.t.items()})


def _lexkey(m):
    # lexicographic order with variable 0 the biggest
    return tuple((-v, e) for v, e in m)


def _lead(t):
    # pure lex leading monomial
    best = None
    for m in t:
        if best is None or _lexgt(m, best):
            best = m
    return best


def _lexgt(a, b):
    # compare exponent vectors lexicographically, smaller var index first
    i = j = 0
    while True:
        if i >= len(a):
            return False
        if j >= len(b):
            return True
        va, ea = a[i]
        vb, eb = b[j]
        if va == vb:
            if ea != eb:
                return ea > eb
            i += 1
            j += 1
        else:
            return va < vb


def _mdiv(m, d):
    dm = dict(m)
    for v, e in d:
        x = dm.get(v, 0) - e
        if x < 0:
            return None
        if x == 0:
            dm.pop(v, None)
        else:
            dm[v] = x
    return tuple(sorted(dm.items()))


def pdivexact(p, f):
    """p / f when exact, else None"""
    if f.const() is not None:
        return pscale(p, Fraction(1) / Fraction(f.const()))
    if not p.t:
        return ZERO
    if len(p.t) < len(f.t) and len(p.t) == 1:
        return None
    if not f.vars() <= p.vars():
        return None
    if p.degree() < f.degree():
        return None
    fl = _lead(f.t)
    fc = f.t[fl]
    rem = dict(p.t)
    q = {}
    steps = 0
    while rem:
        l = _lead(rem)
        d = _mdiv(l, fl)
        if d is None:
            return None
        c = Fraction(rem[l]) / Fraction(fc)
        c = _norm(c)
        q[d] = c
        for m, v in f.t.items():
            mm = _mmul(m, d)
            x = _norm(rem.get(mm, 0) - v * c)
            if x == 0:
                rem.pop(mm, None)
            else:
                rem[mm] = x
        steps += 1
        if steps > 400:
            return None
    return Poly(q)


def pmonic(p):
    """(monic poly, coefficient): leading (in key order) coefficient positive 1"""
    k = p.key[-1][1]
    if k == 1:
        return p, 1
    return pscale(p, Fraction(1) / Fraction(k)), k


def psqrt(p):
    """polynomial square root when p is a perfect square, else None"""
    if not p.t:
        return ZERO
    l = _lead(p.t)
    c = Fraction(p.t[l])
    if c < 0 or any(e % 2 for _, e in l):
        return None
    rc = _fsqrt(c)
    if rc is None:
        return None
    lm = tuple((v, e // 2) for v, e in l)
    root = {lm: rc}
    # iterate: next term of root = lead(rem) / (2*lead(root))
    rem = padd(p, pmul(Poly(root), Poly(root)), -1)
    steps = 0
    while rem.t:
        rl = _lead(rem.t)
        d = _mdiv(rl, lm)
        if d is None or d in root:
            return None
        root[d] = _norm(Fraction(rem.t[rl]) / (2 * Fraction(rc)))
        r = Poly(dict(root))
        rem = padd(p, pmul(r, r), -1)
        steps += 1
        if steps > 60:
            return None
    return Poly({m: _norm(c) for m, c in root.items()})


def _fsqrt(c):
    n, d = c.numerator, c.denominator
    rn, rd = math.isqrt(n), math.isqrt(d)
    if rn * rn == n and rd * rd == d:
        return _norm(Fraction(rn, rd))
    return None


# --------------------------------------------------------------------------
# symbolic scalars
# --------------------------------------------------------------------------
class Sym:
    """base of all symbolic scalars"""

    __slots__ = ()
    __array_ufunc__ = None
    __array_priority__ = 1e6
    shape = ()
    ndim = 0
    size = 1

    def item(self):
        return self

    def copy(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def tolist(self):
        return self

    def squeeze(self):
        return self


def _isnum(x):
    return isinstance(x, (int, float, Fraction, rnp.integer, rnp.floating, rnp.bool_))


def to_frac(x):
    """exact value of a finite concrete number"""
    if isinstance(x, (bool, rnp.bool_)):
        return int(x)
    if isinstance(x, int):
        return x
    if isinstance(x, rnp.integer):
        return int(x)
    if isinstance(x, Fraction):
        return _norm(x)
    f = float(x)
    return _norm(Fraction(f))


class SNum(Sym):
    __slots__ = ("n", "d", "isint")

    def __init__(self, n, d=(), isint=False):
        self.n = n
        self.d = d  # sorted tuple of monic Poly factors (with repetition), all known non-zero
        self.isint = isint

    # -- construction helpers
    @staticmethod
    def lift(x):
        """SNum for a number, None if not a finite number"""
        if isinstance(x, SNum):
            return x
        if isinstance(x, SBool):
            return x.as_num()
        if _isnum(x):
            if isinstance(x, (float, rnp.floating)) and not math.isfinite(x):
                return None
            return SNum(pconst(to_frac(x)), (), isinstance(x, (int, rnp.integer, bool, rnp.bool_)))
        return None

    def const(self):
        if self.d:
            return None
        return self.n.const()

    @property
    def dtype(self):
        return rnp.dtype("int64") if self.isint else rnp.dtype("float64")

    def astype(self, dt):
        from .snp import cast_scalar

        return cast_scalar(self, rnp.dtype(dt))

    def __getitem__(self, key):
        """as numpy's scalars: a truth value, None, Ellipsis or ()"""
        from .snp import mk

        if isinstance(key, tuple) and not key:
            return self
        one = rnp.empty((1,), dtype=object)
        one[0] = self
        if key is None:
            return mk(one, self.dtype)
        if isinstance(key, (bool, rnp.bool_)) or type(key).__name__ == "SBool":
            return mk(one if bool(key) else one[:0], self.dtype)
        raise IndexError(f"invalid index to scalar variable. {type(key)}")

    __iter__ = None  # not iterable

    def __repr__(self):
        c = self.const()
        if c is not None:
            return f"S[{c}]"
        s = "+".join(
            ("" if c == 1 and m else str(c)) + "*".join(VARS.names[v] + (f"^{e}" if e > 1 else "") for v, e in m)
            for m, c in self.n.key[:4]
        )
        if len(self.n.t) > 4:
            s += "+..."
        return f"S[{s}{'/..' if self.d else ''}]"

    def __str__(self):
        return repr(self)

    def __format__(self, spec):
        c = self.const()
        if c is not None:
            return format(c if isinstance(c, int) else float(c), spec)
        m = _FIXED.match(spec)
        if m:
            return text_of(self, int(m[3]), int(m[2] or 0), m[1] or ">")
        return format(concretize(self), spec)

    # -- arithmetic
    def __add__(self, o):
        return _add(self, o, 1)

    __radd__ = __add__

    def __sub__(self, o):
        return _add(self, o, -1)

    def __rsub__(self, o):
        r = _lift_or_special(o)
        if r is NotImplemented:
            return r
        if isinstance(r, SNum):
            return _add(r, self, -1)
        if isinstance(o, rnp.ndarray):
            return NotImplemented
        return o  # inf/nan - finite

    def __neg__(self):
        return SNum(pscale(self.n, -1), self.d, self.isint)

    def __pos__(self):
        return self

    def __mul__(self, o):
        return _mul(self, o)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return _div(self, o)

    def __rtruediv__(self, o):
        r = _lift_or_special(o)
        if r is NotImplemented:
            return r
        if isinstance(r, SNum):
            return _div(r, self)
        # inf/nan divided by finite
        if math.isnan(o):
            return o
        z = sign_of(self)
        return o if z >= 0 else -o

    def __floordiv__(self, o):
        o2 = _lift_or_special(o)
        if o2 is NotImplemented:
            return o2
        return _floordiv(self, o2)

    def __rfloordiv__(self, o):
        o2 = _lift_or_special(o)
        if o2 is NotImplemented:
            return o2
        return _floordiv(o2, self)

    def __mod__(self, o):
        o2 = _lift_or_special(o)
        if o2 is NotImplemented:
            return o2
        return self - _floordiv(self, o2) * o2

    def __rmod__(self, o):
        o2 = _lift_or_special(o)
        if o2 is NotImplemented:
            return o2
        return o2 - _floordiv(o2, self) * self

    def __divmod__(self, o):
        q = self // o
        return q, self - q * o

    def __pow__(self, e):
        if isinstance(e, SNum):
            e = e.const() if e.const() is not None else concretize(e)
        if isinstance(e, (float, rnp.floating)) and float(e).is_integer():
            e = int(e)
        if isinstance(e, (int, rnp.integer)):
            e = int(e)
            if e >= 0:
                r = SNum(ONE, (), self.isint)
                for _ in range(e):
                    r = r * self
                return r
            return SNum(ONE) / (self ** (-e))
        if e == 0.5:
            return ssqrt(self)
        return NotImplemented

    def __rpow__(self, b):
        e = concretize(self)
        return b**e

    def __abs__(self):
        return self if sign_ge(self) else -self

    # -- comparison
    def __lt__(self, o):
        return _cmp(self, o, "lt")

    def __le__(self, o):
        return _cmp(self, o, "le")

    def __gt__(self, o):
        return _cmp(self, o, "gt")

    def __ge__(self, o):
        return _cmp(self, o, "ge")

    def __eq__(self, o):
        return _cmp(self, o, "eq")

    def __ne__(self, o):
        return _cmp(self, o, "ne")

    def __bool__(self):
        return bool(_cmp(self, 0, "ne"))

    def __hash__(self):
        c = self.const()
        if c is not None:
            return hash(c)
        if self.isint and not LAZY_HASH:
            return hash(concretize_int(self))
        return 7

    # -- conversion
    def __float__(self):
        c = self.const()
        if c is not None:
            return float(c)
        return float(concretize(self))

    def __int__(self):
        return int(concretize_int(strunc(self)))

    def __index__(self):
        if not self.isint:
            raise TypeError("'float' object cannot be interpreted as an integer")
        return concretize_int(self)

    def __trunc__(self):
        return strunc(self)

    def __floor__(self):
        return sfloor(self)

    def __ceil__(self):
        return -sfloor(-self)

    def __round__(self, nd=None):
        return sround(self, nd)

    def is_integer(self):
        if self.isint:
            return True
        return self == sfloor(self)

    def sqrt(self):
        return ssqrt(self)

    @property
    def real(self):
        return self

    def conjugate(self):
        return self

    # integer bit operations: only on concretized values
    def __and__(self, o):
        return concretize_int(self) & (concretize_int(o) if isinstance(o, SNum) else o)

    __rand__ = __and__

    def __or__(self, o):
        return concretize_int(self) | (concretize_int(o) if isinstance(o, SNum) else o)

    __ror__ = __or__

    def __invert__(self):
        return -self - 1

    def __lshift__(self, o):
        return self * (1 << int(o))


def _lift_or_special(o):
    if isinstance(o, rnp.ndarray):
        return NotImplemented
    r = SNum.lift(o)
    if r is not None:
        return r
    if isinstance(o, (float, rnp.floating)):
        return float(o)
    return NotImplemented


def _isspecial(x):
    return isinstance(x, float)


def _add(a, o, s):
    b = _lift_or_special(o)
    if b is NotImplemented:
        return NotImplemented
    if _isspecial(b):
        return b if s == 1 else -b
    isint = a.isint and b.isint
    if not a.d and not b.d:
        return SNum(padd(a.n, b.n, s), (), isint)
    if a.d == b.d:
        return _mk(padd(a.n, b.n, s), a.d, isint)
    # common denominator
    ca = _count(a.d)
    cb = _count(b.d)
    na, nb = a.n, b.n
    den = []
    for f in set(ca) | set(cb):
        x, y = ca.get(f, 0), cb.get(f, 0)
        m = max(x, y)
        for _ in range(m - x):
            na = pmul(na, f)
        for _ in range(m - y):
            nb = pmul(nb, f)
        den += [f] * m
    return _mk(padd(na, nb, s), den, isint)


def _count(d):
    r = {}
    for f in d:
        r[f] = r.get(f, 0) + 1
    return r


def _mk(n, den, isint):
    """cancel den factors dividing n"""
    if not n.t:
        return SNum(ZERO, (), isint)
    out = []
    for f in den:
        q = pdivexact(n, f)
        if q is not None:
            n = q
        else:
            out.append(f)
    out.sort(key=lambda p: p.key)
    return SNum(n, tuple(out), isint)


def _mul(a, o):
    b = _lift_or_special(o)
    if b is NotImplemented:
        return NotImplemented
    if _isspecial(b):
        if math.isnan(b):
            return b
        s = sign_of(a)
        return math.nan if s == 0 else b * s
    isint = a.isint and b.isint
    if not a.d and not b.d:
        return SNum(pmul(a.n, b.n), (), isint)
    if not a.n.t or not b.n.t:
        return SNum(ZERO, (), isint)
    # cross-cancel before multiplying
    an, bd = _cancel(a.n, b.d)
    bn, ad = _cancel(b.n, a.d)
    den = sorted(ad + bd, key=lambda p: p.key)
    return SNum(pmul(an, bn), tuple(den), isint)


def _cancel(n, den):
    out = []
    for f in den:
        q = pdivexact(n, f)
        if q is not None:
            n = q
        else:
            out.append(f)
    return n, out


def _div(a, o):
    b = _lift_or_special(o)
    if b is NotImplemented:
        return NotImplemented
    if _isspecial(b):
        return math.nan if math.isnan(b) else 0.0
    c = b.const()
    if c is not None:
        if c == 0:
            return _divzero(a)
        return SNum(pscale(a.n, Fraction(1) / Fraction(c)), a.d, False)
    if bool(_sign_cond(b.n, frozenset((0,)))):
        return _divzero(a)
    m, k = pmonic(b.n)
    # a.n * b.d / (a.d * b.n)
    n = pscale(a.n, Fraction(1) / Fraction(k))
    for f in b.d:
        n = pmul(n, f)
    return _mk(n, list(a.d) + [m], False)


def _divzero(a):
    E().note_special()
    s = sign_of(a)
    return math.nan if s == 0 else s * math.inf


def _floordiv(a, b):
    if _isspecial(a) or _isspecial(b):
        raise Undecidable("floordiv special")
    isint = a.isint and b.isint
    cb = b.const()
    ca = a.const()
    if ca is not None and cb is not None:
        if cb == 0:
            raise ZeroDivisionError
        q = ca // cb
        return SNum(pconst(q), (), isint)
    if cb is not None and cb == 0:
        if isint:
            return SNum(ZERO, (), True)
        return _divzero(a)
    q = _div(a, b)
    if _isspecial(q):
        return q
    r = sfloor(q)
    return SNum(r.n, r.d, isint)


def sign_of(a):
    """-1, 0, 1: forks"""
    c = a.const()
    if c is not None:
        return (c > 0) - (c < 0)
    if bool(a > 0):
        return 1
    if bool(_cmp(a, 0, "eq")):
        return 0
    return -1


def sign_ge(a):
    c = a.const()
    if c is not None:
        return c >= 0
    return bool(a >= 0)


_SIGNS = {
    "lt": frozenset((-1,)),
    "le": frozenset((-1, 0)),
    "gt": frozenset((1,)),
    "ge": frozenset((0, 1)),
    "eq": frozenset((0,)),
    "ne": frozenset((-1, 1)),
}


def _cmp(a, o, op):
    if isinstance(o, rnp.ndarray):
        return NotImplemented
    b = SNum.lift(o)
    if b is None:
        if isinstance(o, (float, rnp.floating)):
            if math.isnan(o):
                return op == "ne"
            x, y = 0, (1 if o > 0 else -1)
            return {"lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y, "eq": False, "ne": True}[op]
        if op == "eq":
            return False
        if op == "ne":
            return True
        return NotImplemented
    diff = _add(a, b, -1)
    return sgn_bool(diff, _SIGNS[op])


def sgn_bool(x, signs):
    """SBool / bool: sign(x) in signs"""
    c = x.const()
    if c is not None:
        return ((c > 0) - (c < 0)) in signs
    if not x.d:
        return _sign_cond(x.n, signs)
    # N / prod(den): sign = sign(N)*prod(sign(den)); only odd multiplicities matter
    odd = [f for f, k in _count(x.d).items() if k % 2]
    if signs == _SIGNS["eq"] or signs == _SIGNS["ne"] or not odd:
        return _sign_cond(x.n, signs)
    # decide the sign of the denominators if already known on this path
    flip = 1
    rest = []
    for f in odd:
        s = E().known_sign(f)
        if s is None:
            rest.append(f)
        else:
            flip *= s
    if flip < 0:
        signs = frozenset(-s for s in signs)
    if not rest:
        return _sign_cond(x.n, signs)
    pos = _sign_cond(rest[0], frozenset((1,)))
    for f in rest[1:]:
        pos = _xnor(pos, _sign_cond(f, frozenset((1,))))
    a = _sign_cond(x.n, signs)
    b = _sign_cond(x.n, frozenset(-s for s in signs))
    return sor(sand(pos, a), sand(snot(pos), b))


def _sign_cond(p, signs):
    c = p.const()
    if c is not None:
        return ((c > 0) - (c < 0)) in signs
    if len(signs) == 3:
        return True
    if not signs:
        return False
    m, k = pmonic(p)
    if k < 0:
        signs = frozenset(-s for s in signs)
    if m.is_intpoly():
        pass
    return SBool(("s", m, signs))


# --------------------------------------------------------------------------
# booleans:  node = ('s', Poly monic, frozenset signs) | ('&', [nodes]) | ('|', [nodes]) | ('!', node) | ('z', z3expr)
# --------------------------------------------------------------------------
class SBool(Sym):
    __slots__ = ("node", "_z")

    def __init__(self, node):
        self.node = node
        self._z = None

    @property
    def dtype(self):
        return rnp.dtype(bool)

    def z3(self):
        if self._z is None:
            self._z = _node_z3(self.node)
        return self._z

    def __bool__(self):
        return E().branch(self)

    def __hash__(self):
        return hash(bool(self))

    def as_num(self):
        return SNum(ONE if bool(self) else ZERO, (), True)

    def __and__(self, o):
        if isinstance(o, rnp.ndarray):
            return NotImplemented
        return sand(self, o)

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, rnp.ndarray):
            return NotImplemented
        return sor(self, o)

    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, rnp.ndarray):
            return NotImplemented
        return snot(_xnor(self, o))

    __rxor__ = __xor__

    def __invert__(self):
        return snot(self)

    def __eq__(self, o):
        if isinstance(o, rnp.ndarray):
            return NotImplemented
        if isinstance(o, (SBool, bool, rnp.bool_)):
            return _xnor(self, o)
        return self.as_num() == o

    def __ne__(self, o):
        if isinstance(o, rnp.ndarray):
            return NotImplemented
        return snot(self == o)

    def __int__(self):
        return int(bool(self))

    def __float__(self):
        return float(bool(self))

    def __index__(self):
        return int(bool(self))

    def __add__(self, o):
        return self.as_num() + (o.as_num() if isinstance(o, SBool) else o)

    __radd__ = __add__

    def __sub__(self, o):
        return self.as_num() - (o.as_num() if isinstance(o, SBool) else o)

    def __rsub__(self, o):
        return o - self.as_num()

    def __mul__(self, o):
        return self.as_num() * (o.as_num() if isinstance(o, SBool) else o)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self.as_num() / o

    def __rtruediv__(self, o):
        return o / self.as_num()

    def __lt__(self, o):
        return self.as_num() < o

    def __le__(self, o):
        return self.as_num() <= o

    def __gt__(self, o):
        return self.as_num() > o

    def __ge__(self, o):
        return self.as_num() >= o

    def __repr__(self):
        return f"SB[{str(self.z3())[:80]}]"

    def astype(self, dt):
        from .snp import cast_scalar

        return cast_scalar(self, rnp.dtype(dt))


def _node_z3(n):
    k = n[0]
    if k == "s":
        p, signs = n[1], n[2]
        z = p.z3()
        if p.is_intpoly():
            zero = z3.IntVal(0)
        else:
            zero = z3.RealVal(0)
        if signs == _SIGNS["lt"]:
            return z < zero
        if signs == _SIGNS["le"]:
            return z <= zero
        if signs == _SIGNS["gt"]:
            return z > zero
        if signs == _SIGNS["ge"]:
            return z >= zero
        if signs == _SIGNS["eq"]:
            return z == zero
        return z != zero
    if k == "&":
        return z3.And([_node_z3(x) for x in n[1]])
    if k == "|":
        return z3.Or([_node_z3(x) for x in n[1]])
    if k == "!":
        return z3.Not(_node_z3(n[1]))
    return n[1]


_MONO = {}


def _mono_z3(m):
    """a monomial as an opaque real (linear abstraction)"""
    r = _MONO.get(m)
    if r is None:
        if len(m) == 1 and m[0][1] == 1:
            v = m[0][0]
            r = z3.ToReal(VARS.z[v]) if VARS.isint[v] else VARS.z[v]
        else:
            r = z3.Real("m!" + "*".join(f"{v}^{e}" for v, e in m))
        _MONO[m] = r
    return r


def _node_lin(n):
    """node with every nonlinear monomial replaced by a fresh real: unsat of the abstraction implies unsat"""
    k = n[0]
    if k == "s":
        p, signs = n[1], n[2]
        if p._lin is None:
            terms = []
            for m, c in p.key:
                cz = z3.RealVal(c if type(c) is int else str(c))
                terms.append(cz if not m else (_mono_z3(m) if c == 1 else cz * _mono_z3(m)))
            p._lin = z3.Sum(terms) if len(terms) > 1 else (terms[0] if terms else z3.RealVal(0))
        z = p._lin
        for nm, f in (("lt", z.__lt__), ("le", z.__le__), ("gt", z.__gt__), ("ge", z.__ge__), ("eq", z.__eq__)):
            if signs == _SIGNS[nm]:
                return f(0)
        return z != 0
    if k == "&":
        return z3.And([_node_lin(x) for x in n[1]])
    if k == "|":
        return z3.Or([_node_lin(x) for x in n[1]])
    if k == "!":
        return z3.Not(_node_lin(n[1]))
    return n[1]


def _nonlinear(n):
    k = n[0]
    if k == "s":
        return n[1].degree() > 1
    if k in "&|":
        return any(_nonlinear(x) for x in n[1])
    if k == "!":
        return _nonlinear(n[1])
    return False


def _cb(x):
    """concrete bool or None"""
    if isinstance(x, SBool):
        return None
    if isinstance(x, SNum):
        return _cb(x != 0)
    return bool(x)


def _as_sb(x):
    if isinstance(x, SNum):
        return x != 0
    return x


def sand(a, b):
    a, b = _as_sb(a), _as_sb(b)
    ca, cb = _cb(a), _cb(b)
    if ca is False or cb is False:
        return False
    if ca is True:
        return b if cb is None else True
    if cb is True:
        return a
    la = list(a.node[1]) if a.node[0] == "&" else [a.node]
    lb = list(b.node[1]) if b.node[0] == "&" else [b.node]
    return SBool(("&", la + [x for x in lb if x not in la]))


def sor(a, b):
    a, b = _as_sb(a), _as_sb(b)
    ca, cb = _cb(a), _cb(b)
    if ca is True or cb is True:
        return True
    if ca is False:
        return b if cb is None else False
    if cb is False:
        return a
    la = list(a.node[1]) if a.node[0] == "|" else [a.node]
    lb = list(b.node[1]) if b.node[0] == "|" else [b.node]
    return SBool(("|", la + [x for x in lb if x not in la]))


_ALL3 = frozenset((-1, 0, 1))


def snot(a):
    a = _as_sb(a)
    c = _cb(a)
    if c is not None:
        return not c
    return SBool(_nnot(a.node))


def _nnot(n):
    k = n[0]
    if k == "s":
        return ("s", n[1], _ALL3 - n[2])
    if k == "!":
        return n[1]
    if k == "&":
        return ("|", [_nnot(x) for x in n[1]])
    if k == "|":
        return ("&", [_nnot(x) for x in n[1]])
    return ("!", n)


def _xnor(a, b):
    a, b = _as_sb(a), _as_sb(b)
    ca, cb = _cb(a), _cb(b)
    if ca is not None and cb is not None:
        return ca == cb
    if ca is not None:
        return b if ca else snot(b)
    if cb is not None:
        return a if cb else snot(a)
    return sor(sand(a, b), sand(snot(a), snot(b)))


def sall(xs):
    r = True
    for x in xs:
        r = sand(r, x)
        if r is False:
            return False
    return r


def sany(xs):
    r = False
    for x in xs:
        r = sor(r, x)
        if r is True:
            return True
    return r


# --------------------------------------------------------------------------
# functions introducing auxiliary variables
# --------------------------------------------------------------------------
def sfloor(x):
    if not isinstance(x, SNum):
        return x if isinstance(x, float) and not math.isfinite(x) else math.floor(x)
    if x.isint:
        return x
    c = x.const()
    if c is not None:
        return SNum(pconst(math.floor(c)), (), True)
    e = E()
    k = e.memo_aux(("floor", x.n.key, tuple(f.key for f in x.d)), lambda: e.fresh_int("fl"))
    e.assume_fact((k <= x))
    e.assume_fact((x < k + 1))
    return k


def strunc(x):
    if not isinstance(x, SNum):
        return int(x)
    if x.isint:
        return x
    if sign_ge(x):
        return sfloor(x)
    return -sfloor(-x)


def sround(x, nd=None):
    if nd:
        s = 10 ** int(nd)
        r = sround(x * s)
        return SNum((r / s).n, (r / s).d, False)
    f = sfloor(x)
    d = x - f
    half = Fraction(1, 2)
    if bool(d < half):
        return f
    if bool(d > half):
        return f + 1
    return f if int(f) % 2 == 0 else f + 1


# text: a number written with a fixed number of decimals is a token standing for a value
# within half a unit of the last decimal; reading the token back yields that value
_FIXED = _re.compile(r"^([<>]?)(\d*)\.(\d+)f$")
_TOKEN = _re.compile(r"^~(\d+)~$")


def text_of(x, decimals, width, align):
    e = E()
    h = Fraction(1, 2 * 10**decimals)
    d = e.memo_aux(("text", decimals, x.n.key, tuple(f.key for f in x.d)), lambda: e.fresh_real("tx"))
    e.assume_fact(d <= h)
    e.assume_fact(-h <= d)
    e.texts.append(SNum((x + d).n, (x + d).d, False))
    t = f"~{len(e.texts) - 1}~"
    return t.rjust(width) if align == ">" else t.ljust(width)


def text_value(t):
    """the value of a token, or None"""
    m = _TOKEN.match(t.strip()) if isinstance(t, str) else None
    return E().texts[int(m[1])] if m else None


def ssqrt(x):
    if not isinstance(x, SNum):
        return math.sqrt(x) if x >= 0 else math.nan
    c = x.const()
    if c is not None:
        if c < 0:
            return math.nan
        r = _fsqrt(Fraction(c))
        if r is not None:
            return SNum(pconst(r))
    elif not x.d:
        r = psqrt(x.n)
        if r is not None:
            r = SNum(r)
            return r if sign_ge(r) else -r
    if not sign_ge(x):
        E().note_special()
        return math.nan
    e = E()
    r = e.memo_aux(("sqrt", x.n.key, tuple(f.key for f in x.d)), lambda: e.fresh_real("sq"))
    e.assume_fact(r >= 0)
    e.assume_fact(_cmp(r * r, x, "eq"))
    e.note_sqrt(r, x)
    return r


def ssincos(x):
    """(sin, cos) as auxiliary variables with s^2+c^2 = 1 (same argument -> same variables)"""
    if not isinstance(x, SNum):
        return math.sin(x), math.cos(x)
    c = x.const()
    if c is not None:
        if c == 0:
            return 0.0, 1.0
        return math.sin(c), math.cos(c)
    neg = x.n.key[-1][1] < 0
    if neg:
        s, c = ssincos(-x)
        return -s, c
    e = E()
    k = (x.n.key, tuple(f.key for f in x.d))
    s = e.memo_aux(("sin",) + k, lambda: e.fresh_real("sn"))
    c = e.memo_aux(("cos",) + k, lambda: e.fresh_real("cs"))
    e.assume_fact(_cmp(s * s + c * c, 1, "eq"))
    e.note_trig(x, s, c)
    return s, c


def concretize(x):
    """a concrete value for x on this path, recorded as a loss of generality unless forced"""
    if isinstance(x, SBool):
        return bool(x)
    if not isinstance(x, SNum):
        return x
    c = x.const()
    if c is not None:
        return c if isinstance(c, int) else float(c)
    if x.isint:
        return concretize_int(x)
    return E().concretize_real(x)


def concretize_int(x):
    if isinstance(x, SBool):
        return int(bool(x))
    if not isinstance(x, SNum):
        return int(x)
    c = x.const()
    if c is not None:
        return int(c)
    return E().concretize_int(x)


# --------------------------------------------------------------------------
# engine
# --------------------------------------------------------------------------
_ENGINE = None


def E():
    if _ENGINE is None:
        raise RuntimeError("no symbolic engine active")
    return _ENGINE


def set_engine(e):
    global _ENGINE
    _ENGINE = e


def zval(v):
    """python value of a z3 numeral (Fraction / int / float approximation for algebraics)"""
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return _norm(Fraction(v.numerator_as_long(), v.denominator_as_long()))
    if z3.is_algebraic_value(v):
        a = v.approx(40)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    return None


class Stats:
    def __init__(self):
        self.paths = 0
        self.aborted = 0
        self.branches = 0
        self.feas_queries = 0
        self.lin_queries = 0
        self.feas_unknown = 0
        self.assert_queries = 0
        self.assert_trivial = 0
        self.assert_unknown = 0
        self.solver_s = 0.0
        self.concretized = 0
        self.limit = 0
        self.exceptions = 0

    def merge(self, o):
        for k, v in o.items():
            setattr(self, k, getattr(self, k, 0) + v)


class Engine:
    """one symbolic execution of one harness job (re-execution based DFS)"""

    def __init__(self, feas_timeout=1500, assert_timeout=8000, max_decisions=4000, seed=1):
        self.feas_timeout = feas_timeout
        self.assert_timeout = assert_timeout
        self.max_decisions = max_decisions
        self.stats = Stats()
        self.seed = seed
        self.deadline = None
        self.work = [[]]

    # -- path lifecycle
    def start_path(self, prefix):
        self.prefix = prefix
        self.pos = 0
        self.trace = []
        self.solver = z3.SolverFor("QF_NIRA") if False else z3.Solver()
        self.solver.set("timeout", self.feas_timeout)
        self.solver.set("random_seed", self.seed)
        self.signs = {}
        self.sqrt_defs = []
        self.trig_defs = []
        self.special = False
        self.degraded = []
        self.aux = {}
        self.texts = []
        self.nfresh = 0
        self.model = None  # dict var index -> Fraction, satisfying all constraints so far (or None)
        self.pending_unknown = False
        self.inputs = {}
        self.facts = []
        self.nodes = []
        self.lin = None
        self.nlin = 0
        self.nl = False

    def note_special(self):
        self.special = True

    def note_sqrt(self, r, x):
        self.sqrt_defs.append((r, x))

    def note_trig(self, x, s, c):
        self.trig_defs.append((x, s, c))

    def degrade(self, what):
        self.degraded.append(what)
        self.stats.concretized += 1

    def memo_aux(self, key, make):
        v = self.aux.get(key)
        if v is None:
            v = self.aux[key] = make()
        return v

    def fresh_int(self, p):
        self.nfresh += 1
        i = VARS.get(f"{p}!{self.nfresh}", True)
        return SNum(pvar(i), (), True)

    def fresh_real(self, p):
        self.nfresh += 1
        i = VARS.get(f"{p}!{self.nfresh}", False)
        return SNum(pvar(i), (), False)

    # -- constraints
    def known_sign(self, p):
        """sign of monic poly if determined by path decisions"""
        s = self.signs.get(p)
        if s is not None and len(s) == 1:
            return next(iter(s))
        return None

    def _simplify(self, node):
        """simplify using recorded signs: returns True/False/node"""
        k = node[0]
        if k == "s":
            cur = self.signs.get(node[1])
            if cur is not None:
                if cur <= node[2]:
                    return True
                if not (cur & node[2]):
                    return False
            return node
        if k == "&":
            out = []
            for x in node[1]:
                r = self._simplify(x)
                if r is False:
                    return False
                if r is not True:
                    out.append(r)
            if not out:
                return True
            return out[0] if len(out) == 1 else ("&", out)
        if k == "|":
            out = []
            for x in node[1]:
                r = self._simplify(x)
                if r is True:
                    return True
                if r is not False:
                    out.append(r)
            if not out:
                return False
            return out[0] if len(out) == 1 else ("|", out)
        if k == "!":
            r = self._simplify(node[1])
            if r is True or r is False:
                return not r
            return node
        return node

    def _record(self, node):
        """add node as a fact of the path"""
        k = node[0]
        if k == "s":
            cur = self.signs.get(node[1], _ALL3)
            self.signs[node[1]] = cur & node[2]
        elif k == "&":
            for x in node[1]:
                self._record(x)
            return
        z = _node_z3(node)
        self.solver.add(z)
        self.facts.append(z)
        self.nodes.append(node)
        if not self.nl:
            self.nl = _nonlinear(node)
        if self.model is not None and self._eval(node) is not True:
            self.model = None

    def _eval(self, node):
        """truth of node under self.model (None when not evaluable)"""
        m = self.model
        k = node[0]
        try:
            if k == "s":
                v = node[1].eval(m)
                return ((v > 0) - (v < 0)) in node[2]
            if k == "&":
                r = [self._eval(x) for x in node[1]]
                return False if False in r else (None if None in r else True)
            if k == "|":
                r = [self._eval(x) for x in node[1]]
                return True if True in r else (None if None in r else False)
            if k == "!":
                r = self._eval(node[1])
                return None if r is None else not r
        except KeyError:
            return None
        return None

    def lin_refutes(self, node):
        """the linear abstraction of facts + node is unsatisfiable (decides most queries about nonlinear geometry)"""
        t = time.time()
        if self.lin is None:
            self.lin = z3.Solver()
            self.lin.set("timeout", 400)
        while self.nlin < len(self.nodes):
            self.lin.add(_node_lin(self.nodes[self.nlin]))
            self.nlin += 1
        self.lin.push()
        self.lin.add(_node_lin(node))
        r = self.lin.check()
        self.lin.pop()
        self.stats.lin_queries += 1
        self.stats.solver_s += time.time() - t
        return r == z3.unsat

    def _check(self, extra=None, timeout=None, inexact_ok=False):
        t = time.time()
        if timeout:
            self.solver.set("timeout", timeout)
        if extra is None:
            r = self.solver.check()
        else:
            # push/pop instead of assumption literals: nonlinear reasoning needs the plain assertion
            self.solver.push()
            self.solver.add(extra)
            r = self.solver.check()
        self.stats.feas_queries += 1
        mod = None
        if r == z3.sat:
            mod = self._getmodel(self.solver.model())
        elif r == z3.unknown and extra is not None:
            # second opinion from the nonlinear real procedure
            s = z3.SolverFor("QF_NRA")
            s.set("timeout", self.feas_timeout)
            s.add(*self.facts)
            s.add(extra)
            r = s.check()
            if r == z3.sat:
                mod = self._getmodel(s.model())
        if extra is not None:
            self.solver.pop()
        if mod is not None and not mod.exact and not inexact_ok:
            mod = None
        if timeout:
            self.solver.set("timeout", self.feas_timeout)
        self.stats.solver_s += time.time() - t
        return r, mod

    def _getmodel(self, m):
        env = {}
        exact = True
        for d in m.decls():
            if z3.is_algebraic_value(m[d]) and not z3.is_rational_value(m[d]):
                exact = False
            v = zval(m[d])
            if v is None:
                continue
            n = d.name()
            for isint in (False, True):
                i = VARS.idx.get((n, isint))
                if i is not None:
                    env[i] = v
        env = _DefaultEnv(env)
        env.exact = exact
        return env

    def assume_fact(self, c):
        """constraint that is a definition (always satisfiable): no check"""
        if isinstance(c, SBool):
            n = self._simplify(c.node)
            if n is True:
                return
            if n is False:
                raise PathAbort()
            self._record(n)
        elif not c:
            raise PathAbort()

    def assume(self, c):
        if isinstance(c, SNum):
            c = c != 0
        if not isinstance(c, SBool):
            if not c:
                raise PathAbort()
            return
        n = self._simplify(c.node)
        if n is True:
            return
        if n is False:
            raise PathAbort()
        self._record(n)

    def branch(self, b):
        n = self._simplify(b.node)
        if n is True or n is False:
            return n
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            if isinstance(d, tuple):
                raise RuntimeError("non-deterministic re-execution")
            self.pos += 1
            self.trace.append(d)
            self._record(n if d else _nnot(n))
            return d
        self.stats.branches += 1
        if len(self.trace) > self.max_decisions:
            raise PathLimit("too many decisions")
        if self.deadline and time.time() > self.deadline:
            raise PathLimit("deadline")
        z = _node_z3(n)
        t_ok = f_ok = None
        t_model = f_model = None
        if self.model is not None:
            ev = self._eval(n)
            if ev is True:
                t_ok, t_model = True, self.model
            elif ev is False:
                f_ok, f_model = True, self.model
        useln = self.nl or _nonlinear(n)
        if t_ok is None and useln and self.lin_refutes(n):
            t_ok = False
        if t_ok is None:
            r, mod = self._check(z)
            t_ok, t_model = r != z3.unsat, mod
            if r == z3.unknown:
                self.stats.feas_unknown += 1
        if not t_ok:
            # path itself is assumed feasible -> the other side is
            self.trace.append(False)
            self.pos += 1
            self.prefix.append(False)
            nn = _nnot(n)
            self._record(nn)
            return False
        if f_ok is None and useln and self.lin_refutes(_nnot(n)):
            f_ok = False
        if f_ok is None:
            r, mod = self._check(_node_z3(_nnot(n)))
            f_ok, f_model = r != z3.unsat, mod
            if r == z3.unknown:
                self.stats.feas_unknown += 1
        if not f_ok:
            self.trace.append(True)
            self.pos += 1
            self.prefix.append(True)
            self._record(n)
            if self.model is None and t_model is not None:
                self.model = t_model
            return True
        # both: explore True now, queue False
        self.work.append(self.trace + [False])
        self.trace.append(True)
        self.pos += 1
        self.prefix.append(True)
        self._record(n)
        self.model = t_model
        return True

    def choose(self, n, tag=""):
        """nondeterministic choice 0..n-1 (always all feasible)"""
        if n <= 1:
            return 0
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.trace.append(d)
            return d[1]
        for k in range(n - 1, 0, -1):
            self.work.append(self.trace + [("c", k)])
        self.trace.append(("c", 0))
        self.prefix.append(("c", 0))
        self.pos += 1
        self.stats.branches += 1
        return 0

    def concretize_int(self, x):
        """enumerate the feasible values of an integer term (forks)"""
        for _ in range(200):
            if self.pos < len(self.prefix):
                d = self.prefix[self.pos]
                if not (isinstance(d, tuple) and d[0] == "v"):
                    raise RuntimeError("non-deterministic re-execution")
                v = d[1]
            else:
                v = None
                if self.model is not None:
                    try:
                        num = x.n.eval(self.model)
                        den = 1
                        for f in x.d:
                            den = den * f.eval(self.model)
                        q = Fraction(num) / Fraction(den)
                        if q.denominator == 1:
                            v = int(q)
                    except (KeyError, ZeroDivisionError):
                        v = None
                if v is None:
                    r, mod = self._check(None, self.assert_timeout, True)
                    if r == z3.unsat:
                        raise PathAbort()
                    if mod is None:
                        raise PathLimit("cannot enumerate integer value")
                    if mod.exact:
                        self.model = mod
                    q = Fraction(x.n.eval(mod))
                    for f in x.d:
                        q = q / Fraction(f.eval(mod))
                    if q.denominator != 1:
                        raise PathLimit("non-integer model for integer term")
                    v = int(q)
                self.prefix.append(("v", v))
            self.pos += 1
            self.trace.append(("v", v))
            if bool(_cmp(x, v, "eq")):
                return v
        raise PathLimit("too many integer values")

    def concretize_real(self, x):
        self.degrade("float() of a symbolic real")
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos][1]
        else:
            if self.model is None:
                r, mod = self._check(None, self.assert_timeout, True)
                if r == z3.unsat:
                    raise PathAbort()
                if mod is None:
                    raise PathLimit("no model")
            else:
                mod = self.model
            q = Fraction(x.n.eval(mod))
            for f in x.d:
                q = q / Fraction(f.eval(mod))
            v = float(q)
            self.prefix.append(("v", v))
        self.pos += 1
        self.trace.append(("v", v))
        self.assume_fact(_cmp(x, v, "eq") if True else True)
        return v

    # -- assertions
    def prove(self, c, want_model=True, timeout=None):
        """('unsat', None) when c holds on every input of this path; ('sat', env); ('unknown', None)"""
        if isinstance(c, SNum):
            c = c != 0
        if not isinstance(c, SBool):
            if c:
                self.stats.assert_trivial += 1
                return "unsat", None
            if self.model is not None:
                return "sat", self.model
            r, mod = self._check(None, timeout or self.assert_timeout, True)
            if r == z3.unsat:
                return "unsat", None
            return ("sat", mod) if mod is not None else ("unknown", None)
        n = self._simplify(c.node)
        if n is True:
            self.stats.assert_trivial += 1
            return "unsat", None
        if n is False:
            return self.prove(False)
        if self.model is not None and self._eval(n) is False:
            return "sat", self.model
        if (self.nl or _nonlinear(n)) and self.lin_refutes(_nnot(n)):
            self.stats.assert_queries += 1
            return "unsat", None
        neg = _node_z3(_nnot(n))
        t = time.time()
        self.stats.assert_queries += 1
        to = timeout or self.assert_timeout
        res = "unknown"
        mod = None
        for logic, frac in (("", 0.3), ("QF_NRA", 1.0), ("", 1.0)):
            s = z3.SolverFor(logic) if logic else z3.Solver()
            s.set("timeout", int(to * frac))
            s.add(*self.facts)
            s.add(neg)
            r = s.check()
            if r == z3.unsat:
                res = "unsat"
                break
            if r == z3.sat:
                res = "sat"
                mod = self._getmodel(s.model())
                break
        self.stats.solver_s += time.time() - t
        if res == "unknown":
            self.stats.assert_unknown += 1
        return res, mod


class _DefaultEnv(dict):
    """model: variables the solver left out get 0"""

    exact = True

    def __missing__(self, k):
        return 0
