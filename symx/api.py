"""The harness API, in a symbolic and a concrete flavour.

A harness is a function h(c, **params).  Inputs come from c.real/int/bool/dt/choose/...,
preconditions go through c.assume, the property through c.check / c.check_eq.
"""
import datetime as _dt
import math
import os
import shutil
import tempfile
from fractions import Fraction

import numpy as rnp

TOL = 1e-6


class CheckFail(Exception):
    def __init__(self, label, detail=""):
        Exception.__init__(self, f"{label}: {detail}")
        self.label, self.detail = label, detail


class AssumeFail(BaseException):
    pass


class Base:
    def reals(self, name, shape, lo=None, hi=None, **kw):
        if isinstance(shape, int):
            shape = (shape,)
        o = rnp.empty(shape, dtype=object)
        for i in rnp.ndindex(*shape):
            o[i] = self.real(name + "_" + "_".join(map(str, i)), lo, hi, **kw)
        return self.arr(o.tolist(), float) if o.size else self.np.zeros(shape)

    def ints(self, name, shape, lo, hi, dtype=int):
        if isinstance(shape, int):
            shape = (shape,)
        o = rnp.empty(shape, dtype=object)
        for i in rnp.ndindex(*shape):
            o[i] = self.int(name + "_" + "_".join(map(str, i)), lo, hi)
        return self.arr(o.tolist(), dtype)

    def bools(self, name, shape):
        if isinstance(shape, int):
            shape = (shape,)
        o = rnp.empty(shape, dtype=object)
        for i in rnp.ndindex(*shape):
            o[i] = self.bool(name + "_" + "_".join(map(str, i)))
        return self.arr(o.tolist(), bool)

    def choose(self, name, options):
        options = list(options)
        return options[self.choice(name, len(options))]

    def arr(self, x, dtype=None):
        return self.np.array(x, dtype=dtype)

    def fail(self, label, detail=""):
        self.check(label, False, detail)

    def raises(self, label, exc, fn, *a, **k):
        """fn must raise exc"""
        try:
            fn(*a, **k)
        except exc:
            return
        self.fail(label, f"did not raise {exc}")

    def did_raise(self, exc, fn, *a, **k):
        try:
            return False, fn(*a, **k)
        except exc as e:
            return True, e

    def module(self, name):
        """a module of the code under test that is not imported with the package"""
        from . import load

        return load.extra(name)

    def table(self, path):
        """rows of a table (CSV) the code wrote: header, then values; None if there is no such file"""
        if self.symbolic:
            from . import plotfakes

            t = plotfakes.TABLES.get(str(path))
            return None if t is None else [list(r) for r in t]
        import csv

        if not os.path.exists(path):
            return None
        with open(path) as f:
            rows = list(csv.reader(f))
        return rows[:1] + [[float(x) for x in r] for r in rows[1:]]

    def tmp(self, name):
        p = os.path.join(self.tmpdir(), name)
        if "/" in name and not self.symbolic:
            os.makedirs(os.path.dirname(p), exist_ok=True)
        return p


# ------------------------------------------------------------------ symbolic
class SymCtx(Base):
    symbolic = True

    def __init__(self, engine, g):
        from . import core, fakes, sdt, snp

        self.e, self.g = engine, g
        self.np = snp.SHIM
        self.core, self.snp, self.sdt, self.fakes = core, snp, sdt, fakes
        self.inputs = {}
        self.results = []  # (label, verdict)
        self.candidates = []
        self.reached = 0
        self.nc4 = fakes.nc4

    # inputs
    def real(self, name, lo=None, hi=None, **kw):
        c = self.core
        x = c.SNum(c.pvar(c.VARS.get(name, False)))
        self.inputs[name] = ("real", x)
        if lo is not None:
            self.e.assume(x >= lo)
        if hi is not None:
            self.e.assume(x <= hi)
        return x

    def int(self, name, lo, hi):
        c = self.core
        x = c.SNum(c.pvar(c.VARS.get(name, True)), (), True)
        self.inputs[name] = ("int", x)
        self.e.assume(x >= lo)
        self.e.assume(x <= hi)
        return x

    def bool(self, name):
        c = self.core
        x = c.SNum(c.pvar(c.VARS.get(name, True)), (), True)
        self.inputs[name] = ("int", x)
        self.e.assume(x >= 0)
        self.e.assume(x <= 1)
        return x == 1

    def dt(self, name, lo=0, hi=10**8, us=False):
        """a datetime: whole seconds (or microseconds) since 2000-01-01"""
        if us:
            return self.sdt.SDT(self.int(name, lo * 10**6, hi * 10**6) / 10**6)
        return self.sdt.SDT(self.int(name, lo, hi))

    def td(self, name, lo, hi):
        return self.sdt.STD(self.int(name, lo, hi))

    def delta(self, s):
        """the time difference of s seconds"""
        return self.sdt.STD(s)

    def micros(self, s):
        """... of s microseconds"""
        return self.sdt.STD(self.snp.SNum.lift(s) / 10**6)

    def choice(self, name, n):
        k = self.e.choose(n)
        self.inputs[name] = ("choice", k)
        return k

    def dtarr(self, xs):
        o = rnp.empty(len(xs), dtype=object)
        for i, x in enumerate(xs):
            o[i] = x
        return self.snp.mk(o, rnp.dtype(object))

    def secs(self, x):
        s = self.sdt.secs(x)
        return s if s is not None else self.sdt.dsecs(x)

    # logic
    def And(self, *xs):
        return self.core.sall(self._b(x) for x in xs)

    def Or(self, *xs):
        return self.core.sany(self._b(x) for x in xs)

    def Not(self, x):
        return self.core.snot(self._b(x))

    def Implies(self, a, b):
        return self.core.sor(self.core.snot(self._b(a)), self._b(b))

    def _b(self, x):
        if isinstance(x, self.snp.A):
            return self.core.sall(self._b(e) for e in x.raw.reshape(-1))
        if isinstance(x, self.snp.Masked):
            return False
        return x

    def assume(self, x):
        self.e.assume(self._b(x))

    def fork(self, x):
        return bool(self._b(x))

    def declare_point(self, pt, corners):
        """promise: pt lies strictly inside the convex polygon (None: in no cell; the caller assumes what that takes)"""
        if corners is not None:
            cs = [self.fakes.cross(corners[k], corners[(k + 1) % len(corners)], pt) for k in range(len(corners))]
            if self.fork(cs[0] > 0):
                self.e.assume(self.core.sall(x > 0 for x in cs))
            else:
                self.e.assume(self.core.sall(x < 0 for x in cs))
        self.fakes.declare_point((pt[0], pt[1]), corners)

    # property
    def check(self, label, cond, detail=""):
        cond = self._b(cond)
        self.reached += 1
        v, m = self.e.prove(cond)
        self._verdict(label, v, m, detail, cond)
        if v == "sat" and not isinstance(cond, self.core.SBool):
            raise CheckFail(label, detail)
        if isinstance(cond, self.core.SBool):
            self.e.assume(cond)

    def _verdict(self, label, v, m, detail="", cond=None):
        self.results.append((label, v))
        if v == "sat":
            neg = self.core._node_z3(self.core._nnot(cond.node)) if isinstance(cond, self.core.SBool) else None
            self.candidates.append((label, m, detail, list(self.e.facts), neg))

    def check_le(self, label, a, b, tol=TOL, detail=""):
        """a <= b; the real run allows for rounding"""
        return self.check(label, a <= b, detail)

    def check_eq(self, label, a, b, tol=TOL, detail=""):
        """equal shapes, equal masks, equal values where unmasked"""
        S = self.snp
        self.reached += 1
        if a is S.masked or b is S.masked:
            return self.check(label, a is b, f"masked: {a!r} vs {b!r}")
        A, Bb = S.asAny(a), S.asAny(b)
        if A.shape != Bb.shape:
            return self.check(label, False, f"shape {A.shape} vs {Bb.shape}")
        ma, mb = S.getmaskarray(A), S.getmaskarray(Bb)
        exact, tols = [], []
        for i in rnp.ndindex(*A.shape):
            x, y, p, q = A.raw[i], Bb.raw[i], ma.raw[i] if ma.ndim else ma.raw[()], mb.raw[i]
            cm = self.core._xnor(p, q)
            e, t = self._eq(x, y, tol)
            if p is False and q is False:
                exact.append(e)
                tols.append(t)
            else:
                both = self.core.sand(p, q)
                exact.append(self.core.sand(cm, self.core.sor(both, e)))
                tols.append(self.core.sand(cm, self.core.sor(both, t)))
        ex, tl = self.core.sall(exact), self.core.sall(tols)
        if ex is True or tl is True:
            self.e.stats.assert_trivial += 1
            self._verdict(label, "unsat", None)
            return
        if tl is False:
            return self.check(label, False, f"{a!r} vs {b!r}"[:300])
        if isinstance(ex, self.core.SBool):
            v, m = self.e.prove(ex, timeout=self.e.assert_timeout // 2)
            if v == "unsat":
                self._verdict(label, v, m)
                return
        v, m = self.e.prove(tl)
        self._verdict(label, v, m, "values differ", tl)
        if isinstance(tl, self.core.SBool):
            self.e.assume(tl)

    def _eq(self, x, y, tol):
        Sym = self.core.Sym
        if not isinstance(x, Sym) and not isinstance(y, Sym):
            r = _ceq(x, y, tol)
            return r, r
        if isinstance(x, float) and not math.isfinite(x) or isinstance(y, float) and not math.isfinite(y):
            return False, False
        if isinstance(x, (self.sdt.SDT, self.sdt.STD)) or isinstance(y, (self.sdt.SDT, self.sdt.STD)):
            r = self.snp.s_eq(x, y)
            return r, r
        if isinstance(x, self.core.SBool) or isinstance(y, self.core.SBool):
            r = self.snp.s_eq(x, y)
            return r, r
        L = self.core.SNum.lift
        lx, ly = L(x), L(y)
        if lx is None or ly is None:
            r = self.snp.s_eq(x, y)
            return r, r
        d = lx - ly
        if d.const() is not None:
            return d.const() == 0, abs(d.const()) <= tol
        t = Fraction(tol)
        return d == 0, self.core.sand(d <= t, d >= -t)

    def eq(self, x, y, tol=TOL):
        """condition: scalars equal (up to rounding)"""
        e, t = self._eq(x, y, tol)
        return e

    def is_masked(self, x):
        return x is self.snp.masked

    def tmpdir(self):
        return "/symbolic"

    def open(self, *a):
        from . import fakes

        return fakes.sopen(*a)

    def lazy_hash(self):
        """every integer used as a key in this run is symbolic"""
        self.core.LAZY_HASH = True

    def observe(self, **kw):
        pass

    def snapshot(self, a):
        """copy of an array for later comparison"""
        return self.snp.asAny(a).copy()


def _ceq(x, y, tol):
    try:
        fx, fy = float(x), float(y)
    except (TypeError, ValueError):
        return bool(x == y)
    if math.isnan(fx) or math.isnan(fy):
        return math.isnan(fx) and math.isnan(fy)
    if math.isinf(fx) or math.isinf(fy):
        return fx == fy
    return abs(fx - fy) <= tol * max(1.0, abs(fx), abs(fy))


# ------------------------------------------------------------------ concrete
class ConCtx(Base):
    symbolic = False

    def __init__(self, values, g):
        import netCDF4

        self.v, self.g = values, g
        self.np = rnp
        self.nc4 = netCDF4
        self.reached = 0
        self._tmp = None
        self.obs = {}

    def _get(self, name, lo, hi, kind):
        v = self.v.get(name)
        if v is None:
            if lo is None and hi is None:
                v = 0
            elif lo is None:
                v = hi
            else:
                v = lo
        if isinstance(v, str):
            v = Fraction(v)
        return v

    def real(self, name, lo=None, hi=None, **kw):
        x = float(self._get(name, lo, hi, "real"))
        if (lo is not None and x < lo - 1e-12) or (hi is not None and x > hi + 1e-12):
            raise AssumeFail()
        return x

    def int(self, name, lo, hi):
        x = int(self._get(name, lo, hi, "int"))
        if x < lo or x > hi:
            raise AssumeFail()
        return x

    def bool(self, name):
        return bool(int(self._get(name, 0, 1, "int")))

    def dt(self, name, lo=0, hi=10**8, us=False):
        if us:
            return _dt.datetime(2000, 1, 1) + _dt.timedelta(microseconds=self.int(name, lo * 10**6, hi * 10**6))
        return _dt.datetime(2000, 1, 1) + _dt.timedelta(seconds=self.int(name, lo, hi))

    def td(self, name, lo, hi):
        return _dt.timedelta(seconds=self.int(name, lo, hi))

    def delta(self, s):
        return _dt.timedelta(seconds=s.item() if hasattr(s, "item") else s)

    def micros(self, s):
        return _dt.timedelta(microseconds=s.item() if hasattr(s, "item") else s)

    def choice(self, name, n):
        k = int(self._get(name, 0, n - 1, "choice"))
        if not 0 <= k < n:
            raise AssumeFail()
        return k

    def dtarr(self, xs):
        o = rnp.empty(len(xs), dtype=object)
        for i, x in enumerate(xs):
            o[i] = x
        return o

    def secs(self, x):
        if isinstance(x, _dt.timedelta):
            return x.total_seconds()
        return (x - _dt.datetime(2000, 1, 1)).total_seconds()

    def And(self, *xs):
        return all(self._b(x) for x in xs)

    def Or(self, *xs):
        return any(self._b(x) for x in xs)

    def Not(self, x):
        return not self._b(x)

    def Implies(self, a, b):
        return (not self._b(a)) or self._b(b)

    def _b(self, x):
        if isinstance(x, rnp.ma.MaskedArray):
            return bool(x.all()) if x is not rnp.ma.masked else False
        if isinstance(x, rnp.ndarray):
            return bool(x.all())
        return bool(x)

    def assume(self, x):
        if not self._b(x):
            raise AssumeFail()

    def fork(self, x):
        return self._b(x)

    def declare_point(self, pt, corners):
        """the promise made to the stub must hold for the concrete values"""
        if corners is None:
            return
        n = len(corners)
        s = []
        for k in range(n):
            (ox, oy), (ax, ay) = corners[k], corners[(k + 1) % n]
            s.append((ax - ox) * (pt[1] - oy) - (ay - oy) * (pt[0] - ox))
        big = max(abs(float(q)) for c in list(corners) + [pt] for q in c)
        m = 1e-10 * big * max(abs(float(a[i] - b[i])) for a in corners for b in corners for i in (0, 1))  # beyond rounding
        if not (all(x > m for x in s) or all(x < -m for x in s)):
            raise AssumeFail()

    def check(self, label, cond, detail=""):
        self.reached += 1
        if not self._b(cond):
            raise CheckFail(label, detail)

    def check_eq(self, label, a, b, tol=TOL, detail=""):
        self.reached += 1
        if a is rnp.ma.masked or b is rnp.ma.masked:
            if a is not b:
                raise CheckFail(label, f"{a!r} vs {b!r}")
            return
        A, Bb = rnp.asanyarray(a), rnp.asanyarray(b)
        if A.shape != Bb.shape:
            raise CheckFail(label, f"shape {A.shape} vs {Bb.shape}: {a!r} vs {b!r}")
        ma, mb = rnp.ma.getmaskarray(A), rnp.ma.getmaskarray(Bb)
        A, Bb = rnp.asarray(A), rnp.asarray(Bb)
        for i in rnp.ndindex(*A.shape):
            if bool(ma[i]) != bool(mb[i]) or (not ma[i] and not _ceq(A[i], Bb[i], tol)):
                raise CheckFail(label, f"at {i}: {a!r} vs {b!r}")

    def check_le(self, label, a, b, tol=TOL, detail=""):
        return self.check(label, a <= b + tol * max(1.0, abs(a), abs(b)), detail)

    def eq(self, x, y, tol=TOL):
        return _ceq(x, y, tol)

    def is_masked(self, x):
        return x is rnp.ma.masked

    def lazy_hash(self):
        pass

    def open(self, *a):
        return open(*a)

    def tmpdir(self):
        if self._tmp is None:
            self._tmp = tempfile.mkdtemp(prefix="vfcc_")
        return self._tmp

    def cleanup(self):
        if self._tmp:
            shutil.rmtree(self._tmp, ignore_errors=True)
            self._tmp = None

    def observe(self, **kw):
        self.obs.update({k: repr(v)[:500] for k, v in kw.items()})

    def snapshot(self, a):
        return rnp.array(a, copy=True, subok=True)
