"""Contract stubs for the libraries below gridded: netCDF4 (an in-memory store with the
library's masking rules), cell_tree2d, scipy.spatial.cKDTree, RegularGridInterpolator."""
import datetime as _dt
import io as _io
import math
import os
import types
from collections import OrderedDict

import numpy as rnp

from . import core, plotfakes, sdt, snp
from .core import SNum, Sym, sall, sand, snot
from .snp import A, B1, MA, SHIM, asA, has_sym, masked, mk, nomask

FS = {}  # path -> _Store


class _Store:
    def __init__(self):
        self.dims = OrderedDict()
        self.vars = OrderedDict()
        self.atts = OrderedDict()
        self.fmt = "NETCDF4"


DEFAULT_FILL = {"S1": b"\x00", "i1": -127, "u1": 255, "i2": -32767, "u2": 65535, "i4": -2147483647, "u4": 4294967295,
                "i8": -9223372036854775806, "u8": 18446744073709551614, "f4": 9.969209968386869e36, "f8": 9.969209968386869e36}


def _attr_in(v):
    if isinstance(v, (str, bytes)):
        return v.decode() if isinstance(v, bytes) else v
    if isinstance(v, Sym):
        return v
    if isinstance(v, (bool, rnp.bool_)):
        raise TypeError("illegal data type for attribute, must be one of ..., got b1")
    if isinstance(v, dict) or v is None:
        raise TypeError("illegal data type for attribute")
    if isinstance(v, (list, tuple)) and v and all(isinstance(x, str) for x in v):
        return list(v) if len(v) > 1 else v[0]
    a = asA(v)
    if a.size == 1:
        return a.reshape(-1)[0]
    return a.reshape(-1).copy()


def _st(o, **kw):
    for k, v in kw.items():
        object.__setattr__(o, k, v)


class _Atts:
    @property
    def __dict__(self):
        return OrderedDict(self._atts)

    def ncattrs(self):
        return list(self._atts)

    def getncattr(self, n, **k):
        try:
            return self._atts[n]
        except KeyError:
            raise AttributeError(f"NetCDF: Attribute not found: {n}")

    def setncattr(self, n, v):
        self._atts[n] = _attr_in(v)

    def setncatts(self, d):
        for k, v in d.items():
            self.setncattr(k, v)

    def delncattr(self, n):
        del self._atts[n]

    def setncattr_string(self, n, v):
        self.setncattr(n, v)


class Dimension:
    def __init__(self, name, size, ds):
        self.name, self._size, self._ds = name, size, ds
        self._cur = 0  # current length, if unlimited

    def __len__(self):
        return self._cur if self._size is None else self._size

    @property
    def size(self):
        return len(self)

    def isunlimited(self):
        return self._size is None

    def group(self):
        return self._ds


class Variable(_Atts):
    _priv = ("_atts", "_d", "name", "dimensions", "_grp", "_dt", "mask", "scale", "always_mask", "_written")

    def __init__(self, ds, name, dt, dims, fill_value=None):
        _st(self, _atts=OrderedDict(), _grp=ds, name=name, dimensions=tuple(dims), _dt=dt, mask=True, scale=True, always_mask=True)
        if fill_value is not None and fill_value is not False:
            self._atts["_FillValue"] = dt.type(fill_value) if dt.kind in "iuf" and not isinstance(fill_value, Sym) else fill_value
        shape = tuple(len(ds._store.dims[x]) for x in dims)
        fv = self._fill()
        _st(self, _d=snp.full_(shape, fv if fv is not None else snp._zero_of(dt), dt) if dt.kind != "O" else snp.full_(shape, "", dt))

    def _fill(self):
        if "_FillValue" in self._atts:
            v = self._atts["_FillValue"]
            return v.item() if isinstance(v, rnp.generic) else v
        return DEFAULT_FILL.get(self._dt.kind + str(self._dt.itemsize)) if self._dt.kind in "iuf" else None

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        if n != "_atts" and n in self._atts:
            return self._atts[n]
        raise AttributeError(f"NetCDF: Attribute not found: {n}")

    def __setattr__(self, n, v):
        if n in self._priv:
            object.__setattr__(self, n, v)
        else:
            self.setncattr(n, v)

    def __delattr__(self, n):
        del self._atts[n]

    @property
    def shape(self):
        return self._d.shape

    @property
    def ndim(self):
        return self._d.ndim

    @property
    def size(self):
        return self._d.size

    @property
    def dtype(self):
        return self._dt if self._dt.kind != "O" else str

    @property
    def datatype(self):
        return self._dt

    def __len__(self):
        if not self.shape:
            raise TypeError("len() of unsized object")
        return self.shape[0]

    def group(self):
        return self._grp

    def set_auto_mask(self, b):
        _st(self, mask=b)

    def set_auto_maskandscale(self, b):
        _st(self, mask=b)

    def set_always_mask(self, b):
        _st(self, always_mask=b)

    def set_auto_scale(self, b):
        _st(self, scale=b)

    def filters(self):
        return {}

    def chunking(self):
        return "contiguous"

    def get_dims(self):
        return tuple(self._grp.dimensions[d] for d in self.dimensions)

    def __symarray__(self):
        return self[...]

    def _orth(self, key):
        """netCDF (orthogonal) indexing -> numpy basic/ix_ indexing steps"""
        if not isinstance(key, tuple):
            key = (key,)
        nd = self._d.ndim
        if any(k is Ellipsis for k in key):
            i = [k is Ellipsis for k in key].index(True)
            key = key[:i] + (slice(None),) * (nd - len(key) + 1) + key[i + 1:]
        key = key + (slice(None),) * (nd - len(key))
        if len(key) > nd:
            raise IndexError("too many indices")
        return key

    def __getitem__(self, key):
        self._grp._chk()
        if self._d.ndim == 0:
            d = mk(self._d.raw.copy(), self._dt)
        elif isinstance(key, A) and not isinstance(key, MA) and key._dt.kind == "b" and key.ndim == self._d.ndim and key.ndim > 1:
            d = self._d[key]
        else:
            key = self._orth(key)
            d = self._d
            ax = 0
            for k in key:
                k = snp.conc_index(k)
                if isinstance(k, (int, rnp.integer)):
                    n = d.shape[ax]
                    if k >= n or k < -n:
                        raise IndexError("index exceeds dimension bounds")
                    d = mk(d.raw.take(int(k), axis=ax), self._dt) if d.ndim > 1 else mk(rnp.array(d.raw[int(k)], dtype=object).reshape(()), self._dt)
                elif isinstance(k, slice):
                    d = d[(slice(None),) * ax + (k,)]
                    ax += 1
                else:
                    k = rnp.asarray(k)
                    if k.ndim > 1:
                        raise IndexError("Index cannot be multidimensional")
                    d = d[(slice(None),) * ax + (k,)]
                    ax += 1
            d = d.copy() if isinstance(d, A) else asA(d)
        if self._dt.kind == "O":
            return d if d.ndim else d.raw[()]
        if not self.mask:
            return d
        m = self._maskof(d)
        if "scale_factor" in self._atts or "add_offset" in self._atts:
            d = d * self._atts.get("scale_factor", 1) + self._atts.get("add_offset", 0)
        if m is nomask and not self.always_mask:
            return d
        r = MA._make(d, m)
        if "_FillValue" in self._atts:
            r._fill_value = self._atts["_FillValue"]
        return r

    def _maskof(self, d):
        m = nomask
        if self._dt.kind not in "iuf":
            return m
        vals = []
        if "missing_value" in self._atts:
            mv = self._atts["missing_value"]
            vals += list(mv) if isinstance(mv, A) and mv.ndim else [mv]
        f = self._fill()
        if f is not None and not (self._dt.itemsize == 1 and "_FillValue" not in self._atts):
            vals.append(f)
        for v in vals:
            if isinstance(v, (float, rnp.floating)) and math.isnan(v):
                c = SHIM.isnan(d)
            else:
                c = SHIM.equal(d, v)
            c = asA(c)
            cc = snp.conc_index(c)
            if cc.any():
                m = snp.mask_or(m, c)
        for n, op in (("valid_min", "less"), ("valid_max", "greater")):
            if n in self._atts:
                c = asA(getattr(SHIM, op)(d, self._atts[n]))
                if snp.conc_index(c).any():
                    m = snp.mask_or(m, c)
        return m

    def __setitem__(self, key, value):
        self._grp._chk()
        if self.scale and ("scale_factor" in self._atts or "add_offset" in self._atts):
            value = (snp.asAny(value) - self._atts.get("add_offset", 0)) / self._atts.get("scale_factor", 1)
            if self._dt.kind in "iu":
                value = SHIM.around(value)
        if isinstance(value, MA):
            f = self._atts.get("missing_value", self._atts.get("_FillValue"))
            if f is None:
                f = DEFAULT_FILL.get(self._dt.kind + str(self._dt.itemsize), 0)
            value = value.filled(f.item() if isinstance(f, rnp.generic) else f)
        if self._d.ndim == 0:
            v = asA(value)
            self._d[...] = v.reshape(-1)[0] if v.size else 0
            return
        key = self._orth(key)
        v = asA(value)
        # growth along an unlimited dimension
        dims = [self._grp._store.dims[x] for x in self.dimensions]
        if dims[0].isunlimited() and v.ndim == self._d.ndim and isinstance(key[0], slice) and key[0] == slice(None):
            n = v.shape[0]
            if n != self._d.shape[0]:
                _st(self, _d=snp.full_((n,) + self._d.shape[1:], self._fill() or 0, self._dt))
            dims[0]._cur = max(dims[0]._cur, n)
        if v.ndim > self._d.ndim:
            v = v.reshape([s for s in v.shape if s != 1])
        tgt = self._d[tuple(snp.conc_index(k) for k in key)]
        if isinstance(tgt, A) and v.size == tgt.size and v.shape != tgt.shape and v.size > 1:
            v = v.reshape(tgt.shape)
        self._d[tuple(key)] = v


class _Vars(OrderedDict):
    pass


class Dataset(_Atts):
    _priv = ("_store", "_path", "_open", "_atts", "variables", "dimensions", "groups", "data_model", "disk_format", "file_format", "_mode")

    def __init__(self, filename=None, mode="r", clobber=True, format="NETCDF4", diskless=False, memory=None, **kw):
        filename = os.fspath(filename) if filename is not None else "inmemory"
        if mode in ("w", "ws", "x"):
            FS[filename] = _Store()
        elif filename not in FS:
            if mode in ("a", "r+") and mode == "a":
                FS[filename] = _Store()
            else:
                raise FileNotFoundError(2, "No such file or directory", filename)
        s = FS[filename]
        if mode in ("w", "ws", "x"):
            if format not in ("NETCDF4", "NETCDF4_CLASSIC", "NETCDF3_CLASSIC", "NETCDF3_64BIT", "NETCDF3_64BIT_OFFSET", "NETCDF3_64BIT_DATA"):
                raise ValueError("format must be one of 'NETCDF4', ...")
            s.fmt = {"NETCDF3_64BIT": "NETCDF3_64BIT_OFFSET"}.get(format, format)
        format = s.fmt
        _st(self, _store=s, _path=filename, _open=True, _mode=mode, _atts=s.atts, dimensions=s.dims, groups={}, data_model=format, file_format=format)
        vs = OrderedDict()
        for n, v in s.vars.items():
            w = Variable.__new__(Variable)
            _st(w, _atts=v._atts, name=v.name, dimensions=v.dimensions, _dt=v._dt, _d=v._d, _grp=self, mask=True, scale=True, always_mask=True)
            vs[n] = w
        _st(self, variables=vs)

    def _chk(self):
        if not self._open:
            raise RuntimeError("NetCDF: Not a valid ID")

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        if n != "_atts" and n in self._atts:
            return self._atts[n]
        raise AttributeError(f"NetCDF: Attribute not found: {n}")

    def __setattr__(self, n, v):
        if n in self._priv:
            object.__setattr__(self, n, v)
        else:
            self.setncattr(n, v)

    def __getitem__(self, k):
        if k in self.variables:
            return self.variables[k]
        raise IndexError(f"{k} not found in /")

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        _st(self, _open=False)

    def isopen(self):
        return self._open

    def sync(self):
        self._chk()

    def filepath(self, *a):
        return self._path

    def set_auto_mask(self, b):
        for v in self.variables.values():
            v.set_auto_mask(b)

    set_auto_maskandscale = set_auto_mask

    def set_always_mask(self, b):
        for v in self.variables.values():
            v.set_always_mask(b)

    def set_fill_off(self):
        pass

    def createDimension(self, name, size=None):
        self._chk()
        if name in self._store.dims:
            raise RuntimeError("NetCDF: String match to name in use")
        if size is not None:
            size = int(size)
            if size == 0:
                size = None  # size 0 means unlimited
        self._store.dims[name] = Dimension(name, size, self)
        return self._store.dims[name]

    def createVariable(self, varname, datatype, dimensions=(), fill_value=None, **kw):
        self._chk()
        if varname in self._store.vars:
            raise RuntimeError("NetCDF: String match to name in use")
        if isinstance(dimensions, (str, Dimension)):
            dimensions = (dimensions,)
        dims = tuple(d.name if isinstance(d, Dimension) else d for d in dimensions)
        for x in dims:
            if x not in self._store.dims:
                raise ValueError(f"cannot find dimension {x} in this group or parent groups")
        if datatype is str:
            dt = rnp.dtype(object)
        else:
            dt = snp._dtype(datatype)
            if dt.kind == "b":
                raise TypeError("illegal primitive data type, must be one of ..., got bool")
            if dt.kind == "O":
                raise TypeError("illegal primitive data type, must be one of ..., got object")
            if self._store.fmt in ("NETCDF3_CLASSIC", "NETCDF3_64BIT_OFFSET") and (dt.kind == "u" or dt.kind == "i" and dt.itemsize == 8):
                raise RuntimeError("NetCDF: Attempting netcdf-4 operation on strict nc3 netcdf-4 file")
        v = Variable(self, varname, dt, dims, fill_value)
        self._store.vars[varname] = v
        self.variables[varname] = v
        return v

    def renameVariable(self, a, b):
        v = self._store.vars.pop(a)
        self._store.vars[b] = v
        self.variables.pop(a)
        self.variables[b] = v
        _st(v, name=b)

    def get_variables_by_attributes(self, **kw):
        r = []
        for v in self.variables.values():
            ok = True
            for k, x in kw.items():
                a = v._atts.get(k)
                if callable(x):
                    ok = ok and x(a)
                else:
                    ok = ok and a is not None and bool(a == x)
            if ok:
                r.append(v)
        return r


class _MFVariable:
    """a variable of several files, joined along the unlimited dimension; like the library's it is no Variable and has no getncattr"""

    def __init__(self, grp, parts):
        v = Variable.__new__(Variable)
        m = parts[0]
        d = SHIM.concatenate([p._d for p in parts], axis=0)
        _st(v, _atts=m._atts, name=m.name, dimensions=m.dimensions, _dt=m._dt, _d=d, _grp=grp, mask=True, scale=True, always_mask=False)
        self._v, self._grp, self.dimensions, self.dtype = v, grp, m.dimensions, m._dt

    def __getattr__(self, n):
        if n in ("shape", "ndim", "name"):
            return getattr(self._v, n)
        if not n.startswith("__") and n != "_v" and n in self._v._atts:
            return self._v._atts[n]
        raise AttributeError(n)

    def ncattrs(self):
        return self._v.ncattrs()

    def __len__(self):
        return len(self._v)

    def __getitem__(self, key):
        k = self._v._orth(key)
        if isinstance(k[0], slice) and k[0].step is not None and k[0].step < 0:
            raise IndexError("negative strides not allowed when slicing MFVariable Variable instance")
        return self._v[key]

    def __symarray__(self):
        return self[...]

    def set_auto_mask(self, b):
        self._v.set_auto_mask(b)

    set_auto_maskandscale = set_auto_mask

    def set_always_mask(self, b):
        self._v.set_always_mask(b)


class MFDataset(Dataset):
    def __init__(self, files, *a, **k):
        if isinstance(files, (str, os.PathLike)):
            raise core.Undecidable("MFDataset of a pattern")
        if not files:
            raise OSError("no files specified (file list is empty)")
        ds = [Dataset(f) for f in files]
        m = ds[0]
        un = [n for n, d in m.dimensions.items() if d.isunlimited()]
        if not un:
            raise OSError(f"master dataset {files[0]} does not have a aggregation dimension")
        dims = OrderedDict(m.dimensions)
        dims[un[0]] = Dimension(un[0], None, self)
        dims[un[0]]._cur = sum(len(d.dimensions[un[0]]) for d in ds)
        _st(self, _store=m._store, _path=None, _open=True, _mode="r", _atts=m._atts, dimensions=dims, groups={}, data_model="NETCDF4_CLASSIC", file_format="NETCDF4_CLASSIC")
        vs = OrderedDict()
        for n, v in m.variables.items():
            vs[n] = _MFVariable(self, [d.variables[n] for d in ds]) if v.dimensions and v.dimensions[0] == un[0] else v
        _st(self, variables=vs)

    def getncattr(self, n, **k):
        raise AttributeError("NetCDF: Not a valid ID")

    def filepath(self, *a):
        raise RuntimeError("NetCDF: Not a valid ID")

    def get_variables_by_attributes(self, **kw):
        r = []
        for v in self.variables.values():
            if all((x(getattr(v, k, None)) if callable(x) else hasattr(v, k) and bool(getattr(v, k) == x)) for k, x in kw.items()):
                r.append(v)
        return r


_UNITS = {"seconds": 1, "second": 1, "sec": 1, "s": 1, "secs": 1, "minutes": 60, "minute": 60, "min": 60, "mins": 60,
          "hours": 3600, "hour": 3600, "h": 3600, "hr": 3600, "hrs": 3600, "days": 86400, "day": 86400, "d": 86400}


def num2date(times, units, calendar=None, only_use_cftime_datetimes=True, only_use_python_datetimes=False, **kw):
    import netCDF4 as real

    unit = units.partition(" since ")[0]
    base = real.num2date(0, units, only_use_cftime_datetimes=False, only_use_python_datetimes=True)
    k = _UNITS[unit.strip().lower()]
    b = sdt.secs(base)
    a = asA(times)
    o = rnp.empty(a.shape, dtype=object)
    for i in rnp.ndindex(*a.shape):
        x = SNum.lift(a.raw[i])
        o[i] = sdt.SDT(b + x * k)
    r = mk(o, rnp.dtype(object))
    if isinstance(times, MA):
        r = MA._make(r, times._mask) if times._mask is not nomask else MA._make(r, nomask)
    return r if a.ndim else r.raw[()]


def date2num(*a, **k):
    raise core.Undecidable("date2num")


nc4 = types.ModuleType("netCDF4")
nc4.__dict__.update(Dataset=Dataset, MFDataset=MFDataset, Variable=Variable, num2date=num2date, date2num=date2num,
                    Dimension=Dimension, Group=Dataset, __version__="1.7.5", default_fillvals=DEFAULT_FILL,
                    _netCDF4=types.SimpleNamespace(Variable=Variable, Dataset=Dataset))


# ------------------------------------------------------------------ spatial
HINTS = []  # (point (x, y), corners [(x, y)...] | None)


def declare_point(pt, corners):
    """the harness promises: pt lies strictly inside the cell with these corners (None: in no cell)"""
    HINTS.append((pt, corners))


def _same(a, b):
    """identical as terms (no fork)"""
    a, b = SNum.lift(a), SNum.lift(b)
    if a is None or b is None:
        return False
    return (a - b).const() == 0


def _samept(p, q):
    return _same(p[0], q[0]) and _same(p[1], q[1])


class CellTree:
    def __init__(self, verts, faces, num_buckets=8, cells_per_leaf=2, **kw):
        v, f = asA(verts), asA(faces)
        if v.ndim != 2 or v.shape[1] != 2:
            raise ValueError("verts must be an Nx2 numpy array of floats")
        if f.ndim != 2:
            raise ValueError("faces must be an NxM numpy array of integers")
        self.v = v.raw.copy()
        self.f = snp.conc_index(f.astype(int)).copy()
        self.n = self.v.shape[0]
        if self.f.size and (self.f.max() >= self.n):
            raise ValueError("faces refer to vertices beyond the end of verts")
        self.verts, self.faces = v, f

    def poly(self, i):
        idx = [k for k in self.f[i] if k >= 0]
        return [tuple(self.v[k]) for k in idx]

    def locate(self, points):
        p = asA(points)
        if p.ndim == 1:
            p = p.reshape(1, -1)
        if p.ndim != 2 or p.shape[1] != 2:
            raise ValueError("points must be an Nx2 array")
        out = rnp.full((p.shape[0],), -1, dtype=rnp.int32)
        for i in range(p.shape[0]):
            out[i] = self._one(tuple(p.raw[i]))
        return snp.from_real(out)

    def _one(self, pt):
        if any(isinstance(c, float) and not math.isfinite(c) for c in pt):
            return -1
        for hp, corners in HINTS:
            if _samept(hp, pt):
                if corners is None:
                    return -1
                for i in range(len(self.f)):
                    poly = self.poly(i)
                    if len(poly) == len(corners) and all(any(_samept(a, b) for b in corners) for a in poly):
                        return i
                return -1
        for i in range(len(self.f)):
            if point_in_convex(pt, self.poly(i)):
                return i
        return -1


def cross(o, a, b):
    ox, oy = map(SNum.lift, o)
    ax, ay = map(SNum.lift, a)
    bx, by = map(SNum.lift, b)
    return (ax - ox) * (by - oy) - (ay - oy) * (bx - ox)


def point_in_convex(pt, poly):
    """inside a convex polygon of either winding (forks)"""
    if any(isinstance(c, float) and not math.isfinite(c) for q in poly for c in q):
        return False
    n = len(poly)
    cs = [cross(poly[k], poly[(k + 1) % n], pt) for k in range(n)]
    pos = sall([c >= 0 for c in cs])
    neg = sall([c <= 0 for c in cs])
    return bool(core.sor(pos, neg))


class cKDTree:
    def __init__(self, data, *a, **k):
        self.d = asA(data).raw.copy()
        for e in self.d.flat:
            if isinstance(e, float) and not math.isfinite(e):
                raise ValueError("data must be finite, check for nan or inf values")
        self.n, self.m = self.d.shape
        self.data = asA(data)

    def _exact(self, r):
        """integers: the row equal to r; if there is none, any row and any distance of at least 1 (saves comparing squares)"""
        vals = [SNum.lift(v) for v in list(r) + list(self.d.flat)]
        if not any(v.isint and v.const() is None for v in vals) or not all(v.isint for v in vals):
            return None
        for i in range(self.n):
            if bool(core.sall(SNum.lift(a) == SNum.lift(b) for a, b in zip(r, self.d[i]))):
                return 0.0, i
        e = core.E()
        k, d = e.fresh_int("kd"), e.fresh_real("kdist")
        e.assume(core.sall([k >= 0, k < self.n, d >= 1]))
        return d, k

    def query(self, x, k=1, **kw):
        if k != 1:
            raise core.Undecidable("cKDTree k")
        x = asA(x)
        single = x.ndim == 1
        p = x.reshape(-1, self.m)
        ds, ix = [], []
        for r in p.raw:
            hit = self._exact(r)
            if hit is not None:
                ds.append(hit[0])
                ix.append(hit[1])
                continue
            best, bd = 0, None
            for i in range(self.n):
                d = SNum.lift(0)
                for a, b in zip(r, self.d[i]):
                    d = d + (SNum.lift(a) - SNum.lift(b)) * (SNum.lift(a) - SNum.lift(b))
                if bd is None or bool(d < bd):
                    best, bd = i, d
            ds.append(core.ssqrt(bd))
            ix.append(best)
        if single:
            return ds[0], rnp.int64(ix[0])
        sh = x.shape[:-1]
        return asA(ds).reshape(sh), asA(ix).reshape(sh)


class RegularGridInterpolator:
    def __init__(self, points, values, method="linear", bounds_error=True, fill_value=math.nan, **kw):
        if method != "linear":
            raise core.Undecidable("RegularGridInterpolator " + method)
        self.v = asA(values)
        self.ax = []
        if isinstance(values, MA):
            self.v = values.data_A()
        for i, p in enumerate(points):
            a = list(asA(p).raw)
            up = all(bool(a[j + 1] > a[j]) for j in range(len(a) - 1))
            if not up:
                if not all(bool(a[j + 1] < a[j]) for j in range(len(a) - 1)):
                    raise ValueError(f"The points in dimension {i} must be strictly ascending or descending")
                a = a[::-1]
                self.v = SHIM.flip(self.v, i)
            self.ax.append(a)
        if len(self.ax) > self.v.ndim:
            raise ValueError(f"There are {len(self.ax)} point arrays, but values has {self.v.ndim} dimensions")
        for i, a in enumerate(self.ax):
            if len(a) != self.v.shape[i]:
                raise ValueError(f"There are {len(a)} points and {self.v.shape[i]} values in dimension {i}")
        self.bounds_error, self.fill = bounds_error, fill_value

    def __call__(self, xi, method=None):
        xi = asA(xi) if not isinstance(xi, tuple) else SHIM.stack([asA(c) for c in xi], axis=-1)
        nd = len(self.ax)
        if xi.ndim == 1:
            xi = xi.reshape(1, -1)
        if xi.shape[-1] != nd:
            raise ValueError(f"The requested sample points xi have dimension {xi.shape[-1]} but this RegularGridInterpolator has dimension {nd}")
        sh = xi.shape[:-1]
        p = xi.reshape(-1, nd).raw
        res = rnp.empty(len(p), dtype=object)
        for k, pt in enumerate(p):
            ws, ok = [], True
            for c, a in zip(pt, self.ax):
                if isinstance(c, float) and c != c:
                    ok = False
                    break
                if bool(c < a[0]) or bool(c > a[-1]):
                    if self.bounds_error:
                        raise ValueError("One of the requested xi is out of bounds")
                    ok = False
                    break
                j = min(max(snp._search(a, c, "right") - 1, 0), len(a) - 2)
                w = (SNum.lift(c) - SNum.lift(a[j])) / (SNum.lift(a[j + 1]) - SNum.lift(a[j]))
                ws.append((j, w))
            if not ok:
                res[k] = self.fill
                if self.fill is None:
                    raise core.Undecidable("extrapolating interpolator")
                continue
            acc = SNum.lift(0)
            for corner in rnp.ndindex(*(2,) * nd):
                w = SNum.lift(1)
                idx = []
                for (j, f), b in zip(ws, corner):
                    w = w * (f if b else (1 - f))
                    idx.append(j + b)
                acc = acc + w * self.v.raw[tuple(idx)]
            res[k] = acc
        return mk(res.reshape(sh), snp.F8)


ct2d = types.ModuleType("cell_tree2d")
ct2d.CellTree = CellTree
ct2d.__version__ = "0.3.0"
spatial = types.ModuleType("scipy.spatial")
spatial.cKDTree = cKDTree
spatial.KDTree = cKDTree
interpolate = types.ModuleType("scipy.interpolate")
interpolate.RegularGridInterpolator = RegularGridInterpolator
scipy = types.ModuleType("scipy")
scipy.spatial, scipy.interpolate = spatial, interpolate


TEXT = {}  # path -> contents of text files


class _TextOut(_io.StringIO):
    def __init__(self, path, start=""):
        _io.StringIO.__init__(self)
        self.write(start)
        self.path = self.name = path

    def flush(self):
        TEXT[self.path] = self.getvalue()

    def close(self):
        if not self.closed:
            TEXT[self.path] = self.getvalue()
        _io.StringIO.close(self)


def sopen(path, mode="r", *a, **k):
    """open() of the code under test: files of the virtual directory live in memory"""
    p = os.fspath(path) if not isinstance(path, int) else path
    if not (isinstance(p, str) and p.startswith("/symbolic/")):
        return open(path, mode, *a, **k)
    if "b" in mode:
        raise core.Undecidable("binary file")
    if mode[0] in "wx":
        if mode[0] == "x" and p in TEXT:
            raise FileExistsError(17, "File exists", p)
        TEXT[p] = ""
        return _TextOut(p)
    if mode[0] == "a":
        return _TextOut(p, TEXT.get(p, ""))
    if p not in TEXT:
        raise FileNotFoundError(2, "No such file or directory", p)
    return _io.StringIO(TEXT[p])


def reset():
    FS.clear()
    TEXT.clear()
    HINTS.clear()
    plotfakes.TABLES.clear()
