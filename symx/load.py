"""Imports the code under /repo with its numeric and I/O imports redirected to the stand-ins
(symbolic mode), or as it is (concrete mode); restores module state between runs."""
import builtins
import datetime as _realdt
import importlib
import os
import sys
import types

REPO = os.environ.get("GRIDDED_SRC", "/repo")

_orig_import = builtins.__import__
_SYM = False


def _mapping():
    from . import fakes, plotfakes, sdt, snp

    dtm = types.ModuleType("datetime")
    dtm.__dict__.update({k: getattr(_realdt, k) for k in dir(_realdt) if not k.startswith("__")})
    dtm.datetime, dtm.timedelta = sdt.datetime, sdt.timedelta
    return {
        "numpy": snp.SHIM,
        "netCDF4": fakes.nc4,
        "cell_tree2d": fakes.ct2d,
        "scipy": fakes.scipy,
        "scipy.spatial": fakes.spatial,
        "scipy.interpolate": fakes.interpolate,
        "hashlib": sdt.FakeHashlib(),
        "datetime": dtm,
        **plotfakes.MAP,
    }


def _hook(mapping):
    def imp(name, globals=None, locals=None, fromlist=(), level=0):
        if level == 0 and globals is not None:
            g = globals.get("__name__", "")
            if g == "gridded" or g.startswith("gridded."):
                if name in mapping:
                    if fromlist or "." not in name:
                        return mapping[name]
                top = name.split(".")[0]
                if top in mapping:
                    m = mapping[top]
                    if fromlist:
                        for part in name.split(".")[1:]:
                            m = getattr(m, part)
                        return m
                    return m
        return _orig_import(name, globals, locals, fromlist, level)

    return imp


MODULES = """gridded gridded.time gridded.utilities gridded.depth gridded.grids gridded.variable gridded.gridded
gridded.pyugrid.ugrid gridded.pyugrid.read_netcdf gridded.pyugrid.util gridded.pyugrid.uvar gridded.pysgrid.sgrid
gridded.pysgrid.utils gridded.pysgrid.read_netcdf gridded.pysgrid.lookup gridded.pysgrid.variables
gridded.pysgrid.processing_2d gridded.io.verdat gridded.pyugrid.grid_io.utils""".split()


def _optional(m):
    try:
        return importlib.import_module(m)
    except ModuleNotFoundError as e:
        if e.name and e.name.startswith("gridded"):
            return None
        raise


def load(symbolic):
    """returns the gridded package"""
    global _SYM
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    sys.dont_write_bytecode = True
    _SYM = symbolic
    import logging

    logging.disable(logging.CRITICAL)
    import warnings

    warnings.simplefilter("ignore")
    if symbolic:
        builtins.__import__ = _hook(_mapping())
    import gridded

    mods = [m for m in (_optional(n) for n in MODULES) if m is not None]
    for n in list(sys.modules):
        if (n == "gridded" or n.startswith("gridded.")) and "tests" not in n:
            if sys.modules[n] not in mods:
                mods.append(sys.modules[n])
    _prepare(mods)
    return gridded


def _prepare(mods):
    if _SYM:
        from . import fakes, sdt

        for m in mods:
            for k, v in (("int", sdt.sint), ("float", sdt.sfloat), ("open", fakes.sopen)):
                if k not in m.__dict__:
                    m.__dict__[k] = v
    _snapshot(mods)


def extra(name):
    """a module of the code under test that is only imported when asked for"""
    new = name not in sys.modules
    m = importlib.import_module(name)
    if new:
        _prepare([m])
    return m


_SNAP = []
_CACHES = []


def _mutable(v):
    return isinstance(v, (type(None), bool, int, float, str, list, dict, set, tuple))


def _copy(v):
    if isinstance(v, dict):
        return type(v)(v) if type(v) in (dict,) else v.copy()
    if isinstance(v, (list, set)):
        return v.copy()
    return v


def _snapshot(mods):
    for m in mods:
        for k, v in list(m.__dict__.items()):
            if k.startswith("__"):
                continue
            if _mutable(v):
                _SNAP.append((m, k, v, _copy(v)))
            if hasattr(v, "cache_clear"):
                _CACHES.append(v)
            if isinstance(v, type) and getattr(v, "__module__", "").startswith("gridded"):
                for a, w in list(v.__dict__.items()):
                    if a.startswith("__"):
                        continue
                    if _mutable(w):
                        _SNAP.append((v, a, w, _copy(w)))
                    if hasattr(w, "cache_clear"):
                        _CACHES.append(w)


def restore():
    for owner, k, obj, cp in _SNAP:
        cur = owner.__dict__.get(k)
        if isinstance(obj, list):
            obj[:] = cp
        elif isinstance(obj, (dict, set)):
            obj.clear()
            obj.update(cp)
        if cur is not obj:
            setattr(owner, k, obj)
    for c in _CACHES:
        c.cache_clear()
