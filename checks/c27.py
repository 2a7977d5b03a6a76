"""C27: the variables attached to a grid (UVar, UMVar, SGridVariable) read as the data they hold"""
BOUNDS = ("UVar, UMVar and SGridVariable holding 1-D (4 or 5 values) or 2-D (3x4) data with symbolic values, in memory, as a list, or as a variable of a file (with masked values); every sequence of up to 4 (quick) / 5 (thorough) operations among: reading at one of 9 (1-D) or 7 (2-D) kinds of index, replacing or deleting the data, "
          "changing the data in place, changing a result that was returned, adding a variable to a group; index arrays of up to 1200 entries that differ in a single place; attributes given, read from the file, or both")
OUTSIDE = "more than 5 operations; larger data; files changed while a variable reads from them"
ASSUMPTIONS = ["netCDF4 stores and returns what was written (stand-in; replays use real files)"]


def indices(c, nd):
    np = c.np
    if nd == 1:
        return [0, -1, slice(1, 3), slice(None), np.array([2, 0]), [0, 1], np.array([True, False, False, True]), slice(None, None, 2), Ellipsis]
    return [0, (1, 2), (slice(None), 1), (slice(0, 2), slice(1, 3)), ([0, 2], 1), slice(None), (-1, slice(None, None, 2))]


def pick(c, k, idx):
    """any index first, later one of three (the first among them: the same index again)"""
    if k == 0 or len(idx) < 4:
        c._first = c.choice("i0", len(idx))
        return idx[c._first]
    return idx[(c._first + (0, 1, 4)[c.choice(f"i{k}", 3)]) % len(idx)]


def put(c, ds, name, vals, dims, fill=None, **atts):
    for d, n in zip(dims, c.np.shape(vals)):
        if d not in ds.dimensions:
            ds.createDimension(d, n)
    v = ds.createVariable(name, "f8", dims, fill_value=fill)
    for k, x in atts.items():
        v.setncattr(k, x)
    v[:] = vals
    return v


def same(c, label, got, want):
    np = c.np
    c.check(label + ": shape", np.shape(got) == np.shape(want), f"{np.shape(got)} for {np.shape(want)}")
    if np.shape(got) != np.shape(want):
        return
    gm, wm = np.ma.getmaskarray(np.ma.asarray(got)), np.ma.getmaskarray(np.ma.asarray(want))
    c.check(label + ": missing values", bool((gm == wm).all()))
    g, w = np.ma.filled(np.ma.asarray(got), 0.0), np.ma.filled(np.ma.asarray(want), 0.0)
    c.check_eq(label, g, w, tol=0)


def values(c, tag, nd):
    shp = (4,) if nd == 1 else (3, 4)
    n = 4 if nd == 1 else 12
    return c.arr(c.reals(tag, n, -100, 100), float).reshape(shp)


def h_uvar(c, nd, src, steps):
    """reads, replacements and changes in any order"""
    np = c.np
    UVar = c.g.pyugrid.uvar.UVar
    vals = values(c, "v", nd)
    dims = ("n",) if nd == 1 else ("t", "n")
    if src == "file":
        ds = c.nc4.Dataset(c.tmp("a.nc"), "w")
        data = put(c, ds, "v", vals, dims, fill=-999.0, units="m")
        mask = np.zeros(np.shape(vals), dtype=bool)
        mask[(1,) * nd] = True
        data[:] = np.ma.array(vals, mask=mask)
        held = np.ma.array(vals, mask=mask)
    elif src == "list":
        data, held = vals.tolist(), vals.copy()
    else:
        data, held = vals, vals
    d = UVar("v", "node", data=data)
    c.check("kept", (d.data is data) == (src != "list"))
    idx = indices(c, nd)
    last = None
    for k, op in enumerate(steps):
        if op == "read":
            i = pick(c, k, idx)
            last = d[i]
            same(c, f"step {k}: read", last, held[i])
        elif op == "replace":
            held = values(c, f"r{k}", nd)
            d.data = held
        elif op == "refile":  # another variable of the file
            held = values(c, f"r{k}", nd)
            d.data = put(c, ds, f"r{k}", held, dims)
        elif op == "delete":
            del d.data
            held = np.zeros((0,))
            idx = [slice(None), slice(1, 3), Ellipsis]
        elif op == "inplace":
            if src != "array":
                return
            x = c.real(f"x{k}", -100, 100)
            held = held.copy()  # the expected values: not the array itself
            held[(0,) * nd] = x
            d.data[(0,) * nd] = x
        elif op == "spoil" and np.ndim(last) and not _shares(c, last, d.data):
            last[(0,) * np.ndim(last)] = 12345.0
    c.check("shape", tuple(d.shape) == tuple(np.shape(held)) and d.ndim == np.ndim(held) and len(d) == np.shape(held)[0])


def h_extremes(c, cls, src):
    """largest and smallest of the values that are there"""
    np = c.np
    x = c.reals("x", 3, -100, 100)
    vals = np.array([[1.5, 2.5, 3.5, 4.5], [5.5, 6.5, 7.5, 8.5], [0.5, 9.5, 3.5, 1.5]])
    vals = vals + 0 * c.real("z", 0, 1)
    vals[0, 1], vals[1, 1], vals[2, 3] = x
    mask = np.zeros((3, 4), dtype=bool)
    mask[1, 1] = mask[0, 3] = src == "missing"
    ds = c.nc4.Dataset(c.tmp("a.nc"), "w")
    if cls == "S":
        v = sgrid_var(c, ds, vals, mask) if src != "array" else c.module("gridded.pysgrid.variables").SGridVariable(data=vals)
    else:
        v = c.g.pyugrid.uvar.UVar("v", "node", data=vals if src == "array" else put(c, ds, "v", np.ma.array(vals, mask=mask), ("t", "n"), fill=-999.0))
    there = [vals[i, j] for i in range(3) for j in range(4) if not mask[i, j]]
    lo, hi = v.min, v.max
    for y in there:
        c.check("bounds", c.And(lo <= y, y <= hi))
    c.check("smallest is there", c.Or(*[lo == y for y in there]))
    c.check("largest is there", c.Or(*[hi == y for y in there]))


def _shares(c, a, b):
    """an array in memory gives views for slices: changing those does change the data"""
    return isinstance(b, c.np.ndarray)


def h_long(c, cls, n):
    """index arrays whose text is abbreviated"""
    np = c.np
    vals = values(c, "v", 1)
    path = c.tmp("a.nc")
    ds = c.nc4.Dataset(path, "w")
    if cls == "S":
        v = sgrid_var(c, ds, vals, None)
    else:
        v = put(c, ds, "v", vals, ("n",))
        v = c.g.pyugrid.uvar.UVar("v", "node", data=v if cls == "U" else vals)
        if cls == "M":
            w = c.g.pyugrid.uvar.UVar("w", "node", data=vals + 1)
            v = c.g.pyugrid.uvar.UMVar("g", "node", [v, w])
    k = n // 2
    a, b = np.zeros(n, dtype=int), np.zeros(n, dtype=int)
    b[k] = 2
    form = c.choice("form", 3)
    for t, i in (("first", a), ("second", b), ("again", a)):
        item = i if form == 0 else [int(x) for x in i] if form == 1 else (i,)
        got = v[item]
        c.check(t + ": shape", np.shape(got)[0] == n)
        want = vals[2] if t == "second" else vals[0]
        got = got[k][0] if cls == "M" else got[k]
        c.check_eq(t, got, want, tol=0)


def h_umvar(c, src, steps):
    """a group follows its variables"""
    np = c.np
    U = c.g.pyugrid.uvar
    ds = c.nc4.Dataset(c.tmp("a.nc"), "w")
    held, vs = {}, {}
    for n in "ab":
        held[n] = values(c, n, 1)
        data = put(c, ds, n, held[n], ("n",), fill=-999.0) if src != "array" else held[n]
        if src == "masked":
            held[n] = np.ma.array(held[n], mask=[False, n == "a", True, n == "b"])
            data[:] = held[n]
        vs[n] = U.UVar(n, "node", data=data)
    m = U.UMVar("m", "node", [vs["a"], vs["b"]])
    idx = [i for i in indices(c, 1) if src != "masked" or not isinstance(i, int)]
    order = ["a", "b"]
    last = None
    for k, op in enumerate(steps):
        if op == "read":
            i = pick(c, k, idx)
            last = m[i]
            want = np.ma.column_stack([held[n][i] for n in order])
            same(c, f"step {k}: read", last, want)
        elif op == "replace":
            n = "ab"[c.choice(f"w{k}", 2)]
            held[n] = values(c, f"r{k}", 1)
            vs[n].data = held[n]
        elif op == "inplace":
            if src != "array":
                return
            x = c.real(f"x{k}", -100, 100)
            held["a"] = held["a"].copy()
            held["a"][0] = x
            m.a.data[0] = x
        elif op == "add" and "c" not in held:
            held["c"] = values(c, "c", 1)
            vs["c"] = U.UVar("c", "node", data=held["c"])
            m.add_var(vs["c"])
            order.append("c")
        elif op == "spoil" and last is not None:
            last[0, 0] = 12345.0
    c.check("names", list(m.variables) == order)
    c.check("members", all(getattr(m, n) is vs[n] for n in order))


def h_group(c):
    """what a group accepts"""
    U = c.g.pyugrid.uvar
    v = values(c, "v", 1)
    a, b = U.UVar("a", "node", data=v), U.UVar("b", "node", data=v + 1)
    c.raises("one source", ValueError, U.UMVar, "m", "node", [a])
    c.raises("same name", ValueError, U.UMVar, "m", "node", [a, U.UVar("a", "node", data=v)])
    c.raises("shapes", ValueError, U.UMVar, "m", "node", [a, U.UVar("c", "node", data=v[:3])])
    w = c.arr(c.reals("w", 6, -100, 100), float)
    p, q, r, s = (U.UVar(n, "node", data=w.reshape(*d)) for n, d in (("p", (2, 3)), ("q", (2, 3)), ("r", (3, 2)), ("s", (6,))))
    for other in (r, s, U.UVar("t", "node", data=w.reshape(2, 3)[:, :2])):
        c.raises("shapes of two dimensions", ValueError, U.UMVar, "m", "node", [p, other])
        c.raises("add: shapes of two dimensions", ValueError, U.UMVar("m", "node", [p, q]).add_var, other)
    c.raises("location", ValueError, U.UMVar, "m", "nodes", [a, b])
    c.raises("not data", ValueError, U.UMVar, "m", "node", [a, 3.0])
    m = U.UMVar("m", "node", [a, b])
    c.raises("add: same name", ValueError, m.add_var, U.UVar("b", "node", data=v))
    c.raises("add: shape", ValueError, m.add_var, U.UVar("d", "node", data=v[:2]))
    c.check("unchanged", list(m.variables) == ["a", "b"] and m.b is b)
    same(c, "values", m[:], c.np.ma.column_stack([v, v + 1]))
    for loc in ("node", "edge", "face", "boundary"):
        c.check("location", U.UVar("a", loc).location == loc and len(U.UVar("a", loc)) == 0)
    for loc in ("node", "edge", "face", "boundary", "none"):
        m = U.UMVar("m", loc, [a, b])
        c.check("location of a group", m.location == loc and m.shape == (4,))
        same(c, "values of a group", m[1:], c.np.ma.column_stack([v, v + 1])[1:])
    c.check("no location said", U.UMVar("m", data=[a, b]).location == "none")
    c.raises("no such location", ValueError, U.UVar, "a", "center")


def h_attributes(c, given):
    """attributes: those given and those of the file, kept apart"""
    np = c.np
    U = c.g.pyugrid.uvar
    vals = values(c, "v", 1)
    ds = c.nc4.Dataset(c.tmp("a.nc"), "w")
    x = c.real("x", -100, 100)
    a = put(c, ds, "a", vals, ("n",), units="m", offset=x)
    b = put(c, ds, "b", vals, ("n",), long_name="bee")
    mine = {"comment": "mine"} if given else None
    kw = dict(attributes=mine) if given else {}
    ua, ub, uc = U.UVar("a", "node", data=a, **kw), U.UVar("b", "face", data=b, **kw), U.UVar("c", "node", data=vals, **kw)
    extra = {"comment"} if given else set()
    c.check("a", set(ua.attributes) == {"units", "offset"} | extra and ua.attributes["units"] == "m")
    c.check_eq("a: number", ua.attributes["offset"], x, tol=0)
    c.check("b", set(ub.attributes) == {"long_name"} | extra)
    c.check("c", set(uc.attributes) == extra)
    if given:
        c.check("the caller's", mine == {"comment": "mine"})
        c.check("own", ua.attributes["comment"] == "mine")


def sgrid_var(c, ds, vals, mask):
    np = c.np
    one = len(np.shape(vals)) == 1
    for n, d, k in (("lon", "xp", 0), ("lat", "xp", 1)):
        p = np.array([[float(j if k == 0 else i) for j in range(4)] for i in range(3)])
        put(c, ds, n, p, ("yp", "xp"), standard_name="longitude" if k == 0 else "latitude")
    ds.createDimension("yc", 2)
    ds.createDimension("xc", 3)
    t = ds.createVariable("grid", "i4", ())
    t.cf_role = "grid_topology"
    t.topology_dimension = 2
    t.node_dimensions = "xp yp"
    t.face_dimensions = "xc: xp (padding: none) yc: yp (padding: none)"
    t.node_coordinates = "lon lat"
    data = vals if mask is None else np.ma.array(vals, mask=mask)
    put(c, ds, "v", data, ("m",) if one else ("yp", "xp"), fill=-999.0, grid="grid", standard_name="some_thing")
    return c.g.pysgrid.sgrid.SGrid.load_grid(ds).v


def h_sgrid(c, miss, steps):
    np = c.np
    vals = values(c, "v", 2)
    mask = np.zeros((3, 4), dtype=bool)
    if miss:
        mask[1, 1] = True
    ds = c.nc4.Dataset(c.tmp("a.nc"), "w")
    v = sgrid_var(c, ds, vals, mask)
    held = np.ma.array(vals, mask=mask)
    idx = indices(c, 2)
    last = None
    for k, op in enumerate(steps):
        if op == "read":
            i = pick(c, k, idx)
            last = v[i]
            same(c, f"step {k}: read", last, held[i])
        elif op == "spoil" and np.ndim(last):
            last[(0,) * np.ndim(last)] = 12345.0
    c.check("shape", tuple(v.shape) == (3, 4) and v.ndim == 2)


def h_sgrid_memory(c, nd, steps):
    """given an array: what is read is what the array holds then"""
    np = c.np
    data = values(c, "v", nd)
    v = c.module("gridded.pysgrid.variables").SGridVariable(data=data, location="node")
    idx, last = indices(c, nd), None
    for k, op in enumerate(steps):
        if op == "read":
            i = pick(c, k, idx)
            last = v[i]
            same(c, f"step {k}: read", last, data[i])
        elif op == "inplace":
            for j in range(3 if nd == 1 else 2):
                data[(j,) * nd] = c.real(f"x{k}{j}", -100, 100)
    c.check("shape", tuple(v.shape) == tuple(np.shape(data)) and v.ndim == nd and v.data is data)


def jobs(tier):
    q = tier == "quick"
    import itertools
    out = []
    n = 4 if q else 5
    seqs = [s for s in itertools.product(("read", "replace", "delete", "inplace", "spoil"), repeat=n - 1) if s.count("delete") <= 1 and s[0] == "read" and ("delete" not in s or "inplace" not in s[s.index("delete"):])]
    if q:
        seqs = [s for s in seqs if s.count("read") == 2 or s[1] == "read"]
    for src in ("array", "file", "list"):
        for s in seqs:
            if src == "file" and "inplace" in s:
                continue
            out.append(("h_uvar", dict(nd=1, src=src, steps=s + ("read",)), {}))
    for src in ("array", "file"):
        for s in (("read", "replace", "read"), ("read", "spoil", "read"), ("read", "read", "read"), ("read", "inplace", "read")):
            out.append(("h_uvar", dict(nd=2, src=src, steps=s), {}))
    for s in itertools.product(("read", "refile", "replace", "delete", "spoil"), repeat=n - 2):
        if "refile" in s and s.count("delete") < 2:
            out.append(("h_uvar", dict(nd=1 + len(out) % 2, src="file", steps=("read",) + s + ("read",)), {}))
    for cls in "UMS" + "A":
        for m in (1200,) if q else (600, 1200):
            out.append(("h_long", dict(cls=cls, n=m), {}))
    for src in ("array", "file", "masked"):
        for s in itertools.product(("replace", "inplace", "add", "spoil", "read"), repeat=n - 3):
            out.append(("h_umvar", dict(src=src, steps=("read",) + s + ("read",)), {}))
    for cls, src in (("U", "array"), ("U", "file"), ("U", "missing"), ("S", "array"), ("S", "file"), ("S", "missing")):
        out.append(("h_extremes", dict(cls=cls, src=src), {}))
    out.append(("h_group", {}, {}))
    for g in (0, 1):
        out.append(("h_attributes", dict(given=g), {}))
    for nd in (1, 2):
        for s in itertools.product(("read", "inplace"), repeat=2):
            out.append(("h_sgrid_memory", dict(nd=nd, steps=("read",) + s + ("read",)), {}))
    for miss in (0, 1):
        for s in itertools.product(("read", "spoil"), repeat=n - 2):
            out.append(("h_sgrid", dict(miss=miss, steps=("read",) + s + ("read",)), {}))
    return out
