"""C26: variables and datasets read from files hold the file's data, however they are opened"""
BOUNDS = ("files holding a triangular (4 nodes, 2 faces), curvilinear (3x3 nodes, 4x4 centers, edges) or rectangular (3x4) grid and variables on each location with 0-3 times and 0-3 fixed levels, of 8, 4-byte floats and packed 2-byte integers, with symbolic values and missing entries; name, units, location, attributes and fill value from the file or given; "
          "read lazily or at once; by file name, path object, open dataset, separate grid file, in every combination that the documentation allows, or as a series of 2-3 files; variable names given, among the class's default names or told by standard or long name; values at 3 points (inside, on another cell, outside) at a symbolic time and depth, lazily read against the same data in memory")
OUTSIDE = "larger grids; files of a series that differ in their time reference; remote datasets; user-defined types and groups"
ASSUMPTIONS = ["netCDF4 stores and returns what was written, and MFDataset joins files along the unlimited dimension (stand-ins; replays use real files)"]

MESH = dict(lon=(0.0, 1.0, 0.0, 1.0), lat=(0.0, 0.0, 1.0, 1.0), nv=((1, 2), (2, 4), (3, 3)))
DIMS = {("U", "node"): ("node",), ("U", "face"): ("nele",), ("R", "node"): ("lat", "lon"), ("S", "node"): ("eta_psi", "xi_psi"), ("S", "center"): ("eta_rho", "xi_rho"), ("S", "edge1"): ("eta_u", "xi_u"), ("S", "edge2"): ("eta_v", "xi_v")}
SIZE = dict(node=4, nele=2, lat=3, lon=4, eta_psi=3, xi_psi=3, eta_rho=4, xi_rho=4, eta_u=4, xi_u=3, eta_v=3, xi_v=4)
LEVELS = (0.0, 5.0, 20.0)
PTS = {"U": ((0.25, 0.25), (0.875, 0.5), (3.0, 3.0)), "R": ((0.5, 0.25), (2.75, 1.5), (9.0, 1.0)), "S": ((0.5, 0.25), (1.75, 1.5), (9.0, 1.0))}


def put(c, ds, vname, vals, dims, dt="f8", fill=None, unlimited=(), **atts):
    for d, n in zip(dims, c.np.shape(vals)):
        if d not in ds.dimensions:
            ds.createDimension(d, None if d in unlimited else n)
    v = ds.createVariable(vname, dt, dims, fill_value=fill)
    for k, x in atts.items():
        v.setncattr(k, x)
    if dt == "i2":
        v.set_auto_scale(False)  # packed by the caller
    v[:] = vals
    return v


def put_grid(c, ds, kind):
    if kind == "U":
        put(c, ds, "lon", c.arr(MESH["lon"], float), ("node",), long_name="longitude")
        put(c, ds, "lat", c.arr(MESH["lat"], float), ("node",))
        put(c, ds, "nv", c.arr(MESH["nv"], int), ("three", "nele"), "i4")
    elif kind == "R":
        put(c, ds, "lon", c.arr([0.0, 1.0, 2.0, 3.0], float), ("lon",))
        put(c, ds, "lat", c.arr([0.0, 1.0, 2.0], float), ("lat",))
    else:
        for n, dims, o in (("psi", ("eta_psi", "xi_psi"), (0, 0)), ("rho", ("eta_rho", "xi_rho"), (-0.5, -0.5)), ("u", ("eta_u", "xi_u"), (-0.5, 0)), ("v", ("eta_v", "xi_v"), (0, -0.5))):
            s = [SIZE[d] for d in dims]
            put(c, ds, "lon_" + n, c.arr([[j + o[1] for j in range(s[1])] for i in range(s[0])], float), dims)
            put(c, ds, "lat_" + n, c.arr([[i + o[0] for j in range(s[1])] for i in range(s[0])], float), dims)
        put(c, ds, "angle", c.np.zeros((4, 4)), ("eta_rho", "xi_rho"))


def put_axes(c, ds, nt, nz, t0=0, unlimited=False):
    if nt:
        put(c, ds, "time", c.arr([float(t0 + i) for i in range(nt)], float), ("time",), unlimited=("time",) if unlimited else (), units="hours since 2024-01-01 00:00:00")
    if nz:
        put(c, ds, "depth", c.arr(LEVELS[:nz], float), ("depth",), units="m")


def field(c, ds, kind, loc, nt, nz, name="temp", typ="f8", miss=False, unlimited=False, atts=None, tag=""):
    """a variable with symbolic values; returns the values and the mask"""
    dims = (("time",) if nt else ()) + (("depth",) if nz else ()) + DIMS[kind, loc]
    shp = (((nt,) if nt else ()) + ((nz,) if nz else ())) + tuple(SIZE[d] for d in DIMS[kind, loc])
    np = c.np
    atts = dict(atts or {})
    if typ != "f8":  # rounding is modelled per entry: few of them are symbolic
        n = 1
        for x in shp:
            n *= x
        sym = {0, 1, n // 2, n - 1}
    if typ == "packed":
        k = c.arr([c.int(f"{tag}{name}_{i}", -500, 500) if i in sym else i for i in range(n)], int).reshape(shp)
        data = k * 0.25 + 10.0
        raw, dt = k, "i2"
        atts.update(scale_factor=0.25, add_offset=10.0)
    else:
        if typ == "f4":
            data = c.arr([c.real(f"{tag}{name}_{i}", -1000, 1000) if i in sym else i * 0.5 for i in range(n)], float).reshape(shp)
        else:
            data = c.reals(tag + name, shp, -1000, 1000)
        raw, dt = data, typ
    m = None
    fill = None
    if miss:
        m = np.zeros(shp, dtype=bool)
        m[(0,) * len(shp)] = True
        fill = -32000 if dt == "i2" else -9999.0
        raw = np.where(m, fill, raw) if dt == "i2" else np.ma.array(raw, mask=m)
    v = put(c, ds, name, raw, dims, dt, fill, unlimited=("time",) if unlimited else (), **atts)
    return data, m


def same(c, label, got, data, m, tol=0):
    np = c.np
    c.check("shape of " + label, tuple(np.shape(got)) == tuple(np.shape(data)), f"{np.shape(got)}")
    gm = np.ma.getmaskarray(got)
    if m is None:
        c.check("nothing missing in " + label, not bool(gm.any()))
        c.check_eq(label, np.ma.getdata(got), data, tol=tol)
    else:
        c.check("what is missing in " + label, bool((gm == m).all()))
        c.check_eq(label, np.ma.filled(got, 0.0), np.where(m, 0.0, data), tol=tol)


def times(c, T, nt, t0=0):
    import datetime
    c.check("number of times", len(T.data) == nt)
    for i, t in enumerate(T.data):
        c.check_eq("time", t, datetime.datetime(2024, 1, 1) + datetime.timedelta(hours=t0 + i))


def opened(c, how, p, pg):
    """keywords by which a file (or a data and a grid file) can be named"""
    import pathlib
    if how == "name":
        return dict(filename=p)
    if how == "path":
        return dict(filename=pathlib.Path(p))
    if how == "list":
        return dict(filename=[p])
    if how == "tuple":
        return dict(filename=(p,))
    if how == "data_list":
        return dict(data_file=[p], grid_file=[p])
    if how == "dataset":
        return dict(dataset=c.nc4.Dataset(p))
    if how == "files":
        return dict(data_file=p, grid_file=p)
    if how == "two":
        return dict(data_file=p, grid_file=pg)
    if how == "two_open":
        return dict(data_file=c.nc4.Dataset(p), grid_file=c.nc4.Dataset(pg))
    if how == "dataset_grid":
        return dict(dataset=c.nc4.Dataset(p), grid_file=pg)
    if how == "name_grid":
        return dict(filename=p, grid_file=pg)
    if how == "name_data":
        return dict(filename=pg, data_file=p)
    raise KeyError(how)


def build(c, kind, loc, nt, nz, how, typ="f8", miss=False, atts=None, names=("temp",)):
    p, pg = c.tmp("data/run.nc"), c.tmp("grid/run.nc")  # told apart by their directories only
    two = how in ("two", "two_open", "dataset_grid", "name_grid", "name_data")
    ds = c.nc4.Dataset(p, "w")
    dg = c.nc4.Dataset(pg, "w") if two else ds
    put_grid(c, dg, kind)
    put_axes(c, ds, nt, nz)
    out = [field(c, ds, kind, loc, nt, nz, n, typ, miss, atts=atts) for n in names]
    ds.close()
    if two:
        dg.close()
    return p, pg, out


def h_scalar(c, kind, loc, nt, nz, how, typ, miss, load, given):
    atts = dict(units="degC", standard_name="sea_water_temperature", note="x y", name="Temperature", size=3)
    p, pg, ((data, m),) = build(c, kind, loc, nt, nz, how, typ, miss, atts)
    kw = opened(c, how, p, pg)
    want = dict(units="degC", location=loc, fill_value=0)
    if given == "all":
        want = dict(units="K", location=loc, fill_value=-5, name="mine")
        kw.update(want)
    elif given == "empty":
        want = dict(units="", location=loc, fill_value=0.0, name="")
        kw.update(want)
    elif given == "grid":
        kw["grid"] = c.g.grids.Grid.from_netCDF(pg if how in ("two", "two_open", "dataset_grid", "name_grid", "name_data") else p)
    V = c.g.variable.Variable.from_netCDF(varname="temp", load_all=load, **kw)
    tol = 1e-6 if typ == "packed" else 0
    same(c, "data", V.data[:], data, m, tol if typ != "f4" else 1e-3)
    c.check("read at once or lazily", hasattr(V.data, "dimensions") == (not load))
    for k, w in want.items():
        c.check(k, getattr(V, k) == w, repr(getattr(V, k)))
    c.check("name in the file", V.varname == "temp")
    for k, w in atts.items():
        c.check("attribute " + k, V.attributes.get(k) == w, repr(V.attributes.get(k)))
    c.check("grid", type(V.grid) is getattr(c.g.grids, "Grid_" + kind), type(V.grid).__name__)
    if given == "grid":
        c.check("the grid given", V.grid is kw["grid"])
    if nt:
        times(c, V.time, nt)
    if nz:
        c.check("depth levels", list(V.depth.depth_levels) == list(LEVELS[:nz]))
    else:
        c.check("no depth", V.depth is None)
    c.check("shape", tuple(V.data_shape) == tuple(c.np.shape(data)))


def h_values(c, kind, loc, nt, nz, typ, miss, vector=False):
    """values at points: lazily read data against the same data in memory"""
    np = c.np
    names = ("temp", "salt")[:2 if vector else 1]
    p, pg, flds = build(c, kind, loc, nt, nz, "name", typ, miss, names=names)
    V = c.g.variable
    if vector:
        lazy = V.VectorVariable.from_netCDF(filename=p, varnames=list(names))
        full = V.VectorVariable.from_netCDF(filename=p, varnames=list(names), load_all=True)
    else:
        lazy = V.Variable.from_netCDF(filename=p, varname="temp")
        full = V.Variable.from_netCDF(filename=p, varname="temp", load_all=True)
        data, m = flds[0]
    cols = 3 if nz else 2
    pts = [list(q) for q in PTS[kind]]
    z = 0.0
    if nz:
        z = c.real("z", 0, 15) if nz > 1 else 0.0
        for i, q in enumerate(pts):
            q.append(z if i == 0 else LEVELS[min(i, nz - 1)])
    pts = c.arr(pts, float)
    import datetime
    t = datetime.datetime(2024, 1, 1)
    if nt > 1:
        t = t + c.delta(c.choose("s", (0, 900, 3600, 3600 * (nt - 1))))
    a, b = lazy.at(pts, t), full.at(pts, t)
    c.check("shape", tuple(a.shape) == tuple(b.shape) == (3, len(names)))
    ma, mb = np.ma.getmaskarray(a), np.ma.getmaskarray(b)
    c.check("same points masked", bool((ma == mb).all()))
    c.check_eq("same values", np.ma.filled(a, 0.0), np.ma.filled(b, 0.0))
    if not vector:
        mem = V.Variable(grid=lazy.grid, time=lazy.time, depth=lazy.depth, data=np.ma.array(data, mask=m) if m is not None else data, location=loc)
        d = mem.at(pts, t)
        c.check("same points masked as in memory", bool((np.ma.getmaskarray(d) == ma).all()))
        c.check_eq("same values as in memory", np.ma.filled(a, 0.0), np.ma.filled(d, 0.0), tol=1e-6 if typ != "f4" else 1e-2)
        far = c.arr([[500.0, 500.0] + [z] * (cols - 2)], float)
        other = V.Variable.from_netCDF(filename=p, varname="temp", fill_value=-7.5)
        for v, fill in ((other, -7.5), (lazy, 0)):
            u = v.at(pts, t, unmask=True)
            c.check("filled", not isinstance(u, np.ma.MaskedArray) and tuple(u.shape) == (3, 1))
            c.check_eq("filled with the fill value", u, np.ma.filled(a, fill))
            far_m, far_u = v.at(far, t), v.at(far, t, unmask=True)
            c.check_eq("off the grid", np.ma.filled(far_m, fill), far_u)


def h_vector(c, kind, loc, nt, nz, how, load):
    names = ("uu", "vv")
    p, pg, flds = build(c, kind, loc, nt, nz, how, names=names, atts=dict(units="m/s"))
    kw = opened(c, how, p, pg)
    V = c.g.variable.VectorVariable.from_netCDF(varnames=list(names), load_all=load, name="cur", **kw)
    c.check("number of components", len(V.variables) == 2)
    for v, n, (d, m) in zip(V.variables, names, flds):
        same(c, "component", v.data[:], d, m)
        c.check("name of a component", v.varname == n)
        c.check("location of a component", v.location == loc)
        c.check("one grid", v.grid is V.grid)
        c.check("one depth", v.depth is V.depth)
        c.check("read at once or lazily", hasattr(v.data, "dimensions") == (not load))
    c.check("names", list(V.varnames) == list(names))
    c.check("name", V.name == "cur")
    c.check("units", V.units == "m/s")
    c.check("locations", list(V.location) == [loc, loc])
    if nt:
        times(c, V.time, nt)
        for v in V.variables:
            times(c, v.time, nt)
    c.check("depth", (V.depth is not None) == bool(nz))


def h_names(c, how, vector):
    """which variable of the file is read, when the caller does not say"""
    V = c.g.variable
    p = c.tmp("d.nc")
    ds = c.nc4.Dataset(p, "w")
    put_grid(c, ds, "R")
    flds = {}

    def f(n, **a):
        flds[n] = field(c, ds, "R", "node", 0, 0, n, atts=a)[0]

    comps = ("u", "v", "w")[:c.choose("m", (2, 3))] if vector else ("t",)
    f("other")
    want = {}
    for k in comps:
        if how == "default":
            want[k] = c.choose("which_" + k, ("water_" + k, k.upper() + "_name"))
            f(want[k])
        elif how in ("standard", "long"):
            f("x_" + k, **{how + "_name": "the " + k})
            want[k] = "x_" + k
        elif how == "default_first":
            f("x_" + k, standard_name="the " + k)
            f("water_" + k)
            want[k] = "water_" + k
        elif how == "second_cf":
            f("x_" + k, long_name="also " + k)
            want[k] = "x_" + k
    f("another", long_name="not it", standard_name="nor this")
    ds.close()
    kw = dict(filename=p) if c.choice("open", 2) else dict(dataset=c.nc4.Dataset(p))
    if vector:
        class X(V.VectorVariable):
            comp_order = list(comps)
            default_names = {k: ["water_" + k, k.upper() + "_name"] for k in comps}
            cf_names = {k: ["the " + k, "also " + k] for k in comps}
    else:
        class X(V.Variable):
            default_names = ["water_t", "T_name"]
            cf_names = ["the t", "also t"]
    if how == "none":
        c.raises("nothing to read", (ValueError, NameError), lambda: X.from_netCDF(**kw))
        return
    x = X.from_netCDF(**kw)
    if vector:
        c.check("names", list(x.varnames) == [want[k] for k in comps], repr(x.varnames))
        for k, v in zip(comps, x.variables):
            c.check_eq("component", v.data[:], flds[want[k]], tol=0)
            c.check("component by name", getattr(x, k) is v)
    else:
        c.check("name", x.varname == want["t"], repr(x.varname))
        c.check_eq("data", x.data[:], flds[want["t"]], tol=0)


def h_dataset(c, kind, nt, nz, how, topo):
    """every variable that lies on the grid, with its data and attributes"""
    p = c.tmp("d.nc")
    ds = c.nc4.Dataset(p, "w")
    put_grid(c, ds, kind)
    put_axes(c, ds, nt, nz)
    W = {}
    locs = [l for k, l in DIMS if k == kind]
    for i, loc in enumerate(locs):
        n = f"v{i}"
        a = dict(units=f"m{i}", standard_name="s" + str(i % 2))
        if i % 2:
            a["long_name"] = f"long {i}"
        W[n] = (loc, field(c, ds, kind, loc, nt, nz if i == 0 else 0, n, atts=a), a)
    ds.title, ds.history, ds.version = "a title", "made by hand", 3
    ds.close()
    kw = {}
    if topo:
        kw["grid_topology"] = {"U": dict(node_lon="lon", node_lat="lat", faces="nv"), "R": dict(node_lon="lon", node_lat="lat"), "S": dict(node_lon="lon_psi", node_lat="lat_psi", center_lon="lon_rho", center_lat="lat_rho", edge1_lon="lon_u", edge1_lat="lat_u", edge2_lon="lon_v", edge2_lat="lat_v")}[kind]
    D = c.g.gridded.Dataset
    if how == "open":
        D = D.from_netCDF(c.nc4.Dataset(p), **kw)
    elif how == "init":
        D = D(p, **kw)
    elif how == "list":
        D = D.from_netCDF([p], **kw)
    elif how == "tuple":
        D = D.from_netCDF((p,), **kw)
    else:
        D = D.from_netCDF(filename=p, **kw)
    c.check("grid", isinstance(D.grid, getattr(c.g.grids, "Grid_" + kind)) or topo, type(D.grid).__name__)
    for k, w in dict(title="a title", history="made by hand", version=3).items():
        c.check("global attribute " + k, D.attributes.get(k) == w)
    c.check("global attributes", set(D.attributes) == {"title", "history", "version"})
    c.check("where from", str(D.filename).endswith("d.nc"))
    for n, (loc, (d, m), a) in W.items():
        c.check("variable is there", n in D.variables, n)
        v = D[n]
        c.check("by key", v is D.variables[n])
        same(c, "data", v.data[:], d, m)
        c.check("location", v.location == loc)
        c.check("name", v.name == a.get("long_name", n))
        c.check("name in the file", v.varname == n)
        c.check("units", v.units == a["units"])
        for k, x in a.items():
            c.check("attribute", v.attributes.get(k) == x)
        c.check("one grid", v.grid is D.grid)
        if nt:
            times(c, v.time, nt)
    for k in ("lon", "lat", "nv", "lon_psi", "lat_psi", "lon_rho", "lat_rho", "lon_u", "lat_u", "lon_v", "lat_v"):
        c.check("coordinates are no variables", k not in D.variables, k)
    for s in ("s0", "s1", "s2"):
        got = D.get_variables_by_attribute("standard_name", s)
        want = [D.variables[n] for n in W if W[n][2]["standard_name"] == s]
        c.check("found by attribute", len(got) == len(want) and all(any(g is w for g in got) for w in want), s)
    c.check("no such attribute", D.get_variables_by_attribute("nothing", 1) == [])
    D0, G0 = c.g.gridded.Dataset, D.grid
    V0 = D.variables
    for both in (dict(grid=G0), dict(variables=V0), dict(attributes={"title": "t"}), dict(grid=G0, variables=V0, attributes={})):
        c.raises("from a file or from objects, not both", ValueError, lambda: D0(p, **both))
    for kw in (dict(grid_file=p), dict(variable_files=[p]), dict(grid_file=p, variable_files=[p])):
        c.raises("separate files cannot be read yet", NotImplementedError, lambda: D0.from_netCDF(**kw))
    E = D0(grid=G0, variables=dict(V0), attributes={"title": "t"})
    c.check("made of what was given", E.grid is G0 and list(E.variables) == list(V0) and all(E[k] is V0[k] for k in V0) and E.attributes == {"title": "t"} and E.filename is None)
    E = D0()
    c.check("empty", E.grid is None and E.variables == {} and E.attributes == {})
    c.raises("unknown format", ValueError, lambda: D.save(c.tmp("x.nc"), format="grib"))


def h_series(c, kind, loc, nz, nfiles, what, miss):
    """a series of files is one file"""
    ps, flds = [], []
    for i in range(nfiles):
        p = c.tmp(f"f{i}.nc")
        ds = c.nc4.Dataset(p, "w", format="NETCDF4_CLASSIC")
        put_axes(c, ds, 1 + i % 2, nz, t0=sum(1 + k % 2 for k in range(i)), unlimited=True)
        put_grid(c, ds, kind)
        flds.append([field(c, ds, kind, loc, 1 + i % 2, nz, n, miss=miss and i == 0, unlimited=True, atts=dict(units="degC", standard_name="s"), tag=f"f{i}") for n in ("aa", "bb")])
        ds.title = "a series"
        ds.close()
        ps.append(p)
    nt = sum(1 + k % 2 for k in range(nfiles))
    np = c.np
    data = [np.concatenate([f[j][0] for f in flds], axis=0) for j in range(2)]
    mask = None
    if miss:
        mask = np.concatenate([f[0][1] if f[0][1] is not None else np.zeros(np.shape(f[0][0]), dtype=bool) for f in flds], axis=0)
    V = c.g.variable
    G = c.g.gridded
    if what == "time":
        times(c, c.g.time.Time.from_netCDF(filename=ps, varname="time"), nt)
        times(c, c.g.time.Time.from_netCDF(filename=ps, datavar="aa"), nt)
        return
    if what == "variable":
        vs = [V.Variable.from_netCDF(filename=ps, varname="aa")]
    elif what == "loaded":
        vs = [V.Variable.from_netCDF(dataset=c.nc4.MFDataset(ps), varname="aa", load_all=True)]
    elif what == "vector":
        vs = V.VectorVariable.from_netCDF(filename=ps, varnames=["aa", "bb"]).variables
    else:
        D = G.Dataset.from_netCDF(ps if what == "dataset" else c.nc4.MFDataset(ps))
        c.check("global attributes", D.attributes == {"title": "a series"}, repr(D.attributes))
        c.check("variables", set(D.variables) >= {"aa", "bb"})
        vs = [D["aa"], D["bb"]]
    for v, d in zip(vs, data):
        same(c, "data", v.data[:], d, mask)
        times(c, v.time, nt)
        c.check("units", v.units == "degC")
        c.check("attributes", v.attributes.get("standard_name") == "s", repr(v.attributes))
        c.check("location", v.location == loc)
        c.check("depth", (v.depth is not None) == bool(nz))
    v = vs[0]
    mem = V.Variable(grid=v.grid, time=v.time, depth=v.depth, data=np.ma.array(data[0], mask=mask) if miss else data[0], location=loc)
    pts = c.arr([list(q) + ([2.5] if nz else []) for q in PTS[kind]], float)
    import datetime
    t = datetime.datetime(2024, 1, 1) + c.delta(c.choose("s", (0, 1800, 3600 * (nt - 1))))
    a, b = v.at(pts, t), mem.at(pts, t)
    c.check("same points masked as in memory", bool((np.ma.getmaskarray(a) == np.ma.getmaskarray(b)).all()))
    c.check_eq("same values as in memory", np.ma.filled(a, 0.0), np.ma.filled(b, 0.0))


def h_replace(c, kind, nt, what):
    """data and times can be replaced by others that fit, and only by those"""
    import datetime
    V, np = c.g.variable, c.np
    p, pg, ((data, m),) = build(c, kind, "node", nt, 0, "name")
    v = V.Variable.from_netCDF(filename=p, varname="temp")
    shp = tuple(np.shape(data))
    pts = c.arr([list(PTS[kind][0])], float)
    t = datetime.datetime(2024, 1, 1)
    v.at(pts, t)
    if what == "data":
        new = c.reals("new", shp, -9, 9)
        v.data = new
        c.check_eq("data", v.data[:], new, tol=0)
        w = V.Variable(grid=v.grid, time=v.time, data=new, location="node")
        c.check_eq("values", v.at(pts, t), w.at(pts, t))
    elif what == "length":
        bad = c.reals("new", (nt + 1,) + shp[1:], -9, 9)
        with_time = c.did_raise(ValueError, lambda: setattr(v, "data", bad))[0]
        c.check("data of another length are refused", with_time)
        c.check_eq("and the old remain", v.data[:], data, tol=0)
    elif what == "shape":
        bad = c.reals("new", shp[:-1] + (7,), -9, 9)
        w = V.Variable(grid=v.grid, time=v.time, data=data)
        w._location = None
        c.raises("data that fit nowhere are refused", ValueError, lambda: setattr(w, "data", bad))
    elif what == "time":
        d = c.dt("d", 0, 10**6)
        new = [d + c.delta(3600 * i) for i in range(max(nt, 1))]
        v.time = new if c.choice("form", 2) else c.g.time.Time(new)
        c.check("number of times", len(v.time.data) == max(nt, 1))
        for a, b in zip(v.time.data, new):
            c.check_eq("time", a, b)
    elif what == "time_length":
        d = c.dt("d", 0, 10**6)
        n = shp[0] + 1
        c.raises("times of another length are refused", ValueError, lambda: setattr(v, "time", [d + c.delta(3600 * i) for i in range(n)]))


def jobs(tier):
    out = []
    T = tier != "quick"
    ones = ("name", "path", "dataset", "files", "two", "two_open", "dataset_grid", "name_grid", "name_data", "list")
    i = 0
    for kind, loc in DIMS:
        for nt in (0, 1, 2, 3):
            for nz in (0, 1, 2):
                for q in range(10 if T else 3):
                    i += 1
                    out.append(("h_scalar", dict(kind=kind, loc=loc, nt=nt, nz=nz, how=ones[(i * 3 + i // 10) % 10], typ=("f8", "packed", "f4")[i % 3 if i % 5 else 0], miss=bool((i // 2) % 2), load=bool(i % 2), given=("none", "all", "grid", "empty")[(i + i // 3 + i // 11) % 4]), {}))
                    if loc in ("node", "center") or q:
                        out.append(("h_vector", dict(kind=kind, loc=loc, nt=nt, nz=nz, how=ones[(i * 7 + 1) % 10], load=bool(i // 2 % 2)), {}))
                if nz < 2 or nt < 3 or T:
                    out.append(("h_values", dict(kind=kind, loc=loc, nt=nt, nz=nz if not nz else nz + 1, typ="f8" if i % 3 else "packed", miss=bool(i % 2)), dict(weight=3)))
                    if T or (nt == 2 and nz == 1):
                        out.append(("h_values", dict(kind=kind, loc=loc, nt=nt, nz=nz, typ="f8", miss=not i % 2, vector=True), dict(weight=3)))
    for kind, loc in (("U", "node"), ("S", "center")):
        if (kind, loc) in DIMS:
            for how in ("tuple", "data_list"):
                out.append(("h_scalar", dict(kind=kind, loc=loc, nt=2, nz=0, how=how, typ="f8", miss=False, load=True, given=False), {}))
                out.append(("h_vector", dict(kind=kind, loc=loc, nt=2, nz=0, how=how, load=False), {}))
    for how in ("default", "standard", "long", "default_first", "second_cf", "none"):
        for vec in (False, True):
            out.append(("h_names", dict(how=how, vector=vec), {}))
    for kind in "URS":
        for nt in (0, 2):
            for nz in (0, 2):
                for how in ("open", "init", "name", "list", "tuple"):
                    topo = (nt // 2 + nz // 2 + len(how)) % 2 if kind != "R" else 0
                    out.append(("h_dataset", dict(kind=kind, nt=nt, nz=nz, how=how, topo=topo), {}))
    for i, (kind, loc) in enumerate(DIMS):
        for j, what in enumerate(("time", "variable", "loaded", "vector", "dataset", "mfdataset")):
            for nz in (0, 2):
                if T or (i + j + nz // 2) % 2 == 0:
                    out.append(("h_series", dict(kind=kind, loc=loc, nz=nz, nfiles=2 + (i + j) % 2, what=what, miss=bool((i + j // 2) % 2)), dict(weight=2)))
    for kind in "URS":
        for nt in (0, 1, 2):
            for what in ("data", "length", "shape", "time", "time_length"):
                if what == "length" and nt < 2:
                    continue
                out.append(("h_replace", dict(kind=kind, nt=nt, what=what), {}))
    return out
