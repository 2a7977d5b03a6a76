"""C25: depth coordinates read from files are the ones the file states"""
BOUNDS = ("files holding a ROMS (3x3 nodes, 4x4 centers, 2 layers), FVCOM (4 nodes, 2 layers) or fixed-level (1-4 levels, surface first or last) depth coordinate with symbolic terms, bathymetry (on centers with and without land, or on nodes) and free surface (absent, 1 or 2 times); terms under their names, or other names with the "
          "documented long or standard name, with other variables carrying the same attributes, in two orders; one file, open dataset or separate grid file; type found by Depth, given by class, or loaded with a Variable; bathymetry, free surface, time, terms or their names given by the caller; files with two systems or none")
OUTSIDE = "larger grids; bathymetry on faces of a mesh; levels stated as negative heights; detecting the kind of s-coordinate transform; evaluation of the coordinates (decided separately)"
ASSUMPTIONS = ["netCDF4 stores and returns what was written (stand-in; replays use real files)"]

LONG = dict(Cs_r="S-coordinate stretching curves at RHO-points", Cs_w="S-coordinate stretching curves at W-points", s_rho="S-coordinate at RHO-points", s_w="S-coordinate at W-points", hc="S-coordinate parameter, critical depth",
            h="bathymetry at RHO-points", zeta="free-surface")
LONG2 = dict(LONG, h="Final bathymetry at RHO-points")


def put(c, ds, name, vals, dims, dt="f8", **atts):
    for d, n in zip(dims, c.np.shape(vals)):
        if d not in ds.dimensions:
            ds.createDimension(d, n)
    v = ds.createVariable(name, dt, dims, **({"fill_value": -9999.0} if atts.pop("masked", False) else {}))
    for k, x in atts.items():
        setattr(v, k, x)
    v[...] = vals
    return v


def coords(c, ds):
    np = c.np
    A = lambda f, n: c.arr([[f(i, j) for j in range(n)] for i in range(n)], float)
    put(c, ds, "lon_psi", A(lambda i, j: j * 1.0, 3), ("eta_psi", "xi_psi"))
    put(c, ds, "lat_psi", A(lambda i, j: i * 1.0, 3), ("eta_psi", "xi_psi"))
    put(c, ds, "lon_rho", A(lambda i, j: j - 0.5, 4), ("eta_rho", "xi_rho"))
    put(c, ds, "lat_rho", A(lambda i, j: i - 0.5, 4), ("eta_rho", "xi_rho"))
    put(c, ds, "angle", A(lambda i, j: 0.0, 4), ("eta_rho", "xi_rho"))


def increasing(c, name, n, lo, hi):
    x = list(c.reals(name, (n,), lo, hi))
    for a, b in zip(x, x[1:]):
        c.assume(a < b)
    return x


def axis_time(c, ds, n, tname="ocean_time"):
    k = [c.int(f"t{i}", -100, 10000) for i in range(n)]
    for a, b in zip(k, k[1:]):
        c.assume(a < b)
    put(c, ds, tname, c.arr(k, int), (tname,), "i4", units="hours since 2024-01-01 00:00:00")
    import datetime
    return [datetime.datetime(2024, 1, 1) + c.delta(x * 3600) for x in k]


def roms(c, ds, dg, nz, spell, hloc, land, order, nzeta=None):
    """writes a ROMS file; returns what was written"""
    w = {}
    up = c.fork(c.real("orient", 0, 1) < 0.5) if spell == "names" else True
    st = lambda x: c.arr(x if up else list(reversed(x)), float)
    w["s_rho"], w["s_w"] = st(increasing(c, "s_rho", 2, -1, 0)), st(increasing(c, "s_w", 3, -1, 0))
    w["Cs_r"], w["Cs_w"] = c.reals("Cs_r", (2,), -1, 0), c.reals("Cs_w", (3,), -1, 0)
    w["hc"] = c.real("hc", 0, 50)
    w["up"] = up
    n = 4 if hloc == "center" else 3
    h = c.reals("h", (n, n), 1, 5000)
    dims = ("eta_rho", "xi_rho") if hloc == "center" else ("eta_psi", "xi_psi")
    mask = None
    if land:
        m = [[0] * n for _ in range(n)]
        m[0][0] = 1
        if land > 1:
            m[2][3 if n == 4 else 2] = 1
        mask = m
    w["h"], w["mask"], w["n"] = h, mask, n
    nm = {k: k for k in LONG}
    att = {k: {} for k in LONG}
    if spell != "names":
        L = LONG if spell == "long" else LONG2
        nm = {k: f"v{i}_{k.lower()}x" for i, k in enumerate(LONG)}
        att = {k: {"long_name" if spell != "standard" else "standard_name": v} for k, v in L.items()}
        if spell == "both":  # other variables carry the same descriptions
            nm = {k: k for k in LONG}
            for i, (k, v) in enumerate(L.items()):
                att[k] = {}
                if k == "zeta" and not nz:
                    continue
                put(c, dg if k == "h" else ds, f"old{i}", c.arr([7.0 + i, 8.0 + i], float), ("old",), long_name=v)
    w["names"] = nm
    seq = ["s_rho", "s_w", "Cs_r", "Cs_w", "hc", "h"]
    if order:
        seq.reverse()
    for k in seq:
        if k == "h":
            put(c, dg, nm[k], c.np.ma.array(h, mask=mask) if land else h, dims, masked=bool(land), **att[k])
        elif k == "hc":
            put(c, ds, nm[k], w["hc"], (), **att[k])
        else:
            put(c, ds, nm[k], w[k], ("s_rho",) if len(w[k]) == 2 else ("s_w",), **att[k])
    w["zeta"] = None
    if nz:
        w["times"] = axis_time(c, ds, nz)
        w["zeta"] = c.reals("zeta", (nz, n, n), -3, 3)
        put(c, ds, nm["zeta"], w["zeta"], ("ocean_time",) + dims, **att["zeta"])
    return w


def at_nodes(c, w, x, t=None):
    """the mean of the four cells around a node"""
    g = (lambda i, j: x[i, j]) if t is None else (lambda i, j: x[t, i, j])
    if w["n"] == 3:
        return [[g(i, j) for j in range(3)] for i in range(3)]
    return [[(g(i, j) + g(i + 1, j) + g(i, j + 1) + g(i + 1, j + 1)) / 4 for j in range(3)] for i in range(3)]


def land_nodes(w):
    m = w["mask"]
    if m is None:
        return [[0] * 3] * 3
    if w["n"] == 3:
        return m
    return [[m[i][j] | m[i + 1][j] | m[i][j + 1] | m[i + 1][j + 1] for j in range(3)] for i in range(3)]


def verify_roms(c, d, w, skip=()):
    np = c.np
    c.check("type", type(d) is c.g.depth.ROMS_Depth, type(d).__name__)
    for k in ("s_rho", "s_w", "Cs_r", "Cs_w", "hc"):
        if k not in skip:
            c.check("shape of " + k, np.shape(getattr(d, k)) == np.shape(w[k]))
            c.check_eq(k, getattr(d, k), w[k], tol=0)
            c.check_eq(k + " among the terms", d.terms[k], w[k], tol=0)
    c.check("number of levels", d.num_levels == 3 and len(d) == 3)
    c.check("number of layers", d.num_layers == 2)
    c.check("surface level", int(d.surface_index) == (2 if w["up"] else 0))
    c.check("bottom level", int(d.bottom_index) == (0 if w["up"] else 2))
    if "bathymetry" not in skip:
        c.check("location of the bathymetry", d.bathymetry.location == "node", str(d.bathymetry.location))
        B = d.bathymetry.data[:]
        c.check("shape of the bathymetry", tuple(np.shape(B)) == (3, 3))
        want, land = at_nodes(c, w, w["h"]), land_nodes(w)
        m = np.ma.getmaskarray(B)
        for i in range(3):
            for j in range(3):
                c.check("land stays masked", bool(m[i, j]) == bool(land[i][j]))
                if not land[i][j]:
                    c.check_eq("bathymetry at the nodes", B[i, j], want[i][j])
    if "zeta" not in skip:
        if w["zeta"] is None:
            z = d.zeta.at(c.arr([[0.5, 0.5], [1.5, 0.7]], float), None)
            c.check_eq("no free surface is a flat one", z, c.arr([[0.0], [0.0]], float), tol=0)
        else:
            nz = len(w["zeta"])
            Z = d.zeta.data[:]
            c.check("shape of the free surface", tuple(np.shape(Z)) == (nz, 3, 3))
            c.check("location of the free surface", d.zeta.location == "node")
            for t in range(nz):
                want = at_nodes(c, w, w["zeta"], t)
                for i in range(3):
                    for j in range(3):
                        c.check_eq("free surface at the nodes", Z[t, i, j], want[i][j])
            if "time" not in skip:
                for T in (d.time, d.zeta.time):
                    c.check("number of times", len(T.data) == nz)
                    for a, b in zip(T.data, w["times"]):
                        c.check_eq("time", a, b)


def h_roms(c, nz, spell, hloc, land, order, files, via):
    D = c.g.depth
    p, pg = c.tmp("a.nc"), c.tmp("g.nc")
    ds = c.nc4.Dataset(p, "w")
    dg = ds if files != "two" else c.nc4.Dataset(pg, "w")
    if order:
        w = roms(c, ds, dg, nz, spell, hloc, land, order)
        coords(c, dg)
    else:
        coords(c, dg)
        w = roms(c, ds, dg, nz, spell, hloc, land, order)
    nt = max(nz, 1)
    if not nz:
        w["times"] = axis_time(c, ds, 1)
    if via == "Variable":
        put(c, ds, "temp", c.np.zeros((nt, 2, 4, 4)), ("ocean_time", "s_rho", "eta_rho", "xi_rho"), units="C")
        if nz:
            w["times"] = w["times"]
    ds.close()
    if files == "two":
        dg.close()
    if files == "file":
        kw = dict(filename=p)
    elif files == "dataset":
        kw = dict(dataset=c.nc4.Dataset(p))
    elif files == "one":
        kw = dict(data_file=p, grid_file=p)
    else:
        kw = dict(data_file=p, grid_file=pg)
    if via == "Variable":
        d = c.g.variable.Variable.from_netCDF(varname="temp", **kw).depth
    elif via == "class":
        d = D.ROMS_Depth.from_netCDF(**kw)
    else:
        d = D.Depth.from_netCDF(**kw)
    verify_roms(c, d, w)
    c.check("kind of transform", d.vtransform == 2)
    c.check("default rules", d.default_surface_boundary_condition == "extrapolate" and d.default_bottom_boundary_condition == "mask")


def h_given(c, what, nz):
    """what the caller gives takes precedence over the file's"""
    D = c.g.depth
    p = c.tmp("a.nc")
    ds = c.nc4.Dataset(p, "w")
    coords(c, ds)
    w = roms(c, ds, ds, nz, "names", "center", 0, 0)
    own = c.real("own", -2, 40)
    if what == "names":
        put(c, ds, "other_hc", own, ())
    ds.close()
    V = c.g.variable.Variable
    kw, skip = {}, ()
    cls = D.ROMS_Depth if c.choice("cls", 2) else D.Depth
    if what == "bathymetry":
        g = c.g.grids.Grid.from_netCDF(p)
        kw = dict(bathymetry=V(data=c.reals("b", (3, 3), 1, 100), grid=g, name="mine"), grid=g)
        skip = ("bathymetry",)
    elif what == "zeta":
        g = c.g.grids.Grid.from_netCDF(p)
        T = c.g.time.Time(data=[c.dt("own_t", 0, 1000000)])
        kw = dict(zeta=V(data=c.reals("z", (1, 3, 3), 1, 100), grid=g, time=T, name="mine"))
        skip = ("zeta",)
    elif what == "time":
        t = c.dt("own_t", 0, 1000000)
        kw = dict(time=c.g.time.Time(data=[t + c.delta(3600 * i) for i in range(max(nz, 1))]))
        skip = ("time",)
    elif what == "shift":
        d0 = c.td("d", -10**6, 10**6)
        kw = dict(displacement=d0)
        if nz:
            w["times"] = [x + d0 for x in w["times"]]
    elif what == "tz":
        kw = dict(tz_offset=-7)
    elif what == "rules":
        kw = dict(surface_boundary_condition="mask", bottom_boundary_condition="extrapolate", vtransform=1, name="mine")
    elif what == "names":
        kw = dict(terms={"hc": "other_hc"})
        w["hc"] = own
    elif what == "values":
        terms = {k: w[k] for k in ("s_rho", "s_w", "Cs_r", "Cs_w")}
        terms["hc"] = own
        kw = dict(terms=terms)
        w["hc"] = own
    d = cls.from_netCDF(filename=p, **kw)
    verify_roms(c, d, w, skip)
    for k in ("bathymetry", "zeta", "time"):
        if k in kw:
            c.check(k + " is the caller's", getattr(d, k) is kw[k])
    if what == "zeta":
        c.check("time of the caller's free surface", d.time is kw["zeta"].time)
    if what == "time" and nz:
        c.check("time of the free surface", d.zeta.time is kw["time"])
    if what == "tz" and nz:
        c.check("timezone", d.time.tz_offset == -7)
    if what == "rules":
        c.check("rules", (d.default_surface_boundary_condition, d.default_bottom_boundary_condition, d.vtransform, d.name) == ("mask", "extrapolate", 1, "mine"))


def h_fvcom(c, nz, attrs, order, via, up):
    D, np = c.g.depth, c.np
    p = c.tmp("f.nc")
    ds = c.nc4.Dataset(p, "w")
    put(c, ds, "lon", c.arr([0.0, 1.0, 0.0, 1.0], float), ("node",))
    put(c, ds, "lat", c.arr([0.0, 0.0, 1.0, 1.0], float), ("node",))
    put(c, ds, "nv", c.arr([[1, 2], [2, 4], [3, 3]], int), ("three", "nele"), "i4")
    lev, lay = c.reals("siglev", (3, 4), -1, 0), c.reals("siglay", (2, 4), -1, 0)
    a = ((lambda i: i) if up else (lambda i: 2 - i))
    c.assume(lev[a(0), 0] < lev[a(1), 0])
    c.assume(lev[a(1), 0] < lev[a(2), 0])
    h = c.reals("h", (4,), 1, 5000)
    at = (lambda s: dict(standard_name=s)) if attrs else (lambda s: {})
    seq = ["lay", "lev", "h"]
    if order:
        seq.reverse()
        put(c, ds, "h_center", c.arr([1.0, 2.0], float), ("nele",), **at("sea_floor_depth_below_geoid"))
        put(c, ds, "siglay_center", c.arr([[1.0, 2.0], [0.0, 3.0]], float), ("siglay", "nele"), **at("ocean_sigma/general_coordinate"))
    for k in seq:
        if k == "h":
            put(c, ds, "h", h, ("node",), **at("sea_floor_depth_below_geoid"))
        elif k == "lay":
            put(c, ds, "siglay", lay, ("siglay", "node"), **at("ocean_sigma/general_coordinate"))
        else:
            put(c, ds, "siglev", lev, ("siglev", "node"), **at("ocean_sigma/general_coordinate"))
    times = axis_time(c, ds, max(nz, 1), "time")
    if nz:
        z = c.reals("zeta", (nz, 4), -3, 3)
        put(c, ds, "zeta", z, ("time", "node"), **at("sea_surface_height_above_geoid"))
    put(c, ds, "temp", np.zeros((max(nz, 1), 2, 4)), ("time", "siglay", "node"), units="C")
    ds.close()
    if via == "Variable":
        d = c.g.variable.Variable.from_netCDF(filename=p, varname="temp").depth
    elif via == "class":
        d = D.FVCOM_Depth.from_netCDF(data_file=p, grid_file=p)
    else:
        d = D.Depth.from_netCDF(dataset=c.nc4.Dataset(p))
    c.check("type", type(d) is D.FVCOM_Depth, type(d).__name__)
    c.check("shape of the levels", tuple(np.shape(d.siglev)) == (3, 4))
    c.check("shape of the layers", tuple(np.shape(d.siglay)) == (2, 4))
    c.check_eq("levels", d.siglev, lev, tol=0)
    c.check_eq("layers", d.siglay, lay, tol=0)
    c.check("number of levels", d.num_levels == 3)
    c.check("number of layers", d.num_layers == 2)
    c.check("surface level", int(d.surface_index) == (2 if up else 0))
    c.check("bottom level", int(d.bottom_index) == (0 if up else 2))
    c.check("location of the bathymetry", d.bathymetry.location == "node")
    c.check_eq("bathymetry", d.bathymetry.data[:], h, tol=0)
    if nz:
        c.check_eq("free surface", d.zeta.data[:], z, tol=0)
        c.check("number of times", len(d.time.data) == nz)
        for a, b in zip(d.time.data, times):
            c.check_eq("time", a, b)
    else:
        c.check_eq("no free surface is a flat one", d.zeta.at(c.arr([[0.3, 0.3]], float), None), c.arr([[0.0]], float), tol=0)


def h_level(c, n, name, down, via, kw):
    """fixed levels: the file's, with the one nearest the surface at zero"""
    D, np = c.g.depth, c.np
    p = c.tmp("l.nc")
    ds = c.nc4.Dataset(p, "w")
    put(c, ds, "lon", c.arr([0.0, 1.0, 2.0], float), ("lon",))
    put(c, ds, "lat", c.arr([0.0, 1.0], float), ("lat",))
    L = increasing(c, "z", n, 0, 8000)
    if not down:
        L.reverse()
    a = dict(units="m")
    vn = name
    if name in ("standard", "long"):
        vn = "zlev"
        a[name + "_name"] = "depth"
    put(c, ds, vn, c.arr(L, float), ("lev",), **a)
    put(c, ds, "dummy", c.arr(L, float), ("lev",), long_name="d")
    times = axis_time(c, ds, 2, "time")
    put(c, ds, "temp", np.zeros((2, n, 2, 3)), ("time", "lev", "lat", "lon"), units="C")
    put(c, ds, "surf", np.zeros((2, 2, 3)), ("time", "lat", "lon"), units="C")
    ds.close()
    opt = dict(default_surface_boundary_condition="mask", default_bottom_boundary_condition="extrapolate") if kw == "rules" else {}
    given = None
    if kw == "terms":
        given = c.arr([2.0, 7.0, 9.0][:n] if down else [9.0, 7.0, 2.0][-n:], float)
        opt["terms"] = {"depth_levels": given}
        L = list(given)
    if kw == "name":
        opt["name"] = "mine"
    if via == "Variable":
        d = c.g.variable.Variable.from_netCDF(filename=p, varname="temp", **opt).depth
        c.check("no depth for a surface variable", c.g.variable.Variable.from_netCDF(filename=p, varname="surf").depth is None)
    elif via == "class":
        d = D.L_Depth.from_netCDF(filename=p, **opt)
    else:
        d = D.Depth.from_netCDF(dataset=c.nc4.Dataset(p), **opt)
    c.check("type", type(d) is D.L_Depth, type(d).__name__)
    top = 0 if down else n - 1
    want = [0.0 if i == top else L[i] for i in range(n)]
    c.check("number of levels", d.num_levels == n)
    c.check("number of layers", d.num_layers == n - 1)
    c.check_eq("levels", d.depth_levels, c.arr(want, float), tol=0)
    c.check_eq("levels among the terms", d.terms["depth_levels"], c.arr(want, float), tol=0)
    c.check("surface level", int(d.surface_index) == top)
    c.check("bottom level", int(d.bottom_index) == n - 1 - top)
    if kw == "rules":
        c.check("rules", d.default_surface_boundary_condition == "mask" and d.default_bottom_boundary_condition == "extrapolate")
    if kw == "name":
        c.check("name", d.name == "mine")
    if given is not None:
        c.check_eq("caller's terms unchanged", given, c.arr([2.0, 7.0, 9.0][:n] if down else [9.0, 7.0, 2.0][-n:], float), tol=0)
        c.check("caller's terms still name the same array", opt["terms"]["depth_levels"] is given)
    else:
        re = c.nc4.Dataset(p)
        c.check_eq("file unchanged", re.variables[vn][:], c.arr(L, float), tol=0)
        re.close()


def h_none(c, kw, via):
    """no depth coordinate in the file: the surface only"""
    D, np = c.g.depth, c.np
    p = c.tmp("l.nc")
    ds = c.nc4.Dataset(p, "w")
    put(c, ds, "lon", c.arr([0.0, 1.0, 2.0], float), ("lon",))
    put(c, ds, "lat", c.arr([0.0, 1.0], float), ("lat",))
    times = axis_time(c, ds, 2, "time")
    put(c, ds, "temp", np.zeros((2, 3, 2, 3)), ("time", "lev", "lat", "lon"), units="C")
    if c.choice("part", 2):  # part of a system is no system
        put(c, ds, "s_rho", c.arr([-1.0, 0.0], float), ("s",))
        put(c, ds, "siglay", c.arr([-1.0, 0.0], float), ("s",))
    ds.close()
    opt = {}
    k = c.int("k", -3, 2)
    if kw != "none":
        opt["surface_index"] = k
    if kw == "named":
        opt["name"] = "mine"
    if via == "surface_only":
        d = D.Depth.surface_only(**opt)
    elif via == "Variable":
        d = c.g.variable.Variable.from_netCDF(filename=p, varname="temp", **opt).depth
    else:
        d = D.Depth.from_netCDF(filename=p, **opt)
    c.check("type", type(d) is D.DepthBase, type(d).__name__)
    c.check_eq("surface level", d.surface_index, k if "surface_index" in opt else -1, tol=0)
    c.check("levels", d.num_levels == 1 and d.num_layers == 0)
    c.check("name", d.name == opt.get("name"), repr(d.name))
    pts = c.reals("P", (2, 3), -10, 10)
    ind, al = d.interpolation_alphas(pts, None, (3,))
    for i in range(2):
        c.check_eq("every point takes the surface level", ind[i], k if "surface_index" in opt else -1, tol=0)
        c.check_eq("weight", al[i], 0.0, tol=0)


def h_two(c, pair):
    """two systems in one file are refused, unless the caller says which"""
    D, np = c.g.depth, c.np
    p = c.tmp("a.nc")
    ds = c.nc4.Dataset(p, "w")
    coords(c, ds)
    w = roms(c, ds, ds, 1, "names", "center", 0, 0) if "R" in pair else None
    if "L" in pair:
        put(c, ds, c.choose("n", ("depth", "depth_levels", "Depth")), c.reals("z", (2,), 0, 100), ("lev",))
    if "F" in pair:
        put(c, ds, "siglay", c.reals("siglay", (2, 4), -1, 0), ("siglay", "node"))
        put(c, ds, "siglev", c.reals("siglev", (3, 4), -1, 0), ("siglev", "node"))
        if "R" not in pair:
            put(c, ds, "h", c.reals("hh", (4,), 1, 50), ("node",))
    ds.close()
    c.raises("refused", ValueError, lambda: D.Depth.from_netCDF(filename=p))
    if "R" in pair:
        verify_roms(c, D.ROMS_Depth.from_netCDF(filename=p), w)


def h_missing(c, what):
    D = c.g.depth
    if what == "terms":
        cls = (D.L_Depth, D.ROMS_Depth, D.FVCOM_Depth)[c.choice("cls", 3)]
        c.raises("terms are required", ValueError, lambda: cls())
        return
    p = c.tmp("a.nc")
    ds = c.nc4.Dataset(p, "w")
    coords(c, ds)
    put(c, ds, "s_rho", c.reals("s", (2,), -1, 0), ("s_rho",))
    ds.close()
    c.raises("bathymetry is required", ValueError, lambda: D.ROMS_Depth.from_netCDF(filename=p))


def jobs(tier):
    out = []
    T = tier != "quick"
    i = 0
    for spell in ("names", "long", "long2", "standard", "both"):
        for nz in (0, 1, 2):
            for files in ("file", "dataset", "one", "two"):
                for hloc, land in (("center", 0), ("center", 1), ("center", 2), ("node", 0), ("node", 1)):
                    i += 1
                    via = ("Depth", "class", "Variable")[(i + i // 5) % 3]
                    if T or i % 2 == 0:
                        out.append(("h_roms", dict(nz=nz, spell=spell, hloc=hloc, land=land, order=(i // 3) % 2, files=files, via=via), {}))
    for what in ("bathymetry", "zeta", "time", "shift", "tz", "rules", "names", "values"):
        for nz in (0, 1, 2):
            out.append(("h_given", dict(what=what, nz=nz), {}))
    for nz in (0, 1, 2):
        for attrs in (0, 1):
            for order in (0, 1):
                for up in (0, 1):
                    for via in (("Depth", "class", "Variable") if T else (("Depth", "class", "Variable")[(nz + attrs + order + up) % 3],)):
                        out.append(("h_fvcom", dict(nz=nz, attrs=attrs, order=order, via=via, up=up), {}))
    i = 0
    for n in (1, 2, 3, 4):
        for name in ("depth", "depth_levels", "Depth", "standard", "long"):
            for down in (0, 1):
                for kw in ("none", "rules", "terms", "name"):
                    if kw == "terms" and n == 4:
                        continue
                    i += 1
                    via = ("Depth", "class", "Variable")[(i + i // 4) % 3]
                    if via == "Variable" and kw != "none":
                        via = "Depth"
                    if T or i % 3 != 1:
                        out.append(("h_level", dict(n=n, name=name, down=down, via=via, kw=kw), {}))
    for kw in ("none", "index", "named"):
        for via in ("Depth", "surface_only", "Variable"):
            if kw == "none" or via != "Variable":
                out.append(("h_none", dict(kw=kw, via=via), {}))
    for pair in ("RL", "RF", "LF", "RLF"):
        out.append(("h_two", dict(pair=pair), {}))
    for what in ("terms", "bathymetry"):
        out.append(("h_missing", dict(what=what), {}))
    return out
