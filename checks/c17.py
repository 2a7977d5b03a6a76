"""C17: structured-grid paddings and metadata: parsing, slices, loading, saving"""
BOUNDS = ("dimension strings with every padding type per dimension (4 x 4), either order of the dimensions, 5 spacings, names separated by one or several blanks, tabs or line ends, names with digits and underscores; arrays of 3-5 x 3-5 nodes with symbolic coordinates; "
          "files with every combination of face paddings, dimension order of the attribute, edge and vertical dimensions, face and edge coordinates, angle, masks present or not, variables on nodes, faces and edges with or without a location attribute, grids with variables named like grid attributes; saved and read back")
OUTSIDE = "dimension names with characters other than letters, digits and underscores; arrays stored x first for edge variables; the values of data variables in a saved grid (save_as_netcdf writes the grid); angles computed from centers are compared at fixed positions only (beyond the solver)"
ASSUMPTIONS = ["netCDF4 stores and returns what was written (stand-in; replays use real files)"]
PAD = ("none", "low", "high", "both")
EXTRA = dict(none=0, low=1, high=1, both=2)
LO = dict(none=0, low=1, high=0, both=1)
SP = ("{f}: {n} (padding: {p})", "{f}:{n} (padding: {p})", "{f}: {n} (padding:{p})", "{f}:  {n}  (padding:  {p})", "{f}: {n}(padding: {p})")


def h_parse(c, sp):
    P = c.g.pysgrid.read_netcdf.parse_padding
    d = (("xi_rho", "xi_psi"), ("eta_2", "Eta3_psi"), ("NMAXZ", "NMAX"))
    k = c.choice("n", 3)
    items, s = [], []
    for i in range(k + 1):
        if k and c.choice(f"plain{i}", 3) == 0:
            s.append(d[i][1] if i else "%s: %s" % d[i])
            continue
        p = c.choose(f"p{i}", PAD)
        s.append(SP[sp].format(f=d[i][0], n=d[i][1], p=p))
        items.append((d[i][0], d[i][1], p))
    text = " ".join(s)
    if not items:
        c.raises("no padding", ValueError, P, text, "grid")
        return
    r = P(text, "grid")
    c.check("pairs and paddings", [(x.face_dim, x.node_dim, x.padding) for x in r] == items, f"{text} {r}")
    c.check("topology variable", all(x.mesh_topology_var == "grid" for x in r))


def h_axes(c, gap=" ", sep=" "):
    P = c.g.pysgrid.read_netcdf.parse_axes
    names = ("NMAX", "MMAXZ", "lon_2", "x3", "s_rho")
    perm = c.choose("perm", ("XYZ", "YXZ", "ZYX", "XY", "YX", "Z", "zyx"))
    got = {}
    parts = []
    for i, a in enumerate(perm):
        n = names[(i + c.choice(f"n{i}", 3)) % 5]
        got[a.upper()] = n
        parts.append(f"{a}:{gap}{n}")
    r = P(sep.join(parts))
    c.check("axes", tuple(r) == (got.get("X"), got.get("Y"), got.get("Z")), f"{parts} {r}")


def h_slices(c, n0, n1):
    """the slices select the unpadded elements; the indices of cells move with them"""
    G = c.g.pysgrid.sgrid.SGrid
    p0, p1 = c.choose("p0", PAD + (None,)), c.choose("p1", PAD + (None,))
    e = lambda p: EXTRA[p or "none"]
    N0, N1 = n0 + e(p0), n1 + e(p1)
    A = [[c.real(f"a{i}_{j}", -9, 9) for j in range(N1)] for i in range(N0)]
    a = c.arr(A, float)
    g = G(node_lon=c.np.zeros((n0 + 1, n1 + 1)), node_lat=c.np.zeros((n0 + 1, n1 + 1)), face_padding=(p0, p1))
    lo = [LO[p or "none"] for p in (p0, p1)]
    exp = c.arr([[A[i + lo[0]][j + lo[1]] for j in range(n1)] for i in range(n0)], float)
    c.check_eq("slice", a[g.get_padding_slices(g.center_padding)], exp, tol=0)
    for ax, p in ((0, p0), (1, p1)):
        s = G.padding_slices[p or "none"]
        b = a[slice(*s), :] if ax == 0 else a[:, slice(*s)]
        c.check("number left", b.shape[ax] == (n0, n1)[ax])
    x, y = c.int("i", 0, n0 - 1), c.int("j", 0, n1 - 1)
    r = g.apply_padding_to_idxs(c.arr([[x, y]], int), (p0, p1))
    c.check_eq("index", r, c.arr([[x + lo[0], y + lo[1]]], int), tol=0)


def turn(c, a, b):
    """the angle from east of the direction from a to b, in radians, up to whole turns"""
    np, d = c.np, c.np.pi / 180
    lo, y0, y1 = (b[0] - a[0]) * d, a[1] * d, b[1] * d
    east = np.cos(y1) * np.sin(lo)
    north = np.sin(y1) * np.cos(y0) - np.cos(y1) * np.sin(y0) * np.cos(lo)
    return np.pi / 2 - np.arctan2(east, north)


def same_turn(c, label, got, want):
    pi = c.np.pi
    c.check(label, c.Or(*[c.And(got - want < 2 * k * pi + 1e-7, want - got < 1e-7 - 2 * k * pi) for k in (-2, -1, 0, 1, 2)]), f"{got} {want}")


def h_angle(c, case):
    """angles of the rows of a grid that come without any (fixed positions: the angle arithmetic is beyond the solver)"""
    f = c.g.pysgrid.utils.calculate_angle_from_true_east
    P = [[[0.0, 0.0], [1.0, 0.5], [1.5, 2.0]], [[-1.0, 60.0], [-1.0, 61.0], [-3.0, 60.5]]]
    if case == "east":
        P = [[[i + 0.0, 0.0] for i in range(3)]] * 2
    elif case == "north":
        P = [[[10.0, i * 20.0 - 30] for i in range(3)]] * 2
    elif case == "dateline":
        P = [[[179.5, 10.0], [-179.5, 10.5], [-178.0, 10.0]]] * 2
    A = c.arr(P, float)
    got = f(A[:, :-1], A[:, 1:])
    c.check("one angle per center", tuple(got.shape) == (2, 3))
    for i in range(2):
        for j in range(2):
            same_turn(c, "direction to the next center", got[i, j], turn(c, P[i][j], P[i][j + 1]))
            if case == "east":
                same_turn(c, "east", got[i, j], 0.0)
            if case == "north":
                same_turn(c, "north", got[i, j], c.np.pi / 2)
        c.check_eq("the last as the one before", got[i, 2], got[i, 1], tol=0)


def build(c, path, ny, nx, pads, order=0, sp=0, edges=True, ecoords=True, centers=True, vertical=True, angle=False, masks=(), flags=True, names="roms", sym=(), coordatt=True, data=(), attloc=False, gap=" ", around="", maskdims=False):
    """an SGRID file; pads: (y, x); returns what was put in"""
    ds = c.nc4.Dataset(path, "w")
    py, px = pads
    dims = dict(eta_psi=ny, xi_psi=nx, eta_rho=ny - 1 + EXTRA[py], xi_rho=nx - 1 + EXTRA[px], eta_u=ny - 1 + EXTRA[py], xi_u=nx, eta_v=ny, xi_v=nx - 1 + EXTRA[px], s_rho=2, s_w=3)
    for k, v in dims.items():
        ds.createDimension(k, v)
    t = ds.createVariable("grid", "i4", ())
    t.cf_role = "grid_topology"
    t.topology_dimension = 2
    t.node_dimensions = f"xi_psi{gap}eta_psi"
    f = [SP[sp].format(f="xi_rho", n="xi_psi", p=px), SP[sp].format(f="eta_rho", n="eta_psi", p=py)]
    t.face_dimensions = " ".join(f[::-1] if order else f)
    if edges in (True, "1"):
        t.edge1_dimensions = "xi_u: xi_psi " + SP[sp].format(f="eta_u", n="eta_psi", p=py)
    if edges in (True, "2"):
        t.edge2_dimensions = SP[sp].format(f="xi_v", n="xi_psi", p=px) + " eta_v: eta_psi"
    if vertical:
        t.vertical_dimensions = "s_rho: s_w (padding: none)"
    nm = {"roms": ("lon_psi", "lat_psi", "lon_rho", "lat_rho", "lon_u", "lat_u", "lon_v", "lat_v"),
          "attrs": ("node_lon", "node_lat", "center_lon", "center_lat", "edge1_lon", "edge1_lat", "edge2_lon", "edge2_lat")}[names]
    put, where = {}, {}

    def var(name, dd, symbolic, k, dtype="f8"):
        v = ds.createVariable(name, dtype, dd)
        shp = tuple(dims[x] for x in dd)
        vals = c.reals(name, shp, -180, 180) if symbolic else c.arr([[0.5 * i + 0.25 * j + k for j in range(shp[-1])] for i in range(shp[-2])], float)
        v[:] = vals
        where[name] = dd
        return v, vals

    loc = {"node": ("eta_psi", "xi_psi"), "center": ("eta_rho", "xi_rho"), "edge1": ("eta_u", "xi_u"), "edge2": ("eta_v", "xi_v")}
    for i, (l, dd) in enumerate(loc.items()):
        if l == "center" and not centers or l.startswith("edge") and not ecoords:
            continue
        for k, d in enumerate(("lon", "lat")):
            _, put[f"{l}_{d}"] = var(nm[2 * i + k], dd, l in sym, i + 2 * k)
        if coordatt or l in ("node", "center"):
            setattr(t, {"center": "face"}.get(l, l) + "_coordinates", f"{around}{nm[2 * i]}{gap}{nm[2 * i + 1]}{around}")
    if angle:
        _, put["angles"] = var("angle", loc["center"], "angle" in sym, 0)
    for m in masks:
        md = loc[m]
        if maskdims:  # dimensions of its own: the shape tells
            md = tuple(f"m{d}" for d in loc[m])
            for d, o in zip(md, loc[m]):
                if d not in dims:
                    ds.createDimension(d, dims[o])
                    dims[d] = dims[o]
        v = ds.createVariable("mask_" + {"center": "rho", "node": "psi", "edge1": "u", "edge2": "v"}[m], "i4", md)
        shp = tuple(dims[x] for x in loc[m])
        vals = c.arr([[c.int(f"m{m}{i}_{j}", 0, 1) if (i, j) in ((0, 0), (1, 1)) and "mask" in sym else (i + j) % 2 for j in range(shp[1])] for i in range(shp[0])], int)
        v[:] = vals
        if flags:
            v.flag_values = c.arr([0, 1], c.np.int32)
            v.flag_meanings = "land water"
        else:
            v.option_0 = "land"
            v.option_1 = "water"
        put[m + "_mask"] = vals
        where["mask"] = 1
    for name, l, has in data:
        dd = loc[l] if l != "cube" else ("s_rho",) + loc["center"]
        v = ds.createVariable(name, "f8", dd)
        v.grid = "grid"
        if has:
            v.location = {"center": "face", "cube": "face"}.get(l, l)
        v.standard_name = "sea_water_x_velocity"
        v.coordinates = f"{around}lon_rho{gap}lat_rho{around}"
        ax = c_axes(name, l)
        if any(ax):
            v.axes = gap.join(f"{k}:{gap}{x}" for k, x in zip("XYZ", ax) if x)
    for k in ("node_dimensions", "face_dimensions", "edge1_dimensions", "edge2_dimensions", "vertical_dimensions", "node_coordinates", "face_coordinates", "edge1_coordinates", "edge2_coordinates"):
        if hasattr(t, k):
            put[k] = getattr(t, k)
    put["paddings"] = [("eta_rho", "eta_psi", py), ("xi_rho", "xi_psi", px)][:: 1 if order else -1]
    put["paddings"] += [("eta_u", "eta_psi", py)] if edges in (True, "1") else []
    put["paddings"] += [("xi_v", "xi_psi", px)] if edges in (True, "2") else []
    if vertical:
        put["paddings"] += [("s_rho", "s_w", "none")]
    return ds, put, dims


def c_axes(name, l):
    k = {"a": "XYZ", "x": "X", "y": "Y", "z": "Z"}.get(name[-1], "")
    return tuple(x if d in k and (d != "Z" or l == "cube") else None for d, x in zip("XYZ", ("xi_rho", "eta_rho", "s_rho")))


def verify(c, g, put, pads, dims, label):
    for k in ("node", "center", "edge1", "edge2"):
        for d in ("lon", "lat"):
            n = f"{k}_{d}"
            got = getattr(g, n)
            if n in put:
                c.check(f"{label}: {n} is there", got is not None)
                c.check_eq(f"{label}: {n}", got, put[n], tol=0)
            else:
                c.check(f"{label}: no {n}", got is None)
        m = k + "_mask"
        got = getattr(g, m)
        if m in put:
            c.check(f"{label}: {m} is there", got is not None)
            c.check_eq(f"{label}: {m}", got[:], put[m], tol=0)
            mk = c.g.utilities.convert_mask_to_numpy_mask(got)
            c.check_eq(f"{label}: {m} polarity", mk, put[m] == 0, tol=0)
        else:
            c.check(f"{label}: no {m}", got is None)
    c.check(f"{label}: face padding", tuple(g.face_padding) == tuple(pads), f"{g.face_padding}")
    c.check(f"{label}: center padding", tuple(g.get_padding_by_location("center")) == tuple(pads), f"{g.face_padding}")
    c.check(f"{label}: edge1 padding", tuple(g.edge1_padding) == (pads[0], None), f"{g.edge1_padding}")
    c.check(f"{label}: edge2 padding", tuple(g.edge2_padding) == (None, pads[1]), f"{g.edge2_padding}")
    c.check(f"{label}: dimensions", dict(g.dimensions) == dims, f"{g.dimensions}")
    c.check(f"{label}: topology variable", g.grid_topology_var == "grid")
    for k in ("node_dimensions", "face_dimensions", "edge1_dimensions", "edge2_dimensions", "vertical_dimensions"):
        c.check(f"{label}: {k}", getattr(g, k) == put.get(k), f"{getattr(g, k)}")
    for k in ("node_coordinates", "face_coordinates", "edge1_coordinates", "edge2_coordinates"):
        got = getattr(g, k)
        c.check(f"{label}: {k}", (tuple(got) if got is not None else None) == (tuple(put[k].split()) if k in put else None), f"{got}")
    c.check(f"{label}: topology dimension", g.topology_dimension == 2)
    got = [(q.mesh_topology_var,) + (q.face_dim, q.node_dim, q.padding) for q in g.all_padding()]
    c.check(f"{label}: paddings", got == [("grid",) + q for q in put["paddings"]], f"{got}")
    if "vertical_dimensions" in put:
        c.check(f"{label}: vertical padding", tuple(g.vertical_padding) == (None, "none"), f"{g.vertical_padding}")
    if "angles" in put:
        c.check_eq(f"{label}: angles", g.angles[:], put["angles"], tol=0)


def variables(c, g, data, label, edges=True):
    for name, l, has in data:
        v = getattr(g, name)
        c.check(f"{label}: location of {name}", v.location == {"center": "face", "cube": "face"}.get(l, l), f"{v.location}")
        c.check(f"{label}: axes", (v.x_axis, v.y_axis, v.z_axis) == c_axes(name, l), f"{v.x_axis} {v.y_axis} {v.z_axis}")
        c.check(f"{label}: standard name", v.standard_name == "sea_water_x_velocity")
        c.check(f"{label}: coordinates", tuple(v.coordinates) == ("lon_rho", "lat_rho"), f"{v.coordinates}")
        c.check(f"{label}: on the grid", v.grid == "grid")
        c.check(f"{label}: listed", name in g.variables and name not in g.non_grid_variables, f"{g.non_grid_variables}")
        c.check(f"{label}: direction", v.vector_axis == "X", f"{v.vector_axis}")
        if l in ("edge1", "edge2") and edges:  # u averages along columns, v along rows
            c.check(f"{label}: averaging axes of {name}", (v.center_axis, v.node_axis) == ((1, 0) if l == "edge1" else (0, 1)), f"{v.center_axis} {v.node_axis}")


def h_file(c, pads, ny=3, nx=4, save=True, data=(), via="load", **kw):
    path = c.tmp("s.nc")
    ds, put, dims = build(c, path, ny, nx, pads, data=data, **kw)
    S = c.g.pysgrid.sgrid.SGrid
    if via == "load":
        g = S.load_grid(ds)
    elif via == "grid":
        g = c.g.grids.Grid.from_netCDF(dataset=ds)
        c.check("grid type", isinstance(g, c.g.grids.Grid_S))
    else:
        ds.close()
        g = S.load_grid(path)
    verify(c, g, put, pads, dims, "loaded")
    variables(c, g, data, "loaded")
    if "center_lon" in put and "angles" not in put:
        X, Y = put["center_lon"], put["center_lat"]
        c.check("angles are there", tuple(g.angles.shape) == tuple(X.shape))
        for i in range(X.shape[0]):
            for j in range(X.shape[1] - 1):
                same_turn(c, "angle", g.angles[i, j], turn(c, (X[i, j], Y[i, j]), (X[i, j + 1], Y[i, j + 1])))
    elif "angles" not in put:
        c.check("no angles", g.angles is None)
    for name, l, has in data:
        # the part of the array that lies in cells
        v = getattr(g, name)
        shp = [dims[d] for d in v.dimensions]
        A = c.arr(c.np.arange(shp[-2] * shp[-1]), float).reshape(shp[-2], shp[-1])
        got = A[tuple(v.center_slicing)[-2:]]
        lo = [LO[p] for p in pads]
        sel = {"node": (0, 0), "center": (1, 1), "cube": (1, 1), "edge1": (1, 0), "edge2": (0, 1)}[l]
        s = tuple(slice(lo[a], lo[a] + n - 1) if sel[a] else slice(None) for a, n in enumerate((ny, nx)))
        c.check_eq(f"unpadded part of {name}", got, A[s], tol=0)
    if save:
        out = c.tmp("o.nc")
        g.save_as_netcdf(out)
        h = S.load_grid(out)
        verify(c, h, put, pads, dims, "saved")
        variables(c, h, data, "saved")
        if "center_lon" in put and "angles" not in put:
            c.check_eq("angles", h.angles[:], g.angles[:], tol=0)


def h_refused(c, what):
    """files without exactly one topology of two dimensions are refused; half a pair of coordinates is none"""
    S = c.g.pysgrid.sgrid.SGrid
    path = c.tmp("s.nc")
    if what == "half":
        ds = c.nc4.Dataset(path, "w")
        for k, v in dict(nx=4, ny=3, cx=3, cy=2).items():
            ds.createDimension(k, v)
        t = ds.createVariable("grid", "i4", ())
        t.cf_role = "grid_topology"
        t.topology_dimension = 2
        t.node_dimensions = "nx ny"
        t.face_dimensions = "cx: nx (padding: none) cy: ny (padding: none)"
        has = [n for n in ("lon", "lat") if c.choice("has_" + n, 2)]
        put = {}
        for n in has:
            put[n] = c.reals(n, (3, 4), -90, 90)
            ds.createVariable(n, "f8", ("ny", "nx"))[:] = put[n]
        ds.createVariable("lon_c", "f8", ("cy", "cx"))[:] = c.np.zeros((2, 3))
        g = S.load_grid(ds)
        if len(has) == 2:
            c.check_eq("found by name", g.node_lon, put["lon"], tol=0)
            c.check_eq("found by name", g.node_lat, put["lat"], tol=0)
        else:
            c.check("no nodes", g.node_lon is None and g.node_lat is None)
        c.check("no others", all(getattr(g, k) is None for k in ("center_lon", "center_lat", "edge1_lon", "edge2_lon")))
        return
    ds, put, dims = build(c, path, 3, 3, ("none", "none"))
    t = ds.variables["grid"]
    if what == "none":
        del t.cf_role
    elif what == "two":
        u = ds.createVariable(c.choose("other", ["a_grid", "zz"]), "i4", ())
        u.cf_role = "grid_topology"
        u.topology_dimension = 2
    elif what == "dimension":
        d = c.choose("d", [None, 1, 3, 0])
        if d is None:
            del t.topology_dimension
        else:
            t.topology_dimension = d
    c.raises("refused", ValueError, S.load_grid, ds)
    c.raises("refused", ValueError, c.g.pysgrid.read_netcdf.find_grid_topology_var, ds)
    ds.close()
    c.raises("refused", ValueError, S.load_grid, path)


def jobs(tier):
    deep = tier != "quick"
    out = [("h_parse", dict(sp=i), {}) for i in range(5)] + [("h_axes", dict(gap=g, sep=t), {}) for g, t in ((" ", " "), ("  ", "  "), ("", " "), (" ", ", "))]
    out += [("h_refused", dict(what=w), {}) for w in ("none", "two", "dimension", "half")]
    for n0, n1 in ((2, 3), (1, 2)) + (((3, 3),) if deep else ()):
        out.append(("h_slices", dict(n0=n0, n1=n1), {}))
    F = lambda **k: out.append(("h_file", k, {}))
    for case in ("east", "north", "dateline", "plain"):
        out.append(("h_angle", dict(case=case), {}))
    k = 0
    data = (("u", "edge1", 0), ("v", "edge2", 0), ("w", "center", 0), ("za", "cube", 0))
    dloc = (("ua", "edge1", 1), ("v", "edge2", 1), ("w", "center", 1), ("n", "node", 1))
    for py in PAD:
        for px in PAD:
            for order in (0, 1):
                k += 1
                sy = (("node",), ("center", "angle"), ("edge1",), ("edge2",))[k % 4]
                F(pads=(py, px), order=order, sp=k % 5, sym=sy, angle=True, data=(data, dloc)[k % 2], via=("load", "file", "grid")[k % 3], vertical=k % 5 != 0)
                F(pads=(py, px), order=order, sp=0, sym=("mask", "node"), angle="center" in sy, masks=(("center",), ("node", "center"), ("edge1", "edge2"))[k % 3] if py != "high" or k % 3 != 1 else ("center",), via=("load", "grid")[k % 2], ny=3, nx=5)
    for v in (0, 1):
        for e in (0, 1, "1", "2"):
            for ec in (0, 1) if e == 1 else (0,):
                for ce in (0, 1):
                    for a in (0, 1) if ce else (0,):
                        k += 1
                        F(pads=(("both", "both"), ("low", "none"))[k % 2], vertical=bool(v), edges=e if isinstance(e, str) else bool(e), ecoords=bool(ec), centers=bool(ce), angle=bool(a), sym=("node",) + (("center",) if a else ()), via=("load", "file", "grid")[k % 3])
    for masks in (("center",), ("node",), ("edge1", "edge2"), ("node", "center")):
        F(pads=("both", "both"), ny=3, nx=4, masks=masks, maskdims=True, sym=("mask",), angle=True)
        F(pads=("both", "low"), masks=masks, flags=False, sym=("mask",), angle=True, data=(("wx", "center", 1), ("wy", "center", 0), ("wz", "cube", 0)))
    for i, (gap, around) in enumerate((("  ", ""), (" ", " "), ("   ", "  "), ("\t", ""), ("\n", " "), ("  ", " "))):
        F(pads=(("both", "both"), ("low", "none"))[i % 2], gap=gap, around=around, sym=("node", "edge2"), angle=True, data=(data, dloc)[i // 2 % 2], via=("load", "grid", "file")[i % 3])
    for pads in (("both", "both"), ("low", "high"), ("none", "both")):
        F(pads=pads, names="attrs", sym=("node", "edge1"), angle=True, data=data)
    return out
