"""C24: grids read from files have the file's coordinates, faces and type"""
import os

BOUNDS = ("files holding a triangular (6 nodes, 4 faces), curvilinear (3x3 nodes with every subset of centers, edges and masks) or rectangular (4 x 3) grid with symbolic coordinates and faces, under every accepted variable name in lower, upper and title case, "
          "or under other names told by a topology mapping with other grids' default names present; type told by the contents, a global attribute, a name (any case) or a class, through Grid, the class itself, a Variable, a VectorVariable or a Dataset; one file, "
          "open dataset or separate grid file; structured files whose topology lists its coordinates, or leaves them to be found by location attribute, coordinates attribute, name or standard name; mixed order, vertical coordinates present; load_from_varnames with the optional parts in any combination listed, either order of dimensions and base 0 or 1")
OUTSIDE = "larger grids; files that match several kinds of grid; times and depths (decided separately)"
ASSUMPTIONS = ["netCDF4 stores and returns what was written (stand-in; replays use real files)"]

NODE_NAMES = (("node_lon", "node_lat"), ("lon", "lat"), ("lon_psi", "lat_psi"), ("longitude", "latitude"))
CENTER_NAMES = (("center_lon", "center_lat"), ("lon_rho", "lat_rho"), ("lonc", "latc"))
E1_NAMES = (("edge1_lon", "edge1_lat"), ("lon_u", "lat_u"))
E2_NAMES = (("edge2_lon", "edge2_lat"), ("lon_v", "lat_v"))
FACE_NAMES = ("faces", "tris", "nv", "ele", "nele")
TYPES = {"U": ("ugrid", "pygrid_u", "triangular", "unstructured"), "S": ("sgrid", "pygrid_s", "staggered", "curvilinear", "roms"), "R": ("rgrid", "regular", "rectangular", "rectilinear")}
FACES = ((0, 1, 2), (1, 3, 2), (3, 4, 2), (3, 5, 4))


def cs(s, case):
    return {"lower": s, "upper": s.upper(), "title": s.title()}[case]


def put(ds, c, name, vals, dims, dt="f8"):
    for d, n in zip(dims, c.np.shape(vals)):
        if d not in ds.dimensions:
            ds.createDimension(d, n)
    v = ds.createVariable(name, dt, dims)
    v[:] = vals
    return v


def contents(c, ds, kind, names, sym=True, tag=""):
    """writes a grid under the given names; returns what was written, by attribute"""
    out = {}

    def R(a, shp):
        if sym:
            return c.reals(tag + a, shp, -180, 180)
        k = sum(map(ord, a)) % 50
        if len(shp) == 1:
            return c.arr([k + 1.5 * i for i in range(shp[0])], float)
        return c.arr([[k + 0.5 * i + 0.25 * j for j in range(shp[1])] for i in range(shp[0])], float)

    if kind == "U":
        for a in ("node_lon", "node_lat"):
            out[a] = R(a, (6,))
        if "nodes" in names:
            xy = c.np.stack((out["node_lon"], out["node_lat"]), axis=-1)
            put(ds, c, names["nodes"], xy, (tag + "node", tag + "two"))
        else:
            for a in ("node_lon", "node_lat"):
                put(ds, c, names[a], out[a], (tag + "node",))
        F = c.arr([[FACES[i][j] if (i, j) not in ((1, 1), (2, 1)) or not sym else c.int(f"{tag}f{i}{j}", 0, 5) for j in range(3)] for i in range(4)], int)
        out["faces"] = F
        put(ds, c, names["faces"], F, (tag + "face", tag + "three"), "i4")
        return out
    if kind == "R":
        for a, n in (("node_lon", 4), ("node_lat", 3)):
            out[a] = R(a, (n,))
            put(ds, c, names[a], out[a], (tag + a,))
        return out
    shp = dict(node=(3, 3), center=(2, 2), edge1=(2, 3), edge2=(3, 2))
    for l, s in shp.items():
        for d in ("lon", "lat"):
            a = f"{l}_{d}"
            if a in names:
                out[a] = R(a, s)
                put(ds, c, names[a], out[a], (f"{tag}{l}_y", f"{tag}{l}_x"))
        m = l + "_mask"
        if m in names:
            out[m] = c.arr([[(i + j) % 2 for j in range(s[1])] for i in range(s[0])], int)
            put(ds, c, names[m], out[m], (f"{tag}{l}_y", f"{tag}{l}_x"), "i4")
    return out


def the_names(c, kind, case, parts=(), pair=None):
    n = {}
    p = NODE_NAMES[c.choice("pair", len(NODE_NAMES)) if pair is None else pair]
    n["node_lon"], n["node_lat"] = cs(p[0], case), cs(p[1], case)
    if kind == "U":
        n["faces"] = cs(c.choose("face_name", FACE_NAMES), case)
    if kind == "S":
        for part, nn in (("center", CENTER_NAMES), ("edge1", E1_NAMES), ("edge2", E2_NAMES)):
            if part in parts:
                p = nn[c.choice(part, len(nn))]
                n[part + "_lon"], n[part + "_lat"] = cs(p[0], case), cs(p[1], case)
                if part + "_mask" in parts:
                    n[part + "_mask"] = cs({"center": "mask_rho", "edge1": "mask_u", "edge2": "mask_v"}[part], case)
        if "node_mask" in parts:
            n["node_mask"] = cs("mask_psi", case)
    return n


def verify(c, g, kind, want):
    G = c.g.grids
    c.check("type of the grid", type(g) is {"U": G.Grid_U, "S": G.Grid_S, "R": G.Grid_R}[kind], type(g).__name__)
    for a, w in want.items():
        if a.endswith("mask"):
            v = getattr(g, a)
            c.check(a + " is there", v is not None)
            c.check_eq(a, v[:], w, tol=0)
        elif kind == "U" and a == "node_lon":
            c.check_eq(a, g.nodes[:, 0], w, tol=0)
        elif kind == "U" and a == "node_lat":
            c.check_eq(a, g.nodes[:, 1], w, tol=0)
        else:
            v = getattr(g, a)
            c.check(a + " is there", v is not None)
            c.check("shape of " + a, tuple(c.np.shape(v)) == tuple(c.np.shape(w)))
            c.check_eq(a, v, w, tol=0)
    if kind == "S":
        for l in ("center", "edge1", "edge2"):
            for d in ("lon", "lat"):
                if f"{l}_{d}" not in want:
                    c.check(f"no {l} coordinates", getattr(g, f"{l}_{d}") is None)


def load(c, path, kind, how, topo=None, case="lower"):
    """the ways to ask for the grid of a file"""
    G = c.g.grids
    cls = {"U": G.Grid_U, "S": G.Grid_S, "R": G.Grid_R}[kind]
    kw = {} if topo is None else dict(grid_topology=topo)
    if how == "auto":
        return G.Grid.from_netCDF(path, **kw)
    if how == "dataset":
        return G.Grid.from_netCDF(dataset=c.nc4.Dataset(path), **kw)
    if how == "class":
        return cls.from_netCDF(path, **kw)
    if how == "type":
        return G.Grid.from_netCDF(path, grid_type=cls, **kw)
    if how == "name":
        return G.Grid.from_netCDF(path, grid_type=cs(c.choose("type_name", TYPES[kind]), case), **kw)
    if how == "typed":
        kw["grid_topology"]["grid_type"] = cs(c.choose("type_name", TYPES[kind]), case)
        return G.Grid.from_netCDF(path, **kw)
    if how == "grid_file":
        other = c.tmp("data.nc")
        ds = c.nc4.Dataset(other, "w")
        contents(c, ds, "R", dict(node_lon="lon", node_lat="lat"), sym=False, tag="o")
        ds.close()
        return G.Grid.from_netCDF(data_file=other, grid_file=path, **kw)
    raise ValueError(how)


def h_default(c, kind, case, how, parts=(), attr=None, pair=None):
    path = c.tmp("g.nc")
    ds = c.nc4.Dataset(path, "w")
    names = the_names(c, kind, case, parts, pair)
    want = contents(c, ds, kind, names)
    if attr is not None:
        ds.grid_type = cs(c.choose("attr", TYPES[kind]), attr)
        if kind == "R":  # an elevation, not a table of faces
            put(ds, c, "ele", c.reals("ele", (3, 4), 0, 9), ("node_lat", "node_lon"))
    if how == "dataset":  # numbers of the nodes, not their places
        put(ds, c, "node", c.np.arange(4), ("four",), "i4")
        put(ds, c, "mask_rho" if case == "lower" else "MASK_V", c.np.zeros((4,)), ("four",))
    ds.close()
    if kind == "U" and how != "class":
        c.assume(c.And(*[want["faces"][i, j] >= 0 for i, j in ((1, 1), (2, 1))]))
    verify(c, load(c, path, kind, how, case=case), kind, want)


def h_composite(c, name, how):
    path = c.tmp("g.nc")
    ds = c.nc4.Dataset(path, "w")
    want = contents(c, ds, "U", dict(nodes=name, faces="faces"))
    ds.close()
    verify(c, load(c, path, "U", how), "U", want)


def h_composite_topology(c, how, key, case):
    path = c.tmp("g.nc")
    ds = c.nc4.Dataset(path, "w")
    names = dict(nodes=cs("my_points", case), faces=cs("my_faces", case))
    want = contents(c, ds, "U", names)
    if c.choice("decoy", 2):
        contents(c, ds, "U", dict(nodes=key, faces="faces"), sym=False, tag="d")
    ds.close()
    verify(c, load(c, path, "U", how, {key: names["nodes"], "faces": names["faces"]}), "U", want)


def h_topology(c, kind, case, how, parts=(), decoys=True):
    """the caller's mapping decides, whatever else the file holds"""
    path = c.tmp("g.nc")
    ds = c.nc4.Dataset(path, "w")
    attrs = ["node_lon", "node_lat"] + (["faces"] if kind == "U" else [])
    for p in parts:
        attrs += [p] if p.endswith("mask") else [p + "_lon", p + "_lat"]
    names = {a: cs("my_" + a.replace("_", "") + "_v", case) for a in attrs}
    if decoys:
        contents(c, ds, kind, {"U": dict(node_lon="lon", node_lat="lat", faces="nv"), "R": dict(node_lon="lon", node_lat="lat"),
                               "S": dict(node_lon="lon_psi", node_lat="lat_psi", center_lon="lon_rho", center_lat="lat_rho", edge1_lon="lon_u", edge1_lat="lat_u", edge2_lon="lon_v", edge2_lat="lat_v")}[kind], sym=False, tag="d")
    want = contents(c, ds, kind, names)
    ds.close()
    topo = dict(names)
    verify(c, load(c, path, kind, how, topo), kind, want)
    topo.pop("grid_type", None)
    c.check("caller's mapping", topo == names)


def h_missing(c, kind, how):
    """coordinates missing from the file stay missing, the others stay what they are"""
    np = c.np
    path = c.tmp("g.nc")
    ds = c.nc4.Dataset(path, "w")
    names = dict(node_lon="lon", node_lat="lat", faces="nv") if kind == "U" else dict(node_lon="lon_psi", node_lat="lat_psi", center_lon="lon_rho", center_lat="lat_rho", edge1_lon="lon_u", edge1_lat="lat_u")
    want = contents(c, ds, kind, names, sym=False)
    gone = {}
    for k, a in enumerate(n for n in names if n != "faces"):
        if kind == "S" and a.startswith("node"):
            continue
        v = ds.variables[names[a]]
        vals = c.reals(a + "_s", np.shape(want[a]), -180, 180)
        at = c.choice(a, 3)
        m = np.zeros(np.shape(want[a]), dtype=bool)
        if at:
            m.reshape(-1)[at + (k & 1)] = True
        want[a], gone[a] = vals, m
        ds.renameVariable(names[a], names[a] + "_old")
        ds.createVariable(names[a], "f8", v.dimensions, fill_value=-999.0)[:] = np.ma.array(vals, mask=m)
    ds.close()
    g = load(c, path, kind, how)
    for a, m in gone.items():
        v = (g.nodes[:, 0] if a == "node_lon" else g.nodes[:, 1]) if kind == "U" else getattr(g, a)
        got = np.ma.getmaskarray(np.ma.asarray(v))
        c.check("missing " + a, bool((got == m).all()), f"{got} {m}")
        c.check_eq(a, np.ma.filled(np.ma.array(np.ma.getdata(v), mask=m), 0.0), np.where(m, 0.0, want[a]), tol=0)


def h_variable(c, kind, how):
    """the grid a variable or a dataset read from the file comes with"""
    path = c.tmp("g.nc")
    ds = c.nc4.Dataset(path, "w")
    names = the_names(c, kind, "lower", (), 1)
    want = contents(c, ds, kind, names)
    dims = {"U": ("node",), "S": ("node_y", "node_x"), "R": ("node_lat", "node_lon")}[kind]
    for v in ("u", "v"):
        put(ds, c, v, c.np.zeros({"U": (6,), "S": (3, 3), "R": (3, 4)}[kind]), dims)
    ds.close()
    V = c.g.variable
    if how == "variable":
        g = V.Variable.from_netCDF(path, varname="u").grid
    elif how == "vector":
        X = V.VectorVariable.from_netCDF(path, varnames=["u", "v"])
        g = X.grid
        c.check("components share the grid", all(x.grid is g for x in X.variables))
    elif how == "grid_file":
        other = c.tmp("data.nc")
        o = c.nc4.Dataset(other, "w")
        put(o, c, "u", c.np.zeros({"U": (6,), "S": (3, 3), "R": (3, 4)}[kind]), dims)
        o.close()
        g = V.Variable.from_netCDF(data_file=other, grid_file=path, varname="u").grid
    else:
        g = c.g.gridded.Dataset.from_netCDF(path).grid
    verify(c, g, kind, want)


STYLES = (("lon_{}", "lat_{}", "", ""), ("x{}", "y{}", "", ""), ("LON{}", "LAT{}", "", ""), ("{}_1", "{}_2", "longitude", "latitude"), ("Longitude_{}", "Latitude_{}", "longitude", "latitude"), ("{}_1", "{}_2", "Longitude", "LATITUDE"))


def h_found(c, style, listed, how, order=0, cube=False, angle=True, gap=" "):
    """a structured file whose topology does not list (all) its coordinates: they are those of the variables at the location"""
    path = c.tmp("s.nc")
    ds = c.nc4.Dataset(path, "w")
    dims = dict(node_y=3, node_x=4, face_y=2, face_x=3, edge1_y=2, edge1_x=4, edge2_y=3, edge2_x=3, level=2)
    for k, v in dims.items():
        ds.createDimension(k, v)
    fx, fy, sx, sy = STYLES[style]
    if order:  # a coordinate is the first of all variables
        ds.createVariable(fy.format("p"), "f8", ("node_y", "node_x"))
    t = ds.createVariable("grid", "i4", ())
    t.cf_role = "grid_topology"
    t.topology_dimension = 2
    t.node_dimensions = f"node_x{gap}node_y"
    t.face_dimensions = "face_x: node_x (padding: none) face_y: node_y (padding: none)"
    t.edge1_dimensions = "edge1_x: node_x edge1_y: node_y (padding: none)"
    t.edge2_dimensions = "edge2_x: node_x (padding: none) edge2_y: node_y"
    names, want = {}, {}
    for l, tag in (("node", "p"), ("face", "r"), ("edge1", "u"), ("edge2", "v")):
        dd = (l + "_y", l + "_x")
        shp = (dims[dd[0]], dims[dd[1]])
        pair = [(fx.format(tag), sx, "lon"), (fy.format(tag), sy, "lat")]
        names[l] = (pair[0][0], pair[1][0])
        for q, (n, std, d) in enumerate(pair[::-1] if order else pair):
            if q and l == "node" and cube:  # not a coordinate: it varies with depth
                v = ds.createVariable((fx if d == "lat" else fy).format("w") + "_decoy", "f8", ("level",) + dd)
                v[:] = c.np.full((2,) + shp, 77.0)
            v = ds.variables[n] if n in ds.variables else ds.createVariable(n, "f8", dd)
            a = f"{'center' if l == 'face' else l}_{d}"
            if l == "face" and not angle:  # the angles are worked out from these
                want[a] = c.arr([[1.0 * j if d == "lon" else 1.0 * i for j in range(3)] for i in range(2)], float)
            else:
                want[a] = c.reals(a, shp, -180, 180)
            v[:] = want[a]
            if std:
                v.standard_name = std
        if l in listed:
            setattr(t, l + "_coordinates", gap.join(names[l]))
        if l == "node":
            continue
        v = ds.createVariable("d" + tag, "f8", (("level",) if cube else ()) + dd)
        v.location = l
        v.grid = "grid"
        if how == "coordinates":
            v.coordinates = gap.join(names[l][::-1] if order else names[l])
    if angle:
        want["angles"] = c.reals("angle", (2, 3), -3, 3)
        ds.createVariable("angle", "f8", ("face_y", "face_x"))[:] = want["angles"]
    ds.close()
    via = c.choice("via", 3)
    if via == 0:
        g = c.g.grids.Grid.from_netCDF(path)
    elif via == 1:
        g = c.g.grids.Grid_S.from_netCDF(path)
    else:
        g = c.g.gridded.Dataset.from_netCDF(path).grid
    verify(c, g, "S", want)
    g = c.g.pysgrid.sgrid.SGrid.load_grid(c.nc4.Dataset(path))
    for a in ("node_lon", "edge2_lat", "center_lon"):
        c.check_eq("SGrid: " + a, getattr(g, a), want[a], tol=0)


def h_faces(c, tri, base, across, typ, nm):
    """index base and order of the table of faces, with nodes in no face"""
    np = c.np
    path = c.tmp("g.nc")
    ds = c.nc4.Dataset(path, "w")
    n = len(tri) + 2 if nm is None else nm
    xy = c.reals("xy", (2, n), -80, 80)
    put(ds, c, "lon", xy[0], ("node",))
    put(ds, c, "lat", xy[1], ("node",))
    F = np.array(tri) + base
    put(ds, c, "nv", F.T if across else F, ("three", "nele") if across else ("nele", "three"), typ)
    ds.close()
    how = c.choose("how", ("auto", "class", "topology"))
    if how == "auto":
        g = c.g.grids.Grid.from_netCDF(path)
    elif how == "class":
        g = c.g.grids.Grid_U.from_netCDF(path)
    else:
        g = c.g.grids.Grid_U.from_netCDF(path, grid_topology=dict(node_lon="lon", node_lat="lat", faces="nv"))
    c.check("faces", np.asarray(g.faces).tolist() == [list(r) for r in tri], repr(np.asarray(g.faces).tolist()))
    c.check_eq("longitudes", g.node_lon, xy[0], tol=0)
    c.check_eq("latitudes", g.node_lat, xy[1], tol=0)


STRIP = ((0, 1, 2), (1, 3, 2), (2, 3, 4), (3, 5, 4))
NEXT = ((1, -1, -1), (2, -1, 0), (3, 1, -1), (-1, -1, 2))


def h_varnames(c, base, across, parts, typ):
    """a mesh from variables named by the caller"""
    np = c.np
    path = c.tmp("g.nc")
    xy = c.arr(c.reals("xy", 12, -80, 80), float).reshape(2, 6)
    cc = c.arr(c.reals("cc", 8, -80, 80), float).reshape(2, 4)
    bnd = np.array([[0, 1], [1, 3], [3, 5]])
    post = []
    ds = c.nc4.Dataset(path, "w")
    ds.grid_type = "Triangular"
    put(ds, c, "X", xy[0], ("n",))
    put(ds, c, "Y", xy[1], ("n",))
    turn = (lambda a: a.T) if across else (lambda a: a)
    dims = ("three", "ele") if across else ("ele", "three")
    put(ds, c, "tri", turn(np.array(STRIP) + base), dims, typ)
    put(ds, c, "near", turn(np.array(NEXT) + base), dims, typ)
    put(ds, c, "cx", cc[0], ("ele",))
    put(ds, c, "cy", cc[1], ("ele",))
    put(ds, c, "coast", np.concatenate([bnd + base, np.array([[7, 8], [7, 8], [7, 8]])], axis=1), ("nb", "four"), typ)
    ds.close()
    names = dict(nodes_lon="X", nodes_lat="Y", faces="tri")
    if "near" in parts:
        names["face_face_connectivity"] = "near"
    if "centers" in parts:
        names.update(face_coordinates_lon="cx", face_coordinates_lat="cy")
    if "coast" in parts:
        names["boundaries"] = "coast"
    load = c.g.pyugrid.grid_io.load_from_varnames
    kw = {}
    if "check" in parts:
        kw["attribute_check"] = [("grid_type", "triangular")]
    if "post" in parts:
        kw["post_process"] = lambda nc, ug: post.append((nc, ug))
    keep = dict(names)
    g = load(path if c.choice("opened", 2) == 0 else c.nc4.Dataset(path), names, **kw)
    c.check("names untouched", names == keep)
    c.check_eq("nodes", g.nodes, xy.T, tol=0)
    c.check("faces", np.asarray(g.faces).tolist() == [list(r) for r in STRIP])
    if "near" in parts:
        c.check("neighbours", np.asarray(g.face_face_connectivity).tolist() == [list(r) for r in NEXT])
    else:
        c.check("no neighbours", g.face_face_connectivity is None)
    if "centers" in parts:
        c.check_eq("centers", g.face_coordinates, cc.T, tol=0)
    else:
        c.check("no centers", g.face_coordinates is None)
    if "coast" in parts:
        c.check("boundaries", np.asarray(g.boundaries).tolist() == bnd.tolist())
    else:
        c.check("no boundaries", g.boundaries is None)
    if "post" in parts:
        c.check("post-processed", len(post) == 1 and post[0][1] is g and "tri" in post[0][0].variables)
    if "check" in parts:
        c.raises("another type", ValueError, lambda: load(path, names, attribute_check=[("grid_type", "curvilinear")]))


def h_refused(c):
    """no coordinates, unknown type"""
    path = c.tmp("g.nc")
    ds = c.nc4.Dataset(path, "w")
    put(ds, c, "x", c.np.zeros((3,)), ("x",))
    ds.close()
    c.raises("no coordinates", ValueError, c.g.grids.Grid.from_netCDF, path)
    path = c.tmp("h.nc")
    ds = c.nc4.Dataset(path, "w")
    put(ds, c, "lon", c.np.zeros((3,)), ("x",))
    put(ds, c, "lat", c.np.zeros((2,)), ("y",))
    ds.close()
    c.check("rectangular", type(c.g.grids.Grid.from_netCDF(path, grid_type="rgrid")) is c.g.grids.Grid_R)
    for t in ("hexagonal", "grid", ""):
        c.raises("unknown type", ValueError, lambda: c.g.grids.Grid.from_netCDF(path, grid_type=t))
    for k in (1, 2, 3):  # a rectangular grid has one-dimensional coordinates
        path = c.tmp(f"i{k}.nc")
        ds = c.nc4.Dataset(path, "w")
        put(ds, c, "lon", c.np.zeros((2, 3) if k & 1 else (3,)), ("y", "x") if k & 1 else ("x",))
        put(ds, c, "lat", c.np.zeros((2, 3) if k & 2 else (2,)), ("y", "x") if k & 2 else ("y",))
        ds.close()
        c.raises("coordinates of a rectangular grid", ValueError, lambda: c.g.grids.Grid.from_netCDF(path, grid_type="rgrid"))


def jobs(tier):
    q = tier == "quick"
    out = []
    cases = ("lower", "upper", "title")
    for kind in "USR":
        for case in cases:
            for how in ("auto", "dataset", "class", "type", "name", "grid_file"):
                out.append(("h_default", dict(kind=kind, case=case, how=how, parts=("center",) if how == "type" else ()), {}))
        for attr in cases:
            out.append(("h_default", dict(kind=kind, case="lower", how="auto", attr=attr, pair=1), {}))
        for case in cases:
            for how in ("class", "type", "name", "typed"):
                out.append(("h_topology", dict(kind=kind, case=case, how=how), {}))
        for how in ("variable", "vector", "grid_file", "dataset"):
            out.append(("h_variable", dict(kind=kind, how=how), {}))
    for case in cases if not q else ("lower", "upper"):
        for parts in (("center",), ("edge1",), ("edge2",), ("center", "edge1"), ("edge1", "edge2"), ("center", "edge1", "edge2"), ("node_mask",),
                      ("center", "center_mask"), ("edge1", "edge1_mask", "node_mask"), ("center", "edge1", "edge2", "node_mask", "center_mask", "edge1_mask", "edge2_mask")):
            out.append(("h_default", dict(kind="S", case=case, how="auto", parts=parts, pair=2), {}))
            out.append(("h_topology", dict(kind="S", case=case, how="auto", parts=parts), {}))
    for case in cases:
        out.append(("h_topology", dict(kind="U", case=case, how="auto"), {}))
    for name in ("nodes", "node", "Nodes"):
        for how in ("auto", "class"):
            out.append(("h_composite", dict(name=name, how=how), {}))
    for style in range(len(STYLES)):
        for how in ("coordinates", "none"):
            if how == "coordinates" and style == 1:
                continue  # only longitude and latitude are told apart there
            for order in (0, 1):
                for listed in ((), ("node", "edge1"), ("face", "edge2"), ("node",)):
                    out.append(("h_found", dict(style=style, listed=listed, how=how, order=order, cube=bool(order) and how == "coordinates", angle=bool(style)), {}))
    for gap, listed, order in (("  ", (), 0), ("  ", ("node", "edge1"), 1), ("\n", ("face", "edge2"), 0), ("\t ", ("node", "face", "edge1", "edge2"), 1)):
        out.append(("h_found", dict(style=0, listed=listed, how="coordinates", order=order, gap=gap), {}))
    for how in ("auto", "class"):
        for key, case in (("nodes", "lower"), ("node", "title")):
            out.append(("h_composite_topology", dict(how=how, key=key, case=case), {}))
    for how in ("auto", "class", "type", "dataset"):
        for kind in "US":
            out.append(("h_missing", dict(kind=kind, how=how), {}))
    out.append(("h_refused", {}, {}))
    k = 0
    for tri in (((0, 1, 2), (1, 3, 2)), ((1, 2, 3), (2, 4, 3)), ((0, 1, 2), (1, 3, 2), (2, 3, 4)), ((0, 1, 2), (1, 3, 2), (2, 3, 4), (3, 5, 4)), ((5, 4, 3), (3, 4, 2), (2, 1, 3), (5, 1, 4)), ((0, 1, 2),)):
        n = max(max(t) for t in tri) + 1
        for base in (0, 1):
            for across in (0, 1):
                if len(tri) == 3:
                    continue  # either order fits
                for extra in (0, 1) if base == 0 else (0,):
                    k += 1
                    out.append(("h_faces", dict(tri=tri, base=base, across=across, typ=("i4", "i8", "i2")[k % 3], nm=n + extra), {}))
    for base in (0, 1):
        for across in (0, 1):
            for k, parts in enumerate(((), ("near",), ("centers", "check"), ("coast", "post"), ("near", "centers", "coast", "check", "post"))):
                out.append(("h_varnames", dict(base=base, across=across, parts=parts, typ=("i4", "i8", "i2")[(k + base) % 3]), {}))
    return out
