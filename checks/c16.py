"""C16: saving and reloading an unstructured mesh"""
BOUNDS = ("meshes of 5-6 nodes with symbolic coordinates and 1-4 triangles, quadrilaterals or both (short faces masked or -1), with every subset of edges, boundaries, their coordinates, face coordinates, face-face and face-edge tables (1-4 edges, 1-3 boundaries; 4 symbolic indices); "
          "up to four 1-D variables on nodes, faces, edges and boundaries with symbolic values, text, number and array attributes, fill values with masked entries, packed integers; UGrid.save, save_as_netcdf and Dataset.save, read back by UGrid.from_ncfile and Dataset.from_netCDF")
OUTSIDE = "larger meshes; time- or depth-dependent variables (the writer takes one value per element); masked node coordinates; global attributes"
ASSUMPTIONS = ["netCDF4 stores and returns what was written, with its masking and packing rules (stand-in; replays use real files)"]

FACES = {
    "tri": ((0, 1, 2), (1, 3, 2), (2, 3, 4), (3, 5, 4)),
    "tri1": ((0, 1, 2),),
    "tri2": ((0, 1, 2), (1, 3, 2)),
    "tri3": ((0, 1, 2), (1, 3, 2), (2, 3, 4)),
    "quad": ((0, 1, 3, 2), (2, 3, 5, 4)),
    "quad3": ((0, 1, 3, 2), (2, 3, 5, 4), (0, 2, 4, 1)),
    "quad4": ((0, 1, 3, 2), (2, 3, 5, 4), (0, 2, 4, 1), (5, 1, 2, 0)),
    "mixed": ((0, 1, 2, None), (1, 3, 4, 2)),
    "mixed3": ((0, 1, 2, None), (1, 3, 4, 2), (3, 5, 4, None)),
    "penta": ((0, 1, 2, 3, 4), (0, 4, 5, None, None)),
}
N = 6
OPT = ("edges", "boundaries", "face_coordinates", "edge_coordinates", "boundary_coordinates", "face_face_connectivity", "face_edge_connectivity")


def table(c, rows, fill):
    w = len(rows[0])
    if not any(x is None for r in rows for x in r):
        return c.arr(rows, c.np.int32)
    a = c.arr([[(-1 if fill is None else fill) if x is None else x for x in r] for r in rows], c.np.int32)
    return a if fill is None else c.np.ma.MaskedArray(a, mask=[[x is None for x in r] for r in rows])


def mesh(c, faces, parts, fill, nb=3, ne=4, sym=("nodes",), cls=None, off=0):
    F = [list(r) for r in FACES[faces]] if faces else []
    data = {}
    if faces:
        data["faces"] = F
    if "edges" in parts:
        data["edges"] = [[0, 1], [2, 1], [4, 0], [3, 5]][:ne]
    if "boundaries" in parts:
        data["boundaries"] = [[4, 5], [5, 1], [1, 0]][:nb]
    if "face_face_connectivity" in parts:
        data["face_face_connectivity"] = [[None if x is None else ((i + 1) % len(F) if (i + j) % 2 else -1) for j, x in enumerate(r)] for i, r in enumerate(F)]
    if "face_edge_connectivity" in parts:
        data["face_edge_connectivity"] = [[None if x is None else (i + j) % ne for j, x in enumerate(r)] for i, r in enumerate(F)]
    for p in sym:
        if p in data:
            ent = [(i, j) for i, r in enumerate(data[p]) for j, x in enumerate(r) if x is not None]
            for i, j in ent[off % max(1, len(ent) - 3):][:4]:
                lo, hi = {"face_face_connectivity": (-1, len(F) - 1), "face_edge_connectivity": (0, ne - 1)}.get(p, (0, N - 1))
                data[p][i][j] = c.int(f"{p}{i}_{j}", lo, hi)
    out = {k: table(c, v, fill) for k, v in data.items()}
    for p, n in (("nodes", N), ("face_coordinates", len(F)), ("edge_coordinates", ne), ("boundary_coordinates", nb)):
        if p == "nodes" or p in parts:
            out[p] = c.arr([[c.real(f"{p}{i}{d}", -180, 180) if p in sym else 0.25 * i + 0.5 * (d == "y") for d in "xy"] for i in range(n)], float)
    return (cls or c.g.pyugrid.ugrid.UGrid)(mesh_name="Mesh2", **out), out


def same(c, g, exp):
    for p in OPT + ("nodes", "faces"):
        got = getattr(g, p)
        if p not in exp:
            c.check(p + " appeared from nowhere", got is None)
            continue
        c.check(p + " is there", got is not None)
        c.check(p + " shape", tuple(got.shape) == tuple(exp[p].shape))
        if p.endswith("coordinates") or p == "nodes":
            c.check_eq(p, got, exp[p], tol=0)
            continue
        for i in range(got.shape[0]):
            for j in range(got.shape[1]):
                x, y = got[i, j], exp[p][i, j]
                # masked and -1 both say: none
                if c.is_masked(y):
                    c.check(p, c.is_masked(x) or x == -1)
                elif c.is_masked(x):
                    c.check(p, y == -1)
                else:
                    c.check_eq(p, x, y, tol=0)


def refers(c, path):
    """every name that the file refers to is there"""
    ds = c.nc4.Dataset(path)
    m = ds.variables["Mesh2"]
    for att in m.ncattrs():
        if att.endswith("coordinates") or att.endswith("connectivity"):
            for w in m.getncattr(att).split():
                c.check("variable named by the mesh exists", w in ds.variables, w)
            names = m.getncattr(att).split()
            if att.endswith("coordinates"):
                c.check("a longitude and a latitude", sorted(str(getattr(ds.variables[w], "standard_name", None)) for w in names) == ["latitude", "longitude"], str(names))
                for w in names:
                    v = ds.variables[w]
                    c.check("units of the coordinate", v.units == {"longitude": "degrees_east", "latitude": "degrees_north"}[v.standard_name], w)
                    c.check("one coordinate per element", len(v.dimensions) == 1)
            else:
                c.check("role of the table", ds.variables[names[0]].cf_role == att, att)
                c.check("base of the indices", int(getattr(ds.variables[names[0]], "start_index", 0)) == 0, att)
        if att.endswith("dimension") and att != "topology_dimension":
            c.check("dimension named by the mesh exists", m.getncattr(att) in ds.dimensions)
    for v in ds.variables.values():
        for att in v.ncattrs():
            if att in ("coordinates", "mesh"):
                for w in v.getncattr(att).split():
                    c.check("variable named by a variable exists", w in ds.variables, f"{v.name}: {w}")
    ds.close()


def form(c, path, fmt):
    ds = c.nc4.Dataset(path)
    c.check("written in the format asked for", ds.data_model.startswith({"netcdf3": "NETCDF3", "netcdf4": "NETCDF4"}[fmt]), ds.data_model)
    ds.close()


def h_mesh(c, faces, parts, fill=None, nb=3, ne=4, sym=("nodes",), how="save", off=0, fmt="netcdf4"):
    g, exp = mesh(c, faces, parts, fill, nb, ne, sym, off=off)
    path = c.tmp("m.nc")
    if how == "save":
        g.save(path, format=fmt).close()
    elif how == "open":
        ds = c.nc4.Dataset(path, "w")
        g.save(ds, format=fmt)
        ds.close()
    else:
        g.save_as_netcdf(path, format=fmt)
    same(c, g, exp)
    refers(c, path)
    if how != "open":
        form(c, path, fmt)
        for fn in (g.save, g.save_as_netcdf):
            c.raises("unknown format", ValueError, fn, path, format="netcdf5")
    same(c, c.g.pyugrid.ugrid.UGrid.from_ncfile(path), exp)
    k = c.g.pyugrid.ugrid.UGrid.from_ncfile(path, mesh_name="Mesh2")
    c.check("mesh name", k.mesh_name == "Mesh2")


ATTS = {
    "none": {},
    "text": {"units": "m s-1", "standard_name": "eastward_sea_water_velocity", "comment": "a b  c"},
    "stale": {"units": "m", "coordinates": "lon lat", "mesh": "other", "location": "face"},
    "numbers": {"height": 2.5, "level": 3, "weights": (0.5, 1.5, 2.5)},
}


def h_vars(c, faces, parts, names, packed=None, atts="text", hide=None, nb=3, ne=4, load_all=False, fmt="netcdf4"):
    """variables, through Dataset.save and Dataset.from_netCDF"""
    G = c.g
    g, exp = mesh(c, faces, parts, None, nb, ne, (), cls=G.grids.Grid_U)
    size = dict(node=N, face=len(FACES[faces]), edge=ne, boundary=nb)
    variables, vals = {}, {}
    for k, (name, loc) in enumerate(names):
        n = size[loc]
        at = {a: c.arr(v, float) if isinstance(v, tuple) else v for a, v in ATTS[atts].items()}
        at.setdefault("units", "m")
        if packed == name:
            x = [c.int(f"{name}{i}", -100, 100) for i in range(n)]
            at.update(scale_factor=0.5, add_offset=10.0)
            a = c.arr([q * 0.5 + 10.0 for q in x], float)
        elif packed == "int" and k == 0:
            a = c.arr([c.int(f"{name}{i}", -1000, 1000) for i in range(n)], c.np.int32)
        else:
            a = c.arr([c.real(f"{name}{i}", -1000, 1000) for i in range(n)], float)
        if hide and k == 0:
            a = c.np.ma.MaskedArray(a, mask=[i in hide for i in range(n)])
            at["_FillValue"] = {"int": -32767}.get(packed, -9999.0)
        vals[name] = c.snapshot(a), dict(at), loc
        variables[name] = G.variable.Variable(name="some " + name, units=at["units"], data=a, grid=g, location=loc, attributes=at)
    ds = G.gridded.Dataset(grid=g, variables=variables)
    path = c.tmp("m.nc")
    ds.save(path, format=fmt)
    form(c, path, fmt)
    c.raises("unknown format", ValueError, ds.save, path, format="netcdf")
    refers(c, path)
    r = G.gridded.Dataset.from_netCDF(path)
    same(c, r.grid, exp)
    c.check("the same variables", sorted(r.variables) == sorted(variables), f"{sorted(r.variables)}")
    for name, (a, at, loc) in vals.items():
        v = r.variables[name]
        c.check("location", v.location == loc, f"{v.location}")
        got = v.data[:]
        c.check("shape", tuple(got.shape) == tuple(a.shape))
        c.check_eq("values", got, a, tol=0)
        for k, x in at.items():
            if k in ("location", "mesh", "coordinates"):
                continue
            c.check(f"attribute {k}", k in v.attributes)
            y = v.attributes[k]
            if isinstance(x, str):
                c.check(f"attribute {k}", str(y) == x)
            else:
                c.check_eq(f"attribute {k}", c.arr(y, float), c.arr(x, float), tol=0)
        c.check("units", v.units == at["units"])


def h_twice(c, faces, parts, fill=None):
    """saved, loaded, saved, loaded"""
    g, exp = mesh(c, faces, parts, fill, sym=("nodes", "faces"))
    a, b = c.tmp("a.nc"), c.tmp("b.nc")
    U = c.g.pyugrid.ugrid.UGrid
    g.save(a).close()
    U.from_ncfile(a).save(b).close()
    refers(c, b)
    same(c, U.from_ncfile(b), exp)


def jobs(tier):
    deep = tier != "quick"
    out = []
    k = 0
    subsets = []
    for bits in range(1 << len(OPT)):
        s = tuple(p for i, p in enumerate(OPT) if bits >> i & 1)
        if ("edge_coordinates" in s or "face_edge_connectivity" in s) and "edges" not in s or "boundary_coordinates" in s and "boundaries" not in s:
            continue
        subsets.append(s)
    names = list(FACES)
    for i, s in enumerate(subsets):
        for f in (names if deep else (names[i % len(names)],)):
            k += 1
            flex = any(None in r for r in FACES[f])
            sy = ("nodes", "face_coordinates", "edge_coordinates", "boundary_coordinates") + (("faces", "edges", "boundaries", "face_face_connectivity", "face_edge_connectivity")[k % 5],)
            out.append(("h_mesh", dict(faces=f, parts=s, fill=((None, 999999, 0)[k % 3] if flex else None), nb=1 + k % 3, ne=4 - k % 3, sym=sy, how=("save", "open", "as")[k % 3], off=k, fmt=("netcdf4", "netcdf3")[k % 2]), {}))
    for f in names:
        flex = any(None in r for r in FACES[f])
        for fill in (None, 999999, 0) if flex else (None,):
            out.append(("h_mesh", dict(faces=f, parts=OPT, fill=fill, sym=("faces",), off=1), dict(weight=2)))
            out.append(("h_twice", dict(faces=f, parts=OPT if fill is None else ("edges", "face_face_connectivity"), fill=fill), dict(weight=2)))
    for s in ((), ("edges",), ("boundaries", "edges", "edge_coordinates", "boundary_coordinates")):
        out.append(("h_mesh", dict(faces=None, parts=s, sym=("nodes", "edges", "boundaries")), {}))
    loc4 = (("u", "node"), ("v", "face"), ("w", "edge"), ("z", "boundary"))
    V = lambda **kw: out.append(("h_vars", dict(kw, fmt=("netcdf4", "netcdf3")[len(out) % 2]), {}))
    for i, parts in enumerate((OPT, ("edges", "boundaries"), ("edges", "edge_coordinates", "boundaries"), ("edges", "boundaries", "boundary_coordinates", "face_coordinates"))):
        for j, at in enumerate(ATTS):
            V(faces=("tri", "quad", "tri3", "mixed", "tri2", "quad4")[(i + j) % 6], parts=parts, names=loc4, atts=at, nb=2 if i % 2 else 3, ne=(4, 2, 1)[j % 3])
    for rot in range(4):
        l = loc4[rot:] + loc4[:rot]
        for hide in (None, (0,), (0, 2) if rot != 1 else (1,)):
            for packed in (None, "int", l[0][0]):
                if packed == l[0][0] and hide and not deep and rot % 2:
                    continue
                V(faces=("tri", "mixed", "quad", "tri3")[rot], parts=("edges", "boundaries"), names=l[: 2], packed=packed, hide=hide, atts="none")
    for nm in ("data", "mesh", "of", "unstructured", "Topology", "two", "Mesh2_extra", "lon", "time_mean"):
        V(faces="tri", parts=("edges", "edge_coordinates"), names=((nm, "node"), ("b_" + nm, "face")))
    return out
