"""C15: loading unstructured files, whatever the storage convention"""
BOUNDS = ("UGRID files of 6-7 nodes with 1-4 faces of 3-5 vertices, 2-4 edges, 1-3 boundaries, face-face and face-edge tables; 4 (thorough: 6) indices of one array at a time symbolic over all nodes, the base 0 or 1 declared per array or left out for any "
          "subset of the arrays, vertices along either dimension (declared by the dimension attribute, or told by the shape), unused vertices marked by _FillValue, by the default fill, by flag_values or by -1; longitudes and latitudes by standard name or units in "
          "either order with symbolic values; files without mesh metadata under every accepted face name; faces assigned directly with every index symbolic in -3..N+2")
OUTSIDE = "larger meshes; undeclared 1-based files in which no undeclared array uses the last node; undeclared order of square arrays that are not in C order; scaled index variables"
ASSUMPTIONS = ["netCDF4 stores and returns what was written and masks _FillValue, missing_value and default fills (stand-in; replays use real files)"]
ROLE = dict(faces="face_node_connectivity", edges="edge_node_connectivity", boundaries="boundary_node_connectivity",
            face_face_connectivity="face_face_connectivity", face_edge_connectivity="face_edge_connectivity")
DIM = dict(faces="face", edges="edge", boundaries="boundary", face_face_connectivity="face", face_edge_connectivity="face")
LON_UNITS = ("degrees_east", "degree_east", "degree_E", "degrees_E", "degreeE", "degreesE")
LAT_UNITS = ("degrees_north", "degree_north", "degree_N", "degrees_N", "degreeN", "degreesN")


def put(ds, name, part, rows, base, declared, order, unused, dtype, dimdecl):
    """store `rows` (0-based; None: unused) in one convention"""
    w, n = len(rows[0]), len(rows)
    d0, d1 = f"n{DIM[part]}", f"w_{name}"
    if d0 not in ds.dimensions:
        ds.createDimension(d0, n)
    ds.createDimension(d1, w)
    kind, mark = unused if isinstance(unused, tuple) else (unused, None)
    kw = dict(fill_value=mark) if kind == "fill" else {}
    v = ds.createVariable(name, dtype, (d0, d1) if order == "C" else (d1, d0), **kw)
    if declared:
        v.start_index = base
    if kind == "flag":
        v.flag_values = mark
    # the default fill of i4
    m = {"fill": mark, "flag": mark, "neg": -1, "default": -2147483647}[kind]
    for i, r in enumerate(rows):
        for j, x in enumerate(r):
            y = m if x is None else x + base
            if order == "C":
                v[i, j] = y
            else:
                v[j, i] = y
    return d0 if dimdecl else None


def verify(c, got, rows, label):
    c.check(label + " shape", got is not None and tuple(got.shape) == (len(rows), len(rows[0])))
    for i, r in enumerate(rows):
        for j, x in enumerate(r):
            y = got[i, j]
            if x is None:
                if not c.is_masked(y):
                    c.check(label + ": unused entry", y == -1)
            else:
                c.check(label + ": used entry", not c.is_masked(y))
                c.check_eq(label, y, x, tol=0)


FACES = {
    "tri": ((0, 1, 2), (1, 3, 2), (2, 3, 4), (3, 5, 4)),
    "tri1": ((0, 1, 2),),
    "tri2": ((0, 1, 2), (1, 3, 2)),
    "tri3": ((0, 1, 2), (1, 3, 2), (2, 3, 4)),
    "quad": ((0, 1, 3, 2), (2, 3, 5, 4)),
    "mixed": ((0, 1, 2, None), (1, 3, 4, 2)),
    "mixed3": ((0, 1, 2, None), (1, 3, 4, 2), (3, 5, 4, None)),
    "penta": ((0, 1, 2, 3, 4), (0, 4, 5, None, None)),
    "triwide": ((0, 1, 2, None), (1, 3, 2, None)),
}
NX, NY = (0.0, 1.0, 0.0, 1.0, 0.5, 1.5, 2.0), (0.0, 0.0, 1.0, 1.0, 2.0, 2.5, 3.0)


def h_load(c, faces, symbolic, base, declared, order="C", unused="neg", dtype="i4", dimdecl=False, extra=(), last=None, via="nc", nsym=4, off=0):
    """symbolic: the part whose used entries are symbolic; last: the part that uses the last node"""
    n = 6
    parts = dict(faces=[list(r) for r in FACES[faces]])
    if "edges" in extra:
        parts["edges"] = [[0, 1], [1, 2], [2, 0], [3, 4]][: 4 if "edges2" not in extra else 2]
    if "boundaries" in extra:
        parts["boundaries"] = [[4, 2], [0, 1], [2, 3]][: {"b1": 1, "b2": 2}.get(extra[-1], 3)]
    F = parts["faces"]
    if "face_face_connectivity" in extra:
        parts["face_face_connectivity"] = [[(None if x is None or (i + j) % 3 == 0 else (i + 1) % len(F)) for j, x in enumerate(r)] for i, r in enumerate(F)]
    if "face_edge_connectivity" in extra:
        parts["face_edge_connectivity"] = [[(None if x is None else (i + j) % 4) for j, x in enumerate(r)] for i, r in enumerate(F)]
    top = {"face_face_connectivity": len(F) - 1, "face_edge_connectivity": 3}.get(symbolic, n - 1)
    ent = []
    for i, r in enumerate(parts[symbolic]):
        for j, x in enumerate(r):
            if x is not None:
                ent.append((i, j))
    ent = ent[off % max(1, len(ent) - nsym + 1):][:nsym]
    for i, j in ent:
        parts[symbolic][i][j] = c.int(f"v{i}_{j}", 0, top)
    undecl = [p for p in parts if not declared or (declared != "all" and p not in declared)]
    base_of = lambda p: base.get(p, 0) if isinstance(base, dict) else base
    if undecl and all(base_of(p) == 1 for p in undecl) and last is not None:
        if last == symbolic:
            k = ent[c.choice("last", min(3, len(ent)))]
            parts[last][k[0]][k[1]] = n - 1
        else:
            parts[last][0][0] = n - 1
    # indices keep to the mesh: a 0-based undeclared file cannot say N
    path = c.tmp("mesh.nc")
    ds = c.nc4.Dataset(path, "w")
    m = ds.createVariable("mesh", "i4", ())
    m.cf_role = "mesh_topology"
    m.topology_dimension = 2
    m.node_coordinates = "lon lat"
    ds.createDimension("nnode", n)
    for nm, vals, std in (("lon", NX[:n], "longitude"), ("lat", NY[:n], "latitude")):
        v = ds.createVariable(nm, "f8", ("nnode",))
        v[:] = c.arr(vals, float)
        v.standard_name = std
    stored = {}
    for p, rows in parts.items():
        o = order if not isinstance(order, dict) else order.get(p, "C")
        dd = put(ds, "m_" + p, p, rows, base_of(p), p not in undecl, o, unused, dtype, dimdecl)
        setattr(m, ROLE[p], "m_" + p)
        if dd:
            setattr(m, DIM[p] + "_dimension", dd)
        stored[p] = rows
    if via == "file":
        ds.close()
        g = c.g.pyugrid.ugrid.UGrid.from_ncfile(path)
    elif via == "grid":
        ds.close()
        g = c.g.grids.Grid.from_netCDF(path)
        c.check("grid type", isinstance(g, c.g.grids.Grid_U))
    else:
        g = c.g.pyugrid.ugrid.UGrid.from_nc_dataset(ds)
    for p, rows in stored.items():
        verify(c, getattr(g, p), rows, p)
    c.check_eq("nodes", g.nodes, c.arr(list(zip(NX[:n], NY[:n])), float), tol=0)


def h_coords(c, how, order, masked=False):
    """node, face, edge and boundary coordinates, by standard name or units, either first"""
    ds = c.nc4.Dataset(c.tmp("mesh.nc"), "w")
    m = ds.createVariable("mesh", "i4", ())
    m.cf_role = "mesh_topology"
    m.topology_dimension = 2
    exp = {}
    for kind, n in (("node", 4), ("face", 2), ("edge", 5), ("boundary", 4)):
        ds.createDimension("n" + kind, n)
        xy = [[c.real(f"{kind}{d}{i}", -180, 180) for i in range(n)] for d in "xy"]
        names = [f"{kind}_a", f"{kind}_b"]
        if order:
            names = names[::-1]
        for d, nm in enumerate(names):
            v = ds.createVariable(nm, "f8", ("n" + kind,))
            v[:] = c.arr(xy[d], float)
            if how == "standard":
                v.standard_name = ("longitude", "latitude")[d]
                v.units = ("degrees_north", "degrees_east")[d] if order else ("m", "m")[d]
            elif how == "projection":
                v.standard_name = ("projection_x_coordinate", "projection_y_coordinate")[d]
            else:
                v.units = (LON_UNITS, LAT_UNITS)[d][how]
        setattr(m, kind + "_coordinates", (" ", "  ", "\n", " \t")[{"node": 0, "face": 1, "edge": 2, "boundary": 3}[kind] + order & 3].join(sorted(names)) + (" " if order else ""))
        exp[kind] = c.arr([[a, b] for a, b in zip(*xy)], float)
    g = c.g.pyugrid.ugrid.UGrid.from_nc_dataset(ds)
    c.check_eq("nodes", g.nodes, exp["node"], tol=0)
    for k in ("face", "edge", "boundary"):
        c.check_eq(k + " coordinates", getattr(g, k + "_coordinates"), exp[k], tol=0)


def h_meshes(c, which):
    """two meshes in one file"""
    ds = c.nc4.Dataset(c.tmp("mesh.nc"), "w")
    xs = {}
    for k, n in (("a", 3), ("b", 4)):
        m = ds.createVariable("mesh_" + k, "i4", ())
        m.cf_role = "mesh_topology"
        m.topology_dimension = 2
        m.node_coordinates = f"{k}lon {k}lat"
        m.face_node_connectivity = k + "f"
        ds.createDimension(k + "n", n)
        xs[k] = [[c.real(f"{k}{i}x", -180, 180), c.real(f"{k}{i}y", -90, 90)] for i in range(n)]
        for d, (nm, std) in enumerate((("lon", "longitude"), ("lat", "latitude"))):
            v = ds.createVariable(k + nm, "f8", (k + "n",))
            v[:] = c.arr([p[d] for p in xs[k]], float)
            v.standard_name = std
        ds.createDimension(k + "nf", n - 2), ds.createDimension(k + "w", 3)
        v = ds.createVariable(k + "f", "i4", (k + "nf", k + "w"))
        v.start_index = 1 if k == "a" else 0
        v[:] = c.arr([[0 + j, 1 + j, 2 + j] for j in range(n - 2)], int) + (1 if k == "a" else 0)
    if which is None:
        c.raises("two meshes, none named", ValueError, c.g.pyugrid.ugrid.UGrid.from_nc_dataset, ds)
        return
    g = c.g.pyugrid.ugrid.UGrid.from_nc_dataset(ds, mesh_name="mesh_" + which)
    c.check_eq("nodes", g.nodes, c.arr(xs[which], float), tol=0)
    c.check_eq("faces", g.faces, c.arr([[0 + j, 1 + j, 2 + j] for j in range(len(xs[which]) - 2)], int), tol=0)
    c.check("name", g.mesh_name == "mesh_" + which)


def h_rules(c, what):
    """which files have a mesh that can be read"""
    path = c.tmp("mesh.nc")
    ds = c.nc4.Dataset(path, "w")
    ds.createDimension("n", 4), ds.createDimension("nf", 2), ds.createDimension("three", 3), ds.createDimension("ne", 3), ds.createDimension("two", 2)
    X = [[c.real(f"x{i}", -180, 180), c.real(f"y{i}", -90, 90)] for i in range(4)]
    std = {"altitude": ("longitude", "altitude")}.get(what, ("longitude", "latitude"))
    for d, nm in enumerate(("lon", "lat")):
        v = ds.createVariable(nm, "f8", ("n",))
        v[:] = c.arr([p[d] for p in X], float)
        if what == "metres":
            v.units = ("degrees_east", "m")[d]
        elif what != "no units" or d == 0:
            v.standard_name = std[d]
    F, E = c.arr([[0, 1, 2], [1, 3, 2]], int), c.arr([[0, 1], [1, 3], [3, 2]], int)
    v = ds.createVariable("f", "i4", ("nf", "three"))
    v[:] = F
    v.start_index = 0
    v = ds.createVariable("e", "i4", ("ne", "two"))
    v[:] = E
    v.start_index = 0
    decoys = {"none": (), "role": (("grid_topology", 2),), "solid": (("mesh_topology", 3),), "plain": ((None, 2),), "role only": (("mesh_topology", None),)}.get(what, ())
    for i, (role, dim) in enumerate(decoys):
        m = ds.createVariable(("a", "z")[c.choice("order", 2)] + "decoy", "i4", ())
        if role:
            m.cf_role = role
        if dim:
            m.topology_dimension = dim
    if what != "none":
        m = ds.createVariable("mesh", "i4", ())
        m.cf_role = "mesh_topology" if what != "spaces" else "mesh_topology "
        m.topology_dimension = 1 if what == "network" else 2
        if what != "no coordinates":
            m.node_coordinates = "lon lat" if what != "absent" else "lon latitude"
        if what != "network":
            m.face_node_connectivity = "f"
        m.edge_node_connectivity = "e"
    U = c.g.pyugrid.ugrid.UGrid
    how = c.choose("how", ["found", "named"])
    kw = dict(mesh_name="mesh") if how == "named" else {}
    if what in ("none", "altitude", "metres", "no units", "no coordinates", "absent"):
        c.raises("refused", ValueError, lambda: U.from_nc_dataset(ds, **kw))
        return
    if decoys:
        c.raises("not a mesh", ValueError, lambda: U.from_nc_dataset(ds, mesh_name=[n for n in ds.variables if n.endswith("decoy")][0]))
    c.raises("no such mesh", ValueError, lambda: U.from_nc_dataset(ds, mesh_name="lon"))
    c.raises("no such variable", ValueError, lambda: U.from_nc_dataset(ds, mesh_name="nowhere"))
    g = U.from_nc_dataset(ds, **kw)
    c.check("name", g.mesh_name == "mesh")
    c.check_eq("nodes", g.nodes, c.arr(X, float), tol=0)
    c.check_eq("edges", g.edges, E, tol=0)
    if what == "network":
        c.check("no faces", g.faces is None)
    else:
        c.check_eq("faces", g.faces, F, tol=0)


def h_names(c, name, base, order, nf, nsym=5, off=0):
    """files without mesh metadata: recognised variable names"""
    n = 6
    rows = [list(r) for r in FACES["tri"][:nf]]
    ent = [(i, j) for i in range(nf) for j in range(3)]
    for i, j in ent[off % max(1, len(ent) - nsym + 1):][:nsym]:
        rows[i][j] = c.int(f"v{i}_{j}", 0, n - 1)
    if base:
        k = c.choice("last", min(2, nf)), c.choice("pos", 3)
        rows[k[0]][k[1]] = n - 1
    ds = c.nc4.Dataset(c.tmp("mesh.nc"), "w")
    ds.createDimension("node", n), ds.createDimension("nele", nf), ds.createDimension("three", 3)
    for nm, vals in (("lon", NX), ("lat", NY)):
        v = ds.createVariable(nm, "f8", ("node",))
        v[:] = c.arr(vals[:n], float)
    v = ds.createVariable(name, "i4", ("nele", "three") if order == "C" else ("three", "nele"))
    for i in range(nf):
        for j in range(3):
            v[(i, j) if order == "C" else (j, i)] = rows[i][j] + base
    g = c.g.grids.Grid.from_netCDF(dataset=ds)
    c.check("grid type", isinstance(g, c.g.grids.Grid_U))
    verify(c, g.faces, rows, "faces")
    c.check_eq("nodes", g.nodes, c.arr(list(zip(NX[:n], NY[:n])), float), tol=0)


def h_set(c, nf, w, kind, masked=None):
    """assigning faces: accepted, shifted or refused"""
    n = 4
    rows = [[c.int(f"v{i}_{j}", -3, n + 2) for j in range(w)] for i in range(nf)]
    used = [(i, j) for i in range(nf) for j in range(w)]
    a = c.arr(rows, c.np.int32)
    if masked is not None:
        mk = [[(i, j) in masked for j in range(w)] for i in range(nf)]
        a = c.np.ma.MaskedArray(a, mask=mk)
        used = [x for x in used if x not in masked]
    vals = [rows[i][j] for i, j in used]
    a0 = c.snapshot(a)
    ok0 = c.And(*[c.And(v >= -1, v < n) for v in vals])
    ok1 = c.And(c.And(*[c.And(v >= 1, v <= n) for v in vals]), c.Or(*[v == n for v in vals]))
    case = 0 if c.fork(ok0) else 1 if c.fork(ok1) else 2
    g = c.g.pyugrid.ugrid.UGrid(nodes=c.arr(list(zip(NX[:n], NY[:n])), float))
    arg = a if kind == "array" else rows
    if case == 2:
        old = g.faces
        c.raises("indices that refer to no node", ValueError, setattr, g, "faces", arg)
        c.check("refused faces are not kept", g.faces is old)
    else:
        if case == 1:
            import warnings

            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                g.faces = arg
        else:
            g.faces = arg
        c.check("shape", tuple(g.faces.shape) == (nf, w))
        for (i, j), v in zip(used, vals):
            c.check_eq("index", g.faces[i, j], v - case, tol=0)
        for i, j in masked or ():
            c.check("unused", c.is_masked(g.faces[i, j]))
    c.check_eq("caller's array", a, a0, tol=0)


def jobs(tier):
    deep = tier != "quick"
    out = []
    add = lambda **k: out.append(("h_load", dict(nsym=6 if deep else 4, off=len(out), **k), dict(weight=3)))
    marks = ["neg", ("fill", -999), ("fill", 999999), "default", ("flag", 999999), ("flag", -99), ("fill", 0)]
    k = 0
    for faces in FACES:
        flex = any(None in r for r in FACES[faces])
        for base in (0, 1):
            for mark in marks if flex else marks[:1]:
                if mark == ("fill", 0) and base == 0:
                    continue  # 0 is a node there
                for order in "CF":
                    square = len(FACES[faces]) == len(FACES[faces][0])
                    for dim in (False, True):
                        if not dim and (square or len(FACES[faces]) == 3) and order == "F":
                            continue
                        if not dim and (order == "F" and len(FACES[faces][0]) != 3 or order == "C" and len(FACES[faces]) == 3 and not square):
                            continue
                        k += 1
                        if not deep and flex and k % 2 and mark not in ("neg", ("flag", 999999)):
                            continue
                        add(faces=faces, symbolic="faces", base=base, declared="all" if k % 3 else (), order=order, unused=mark, dimdecl=dim, last="faces", via=("nc", "file", "grid")[k % 3], dtype=("i4", "i8", "i4")[k % 3] if mark != "default" else "i4")
    al = ("edges", "boundaries", "face_face_connectivity", "face_edge_connectivity")
    for base in (0, 1):
        for sy in ("faces", "edges", "boundaries", "face_face_connectivity", "face_edge_connectivity"):
            for dec in ("all", (), ("faces",), ("edges", "boundaries"), ("face_face_connectivity", "face_edge_connectivity")) if deep or sy in ("faces", "boundaries") else ("all", ()):
                for last in ("faces", "edges", "boundaries") if base and dec != "all" else (None,):
                    if last and last in dec:
                        continue
                    k += 1
                    add(faces=("mixed", "tri", "quad")[k % 3], symbolic=sy, base=base, declared=dec, unused=marks[k % 6], extra=al, last=last, via="nc", order=dict(edges="F") if k % 2 else "C")
    # every array with its own base
    FF, FE = al[2:]
    for bases, dec, last in ((dict(faces=1), "all", None), (dict(faces=1), ("faces",), None), (dict(edges=1), ("edges",), None), (dict(edges=1, boundaries=1), ("edges", "boundaries"), None), ({FF: 1, FE: 1}, (FF, FE), None), ({FF: 1}, "all", None),
                             ({"faces": 1, FE: 1}, "all", None), (dict(boundaries=1), ("faces", "edges", "boundaries", FF, FE), None), ({"edges": 1, "boundaries": 1, FF: 1, FE: 1}, ("faces",), "edges"), ({"boundaries": 1}, ("faces", "edges", FF, FE), "boundaries")):
        for sy in al + ("faces",) if deep else ("faces", "edges") if len(out) % 2 else ("edges", "boundaries"):
            k += 1
            add(faces=("mixed", "tri", "quad")[k % 3], symbolic=sy, base=bases, declared=dec, unused=marks[k % 6], extra=al, last=last, via="nc")
    for b, ex in ((0, ("edges", "edges2", "boundaries", "b1")), (1, ("edges", "edges2", "boundaries", "b2")), (1, ("edges", "boundaries"))):
        for o in "CF":
            for sy in ("edges", "boundaries"):
                add(faces="tri", symbolic=sy, base=b, declared="all", extra=ex, order=o, dimdecl=o == "F", via="file")
    for how in ("standard", "projection") + tuple(range(6)):
        for o in (0, 1):
            out.append(("h_coords", dict(how=how, order=o), {}))
    for w in ("none", "role", "solid", "plain", "role only", "spaces", "network", "altitude", "metres", "no units", "no coordinates", "absent"):
        out.append(("h_rules", dict(what=w), {}))
    for w in (None, "a", "b"):
        out.append(("h_meshes", dict(which=w), {}))
    for i, nm in enumerate(("faces", "tris", "nv", "ele", "NV")):
        for base in (0, 1):
            for o in "CF":
                for nf in (1, 2, 4):
                    if deep or (i + base + nf + (o == "C")) % 2 or nm == "nv":
                        out.append(("h_names", dict(name=nm, base=base, order=o, nf=nf, off=len(out), nsym=7 if deep else 4), dict(weight=2)))
    for kind in ("array", "list"):
        out.append(("h_set", dict(nf=2, w=3, kind=kind), dict(weight=4)))
    for ms in (((0, 2),), ((1, 2),), ((0, 3), (1, 3)), ((1, 0),)):
        out.append(("h_set", dict(nf=2, w=4 if (0, 3) in ms else 3, kind="array", masked=ms), dict(weight=4)))
    if deep:
        out.append(("h_set", dict(nf=3, w=3, kind="array"), dict(weight=8)))
    return out
