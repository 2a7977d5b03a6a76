"""C21: where on the grid a variable's values are"""
BOUNDS = ("variables of 0-5 dimensions with every dimension symbolic (0-11) against triangular meshes (3-10 nodes, 0-4 faces of 3-6 vertices, with and without boundaries), curvilinear grids (2x2 to 4x3 nodes, every subset of center and edge coordinates, every padding of the centers) and "
          "rectangular grids (2-4 x 2-4, also with edge coordinates set); arrays, lists and files (0-4 dimensions of sizes 1-6, with known, unknown or no location attribute) through Variable and Dataset.from_netCDF")
OUTSIDE = "larger grids; edges of triangular meshes (no location is inferred for them); sizes shared by several locations (any of them is accepted)"
ASSUMPTIONS = ["what has only a shape stands for the variable in the symbolic jobs; arrays and files are used in the others"]


class Shape:
    def __init__(self, shape):
        self.shape = tuple(shape)
        self.ndim = len(self.shape)
        self.dtype = float

    def __len__(self):
        return self.shape[0]

    def __getitem__(self, i):
        raise AssertionError("the values are not needed")


def tri(c, nn, nf, nb, w=3, masked=False):
    G = c.g.grids.Grid_U
    xy = [(0, 0), (2, 0), (0, 2), (2, 2), (4, 1), (4, 3)][:nn]
    F = [(0, 1, 2), (1, 3, 2), (1, 4, 3), (3, 4, 5)][:nf]
    kw = {}
    if w > 3:
        xy = [(i // 2 * 2, i % 2 * 2) for i in range(nn)]
        F = [(2 * i, 2 * i + 2, 2 * i + 3, 2 * i + 1) + (2 * i,) * (w - 4) for i in range(nf)]
    if nf:
        kw["faces"] = c.arr(F, int)
        if masked:
            kw["faces"] = c.np.ma.MaskedArray(kw["faces"], mask=[[False] * 3 + [True] * (w - 3)] * nf)
    if nb:
        kw["boundaries"] = c.arr([(0, 1), (1, 2), (2, 0), (0, 2), (2, 1)][:nb], int)
    cand = {"node": (nn,)}
    if nf:
        cand["face"] = (nf,)
    if nb:
        cand["boundary"] = (nb,)
    return G(nodes=c.arr(xy, float), **kw), cand


def curvi(c, ny, nx, parts, pad=None):
    kw = {}
    cand = {"node": [(ny, nx)]}
    z = lambda a, b: c.np.zeros((a, b))
    if "center" in parts:
        k = dict(both=1, none=-1, low=0, high=0)[pad or "both"]
        kw.update(center_lon=z(ny + k, nx + k), center_lat=z(ny + k, nx + k), face_padding=(pad or "both",) * 2)
        cand["center"] = [(ny + 1, nx + 1), (ny - 1, nx - 1)]
    if "edge1" in parts:
        kw.update(edge1_lon=z(ny + 1, nx), edge1_lat=z(ny + 1, nx))
        cand["edge1"] = [(ny + 1, nx)]
    if "edge2" in parts:
        kw.update(edge2_lon=z(ny, nx + 1), edge2_lat=z(ny, nx + 1))
        cand["edge2"] = [(ny, nx + 1)]
    return c.g.grids.Grid_S(node_lon=z(ny, nx), node_lat=z(ny, nx), **kw), cand


def rect(c, ny, nx, parts=()):
    g = c.g.grids.Grid_R(node_lon=c.arr([float(i) for i in range(nx)], float), node_lat=c.arr([float(i) for i in range(ny)], float))
    cand = {"node": [(ny, nx)], "center": [(ny + 1, nx + 1), (ny - 1, nx - 1)]}
    if "edge1" in parts:
        g.edge1_lon, g.edge1_lat, cand["edge1"] = c.np.zeros((ny + 1, nx)), c.np.zeros((ny + 1, nx)), [(ny + 1, nx)]
    if "edge2" in parts:
        g.edge2_lon, g.edge2_lat, cand["edge2"] = c.np.zeros((ny, nx + 1)), c.np.zeros((ny, nx + 1)), [(ny, nx + 1)]
    return g, cand


def make(c, grid, args):
    return dict(U=tri, S=curvi, R=rect)[grid](c, *args)


def matching(c, grid, cand, shape):
    """locations whose size the shape has (forks where it is symbolic)"""
    out = []
    for loc, want in cand.items():
        if grid == "U":
            if len(shape) >= 1 and c.fork(shape[-1] == want[0]):
                out.append(loc)
        else:
            if len(shape) >= 2 and any(c.fork(c.And(shape[-2] == a, shape[-1] == b)) for a, b in want):
                out.append(loc)
    return out


def h_shape(c, grid, args, nd):
    g, cand = make(c, grid, args)
    shape = tuple(c.int(f"s{i}", 0, 11) for i in range(nd))
    got = g.infer_location(Shape(shape))
    ok = matching(c, grid, cand, shape)
    if ok:
        c.check("the matching location", got in ok, f"{got} not in {ok}")
    else:
        c.check("no location", got is None, f"{got}")
    again = g.infer_location(Shape(shape))
    c.check("the same again", again == got)


def h_variable(c, grid, args, kind="array"):
    """through Variable: arrays of any of these shapes"""
    g, cand = make(c, grid, args)
    lead = c.choose("lead", ((), (1,), (2,), (3, 2)))
    sizes = (1, 2, 3, 4, 5, 6)
    shape = lead + tuple(c.choose(f"n{i}", sizes) for i in range(1 if grid == "U" else 2))
    data = c.np.zeros(shape)
    ok = matching(c, grid, cand, shape)
    if kind == "list":
        data = data.tolist()
    try:
        v = c.g.variable.Variable(grid=g, data=data)
    except ValueError as e:
        return c.check("only a mismatch is refused", not ok, f"{shape} {e}")
    c.check("a mismatch is refused", bool(ok), f"{shape}")
    c.check("location", v.location in ok, f"{v.location} not in {ok}")
    c.check("on nodes", v.is_data_on_nodes == (v.location == "node"))


def h_given(c, grid, args, loc):
    """a location that is given is kept"""
    g, cand = make(c, grid, args)
    shape = tuple(c.choose(f"n{i}", (2, 3, 4, 5)) for i in range(1 if grid == "U" else 2))
    v = c.g.variable.Variable(grid=g, data=c.np.zeros(shape), location=loc)
    c.check("as given", v.location == loc)
    c.raises("unknown location", ValueError, c.g.variable.Variable, grid=g, data=c.np.zeros(shape), location="elsewhere")


def h_file(c, grid, args, nd, attr=None, name="v", part=0):
    """through a file: the dataset holds the variables that have a location, and only those"""
    ds = c.nc4.Dataset(c.tmp("a.nc"), "w")
    if grid == "R":
        ny, nx = args
        ds.createDimension("lat", ny), ds.createDimension("lon", nx)
        v = ds.createVariable("lon", "f8", ("lon",))
        v[:] = c.arr([float(i) for i in range(nx)], float)
        v = ds.createVariable("lat", "f8", ("lat",))
        v[:] = c.arr([float(i) for i in range(ny)], float)
        cand = {"node": [(ny, nx)], "center": [(ny + 1, nx + 1), (ny - 1, nx - 1)]}
    else:
        g, cand = tri(c, *args)
        nn, nf, nb = args
        ds.createDimension("node", nn), ds.createDimension("face", nf), ds.createDimension("three", 3), ds.createDimension("two", 2)
        m = ds.createVariable("Mesh", "i4", ())
        m.cf_role, m.topology_dimension, m.node_coordinates, m.face_node_connectivity = "mesh_topology", 2, "nlon nlat", "tris"
        for k, d in (("nlon", 0), ("nlat", 1)):
            v = ds.createVariable(k, "f8", ("node",))
            v.units = ("degrees_east", "degrees_north")[d]
            v.standard_name = ("longitude", "latitude")[d]
            v[:] = g.nodes[:, d]
        v = ds.createVariable("tris", "i4", ("face", "three"))
        v.start_index = 0
        v[:] = g.faces
        if nb:
            m.boundary_node_connectivity = "bnds"
            ds.createDimension("bnd", nb)
            v = ds.createVariable("bnds", "i4", ("bnd", "two"))
            v.start_index = 0
            v[:] = g.boundaries
    shape = tuple(c.choose(f"n{i}", (1, 2, 3, 4, 5)) for i in range(nd))
    for i, n in enumerate(shape):
        ds.createDimension(f"d{i}", n)
    v = ds.createVariable(name, "f8", tuple(f"d{i}" for i in range(nd)))
    if nd:
        v[:] = c.np.zeros(shape)
    else:
        v[...] = 0.0
    if attr is not None:
        v.location = attr
    if grid == "R":
        D = c.g.gridded.Dataset.from_netCDF(ds)
        c.check("a rectangular grid", isinstance(D.grid, c.g.grids.Grid_R), f"{type(D.grid)}")
        got = D.variables
    else:
        got = c.g.gridded.Dataset.from_netCDF(ds).variables
    ok = [attr] if attr in ("node", "face", "boundary", "center", "edge1", "edge2") else matching(c, grid, cand, shape)
    got = {k: x for k, x in got.items() if k == name}
    if ok:
        c.check("the variable is there", name in got, f"{shape} {ok}")
        if name in got:
            c.check("location", got[name].location in ok, f"{got[name].location} not in {ok} {shape}")
    else:
        c.check("nothing without a location", name not in got, f"{shape} {got.get(name) and got[name].location}")


def jobs(tier):
    deep = tier != "quick"
    out = []
    add = lambda h, w=1, **kw: out.append((h, kw, dict(weight=w)))
    U = [(3, 1, 0), (4, 2, 3), (5, 3, 2), (6, 4, 5), (6, 4, 0), (3, 0, 0), (4, 0, 3), (3, 1, 2), (5, 3, 4), (5, 3, 5), (5, 3, 3)]
    Q = [(8, 3, 0, 4), (8, 3, 5, 4), (6, 2, 0, 4, True), (8, 3, 2, 6, True), (4, 1, 0, 5), (10, 4, 0, 4)]
    parts = [(), ("center",), ("center", "edge1"), ("center", "edge2"), ("center", "edge1", "edge2"), ("edge1",), ("edge2",), ("edge1", "edge2")]
    S = [(ny, nx, p, pad) for q, (ny, nx) in enumerate(((2, 2), (3, 4), (4, 3), (2, 3), (3, 3))) for p in parts for pad in (("both", "none", "low", "high") if "center" in p and (deep or q < 2) else ("both",))]
    R = [(2, 2), (3, 3), (3, 4), (4, 3), (2, 4), (4, 4)]
    RE = [(3, 4, ("edge1",)), (4, 3, ("edge2",)), (3, 3, ("edge1", "edge2"))]
    for grid, L in (("U", U + Q), ("S", S), ("R", R + RE)):
        for q, a in enumerate(L):
            for nd in range(6 if deep else 5):
                add("h_shape", 2, grid=grid, args=a, nd=nd)
            if deep or grid != "S" or q % 5 == 0:
                add("h_variable", 2, grid=grid, args=a)
                add("h_variable", 2, grid=grid, args=a, kind="list")
            for loc in {"U": ("node", "face", "boundary", "edge"), "S": ("node", "center", "edge1", "edge2"), "R": ("node", "center")}[grid]:
                if deep or q % 4 == 0:
                    add("h_given", grid=grid, args=a, loc=loc)
    for a in R:
        for nd in range(5 if deep else 4):
            for at in (None, "node", "center", "cell_centre", ""):
                if nd == 0 and at in ("node", "center"):
                    continue
                if deep or nd in (0, 2) or at in (None, "cell_centre"):
                    if nd < 3 or deep or a in ((3, 4), (3, 3)):
                        add("h_file", 3, grid="R", args=a, nd=nd, attr=at)
    for a in U:
        if a[1]:
            for nd in range(4 if deep else 3):
                for at in (None, "face", "node", "somewhere"):
                    if nd == 0 and at in ("node", "face"):
                        continue
                    if deep or nd < 2 or at is None:
                        add("h_file", 3, grid="U", args=a, nd=nd, attr=at)
    return out
