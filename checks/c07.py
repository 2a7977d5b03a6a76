"""C07: rectangular grids"""
BOUNDS = ("axes of 2-4 symbolic nodes each (thorough: 5), ascending or descending independently; batches of 1-3 symbolic points anywhere; symbolic values; "
          "variables stored (lat, lon) or (lon, lat), square ones with named dimensions; direct call, slices (tuples and lists) of 3-d data, netCDF variables, and through Variable; one value optionally masked")
OUTSIDE = "NaN data; longer axes"
ASSUMPTIONS = ["scipy's RegularGridInterpolator is modelled by its specification (multilinear, fill value outside); replays use the real one"]


def axis(c, name, n, desc, place=(0, 0, 0)):
    """place: (halvings of the size, lon, lat)"""
    v = [c.real(f"{name}{i}", -50, 50) for i in range(n)]
    for a, b in zip(v, v[1:]):
        c.assume(a - b >= 0.5 if desc else b - a >= 0.5)
    return [put(x, place, name) for x in v]


def put(x, place, name):
    return x * 0.5 ** place[0] + place[1 if name in ("lon", "px") else 2]


def point(c, k, place):
    return [put(c.real(f"{n}{k}", -80, 80), place, n) for n in ("px", "py")]


def find(c, v, x):
    """(cell index or None, on a grid line or the rim)"""
    for k in range(len(v) - 1):
        lo, hi = (v[k], v[k + 1])
        if c.fork(c.Or(c.And(lo < x, x < hi), c.And(hi < x, x < lo))):
            return k, False
    for k in range(len(v)):
        if c.fork(x == v[k]):
            return k, True
    return None, False


def h_locate(c, nx, ny, dx, dy, np_, place=(0, 0, 0)):
    lon, lat = axis(c, "lon", nx, dx, place), axis(c, "lat", ny, dy, place)
    g = c.g.grids.Grid_R(node_lon=c.arr(lon, float), node_lat=c.arr(lat, float))
    pts = [point(c, k, place) for k in range(np_)]
    arr = c.arr(pts, float)
    r = g.locate_faces(arr)
    c.check("shape", tuple(r.shape) == (np_, 2))
    for k, (x, y) in enumerate(pts):
        i, j = int(r[k, 0]), int(r[k, 1])
        verify_cell(c, i, j, lon, lat, x, y)
    one = g.locate_faces(c.arr(pts[0], float))
    c.check("single point shape", tuple(one.shape) == (2,))
    c.check_eq("single point agrees", one, r[0])
    c.check_eq("points untouched", arr, c.arr(pts, float))


def verify_cell(c, i, j, lon, lat, x, y):
    (a, ra), (b, rb) = find(c, lon, x), find(c, lat, y)
    if a is None or b is None:
        c.check("outside", i == -1 and j == -1, (i, j))
    elif not ra and not rb:
        c.check("cell of the point", i == a and j == b, (i, j, a, b))
    else:
        # on a grid line: one of the adjacent cells; on the rim possibly none
        rim = (ra and a in (0, len(lon) - 1)) or (rb and b in (0, len(lat) - 1))
        if i == -1 and j == -1:
            c.check("on an inner grid line", rim)
        else:
            c.check("adjacent cell", 0 <= i < len(lon) - 1 and 0 <= j < len(lat) - 1 and i in ((a - 1, a) if ra else (a,)) and j in ((b - 1, b) if rb else (b,)), (i, j, a, b))


def bilinear(c, lon, lat, V, x, y):
    """V[j][i]: value at lat j, lon i; piecewise bilinear, zero outside the closed range"""
    (a, ra), (b, rb) = find(c, lon, x), find(c, lat, y)
    if a is None or b is None:
        return 0.0

    def along(v, k, on, x):
        if on:
            return [(k, 1)]
        t = (x - v[k]) / (v[k + 1] - v[k])
        return [(k, 1 - t), (k + 1, t)]

    return sum(wa * wb * V[j][i] for i, wa in along(lon, a, ra, x) for j, wb in along(lat, b, rb, y))


def h_interp(c, nx, ny, dx, dy, np_, order, via, place=(0, 0, 0), hole=None):
    lon, lat = axis(c, "lon", nx, dx, place), axis(c, "lat", ny, dy, place)
    g = c.g.grids.Grid_R(node_lon=c.arr(lon, float), node_lat=c.arr(lat, float))
    V = [[c.real(f"v{j}_{i}", -100, 100) for i in range(nx)] for j in range(ny)]
    pts = [point(c, k, place) for k in range(np_)]
    if hole:  # a missing value counts as zero
        V[hole[0]][hole[1]] = 0.0
    exp = [bilinear(c, lon, lat, V, x, y) for x, y in pts]
    D = V if order == "yx" else [[V[j][i] for j in range(ny)] for i in range(nx)]
    arr = c.arr(pts, float)

    def data(levels):
        if not hole:
            return c.arr(levels, float)
        j, i = hole if order == "yx" else hole[::-1]
        m = [[[n == 1 and (a, b) == (j, i) for b in range(len(D[0]))] for a in range(len(D))] for n in range(3)]
        full = [[list(row) for row in lv] for lv in levels]
        full[1][j][i] = 1e20
        return c.np.ma.MaskedArray(c.arr(full, float), mask=c.arr(m, bool))

    Z = [[0.0] * len(D[0]) for _ in D]
    if via == "direct":
        r = g.interpolate_var_to_points(arr, data([Z, D, Z])[1] if hole else c.arr(D, float))
    elif via == "slices":
        r = g.interpolate_var_to_points(arr, data([Z, D, Z]), slices=(1,))
    elif via == "list":
        r = g.interpolate_var_to_points(arr, data([Z, D, Z]), slices=[1])
    elif via == "ellipsis":
        r = g.interpolate_var_to_points(arr, data([Z, D, Z]), slices=[1, slice(None), slice(None)])
    elif via == "nc":
        ds = c.nc4.Dataset(c.tmp("a.nc"), "w")
        ds.createDimension("t", 3)
        ds.createDimension("lat", ny)
        ds.createDimension("lon", nx)
        v = ds.createVariable("v", "f8", ("t",) + (("lat", "lon") if order == "yx" else ("lon", "lat")), fill_value=-999.0)
        v[:] = data([Z, D, Z])
        r = g.interpolate_var_to_points(arr, v, slices=[1])
        w = ds.createVariable("w", "f8", v.dimensions[1:], fill_value=-999.0)
        w[:] = data([Z, D, Z])[1]
        c.check_eq("without slices", g.interpolate_var_to_points(arr, w), c.arr(exp, float))
        ds.close()
    elif via == "single":
        r = g.interpolate_var_to_points(c.arr(pts[0], float), c.arr(D, float))
        c.check("scalar", c.np.ndim(r) == 0)
        c.check_eq("value", r, exp[0])
        return
    elif via == "variable":
        Vr = c.g.variable.Variable(grid=g, data=data([Z, D, Z])[1] if hole else c.arr(D, float), location="node")
        r = Vr.at(arr)
        c.check("column", tuple(r.shape) == (np_, 1))
        r = r[:, 0]
    elif via == "named":
        ds = c.nc4.Dataset(c.tmp("a.nc"), "w")
        ds.createDimension("lat", ny)
        ds.createDimension("lon", nx)
        v = ds.createVariable("v", "f8", ("lat", "lon") if order == "yx" else ("lon", "lat"))
        v[:] = c.arr(D, float)
        r = g.interpolate_var_to_points(arr, v, slices=())
        ds.close()
    c.check("one value per point", tuple(c.np.shape(r)) == (np_,))
    c.check_eq("value", r, c.arr(exp, float))


def h_centers(c, nx, ny):
    lon, lat = axis(c, "lon", nx, False), axis(c, "lat", ny, False)
    g = c.g.grids.Grid_R(node_lon=c.arr(lon, float), node_lat=c.arr(lat, float))
    n, m = g.nodes, g.centers
    c.check("shapes", tuple(n.shape) == (ny, nx, 2) and tuple(m.shape) == (ny - 1, nx - 1, 2))
    for j in range(ny):
        for i in range(nx):
            c.check_eq("node", n[j, i], c.arr([lon[i], lat[j]], float))
            if i < nx - 1 and j < ny - 1:
                c.check_eq("center", m[j, i] * 2, c.arr([lon[i] + lon[i + 1], lat[j] + lat[j + 1]], float))


def jobs(tier):
    out = []
    T = (False, True)
    sizes = [(2, 3), (3, 2), (4, 3)] if tier == "quick" else [(2, 3), (3, 2), (3, 4), (4, 3), (5, 4)]
    for nx, ny in sizes:
        for dx in T:
            for dy in T:
                out.append(("h_locate", dict(nx=nx, ny=ny, dx=dx, dy=dy, np_=1), dict(validate=20, weight=nx * ny)))
                if nx * ny <= 6:
                    for order in ("yx", "xy"):
                        out.append(("h_interp", dict(nx=nx, ny=ny, dx=dx, dy=dy, np_=1, order=order, via="direct"), dict(validate=15, weight=nx)))
    out.append(("h_locate", dict(nx=3, ny=3, dx=False, dy=True, np_=2), dict(validate=20, weight=20)))
    for order in ("yx", "xy"):
        for via in ("slices", "single", "variable"):
            out.append(("h_interp", dict(nx=2, ny=3, dx=False, dy=False, np_=1, order=order, via=via), dict(validate=15, weight=4)))
        out.append(("h_interp", dict(nx=2, ny=2, dx=False, dy=False, np_=2, order=order, via="named"), dict(validate=15, weight=10)))
        out.append(("h_interp", dict(nx=3, ny=3, dx=False, dy=True, np_=1, order=order, via="named"), dict(validate=15, weight=10)))
        for via in ("list", "ellipsis", "nc"):
            out.append(("h_interp", dict(nx=2, ny=3, dx=False, dy=False, np_=1, order=order, via=via), dict(validate=15, weight=4)))
        for k, via in enumerate(("direct", "slices", "list", "nc", "variable")):
            out.append(("h_interp", dict(nx=2, ny=3, dx=False, dy=False, np_=1, order=order, via=via, hole=((0, 0), (2, 1), (1, 0))[k % 3]), dict(validate=15, weight=4)))
    out.append(("h_interp", dict(nx=3, ny=2, dx=False, dy=False, np_=2, order="xy", via="direct"), dict(validate=15, weight=30)))
    for place in ((16, -70.5, 42.25), (13, 151.75, -33.5)):
        out.append(("h_locate", dict(nx=3, ny=2, dx=False, dy=True, np_=1, place=place), dict(validate=20, weight=6)))
        for order in ("yx", "xy"):
            out.append(("h_interp", dict(nx=2, ny=3, dx=False, dy=False, np_=1, order=order, via="direct", place=place), dict(validate=15, weight=4)))
        out.append(("h_interp", dict(nx=3, ny=2, dx=True, dy=False, np_=1, order="yx", via="variable", place=place), dict(validate=15, weight=4)))
    out.append(("h_centers", dict(nx=3, ny=2), {}))
    return out
