"""C04: interpolation in time"""
BOUNDS = ("time axes of 1-4 symbolic entries (thorough: 5), symbolic query instant anywhere, symbolic values at every step and grid node; triangular, curvilinear and rectangular "
          "grids with fixed nodes and two query points (inside; inside another cell or outside); extrapolation on or off; arrays and netCDF variables as data; depth-first dimension order")
OUTSIDE = "longer axes; larger grids (the spatial part is decided separately)"
ASSUMPTIONS = ["the values at the individual time steps are obtained from a separate variable without time holding that step's field"]


def grid(c, kind):
    G = c.g.grids
    if kind == "U":
        nodes = c.arr([[0, 0], [4, 0], [0, 4], [4, 5]], float)
        return G.Grid_U(nodes=nodes, faces=c.arr([[0, 1, 2], [1, 3, 2]], c.np.int32)), (4,), "node"
    if kind == "Uface":
        nodes = c.arr([[0, 0], [4, 0], [0, 4], [4, 5]], float)
        return G.Grid_U(nodes=nodes, faces=c.arr([[0, 1, 2], [1, 3, 2]], c.np.int32)), (2,), "face"
    if kind == "R":
        return G.Grid_R(node_lon=c.arr([0.0, 2.0, 5.0], float), node_lat=c.arr([0.0, 4.0], float)), (2, 3), "node"
    lon = c.arr([[0.0, 2, 5], [0, 2, 5], [1, 3, 6]], float)
    lat = c.arr([[0.0, 0, 0], [3, 3, 4], [6, 6, 7]], float)
    return G.Grid_S(node_lon=lon, node_lat=lat), (3, 3), "node"


def field(c, name, shape):
    return c.reals(name, shape, -100, 100)


def pts(c, n):
    return c.arr([[1.0, 1.0], [3.5, 3.0]][:n], float)


def axis(c, n):
    ts = [c.dt(f"t{i}", 0, 10**8) for i in range(n)]
    for a, b in zip(ts, ts[1:]):
        c.assume(a < b)
    return ts


def expected(c, ts, q, steps, extrapolate):
    """(raises, value) from the per-step values"""
    n = len(ts)
    if n == 1:
        return False, steps[0]
    if c.fork(q < ts[0]):
        return not extrapolate, steps[0]
    if c.fork(q > ts[-1]):
        return not extrapolate, steps[-1]
    for k in range(n):
        if c.fork(q == ts[k]):
            return False, steps[k]
    for k in range(n - 1):
        if c.fork(c.And(ts[k] < q, q < ts[k + 1])):
            a = c.secs(q - ts[k]) / c.secs(ts[k + 1] - ts[k])
            return False, steps[k] + (steps[k + 1] - steps[k]) * a
    raise AssertionError


def h_time(c, kind, n, extrapolate, npts, via="array"):
    g, shape, loc = grid(c, kind)
    ts = axis(c, n)
    q = c.dt("q", 0, 10**8)
    F = [field(c, f"f{k}", shape) for k in range(n)]
    P = pts(c, npts)
    Var, Time = c.g.variable.Variable, c.g.time.Time
    steps = []
    for k in range(n):
        g2, _, _ = grid(c, kind)
        steps.append(step_value(c, Var, Time, g2, F[k], loc, P, ts[0], kind))
    raises, exp = expected(c, ts, q, steps, extrapolate)
    data = c.np.stack(F)
    if via == "nc":
        ds = c.nc4.Dataset(c.tmp("d.nc"), "w")
        dims = ("time",) + tuple("ab"[: len(shape)])
        if kind == "R":
            dims = ("time", "lat", "lon")
        for d, s in zip(dims, data.shape):
            ds.createDimension(d, s)
        v = ds.createVariable("v", "f8", dims)
        v[:] = data
        data = v
    V = Var(grid=g, data=data, time=Time(c.dtarr(list(ts))), location=loc)
    r, val = c.did_raise(ValueError, V.at, P, q, extrapolate=extrapolate)
    if raises:
        c.check("refused outside the range", r and isinstance(val, c.g.time.OutOfTimeRangeError))
        return
    c.check("answered", not r, val)
    c.check("shape", tuple(val.shape) == (npts, 1))
    c.check_eq("value", val, exp)
    # a stored step is reproduced exactly
    if n > 1:
        for k in (0, n - 1):
            c.check_eq("value at a stored time", V.at(P, ts[k]), steps[k])


def step_value(c, Var, Time, g, F, loc, P, t, kind):
    return Var(grid=g, data=F, location=loc).at(P, None)


def h_depth_first(c, kind, n, extrapolate):
    """data ordered (depth, time, ...): the depth level must survive the time interpolation"""
    g, shape, loc = grid(c, kind)
    ts = axis(c, n)
    q = c.dt("q", 0, 10**8)
    F = [[field(c, f"f{d}_{k}", shape) for k in range(n)] for d in range(n)]
    P2 = pts(c, 1)
    z = [0.0, 10.0, 30.0, 60.0][:n]
    lev = c.choice("level", n - 1)
    frac = c.real("frac", 0.01, 0.99)
    P = c.arr([[1.0, 1.0, z[lev] + frac * (z[lev + 1] - z[lev])]], float)
    Var, Time = c.g.variable.Variable, c.g.time.Time
    per = []
    for d in (lev, lev + 1):
        per.append([step_value(c, Var, Time, grid(c, kind)[0], F[d][k], loc, P2, ts[0], kind) for k in range(n)])
    raises, e0 = expected(c, ts, q, per[0], extrapolate)
    raises, e1 = expected(c, ts, q, per[1], extrapolate)
    D = c.g.depth.L_Depth(terms={"depth_levels": c.arr(z, float)})
    V = Var(grid=g, data=c.np.stack([c.np.stack(x) for x in F]), time=Time(c.dtarr(list(ts))), depth=D, location=loc)
    V.dimension_ordering = ["depth", "time"] + (["ele"] if kind == "U" else ["lon", "lat"])
    r, val = c.did_raise(ValueError, V.at, P, q, extrapolate=extrapolate)
    if raises:
        c.check("refused outside the range", r)
        return
    c.check("answered", not r, val)
    c.check("shape", tuple(val.shape) == (1, 1))
    c.check_eq("value", val, e0 + (e1 - e0) * frac)


def jobs(tier):
    out = []
    N = 4 if tier == "quick" else 5
    for kind in ("U", "S", "R", "Uface"):
        for n in range(1, N + 1):
            for ex in (False, True):
                if tier == "quick" and n == 4 and kind != "U":
                    continue
                out.append(("h_time", dict(kind=kind, n=n, extrapolate=ex, npts=2 if n < 4 else 1), dict(weight=n * (3 if kind == "S" else 1))))
        out.append(("h_time", dict(kind=kind, n=2, extrapolate=True, npts=1, via="nc"), {}))
    for kind in ("U", "S"):
        for ex in (False, True):
            out.append(("h_depth_first", dict(kind=kind, n=2, extrapolate=ex), {}))
    return out
