"""C19: point lists in every accepted form"""
BOUNDS = ("1-6 points with every coordinate symbolic (stand-in grid that reports the points it is given) and with one symbolic point (real triangular, curvilinear and rectangular grids holding a linear field); lists, tuples, nested containers, integer and floating "
          "arrays, singleton dimensions anywhere, one column per point for 4-6 points, separate coordinate lists, with and without depth; scalar and vector variables, with and without time; wrongly shaped or non-numeric input of 0-4 dimensions")
OUTSIDE = "more points; masked coordinates; no points at all; text that numpy reads as numbers"
ASSUMPTIONS = ["the stand-in grid (used in half of the jobs) returns a value that depends on each point's longitude and latitude"]


class StubGrid:
    """reports what interpolation is asked for"""

    def __init__(self, c, n):
        self.c, self.seen, self.shape = c, [], (n,)
        self.node_lon = c.np.zeros(n)

    def infer_location(self, data):
        return "node"

    def interpolate_var_to_points(self, points, variable, location=None, slices=(), **kw):
        self.seen.append(points)
        a = variable[slices] if len(slices) else variable[:]
        return a[0] + a[1] * points[:, 0] + a[2] * points[:, 1]


def form(c, pts, kind):
    """the rows pts as the caller would hand them over: (points, kwargs)"""
    arr = lambda x: c.arr(x, float)
    n, k = len(pts), len(pts[0])
    if kind == "array":
        return arr(pts), {}
    if kind == "fortran":
        return c.np.column_stack([arr([p[j] for p in pts]) for j in range(k)]), {}
    if kind == "view":
        return arr([p for q in pts for p in (q, [-7.0] * k)])[::2], {}
    if kind == "lists":
        return [list(p) for p in pts], {}
    if kind == "tuples":
        return tuple(tuple(p) for p in pts), {}
    if kind == "mixed":
        return [tuple(p) for p in pts], {}
    if kind == "rows":
        return [arr(p) for p in pts], {}
    if kind == "flat":
        return arr(pts[0]), {}
    if kind == "flat list":
        return list(pts[0]), {}
    if kind == "flat tuple":
        return tuple(pts[0]), {}
    if kind == "column":  # one point as a column
        return [[x] for x in pts[0]], {}
    if kind == "lead":
        return arr([pts]), {}
    if kind == "lead2":
        return [[[list(p) for p in pts]]], {}
    if kind == "middle":
        return arr([[p] for p in pts]), {}
    if kind == "trail":
        return arr([[[x] for x in p] for p in pts]), {}
    if kind == "transposed":
        return arr([[p[j] for p in pts] for j in range(k)]), {}
    if kind == "T view":
        return arr([list(p) for p in pts]).T, {}
    if kind == "T lists":
        return [tuple(p[j] for p in pts) for j in range(k)], {}
    if kind == "T lead":
        return arr([[[p[j] for p in pts] for j in range(k)]]), {}
    x, y = [p[0] for p in pts], [p[1] for p in pts]
    if kind == "lons":
        return None, dict(lons=x, lats=y)
    if kind == "lons tuples":
        return None, dict(lons=tuple(x), lats=tuple(y))
    if kind == "lons arrays":
        return None, dict(lons=arr(x), lats=arr(y))
    if kind == "lons mixed":
        return None, dict(lons=arr(x), lats=y)
    if kind == "lons columns":
        return None, dict(lons=arr([[a] for a in x]), lats=arr([[a] for a in y]))
    if kind == "lons scalars":
        return None, dict(lons=x[0], lats=y[0])
    if kind == "both":  # points win
        return arr(pts), dict(lons=[-9.0] * 5, lats=[-9.0] * 5)
    raise KeyError(kind)


ANY = ("array", "fortran", "view", "lists", "tuples", "mixed", "rows", "lead", "lead2", "middle", "trail", "both")
ONE = ("flat", "flat list", "flat tuple", "column", "lons scalars")
MANY = ("transposed", "T view", "T lists", "T lead")
SEP = ("lons", "lons tuples", "lons arrays", "lons mixed", "lons columns")


def freeze(c, x):
    """a copy of the caller's object, to compare with afterwards"""
    if isinstance(x, (list, tuple)):
        return [type(x), [freeze(c, y) for y in x]]
    return ["a", c.snapshot(x)] if hasattr(x, "shape") and x.shape != () else ["v", x]


def unchanged(c, label, x, f):
    if isinstance(x, (list, tuple)):
        if not (f[0] is type(x) and len(f[1]) == len(x)):
            return c.fail(label, "container changed")
        for y, g in zip(x, f[1]):
            unchanged(c, label, y, g)
    else:
        c.check_eq(label, x, f[1])


def values(c, V, P, kw, t):
    fp, fk = freeze(c, P), {k: freeze(c, v) for k, v in kw.items()}
    got = V.at(P, t, **kw) if P is not None else V.at(time=t, **kw)
    unchanged(c, "caller's points", P, fp)
    for k in kw:
        unchanged(c, "caller's " + k, kw[k], fk[k])
    return got


def h_stub(c, n, kind, dim=2, vector=False, timed=False, again=False):
    pts = [[c.real(f"x{i}", -180, 180), c.real(f"y{i}", -90, 90)] + [c.real(f"z{i}", 0, 100)] * (dim == 3) for i in range(n)]
    P, kw = form(c, pts, kind)
    co = c.reals("f", (2 if vector else 1, 2 if timed else 1, 3), -2, 2) if n < 4 else c.arr([[[1.0, 2.0, -0.5], [2.0, -1.0, 3.0]][: 2 if timed else 1], [[0.0, 1.0, 7.0], [3.0, 2.0, 1.0]][: 2 if timed else 1]][: 2 if vector else 1], float)
    T = t = None
    if timed:
        ts = [c.dt("t0", 1000, 1000), c.dt("t1", 1100, 1100)]
        T = c.g.time.Time(c.dtarr(ts))
        t = ts[c.choice("step", 2)]
        step = 0 if t is ts[0] else 1
    g = StubGrid(c, 3)
    vs = [c.g.variable.Variable(grid=g, data=co[j] if timed else co[j][0], time=T, location="node") for j in range(len(co))]
    V = c.g.variable.VectorVariable(variables=vs) if vector else vs[0]
    for rep in range(2 if again else 1):
        got = values(c, V, P, kw, t)
        c.check("one row per point", tuple(got.shape) == (n, len(co)))
        for i, p in enumerate(pts):
            for j in range(len(co)):
                a = co[j][step if timed else 0]
                c.check_eq(f"value of point {i + 1}", got[i, j], a[0] + a[1] * p[0] + a[2] * p[1])
    for s in g.seen:
        c.check("the grid is given (N, 2)", tuple(s.shape) == (n, 2))
        for i, p in enumerate(pts):
            c.check("point as given", c.And(c.eq(s[i, 0], p[0]), c.eq(s[i, 1], p[1])))


def real_grid(c, kind):
    G = c.g.grids
    if kind == "U":
        return G.Grid_U(nodes=c.arr([(0, 0), (8, 0), (0, 8), (8, 8)], float), faces=c.arr([(0, 1, 2), (1, 3, 2)], int)), [(0, 0), (8, 0), (0, 8), (8, 8)], (4,)
    xs, ys = [0.0, 3.0, 8.0], [0.0, 4.0, 6.0, 8.0]
    pos = [(x, y) for y in ys for x in xs]
    if kind == "R":
        return G.Grid_R(node_lon=c.arr(xs, float), node_lat=c.arr(ys, float)), pos, (4, 3)
    return G.Grid_S(node_lon=c.arr([xs] * 4, float), node_lat=c.arr([[y] * 3 for y in ys], float)), pos, (4, 3)


OTHERS = [(1.0, 2.5), (6.5, 7.0), (7.0, 0.5), (2.0, 7.5), (5.0, 1.0)]


def h_real(c, grid, n, kind, dim=2, at=0, depth=False):
    """linear field: every row of the answer must be the field at that row's point"""
    g, pos, shape = real_grid(c, grid)
    a, b, d = c.real("a", -5, 5), 2.0, -3.0
    x, y = c.real("x", 0.5, 2.5), c.real("y", 0.5, 3.5)
    pts = [list(p) for p in OTHERS[: n]]
    pts[at] = [x, y]
    z = [[1.0, 25.0, 10.0, 2.5, 29.0, 4.0][i] for i in range(n)]
    if dim == 3:
        pts = [p + [z[i]] for i, p in enumerate(pts)]
    f = c.arr([a + b * p[0] + d * p[1] for p in pos], float).reshape(shape)
    D = None
    if depth:
        D = c.g.depth.L_Depth(terms={"depth_levels": c.arr([0.0, 10.0, 30.0], float)})
        f = c.np.stack([f, f + 100, f + 400])
    V = c.g.variable.Variable(grid=g, data=f, location="node", depth=D)
    P, kw = form(c, pts, kind)
    got = values(c, V, P, kw, None)
    c.check("one row per point", tuple(got.shape) == (n, 1))
    for i, p in enumerate(pts):
        e = a + b * p[0] + d * p[1]
        if depth:
            e = e + (z[i] * 10 if z[i] <= 10 else 100 + (z[i] - 10) * 15)
        c.check_eq("value of this row's point", got[i, 0], e)


def h_norm(c, n, kind, dim=2, dtype="f8"):
    """the normalising helper itself; numbers keep their kind"""
    pts = [[c.real(f"v{i}_{j}", -180, 180) if dtype == "f8" else c.int(f"v{i}_{j}", -180, 180) for j in range(dim)] for i in range(n)]
    P, kw = form(c, pts, kind) if dtype == "f8" else ([list(p) for p in pts] if kind == "lists" else c.arr(pts, int), {})
    if dtype != "f8" and kind == "transposed":
        P = P.T
    f = freeze(c, P)
    r = c.g.utilities._reorganize_spatial_data(P)
    unchanged(c, "caller's points", P, f)
    c.check("shape", tuple(r.shape) == (n, dim))
    for i in range(n):
        for j in range(dim):
            c.check_eq("coordinate", r[i, j], pts[i][j])
    r[0, 0] = 999
    c.check("an independent copy", True)
    unchanged(c, "caller's points, when the copy is changed", P, f)


def h_align(c, n, k, dim, transposed):
    pts = [[c.real(f"p{i}_{j}", -180, 180) for j in range(dim)] for i in range(n)]
    P = form(c, pts, "transposed" if transposed else "array")[0]
    R = c.reals("r", (n, k) if k else (n,), -10, 10)
    f = freeze(c, R)
    A = c.g.utilities._align_results_to_spatial_data(R, P)
    kk = max(k, 1)
    amb = n <= 3
    if not k and (transposed or amb):
        c.check("shape", tuple(A.shape) == (n,))
        A = A.reshape(n, 1)
    else:
        c.check("shape", tuple(A.shape) == ((kk, n) if transposed and not amb else (n, kk)))
        if transposed and not amb:
            A = A.T
    R2 = R.reshape(n, kk)
    for i in range(n):
        for j in range(kk):
            c.check_eq("result of this point", A[i, j], R2[i, j])
    unchanged(c, "results as given", R, f)


def h_refuse(c, shape, vector=False, how="array"):
    """not a list of points: an error, never values"""
    g = StubGrid(c, 3) if how != "text" else c.g.grids.Grid_U(nodes=c.arr([[0.0, 0], [8, 0], [0, 8]], float), faces=c.arr([[0, 1, 2]], c.np.int32))
    vs = [c.g.variable.Variable(grid=g, data=c.arr([1.0, 2.0, 3.0], float), location="node") for _ in range(2 if vector else 1)]
    V = c.g.variable.VectorVariable(variables=vs) if vector else vs[0]
    if how == "array":
        size = 1
        for s in shape:
            size *= s
        P = c.reals("p", (size,), -90, 90).reshape(shape) if size else c.np.zeros(shape)
        if tuple(shape) == ():
            P = c.real("p", -90, 90)
    elif how == "bool":
        P = c.arr([[True, False], [False, True], [True, True], [False, False]], bool)
    elif how == "none":
        return c.raises("points or lons and lats are required", ValueError, V.at, time=None, **shape)
    elif how == "text":
        P = {"text": [["1", "2"], ["2", "1"]], "bytes": c.np.array([[b"1", b"2"]]), "complex": [[1 + 1j, 2]], "dates": c.np.array([[1, 2]], dtype="M8[s]"),
             "spans": c.np.array([[1, 2]], dtype="m8[s]"), "none": [[1.0, None]], "dict": {1.0: 2.0}}[shape]
    elif how == "uneven":
        k = c.real("p", -90, 90)
        return c.raises("lons and lats of different lengths", ValueError, V.at, time=None, lons=[k, 1.0, 2.0], lats=[1.0, k])
    ok, e = c.did_raise((ValueError, TypeError), V.at, P, None)
    c.check("refused", ok, "values for something that is not a list of points")


def jobs(tier):
    deep = tier != "quick"
    out = []
    add = lambda h, w=1, **kw: out.append((h, kw, dict(weight=w)))
    for n in (1, 2, 3, 4, 5, 6) if deep else (1, 2, 3, 4, 5):
        for dim in (2, 3):
            forms = ANY + (ONE if n == 1 else ()) + (MANY if n > 3 else ()) + (SEP if dim == 2 else ())
            for q, kind in enumerate(forms):
                if kind == "lons scalars" and dim == 3:
                    continue
                if kind == "trail" and n == 1 and False:
                    continue
                add("h_stub", n=n, kind=kind, dim=dim, vector=(q + n) % 2 == 0, timed=(q + dim) % 3 == 0, again=q % 4 == 0)
                if deep:
                    add("h_stub", n=n, kind=kind, dim=dim, vector=(q + n) % 2 == 1, timed=(q + dim) % 3 != 0, again=q % 4 != 0)
                if kind not in SEP and kind not in ("lons scalars", "both"):
                    add("h_norm", n=n, kind=kind, dim=dim)
            for kind in ("array", "lists") + (("transposed",) if n > 3 else ()):
                add("h_norm", n=n, kind=kind, dim=dim, dtype="i8")
            for k in (0, 1, 2, 3):
                add("h_align", n=n, k=k, dim=dim, transposed=False)
                if n > 3:
                    add("h_align", n=n, k=k, dim=dim, transposed=True)
    for grid in "URS":
        for n in (1, 2, 3, 4, 5):
            forms = ANY + (ONE if n == 1 else ()) + (MANY if n > 3 else ()) + SEP
            for q, kind in enumerate(forms):
                if not deep and (q + n + ord(grid)) % 3:
                    continue
                add("h_real", 2, grid=grid, n=n, kind=kind, at=(q * 7 + n) % n, dim=2 if kind in SEP or kind == "lons scalars" else 2 + q % 2)
        for n in (1, 2, 3, 4, 5):
            for q, kind in enumerate(ANY + (ONE[:4] if n == 1 else ()) + (MANY if n > 3 else ())):
                if deep or (q + n + ord(grid)) % 4 == 0:
                    add("h_real", 3, grid=grid, n=n, kind=kind, at=(q * 7 + n) % n, dim=3, depth=True)
    for q, s in enumerate([(), (1,), (4,), (5,), (6,), (4, 4), (5, 4), (4, 5), (1, 4), (4, 1), (2, 2, 2), (3, 2, 2), (2, 4, 2), (4, 2, 2), (2, 2, 4), (4, 4, 2), (1, 1), (2, 1, 2, 2), (4, 2, 3), (0,)]):
        add("h_refuse", shape=s, vector=q % 2 == 1)
        if deep:
            add("h_refuse", shape=s, vector=q % 2 == 0)
    add("h_refuse", shape=(), how="bool")
    for k, kind in enumerate(("text", "bytes", "complex", "dates", "spans", "none", "dict")):
        add("h_refuse", shape=kind, how="text", vector=k % 2 == 1)
    add("h_refuse", shape=(), how="uneven")
    for kw in ({}, dict(lons=(1.0, 2.0)), dict(lats=(1.0,))):
        out.append(("h_refuse", dict(shape=kw, how="none"), {}))
    return out
