"""C22: vectors and averaging"""
from checks.c04 import grid

BOUNDS = ("averages, rotations, magnitudes and pairing over arrays of 1x1 to 3x4 with every value (and up to 3 angles) symbolic, optionally with masked entries; vector variables of 2-3 components on triangular, curvilinear (node, center and edge locations) and rectangular grids "
          "with symbolic values, times, depths and options; units given, shared, differing, absent or read from files; constant variables with a symbolic value at symbolic points and times")
OUTSIDE = "larger arrays; components on different grids or time axes; reading components from files by default names"
ASSUMPTIONS = ["sine and cosine are related by s^2 + c^2 = 1 and their parity; same angle, same value", "components are compared with separate variables asked alone"]


def masked_array(c, a, mask, shape):
    if not mask:
        return a
    m = c.np.zeros(shape, dtype=bool)
    for i in mask:
        m[tuple(i)] = True
    return c.np.ma.MaskedArray(a, mask=m)


def is_m(c, x, mask, i):
    return any(tuple(m) == tuple(i) for m in mask)


def h_avg(c, shape, dim, mask=(), kind="f"):
    vals = [[c.real(f"v{i}_{j}", -1000, 1000) if kind == "f" else c.int(f"v{i}_{j}", -1000, 1000) for j in range(shape[1])] for i in range(shape[0])]
    A = masked_array(c, c.arr(vals, float if kind == "f" else int), mask, shape)
    A0 = c.snapshot(A)
    r = c.g.pysgrid.processing_2d.avg_to_cell_center(A, dim)
    out = (shape[0] - 1, shape[1]) if dim == 0 else (shape[0], shape[1] - 1)
    c.check("shape", tuple(r.shape) == out, f"{r.shape}")
    for i in range(out[0]):
        for j in range(out[1]):
            a, b = (i, j), ((i + 1, j) if dim == 0 else (i, j + 1))
            if is_m(c, A, mask, a) or is_m(c, A, mask, b):
                c.check("masked", c.is_masked(r[i, j]))
            else:
                c.check_eq("the mean of the two neighbours", r[i, j] * 2, vals[a[0]][a[1]] + vals[b[0]][b[1]])
    c.check_eq("caller's array", A, A0, tol=0)


def vec(c, shape, mx=(), my=()):
    x, y = c.reals("x", shape, -50, 50), c.reals("y", shape, -50, 50)
    return x, y, masked_array(c, x, mx, shape), masked_array(c, y, my, shape)


def idx(shape):
    return [(i, j) for i in range(shape[0]) for j in range(shape[1])] if len(shape) == 2 else [(i,) for i in range(shape[0])]


def h_sum(c, shape, mx=(), my=()):
    x, y, X, Y = vec(c, shape, mx, my)
    x0, y0 = c.snapshot(X), c.snapshot(Y)
    r = c.g.pysgrid.processing_2d.vector_sum(X, Y)
    c.check("shape", tuple(r.shape) == tuple(shape))
    for i in idx(shape):
        if is_m(c, X, mx, i) or is_m(c, Y, my, i):
            c.check("masked", c.is_masked(r[i]))
        else:
            c.check("not masked", not c.is_masked(r[i]))
            c.check("a length", r[i] >= 0)
            c.check_eq("squared", r[i] * r[i], x[i] * x[i] + y[i] * y[i], tol=1e-5)
    c.check_eq("caller's x", X, x0, tol=0)
    c.check_eq("caller's y", Y, y0, tol=0)


def h_rotate(c, shape, angle="symbolic", mx=(), ma=()):
    x, y, X, Y = vec(c, shape, mx)
    P = c.g.pysgrid.processing_2d
    if angle == "symbolic":
        a = c.reals("a", shape, -7, 7)
    elif angle == "one":
        a = c.real("a", -7, 7)
    else:
        a = c.arr([angle] * len(idx(shape)), float).reshape(shape)
    An = masked_array(c, a, ma, shape)
    x0, y0, a0 = c.snapshot(X), c.snapshot(Y), c.snapshot(An) if angle != "one" else a
    u, v = P.rotate_vectors(X, Y, An)
    bx, by = P.rotate_vectors(u, v, -An)
    for i in idx(shape):
        if is_m(c, X, mx, i) or is_m(c, An, ma, i):
            c.check("masked", c.is_masked(u[i]) and c.is_masked(v[i]))
            continue
        t = a if angle == "one" else a[i]
        cs, sn = c.np.cos(t), c.np.sin(t)
        c.check_eq("x", u[i], x[i] * cs - y[i] * sn)
        c.check_eq("y", v[i], x[i] * sn + y[i] * cs)
        c.check_eq("length kept", u[i] * u[i] + v[i] * v[i], x[i] * x[i] + y[i] * y[i], tol=1e-5)
        c.check_eq("turned by the angle: cosine", u[i] * x[i] + v[i] * y[i], (x[i] * x[i] + y[i] * y[i]) * cs, tol=1e-5)
        c.check_eq("turned by the angle: sine", v[i] * x[i] - u[i] * y[i], (x[i] * x[i] + y[i] * y[i]) * sn, tol=1e-5)
        c.check_eq("and back: x", bx[i], x[i], tol=1e-5)
        c.check_eq("and back: y", by[i], y[i], tol=1e-5)
    c.check_eq("caller's x", X, x0, tol=0)
    c.check_eq("caller's y", Y, y0, tol=0)
    if angle != "one":
        c.check_eq("caller's angles", An, a0, tol=0)


def h_pair(c, shape):
    x, y, X, Y = vec(c, shape)
    r = c.g.pysgrid.utils.pair_arrays(X, Y)
    c.check("shape", tuple(r.shape) == tuple(shape) + (2,))
    for i in idx(shape):
        c.check_eq("pair", r[tuple(i) + (0,)], x[i])
        c.check_eq("pair", r[tuple(i) + (1,)], y[i])


def sgrid(c):
    lon = c.arr([[0.0, 2, 5], [0, 2, 5], [1, 3, 6]], float)
    lat = c.arr([[0.0, 0, 0], [3, 3, 4], [6, 6, 7]], float)
    z = c.np.zeros
    return c.g.grids.Grid_S(node_lon=lon, node_lat=lat, center_lon=z((4, 4)), center_lat=z((4, 4)), edge1_lon=z((4, 3)), edge1_lat=z((4, 3)), edge2_lon=z((3, 4)), edge2_lat=z((3, 4)),
                            face_padding=("both", "both"), edge1_padding=("both", "none"), edge2_padding=("none", "both"))


SHAPES = {"node": (3, 3), "center": (4, 4), "edge1": (4, 3), "edge2": (3, 4)}


def h_vector(c, kind, m=2, n=1, d=0, npts=2, locs=None, hole=None, opts=(), units="m/s"):
    """column j of the answer is what component j gives when asked alone"""
    ts = None
    if n > 1:
        base = c.dt("base", 1000, 1000)
        ts = [base + c.td(f"t{i}", 100 * i, 100 * i) for i in range(n)]
    q = c.dt("q", 900, 1000 + 100 * n) if n > 1 else None
    if locs:
        specs = [(SHAPES[x], x) for x in locs]
    else:
        _, sh, loc = grid(c, kind)
        specs = [(sh, loc)] * m
    D = []
    for j, (sh, _) in enumerate(specs):
        a = c.reals(f"f{j}", ((n,) if n > 1 else ()) + ((d,) if d else ()) + tuple(sh), -100, 100)
        if hole is not None and j == hole:
            mk = c.np.zeros(a.shape, dtype=bool)
            mk[..., 0] = True
            a = c.np.ma.MaskedArray(a, mask=mk)
        D.append(a)

    def comps():
        g = sgrid(c) if locs else grid(c, kind)[0]
        T = c.g.time.Time(c.dtarr(list(ts))) if ts else None
        Z = c.g.depth.L_Depth(terms={"depth_levels": c.arr([0.0, 10.0, 30.0][:d], float)}) if d else None
        return [c.g.variable.Variable(name=f"c{j}", grid=g, data=D[j], time=T, depth=Z, location=specs[j][1], units=units) for j in range(len(D))]

    pos = [[1.0, 1.0], [3.5, 3.0], [70.0, 1.0]]
    P = c.arr([p + [c.real("z", -5, 40) if i == 0 else 12.0] for i, p in enumerate(pos[:npts])] if d else pos[:npts], float)
    kw = {}
    if "extrapolate" in opts:
        kw["extrapolate"] = True
    if "unmask" in opts:
        kw["unmask"] = True
    if "rules" in opts:
        kw["surface_boundary_condition"], kw["bottom_boundary_condition"] = "mask", "extrapolate"
    V = c.g.variable.VectorVariable(variables=comps(), name="vel")
    err, exp = None, []
    for v in comps():
        try:
            exp.append(v.at(P, q, _mem=False, **kw))
        except ValueError as e:
            err = e
    try:
        got = V.at(P, q, **kw)
    except ValueError as e:
        c.check("fails only when a component does", err is not None and type(e) is type(err), f"{e!r}")
        return
    c.check("fails when a component does", err is None)
    if err is not None:
        return
    c.check("one row per point, one column per component", tuple(got.shape) == (npts, len(D)), f"{got.shape}")
    for j, e in enumerate(exp):
        for i in range(npts):
            a, b = got[i, j], e[i, 0]
            if c.is_masked(b):
                c.check("masked where the component is", c.is_masked(a))
            else:
                c.check("not masked", not c.is_masked(a))
                c.check_eq("component", a, b)
    c.check("locations", list(V.location) == [s[1] for s in specs])
    c.check("units", V.units == units, f"{V.units!r}")


def h_units(c, given, comp):
    """units given to the vector, else those of its components"""
    g, sh, loc = grid(c, "U")
    vs = [c.g.variable.Variable(grid=g, data=c.np.zeros(sh), location=loc, units=u) for u in comp]
    V = c.g.variable.VectorVariable(variables=vs, units=given)
    want = given if given is not None else comp[0]
    if isinstance(want, (list, tuple)) and len(set(want)) == 1:
        want = want[0]
    got = V.units
    c.check("units", (list(got) if isinstance(got, (list, tuple)) else got) == (list(want) if isinstance(want, (list, tuple)) else want), f"{got!r} vs {want!r}")
    new = "kn"
    V.units = new
    c.check("units replaced", V.units == new and all(v.units == new for v in V.variables), f"{V.units!r}")


WORDS = ("m/s", "M/S", "m s-1", " m/s", "m/s ", "mm", "Mm", "", "1", None)


def h_units_file(c, given, m):
    """units of a vector loaded from a file"""
    ds = c.nc4.Dataset(c.tmp("u.nc"), "w")
    ds.createDimension("y", 3), ds.createDimension("x", 3)
    comp = [c.choose(f"unit{i}", WORDS) for i in range(m)]
    for i, u in enumerate(comp):
        v = ds.createVariable(f"c{i}", "f8", ("y", "x"))
        v[:] = c.reals(f"f{i}", (3, 3), -9, 9)
        if u is not None:
            v.units = u
    g = c.g.grids.Grid_R(node_lon=c.arr([0.0, 1.0, 2.0], float), node_lat=c.arr([0.0, 1.0, 2.0], float))
    V = c.g.variable.VectorVariable.from_netCDF(dataset=ds, varnames=[f"c{i}" for i in range(m)], grid=g, units=given)
    for i, v in enumerate(V.variables):
        c.check("units of a component", v.units == (comp[i] if given is None else given), f"{v.units!r}")
    want = given if given is not None else comp[0] if all(u == comp[0] for u in comp) else comp
    got = V.units
    c.check("units", (list(got) if isinstance(got, (list, tuple)) else got) == want, f"{got!r} vs {want!r}")


def h_order(c, kind, m):
    """components keep their order and their names"""
    class Vel(c.g.variable.VectorVariable):
        comp_order = ["u", "v", "w"][:m]

    g, sh, loc = grid(c, kind)
    vs = [c.g.variable.Variable(grid=g, data=c.reals(f"f{j}", sh, -9, 9), location=loc) for j in range(m)]
    V = Vel(variables=vs)
    for j, n in enumerate(Vel.comp_order):
        c.check("component by name", getattr(V, n) is vs[j])
        c.check("component by position", V.variables[j] is vs[j])
    c.raises("a single component is no vector", ValueError, Vel, variables=vs[:1])


def h_constant(c, npts, timed, vector=False):
    k = c.real("k", -1000, 1000)
    V = c.g.variable.Variable.constant(k)
    pts = [[c.real(f"x{i}", -350, 350), c.real(f"y{i}", -89, 89)] if i == 0 else [[-170.0, 12.0], [359.0, -80.0]][i - 1] for i in range(npts)]
    q = c.dt("q", 0, 10**6) if timed else None
    if vector:
        V = c.g.variable.VectorVariable(variables=[V, c.g.variable.Variable.constant(-k)])
    got = V.at(c.arr(pts, float), q)
    c.check("shape", tuple(got.shape) == (npts, 2 if vector else 1))
    for i in range(npts):
        c.check("not masked", not c.is_masked(got[i, 0]))
        c.check_eq("the constant", got[i, 0], k)
        if vector:
            c.check_eq("the constant", got[i, 1], -k)


def jobs(tier):
    deep = tier != "quick"
    out = []
    add = lambda h, w=1, **kw: out.append((h, kw, dict(weight=w)))
    for shape in ((1, 2), (2, 1), (2, 2), (2, 3), (3, 2), (3, 4), (1, 4), (4, 3)) + (((5, 5), (6, 3)) if deep else ()):
        for dim in (0, 1):
            if shape[dim] > 1:
                for mask in ((), ((0, 0),), ((shape[0] - 1, shape[1] - 1),), ((0, 0), (shape[0] - 1, 0))):
                    for kind in "fi":
                        add("h_avg", shape=shape, dim=dim, mask=mask, kind=kind)
    for shape in ((1,), (3,), (2, 2), (1, 3)) + (((4,), (3, 3)) if deep else ()):
        one = (0,) * len(shape)
        last = tuple(n - 1 for n in shape)
        for mx, my in (((), ()), ((one,), ()), ((), (last,)), ((one,), (last,))):
            add("h_sum", shape=shape, mx=mx, my=my)
        add("h_pair", shape=shape)
        for ang in ("symbolic", "one", 0.0, 1.5707963267948966, 3.141592653589793, -1.5707963267948966, 0.7853981633974483, 2.5):
            for mx, ma in (((), ()), ((last,), ())) + ((((), (one,)),) if ang == "symbolic" else ()):
                add("h_rotate", 2, shape=shape, angle=ang, mx=mx, ma=ma)
    k = 0
    for kind in ("U", "Uface", "S", "R"):
        for m in (2, 3):
            for n in (1, 2) + ((3,) if deep else ()):
                for d in (0, 3):
                    for o in ((), ("extrapolate",), ("unmask",), ("rules",), ("extrapolate", "unmask", "rules")):
                        k += 1
                        if not deep and (m == 3 and k % 3 or d and n > 1 and k % 2):
                            continue
                        if "rules" in o and not d or (n == 1 and "extrapolate" in o and not deep):
                            continue
                        add("h_vector", 4, kind=kind, m=m, n=n, d=d, opts=o, npts=3 if kind not in ("R",) or True else 2, hole=(None, 0, 1)[k % 3] if kind not in ("R",) else None, units=("m/s", "mm", "m", None)[k % 4])
    L = ("node", "center", "edge1", "edge2")
    for a in L:
        for b in L:
            add("h_vector", 4, kind="S", locs=(a, b), n=1 + (k % 2), npts=3)
            k += 1
    add("h_vector", 4, kind="S", locs=("edge1", "edge2", "node"), n=2, npts=3)
    for given in (None, "m/s", "mm", "s", "", ("m", "kg"), ["m", "m"], ["mm", "mm"]):
        for comp in (("m/s", "m/s"), ("ss", "ss"), ("", ""), (None, None), ("m", "kg")):
            add("h_units", given=given, comp=comp)
    for given in (None, "kn"):
        for m in (2, 3) if deep else (2,):
            add("h_units_file", 3, given=given, m=m)
    for kind in "USR":
        for m in (2, 3):
            add("h_order", kind=kind, m=m)
    for npts in (1, 2, 3):
        for timed in (False, True):
            for v in (False, True):
                add("h_constant", 3, npts=npts, timed=timed, vector=v)
    return out
