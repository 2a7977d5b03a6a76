"""C06: interpolation on curvilinear grids"""
BOUNDS = ("cells: parallelograms with symbolic corners, general quadrilaterals (fixed shapes in both orientations, and one symbolic corner), and 3x3 / 3x4 node grids; symbolic position (l, m) "
          "in the cell including its edges, symbolic value at every node, edge or center; every padding of centers and edges; batches of 1-3 points in different cells and off the grid; "
          "masked values and cells (symbolic), the three masked-value rules; arrays with leading dimensions; results filled with a symbolic value, with any of the points off the grid")
OUTSIDE = "larger grids; non-convex cells; cells of zero area; binary rounding inside the logical coordinates (replays use double precision)"
ASSUMPTIONS = ["cell_tree2d returns the cell a point lies in (stand-in)", "masked node values count as zero, as the grid's default rule for masked values says"]

# one-cell shapes: corners (0,0) (0,1) (1,1) (1,0)
SHAPES = {
    "rect": [(0, 0), (4, 0), (4, 2), (0, 2)],
    "transposed": [(0, 0), (0, 3), (5, 3), (5, 0)],
    "trapezoid": [(0, 0), (4, 0), (3, 2), (1, 2)],
    "kite": [(0, 0), (4, 1), (5, 5), (1, 3)],
    "skew": [(1, 1), (6, 2), (5, 7), (-1, 4)],
    "down": [(0, 3), (4, 2), (6, -1), (-1, -2)],
    "turned": [(3, 0), (4, 5), (-1, 6), (0, 1)],
    "widening": [(1.5, 0), (2.25, 0), (4, 3), (0, 3)],
    "taper_left": [(0, 0), (4, 1.5), (4, 2.25), (0, 4)],
    "blunt": [(0, 0), (4, 0), (2.2, 2.2), (0, 4)],
    "blunt1": [(0, 4), (0, 0), (4, 0), (2.2, 2.2)],
    "blunt2": [(2.2, 2.2), (0, 4), (0, 0), (4, 0)],
    "blunt3": [(4, 0), (2.2, 2.2), (0, 4), (0, 0)],
}


def bil(A, r, k, l, m):
    """value at logical position (l along columns, m along rows) of cell (r, k)"""
    return (A[r, k] * (1 - l) * (1 - m) + A[r, k + 1] * l * (1 - m)) + (A[r + 1, k + 1] * l * m + A[r + 1, k] * (1 - l) * m)


def corners(X, Y, r, k):
    return [(X[i, j], Y[i, j]) for i, j in ((r, k), (r, k + 1), (r + 1, k + 1), (r + 1, k))]


def at(c, X, Y, r, k, l, m):
    p = [bil(X, r, k, l, m), bil(Y, r, k, l, m)]
    if c.symbolic:
        c.fakes.declare_point((p[0], p[1]), corners(X, Y, r, k))
    return p


def pos(c, name, edges=False, fixed=None):
    if edges:  # the cell's rim
        return c.choose(name, [0.0, 1.0])
    if fixed is not None:
        return fixed
    return c.real(name, 0.02, 0.98)


FIXED = [None, 0.25, 0.5, 0.75]  # only the first point of a batch is symbolic


def nodes(c, geom):
    if isinstance(geom, (list, tuple)):  # a shape at its place on the earth: (shape, halvings of its size, lon, lat)
        X, Y = nodes(c, geom[0])
        return X * 0.5 ** geom[1] + geom[2], Y * 0.5 ** geom[1] + geom[3]
    if geom == "para":
        ox, oy = c.real("ox", -50, 50), c.real("oy", -50, 50)
        u = (c.real("ux", -4, 4), c.real("uy", -4, 4))
        v = (c.real("vx", -4, 4), c.real("vy", -4, 4))
        det = u[0] * v[1] - u[1] * v[0]
        if c.fork(det > 0):
            c.assume(det > 0.25)
        else:
            c.assume(det < -0.25)
        X = [[ox + j * u[0] + i * v[0] for j in range(2)] for i in range(2)]
        Y = [[oy + j * u[1] + i * v[1] for j in range(2)] for i in range(2)]
    elif geom == "free":  # unit corner plus one symbolic corner
        x, y = c.real("cx", 0.6, 4), c.choose("cy", [0.75, 2.0])
        X = [[0.0, 1.0], [0.0, x]]
        Y = [[0.0, 0.0], [1.0, y]]
        c.assume(x + y > 1.2)
    elif geom in SHAPES:
        q = SHAPES[geom]
        X = [[q[0][0], q[1][0]], [q[3][0], q[2][0]]]
        Y = [[q[0][1], q[1][1]], [q[3][1], q[2][1]]]
    elif geom == "grid33":
        X = [[0, 2, 5], [0.5, 3, 6], [1, 3, 7]]
        Y = [[0, 0.5, 0], [3, 3, 4], [6, 7, 7]]
    elif geom == "grid34":
        X = [[0, 2, 5, 7], [0, 2, 5, 8], [1, 3, 6, 8]]
        Y = [[0, 0, 0, 1], [3, 3, 4, 3], [6, 6, 7, 8]]
    elif geom == "rot":  # uniform grid turned by the 3-4-5 angle
        X = [[0.8 * j - 0.6 * i + 10.1 for j in range(3)] for i in range(3)]
        Y = [[0.6 * j + 0.8 * i + 40.3 for j in range(3)] for i in range(3)]
    return c.arr(X, float), c.arr(Y, float)


def h_node(c, geom, cells, edges=False, off=False, via="SGrid", lead=None, name="node"):
    """node values: bilinear in the cell's own coordinates"""
    X, Y = nodes(c, geom)
    F = c.reals("f", X.shape, -100, 100)
    G = c.g.grids.Grid_S if via != "SGrid" else c.g.pysgrid.sgrid.SGrid
    g = G(node_lon=X, node_lat=Y)
    P, exp, lm = [], [], []
    for i, (r, k) in enumerate(cells):
        fixed = c.choose("at", [(0.25, 0.125), (0.5, 0.875), (0.75, 0.5)]) if geom == "rot" else (FIXED[i], FIXED[-i])
        l, m = pos(c, f"l{i}", edges, fixed[0]), pos(c, f"m{i}", edges, fixed[1])
        lm.append((l, m))
        P.append(at(c, X, Y, r, k, l, m))
        exp.append(bil(F, r, k, l, m))
    if off:
        P.insert(1, [500.0, 500.0])
        exp.insert(1, None)
    arr = c.arr(P, float)
    arr0 = c.snapshot(arr)
    if via == "var":
        got = c.g.variable.Variable(grid=g, data=F, location="node").at(arr, None)
    elif lead:
        data = c.np.stack([c.np.zeros(F.shape), F, c.np.zeros(F.shape) - 7])
        how = c.choose("how", [(1,), [1], (2, 1), [0, 1]])
        if len(how) == 2:
            data = c.np.stack([data if n == how[0] else data + 1 for n in range(3)])
        got = g.interpolate_var_to_points(arr, data, location=name, slices=how)
    elif edges:  # the cell is given: a lookup may choose any neighbour of a rim point
        got = g.interpolate_var_to_points(arr, F, location=name, indices=c.np.ma.MaskedArray([list(q) for q in cells], mask=False))
    else:
        got = g.interpolate_var_to_points(arr, F, location=name)
    verify(c, got, exp)
    c.check_eq("caller's points", arr, arr0, tol=0)
    if len(P) == 1 and not edges and geom != "para":
        l, m = lm[0]
        r, k = cells[0]
        f = [F[r, k], F[r, k + 1], F[r + 1, k + 1], F[r + 1, k]]
        v = got.reshape(-1)[0]
        if c.fork(c.And(*[f[0] <= x for x in f[1:]])):
            c.check_le("not below the smallest corner", f[0], v)


def verify(c, got, exp, tol=1e-6):
    flat = got.reshape(-1)
    c.check("one value per point", flat.shape[0] == len(exp))
    for i, e in enumerate(exp):
        if e is None:
            c.check("off the grid: masked", c.is_masked(flat[i]))
        else:
            c.check("inside: not masked", not c.is_masked(flat[i]))
            c.check_eq("value", flat[i], e, tol=tol)


def h_linear(c, geom):
    """fields linear in position are reproduced"""
    X, Y = nodes(c, geom)
    a, b, d = c.real("a", -9, 9), c.real("b", -9, 9), c.real("d", -9, 9)
    g = c.g.pysgrid.sgrid.SGrid(node_lon=X, node_lat=Y)
    p = at(c, X, Y, 0, 0, pos(c, "l"), pos(c, "m"))
    got = g.interpolate_var_to_points(c.arr([p], float), X * a + Y * b + d, location="node").reshape(-1)
    c.check_eq("linear field", got[0], a * p[0] + b * p[1] + d)


PAD = {"none": (-1, 0), "low": (0, 1), "high": (0, 0), "both": (1, 1)}


def h_center(c, geom, cells, pads, off=False, mask=False, explicit=True, name="center"):
    """center values are constant over their cell whatever the padding"""
    X, Y = nodes(c, geom)
    shape = [n + PAD[p][0] for n, p in zip(X.shape, pads)]
    F = c.reals("f", shape, -100, 100)
    kw = {}
    if explicit:
        kw["face_padding"] = tuple(pads)
    else:
        kw.update(center_lon=c.np.zeros(tuple(shape)), center_lat=c.np.zeros(tuple(shape)))
    g = c.g.pysgrid.sgrid.SGrid(node_lon=X, node_lat=Y, **kw)
    P, exp = [], []
    for i, (r, k) in enumerate(cells):
        P.append(at(c, X, Y, r, k, pos(c, f"l{i}", False, FIXED[i]), pos(c, f"m{i}", False, FIXED[-i])))
        exp.append(F[r + PAD[pads[0]][1], k + PAD[pads[1]][1]])
    data = F
    if mask:
        mk = c.np.zeros(F.shape, dtype=bool)
        r, k = cells[0]
        mk[r + PAD[pads[0]][1], k + PAD[pads[1]][1]] = True
        data = c.np.ma.MaskedArray(F, mask=mk)
        exp[0] = None
    if off:
        P.insert(1, [500.0, 500.0])
        exp.insert(1, None)
    verify(c, g.interpolate_var_to_points(c.arr(P, float), data, location=name), exp)


def h_edge(c, which, geom, cells, pad, off=False, rule=None, mask=None, land=None, cpads=("none", "none"), explicit=True, name=None):
    """edge values: linear between the cell's two facing edges"""
    X, Y = nodes(c, geom)
    ny, nx = X.shape
    ext, o = PAD[pad]
    # edge1 lies on the column lines: one per cell row; edge2 on the row lines
    shape = (ny + ext, nx) if which == 1 else (ny, nx + ext)
    F = c.reals("f", shape, -100, 100)
    kw = {}
    if explicit:
        kw[f"edge{which}_padding"] = (pad, None) if which == 1 else (None, pad)
    if explicit or land is not None:
        kw["face_padding"] = tuple(cpads)
    if not explicit:  # padding follows from the centers
        kw.update(center_lon=c.np.zeros((ny + PAD[cpads[0]][0], nx + PAD[cpads[1]][0])))
    if land is not None:
        cm = c.np.zeros((ny + PAD[cpads[0]][0], nx + PAD[cpads[1]][0]))
        for r, k in land:
            cm[r + PAD[cpads[0]][1], k + PAD[cpads[1]][1]] = 1  # 1: land
        kw["center_mask"] = cm
    g = c.g.pysgrid.sgrid.SGrid(node_lon=X, node_lat=Y, **kw)
    if rule:
        g.masked_interpolant_behavior = rule
    data = F
    idx = lambda r, k: (r + o, k) if which == 1 else (r, k + o)
    nxt = lambda r, k: (r, k + 1) if which == 1 else (r + 1, k)
    mk = None
    if mask is not None:
        mk = c.np.zeros(F.shape, dtype=bool)
        for q in mask:
            mk[idx(*q)] = True
        data = c.np.ma.MaskedArray(F, mask=mk)
    P, exp = [], []
    for i, (r, k) in enumerate(cells):
        l, m = pos(c, f"l{i}", False, FIXED[i]), pos(c, f"m{i}", False, FIXED[-i])
        P.append(at(c, X, Y, r, k, l, m))
        w = l if which == 1 else m
        v, masked = [F[idx(r, k)], F[idx(*nxt(r, k))]], [False, False]
        for s, q in enumerate(((r, k), nxt(r, k))):
            masked[s] = bool(mask and q in mask)
        if land is not None:
            before = (r, k - 1) if which == 1 else (r - 1, k)
            masked[0] = masked[0] or (before in land)
            masked[1] = masked[1] or (nxt(r, k) in land)
        if any(masked):
            if rule == "mask":
                exp.append(None)
                continue
            if rule == "mirror":
                v = [-v[1 - s] if masked[s] else v[s] for s in (0, 1)]
            else:
                v = [0.0 if masked[s] else v[s] for s in (0, 1)]
        exp.append(v[0] * (1 - w) + v[1] * w)
    if off:
        P.insert(1, [500.0, 500.0])
        exp.insert(1, None)
    verify(c, g.interpolate_var_to_points(c.arr(P, float), data, location=name or f"edge{which}"), exp)


def h_masked_node(c, geom, cell, holes):
    """masked node values contribute nothing"""
    X, Y = nodes(c, geom)
    F = c.reals("f", X.shape, -100, 100)
    mk = c.np.zeros(F.shape, dtype=bool)
    Z = c.np.array(F)
    for q in holes:
        mk[q] = True
        Z[q] = 0.0
    r, k = cell
    l, m = pos(c, "l"), pos(c, "m")
    p = at(c, X, Y, r, k, l, m)
    g = c.g.pysgrid.sgrid.SGrid(node_lon=X, node_lat=Y)
    got = g.interpolate_var_to_points(c.arr([p], float), c.np.ma.MaskedArray(F, mask=mk), location="node").reshape(-1)
    four = [(r, k), (r, k + 1), (r + 1, k + 1), (r + 1, k)]
    if all(q in holes for q in four):
        return c.check("all masked", c.is_masked(got[0]))
    c.check("not masked", not c.is_masked(got[0]))
    c.check_eq("value", got[0], bil(Z, r, k, l, m))


def h_off(c, loc, off, via, rule="mask"):
    """points off the grid and missing values, with and without filling: whatever else is asked for"""
    X, Y = nodes(c, "grid33")
    shape = {"node": (3, 3), "center": (2, 2), "edge1": (2, 3), "edge2": (3, 2)}[loc]
    F = c.reals("f", shape, -100, 100)
    mk = c.np.zeros(shape, dtype=bool)
    gone = c.choice("missing", 2) == 1
    if gone:
        mk[:2, :2] = True
    g = getattr(c.g.grids, "Grid_S")(node_lon=X, node_lat=Y) if via == "Grid_S" else c.g.pysgrid.sgrid.SGrid(node_lon=X, node_lat=Y)
    g.masked_interpolant_behavior = rule
    P, exp = [], []
    for i, o in enumerate(off):
        if o:
            P.append([500.0 + i, 500.0])
            exp.append(None)
        else:
            P.append(at(c, X, Y, 0, 0, *(LM := (0.25 + 0.125 * i, 0.5))))
            l, m = LM
            full = {"node": lambda: bil(F, 0, 0, l, m), "center": lambda: F[0, 0], "edge1": lambda: F[0, 0] * (1 - l) + F[0, 1] * l, "edge2": lambda: F[0, 0] * (1 - m) + F[1, 0] * m}[loc]()
            exp.append(None if gone else full)
    fill = c.real("fill", -9, 9)
    data = c.np.ma.MaskedArray(F, mask=mk)
    kw = dict(location=loc)
    if loc != "node":
        kw["padding"] = ("none", "none")
    verify(c, g.interpolate_var_to_points(c.arr(P, float), data, **kw), exp)
    got = g.interpolate_var_to_points(c.arr(P, float), data, unmask=True, fill_value=fill, **kw)
    c.check("filled", not isinstance(got, c.np.ma.MaskedArray))
    verify(c, got, [fill if e is None else e for e in exp])
    verify(c, g.interpolate_var_to_points(c.arr(P, float), data, unmask=True, **kw), [0.0 if e is None else e for e in exp])


def h_interpolant(c, n, rule, shape):
    """compute_interpolant: weighted sum per point under each rule"""
    N = shape
    V = [[c.real(f"v{i}_{j}", -50, 50) for j in range(n)] for i in range(N)]
    W = [[c.real(f"w{i}_{j}", 0, 1) for j in range(n - 1)] for i in range(N)]
    W = [w + [1 - sum(w)] for w in W]
    M = [[c.choice(f"m{i}_{j}", 2) == 1 for j in range(n)] for i in range(N)]
    g = c.g.pysgrid.sgrid.SGrid(node_lon=c.np.zeros((2, 2)), node_lat=c.np.zeros((2, 2)))
    vals = c.np.ma.MaskedArray(c.arr(V, float), mask=c.arr(M, bool))
    if rule == "mirror":
        for row in M:
            c.assume(not all(row))
    got = g.compute_interpolant(vals, c.arr(W, float), mask_behavior=rule)
    exp = []
    for v, w, m in zip(V, W, M):
        if rule == "mask" and any(m):
            exp.append(None)
            continue
        if rule == "mirror":
            v = [-v[1 - j] if m[j] else v[j] for j in range(2)]
        elif rule == "zero":
            v = [0.0 if m[j] else v[j] for j in range(n)]
        exp.append(sum(a * b for a, b in zip(v, w)))
    verify(c, got, exp)


def h_rules(c, n):
    """one set of values; the default rule; rules that cannot be applied are refused"""
    V = [c.real(f"v{j}", -50, 50) for j in range(n)]
    W = [c.real(f"w{j}", 0, 1) for j in range(n - 1)]
    W.append(1 - sum(W))
    M = [c.choice(f"m{j}", 2) == 1 for j in range(n)]
    g = c.g.pysgrid.sgrid.SGrid(node_lon=c.np.zeros((2, 2)), node_lat=c.np.zeros((2, 2)))
    ask = lambda v=None, **kw: g.compute_interpolant(c.np.ma.MaskedArray(c.arr(V, float), mask=c.arr(M, bool)) if v is None else v, c.arr(W, float), **kw)
    zero = sum(w * (0.0 if m else v) for v, w, m in zip(V, W, M))
    full = sum(w * v for v, w in zip(V, W))
    c.check_eq("default", ask(), zero)
    c.check_eq("zero", ask(mask_behavior="zero"), zero)
    for plain in (c.arr(V, float), c.np.ma.MaskedArray(c.arr(V, float))):
        c.check_eq("without a mask", ask(plain), full)
    got = ask(mask_behavior="mask")
    c.check("masked if any is", c.is_masked(got) == any(M))
    if not any(M):
        c.check_eq("mask", got, full)
    g.masked_interpolant_behavior = "mask"
    c.check("rule of the grid", c.is_masked(ask()) == any(M))
    c.check_eq("rule of the call", ask(mask_behavior="zero"), zero)
    if n > 2:
        c.raises("mirror of four", ValueError, ask, mask_behavior="mirror")
        g.masked_interpolant_behavior = "mirror"
        c.raises("mirror of four", ValueError, ask)
        if n == 4:
            c.raises("mirror of four", ValueError, g.mirror_mask_values, c.np.ma.MaskedArray(c.arr([V], float)))
    else:
        c.assume(not all(M))
        c.check_eq("mirror", ask(mask_behavior="mirror"), sum(w * (-V[1 - j] if M[j] else V[j]) for j, w in enumerate(W)))
    c.raises("unknown rule", ValueError, ask, mask_behavior="none")


def jobs(tier):
    q = tier == "quick"
    out = []
    J = lambda h, **k: out.append((h, k, dict(weight=3 if k.get("geom") in ("para", "free") else 1)))
    for geom in ["para", "free"] + list(SHAPES):
        J("h_node", geom=geom, cells=((0, 0),))
        J("h_linear", geom=geom)
        if geom not in ("free",):
            J("h_node", geom=geom, cells=((0, 0),), edges=True)
    for via in ("SGrid", "Grid_S", "var"):
        J("h_node", geom="grid33", cells=((0, 1), (1, 0)), off=True, via=via)
        J("h_node", geom="rot", cells=((1, 1),), via=via)
    J("h_node", geom="grid34", cells=((1, 2), (0, 0)), name="psi")
    J("h_node", geom="grid34", cells=((0, 1),), lead=True)
    J("h_node", geom="grid34", cells=((0, 2), (0, 2), (1, 1)))
    P = ("none", "low", "high", "both")
    for p in P:
        for r in P:
            if q and p != r and "none" in (p, r):
                continue
            J("h_center", geom="grid34", cells=((1, 2),), pads=(p, r))
        J("h_center", geom="grid33", cells=((0, 1), (1, 0)), pads=(p, p), off=True)
        J("h_center", geom="grid33", cells=((0, 1), (1, 0)), pads=(p, p), mask=True, name="face")
    for p in ("none", "both", "low"):
        J("h_center", geom="grid34", cells=((1, 2),), pads=(p, "both"), explicit=False)
    for which in (1, 2):
        for p in P:
            J("h_edge", which=which, geom="grid34", cells=((1, 2), (0, 0)), pad=p, off=True)
            J("h_edge", which=which, geom="grid33", cells=((1, 0),), pad=p)
        J("h_edge", which=which, geom="grid33", cells=((1, 0),), pad="both", name="uv"[which - 1])
        J("h_edge", which=which, geom="grid33", cells=((1, 0),), pad="both", cpads=("both", "both"), explicit=False)
        for geom in ("para", "kite", "turned"):
            J("h_edge", which=which, geom=geom, cells=((0, 0),), pad="none")
        for rule in ("zero", "mask", "mirror"):
            for mask in (((0, 0),), ((0, 1) if which == 1 else (1, 0),), ((1, 1),)):
                J("h_edge", which=which, geom="grid33", cells=((0, 0), (1, 1)), pad="both", rule=rule, mask=mask, off=(rule != "mirror"))
        for land in (((0, 1),), ((1, 0),), ((0, 0), (1, 1))):
            for cpads in (("none", "none"), ("both", "both")):
                cell = [(r, k) for r in (0, 1) for k in (0, 1) if (r, k) not in land][0]
                J("h_edge", which=which, geom="grid33", cells=(cell,), pad="both", land=land, cpads=cpads)
                if not q:
                    J("h_edge", which=which, geom="grid33", cells=(cell,), pad="none", land=land, cpads=cpads, rule="mask")
    FAR = [("kite", 12, -70.5, 42.25), ("turned", 14, 151.75, -33.5), ("grid33", 10, -160.25, 71.5), ("rect", 15, 0.0, 0.0)]
    for geom in FAR:
        J("h_node", geom=geom, cells=((0, 0),))
        J("h_linear", geom=geom)
        for which in (1, 2):
            J("h_edge", which=which, geom=geom, cells=((0, 0),), pad="none")
    J("h_node", geom=FAR[2], cells=((0, 1), (1, 0)), off=True, via="var")
    J("h_center", geom=FAR[2], cells=((0, 1), (1, 0)), pads=("both", "low"), off=True)
    for holes in (((0, 0),), ((0, 1), (1, 0)), ((1, 1), (2, 2)), ((0, 0), (0, 1), (1, 0), (1, 1))):
        J("h_masked_node", geom="grid33", cell=(0, 0), holes=holes)
    for loc in ("node", "center", "edge1", "edge2"):
        for off in ((1,), (1, 1), (0, 1), (1, 0)):
            for via in ("SGrid", "Grid_S"):
                J("h_off", loc=loc, off=off, via=via)
    for rule in ("zero", "mask", "mirror"):
        for n in (2, 4):
            if rule == "mirror" and n == 4:
                continue
            for N in (1, 2, 3) if n == 2 else (1,) if q else (1, 2):
                J("h_interpolant", n=n, rule=rule, shape=N)
    for n in (2, 3, 4):
        J("h_rules", n=n)
    return out
