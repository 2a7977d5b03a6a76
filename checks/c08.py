"""C08: locating cells and nearest positions on curvilinear grids"""
from checks.c06 import bil, corners

BOUNDS = ("grids of 1x1 to 2x3 cells with every node coordinate symbolic (each within 0.2 of a regular, sheared or reversed layout, so that cells stay convex); every pattern of masked cells, masked nodes "
          "and nodes without coordinates that leaves a cell over (patterns of up to 2x3 cells / 2x3 nodes forked exhaustively by the solver, 3x3 nodes: up to 4 masked), every center padding with arbitrary values in the padding; "
          "a symbolic point in every cell at once plus one off the grid; single and batch, plain and memoised, with and without the masks; nearest node or center among up to 6")
OUTSIDE = "larger grids; points exactly on cell edges; grids whose cells are all masked; ties between equidistant positions"
ASSUMPTIONS = ["cell_tree2d returns the polygon (of those it was given) that a point lies in, cKDTree the nearest point (stand-ins; replays use the real ones)",
               "the mask in force is that of the tree: use_mask matters when the tree is built"]
PAD = {"none": (-1, 0), "low": (0, 1), "high": (0, 0), "both": (1, 1)}
LAYOUT = {"plain": ((1, 0), (0, 1)), "reversed": ((-1, 0), (0, 1)), "transposed": ((0, 1), (1, 0)), "sheared": ((1, 0.5), (-0.25, 1))}


def nodes(c, ny, nx, layout, symbolic=True):
    if isinstance(layout, (list, tuple)):  # (layout, halvings of the size, lon, lat)
        X, Y = nodes(c, ny, nx, layout[0], symbolic)
        return X * 0.5 ** layout[1] + layout[2], Y * 0.5 ** layout[1] + layout[3]
    (a, b), (d, e) = LAYOUT[layout]
    X, Y = [], []
    for i in range(ny):
        X.append([]), Y.append([])
        for j in range(nx):
            dx, dy = (c.real(f"dx{i}_{j}", -0.2, 0.2), c.real(f"dy{i}_{j}", -0.2, 0.2)) if symbolic else ((i * 3 + j) % 4 * 0.05, (i + j * 2) % 3 * 0.0625)
            X[-1].append(a * j + d * i + dx)
            Y[-1].append(b * j + e * i + dy)
    return c.arr(X, float), c.arr(Y, float)


def pattern(c, name, shape, only=None):
    out = []
    for i in range(shape[0]):
        out.append([c.choice(f"{name}{i}_{j}", 2) == 1 if only is None or (i, j) in only else False for j in range(shape[1])])
    return out


def point(c, X, Y, r, k, n):
    l, m = (0.5, 0.5) if n else (c.real("l", 0.3, 0.7), c.real("m", 0.3, 0.7))
    p = [bil(X, r, k, l, m), bil(Y, r, k, l, m)]
    if c.symbolic:
        c.fakes.declare_point((p[0], p[1]), corners(X, Y, r, k))
    return p


def verify(c, g, P, exp, again=(False,), single=True, **kw):
    arr = c.arr(P, float)
    arr0 = c.snapshot(arr)
    for memo in again:
        got = g.locate_faces(arr, _memo=memo, **kw)
        c.check("one index pair per point", tuple(got.shape) == (len(P), 2))
        for i, e in enumerate(exp):
            for d in (0, 1):
                if e is None:
                    c.check("no cell: masked", c.is_masked(got[i, d]))
                else:
                    c.check("in a cell: not masked", not c.is_masked(got[i, d]))
                    c.check_eq("row" if d == 0 else "column", got[i, d], e[d])
        for i, e in enumerate(exp) if single else ():
            one = arr[i]
            got1 = g.index_of(one, _memo=memo, **kw)
            c.check("single point: one index pair", tuple(got1.shape) == (2,))
            c.check_eq("single point", got1, c.arr(e if e else (-1, -1), int))
    c.check_eq("caller's points", arr, arr0, tol=0)


def h_cells(c, ny, nx, layout, kind=None, pads=("none", "none"), only=None, use_mask=True, via="SGrid", again=(False,), vary=True, built=None):
    """ny x nx nodes; kind: center / node / coord masks, every pattern (or the cells in `only`)"""
    X, Y = nodes(c, ny, nx, layout, vary)
    cells = [(r, k) for r in range(ny - 1) for k in range(nx - 1)]
    kw, land = {}, set()
    lon, lat = X, Y
    if kind == "center":
        shape = (ny + PAD[pads[0]][0], nx + PAD[pads[1]][0])
        o = (PAD[pads[0]][1], PAD[pads[1]][1])
        if pads == ("none", "none"):
            M = pattern(c, "m", shape, only)
        else:  # a few real cells vary, and the padding, which must not matter
            M = pattern(c, "m", shape, ((0, 0), (shape[0] - 1, shape[1] - 1), (o[0], o[1]), (o[0] + ny - 2, o[1] + nx - 2)))
        kw = dict(center_mask=c.arr(M, bool), face_padding=tuple(pads))
        land = {q for q in cells if M[q[0] + o[0]][q[1] + o[1]]}
    elif kind in ("node", "coord"):
        M = pattern(c, "m", (ny, nx), only)
        land = {(r, k) for r, k in cells if M[r][k] or M[r][k + 1] or M[r + 1][k] or M[r + 1][k + 1]}
        if kind == "node":
            kw = dict(node_mask=c.arr(M, bool))
        else:
            lon, lat = c.np.ma.MaskedArray(X, mask=c.arr(M, bool)), c.np.ma.MaskedArray(Y, mask=c.arr(M, bool))
    c.assume(len(land) < len(cells))
    all_land = land
    if not use_mask:
        land = set()
    G = c.g.grids.Grid_S if via == "Grid_S" else c.g.pysgrid.sgrid.SGrid
    g = G(node_lon=lon, node_lat=lat, **kw)
    P = [point(c, X, Y, r, k, n) for n, (r, k) in enumerate(cells)]
    exp = [None if q in land else q for q in cells]
    P.append([60.0, 70.0])
    exp.append(None)
    if built is not None:  # an explicitly built tree decides, whatever was asked before
        verify(c, g, P[:1] + P[-1:], [None if not built and cells[0] in all_land else cells[0], None], use_mask=not built, again=again, single=False)
        g.build_celltree(use_mask=built)
    verify(c, g, P, exp, use_mask=use_mask, again=again)
    c.check_eq("node coordinates kept", lon, X) if kind != "coord" else None


def h_nearest(c, ny, nx, where, npts, symbolic, via="nearest", place=(0, 0, 0), pads=(1, 1)):
    """nearest node / center"""
    if symbolic:
        X, Y = c.reals("x", (ny, nx), -5, 5), c.reals("y", (ny, nx), -5, 5)
    else:
        X, Y = nodes(c, ny, nx, ("sheared",) + tuple(place), False)
    kw = {f"{where}_lon": X, f"{where}_lat": Y}
    if where != "node":
        kw.update({f"node_{d}": c.np.zeros((ny + pads[0], nx + pads[1])) for d in ("lon", "lat")})
    g = c.g.pysgrid.sgrid.SGrid(**kw)
    u = 2.0 ** place[0]
    P = [[c.real(f"px{i}", -9, 9) / u + place[1], c.real(f"py{i}", -9, 9) / u + place[2]] for i in range(npts)]
    ind = g.locate_nearest(c.arr(P, float), where)
    c.check("one index pair per point", tuple(ind.shape) == (npts, 2))
    near = []
    for i, p in enumerate(P):
        r, k = int(ind[i, 0]), int(ind[i, 1])
        near.append((r, k))
        c.check("index in range", 0 <= r < ny and 0 <= k < nx)
        for a in range(ny):
            for b in range(nx):
                c.check_le("nearest", ((p[0] - X[r, k]) * u) ** 2 + ((p[1] - Y[r, k]) * u) ** 2, ((p[0] - X[a, b]) * u) ** 2 + ((p[1] - Y[a, b]) * u) ** 2)
    if via == "value":
        F = c.reals("f", (ny, nx), -9, 9)
        D, kw = F, dict(grid=where)
        how = c.choose("how", ["plain", "indices", "tuple", "list", "two", "masked"] + ["inferred"] * (where == "node"))
        if how == "inferred":
            kw = {}
        elif how == "indices":
            kw["indices"] = ind
        elif how == "masked":
            D = c.np.ma.MaskedArray(F, mask=[[(a, b) == near[0] for b in range(nx)] for a in range(ny)])
        elif how != "plain":
            kw["slices"] = {"tuple": (1,), "list": [2], "two": (0, 1)}[how]
            s = c.np.stack([F if n == kw["slices"][-1] else F + 1 for n in range(3)])
            D = s if how != "two" else c.np.stack([s, s + 1])
            if how == "two":
                c.raises("too many dimensions", ValueError, g.nearest_var_to_points, c.arr(P, float), D, grid=where, slices=(0,))
            else:
                c.raises("too many dimensions", ValueError, g.nearest_var_to_points, c.arr(P, float), D, grid=where)
        got = g.nearest_var_to_points(c.arr(P, float), D, **kw)
        if how == "masked":
            for i, q in enumerate(near):
                c.check("masked where the data is", c.is_masked(got.reshape(-1)[i]) == (q == near[0]))
            return
        c.check("one value per point", got.reshape(-1).shape[0] == npts)
        for i, q in enumerate(near):
            c.check_eq("value of the nearest", got.reshape(-1)[i], F[q])


def h_missing(c, where):
    """what cannot be located is refused"""
    S = c.g.pysgrid.sgrid.SGrid
    A = c.reals("x", (3, 3), -5, 5)
    for d in ("lon", "lat"):
        kw = {} if where == "node" else dict(node_lon=A, node_lat=A)
        c.raises("only one coordinate", ValueError, S(**kw, **{f"{where}_{d}": A}).build_kdtree, where)
    c.raises("no coordinates", ValueError, S(node_lon=A if where != "node" else None).build_kdtree, where)
    c.raises("no such place", ValueError, S(node_lon=A, node_lat=A).locate_nearest, c.arr([[0, 0]], float), "nowhere")


def jobs(tier):
    q = tier == "quick"
    out = []
    J = lambda h, **k: out.append((h, k, {}))
    for layout in LAYOUT:
        J("h_cells", ny=3, nx=4, layout=layout)
        J("h_cells", ny=3, nx=3, layout=layout, kind="center", again=(False, True, True))
    J("h_cells", ny=2, nx=2, layout="plain", again=(True, True))
    J("h_cells", ny=2, nx=4, layout="plain", via="Grid_S")
    J("h_cells", ny=3, nx=4, layout="plain", kind="center", vary=False)
    J("h_cells", ny=4, nx=2, layout="sheared", kind="center", via="Grid_S")
    for p in PAD:
        for r in PAD:
            J("h_cells", ny=3, nx=3, layout="plain", kind="center", pads=(p, r), vary=False)
    J("h_cells", ny=3, nx=4, layout="sheared", kind="center", pads=("low", "both"))
    for kind in ("node", "coord"):
        J("h_cells", ny=2, nx=4, layout="plain", kind=kind, vary=False)
        J("h_cells", ny=3, nx=3, layout="sheared", kind=kind, only=((0, 0), (1, 1), (2, 1)) if q else None)
        J("h_cells", ny=3, nx=4, layout="plain", kind=kind, only=((0, 0), (0, 3), (2, 1), (2, 2)), vary=False)
    for kind in ("center", "node"):
        J("h_cells", ny=3, nx=3, layout="plain", kind=kind, use_mask=False, only=((0, 0), (1, 1)), again=(True, False))
        J("h_cells", ny=3, nx=3, layout="plain", kind=kind, built=True, only=((0, 0), (0, 1)), again=(True, True))
    J("h_cells", ny=3, nx=3, layout="plain", kind="center", built=False, use_mask=False, only=((0, 0), (1, 0)), again=(True, True))
    for n, far in enumerate((("sheared", 12, -70.5, 42.25), ("reversed", 14, 151.75, -33.5))):
        J("h_cells", ny=3, nx=3, layout=far)
        J("h_cells", ny=3, nx=3, layout=far, kind="center", only=((0, 0), (1, 1)), via="Grid_S")
        J("h_nearest", ny=2, nx=3, where=("node", "center")[n], npts=1, symbolic=False, place=far[1:])
    for where in ("node", "center"):
        J("h_nearest", ny=2, nx=3, where=where, npts=2 if not q else 1, symbolic=False)
        J("h_nearest", ny=2, nx=2, where=where, npts=1, symbolic=True)
        J("h_nearest", ny=2, nx=3, where=where, npts=1, symbolic=False, via="value")
    J("h_nearest", ny=2, nx=2, where="node", npts=2, symbolic=False, via="value")
    for pads in ((0, 0), (0, 1), (1, 0), (-1, 1), (-1, -1), (1, -1)):
        J("h_nearest", ny=3, nx=3, where="center", npts=1, symbolic=False, via="value", pads=pads)
    for where in ("node", "center", "edge1", "edge2"):
        J("h_missing", where=where)
    return out
