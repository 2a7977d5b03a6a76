"""C05: interpolation on triangular meshes"""
from checks.common import area2, barycentric, strictly_out

BOUNDS = ("one or two triangles with all node coordinates symbolic (in [-60, 60], area at least 1, any orientation, any vertex order and face numbering), "
          "or a fixed 6-face mesh (scaled by 2^-17 to 2^10, at several places); batches of 1-3 symbolic points, each strictly inside a face or strictly outside all; node and face values symbolic; direct call and through Variable; a missing (masked or NaN) value at the last face or one of its nodes")
OUTSIDE = "points exactly on an edge; quadrilateral or mixed faces; larger meshes; what a face with a missing vertex value gives; missing values elsewhere than at the last face"
ASSUMPTIONS = ["cell_tree2d.CellTree.locate returns the face containing the point (stand-in; replays use the real one)", "floats as reals"]

PERMS = [(0, 1, 2), (1, 2, 0), (2, 1, 0), (0, 2, 1)]


def mesh(c, nf, perm=0, swap=False):
    """symbolic nodes; faces with permuted vertices; returns nodes, faces, triangles (in face order)"""
    n = nf + 2
    P = [[c.real(f"x{i}", -60, 60), c.real(f"y{i}", -60, 60)] for i in range(n)]
    F = [[0, 1, 2]] if nf == 1 else [[0, 1, 2], [1, 3, 2]]
    for f in F:
        a = area2([P[k] for k in f])
        if nf == 1 or f is F[0]:
            up = c.fork(a > 0)
        # both of the same orientation: on opposite sides of the shared edge, no overlap
        c.assume(a > 0 if up else a < 0)
        c.assume(a >= 2 if up else a <= -2)
    F = [[f[k] for k in PERMS[perm]] for f in F]
    if swap:
        F = F[::-1]
    return P, F, [[P[k] for k in f] for f in F]


def place(c, tris, where, k, scale=1, base=(0, 0)):
    """a symbolic point strictly inside face `where`, or outside all faces (-1)"""
    p = [c.real(f"px{k}", base[0] - 200 * scale, base[0] + 200 * scale), c.real(f"py{k}", base[1] - 200 * scale, base[1] + 200 * scale)]
    m = (1 if c.symbolic else 0.5) * scale**4
    if where >= 0:
        c.declare_point(p, [tuple(q) for q in tris[where]])
        c.assume(c.And(*[w * area2(tris[where]) >= m for w in barycentric(tris[where], p)]))
    else:
        for t in tris:
            c.assume(strictly_out(c, t, p, m))
        c.declare_point(p, None)
    return p


def expected(c, tris, faces, vals, where, p, loc):
    if where < 0:
        return 0.0
    if loc == "face":
        return vals[where]
    w, a = barycentric(tris[where], p), area2(tris[where])
    return sum(w[i] * vals[faces[where][i]] for i in range(3)) / a


def run(c, P, F, tris, places, loc, via, **kw):
    pts = [place(c, tris, w, k, **kw) for k, w in enumerate(places)]
    nv = len(P) if loc == "node" else len(F)
    vals = [c.real(f"v{i}", -100, 100) for i in range(nv)]
    nodes, faces, data = c.arr(P, float), c.arr(F, c.np.int32), c.arr(vals, float)
    exp = [expected(c, tris, F, vals, w, p, loc) for w, p in zip(places, pts)]
    G = c.g.grids.Grid_U if via == "variable" else c.g.pyugrid.ugrid.UGrid
    g = G(nodes=nodes, faces=faces)
    if via == "variable":
        V = c.g.variable.Variable(grid=g, data=data, location=loc)
        r = V.at(c.arr(pts, float))
        c.check("shape", tuple(r.shape) == (len(pts), 1))
        r = r[:, 0]
    elif via == "direct":
        r = g.interpolate_var_to_points(c.arr(pts, float), data, location=loc)
    elif via == "infer":
        r = g.interpolate_var_to_points(c.arr(pts, float), data)
    else:  # slices of a (time, node) or (time, level, node) array
        other = [c.real(f"o{i}", -100, 100) for i in range(nv)]
        stack = c.arr([other, vals, other], float)
        how = c.choose("how", [(1,), [1], (2, 1), [0, 1], [1, slice(None)]])
        if len(how) == 2 and how[1] == 1:
            stack = c.np.stack([stack if n == how[0] else stack + 1 for n in range(3)])
        r = g.interpolate_var_to_points(c.arr(pts, float), stack, location=loc, slices=how)
    c.check("one value per point", len(r) == len(pts) and r.ndim == 1)
    c.check_eq("value", r, c.arr(exp, float))
    for i in range(nv):
        c.check_eq("data untouched", data[i], vals[i])
    # weights
    if loc == "node" and via == "direct":
        al = g.interpolation_alphas(c.arr(pts, float))
        c.check("weights shape", tuple(al.shape) == (len(pts), 3))
        for k, w in enumerate(places):
            if w < 0:
                for j in range(3):
                    c.check_eq("weights outside", al[k, j], 0.0)
                continue
            for j in range(3):
                c.check_le("weights at least 0", 0, al[k, j])
                c.check_le("weights at most 1", al[k, j], 1)
            c.check_eq("weights sum", al[k, 0] + al[k, 1] + al[k, 2], 1.0)
            for d in (0, 1):
                c.check_eq("weights reproduce the point", sum(al[k, j] * P[F[w][j]][d] for j in range(3)), pts[k][d])


def h_sym(c, nf, places, loc, via, perm=0, swap=False):
    P, F, tris = mesh(c, nf, perm, swap)
    run(c, P, F, tris, places, loc, via)


FIXED_P = [[0, 0], [4, 0], [8, 1], [0, 5], [5, 4], [9, 6], [4, 9]]
FIXED_F = [[0, 1, 3], [1, 4, 3], [2, 4, 1], [2, 5, 4], [6, 4, 5], [3, 4, 6]]


def h_fixed(c, places, loc, via, scale=1, base=(0, 0)):
    P = [[base[0] + x * scale, base[1] + y * scale] for x, y in FIXED_P]
    tris = [[P[k] for k in f] for f in FIXED_F]
    run(c, P, FIXED_F, tris, places, loc, via, scale=scale, base=base)


def h_missing(c, places, loc, via, kind):
    """missing values (masked, or not a number) at the last face, or at a node of it"""
    pts = [place(c, [[FIXED_P[k] for k in f] for f in FIXED_F], w, k) for k, w in enumerate(places)]
    tris = [[FIXED_P[k] for k in f] for f in FIXED_F]
    nv = len(FIXED_P) if loc == "node" else len(FIXED_F)
    vals = [c.real(f"v{i}", -100, 100) for i in range(nv)]
    gone = {len(FIXED_F) - 1} if loc == "face" else {c.choose("node", FIXED_F[-1])}
    if kind == "nan":
        data = c.arr([c.np.nan if i in gone else v for i, v in enumerate(vals)], float)
    else:
        data = c.np.ma.array(c.arr(vals, float), mask=[i in gone for i in range(nv)])
    nodes, faces = c.arr(FIXED_P, float), c.arr(FIXED_F, c.np.int32)
    if via == "variable":
        r = c.g.variable.Variable(grid=c.g.grids.Grid_U(nodes=nodes, faces=faces), data=data, location=loc).at(c.arr(pts, float))[:, 0]
    else:
        r = c.g.pyugrid.ugrid.UGrid(nodes=nodes, faces=faces).interpolate_var_to_points(c.arr(pts, float), data, location=loc)
    c.check("one value per point", len(r) == len(pts))
    for k, w in enumerate(places):
        touched = w >= 0 and (w in gone if loc == "face" else bool(gone & set(FIXED_F[w])))
        if not touched:
            c.check("value there", not c.is_masked(r[k]))
            c.check_eq("value", r[k], expected(c, tris, FIXED_F, vals, w, pts[k], loc))
        elif loc == "face" and kind == "masked":
            c.check("missing", c.is_masked(r[k]))


def jobs(tier):
    out = []
    for kind in ("masked", "nan"):
        for via in ("direct", "variable"):
            for loc in ("face", "node"):
                for places in ([-1], [-1, 5, 2], [1, -1, -1]):
                    out.append(("h_missing", dict(places=places, loc=loc, via=via, kind=kind), {}))
    for perm in range(4):
        for loc in ("node", "face"):
            out.append(("h_sym", dict(nf=1, places=[0], loc=loc, via="direct", perm=perm), {}))
    for places in ([0, 1], [1, -1], [-1, 0], [-1, -1], [1, 1]):
        for loc in ("node", "face"):
            for swap in (False, True):
                out.append(("h_sym", dict(nf=2, places=places, loc=loc, via="direct", perm=1, swap=swap), dict(weight=2)))
    for via in ("variable", "infer", "slices"):
        for loc in ("node", "face"):
            out.append(("h_sym", dict(nf=2, places=[1, -1, 0], loc=loc, via=via, perm=2), dict(weight=2)))
    for places in ([0, 3], [5, 2], [4, -1], [1, 1], [-1, 3, 0]):
        for loc in ("node", "face"):
            for via in ("direct", "variable"):
                out.append(("h_fixed", dict(places=places, loc=loc, via=via), {}))
    for places, base in (([2, -1], (0, 0)), ([4], (-70.0, 42.0)), ([-1, 1, 3], (179.0, -60.0))):
        for e in (12, 17):
            out.append(("h_fixed", dict(places=places, loc="node", via="direct", scale=0.5**e, base=base), {}))
    out.append(("h_fixed", dict(places=[1, 5], loc="node", via="variable", scale=2.0**10), {}))
    if tier != "quick":
        for a in range(-1, 6):
            for b in range(-1, 6):
                out.append(("h_fixed", dict(places=[a, b, -1, a], loc="node", via="direct"), {}))
    return out
