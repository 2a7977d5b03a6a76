"""C09: locating faces and nearest nodes on unstructured meshes"""
from checks.c05 import FIXED_F, FIXED_P, mesh, place
from checks.c10 import h_close  # noqa: F401 (successive locates closer than single precision)
from checks.common import area2, barycentric

BOUNDS = ("one or two triangles with symbolic node coordinates (any orientation, vertex order, numbering) or fixed 6-face (at three scales) / mixed triangle-quadrilateral meshes in either order of faces; "
          "batches of 1-3 symbolic points (or 8-9 with one symbolic) strictly inside a face or outside all; three locates in a row less than a millionth apart on either side of an edge; both search methods; nearest node among 3-4 symbolic or fixed nodes")
OUTSIDE = "points within 1e-5 (relative) of an edge; ties between equidistant nodes; larger meshes"
ASSUMPTIONS = ["cell_tree2d and scipy's cKDTree answer their queries exactly (stand-ins); the 'simple' method is the repository's own code throughout"]


def build(c, P, F, via="UGrid"):
    G = c.g.grids.Grid_U if via == "Grid_U" else c.g.pyugrid.ugrid.UGrid
    return G(nodes=c.arr(P, float), faces=c.arr(F, c.np.int32))


def scalar(c, label, r, w):
    c.check(label + ": a scalar", c.np.ndim(r) == 0)
    c.check_eq(label, r, w)


def verify(c, g, pts, places, method):
    arr = c.arr(pts, float)
    r = g.locate_faces(arr, method=method)
    c.check("one index per point", tuple(c.np.shape(r)) == (len(pts),))
    c.check_eq("face of each point", r, c.arr(places, int))
    c.check("caller's array keeps its shape", tuple(arr.shape) == (len(pts), 2))
    c.check_eq("caller's array keeps its values", arr, c.arr(pts, float), tol=0)
    c.check_eq("asking again", g.locate_faces(arr, method=method), c.arr(places, int))
    c.check_eq("index_of", g.index_of(arr, method=method), c.arr(places, int))
    for p, w in list(zip(pts, places))[:2]:
        one = c.arr(p, float)
        scalar(c, "single point", g.locate_faces(one, method=method), w)
        c.check("single point array keeps its shape", tuple(one.shape) == (2,))
        scalar(c, "single point again", g.locate_faces(one, method=method), w)
        scalar(c, "single point as a list", g.locate_faces(list(p), method=method), w)


def clear_of(c, t, p, k):
    """p is outside t by more than the 'simple' method's relative tolerance, beyond edge number `beyond`"""
    i = c.choice(f"beyond{k}", 3)
    w, a = barycentric(t, p)[i], area2(t)
    if c.fork(a > 0):
        c.assume(w <= -a / 1000)
        c.assume(w < 0)
    else:
        c.assume(w >= -a / 1000)
        c.assume(w > 0)


def h_sym(c, nf, places, method, perm=0, swap=False, via="UGrid"):
    P, F, tris = mesh(c, nf, perm, swap)
    if method == "celltree":
        pts = [place(c, tris, w, k) for k, w in enumerate(places)]
    else:
        pts = [[c.real(f"px{k}", -200, 200), c.real(f"py{k}", -200, 200)] for k in range(len(places))]
        for k, (p, w) in enumerate(zip(pts, places)):
            for i, t in enumerate(tris):
                if i != w:
                    clear_of(c, t, p, f"{k}_{i}")
                else:
                    pos = c.fork(area2(t) > 0)
                    for x in barycentric(t, p):
                        c.assume(x > 0 if pos else x < 0)
    for i in range(len(pts)):
        for j in range(i):
            if places[i] != places[j]:  # implied, but spares the solver
                c.assume(c.Or(pts[i][0] != pts[j][0], pts[i][1] != pts[j][1]))
    verify(c, build(c, P, F, via), pts, places, method)


def h_fixed(c, places, method, mesh="tri", scale=1, sym=None, order=0):
    if mesh == "tri":
        P, F = FIXED_P, FIXED_F
    else:
        P = [[0, 0], [4, 0], [4, 4], [0, 4], [8, 0], [7, 5], [2, 8]]
        F = [[0, 1, 2, 3], [1, 4, 5, 2], [3, 2, 6, -1], [2, 5, 6, -1]]
        for i, f in enumerate(F):  # each face from another vertex, and the other way round
            f = [k for k in f if k >= 0]
            f = (f[order:] + f[:order])[:: -1 if order == 2 else 1]
            F[i] = f + [-1] * (4 - len(f))
    P = [[x * scale, y * scale] for x, y in P]
    pts = []
    polys = [[P[k] for k in f if k >= 0] for f in F]
    for k, w in enumerate(places):
        if sym is not None and k not in sym:
            q = polys[w]
            a, b, z = (0.2 + 0.05 * k, 0.3, 0.5 - 0.05 * k) if w >= 0 else (0, 0, 0)
            pts.append([a * q[0][i] + b * q[1][i] + z * q[2][i] for i in (0, 1)] if w >= 0 else [-(k + 3.0) * scale, 5.0 * scale])
            continue
        p = [c.real(f"px{k}", -20 * scale, 20 * scale), c.real(f"py{k}", -20 * scale, 20 * scale)]
        if w >= 0:
            q = polys[w]
            for i in range(len(q)):
                a, b = q[i], q[(i + 1) % len(q)]
                c.assume(((b[0] - a[0]) * (p[1] - a[1]) - (b[1] - a[1]) * (p[0] - a[0])) * _sgn(q) >= (0.01 if c.symbolic else 0.009) * scale**2)
        else:
            m = 0.1 if c.symbolic else 0.09
            c.assume(c.Or(p[0] < -m * scale, p[0] > (9 + m) * scale, p[1] < -m * scale, p[1] > (9 + m) * scale))
        pts.append(p)
    verify(c, build(c, P, F), pts, places, method)


def _sgn(q):
    s = sum(q[i][0] * q[(i + 1) % len(q)][1] - q[(i + 1) % len(q)][0] * q[i][1] for i in range(len(q)))
    return 1 if s > 0 else -1


def h_nearest(c, nn, np_, fixed):
    if fixed:
        P = FIXED_P[:nn]
    else:
        P = [[c.real(f"x{i}", -9, 9), c.real(f"y{i}", -9, 9)] for i in range(nn)]
    g = c.g.pyugrid.ugrid.UGrid(nodes=c.arr(P, float), faces=c.arr([[0, 1, 2]], c.np.int32))
    pts = [[c.real(f"px{k}", -9, 9), c.real(f"py{k}", -9, 9)] for k in range(np_)]

    def d2(p, q):
        return (p[0] - q[0]) ** 2 + (p[1] - q[1]) ** 2

    r = g.locate_nodes(c.arr(pts, float))
    c.check("one node per point", tuple(r.shape) == (np_,))
    for k, p in enumerate(pts):
        i = int(r[k])
        for j in range(nn):
            c.check_le("nearest", d2(p, P[i]), d2(p, P[j]))


def jobs(tier):
    out = []
    for method in ("celltree", "simple"):
        for perm in range(4):
            for places in ([0], [-1]):
                out.append(("h_sym", dict(nf=1, places=places, method=method, perm=perm), {}))
        for swap in (False, True):
            for places in ([0, 1], [1, -1], [1]):
                if method == "simple" and len(places) > 1 and tier == "quick":
                    continue
                out.append(("h_sym", dict(nf=2, places=places, method=method, perm=1, swap=swap), dict(weight=2)))
        for places in ([0, 3, -1], [5, 2], [4, 1], [-1, 3, 5]):
            out.append(("h_fixed", dict(places=places, method=method), {}))
    for scale in (2.0**-11, 2.0**8):
        for places in ([3], [5, 0], [-1]):
            out.append(("h_fixed", dict(places=places, method="simple", scale=scale), {}))
        out.append(("h_fixed", dict(places=[1, -1], method="celltree", scale=scale), {}))
    out.append(("h_sym", dict(nf=2, places=[1, 0], method="celltree", perm=2, via="Grid_U"), {}))
    for places in ([0, 2], [3, 1], [-1, 2, 0]):
        for method in ("celltree", "simple"):
            out.append(("h_fixed", dict(places=places, method=method, mesh="mixed", order=(places[0] + (method == "simple")) % 3), {}))
    for method in ("celltree", "simple"):
        for sym in ([0], [7]):
            out.append(("h_fixed", dict(places=[0, 3, -1, 5, 2, 2, -1, 4], method=method, sym=sym), {}))
        for k in (0, 8):
            out.append(("h_fixed", dict(places=[0, 3, 2, 1, -1, 0, 1, 2, 3], method=method, mesh="mixed", sym=[k], order=k and 1), {}))
    for single in (False, True):
        out.append(("h_close", dict(what="faces", single=single), {}))
    out.append(("h_nearest", dict(nn=7, np_=2, fixed=True), {}))
    out.append(("h_nearest", dict(nn=3, np_=1, fixed=False), {}))
    if tier != "quick":
        out.append(("h_nearest", dict(nn=4, np_=2, fixed=False), {}))
        for a in range(-1, 6):
            for b in range(-1, 6):
                out.append(("h_fixed", dict(places=[a, b, a], method="simple"), {}))
    return out
