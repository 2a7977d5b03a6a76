"""C30: points in polygons"""

BOUNDS = ("batches of 1 to 3 points, each with its own polygon of 3, 4 or 5 corners: triangles with all coordinates symbolic, quadrilaterals (convex, concave, in either orientation, from any first corner, self-crossing) and pentagons with a symbolic point "
          "and one or two symbolic corners; coordinates given together or apart, as plain or masked arrays")
OUTSIDE = "points exactly on the line through two corners; polygons of more corners; one polygon for several points"
ASSUMPTIONS = ["a point is inside when a ray from it crosses the outline an odd number of times: decided by the triangles the polygon's first corner makes with each of its sides"]

QUADS = {"convex": [(0, 0), (5, 1), (6, 5), (-1, 4)], "concave": [(0, 0), (6, 0), (2, 2), (0, 6)], "crossing": [(0, 0), (5, 5), (5, 0), (0, 6)],
         "square": [(0, 0), (4, 0), (4, 4), (0, 4)], "penta": [(0, 0), (4, -1), (7, 3), (3, 2), (1, 6)]}


def cross(a, b, p):
    return (b[0] - a[0]) * (p[1] - a[1]) - (b[1] - a[1]) * (p[0] - a[0])


def oracle(c, poly, p):
    """odd number of the triangles (v0, vi, vi+1) contain the point"""
    n = 0
    for i in range(1, len(poly) - 1):
        s = [cross(poly[0], poly[i], p), cross(poly[i], poly[i + 1], p), cross(poly[i + 1], poly[0], p)]
        for x in s:
            c.assume(c.Or(x > 1e-3, x < -1e-3))
        if all(c.fork(x > 0) for x in s[:1]):
            inside = c.fork(c.And(s[1] > 0, s[2] > 0))
        else:
            inside = c.fork(c.And(s[1] < 0, s[2] < 0))
        n += bool(inside)
    return n % 2 == 1


def h_pip(c, kind, sym=(), turn=0, rev=False, n=1, apart=False, masked=(), pick=0, copies=False):
    P = c.reals("p", (1, 2), -3, 9)
    polys, pts = [], []
    for k in range(n):
        if kind == "tri":
            v = [(c.real(f"x{i}", -4, 8), c.real(f"y{i}", -4, 8)) for i in range(3)] if k == pick else [(0, 0), (3, 0), (0, 3)]
        else:
            v = list(QUADS[kind])
            if k == pick:
                for i in sym:
                    v[i] = (v[i][0] + c.real(f"dx{i}", -1, 1), v[i][1] + c.real(f"dy{i}", -1, 1))
        v = v[turn:] + v[:turn]
        if rev:
            v = v[::-1]
        polys.append(v)
        pts.append((P[0, 0], P[0, 1]) if k == pick else ((1, 1.25) if k % 2 else (20.5, 1.5)))
    np = c.np
    A = c.arr(pts, float)
    B = c.arr(polys, float)
    if "points" in masked:
        A = np.ma.MaskedArray(A, mask=np.zeros((n, 2), dtype=bool))
    X, Y = B[:, :, 0], B[:, :, 1]
    if "polys" in masked:
        B = np.ma.MaskedArray(B, mask=np.zeros((n, len(polys[0]), 2), dtype=bool))
        X, Y = [np.ma.MaskedArray(q, mask=np.zeros((n, len(polys[0])), dtype=bool)) for q in (X, Y)]
    A0, B0 = c.snapshot(A), c.snapshot(B)
    f = c.g.pysgrid.utils.points_in_polys
    exp = [oracle(c, v, p) for v, p in zip(polys, pts)]
    r = f(A, X, Y) if apart else f(A, B)
    c.check("one answer per point", tuple(r.shape) == (n,), f"{r.shape}")
    for k in range(n):
        got = bool(r[k])
        c.check("inside" if exp[k] else "not inside", got == exp[k], f"point {k}: {got}")
    if copies:
        r2 = f(A, X, Y) if not apart else f(A, B)
        for k in range(n):
            c.check("coordinates apart or together", bool(r2[k]) == exp[k])
    c.check_eq("caller's points", A, A0, tol=0)
    c.check_eq("caller's polygons", B, B0, tol=0)


def jobs(tier):
    deep = tier != "quick"
    out = []
    add = lambda w=1, **kw: out.append(("h_pip", kw, dict(weight=w)))
    k = 0
    for rev in (False, True):
        for n in (1, 2, 3):
            for pick in range(n):
                k += 1
                add(3, kind="tri", rev=rev, n=n, pick=pick, apart=bool(k % 2), copies=True, masked=((), ("points",), ("polys",), ("points", "polys"))[k % 4])
    for kind in QUADS:
        m = len(QUADS[kind])
        for turn in range(m):
            for rev in (False, True):
                k += 1
                n = 1 + k % 3
                for sym in ((), (0,), (m - 1,)) + (((1,), (0, 2), (1, m - 1)) if deep else ()):
                    add(2, kind=kind, turn=turn, rev=rev, sym=sym, n=n, pick=k % n, apart=bool(k // 3 % 2), masked=((), ("points",), ("polys",), ("points", "polys"))[k // 2 % 4])
    return out
