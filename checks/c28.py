"""C28: equality of grids and of time series is equality of what they hold"""
BOUNDS = ("meshes of 3-4 nodes (symbolic coordinates), up to 2 faces of 3-4 vertices with missing vertices over any (symbolic) hidden number, faces and boundaries there or not; curvilinear grids of 2x3 nodes with or without centers, masks, padding and missing coordinates over any hidden value; time series of 1-3 symbolic instants with any offset; "
          "compared in both directions with an equal copy, with itself, with one that differs in one or more of these, and with other objects")
OUTSIDE = "coordinates that are not numbers (NaN); parts that the comparison leaves out by design (edges, topology names); larger grids"
ASSUMPTIONS = []


def agree(c, label, a, b, same):
    """== and != in both directions say `same` (a condition)"""
    for t, x, y in (("", a, b), (" reversed", b, a)):
        eq, ne = x == y, x != y
        c.check(label + t + ": answer", isinstance(eq, bool) or type(eq).__name__ in ("bool", "bool_", "SBool", "Bool"), repr(type(eq)))
        eq, ne = bool(eq), bool(ne)
        c.check(label + t + ": equal", same if eq else c.Not(same), f"== gives {eq}")
        c.check(label + t + ": !=", ne == (not eq))


FACES = (None, ((0, 1, 2),), ((2, 1, 0),), ((0, 1, 2), (0, 2, 3)), ((0, 2, 3), (0, 1, 2)), ((0, 1, 2, 3),), ((0, 1, 2, None),), ((0, 1, 2, None), (0, 2, 3, None)))
BND = (None, ((0, 1),), ((1, 0),), ((0, 1), (1, 2)))


def faces(c, k, tag):
    np = c.np
    f = FACES[k]
    if f is None or None not in f[0] + f[-1]:
        return None if f is None else np.array(f)
    hid = c.choice("hidden" + tag, 5) - 1
    return np.ma.array([[hid if v is None else v for v in r] for r in f], mask=[[v is None for v in r] for r in f])


def mesh(c, cls, xy, k, b, tag):
    kw = {}
    f = faces(c, k, tag)
    if f is not None:
        kw["faces"] = f
    if BND[b] is not None:
        kw["boundaries"] = c.np.array(BND[b])
    C = c.g.pyugrid.ugrid.UGrid if cls == "UGrid" else c.g.grids.Grid_U
    return C(nodes=xy, **kw)


def h_mesh(c, cls, other, k, b, dn=0):
    np = c.np
    v, w = c.reals("v", 8, -5, 5), c.reals("w", 8, -5, 5)
    for i in range(3, 8):
        c.assume(w[i] == v[i])
    A = mesh(c, cls, c.arr(v, float).reshape(4, 2), k, b, "a")
    k2, b2 = c.choice("faces", len(FACES)), c.choice("bnd", len(BND))
    if other != cls or dn:
        k2, b2 = k, b
    n2 = 4 - dn
    if dn and FACES[k2] is not None and any(x == 3 for r in FACES[k2] for x in r):
        return
    B = mesh(c, other, c.arr(w[: 2 * n2], float).reshape(n2, 2), k2, b2, "b" if dn == 0 else "a")
    same = c.And(*[x == y for x, y in zip(v, w)]) if cls == other and k == k2 and b == b2 and not dn else False
    agree(c, "meshes", A, B, same)
    agree(c, "itself", A, A, True)
    for x in (None, 3, "grid", np.zeros(3)[:0].tolist()):
        c.check("something else", (A == x) is False and (A != x) is True)


def h_curvi(c, cls, what):
    np = c.np
    v, w = c.reals("v", 4, -5, 5), c.reals("w", 4, -5, 5)
    lon = np.array([[0.0, 1.0, 2.0], [0.0, 1.0, 2.0]])
    lat = np.array([[0.0, 0.0, 0.0], [1.0, 1.0, 1.0]])

    def make(x, tag):
        a, b = lon + 0 * x[0], lat + 0 * x[0]
        a[0, 0], a[1, 2], b[0, 1] = x[0], x[1], x[2]
        kw, key = {}, ()
        if what == "centers":
            p = np.array([[0.5, 1.5]]) + 0 * x[0]
            p[0, 1] = x[3]
            has = c.choice("c" + tag, 3)
            key = (has,)
            if has:
                kw.update(center_lon=p, center_lat=np.array([[0.5, 0.5]]))
            if has == 2:
                kw["center_lat"] = np.array([[0.5, 0.75]])
        elif what == "mask":
            i = c.choice("m" + tag, 4)
            key = (i,)
            m = np.zeros((2, 3), dtype=bool)
            if i:
                m[0, i - 1] = True
                kw["node_mask"] = m
        elif what == "center_mask":
            i = c.choice("m" + tag, 3)
            key = (i,)
            kw.update(center_lon=np.array([[0.5, 1.5]]), center_lat=np.array([[0.5, 0.5]]))
            if i:
                m = np.zeros((1, 2), dtype=bool)
                m[0, i - 1] = True
                kw["center_mask"] = m
        elif what == "padding":
            i = c.choice("p" + tag, 4)
            key = (i,)
            kw["face_padding"] = (("none", "none"), ("both", "both"), ("none", "both"), ("low", "high"))[i]
        elif what == "missing":
            i = c.choice("h" + tag, 3)
            key = (i,)
            m = np.zeros((2, 3), dtype=bool)
            m[1, i] = True
            a[1, i] = c.real("under" + tag, -5, 5)
            a = np.ma.array(a, mask=m)
        if cls == "SGrid":
            return c.g.pysgrid.sgrid.SGrid(node_lon=a, node_lat=b, **kw), key
        return c.g.grids.Grid_S(node_lon=a, node_lat=b, **kw), key

    A, ka = make(v, "a")
    B, kb = make(w, "b")
    n = [0, 2] if what == "missing" and ka == (2,) else [0, 1, 2]
    if what == "centers" and ka != (0,):
        n.append(3)
    same = c.And(*[v[i] == w[i] for i in n]) if ka == kb else False
    agree(c, "grids", A, B, same)
    agree(c, "itself", A, A, True)
    C = c.g.grids.Grid_S if cls == "SGrid" else c.g.pysgrid.sgrid.SGrid
    agree(c, "another class", A, C(node_lon=A.node_lon, node_lat=A.node_lat), False)


def h_time(c, n, m, given):
    np = c.np
    T = c.g.time.Time
    s, t = c.ints("s", n, 0, 10 ** 6), c.ints("t", m, 0, 10 ** 6)
    for x in (s, t):
        for a, b in zip(x, x[1:]):
            c.assume(a < b)
    base = c.dt("base")
    da, db = [base + c.delta(x) for x in s], [base + c.delta(x) for x in t]
    oa = c.choice("oa", 3)
    ob = c.choice("ob", 3)
    offs = (None, 0, -5)
    kw = lambda o: {} if offs[o] is None else dict(tz_offset=offs[o])  # noqa: E731
    A = T(data=da, **kw(oa))
    B = T(data=db if given == "list" else np.array(db, dtype=object), **kw(ob))
    cond = False
    if n == m:
        # the instants are in UTC once the offset is known
        same_off = (offs[oa] or 0) == (offs[ob] or 0) and (offs[oa] is None) == (offs[ob] is None)
        if same_off:
            cond = c.And(*[x == y for x, y in zip(s, t)])
    agree(c, "series", A, B, cond)
    agree(c, "itself", A, A, True)
    agree(c, "copy", A, T(A.data.copy(), tz_offset=A.tz_offset), True)
    for x in (None, 3, "time", da):
        c.check("something else", (A == x) is False and (A != x) is True)


def jobs(tier):
    q = tier == "quick"
    out = []
    for cls in ("UGrid", "Grid_U"):
        for k in range(len(FACES)):
            for b in (0, 1) if q else range(len(BND)):
                if q and cls == "Grid_U" and (k + b) % 3:
                    continue
                out.append(("h_mesh", dict(cls=cls, other=cls, k=k, b=b), {}))
        out.append(("h_mesh", dict(cls=cls, other="Grid_U" if cls == "UGrid" else "UGrid", k=1, b=1), {}))
        out.append(("h_mesh", dict(cls=cls, other=cls, k=1, b=0, dn=1), {}))
    for cls in ("SGrid", "Grid_S"):
        for what in ("nodes", "centers", "mask", "center_mask", "padding", "missing"):
            out.append(("h_curvi", dict(cls=cls, what=what), {}))
    for n in (1, 2, 3):
        for m in (1, 2, 3):
            out.append(("h_time", dict(n=n, m=m, given="list" if n != m else "array"), {}))
    return out
