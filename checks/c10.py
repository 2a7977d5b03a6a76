"""C10: memoised results equal freshly computed ones"""
from checks.c04 import field, grid

BOUNDS = ("histories of 2-3 queries with symbolic times, options and (one coordinate of the) points and of up to 12 queries with fixed points, on triangular, curvilinear and rectangular grids of 2-4 cells with "
          "symbolic values; variables with time, depth, both or neither, vector variables of 2 components; data, time, location, dimension order, boundary rules and fill value replaced between queries; grid "
          "lookups, weights and logical coordinates with points and passed indices changing, nodes and faces replaced in between; successive queries less than a millionth apart on two sides of an edge, of the rim or of the end of the time range")
OUTSIDE = ("longer histories; arrays handed over and later changed in place; replacing the coordinates of a curvilinear grid without rebuilding its tree; "
           "changing a grid's result that was not asked for as a copy; caller-supplied hashes")
ASSUMPTIONS = ["SHA-1 digests are equal exactly when the hashed bytes are equal", "each answer is compared with that of a fresh object asked once with memoisation off"]
Z = (0.0, 10.0, 30.0)


class VM:
    """what determines a variable: used to build it, to change it and to build fresh copies"""

    def __init__(self, c, kind, n=1, d=0, **kw):
        self.c, self.kind, self.n, self.d = c, kind, n, d
        _, shape, self.loc = grid(c, kind)
        lead = (() if n == 1 else (n,)) + ((d,) if d else ())
        self.shape = lead + tuple(shape)
        self.data = self.new_data("f")
        self.ts = None if n == 1 else self.axis("t", 0)
        self.kw = kw

    def new_data(self, name):
        return self.c.reals(name, self.shape, -100, 100)

    def axis(self, name, off):
        base = self.c.dt("base", 1000, 1000)
        return self.c.dtarr([base + self.c.td(f"{name}{i}", off + 100 * i, off + 100 * i) for i in range(self.n)])

    def make(self, g=None):
        c = self.c
        T = None if self.ts is None else c.g.time.Time(self.ts)
        D = c.g.depth.L_Depth(terms={"depth_levels": c.arr(Z[: self.d], float)}) if self.d else None
        v = c.g.variable.Variable(grid=g or grid(c, self.kind)[0], data=self.data, time=T, depth=D, location=self.loc, **self.kw)
        if getattr(self, "order", None):
            v.dimension_ordering = list(self.order)
        return v


def ask(c, V, P, q, mem=True, **kw):
    try:
        return V.at(P, q, _mem=mem, **kw)
    except ValueError as e:
        return e


def same(c, label, got, exp):
    if isinstance(exp, Exception) or isinstance(got, Exception):
        c.check(label + ": same outcome", type(got) is type(exp), f"{got!r} vs {exp!r}"[:200])
    else:
        c.check_eq(label, got, exp)


def opts(c, i, which):
    o = {}
    if "extrapolate" in which:
        o["extrapolate"] = c.choice(f"ex{i}", 2) == 1
    if "unmask" in which:
        o["unmask"] = c.choice(f"un{i}", 2) == 1
    if "rules" in which:
        o["surface_boundary_condition"] = c.choose(f"sbc{i}", ("mask", "extrapolate"))
        o["bottom_boundary_condition"] = c.choose(f"bbc{i}", ("mask", "extrapolate"))
    return o


def query_pts(c, i, dim, outside, variant):
    """variant: 'x' symbolic first coordinate, 'swap' a choice of fixed lists"""
    z = [5.0, 12.0, -1.0] if not outside else [50.0, 5.0, -1.0]
    if variant == "x":
        x = c.real(f"x{i}", 0.5, 1.5)
        P = [[x, 1.0, z[0]], [3.0 if not outside else 70.0, 3.0, z[1]]]
    elif variant == "one":
        P = [[c.real(f"x{i}", 0.5, 1.5), 1.0, z[0]]]
    elif variant == "fixed":
        P = [[1.0, 1.0, z[0]], [3.0, 3.0, z[1]], [70.0, 3.0, z[2]]]
    elif variant == "fixed1":
        P = [[1.0, 1.0, z[0]]]
    else:
        sets = ([[1.0, 1.0, z[0]], [3.0, 3.0, z[1]]], [[3.0, 3.0, z[1]], [1.0, 1.0, z[0]]], [[1.0, 1.0, z[0]]], [[1.0, 1.0, z[1]], [70.0, 3.0, z[2]]])
        P = sets[c.choice(f"s{i}", len(sets))]
    return c.arr([p[:dim] for p in P], float)


def h_queries(c, kind, n=1, d=0, k=2, which=(), variant="x", dim=2, outside=False, vector=False, shared=False):
    """k queries; each must equal a fresh, unmemoised answer"""
    m = [VM(c, kind, n, d)]
    if vector:
        m.append(VM(c, kind, n, d))
        m[1].data = m[1].new_data("h")
    g = grid(c, kind)[0] if shared else None

    def build(g=None):
        vs = [x.make(g) for x in m]
        return c.g.variable.VectorVariable(variables=vs) if vector else vs[0]

    V = build(g)
    for i in range(k):
        q = c.dt(f"q{i}", 900, 1300 if n > 2 else 1200) if n > 1 else None
        P = query_pts(c, i, dim, outside, variant)
        o = opts(c, i, which)
        P0 = c.snapshot(P)
        exp = ask(c, build(), P, q, mem=False, **o)
        got = ask(c, V, P, q, **o)
        same(c, f"query {i + 1}", got, exp)
        c.check_eq("caller's points", P, P0, tol=0)


def h_shape(c, kind, first, d=0, vector=False):
    """the same numbers as 2 points of 3 coordinates and as 3 points of 2"""
    m = VM(c, kind, 1, d)
    build = lambda: c.g.variable.VectorVariable(variables=[m.make(), m.make()]) if vector else m.make()
    flat = [1.0, 1.0, c.real("a", 0.5, 3), c.real("b", 0.5, 1.5), 1.0, 2.0]
    A = c.arr([flat[:3], flat[3:]], float)
    B = c.arr([flat[:2], flat[2:4], flat[4:]], float)
    V = build()
    for i, P in enumerate((A, B, A) if first == 3 else (B, A, B)):
        same(c, f"query {i + 1}", ask(c, V, P, None), ask(c, build(), P, None, mem=False))


def h_change(c, kind, what, n=2, d=0, vector=False, mem0=True):
    """query, change, query again"""
    m = [VM(c, kind, n, d)] + ([VM(c, kind, n, d)] if vector else [])
    if vector:
        m[1].data = m[1].new_data("h")
    vs = [x.make() for x in m]
    V = c.g.variable.VectorVariable(variables=vs) if vector else vs[0]

    def fresh():
        f = [x.make() for x in m]
        return c.g.variable.VectorVariable(variables=f) if vector else f[0]

    dim = 3 if d else 2
    P = c.arr([[1.0, 1.0, 50.0][:dim], [3.0, 3.0, 12.0][:dim], [70.0, 3.0, 5.0][:dim]], float)
    q = c.dt("q", 1000, 1000 + 100 * (n - 1)) if n > 1 else None
    same(c, "before", ask(c, V, P, q, mem=mem0), ask(c, fresh(), P, q, mem=False))
    who = len(vs) - 1  # the last component changes
    if what == "data":
        m[who].data = m[who].new_data("g")
        vs[who].data = m[who].data
    elif what == "time":
        for x in m:
            x.ts = x.axis("u", 60)
        V.time = c.g.time.Time(m[0].ts) if c.choice("as_time", 2) else m[0].ts
    elif what == "order":
        for x, v in zip(m, vs):
            x.order = ["depth", "time"] + (["ele"] if kind == "U" else ["lon", "lat"])
            v.dimension_ordering = list(x.order)
    elif what == "rule":
        m[who].kw["bottom_boundary_condition"] = "extrapolate"
        vs[who].bottom_boundary_condition = "extrapolate"
        if d:
            m[who].kw["surface_boundary_condition"] = "mask"
            vs[who].surface_boundary_condition = "mask"
    elif what == "fill":
        m[who].kw["fill_value"] = -7.0
        vs[who].fill_value = -7.0
    un = what == "fill"
    if un:
        V2, F2 = ask(c, V, P, q, unmask=True), ask(c, fresh(), P, q, mem=False, unmask=True)
        same(c, "after", V2, F2)
    for again in ("after", "after, again"):
        same(c, again, ask(c, V, P, q), ask(c, fresh(), P, q, mem=False))


def h_held(c, kind, what, n=2, d=0, vector=False):
    """query, change something through the object that holds it (or replace that object), query again"""
    m = [VM(c, kind, n, d)] + ([VM(c, kind, n, d)] if vector else [])
    if vector:
        m[1].data = m[1].new_data("h")
    vs = [x.make() for x in m]
    V = c.g.variable.VectorVariable(variables=vs) if vector else vs[0]
    v = vs[-1]
    deep = 3 if d else 2
    P = c.arr([[1.0, 1.0, 4.0][:deep], [3.0, 3.0, 12.0][:deep], [70.0, 3.0, 5.0][:deep]], float)
    q = c.dt("q", 1030, 1000 + 100 * (n - 1)) if n > 1 else None
    ask(c, V, P, q, extrapolate=True)

    def fresh():
        f = []
        for x, w in zip(m, vs):
            y = c.g.variable.Variable(grid=w.grid, data=x.data, time=None if n == 1 else c.g.time.Time(w.time.data), depth=w.depth, location=x.loc)
            f.append(y)
        return c.g.variable.VectorVariable(variables=f) if vector else f[0]

    for step in range(1 if what == "displacement" else 2):
        t = V.time if c.choice(f"whose{step}", 2) else v.time  # the axis of the vector may be that of its first component
        if what == "time.data":
            t.data = m[0].axis(f"u{step}", (20, -30)[step])
        elif what == "tz_offset":
            t.tz_offset = (0, 0.01)[step]
        elif what == "displacement":
            t.displacement = c.delta((25, -20)[step])
        elif what == "grid":
            g = grid(c, kind)[0]
            if kind == "U":
                g.nodes = c.arr(g.nodes, float) * (1.25, 1.5)[step]
            else:
                k = (1.25, 1.5)[step]
                G = type(g)
                kw = dict(node_lon=c.arr(g.node_lon, float) * k, node_lat=c.arr(g.node_lat, float) * k)
                g = G(**kw)
            v.grid = g
        elif what == "nodes":
            v.grid.nodes = c.arr(v.grid.nodes, float) * (1.25, 1.5)[step]
        elif what == "depth":
            v.depth = c.g.depth.L_Depth(terms={"depth_levels": c.arr([0.0, (5.0, 40.0)[step], 50.0][:d], float)})
        elif what == "levels":
            v.depth.depth_levels = c.arr([0.0, (5.0, 40.0)[step], 50.0][:d], float)
        same(c, f"change {step}", ask(c, V, P, q, extrapolate=True), ask(c, fresh(), P, q, mem=False, extrapolate=True))
        same(c, f"change {step}, again", ask(c, V, P, q, extrapolate=True), ask(c, fresh(), P, q, mem=False, extrapolate=True))


def h_long(c, kind, k, vector=False, n=2):
    """more different queries than a cache holds, then each of them again"""
    m = [VM(c, kind, n, 0)] + ([VM(c, kind, n, 0)] if vector else [])
    if vector:
        m[1].data = m[1].new_data("h")

    def build():
        f = [x.make() for x in m]
        return c.g.variable.VectorVariable(variables=f) if vector else f[0]

    V = build()
    base = c.dt("base", 1000, 1000)
    Q = [(c.arr([[0.5 + 0.1 * i, 1.0]], float), base + c.td(f"o{i}", 100 - 7 * i, 100 - 7 * i)) for i in range(k)]
    exp = []
    for i, (P, q) in enumerate(Q):
        exp.append(ask(c, build(), P, q, mem=False))
        same(c, f"query {i}", ask(c, V, P, q), exp[-1])
    for i in list(range(k)) + list(range(k - 1, -1, -1)):
        same(c, f"query {i}, again", ask(c, V, *Q[i]), exp[i])


def h_shared_grid(c, kind):
    """two variables on one grid object, at different locations or with different data"""
    g = grid(c, kind)[0]
    a = VM(c, kind, 2, 0)
    b = VM(c, kind, 2, 0)
    b.data = b.new_data("h")
    A, B = a.make(g), b.make(g)
    P = c.arr([[c.real("x", 0.5, 1.5), 1.0], [70.0, 3.0]], float)
    P2 = c.arr([[c.real("x2", 0.5, 1.5), 1.0], [70.0, 3.0]], float)
    q = c.dt("q", 1000, 1100)
    for i, (V, mm, pp) in enumerate(((A, a, P), (B, b, P), (A, a, P2), (B, b, P2), (A, a, P))):
        same(c, f"query {i}", ask(c, V, pp, q), ask(c, mm.make(), pp, q, mem=False))


def h_close(c, what, single=False):
    """queries closer together than single precision, on two sides of an edge, of the rim or of the end of the time range"""
    k = [c.int(f"k{i}", 1, 900) for i in range(3)]
    e = 2.0**-30
    sg = (1, -1, 1)
    far = [] if single else [[130.0, 0.25]]
    if what == "faces":
        nodes, faces = ((100.0, 0), (101, 0), (100, 1), (99, 0)), ((0, 1, 2), (0, 2, 3))
        g = ugrid(c, nodes, faces)
        for i in range(3):
            P = c.arr([[100.0 + sg[i] * k[i] * e, 0.25]] + far, float)
            c.check_eq(f"query {i + 1}", g.locate_faces(P), c.arr([0 if sg[i] > 0 else 1] + [-1] * len(far), int))
        return
    if what in ("rim", "vrim"):
        V = c.g.variable
        G = c.g.grids.Grid_U(nodes=c.arr(((100.0, 0), (101, 0), (100, 1), (101, 1)), float), faces=c.arr(((0, 1, 2), (1, 3, 2)), c.np.int32))
        vals = c.reals("v", (4,), 1, 100)
        mk = lambda: V.Variable(grid=G, data=vals, location="node")
        X = mk() if what == "rim" else V.VectorVariable(variables=[mk(), mk()])
        for i in range(3):
            r = X.at(c.arr([[100.0 + sg[i] * k[i] * e, 0.25]] + far, float), None)
            for j in range(2 if what == "vrim" else 1):
                c.check(f"query {i + 1}: a value inside, zero outside", (r[0, j] >= 0.5) if sg[i] > 0 else (r[0, j] == 0))
        return
    # the time range, in steps of a microsecond
    m = VM(c, "U", 2, 0)
    build = lambda: c.g.variable.VectorVariable(variables=[m.make(), m.make()]) if what == "vtime" else m.make()
    X = build()
    end = c.dt("base", 1000, 1000) + c.delta(100)
    P = c.arr([[1.0, 1.0]] + far, float)
    for i in range(3):
        q = end - c.micros(sg[i] * k[i])
        got = ask(c, X, P, q)
        c.check(f"query {i + 1}: answered in the range only", isinstance(got, Exception) == (sg[i] < 0))


def change(c, r):
    """what can be changed in a result (a write-protected one refuses)"""
    n = c.np
    edits = [lambda: r.__setitem__(0, 12345.0)]
    if isinstance(r, n.ma.MaskedArray):
        edits += [lambda: r.__setitem__(0, n.ma.masked), lambda: setattr(r, "mask", True)]
    for f in edits:
        try:
            f()
        except ValueError:
            pass


def h_copy(c, kind, vector):
    """a returned copy is changed; later answers are not"""
    m = VM(c, kind, 2, 0)
    P = c.arr([[1.0, 1.0], [70.0, 3.0]], float)
    q = c.dt("q", 1000, 1100)
    V = c.g.variable.VectorVariable(variables=[m.make(), m.make()]) if vector else m.make()
    e = ask(c, c.g.variable.VectorVariable(variables=[m.make(), m.make()]) if vector else m.make(), P, q, mem=False)
    r = ask(c, V, P, q)
    if vector:  # these are copies
        r[0, 0] = 12345.0
        same(c, "after changing the first result", ask(c, V, P, q), e)
        r = ask(c, V, P, q)
        r[0, 1] = 12345.0
        same(c, "after changing the second result", ask(c, V, P, q), e)
    else:
        for nth in ("first", "second"):
            change(c, r)
            r = ask(c, V, P, q)
            same(c, f"after changing the {nth} result", r, e)
        r = r.copy()
        r[0, 0] = 12345.0
        same(c, "after changing a copy", ask(c, V, P, q), e)


UN = ((0.0, 0), (4, 0), (0, 4), (4, 5))
UF = ((0, 1, 2), (1, 3, 2))


def ugrid(c, nodes=UN, faces=UF):
    return c.g.pyugrid.ugrid.UGrid(nodes=c.arr(nodes, float), faces=c.arr(faces, c.np.int32))


def sgrid(c):
    return grid(c, "S")[0]


def gq(c, g, fn, P, memo, ind=None, V=None):
    if fn == "locate_faces":
        return g.locate_faces(P, _memo=memo, _copy=memo)
    if fn == "interpolation_alphas":
        return g.interpolation_alphas(P, ind, _memo=memo, _copy=memo) if ind is not None else g.interpolation_alphas(P, _memo=memo, _copy=memo)
    if fn == "geo_to_logical":
        return g.geo_to_logical(P, ind, _memo=memo, _copy=memo)
    return g.interpolate_var_to_points(P, V, location="node", _memo=memo, _copy=memo)


def h_grid(c, which, fn, single=False, k=3, indices=False):
    """grid lookups: points (and indices) change from query to query"""
    make = ugrid if which == "U" else sgrid
    g = make(c)
    shape = (4,) if which == "U" else (3, 3)
    if which == "S":
        g.build_celltree()
    V = c.reals("v", shape, -100, 100)
    last = None
    for i in range(k):
        x = c.real(f"x{i}", 0.5, 1.5)
        P = c.arr([x, 1.0] if single else [[x, 1.0], [3.5, 3.0], [70.0, 3.0]], float)
        ind = None
        if indices:
            if which == "U":
                ind = c.arr([c.choice(f"i{i}", 2), 1, -1], int)
            else:
                r = c.choice(f"i{i}", 2)
                ind = c.arr([[r, 0], [0, 1], [1, 1]], int)
        f = make(c)
        if which == "S":
            f.build_celltree()
        e = gq(c, f, fn, P, False, ind, V)
        got = gq(c, g, fn, P, True, ind, V)
        c.check_eq(f"query {i + 1}", got, e)
        if not single and getattr(got, "shape", None):  # it was asked for as a copy
            change(c, got)
        c.check_eq(f"query {i + 1}, again", gq(c, g, fn, P, True, ind, V), e)
        if last is not None:
            c.check_eq("earlier query, again", gq(c, g, fn, last[0], True, last[1], V), last[2])
        last = (P, ind, e)


def h_method(c, k=3):
    """each search method answers as it does when asked first; unknown ones are refused"""
    nodes, faces = ((0.0, 0), (4, 0), (4, 4), (0, 4), (8, 0), (8, 4)), ((0, 1, 2, 3), (1, 4, 5, 2))
    make = lambda: c.g.pyugrid.ugrid.UGrid(nodes=c.arr(nodes, float), faces=c.arr(faces, c.np.int32))
    g = make()
    x = c.real("x", 0.5, 3.5)
    P = c.arr([[x, 4.5 - x], [5.0, 1.0], [70.0, 3.0]], float)
    first = {m: make().locate_faces(P, method=m) for m in ("celltree", "simple")}
    for i in range(k):
        m = c.choose(f"m{i}", ("celltree", "simple", "other"))
        if m == "other":
            c.raises("no such method", ValueError, g.locate_faces, P, method=m)
        else:
            c.check_eq(f"query {i}", g.locate_faces(P, method=m), first[m], tol=0)


def h_grid_long(c, which, fn, k):
    make = ugrid if which == "U" else sgrid
    shape = (4,) if which == "U" else (3, 3)
    g, V = make(c), c.reals("v", shape, -100, 100)
    if which == "S":
        g.build_celltree()
    f = make(c)
    if which == "S":
        f.build_celltree()
    Q = [c.arr([[0.5 + 0.125 * i, 1.0], [3.5, 3.0]] if i % 3 else [[3.5, 3.0], [0.5 + 0.125 * i, 1.0], [70.0, 1.0]], float) for i in range(k)]
    E = [gq(c, f, fn, P, False, None, V) for P in Q]
    for i in list(range(k)) + list(range(k)) + list(range(k - 1, -1, -1)):
        c.check_eq(f"query {i}", gq(c, g, fn, Q[i], True, None, V), E[i])


def h_grid_change(c, fn, what, how="set"):
    """the mesh changes between queries"""
    g = ugrid(c)
    V = c.reals("v", (4,), -100, 100)
    P = c.arr([[c.real("x", 0.5, 1.5), 1.0], [3.5, 3.0], [70.0, 3.0]], float)
    Q = c.arr([[1.0, 1.25], [3.0, 2.75]], float)
    g.locate_nodes(c.arr([[0.25, 0.25]], float))
    f = ugrid(c)
    for memo in (True, False):
        c.check_eq("before", gq(c, g, fn, P, memo, None, V), gq(c, f, fn, P, False, None, V))
    nodes, faces = UN, UF
    if what == "nodes":
        nodes = ((0.0, 0), (5, 0), (0, 5), (5, 6))
        if how == "del":
            del g.nodes
            c.raises("nothing to look in", ValueError, gq, c, g, fn, P, True, None, V)
        g.nodes = c.arr(nodes, float)
        if how == "del":  # everything went with the nodes
            g.faces = c.arr(faces, c.np.int32)
    elif what == "faces":
        faces = ((1, 3, 2), (0, 1, 2))
        if how == "del":
            del g.faces
            c.raises("nothing to look in", ValueError, gq, c, g, fn, P, True, None, V)
        g.faces = c.arr(faces, c.np.int32)
    else:
        faces = ((0, 1, 3), (0, 3, 2))
        g.faces = c.arr(faces, c.np.int32)
    f = ugrid(c, nodes, faces)
    for memo in (True, False, True):
        for pp in (P, Q):
            c.check_eq("after", gq(c, g, fn, pp, memo, None, V), gq(c, f, fn, pp, False, None, V))
    for q in ([4.5, 0.25], [4.5, 2.75]):
        c.check_eq("nearest nodes", g.locate_nodes(c.arr([q], float)), f.locate_nodes(c.arr([q], float)))


def jobs(tier):
    out = []
    deep = tier != "quick"
    out.append(("h_method", dict(k=4 if deep else 3), {}))
    for kind in ("U", "S", "R", "Uface"):
        out.append(("h_queries", dict(kind=kind), {}))
        out.append(("h_queries", dict(kind=kind, n=2, which=("extrapolate",)), dict(weight=4)))
        out.append(("h_queries", dict(kind=kind, n=2 if deep else 1, variant="swap", which=("unmask",), outside=True), dict(weight=4)))
        out.append(("h_shared_grid", dict(kind=kind), {}))
        for what in ("data", "time", "fill"):
            out.append(("h_change", dict(kind=kind, what=what), {}))
            if kind != "Uface":
                out.append(("h_change", dict(kind=kind, what=what, vector=True), {}))
        for vector in (False, True):
            out.append(("h_copy", dict(kind=kind, vector=vector), {}))
    for kind in ("U", "S"):
        out.append(("h_queries", dict(kind=kind, d=2, dim=3, which=("rules",), outside=True), dict(weight=4)))
        out.append(("h_queries", dict(kind=kind, n=2, d=2, dim=3, which=("extrapolate",)), dict(weight=6)))
        out.append(("h_queries", dict(kind=kind, n=2, vector=True, which=("extrapolate",)), dict(weight=4)))
        out.append(("h_queries", dict(kind=kind, d=2, dim=3, vector=True, variant="swap", which=("rules",) if deep else ("unmask",), outside=True), dict(weight=4)))
        out.append(("h_queries", dict(kind=kind, n=3 if deep else 2, k=3 if deep else 2, shared=True), dict(weight=9)))
        for first in (2, 3):
            for vector in (False, True):
                out.append(("h_shape", dict(kind=kind, first=first, vector=vector), {}))
        for what in ("rule", "order", "data"):
            out.append(("h_change", dict(kind=kind, what=what, d=2), {}))
            out.append(("h_change", dict(kind=kind, what=what, d=2, vector=True), {}))
        out.append(("h_long", dict(kind=kind, k=7), dict(weight=2)))
        out.append(("h_long", dict(kind=kind, k=11, vector=True), dict(weight=4)))
    out.append(("h_queries", dict(kind="R", n=2, vector=True, variant="swap"), {}))
    for what in ("faces", "rim", "vrim", "time", "vtime"):
        for single in (False, True):
            out.append(("h_close", dict(what=what, single=single), {}))
    for vector in (False, True):
        for variant in ("one", "fixed", "fixed1"):
            for kind in ("U", "S", "R", "Uface") if deep else {"one": "U", "fixed": "S", "fixed1": "U" if vector else "S"}[variant]:
                if not (vector and variant == "fixed" and not deep):
                    out.append(("h_queries", dict(kind=kind, n=2, vector=vector, variant=variant, which=("extrapolate",)), dict(weight=5)))
                out.append(("h_queries", dict(kind=kind, vector=vector, variant=variant, which=("unmask",)), {}))
        for kind in ("U", "S"):
            for variant in ("fixed", "fixed1") if deep else ("fixed1",):
                out.append(("h_queries", dict(kind=kind, d=2, dim=3, vector=vector, variant=variant, which=("rules",), outside=True), {}))
    for which in ("U", "S"):
        for fn in ("locate_faces", "interpolate_var_to_points") + (("interpolation_alphas",) if which == "U" else ("geo_to_logical",)):
            out.append(("h_grid", dict(which=which, fn=fn), dict(weight=2)))
            if fn == "locate_faces":
                out.append(("h_grid", dict(which=which, fn=fn, single=True), {}))
            if fn in ("interpolation_alphas", "geo_to_logical"):
                out.append(("h_grid", dict(which=which, fn=fn, indices=True, k=2), {}))
            out.append(("h_grid_long", dict(which=which, fn=fn, k=9), {}))
    for fn in ("locate_faces", "interpolation_alphas", "interpolate_var_to_points"):
        for what in ("nodes", "faces", "flip"):
            for how in ("set", "del") if what != "flip" else ("set",):
                out.append(("h_grid_change", dict(fn=fn, what=what, how=how), {}))
    for vector in (False, True):
        for what in ("time.data", "tz_offset", "displacement", "grid", "nodes"):
            for kind in ("U", "S", "R") if what == "grid" else ("U",) if what == "nodes" or not deep else ("U", "S", "R"):
                out.append(("h_held", dict(kind=kind, what=what, vector=vector), {}))
        for what in ("depth", "levels"):
            for kind in ("U", "S"):
                out.append(("h_held", dict(kind=kind, what=what, vector=vector, n=1, d=2), {}))
    if deep:
        for kind in ("U", "S", "R"):
            out.append(("h_queries", dict(kind=kind, n=2, k=3, which=("extrapolate", "unmask"), outside=True), dict(weight=20)))
            out.append(("h_queries", dict(kind=kind, n=3, k=3, vector=True, which=("extrapolate",)), dict(weight=20)))
    return out
