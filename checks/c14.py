"""C14: mesh topology derived from faces"""
BOUNDS = ("meshes of 2 faces (triangle or quadrilateral each) with every vertex number symbolic among 6, of 3 triangles with one face fixed, and of 4 faces (fan, strip and block of triangles, quadrilaterals or "
          "both) with symbolic numbering of two nodes and every winding and starting vertex of one face; unused vertices masked over arbitrary content, or -1; edges built or given in another order and direction; node coordinates symbolic")
OUTSIDE = "larger meshes; edges shared by three or more faces; faces that use a vertex twice"
ASSUMPTIONS = ["cKDTree returns the nearest row (stand-in; replays use the real one)"]
NN = 64  # vertex numbers are symbolic below this
XY = tuple((0.5 * (k % 8), 0.25 * (k // 8)) for k in range(NN))


def sides(face):
    return [(face[j], face[(j + 1) % len(face)]) for j in range(len(face))]


def is_edge(c, e, f):
    return c.Or(c.And(e[0] == f[0], e[1] == f[1]), c.And(e[0] == f[1], e[1] == f[0]))


def table(c, faces, fill):
    """the face array: short faces padded at the end; fill: value under the mask, or None for -1"""
    w = max(len(f) for f in faces)
    rows, mask, pos = [], [], []
    for f in faces:
        n = w - len(f)
        r, m, p = list(f) + [-1 if fill is None else fill] * n, [False] * len(f) + [True] * n, list(range(len(f)))
        rows.append(r), mask.append(m), pos.append(p)
    a = c.np.array(rows, dtype=c.np.int32)
    if fill is not None:
        a = c.np.ma.MaskedArray(a, mask=mask)
    return a, pos, w


def verify(c, faces, fill, given=None):
    a, pos, w = table(c, faces, fill)
    a0 = c.snapshot(a)
    g = c.g.pyugrid.ugrid.UGrid(nodes=c.arr(XY, float), faces=a)
    S = [sides(f) for f in faces]
    # which (face, position) pairs lie on one edge: decided here, so that the expectations below are plain
    owner = {}
    flat = [(i, j) for i in range(len(S)) for j in range(len(S[i]))]
    groups = []
    for i, j in flat:
        for grp in groups:
            k, l = grp[0]
            if c.fork(is_edge(c, S[i][j], S[k][l])):
                grp.append((i, j))
                break
        else:
            groups.append([(i, j)])
    for grp in groups:
        c.assume(len(grp) <= 2 and (len(grp) < 2 or grp[0][0] != grp[1][0]))
        for x in grp:
            owner[x] = grp
    g.build_face_face_connectivity()
    ff = g.face_face_connectivity
    c.check("neighbour table shape", tuple(ff.shape) == (len(faces), w))
    for i in range(len(faces)):
        used = dict(zip(pos[i], range(len(faces[i]))))
        for p in range(w):
            exp = -1
            if p in used:
                exp = ([x[0] for x in owner[i, used[p]] if x[0] != i] + [-1])[0]
            v = ff[i, p]
            if p in used or not c.is_masked(v):
                c.check_eq("neighbour", v, exp)
    g.build_edges()
    E = g.edges
    c.check("number of edges", tuple(E.shape) == (len(groups), 2), f"{E.shape} for {len(groups)}")
    for grp in groups:
        i, j = grp[0]
        c.check("every edge is listed", c.Or(*[is_edge(c, (E[r, 0], E[r, 1]), S[i][j]) for r in range(len(groups))]))
    del g.face_face_connectivity
    g.build_boundaries()
    B = g.boundaries
    single = [grp[0] for grp in groups if len(grp) == 1]
    c.check("number of boundary segments", len(B) == len(single))
    for i, j in single:
        c.check("boundary segment", c.Or(*[is_edge(c, (B[r, 0], B[r, 1]), S[i][j]) for r in range(len(single))]))
    order = list(range(len(groups)))
    if given:
        order = order[given % len(order):] + order[: given % len(order)]
        rows = [S[groups[k][0][0]][groups[k][0][1]][:: -1 if (k + given) % 2 else 1] for k in order]
        miss = given >= 5
        g.edges = c.arr(rows[1:] if miss else rows, c.np.int32)
        E = g.edges
    else:
        miss = False
    g.build_face_edge_connectivity()
    fe = g.face_edge_connectivity
    c.check("face-edge table shape", tuple(fe.shape) == (len(faces), w))
    for i in range(len(faces)):
        used = dict(zip(pos[i], range(len(faces[i]))))
        for p in range(w):
            v = fe[i, p]
            if p not in used:
                c.check("unused position has no edge", c.is_masked(v))
            elif miss and owner[i, used[p]] is groups[order[0]]:
                c.check("an edge that is not listed", c.is_masked(v))
            else:
                c.check("used position has an edge", not c.is_masked(v))
                k = [x for x in range(len(E)) if c.fork(v == x)]
                c.check("edge number in range", len(k) == 1)
                c.check("face-edge link", is_edge(c, (E[k[0], 0], E[k[0], 1]), S[i][used[p]]))
    c.check_eq("caller's faces", a, a0, tol=0)


def h_free(c, sizes, fill=None, fixed=0, given=None):
    """every vertex number symbolic (but for the first `fixed` faces)"""
    c.lazy_hash()
    faces = []
    for i, n in enumerate(sizes):
        if i < fixed:
            faces.append([c.int(f"v{i}_{j}", x, x) for j, x in enumerate((2, 0, 1, 4)[:n])])
            continue
        f = [c.int(f"v{i}_{j}", 0, NN - 1) for j in range(n)]
        for x in range(n):
            for y in range(x):
                c.assume(f[x] != f[y])
        faces.append(f)
    verify(c, faces, fill, given)


MESH = {
    "fan": ((0, 1, 2), (0, 2, 3), (0, 3, 4), (0, 4, 1)),
    "strip": ((0, 1, 2), (1, 3, 2), (2, 3, 4), (3, 5, 4)),
    "quads": ((0, 1, 3, 2), (1, 4, 6, 3), (2, 3, 7, 5), (3, 6, 8, 7)),
    "mixed": ((0, 1, 2), (1, 3, 4, 2), (3, 6, 4), (4, 5, 2)),
    "ring": ((0, 1, 5, 4), (1, 2, 6, 5), (2, 3, 7, 6), (3, 0, 4, 7)),
    "apart": ((0, 1, 2), (3, 4, 5), (4, 6, 7, 5)),
    "penta": ((0, 1, 2, 3, 4), (1, 5, 2), (2, 6, 7, 3)),
}


def h_shape(c, mesh, which, fill=None, given=None, only=None):
    """a fixed mesh whose numbers a and b are symbolic and one face's winding and start chosen"""
    c.lazy_hash()
    faces = [list(f) for f in MESH[mesh]]
    n = max(max(f) for f in faces) + 1
    a, b = c.int("a", 0, NN - 1), c.int("b", 0, NN - 1)
    c.assume(a != b)
    num = {}
    rest = [c.int(f"n{k}", 0, NN - 1) for k in range(n - 2)]
    free = [k for k in range(n) if k not in which]
    # the other numbers ascend among what a and b leave
    for x, y in zip(rest, rest[1:]):
        c.assume(x < y)
    for x in rest:
        c.assume(c.And(x != a, x != b))
    num.update(zip(which, (a, b)))
    num.update(zip(free, rest))
    k = c.choice("face", len(faces)) if only is None else only
    f = faces[k]
    s = c.choice("start", len(f))
    f = f[s:] + f[:s]
    if c.choice("wind", 2):
        f = f[::-1]
    faces[k] = f
    verify(c, [[num[v] for v in f] for f in faces], fill, given)


def h_coords(c, mesh, fill=None):
    faces = MESH[mesh]
    n = max(max(f) for f in faces) + 1
    N = [[c.real(f"x{k}", -100, 100), c.real(f"y{k}", -100, 100)] for k in range(n)]
    a, pos, w = table(c, faces, fill)
    g = c.g.pyugrid.ugrid.UGrid(nodes=c.arr(N, float), faces=a)
    if c.choice("lines first", 2):
        h = c.g.pyugrid.ugrid.UGrid(nodes=c.arr(N, float), faces=a)
        lines, E = h.get_lines(), h.edges
        c.check("one line per edge", E is not None and tuple(lines.shape) == (len({frozenset(e) for f in faces for e in sides(f)}), 2, 2))
        c.check_eq("lines of a mesh without edges so far", lines, c.arr([[N[int(e[0])], N[int(e[1])]] for e in E], float), tol=0)
        c.check("one per side", {frozenset((int(e[0]), int(e[1]))) for e in E} == {frozenset(e) for f in faces for e in sides(f)})
        return
    g.build_face_coordinates()
    mean = lambda f: [sum(N[v][d] for v in f) / len(f) for d in (0, 1)]
    c.check_eq("face coordinates", g.face_coordinates, c.arr([mean(f) for f in faces], float))
    g.build_edges()
    g.build_edge_coordinates()
    c.check_eq("edge coordinates", g.edge_coordinates, c.arr([mean([int(g.edges[r, 0]), int(g.edges[r, 1])]) for r in range(len(g.edges))], float))
    g.build_boundaries()
    g.build_boundary_coordinates()
    c.check_eq("boundary coordinates", g.boundary_coordinates, c.arr([mean([int(g.boundaries[r, 0]), int(g.boundaries[r, 1])]) for r in range(len(g.boundaries))], float))
    c.check_eq("lines", g.get_lines(), c.arr([[N[int(g.edges[r, 0])], N[int(g.edges[r, 1])]] for r in range(len(g.edges))], float))


def h_again(c, order):
    """the faces are replaced and everything derived again"""
    g = c.g.pyugrid.ugrid.UGrid(nodes=c.arr(XY, float), faces=c.arr([MESH["fan"], MESH["strip"]][order], c.np.int32))
    f = c.g.pyugrid.ugrid.UGrid(nodes=c.arr(XY, float), faces=c.arr([MESH["strip"], MESH["fan"]][order], c.np.int32))
    for x in (g, f):
        x.build_edges(), x.build_face_face_connectivity(), x.build_boundaries(), x.build_face_edge_connectivity()
    g.faces = c.snapshot(f.faces)
    g.build_edges(), g.build_boundaries(), g.build_face_edge_connectivity()
    for n in ("edges", "boundaries", "face_edge_connectivity"):
        c.check_eq(n, getattr(g, n), getattr(f, n))


def h_stale(c, mesh, what):
    """tables that belong to what was there before are gone, or right, once their faces or edges change"""
    faces = MESH[mesh]
    a, pos, w = table(c, faces, None)
    g = c.g.pyugrid.ugrid.UGrid(nodes=c.arr(XY, float), faces=a)
    g.build_edges()
    first = [(int(e[0]), int(e[1])) for e in g.edges]
    s = c.choice("shift", 3) + 1
    g.edges = c.arr(first[s:] + first[:s], c.np.int32)
    g.build_face_face_connectivity(), g.build_face_edge_connectivity(), g.build_edge_coordinates()
    if what == "edges":
        g.edges = c.arr(first[::-1], c.np.int32)
    elif what == "rebuilt":
        g.build_edges()
    elif what == "no edges":
        g.edges = None
    elif what == "edges deleted":
        del g.edges
    elif what == "faces":
        g.faces = c.arr(faces[::-1], c.np.int32)
    elif what == "no faces":
        g.faces = None
        if c.choice("edges given", 2):
            g.edges = c.arr(first, c.np.int32)
            g.build_edges()
            c.check("no faces, no edges", g.edges is None)
    elif what == "faces deleted":
        del g.faces
    elif what == "links deleted":
        del g.face_edge_connectivity
        c.check("no links", g.face_edge_connectivity is None)
        del g.face_face_connectivity
        c.check("no neighbours", g.face_face_connectivity is None)
    elif what == "nodes deleted":
        del g.nodes
        c.check("nothing without nodes", len(g.nodes) == 0 and g.faces is None and g.edges is None and g.boundaries is None)
        return
    elif what == "shapes":
        n, m = len(faces), len(faces[0])
        for name in ("face_edge_connectivity", "face_face_connectivity"):
            was = getattr(g, name)
            for shape in ((n + 1, m), (n, m + 1), (n, m - 1), (m, n), (n * m,)):
                if shape != (n, m):
                    c.raises("table of another shape", ValueError, setattr, g, name, c.np.zeros(shape, dtype=int))
            c.check("kept", getattr(g, name) is was)
            T = [[c.int(f"{name[5]}{i}{j}", 0, 3) if i + j < 3 else 1 for j in range(m)] for i in range(n)]
            setattr(g, name, T)
            c.check_eq("as given", getattr(g, name), c.arr(T, int), tol=0)
            setattr(g, name, None)
            c.check("taken away", getattr(g, name) is None)
        return
    fe, ff, ec = g.face_edge_connectivity, g.face_face_connectivity, g.edge_coordinates
    F = None if g.faces is None else [[int(x) for x in f] for f in g.faces]
    E = None if g.edges is None else [(int(e[0]), int(e[1])) for e in g.edges]
    if what.startswith("edges") or what == "rebuilt":
        c.check("neighbours stay", ff is not None)
    if fe is not None:
        c.check("links of something", F is not None and E is not None)
        for i, f in enumerate(F):
            for j in range(w):
                e = E[int(fe[i, j])]
                c.check("face-edge link", set(e) == {f[j], f[(j + 1) % w]}, f"{e} {f} {j}")
    if ff is not None:
        c.check("neighbours of something", F is not None)
        for i, f in enumerate(F):
            for j in range(w):
                k = int(ff[i, j])
                both = [x for x in range(len(F)) if x != i and len(set(F[x]) & set(f)) >= 2]
                c.check("neighbour", k == -1 or k in both)
    if ec is not None and what == "rebuilt":
        c.check_eq("edge coordinates", ec, c.arr([[(XY[a][d] + XY[b][d]) / 2 for d in (0, 1)] for a, b in E], float))


def jobs(tier):
    deep = tier != "quick"
    out = []
    for sizes in ((3, 3), (3, 4), (4, 3), (4, 4)):
        for fill in ((None,) if sizes[0] == sizes[1] else (None, 999999)):
            out.append(("h_free", dict(sizes=sizes, fill=fill, fixed=0 if deep or sizes == (3, 3) else 1), dict(weight=10)))
    out.append(("h_free", dict(sizes=(3, 3, 3), fixed=1 if deep else 2, given=1), dict(weight=10)))
    out.append(("h_free", dict(sizes=(4, 3, 4 if deep else 3), fixed=2, fill=-999, given=2), dict(weight=10)))
    out.append(("h_free", dict(sizes=(3, 4), fixed=1, fill=0, given=3), dict(weight=10)))
    k = 0
    for mesh in ("fan", "quads") if not deep else ("fan", "strip", "quads", "ring"):
        for what in ("edges", "rebuilt", "no edges", "edges deleted", "faces", "no faces", "faces deleted", "links deleted", "nodes deleted", "shapes"):
            out.append(("h_stale", dict(mesh=mesh, what=what), {}))
    for mesh in MESH:
        fills = (None, 999999, 0) if len({len(f) for f in MESH[mesh]}) > 1 else (None,)
        for fill in fills:
            out.append(("h_coords", dict(mesh=mesh, fill=fill), {}))
            for given in (None, 2, 5) if deep or mesh in ("fan", "mixed") else ((2, 5, None)[k % 3],):
                for which in ((0, 2), (1, 4)) if deep else ((1, 3),):
                    k += 1
                    out.append(("h_shape", dict(mesh=mesh, which=which, fill=fill, given=given, only=None if deep else k % len(MESH[mesh])), dict(weight=5)))
    for o in (0, 1):
        out.append(("h_again", dict(order=o), {}))
    return out
