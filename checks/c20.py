"""C20: verdat files"""
BOUNDS = ("boundaries of 3-6 segments over symbolic node numbers (every relative order of the numbers), 1-3 loops and open chains, in every direction and order of the segments for up to 4 segments and in many for more; "
          "datasets of 3-8 nodes with symbolic coordinates and depths, 0-2 boundaries given or derived from 1-8 triangles, every unit alias, no unit and no depth; files with symbolic numbers, 0-3 boundaries, with and without the boundary section")
OUTSIDE = "more points and boundaries; boundaries that share points or have fewer than 2 points; more digits than the format holds (6 decimals of a degree, 3 of a depth)"
ASSUMPTIONS = ["a number written with P decimals is read back within half a unit of the last one (text model; replays use real text files)"]
FEET = ("foot", "ft", "feet")
METER = ("meter", "m", "meters", "metre")


def segments(loops, chains=()):
    s = []
    k = 0
    for n in loops:
        s += [(k + i, k + (i + 1) % n) for i in range(n)]
        k += n
    for n in chains:
        s += [(k + i, k + i + 1) for i in range(n - 1)]
        k += n
    return s, k


def shuffle(xs, seed):
    """a fixed permutation"""
    xs, out = list(xs), []
    while xs:
        seed = (seed * 1103515245 + 12345) % 2**31
        out.append(xs.pop((seed >> 8) % len(xs)))
    return out


def h_order(c, loops, chains=(), seed=0, flips=None, fixed=0):
    """node numbers are symbolic: the code may order the segments by them"""
    segs, n = segments(loops, chains)
    lab = [c.int(f"n{i}", 0, 50) if i >= fixed else 10 * i + 3 for i in range(n)]
    for i in range(n):
        for j in range(i):
            c.assume(lab[i] != lab[j])
    fl = [c.choice(f"f{i}", 2) == 1 for i in range(len(segs))] if flips is None else [(flips >> i) & 1 for i in range(len(segs))]
    rows = [(lab[b], lab[a]) if f else (lab[a], lab[b]) for f, (a, b) in zip(fl, segs)]
    B = c.arr(shuffle(rows, seed) if seed else rows, int)
    B0 = c.snapshot(B)
    closed, opened = c.g.io.verdat.order_boundary_segments(B)
    c.check_eq("caller's segments", B, B0, tol=0)
    check_chains(c, closed, opened, lab, loops, chains)


def which(c, x, lab):
    for i, v in enumerate(lab):
        if c.fork(x == v):
            return i
    c.fail("a point of the boundaries", f"{x}")


def check_chains(c, closed, opened, lab, loops, chains):
    if c.symbolic:
        closed, opened = [list(b) for b in closed], [list(b) for b in opened]
    got = [[which(c, x, lab) for x in b] for b in closed]
    gop = [[which(c, x, lab) for x in b] for b in opened]
    c.check("number of closed boundaries", len(got) == len(loops), f"{got}")
    c.check("number of open boundaries", len(gop) == len(chains), f"{gop}")
    k = 0
    for n in loops:
        mine = [b for b in got if k in b]
        ok = len(mine) == 1 and sorted(mine[0]) == list(range(k, k + n))
        c.check("a boundary once, with its own points", ok, f"{got}")
        if ok:
            b = mine[0]
            c.check("consecutive", all((b[i] - b[i - 1]) % n in (1, n - 1) for i in range(n)), f"{b}")
            if n > 2:
                c.check("one way round", len({(b[i] - b[i - 1]) % n for i in range(n)}) == 1, f"{b}")
        k += n
    for n in chains:
        mine = [b for b in gop if k in b]
        c.check("an open boundary once, in order", len(mine) == 1 and mine[0] in (list(range(k, k + n)), list(range(k + n - 1, k - 1, -1))), f"{gop}")
        k += n


def dataset(c, nodes, depth, units, bounds=None, faces=None, name="depth", kind="array", bounds_as="array"):
    G = c.g.grids.Grid_U
    kw = {}
    if bounds is not None:
        kw["boundaries"] = bounds if bounds_as == "list" else c.arr(bounds, int).reshape(-1, 2)
    if faces is not None:
        kw["faces"] = c.arr(faces, int)
    g = G(nodes=c.arr(nodes, float), **kw)
    d = list(depth) if kind == "list" else c.arr(depth, float)
    V = c.g.variable.Variable(name=name, units=units, data=d, location="node", grid=g)
    return c.g.Dataset(grid=g, variables={name: V})


def loops_of(b):
    """the loops of boundary segments (pairs of plain ints), each as a list of points, following the order of the pairs"""
    nxt = {}
    for x, y in b:
        nxt.setdefault(x, []).append(y)
    out, seen = [], set()
    for x, _ in b:
        if x in seen:
            continue
        loop, y = [x], nxt[x][0]
        seen.add(x)
        while y not in seen:
            loop.append(y)
            seen.add(y)
            y = nxt[y][0] if y in nxt else y
        out.append(loop)
    return out


def ints(c, a):
    return [(int(r[0]), int(r[1])) for r in a]


def match(c, ds, nodes, depth, cells, tol=1):
    """loaded point -> original point: the points lie in separate cells, so the match is by interval"""
    N = ds.grid.nodes
    c.check("number of points", len(N) == len(nodes), f"{len(N)}")
    if len(N) != len(nodes):
        return None
    perm = []
    D = ds.variables["depth"].data
    c.check("number of depths", len(D) == len(nodes))
    for k in range(len(nodes)):
        hit = None
        for i in range(len(nodes)):
            if c.fork(c.And(N[k, 0] > cells[i] - 2, N[k, 0] < cells[i] + 3)):
                hit = i
                break
        if hit is None:
            c.fail("a point of the mesh", f"{N[k]}")
            return None
        perm.append(hit)
        h = 0.51e-6 * tol
        for d in (0, 1):
            c.check("coordinate to 6 decimals", c.And(N[k, d] - nodes[hit][d] <= h, nodes[hit][d] - N[k, d] <= h))
        c.check("depth to 3 decimals", c.And(D[k] - depth[hit] <= 0.51e-3 * tol, depth[hit] - D[k] <= 0.51e-3 * tol))
    c.check("each point once", sorted(perm) == list(range(len(nodes))), f"{perm}")
    return perm


def same_loops(c, got, exp):
    norm = lambda b: frozenset(frozenset((b[i], b[i - 1])) for i in range(len(b)))
    c.check("the same boundaries", sorted(map(sorted, [[tuple(sorted(e)) for e in norm(b)] for b in got])) == sorted(map(sorted, [[tuple(sorted(e)) for e in norm(b)] for b in exp])), f"{got} vs {exp}")


def h_roundtrip(c, n, loops=(), order=None, units="m", seed=0, faces=None, expect=None, name="depth", kind="array", wide=False, bounds_as="array"):
    """order: position of each boundary point among the nodes"""
    cells = [-170 + 30 * i if not wide else (100000 if i == 0 else -10 * i) for i in range(n)]
    nodes = [[c.real(f"x{i}", cells[i], cells[i] + 1), c.real(f"y{i}", -90, 90)] for i in range(n)]
    depth = [c.real(f"d{i}", -100, 11000) for i in range(n)]
    segs, k = segments(loops)
    order = list(range(n)) if order is None else list(order)
    exp = []
    j = 0
    for m in loops:
        exp.append([order[j + i] for i in range(m)])
        j += m
    rows = shuffle([(order[a], order[b]) for a, b in segs], seed) if seed else [(order[a], order[b]) for a, b in segs]
    if seed:
        rows = [(b, a) if (seed >> i) & 1 else (a, b) for i, (a, b) in enumerate(rows)]
    ds = dataset(c, nodes, depth, units, None if faces is not None else rows, faces, name=name, kind=kind, bounds_as=bounds_as)
    if faces is not None:
        exp = [list(x) for x in expect]
    n0, d0 = c.snapshot(ds.grid.nodes), c.snapshot(c.arr(list(depth), float))
    f = c.tmp("a.verdat")
    c.g.io.save_verdat(ds, f, depth_var=name) if name != "depth" else c.g.io.save_verdat(ds, f)
    c.check_eq("the dataset saved: nodes", ds.grid.nodes, n0, tol=0)
    c.check_eq("the dataset saved: depths", c.arr(list(ds.variables[name].data), float), d0, tol=0)
    r = c.g.io.load_verdat(f)
    u = r.variables["depth"].units
    want = "feet" if units.strip().lower() in FEET else "meters" if units.strip().lower() in METER else ""
    c.check("units", u == want, f"{u!r}")
    perm = match(c, r, nodes, depth, cells)
    if perm is None:
        return
    same_loops(c, [[perm[x] for x in b] for b in loops_of(ints(c, r.grid.boundaries))], exp)
    # once more: nothing left to reorder
    f2 = c.tmp("b.verdat")
    c.g.io.save_verdat(r, f2)
    r2 = c.g.io.load_verdat(f2)
    p2 = match(c, r2, nodes, depth, cells, tol=2)
    if p2 is not None:
        same_loops(c, [[p2[x] for x in b] for b in loops_of(ints(c, r2.grid.boundaries))], exp)
    c.check("units again", r2.variables["depth"].units == want, f"{r2.variables['depth'].units!r}")


def h_nodepth(c, n, loops):
    cells = [-170 + 30 * i for i in range(n)]
    nodes = [[c.real(f"x{i}", cells[i], cells[i] + 1), c.real(f"y{i}", -90, 90)] for i in range(n)]
    ds = dataset(c, nodes, [5.0] * n, "m", segments(loops)[0])
    f = c.tmp("a.verdat")
    c.g.io.save_verdat(ds, f, depth_var=None)
    r = c.g.io.load_verdat(f)
    c.check("no units", r.variables["depth"].units == "")
    perm = match(c, r, nodes, [1.0] * n, cells)


def h_load(c, n, ends, units="METERS", tail="", section=True, pad=""):
    """a file written by hand"""
    vals = [[c.real(f"x{i}", -180, 180), c.real(f"y{i}", -90, 90), c.real(f"d{i}", 0, 11000)] for i in range(n)]
    f = c.tmp("a.verdat")
    with c.open(f, "w") as o:
        o.write("DOGS" + (" " + units if units else "") + "\n")
        for i, (x, y, d) in enumerate(vals):
            o.write(f"{pad}{i + 1}, {x:.6f},{y:14.6f}, {d:8.3f}{pad}\n")
        o.write("0, 0.0, 0.0, 0.0\n")
        if section:
            o.write(f"{len(ends)}\n" + "".join(f"{pad}{e}\n" for e in ends))
        o.write(tail)
    r = c.g.io.load_verdat(f)
    c.check("units", r.variables["depth"].units == units.lower())
    N, D = r.grid.nodes, r.variables["depth"].data
    c.check("points", tuple(N.shape) == (n, 2) and len(D) == n)
    for i, (x, y, d) in enumerate(vals):
        for a, b, h in ((N[i, 0], x, 0.51e-6), (N[i, 1], y, 0.51e-6), (D[i], d, 0.51e-3)):
            c.check("value as in the file", c.And(a - b <= h, b - a <= h))
    exp, s = [], 0
    for e in ends:
        exp += [(i, i + 1 if i + 1 < e else s) for i in range(s, e)]
        s = e
    B = r.grid.boundaries
    c.check("boundary segments in order", (ints(c, B) if B is not None else []) == exp, f"{B}")


TRI = {
    "one": (3, ((0, 1, 2),), ((0, 1, 2),)),
    "two": (4, ((0, 1, 2), (1, 3, 2)), ((0, 1, 3, 2),)),
    "two cw": (4, ((0, 2, 1), (1, 2, 3)), ((0, 1, 3, 2),)),
    "inner": (5, ((0, 1, 4), (1, 2, 4), (2, 3, 4), (3, 0, 4)), ((0, 1, 2, 3),)),
    "apart": (6, ((0, 1, 2), (3, 4, 5)), ((0, 1, 2), (3, 4, 5))),
    "apart mixed": (6, ((0, 4, 2), (3, 1, 5)), ((0, 4, 2), (3, 1, 5))),
    "loose": (5, ((4, 1, 3),), ((1, 3, 4),)),
    # ring around a triangular hole
    "ring": (6, ((0, 1, 3), (1, 4, 3), (1, 2, 4), (2, 5, 4), (2, 0, 5), (0, 3, 5)), ((0, 1, 2), (3, 4, 5))),
}


def jobs(tier):
    deep = tier != "quick"
    out = []
    add = lambda h, w=1, **kw: out.append((h, kw, dict(weight=w)))
    for loops, chains in (((3,), ()), ((4,), ()), ((2,), ()), ((), (3,)), ((), (4,)), ((), (2,))):
        for seed in (0, 1, 2):
            add("h_order", 3, loops=loops, chains=chains, seed=seed)
    more = [((5,), ()), ((3, 3), ()), ((), (5,)), ((3,), (3,)), ((2, 3), ()), ((), (3, 2)), ((3,), (2,)), ((6,), ()), ((4, 3), ()), ((3, 3, 3), ()), ((7,), ()), ((3,), (4,)), ((), (2, 2, 2))]
    for q, (loops, chains) in enumerate(more):
        m = len(segments(loops, chains)[0])
        nn = segments(loops, chains)[1]
        for s in range(40 if deep else 9):
            add("h_order", 4, loops=loops, chains=chains, seed=s + 1, flips=(s * 2654435761 >> 7) % (1 << m) if s else (1 << m) - 1, fixed=max(0, nn - (5 if deep else 4 if nn < 8 else 3)))
    aliases = FEET + METER + (" Meters ", "FT", "")
    k = 0
    for n, loops, order in ((3, (3,), (0, 1, 2)), (5, (3,), (4, 1, 2)), (6, (3, 3), (0, 4, 2, 5, 1, 3)), (7, (4,), (6, 0, 3, 2)), (8, (4, 3), (7, 0, 6, 1, 5, 2, 4)), (4, (), ()), (6, (5,), (5, 0, 4, 1, 3)), (10, (9,), (9, 0, 8, 1, 7, 2, 6, 4, 5)), (11, (5, 4), (10, 0, 9, 1, 8, 7, 2, 6, 3))):
        rest = [i for i in range(n) if i not in order]
        for seed in range(8 if deep else 4):
            k += 1
            add("h_roundtrip", 2, n=n, loops=loops, order=tuple(order) + tuple(rest), units=aliases[k % len(aliases)], seed=seed, kind=("array", "list")[k % 2], name=("depth", "bathymetry")[k % 5 == 0], wide=k % 4 == 3, bounds_as=("array", "list")[k % 3 == 0])
    for q, a in enumerate(aliases):
        add("h_roundtrip", n=4, loops=(3,), units=a)
    for t, (n, faces, expect) in TRI.items():
        add("h_roundtrip", 2, n=n, faces=faces, expect=expect, units=aliases[len(t) % 7])
    for n, loops in ((3, (3,)), (5, (4,)), (6, (3, 3)), (4, ())):
        add("h_nodepth", n=n, loops=loops)
    for q, (n, ends) in enumerate(((3, (3,)), (5, (3,)), (6, (3, 6)), (7, (3, 5)), (4, ()), (8, (3, 6, 8)), (1, ()), (5, (2, 5)))):
        for u in ("METERS", "feet", "", "Fathoms"):
            k += 1
            add("h_load", n=n, ends=ends, units=u, tail=("", "\n", "\n\n")[k % 3], pad=("", "  ")[k % 2])
        if not ends:
            add("h_load", n=n, ends=ends, units="", section=False)
            add("h_load", n=n, ends=ends, units="", section=False, tail="\n")
    return out
