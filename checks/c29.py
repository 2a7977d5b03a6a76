"""C29: plots and the mesh inspector show the grid they are given"""
import contextlib
import io

from checks.c05 import FIXED_F, FIXED_P
from checks.common import area2, barycentric, strictly_out
from symx import plotfakes

BOUNDS = ("triangular meshes of 1-6 faces and curvilinear grids of 2x2 to 3x4 nodes with every coordinate symbolic, options and attached boundaries and face centers chosen; FVCOM files of 2-6 faces with longitudes stored from -180 or from 0, "
          "read by the inspector, whose wireframe, extent and up to 3 clicks at symbolic positions (inside a face, outside the mesh, other buttons, off the axes), over one or two sessions, are decided")
OUTSIDE = ("faces crossing the 180th meridian; quadrilateral faces (matplotlib draws triangles); rho and edge points of structured grids (options that draw nothing); looks: colours, sizes, offsets; what matplotlib makes of what it is given; larger meshes")
ASSUMPTIONS = ["matplotlib, shapely and pandas draw and store what they are given (recording stand-ins; replays use the real Triangulation, LineCollection, Polygon, shapely and pandas)", "face location as decided for C09"]

MESHES = {1: [[0, 1, 2]], 2: [[0, 1, 2], [1, 3, 2]], 3: [[0, 1, 2], [1, 3, 2], [2, 3, 4]], 4: [[0, 1, 2], [1, 3, 2], [2, 3, 4], [3, 5, 4]]}


def same(c, a, b):
    a, b = [list(p) for p in a], [list(p) for p in b]
    return len(a) == len(b) and all(len(p) == len(q) for p, q in zip(a, b)) and c.And(*[c.eq(x, y) for p, q in zip(a, b) for x, y in zip(p, q)])


def once_each(c, label, got, want):
    """the drawn things are the wanted ones, each once, in any order"""
    c.check(label + ": number", len(got) == len(want), f"{len(got)} drawn, {len(want)} wanted")
    if len(got) != len(want):
        return
    for k, w in enumerate(want):
        c.check(f"{label} {k}", c.Or(*[same(c, g, w) for g in got]))


def place(c, tris, where, k, base):
    """a symbolic point inside a face, or outside the mesh (stated in the longitudes of the file)"""
    q = [c.real(f"px{k}", *((0, 360) if base >= 0 else (-179.9, 180))), c.real(f"py{k}", -90, 90)]
    m = 1 if c.symbolic else 0.5
    if where >= 0:
        c.declare_point(q, [tuple(t) for t in tris[where]])
        c.assume(c.And(*[w * area2(tris[where]) >= m for w in barycentric(tris[where], q)]))
    else:
        for t in tris:
            c.assume(strictly_out(c, t, q, m))
        c.declare_point(q, None)
    return q


def plotting(c):
    return c.module("gridded.plotting.mpl_plotting")


def h_ugrid(c, nf, opts, centers, bounds, masked):
    np, F = c.np, MESHES[nf]
    n = nf + 2
    lon, lat = c.reals("lon", n, -180, 180), c.reals("lat", n, -90, 90)
    P = [[lon[i], lat[i]] for i in range(n)]
    nodes = np.ma.array(c.arr(P, float), mask=False) if masked else c.arr(P, float)
    kw = {}
    if centers:
        cen = c.reals("cen", (nf, 2), -90, 90)
        kw["face_coordinates"] = cen
    else:
        cen = c.arr([[sum(P[k][i] for k in f) / 3 for i in (0, 1)] for f in F], float)
    B = [[0, 1], [2, 0]] if bounds else None
    if bounds:
        kw["boundaries"] = c.arr(B, np.int32)
    g = c.g.pyugrid.ugrid.UGrid(nodes=nodes, faces=c.arr(F, np.int32), **kw)
    ax = plotfakes.Axes()
    on = {k: True for k in opts}
    plotting(c).plot_ugrid(ax, g, **on)
    drawn = []
    for x, y, t in ax.tris:
        drawn += [[(x[int(k)], y[int(k)]) for k in row] for row in np.asarray(t)]
    c.check("number of triangles", len(drawn) == nf, f"{len(drawn)}")
    if len(drawn) == nf:
        for f, d in zip(F, drawn):
            c.check("triangle", c.Or(*[same(c, [d[(i + s) % 3] for i in range(3)], [P[k] for k in f]) for s in range(3)]))
    texts = list(ax.texts)
    want = []
    if "face_numbers" in on:
        want += [(f"{i}", tuple(cen[i])) for i in range(nf)]
    if "node_numbers" in on:
        want += [(f"{i}", tuple(P[i])) for i in range(n)]
    c.check("number of labels", len(texts) == len(want), f"{len(texts)}")
    if len(texts) == len(want):
        for a, b in zip(sorted(texts[:nf] if "face_numbers" in on else [], key=lambda t: t[0]), want):
            c.check("face label", a[0] == b[0])
            c.check("place of the face label", same(c, [a[1]], [b[1]]))
        if "node_numbers" in on:
            for a, b in zip(sorted(texts[-n:], key=lambda t: t[0]), want[-n:]):
                c.check("node label", a[0] == b[0])
                c.check("place of the node label", same(c, [a[1]], [b[1]]))
    pts = [(x, y) for xs, ys in ax.points for x, y in zip(xs, ys)]
    if "nodes" in on:
        once_each(c, "nodes marked", [[p] for p in pts], [[p] for p in P])
    else:
        c.check("no nodes marked", not pts)
    segs = [s for l in ax.lines for s in l]
    if bounds:
        c.check("number of boundary segments", len(segs) == 2)
        for s, b in zip(segs, B):
            c.check("boundary segment", same(c, s, [P[k] for k in b]))
    else:
        c.check("no boundary", not segs)


def h_sgrid(c, ny, nx, nodes):
    np = c.np
    lon, lat = (c.arr([[a + 2.0 * j + i * b + 0.0 for j in range(nx)] for i in range(ny)], float) for a, b in ((-3.0, 0.5), (7.0, 3.0)))
    for a, n in ((lon, "lon"), (lat, "lat")):  # a few symbolic coordinates (their order decides the limits)
        for i, j in ((0, 0), (ny - 1, nx - 1)) if n == "lon" else ((0, nx - 1), (ny - 1, 0)):
            a[i, j] = c.real(f"{n}{i}_{j}", -80, 80)
    g = c.g.pysgrid.sgrid.SGrid(node_lon=lon, node_lat=lat)
    ax = plotfakes.Axes()
    plotting(c).plot_sgrid(ax, g, nodes=nodes)
    segs = [[tuple(p) for p in s] for l in ax.lines for s in l]
    want = [[(lon[i, j], lat[i, j]) for j in range(nx)] for i in range(ny)] + [[(lon[i, j], lat[i, j]) for i in range(ny)] for j in range(nx)]
    once_each(c, "grid line", segs, want)
    for k, a in (("x", lon), ("y", lat)):
        if k in ax.limits:
            lo, hi = ax.limits[k]
            c.check("inside the limits", c.And(*[c.And(lo <= a[i, j], a[i, j] <= hi) for i in range(ny) for j in range(nx)]))
    pts = [(x, y) for xs, ys in ax.points for x, y in zip(np.ravel(xs), np.ravel(ys))]
    if nodes:
        once_each(c, "nodes marked", [[p] for p in pts], [[(lon[i, j], lat[i, j])] for i in range(ny) for j in range(nx)])
    else:
        c.check("no nodes marked", not pts)


def write(c, P, F, cfaces=False):
    np = c.np
    p = c.tmp("mesh_a.nc")
    ds = c.nc4.Dataset(p, "w")
    n = len(P)
    for d, k in (("node", n), ("three", 3), ("nele", len(F)), ("siglev", 3), ("siglay", 2), ("time", 1)):
        ds.createDimension(d, k)

    def put(name, vals, dims, dt="f8", **at):
        v = ds.createVariable(name, dt, dims)
        for k, x in at.items():
            setattr(v, k, x)
        v[...] = vals

    put("lon", c.arr([q[0] for q in P], float), ("node",))
    put("lat", c.arr([q[1] for q in P], float), ("node",))
    nv = [[k + 1 for k in f] for f in F]
    put("nv", c.arr(nv if cfaces else [list(r) for r in zip(*nv)], int), ("nele", "three") if cfaces else ("three", "nele"), "i4")
    put("siglev", c.arr([[z] * n for z in (0.0, -0.5, -1.0)], float), ("siglev", "node"))
    put("siglay", c.arr([[z] * n for z in (-0.25, -0.75)], float), ("siglay", "node"))
    put("h", c.arr([10.0] * n, float), ("node",))
    put("time", c.arr([0], int), ("time",), "i4", units="hours since 2024-01-01 00:00:00")
    ds.close()
    return p


def shown(x):
    return x - 360 if x > 180 else x


def h_wire(c, nf, cfaces, far):
    """edges, faces and extent"""
    np, F = c.np, MESHES[nf]
    n = nf + 2
    lo, hi = (0, 360) if far else (-180, 180)
    P = [[c.real(f"x{i}", lo, hi), c.real(f"y{i}", -90, 90)] for i in range(n)]
    if nf == 1:
        c.assume(P[1][1] <= P[0][1])
        c.assume(P[0][1] <= P[2][1])
        if far:
            c.assume(P[2][0] <= P[1][0])
    p = write(c, P, F, cfaces)
    gen = plotting(c).GridGeoGenerator(p)
    faces = gen.get_triangle_faces()
    c.check("faces", [[int(k) for k in f] for f in faces] == F, f"{faces}")
    S = [(shown(x), y) for x, y in P]
    ax = plotfakes.Axes()
    gen.draw_grid_lines(ax)
    drawn = [[(x[int(k)], y[int(k)]) for k in row] for x, y, t in ax.tris for row in np.asarray(t)]
    c.check("number of triangles", len(drawn) == nf)
    for f, d in zip(F, drawn):
        c.check("triangle", c.Or(*[same(c, [d[(i + s) % 3] for i in range(3)], [S[k] for k in f]) for s in range(3)]))
    E = sorted({tuple(sorted((f[i], f[i - 1]))) for f in F for i in range(3)})
    got = [[tuple(q) for q in s.coords] for s in gen.gen_grid_lines_U().geoms]
    c.check("number of edges", len(got) == len(E), f"{len(got)}")
    for a, b in E:
        c.check("edge", c.Or(*[c.Or(same(c, g, [S[a], S[b]]), same(c, g, [S[b], S[a]])) for g in got]))
    if nf == 1 and not cfaces:
        m = c.choose("margin", [None, 0.0, 0.25])
        w, e, s, t = gen.get_max_extent() if m is None else gen.get_max_extent(m)
        m = 0.05 if m is None else m
        for k, (a, b) in enumerate(((w, e), (s, t))):
            v = [q[k] for q in S]
            mn, mx = v[0], v[0]
            for x in v[1:]:
                mn, mx = (x if x < mn else mn), (x if x > mx else mx)
            c.check_eq("lower limit", a, mn - (mx - mn) * m)
            c.check_eq("upper limit", b, mx + (mx - mn) * m)


HEAD = ["nele", "nele_lat", "nele_lon", "node1", "node1_lat", "node1_lon", "node2", "node2_lat", "node2_lon", "node3", "node3_lat", "node3_lon"]


class Event:
    def __init__(self, x, y, button=1):
        self.xdata, self.ydata, self.button = x, y, button


def h_query(c, base, sessions, spill=False):
    """clicks: a face of the fixed mesh, -1 (outside), "right" (another button), "off" (outside the axes)"""
    np = c.np
    P = [[x + base, y] for x, y in FIXED_P]
    tris = [[P[k] for k in f] for f in FIXED_F]
    p = write(c, P, FIXED_F)
    m = plotting(c)
    old = m.plt.subplots
    m.plt.subplots = plotfakes._subplots
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            for s, clicks in enumerate(sessions):
                v = m.PureMatplotlibFVCOMViewer(p, spill_location=(base, 1.0)) if spill else m.PureMatplotlibFVCOMViewer(p)
                click = v.fig.handlers.get("button_press_event", v.on_click)
                path = v.csv_path
                c.check("a table beside the mesh", str(path).endswith("mesh_a_selected_cell.csv"))
                c.check("a new session starts with the headings", c.table(path) == [HEAD])
                lim = v.ax.limits
                c.check("all nodes inside the limits", all(lim["x"][0] <= shown(x) <= lim["x"][1] and lim["y"][0] <= y <= lim["y"][1] for x, y in P))
                rows = []
                for k, w in enumerate(clicks):
                    if w == "off":
                        click(Event(None, None))
                        continue
                    q = place(c, tris, 0 if w == "right" else w, f"{s}_{k}", base)
                    x = q[0] - 360 if q[0] > 180 else q[0]
                    click(Event(x, q[1], 3 if w == "right" else 1))
                    if w == "right":
                        continue
                    info = v.grid_helper.fvcom_index_query((x, q[1]))
                    if w == -1:
                        c.check("nothing outside the mesh", info is None)
                        continue
                    c.check("a face is found", info is not None)
                    if info is None:
                        return
                    T = [(shown(a), b) for a, b in tris[w]]
                    c.check("the face", int(info["nele"]) == w, f"{info['nele']}")
                    c.check("its nodes", [int(j) for j in info["nodes"]] == FIXED_F[w])
                    c.check("where they are shown", same(c, zip(info["node_lons"], info["node_lats"]), T))
                    c.check("the click", same(c, [info["click_pos"]], [(x, q[1])]))
                    row = [w, sum(b for a, b in T) / 3, sum(a for a, b in T) / 3]
                    for j, (a, b) in zip(FIXED_F[w], T):
                        row += [j, b, a]
                    rows.append(row)
                    c.check("one face is highlighted", len(v.ax.patches) == 1)
                    xy = [tuple(t) for t in np.asarray(v.ax.patches[-1].get_xy())][:3]
                    c.check("the highlighted face", same(c, xy, T))
                    labels = [t for t in v.ax.texts if "Node:" in str(t[0])]
                    c.check("three node labels", len(labels) == 3)
                    for t, j, at in zip(labels, FIXED_F[w], T):
                        c.check("node label", t[0] == f"Node: {j}")
                        c.check("place of the node label", same(c, [t[1]], [at]))
                t = c.table(path)
                c.check("one row per selected face", t[0] == HEAD and len(t) == 1 + len(rows), f"{len(t)}")
                for a, b in zip(t[1:], rows):
                    c.check("row", same(c, [a], [b]))
    finally:
        m.plt.subplots = old


def jobs(tier):
    q = tier == "quick"
    out = []

    def J(name, **kw):
        out.append((name, kw, {}))

    for nf in (1, 2, 3, 4):
        for opts in ((), ("nodes",), ("face_numbers",), ("node_numbers",), ("nodes", "face_numbers", "node_numbers")):
            for centers in (False, True):
                if centers and "face_numbers" not in opts:
                    continue
                for bounds in (False, True):
                    J("h_ugrid", nf=nf, opts=opts, centers=centers, bounds=bounds, masked=nf % 2 == 0)
    for ny, nx in ((2, 2), (2, 3), (3, 2)) if q else ((2, 2), (2, 3), (3, 2), (3, 3), (3, 4)):
        for nodes in (False, True):
            J("h_sgrid", ny=ny, nx=nx, nodes=nodes)
    for nf in (1, 2) if q else (1, 2, 3, 4):
        for cf in (False, True):
            for far in (False, True):
                if nf == 3:
                    continue
                J("h_wire", nf=nf, cfaces=cf, far=far)
    S = [[[2]], [[0, -1, 5]], [[4, 1]], [["right", 3]], [["off", 2], [1]], [[-1]], [[3, 3]]]
    if not q:
        S += [[[a, b]] for a in range(6) for b in (-1, 0, 4)] + [[[0, 1], [2, -1], [3]]]
    for k, s in enumerate(S):
        for base in (-80.0, 200.0, 10.0) if not q or k < 4 else (200.0,):
            J("h_query", base=base, sessions=s, spill=k % 2 == 1)
    for s in ([[0]], [[3]], [[-1, 3]], [[0, 3], [0]]):  # nodes on both sides of the 180th meridian, no face across it clicked
        J("h_query", base=175.5, sessions=s)
    return out
