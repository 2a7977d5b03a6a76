"""C12: terrain-following depths"""
from checks.c11 import RULES

BOUNDS = ("ROMS (both transforms) and FVCOM coordinates with 2-4 levels (thorough: 5), bottom-up or top-down; symbolic bathymetry and surface elevation at every node, symbolic critical "
          "depth and query depths; fixed grids (3x3 curvilinear, two triangles) and horizontal positions, one or two points, in or off the grid; stretching fixed or (profiles) symbolic; depth profiles per level or per layer")
OUTSIDE = "more levels; dry columns (total depth not positive); points off a triangular mesh; binary rounding"
ASSUMPTIONS = ["the horizontal interpolation of bathymetry, elevation and sigma is taken from a separate variable holding the same field (its rightness is decided elsewhere)"]

# (s, stretching) tables, bottom to top
TAB = {2: ([-1.0, 0.0], [-1.0, 0.0]), 3: ([-1.0, -0.5, 0.0], [-1.0, -0.25, 0.0]), 4: ([-1.0, -0.75, -0.25, 0.0], [-1.0, -0.5, -0.125, 0.0]),
       5: ([-1.0, -0.75, -0.5, -0.25, 0.0], [-1.0, -0.625, -0.25, -0.125, 0.0])}


def sgrid(c):
    lon = c.arr([[0.0, 2, 5], [0, 2, 5], [0, 2, 5]], float)
    lat = c.arr([[0.0, 0, 0], [4, 4, 4], [6, 6, 6]], float)
    return c.g.grids.Grid_S(node_lon=lon, node_lat=lat), (3, 3)


def ugrid(c):
    nodes = c.arr([[0, 0], [4, 0], [0, 4], [4, 4]], float)
    return c.g.grids.Grid_U(nodes=nodes, faces=c.arr([[0, 1, 2], [1, 3, 2]], c.np.int32)), (4,)


POS = [(1.0, 1.0), (3.5, 3.0), (50.0, 50.0)]


def wet(c, name, shape, lo, hi):
    """a field whose nodes are symbolic"""
    return c.reals(name, shape, lo, hi)


def masked_like(c, a):
    return c.np.ma.MaskedArray(a, mask=c.np.zeros(a.shape, dtype=bool))


def setup(c, kind, n, vt, order, zt=False, sym_s=False, ma=True):
    """the depth object and a function giving (h, zeta, sigma list) per point"""
    G = sgrid if kind == "ROMS" else ugrid
    g, shape = G(c)
    V, T = c.g.variable.Variable, c.g.time.Time
    h = wet(c, "h", shape, 1, 5000)
    mk = (lambda a: masked_like(c, a)) if ma else (lambda a: a)
    bath = V(grid=g, data=mk(h), location="node", name="bathymetry")
    time = None
    if zt:
        t0, t1 = c.dt("t0", 0, 10**6), c.dt("t1", 0, 10**6)
        c.assume(t0 < t1)
        zs = [wet(c, f"zt{k}", shape, -2, 2) for k in range(2)]
        zeta = V(grid=g, data=mk(c.np.stack(zs)), time=T(c.dtarr([t0, t1])), location="node", name="zeta")
        time = c.dt("q", 0, 10**6)
        c.assume(c.And(t0 <= time, time <= t1))
    else:
        zeta = V(grid=g, data=mk(wet(c, "zeta", shape, -2, 2)), location="node", name="zeta")
    s, C = TAB[n]
    if sym_s:
        s = [-1.0] + [c.real(f"s{k}", -1, 0) for k in range(1, n - 1)] + [0.0]
        C = [-1.0] + [c.real(f"C{k}", -1, 0) for k in range(1, n - 1)] + [0.0]
    if order == "down":  # surface first
        s, C = s[::-1], C[::-1]
    hc = None
    if kind == "ROMS":
        hc = c.real("hc", 0, 500)
        mid = lambda x: [(a + b) / 2 for a, b in zip(x, x[1:])]
        terms = dict(s_w=c.arr(s, float), Cs_w=c.arr(C, float), s_rho=c.arr(mid(s), float), Cs_r=c.arr(mid(C), float), hc=hc)
        D = c.g.depth.ROMS_Depth(time=zeta.time, grid=g, bathymetry=bath, zeta=zeta, terms=terms, vtransform=vt)
        sig = None
    else:
        if sym_s:
            sig = [[-1.0] * 4] + [[c.real(f"sig{k}_{j}", -1, 0) for j in range(4)] for k in range(1, n - 1)] + [[0.0] * 4]
        else:
            sig = [[x, y, (x + y) / 2, x] for x, y in zip(TAB[n][0], TAB[n][1])]
        if order == "down":
            sig = sig[::-1]
        lev = c.arr(sig, float)
        lay = (lev[1:] + lev[:-1]) / 2
        D = c.g.depth.FVCOM_Depth(time=zeta.time, grid=g, bathymetry=bath, zeta=zeta, terms=dict(siglev=mk(lev), siglay=mk(lay)), vtransform=vt)

    def column(xy):
        """h, zeta and the defining formula's S per level at one position"""
        g2, _ = G(c)
        P = c.arr([list(xy)], float)
        hv = V(grid=g2, data=h, location="node").at(P, None)[0, 0]
        if zt:
            a, b = (V(grid=g2, data=z, location="node").at(P, None, _mem=False)[0, 0] for z in zs)
            f = c.secs(time - t0) / c.secs(t1 - t0)
            zv = a + (b - a) * f
        else:
            zv = V(grid=g2, data=zeta.data, location="node").at(P, None, _mem=False)[0, 0]
        if sig:
            sv = [V(grid=g2, data=c.arr(row, float), location="node").at(P, None, _mem=False)[0, 0] for row in sig]
            return hv, zv, sv
        return hv, zv, list(zip(s, C))

    return D, time, column, hc


def profile(kind, vt, hc, col):
    """[(numerator, denominator)]: depth below the surface of each level"""
    h, z, lv = col
    out = []
    for x in lv:
        if kind != "ROMS":
            out.append((-(z + h) * x, 1))
        elif vt == 2:
            out.append((-(z + h) * (hc * x[0] + h * x[1]), hc + h))
        else:
            out.append((-(hc * x[0] + (h - hc) * x[1]) * (h + z), h))
    return out


def h_profile(c, kind, vt, n, order, zt=False, sym_s=False, layer=False, ma=True):
    D, time, column, hc = setup(c, kind, n, vt, order, zt, sym_s, ma)
    P = c.arr([[x, y, 1.0] for x, y in POS[:2]], float)
    if layer:
        got = D.get_depth_profile(P, time, data_shape=(n - 1,))
    else:
        got = D.get_depth_profile(P, time)
    c.check("one profile per point", tuple(got.shape) == (2, n - 1 if layer else n))
    for i in range(2):
        col = column(POS[i])
        if layer:
            h, z, lv = col
            lv = [(a + b) / 2 if kind != "ROMS" else ((a[0] + b[0]) / 2, (a[1] + b[1]) / 2) for a, b in zip(lv, lv[1:])]
            col = (h, z, lv)
        for k, (num, den) in enumerate(profile(kind, vt, hc, col)):
            x = got[i, k]
            c.check("profile not masked", not c.is_masked(x))
            c.check_eq("profile follows the formula", x * den, num)
        if not layer:
            top, bot = (n - 1, 0) if order == "up" else (0, n - 1)
            c.check_eq("one end is the surface", got[i, top], 0.0)
            c.check_eq("the other end is the floor", got[i, bot], col[0] + col[1])


def h_alphas(c, kind, vt, n, order, where, surf, bott, how="kw", zt=False, layer=False, ma=True):
    D, time, column, hc = setup(c, kind, n, vt, order, zt, False, ma)
    npts = len(where)
    d = [c.real(f"d{i}", -100, 6000) for i in range(npts)]
    P = c.arr([[POS[w][0], POS[w][1], d[i]] for i, w in enumerate(where)], float)
    P0 = c.snapshot(P)
    cols = [column(POS[w]) if w < 2 else None for w in where]
    profs = []
    for col in cols:
        if col is None:
            profs.append(None)
            continue
        h, z, _ = col
        tot = h + z
        c.assume(tot > 0.5)
        c.assume(h > 0)
        if hc is not None:  # products the solver needs
            c.assume(tot * hc >= 0)
            c.assume(tot * h > 0)
            if vt == 1:
                c.assume(hc < h)
                c.assume(tot * (h - hc) > 0)
        if layer:
            col = col[:2] + ([(a + b) / 2 if kind != "ROMS" else ((a[0] + b[0]) / 2, (a[1] + b[1]) / 2) for a, b in zip(col[2], col[2][1:])],)
        profs.append(profile(kind, vt, hc, col))
    if how == "kw":
        call = dict(surface_boundary_condition=surf, bottom_boundary_condition=bott)
    else:
        D.default_surface_boundary_condition, D.default_bottom_boundary_condition = surf, bott
        call = {}
    I, AL = D.interpolation_alphas(P, time, (n - 1 if layer else n,), **call)
    c.check("one answer per point", len(I) == npts and len(AL) == npts)
    for i in range(npts):
        if cols[i] is None:
            c.check("off the grid: masked", c.is_masked(I[i]) and c.is_masked(AL[i]))
            continue
        (judge_layers if layer else judge)(c, profs[i], d[i], cols[i][0] + cols[i][1], I[i], AL[i], surf, bott, order)
    c.check_eq("caller's points", P, P0, tol=0)


def judge(c, prof, d, tot, idx, alpha, surf, bott, order):
    n = len(prof)
    masked = c.is_masked(idx)
    c.check("index and weight masked together", masked == c.is_masked(alpha))
    above, below = c.fork(d < 0), c.fork(d > tot)
    if above or below:
        rule = surf if above else bott
        c.check("outside: masked exactly under the mask rule", masked == (rule == "mask"))
    elif c.fork(d == 0) or c.fork(d == tot):
        rule = surf if c.fork(d == 0) else bott
        c.check("on an end: not masked unless the rule says so", c.Implies(masked, rule == "mask"))
    else:
        c.check("inside: not masked", not masked)
        c.check("inside: adjacent pair", c.And(idx >= 0, idx <= n - 2))
    if masked:
        return
    c.check("weight in [0, 1]", c.And(alpha >= 0, alpha <= 1))
    c.check("index in range", c.And(idx >= -1, idx <= n - 1))
    want = 0 if above else tot if below else d
    for k in range(-1, n):
        if c.fork(idx == k):
            if k in (-1, n - 1):
                c.check("beyond the ends", c.eq(alpha, 1 if k == -1 else 0))
                num, den = prof[0 if k == -1 else n - 1]
                c.check_eq("depth reproduced", num, want * den)
            else:
                (n0, den), (n1, _) = prof[k], prof[k + 1]
                c.check_eq("depth reproduced", alpha * (n1 - n0), want * den - n0, tol=1e-4)
            return
    c.fail("index")


def judge_layers(c, prof, d, tot, idx, alpha, surf, bott, order):
    """depths of layers: the ends of the profile lie inside the column"""
    n = len(prof)
    masked = c.is_masked(idx)
    c.check("index and weight masked together", masked == c.is_masked(alpha))
    (tn, td), (bn, bd) = (prof[-1], prof[0]) if order == "up" else (prof[0], prof[-1])
    above, below = c.fork(d * td <= tn), c.fork(d * bd >= bn)
    rule = surf if above else bott
    if above or below:
        if rule == "extrapolate":
            c.check("beyond the last layer: not masked", not masked)
        elif c.fork(d < 0) or c.fork(d > tot):
            c.check("outside: masked", masked)
    else:
        c.check("between layers: not masked", not masked)
        c.check("between layers: adjacent pair", c.And(idx >= 0, idx <= n - 2))
    if masked:
        return
    c.check("weight in [0, 1]", c.And(alpha >= 0, alpha <= 1))
    c.check("index in range", c.And(idx >= -1, idx <= n - 1))
    end = n - 1 if above == (order == "up") else 0
    for k in range(-1, n):
        if c.fork(idx == k):
            if k in (-1, n - 1):
                c.check("beyond the ends", c.eq(alpha, 1 if k == -1 else 0))
                c.check("the layer at that end", (above or below) and end == max(k, 0))
            elif above or below:
                c.check("the layer at that end", c.Or(c.And(k == end, c.eq(alpha, 0)), c.And(k + 1 == end, c.eq(alpha, 1))))
            else:
                (n0, den), (n1, _) = prof[k], prof[k + 1]
                c.check_eq("depth reproduced", alpha * (n1 - n0), d * den - n0, tol=1e-4)
            return
    c.fail("index")


def jobs(tier):
    q = tier == "quick"
    out = []
    for kind, vt in (("ROMS", 1), ("ROMS", 2), ("FVCOM", 2)):
        for order in ("up", "down"):
            for n in (2, 3, 4):
                out.append(("h_profile", dict(kind=kind, vt=vt, n=n, order=order), {}))
            for n in (2, 3, 4):
                out.append(("h_profile", dict(kind=kind, vt=vt, n=n, order=order, layer=True), {}))
            out.append(("h_profile", dict(kind=kind, vt=vt, n=4, order=order, sym_s=True), {}))
            out.append(("h_profile", dict(kind=kind, vt=vt, n=3, order=order, zt=True, ma=False), {}))
            for n in (2, 3, 4) if q else (2, 3, 4, 5):
                for surf in RULES:
                    for bott in RULES:
                        if n == 4 and q and surf == bott:
                            continue
                        out.append(("h_alphas", dict(kind=kind, vt=vt, n=n, order=order, where=(0,), surf=surf, bott=bott), dict(weight=n)))
            for n in (3, 4):
                for surf, bott in (("extrapolate", "mask"), ("mask", "extrapolate")) if q else [(a, b) for a in RULES for b in RULES]:
                    out.append(("h_alphas", dict(kind=kind, vt=vt, n=n, order=order, where=(0,), surf=surf, bott=bott, layer=True), dict(weight=n)))
            for surf, bott in (("extrapolate", "mask"), ("mask", "extrapolate")):
                out.append(("h_alphas", dict(kind=kind, vt=vt, n=3, order=order, where=(0, 1), surf=surf, bott=bott, how="default"), dict(weight=9)))
            out.append(("h_alphas", dict(kind=kind, vt=vt, n=3, order=order, where=(1,), surf="extrapolate", bott="mask", zt=True), dict(weight=9)))
            out.append(("h_alphas", dict(kind=kind, vt=vt, n=3, order=order, where=(1,), surf="extrapolate", bott="mask", ma=False), dict(weight=9)))
            if kind == "ROMS":
                out.append(("h_alphas", dict(kind=kind, vt=vt, n=3, order=order, where=(2, 0), surf="extrapolate", bott="mask"), dict(weight=9)))
    return out
