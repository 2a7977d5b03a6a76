"""C13: values at depth"""
from checks import c04, c12
from checks.c11 import RULES, levels

BOUNDS = ("level depths (2-4 symbolic levels, either order) on triangular, curvilinear and rectangular grids; ROMS and FVCOM coordinates with 3 levels and symbolic bathymetry and elevation; "
          "data on levels or layers with symbolic values at every node; 1-3 points with symbolic depths; with and without two time steps; batches of 9 points spread over all levels with one symbolic; all rule combinations and sources; one level's data optionally masked")
OUTSIDE = "more levels, times and points; other grids (the horizontal part is decided separately)"
ASSUMPTIONS = ["values per level come from a separate variable holding that level's field", "on exactly the first or last level (or, for layer data, on a layer boundary) either neighbour is accepted"]


def per_level(c, kind, F, loc, P2):
    return [c.g.variable.Variable(grid=c04.grid(c, kind)[0], data=f, location=loc).at(P2, None) for f in F]


def expect(c, label, got, vals, z, d, surf, bott, asc, layers):
    """one point: vals = value per level (or layer) at this point, z = level depths"""
    n = len(z)
    top, bot = (z[0], z[-1]) if asc else (z[-1], z[0])
    first, last = 0, len(vals) - 1
    vt, vb = (vals[first], vals[last]) if asc else (vals[last], vals[first])
    if c.fork(d < top):
        return clamp(c, label + "above", got, vt, surf)
    if c.fork(d > bot):
        return clamp(c, label + "below", got, vb, bott)
    for k in range(n):
        if c.fork(d == z[k]):
            if k in (0, n - 1):
                up = (k == 0) == asc
                if c.is_masked(got):
                    nb = vals[min(len(vals) - 1, 1)] if k == 0 else vals[max(len(vals) - 2, 0)]
                    return c.check(label + "end level", (surf if up else bott) == "mask" or c.is_masked(vt if up else vb) or c.is_masked(nb))
                return c.check_eq(label + "end level", got, vt if up else vb)
            if layers:
                return c.check(label + "on a boundary: a neighbouring layer", c.Or(c.eq(got, vals[k - 1]), c.eq(got, vals[k])))
            if c.is_masked(got):
                # the weight of the other level is zero, but it may be masked
                return c.check(label + "on a level", c.is_masked(vals[k]) or c.is_masked(vals[k - 1]) or c.is_masked(vals[k + 1]))
            return c.check_eq(label + "on a level", got, vals[k])
    for k in range(n - 1):
        a, b = (z[k], z[k + 1]) if asc else (z[k + 1], z[k])
        if c.fork(c.And(a < d, d < b)):
            if layers:
                return c.check_eq(label + "in a layer", got, vals[k])
            if c.is_masked(vals[k]) or c.is_masked(vals[k + 1]):
                return c.check(label + "needs masked data: masked", c.is_masked(got))
            c.check(label + "not masked", not c.is_masked(got))
            if c.is_masked(got):
                return
            return c.check_eq(label + "between levels", (got - vals[k]) * (z[k + 1] - z[k]), (vals[k + 1] - vals[k]) * (d - z[k]), tol=1e-4)
    raise AssertionError


def clamp(c, label, got, v, rule):
    if rule == "mask":
        return c.check(label + ": masked", c.is_masked(got))
    c.check_eq(label + ": nearest level", got, v)


PTS = {"U": [(1.0, 1.0), (3.5, 3.0), (2.5, 1.0)], "S": [(1.0, 1.0), (3.5, 3.0), (1.5, 1.0)], "R": [(1.0, 1.0), (3.5, 3.0), (1.5, 1.0)]}


def h_levels(c, kind, n, order, npts, surf, bott, layers=False, how="kw", nt=0, hole=None, same=False, depthfirst=False):
    g, shape, loc = c04.grid(c, kind)
    asc = order == "asc"
    z = levels(c, n, order)
    m = n - 1 if layers else n
    V, T = c.g.variable.Variable, c.g.time.Time
    pos = [PTS[kind][0 if same else i] for i in range(npts)]
    d = [c.real(f"d{i}", -3000, 15000) for i in range(npts)]
    P = c.arr([[x, y, d[i]] for i, (x, y) in enumerate(pos)], float)
    P2 = c.arr([list(p) for p in pos], float)
    times = None
    q = None
    if nt:
        ts = c04.axis(c, nt)
        times = T(c.dtarr(list(ts)))
        k = c.choice("step", nt)
        q = ts[k]
        F = [[c.reals(f"f{t}_{j}", shape, -100, 100) for j in range(m)] for t in range(nt)]
        data = c.np.stack([c.np.stack(x) for x in F])
        lv = F[k]
    else:
        F = [c.reals(f"f{j}", shape, -100, 100) for j in range(m)]
        data = c.np.stack(F)
        lv = F
    if hole is not None:  # this level's data are masked everywhere
        mk = c.np.zeros(data.shape, dtype=bool)
        mk[(slice(None), hole) if nt else hole] = True
        data = c.np.ma.MaskedArray(data, mask=mk)
    vals = per_level(c, kind, lv, loc, P2)
    call = {}
    if how == "kw":
        call = dict(surface_boundary_condition=surf, bottom_boundary_condition=bott)
    D = c.g.depth.L_Depth(terms={"depth_levels": c.arr(z, float)})
    v = V(grid=g, data=data, time=times, depth=D, location=loc)
    if how == "var":
        v.surface_boundary_condition, v.bottom_boundary_condition = surf, bott
    got = v.at(P, q, **call)
    c.check("shape", tuple(got.shape) == (npts, 1))
    masked = c.np.ma.masked
    for i in range(npts):
        vi = [masked if j == hole else vals[j][i, 0] for j in range(m)]
        expect(c, "", got[i, 0], vi, z, d[i], surf, bott, asc, layers)


def h_batch(c, kind, sym, order, layers=False, nt=0, surf="extrapolate", bott="mask", far=False):
    """many points spread over many levels; one of them at a symbolic depth"""
    g, shape, loc = c04.grid(c, kind)
    asc = order == "asc"
    z = [0.0, 10.0, 20.0, 30.0, 60.0]
    if not asc:
        z = z[::-1]
    m = len(z) - (1 if layers else 0)
    pos = [PTS[kind][i % 3] for i in range(9)]
    dep = [5.0, 15.0, 7.0, 25.0, 45.0, 11.0, -4.0, 75.0, 58.0]
    if far:
        pos[2] = pos[5] = (70.0, 70.0)
    dep[sym] = c.real("d", -100, 200)
    P = c.arr([[x, y, d] for (x, y), d in zip(pos, dep)], float)
    P2 = c.arr([list(p) for p in pos], float)
    V, T = c.g.variable.Variable, c.g.time.Time
    times = q = None
    if nt:
        ts = c04.axis(c, nt)
        times, q = T(c.dtarr(list(ts))), ts[c.choice("step", nt)]
        F = [[c.reals(f"f{t}_{j}", shape, -100, 100) for j in range(m)] for t in range(nt)]
        data, lv = c.np.stack([c.np.stack(x) for x in F]), F[[i for i in range(nt) if q is ts[i]][0]]
    else:
        F = lv = [c.reals(f"f{j}", shape, -100, 100) for j in range(m)]
        data = c.np.stack(F)
    vals = per_level(c, kind, lv, loc, P2)
    D = c.g.depth.L_Depth(terms={"depth_levels": c.arr(z, float)})
    v = V(grid=g, data=data, time=times, depth=D, location=loc)
    got = v.at(P, q, surface_boundary_condition=surf, bottom_boundary_condition=bott)
    c.check("shape", tuple(got.shape) == (len(pos), 1))
    for i in range(len(pos)):
        if far and i in (2, 5) and kind == "S":
            c.check("off the grid: masked", c.is_masked(got[i, 0]))
            continue
        expect(c, "", got[i, 0], [vals[j][i, 0] for j in range(m)], z, dep[i], surf, bott, asc, layers)


NO = "absent"


def h_rules(c, kind, call_s, call_b, deflt):
    """which rule counts: the call's, else the variable's, else (None) the depth's"""
    g, shape, loc = c04.grid(c, kind)
    z = [0.0, 10.0, 30.0]
    own_s, own_b = c.choose("own_s", (None, "mask", "extrapolate")), c.choose("own_b", (None, "mask", "extrapolate"))
    F = [c.reals(f"f{j}", shape, -100, 100) for j in range(3)]
    vals = per_level(c, kind, F, loc, c.arr([list(PTS[kind][0])] * 3, float))
    D = c.g.depth.L_Depth(terms={"depth_levels": c.arr(z, float)}, default_surface_boundary_condition=deflt[0], default_bottom_boundary_condition=deflt[1])
    v = c.g.variable.Variable(grid=g, data=c.np.stack(F), depth=D, location=loc, surface_boundary_condition=own_s, bottom_boundary_condition=own_b)
    kw = {}
    if call_s != NO:
        kw["surface_boundary_condition"] = call_s
    if call_b != NO:
        kw["bottom_boundary_condition"] = call_b
    pick = lambda call, own, d: d if (own if call == NO else call) is None else (own if call == NO else call)
    surf, bott = pick(call_s, own_s, deflt[0]), pick(call_b, own_b, deflt[1])
    dep = [c.real("up", -50, -0.5), c.real("down", 30.5, 500), 15.0]
    P = c.arr([[*PTS[kind][0], d] for d in dep], float)
    vector = c.choice("vector", 2) == 1
    if vector:
        v = c.g.variable.VectorVariable(variables=[v, v])
    got = v.at(P, None, **kw)
    for i in range(3):
        for j in range(2 if vector else 1):
            expect(c, "", got[i, j], [x[i, 0] for x in vals], z, dep[i], surf, bott, True, False)


def h_surface(c, kind, n, index, hole=None):
    """surface-only depth: the value of the surface entry at every depth"""
    g, shape, loc = c04.grid(c, kind)
    F = [c.reals(f"f{j}", shape, -100, 100) for j in range(n)]
    data = c.np.stack(F)
    if hole is not None:
        mk = c.np.zeros(data.shape, dtype=bool)
        mk[hole] = True
        data = c.np.ma.MaskedArray(data, mask=mk)
    pos = PTS[kind][:2]
    P = c.arr([[x, y, c.real(f"d{i}", -10, 100)] for i, (x, y) in enumerate(pos)], float)
    want = per_level(c, kind, [F[index]], loc, c.arr([list(p) for p in pos], float))[0]
    v = c.g.variable.Variable(grid=g, data=data, depth=c.g.depth.Depth.surface_only(surface_index=index), location=loc)
    got = v.at(P, None)
    for i in range(len(pos)):
        c.check("not masked", not c.is_masked(got[i, 0]))
        c.check_eq("surface value", got[i, 0], want[i, 0])


def h_terrain(c, kind, vt, order, where, surf, bott, layers=False, nt=0, n=3):
    D, time, column, hc = c12.setup(c, kind, n, vt, order, False, False, True)
    g, shape = (c12.sgrid if kind == "ROMS" else c12.ugrid)(c)
    npts = len(where)
    d = [c.real(f"d{i}", -100, 6000) for i in range(npts)]
    P = c.arr([[c12.POS[w][0], c12.POS[w][1], d[i]] for i, w in enumerate(where)], float)
    P2 = c.arr([list(c12.POS[w]) for w in where], float)
    m = n - 1 if layers else n
    F = [c.reals(f"f{j}", shape, -100, 100) for j in range(m)]
    V = c.g.variable.Variable
    vals = [V(grid=(c12.sgrid if kind == "ROMS" else c12.ugrid)(c)[0], data=f, location="node").at(P2, None) for f in F]
    data = c.np.stack(F)
    v = V(grid=D.grid, data=c12.masked_like(c, data), depth=D, location="node")
    zs = []
    for w in where:
        if w == 2:
            zs.append(None)
            continue
        h, zt, lv = col = column(c12.POS[w])
        tot = h + zt
        c.assume(tot > 0.5)
        c.assume(h > 0)
        if hc is not None:
            c.assume(tot * hc >= 0)
            c.assume(tot * h > 0)
            if vt == 1:
                c.assume(hc < h)
                c.assume(tot * (h - hc) > 0)
        zs.append([num / den for num, den in c12.profile(kind, vt, hc, col)])
    got = v.at(P, None, surface_boundary_condition=surf, bottom_boundary_condition=bott)
    c.check("shape", tuple(got.shape) == (npts, 1))
    for i, w in enumerate(where):
        if w == 2:
            c.check("off the grid: masked", c.is_masked(got[i, 0]))
            continue
        z = list(zs[i])
        expect(c, "", got[i, 0], [x[i, 0] for x in vals], z, d[i], surf, bott, order == "down", layers)


def jobs(tier):
    q = tier == "quick"
    out = []
    J = lambda **k: out.append(("h_levels", k, dict(weight=k["n"] ** k["npts"] * (2 if k["kind"] == "S" else 1))))
    for order in ("asc", "desc"):
        for surf in RULES:
            for bott in RULES:
                J(kind="U", n=3, order=order, npts=2, surf=surf, bott=bott)
                J(kind="U", n=3, order=order, npts=2, surf=surf, bott=bott, layers=True)
                J(kind="U", n=4, order=order, npts=1, surf=surf, bott=bott)
                J(kind="S", n=3, order=order, npts=1, surf=surf, bott=bott)
                J(kind="R", n=3, order=order, npts=1, surf=surf, bott=bott, layers=(surf == bott))
        J(kind="U", n=2, order=order, npts=3, surf="extrapolate", bott="mask", same=True)
        for how in ("var",):
            for surf, bott in (("mask", "extrapolate"), ("extrapolate", "mask")):
                J(kind="U", n=3, order=order, npts=1, surf=surf, bott=bott, how=how)
        for hole in (0, 1, 2):
            J(kind="U", n=3, order=order, npts=1, surf="extrapolate", bott="extrapolate", hole=hole)
            if not q or hole == 0:
                J(kind="S", n=3, order=order, npts=1, surf="extrapolate", bott="extrapolate", hole=hole)
        J(kind="U", n=3, order=order, npts=2, surf="extrapolate", bott="mask", nt=2)
        J(kind="S", n=2, order=order, npts=1, surf="extrapolate", bott="mask", nt=2)
        if not q:
            J(kind="U", n=3, order=order, npts=3, surf="extrapolate", bott="extrapolate")
            J(kind="U", n=5, order=order, npts=2, surf="extrapolate", bott="extrapolate", layers=True)
            J(kind="S", n=4, order=order, npts=2, surf="extrapolate", bott="extrapolate")
    for kind in ("U", "S", "R"):
        for order in ("asc", "desc"):
            for sym in (0, 3, 8) if q else range(9):
                for layers in (False, True):
                    if q and (sym == 3) != layers:
                        continue
                    out.append(("h_batch", dict(kind=kind, sym=sym, order=order, layers=layers, far=sym == 8 and kind != "U", surf="mask" if sym == 8 else "extrapolate", bott="mask" if sym else "extrapolate"), dict(weight=6)))
        out.append(("h_batch", dict(kind=kind, sym=1, order="asc", nt=2), dict(weight=6)))
    for k, (a, b) in enumerate((a, b) for a in (NO, "mask", "extrapolate", None) for b in (NO, "mask", "extrapolate", None)):
        for d in (("extrapolate", "mask"), ("mask", "extrapolate"))[k % 2:][: 1 if q else 2]:
            out.append(("h_rules", dict(kind="USR"[k % 3], call_s=a, call_b=b, deflt=d), dict(weight=3)))
    for kind in ("U", "S", "R"):
        for n, index, hole in ((1, -1, None), (3, -1, None), (3, 0, None), (3, -1, 0), (3, 1, 2)):
            out.append(("h_surface", dict(kind=kind, n=n, index=index, hole=hole), {}))
    for kind, vt in (("ROMS", 1), ("ROMS", 2), ("FVCOM", 2)):
        for order in ("up", "down"):
            for surf, bott in (("extrapolate", "mask"), ("mask", "extrapolate"), ("extrapolate", "extrapolate")):
                for layers in (False, True):
                    if q and surf == bott and layers and kind == "ROMS":
                        continue
                    out.append(("h_terrain", dict(kind=kind, vt=vt, order=order, where=(0,), surf=surf, bott=bott, layers=layers), dict(weight=9)))
            if kind == "FVCOM" or not q:
                out.append(("h_terrain", dict(kind=kind, vt=vt, order=order, where=(0, 1), surf="extrapolate", bott="mask"), dict(weight=19)))
            if kind == "ROMS":
                out.append(("h_terrain", dict(kind=kind, vt=vt, order=order, where=(2, 1), surf="extrapolate", bott="mask"), dict(weight=10)))
    return out
