"""C11: level depths"""
BOUNDS = ("2-4 symbolic levels (thorough: 2-6), strictly increasing or decreasing, anywhere in [-1000, 12000]; 1-2 symbolic query depths (thorough: 3) anywhere; all four combinations of "
          "surface and bottom rule, given per call or as defaults; levels given as arrays, lists or read from a netCDF file; data shapes None, (n,) and (1,)")
OUTSIDE = "more levels and points; NaN depths; repeated levels; binary rounding in the weights"
ASSUMPTIONS = ["at exactly the shallowest or deepest level the answer may be that level or follow the rule for that end"]
RULES = ("mask", "extrapolate")


def levels(c, n, order):
    z = [c.real(f"z{i}", -1000, 12000) for i in range(n)]
    for a, b in zip(z, z[1:]):
        c.assume(a + 0.001 < b if order == "asc" else a > b + 0.001)
    return z


def judge(c, z, d, idx, alpha, surf, bott, label=""):
    """one point: index, weight (possibly masked) against the levels"""
    n = len(z)
    top, bot = min_max(z, None)
    masked = c.is_masked(idx)
    c.check(label + "index and weight masked together", masked == c.is_masked(alpha))
    above, below = c.fork(d < top), c.fork(d > bot)
    if above or below:
        rule = surf if above else bott
        c.check(label + "outside: masked exactly under the mask rule", masked == (rule == "mask"))
    elif c.fork(c.Or(d == top, d == bot)):
        rule = surf if c.fork(d == top) else bott
        c.check(label + "on an end: not masked unless the rule says so", c.Implies(masked, rule == "mask"))
    else:
        c.check(label + "inside: not masked", not masked)
        c.check(label + "inside: adjacent pair", c.And(idx >= 0, idx <= n - 2))
    if masked:
        return
    c.check(label + "weight in [0, 1]", c.And(alpha >= 0, alpha <= 1))
    c.check(label + "index in range", c.And(idx >= -1, idx <= n - 1))
    want = top if above else bot if below else d
    for k in range(-1, n):
        if c.fork(idx == k):
            if k == -1:
                c.check(label + "before the first level", c.eq(alpha, 1))
                c.check_eq(label + "depth reproduced", z[0], want)
            elif k == n - 1:
                c.check(label + "after the last level", c.eq(alpha, 0))
                c.check_eq(label + "depth reproduced", z[n - 1], want)
            else:
                c.check_eq(label + "depth reproduced", alpha * (z[k + 1] - z[k]), want - z[k])
            return
    c.fail("index")


def min_max(z, order):
    return (z[0], z[-1]) if judge.asc else (z[-1], z[0])


def h_levels(c, n, order, npts, surf, bott, how="kw", shape="n", via="array"):
    judge.asc = order == "asc"
    z = levels(c, n, order)
    if via == "nc":
        ds = c.nc4.Dataset(c.tmp("d.nc"), "w")
        ds.createDimension("depth", n)
        v = ds.createVariable("depth", "f8", ("depth",))
        v[:] = c.arr(z, float)
        kw = dict(dataset=ds)
        make = c.g.depth.L_Depth.from_netCDF
        z = list(z)
        z[0 if judge.asc else n - 1] = 0.0
        c.assume((z[1] if judge.asc else z[n - 2]) > 0.001)
    else:
        kw = dict(terms={"depth_levels": c.arr(z, float) if via == "array" else z})
        make = c.g.depth.L_Depth
    call = {}
    if how == "default":
        kw.update(default_surface_boundary_condition=surf, default_bottom_boundary_condition=bott)
    else:
        call.update(surface_boundary_condition=surf, bottom_boundary_condition=bott)
    D = make(**kw)
    c.check("number of levels", D.num_levels == n)
    d = [c.real(f"d{i}", -3000, 15000) for i in range(npts)]
    P = c.arr([[1.0 + i, 2.0, d[i]] for i in range(npts)], float)
    P0 = c.snapshot(P)
    one = npts == 1 and c.choice("one point as such", 2) == 1
    I, AL = D.interpolation_alphas(P[0] if one else P, None, None if shape is None else (n,), **call)
    c.check("one answer per point", len(I) == npts and len(AL) == npts)
    for i in range(npts):
        judge(c, z, d[i], I[i], AL[i], surf, bott)
    c.check_eq("caller's points", P, P0, tol=0)


def h_surface_only(c, n, order, npts):
    """data with one depth entry, or a one-level axis: everything is at the surface level"""
    z = levels(c, n, order)
    D = c.g.depth.L_Depth(terms={"depth_levels": c.arr(z, float)})
    P = c.arr([[1.0 + i, 2.0, c.real(f"d{i}", -3000, 15000)] for i in range(npts)], float)
    I, AL = D.interpolation_alphas(P, None, (1,))
    for i in range(npts):
        c.check("surface index", not c.is_masked(I[i]) and I[i] == (0 if order == "asc" else n - 1))
        c.check("weight", not c.is_masked(AL[i]) and AL[i] == 0)


def jobs(tier):
    q = tier == "quick"
    out = []
    for order in ("asc", "desc"):
        for n in range(2, 5 if q else 7):
            for surf in RULES:
                for bott in RULES:
                    for npts in (1, 2) if q else (1, 2, 3):
                        if npts == 2 and (n > 3 if q else n > 5) or npts == 3 and n > 3:
                            continue
                        out.append(("h_levels", dict(n=n, order=order, npts=npts, surf=surf, bott=bott), dict(weight=n**npts)))
        for surf, bott in (("mask", "extrapolate"), ("extrapolate", "mask")):
            out.append(("h_levels", dict(n=3, order=order, npts=1, surf=surf, bott=bott, how="default", shape=None), {}))
            out.append(("h_levels", dict(n=3, order=order, npts=1, surf=surf, bott=bott, how="default", via="nc"), {}))
            out.append(("h_levels", dict(n=3, order=order, npts=1, surf=surf, bott=bott, via="list"), {}))
        for n in (1, 2, 3):
            out.append(("h_surface_only", dict(n=n, order=order, npts=2), {}))
    return out
