"""C18: polarity of land and water masks"""
BOUNDS = ("mask arrays of 2x2 and 2x3 (3x3 with paddings) with 3-6 values symbolic in -2..6 (and floating values in the same range); flag values as numbers or text, meanings as text with any blanks between or as a list, 1-4 flags in any order with land, water, lake, river and other meanings in any case; option_0 files; files and arrays without metadata; "
          "missing values by _FillValue or mask over arbitrary content; through every padding for cell masks")
OUTSIDE = "larger arrays; masks with NaN"
ASSUMPTIONS = ["netCDF4 masks _FillValue (stand-in; replays use real files)"]

FLAGS = {
    "roms": ((0, 1), "land water"),
    "swapped": ((1, 0), "land water"),
    "water first": ((0, 1), "water land"),
    "lake": ((0, 1, 2), "land water lake"),
    "lake2": ((2, 0, 1), "lake land sea_water"),
    "case": ((0, 1, 2), "Land Water LAKE"),
    "other": ((0, 1, 3), "land sea_ice water"),
    "neg": ((-1, 1), "land open_water"),
    "one": ((1,), "water"),
    "four": ((0, 1, 2, 4), "land shallow_water Deep_Water inland"),
    "gap": ((5, 2), "water land"),
    "river": ((0, 1, 2), "land River lake"),
    "blanks": ((0, 1, 2), " land  water\tlake "),
    "lines": ((1, 0), "sea_water\n   land\n"),
}


def water(meaning):
    return "water" in meaning.lower() or "lake" in meaning.lower() or "river" in meaning.lower()


def h_flags(c, flags, text=False, dtype="i4", fill=None, shape=(2, 2), sl=None, listed=False):
    fv, fm = FLAGS[flags]
    ds = c.nc4.Dataset(c.tmp("m.nc"), "w")
    ds.createDimension("y", shape[0]), ds.createDimension("x", shape[1])
    v = ds.createVariable("mask_rho", dtype, ("y", "x"), **({} if fill is None else dict(fill_value=fill)))
    v.flag_values = ("  " if flags in ("blanks", "lines") else " ").join(map(str, fv)) if text else c.arr(fv, dtype) if len(fv) > 1 else fv[0]
    if len(fv) == 1 and not text:
        v.flag_values = c.arr(fv, dtype) if c.symbolic else __import__("numpy").array(fv, dtype)
    v.flag_meanings = fm.split() if listed else fm
    vals = [[c.int(f"v{i}_{j}", -2, 6) if (i, j) in ((0, 0), (1, 1), (1, 0), (0, 1)) and (sl is None or (i, j) != (0, 0)) else (i + j) % 2 for j in range(shape[1])] for i in range(shape[0])]
    for i in range(shape[0]):
        for j in range(shape[1]):
            v[i, j] = vals[i][j]
    wet = [a for a, m in zip(fv, fm.split()) if water(m)]
    exp = [[c.Or(*([fill is not None and x == fill] + [c.And(*[x != w for w in wet])])) for x in r] for r in vals]
    got = c.g.utilities.convert_mask_to_numpy_mask(v)
    same(c, got, exp, shape)
    c.check_eq("source", c.arr(c.np.ma.filled(v[:], -99), float), c.arr([[(-99 if fill is not None and c.fork(x == fill) else x) for x in r] for r in vals], float))
    if sl is not None:
        G = c.g.pysgrid.sgrid.SGrid
        g = G(node_lon=c.np.zeros((2, 2)), node_lat=c.np.zeros((2, 2)), face_padding=sl)
        s = g.get_padding_slices(sl)
        r = c.g.utilities.gen_celltree_mask_from_center_mask(v, s)
        lo = [1 if p in ("low", "both") else 0 for p in sl]
        n = [shape[d] - {"none": 0, "both": 2}.get(sl[d], 1) for d in (0, 1)]
        same(c, r, [row[lo[1]:lo[1] + n[1]] for row in exp[lo[0]:lo[0] + n[0]]], n)


def same(c, got, exp, shape):
    c.check("shape", tuple(got.shape) == tuple(shape))
    c.check("a plain boolean array", got.dtype == bool and not c.np.ma.isMaskedArray(got))
    for i in range(shape[0]):
        for j in range(shape[1]):
            if c.fork(exp[i][j]):
                c.check("land", got[i, j])
            else:
                c.check("water", c.Not(got[i, j]))


def h_option(c, kind, fill=None):
    """option_0: 0 is land, 1 is water; or a file without metadata: nonzero is masked"""
    ds = c.nc4.Dataset(c.tmp("m.nc"), "w")
    ds.createDimension("y", 2), ds.createDimension("x", 3)
    v = ds.createVariable("mask_rho", "f8", ("y", "x"), **({} if fill is None else dict(fill_value=float(fill))))
    if kind == "option":
        v.option_0 = "land"
        v.option_1 = "water"
    elif kind == "half":
        v.flag_values = c.arr([0, 1], "f8")  # without meanings
    vals = [[c.int(f"v{i}_{j}", -1, 3) if j < 2 else i for j in range(3)] for i in range(2)]
    for i in range(2):
        for j in range(3):
            v[i, j] = vals[i][j]
    missing = lambda x: fill is not None and x == fill
    exp = [[c.Or(missing(x), x != 1) if kind == "option" else c.Or(missing(x), x != 0) for x in r] for r in vals]
    same(c, c.g.utilities.convert_mask_to_numpy_mask(v), exp, (2, 3))


def h_array(c, masked, kind="int"):
    """plain arrays: nonzero (True) is masked, as are missing values; the array is left alone"""
    if kind == "bool":
        vals = [[c.bool(f"v{i}_{j}") for j in range(3)] for i in range(2)]
        a = c.arr(vals, bool)
        exp = [list(r) for r in vals]
    else:
        vals = [[c.int(f"v{i}_{j}", -1, 2) for j in range(3)] for i in range(2)]
        a = c.arr(vals, int if kind == "int" else float)
        exp = [[x != 0 for x in r] for r in vals]
    if masked:
        a = c.np.ma.MaskedArray(a, mask=[[(i, j) in masked for j in range(3)] for i in range(2)])
        for i, j in masked:
            exp[i][j] = True
    a0 = c.snapshot(a)
    same(c, c.g.utilities.convert_mask_to_numpy_mask(a), exp, (2, 3))
    c.check_eq("caller's array", a, a0, tol=0)


def jobs(tier):
    deep = tier != "quick"
    out = []
    k = 0
    pads = ("none", "low", "high", "both")
    for f in FLAGS:
        for text in (False, True):
            for fill in (None, 6, FLAGS[f][0][0], FLAGS[f][0][-1]):
                for dt in ("i4", "f8", "i1", "i2", "f4") if deep else (("i4", "f8"), ("i1", "f4"))[k % 2]:
                    k += 1
                    if not deep and (k % 2 and fill in FLAGS[f][0] or f in ("river", "blanks", "lines") and fill is not None):
                        continue
                    out.append(("h_flags", dict(flags=f, text=text, dtype=dt, fill=fill), {}))
    for f in ("roms", "lake", "one", "case", "river"):
        out.append(("h_flags", dict(flags=f, listed=True), {}))
    for p0 in pads:
        for p1 in pads:
            n = tuple(1 + {"none": 0, "both": 2}.get(p, 1) for p in (p0, p1))
            if True:
                out.append(("h_flags", dict(flags=("roms", "lake", "swapped")[k % 3], shape=n, sl=(p0, p1)), dict(weight=3)))
            k += 1
    for kind in ("option", "none", "half"):
        for fill in (None, 3, 0, 1):
            out.append(("h_option", dict(kind=kind, fill=fill), {}))
    for kind in ("int", "float", "bool"):
        for m in ((), ((0, 0),), ((0, 1), (1, 2))):
            out.append(("h_array", dict(masked=m, kind=kind), {}))
    return out
