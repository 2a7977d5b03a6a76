"""C23: times read from netCDF files are the instants the file states"""
BOUNDS = ("time variables of 1-3 entries (thorough: 1-4) of 32-bit and 64-bit integer and floating-point type, symbolic values in 1/8 steps of the unit; units seconds, minutes, hours, days under several of their names, reference times with and without an offset, offsets spelled with one and two digits, with and without colon, "
          "Z and UTC; timezone from the file, given, or Naive; new timezone, symbolic displacement and origin; found by name, through the variable or through Variable.from_netCDF and VectorVariable.from_netCDF; text of the offset parsed for every whole quarter of an hour between -14:00 and +14:00")
OUTSIDE = "calendars other than the standard one; references before 1900; masked times; time zone names other than UTC and Z; offsets that change within a file"
ASSUMPTIONS = ["netCDF4.num2date applied to a value is num2date(0, units) (taken from the real library) plus the value times the unit (stand-in; replays use the real library)"]

# text of the reference, its clock reading (y, m, d, h, min), offset in hours or None
REFS = [
    ("2024-01-01 00:00:00", (2024, 1, 1, 0, 0), None),
    ("2024-1-5T06:30:00Z", (2024, 1, 5, 6, 30), 0),
    ("2024-01-05T06:30:00.000Z", (2024, 1, 5, 6, 30), 0),
    ("2010-12-31 23:00:00 UTC", (2010, 12, 31, 23, 0), 0),
    ("2024-02-29 12:00:00 +03:30", (2024, 2, 29, 12, 0), 3.5),
    ("2024-02-29 12:00:00 +3:30", (2024, 2, 29, 12, 0), 3.5),
    ("2024-03-10T02:00:00-07:00", (2024, 3, 10, 2, 0), -7),
    ("2024-03-10T02:00:00-7:00", (2024, 3, 10, 2, 0), -7),
    ("2024-03-10 02:00:00 -0930", (2024, 3, 10, 2, 0), -9.5),
    ("1999-12-31 18:15:00 +05:45", (1999, 12, 31, 18, 15), 5.75),
    ("2024-01-01T00:00:00+00:00", (2024, 1, 1, 0, 0), 0),
    ("2024-03-10 02:00:00 -05", (2024, 3, 10, 2, 0), -5),
    ("2000-01-01", (2000, 1, 1, 0, 0), None),
]
UNITS = [("seconds", 1), ("minutes", 60), ("hours", 3600), ("days", 86400), ("s", 1), ("hour", 3600), ("day", 86400), ("min", 60), ("hrs", 3600)]


def base(c, clock):
    import datetime
    return datetime.datetime(*clock)


def make(c, path, units, vals, typ, tname="time", more=()):
    ds = c.nc4.Dataset(path, "w")
    ds.createDimension(tname, len(vals))
    ds.createDimension("lat", 2)
    ds.createDimension("lon", 3)
    t = ds.createVariable(tname, typ, (tname,))
    t.units = units
    t[:] = c.arr(vals, int if typ[0] == "i" else float)
    for n, vv in (("lat", [0.0, 1.0]), ("lon", [0.0, 1.0, 2.0])):
        v = ds.createVariable(n, "f8", (n,))
        v[:] = c.arr(vv, float)
    for n in more:
        v = ds.createVariable(n, "f8", (tname, "lat", "lon"))
        v[:] = c.np.zeros((len(vals), 2, 3))
        v.units = "m s-1"
        if "time" not in tname:
            v.time = tname
    v = ds.createVariable("fixed", "f8", ("lat", "lon"))
    v[:] = c.np.zeros((2, 3))
    ds.close()


def axis(c, n, frac, sec, lo=-1000, hi=100000):
    """symbolic values (whole numbers of 1/frac units) and their length in seconds"""
    ks = [c.int(f"k{i}", lo, hi) for i in range(n)]
    for a, b in zip(ks, ks[1:]):
        c.assume(a < b)
    if frac == 1:
        return ks, [k * sec for k in ks]
    return [k * (1.0 / frac) for k in ks], [k * (sec // frac) for k in ks]


def h_file(c, ref, unit, n, typ, mode):
    text, clock, off = REFS[ref]
    uname, sec = UNITS[unit]
    frac = 1 if typ[0] == "i" or sec < 8 or sec % 8 else 8
    if sec == 60 and frac == 8:
        frac = 4
    hi = 100000 if sec < 86400 else 5000
    vals, s = axis(c, n, frac, sec, -1000, hi)
    p = c.tmp("t.nc")
    make(c, p, f"{uname} since {text}", vals, typ, more=("u", "v"))
    b = base(c, clock)
    inst = [b + c.delta(x) for x in s]  # the clock readings in the time zone of the file
    Time = c.g.time.Time
    kw, shift, tz = {}, c.delta(0), off or 0
    if mode == "given":
        tz = kw["tz_offset"] = c.choose("tz", (0, -7, 5.5))
    elif mode == "naive":
        kw["tz_offset"] = "Naive"
        tz = None
    elif mode == "new":
        new = kw["new_tz_offset"] = c.choose("new", (0, -8, 3.5, 12))
        shift = c.delta(int((new - tz) * 3600))
        tz = new
    elif mode == "both":
        given = kw["tz_offset"] = -4
        new = kw["new_tz_offset"] = c.choose("new", (0, 2.5))
        shift = c.delta(int((new - given) * 3600))
        tz = new
    elif mode == "displaced":
        d = c.td("d", -10**6, 10**6)
        kw["displacement"] = d
        shift = d
    elif mode == "origin":
        o = c.dt("o", 0, 347000000)
        kw["origin"] = o
        shift = o - inst[0]
    way = c.choice("way", 3)
    if way == 0:
        T = Time.from_netCDF(filename=p, varname="time", **kw)
    elif way == 1:
        T = Time.from_netCDF(dataset=c.nc4.Dataset(p), datavar="u", **kw)
    else:
        ds = c.nc4.Dataset(p)
        T = Time.from_netCDF(filename=p, dataset=ds, datavar=ds.variables["v"], **kw)
    c.check("number of times", len(T.data) == n)
    for i in range(n):
        c.check_eq("instant", T.data[i], inst[i] + shift)
    c.check("offset", (T.tz_offset is None) if tz is None else (T.tz_offset is not None and T.tz_offset == tz), f"{text}: {T.tz_offset}")
    c.check("where from", T.varname == "time")


def h_same(c, a, b, n):
    """two spellings of the same offset give the same times, in every time zone asked for"""
    (ta, ca, oa), (tb, cb, ob) = REFS[a], REFS[b]
    vals, s = axis(c, n, 1, 3600)
    new = c.choose("new", (None, 0, -8, 4.5))
    pa, pb = c.tmp("a.nc"), c.tmp("b.nc")
    make(c, pa, f"hours since {ta}", vals, "i4")
    make(c, pb, f"hours since {tb}", vals, "i4")
    Time = c.g.time.Time
    A = Time.from_netCDF(filename=pa, varname="time", new_tz_offset=new)
    B = Time.from_netCDF(filename=pb, varname="time", new_tz_offset=new)
    for x, y in zip(A.data, B.data):
        c.check_eq("same instants", x, y)
    c.check("same offset", A.tz_offset == B.tz_offset)


def h_variable(c, ref, n, vector, mode):
    """the time of a variable read from the file"""
    text, clock, off = REFS[ref]
    vals, s = axis(c, n, 1, 3600)
    p = c.tmp("t.nc")
    make(c, p, f"hours since {text}", vals, "f8", tname=c.choose("tname", ("time", "ocean_time", "when", "t")), more=("u", "v"))
    inst = [base(c, clock) + c.delta(x) for x in s]
    kw, shift, tz = {}, c.delta(0), off or 0
    if mode == "displaced":
        shift = kw["displacement"] = c.td("d", -10**6, 10**6)
    elif mode == "given":
        tz = kw["tz_offset"] = c.choose("tz", (-3, 5.5))
    elif mode == "origin":
        o = kw["time_origin"] = c.dt("o", 0, 347000000)
        shift = o - inst[0]
    V = c.g.variable
    g = c.g.grids.Grid_R(node_lon=c.arr([0.0, 1.0, 2.0], float), node_lat=c.arr([0.0, 1.0], float))
    if vector:
        X = V.VectorVariable.from_netCDF(filename=p, varnames=["u", "v"], grid=g, **kw)
        ts = [X.time] + [x.time for x in X.variables]
    else:
        X = V.Variable.from_netCDF(filename=p, varname="u", grid=g, **kw)
        ts = [X.time]
    for T in ts:
        c.check("number of times", len(T.data) == n)
        for i in range(n):
            c.check_eq("instant", T.data[i], inst[i] + shift)
        c.check("offset", T.tz_offset == tz)


def h_parse(c, form):
    """the offset in the units text, in hours"""
    q = c.choice("q", 113)  # quarters of an hour from -14:00 to +14:00
    m = (q - 56) * 15
    if form == "short" and m == 0:
        m = 15
    sg = "-" if m < 0 else "+"
    h, mi = divmod(abs(m), 60)
    t = {"colon": f"{sg}{h:02d}:{mi:02d}", "plain": f"{sg}{h:02d}{mi:02d}", "short": f"{sg}{h}:{mi:02d}"}[form]
    u = c.choose("u", ("hours since 2024-01-01 00:00:00 ", "seconds since 1970-01-01T00:00:00", "days since 2024-2-3T10:20:30.5", "h since 1999-12-31 23:59 "))
    o, name = c.g.time.parse_time_offset(u + t)
    c.check("hours", o == m / 60, f"{u + t} {o}")
    if m:
        c.check("name is the offset", name == f"{sg}{h:02d}:{mi:02d}", f"{u + t} {name}")


def jobs(tier):
    out = []
    thorough = tier != "quick"
    for r in range(len(REFS)):
        for mode in ("file", "new", "given", "naive", "both", "displaced", "origin"):
            us = range(len(UNITS)) if thorough else ((r + len(mode)) % len(UNITS), (2 if mode in ("file", "new") else 3))
            for u in sorted(set(us)):
                n = 1 + (r + u) % (4 if thorough else 3)
                typ = ("i4", "f8", "i8", "f4")[(r + u) % 4 if thorough else (r + u) % 3]
                if typ == "f4":
                    typ = "f8"
                out.append(("h_file", dict(ref=r, unit=u, n=n, typ=typ, mode=mode), {}))
    for a, b in ((4, 5), (6, 7), (1, 1), (7, 6)):
        out.append(("h_same", dict(a=a, b=b, n=2), {}))
    for r in (0, 1, 4, 7):
        for vec in (False, True):
            for mode in ("file", "displaced", "given", "origin"):
                out.append(("h_variable", dict(ref=r, n=2, vector=vec, mode=mode), {}))
    for f in ("colon", "plain", "short"):
        out.append(("h_parse", dict(form=f), {}))
    return out
