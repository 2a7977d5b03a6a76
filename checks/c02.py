"""C02: time axis construction and shifts"""
BOUNDS = "sequences of 1..4 times (thorough: 1..6), any order; origin, timezone offsets (multiples of 1/4 h, any sign) and displacement present or absent; up to two later changes of the timezone offset"
OUTSIDE = "offsets that are not multiples of a quarter hour; datetime64 arrays"
ASSUMPTIONS = ["datetime arithmetic is exact in whole microseconds (module datetime replaced by an exact symbolic model)"]


def seq(c, n, ordered=True):
    ts = [c.dt(f"t{i}", 10**8, 2 * 10**8) for i in range(n)]
    if ordered:
        for a, b in zip(ts, ts[1:]):
            c.assume(a < b)
    return ts


def hours(c, name):
    return c.int(name, -96, 96) / 4


def h_validate(c, n, via="array"):
    ts = seq(c, n, False)
    src = c.dtarr(list(ts)) if via == "array" else list(ts)
    ok = c.And(*[a < b for a, b in zip(ts, ts[1:])]) if n > 1 else True
    r, T = c.did_raise(ValueError, c.g.time.Time, src)
    if c.fork(ok):
        c.check("ascending accepted", not r)
        c.check("length", len(T) == n and len(T.data) == n)
        for i in range(n):
            c.check("values kept", T.data[i] == ts[i])
        c.check("ends", c.And(T.min_time == ts[0], T.max_time == ts[-1]))
    else:
        c.check("bad order refused", r and isinstance(T, c.g.time.TimeSeriesError))


def h_shift(c, n, origin, tz, disp, later, src="array", touch=True):
    """shifts add up; the source is left alone"""
    ts = seq(c, n)
    kw = {}
    total = 0  # seconds
    if origin:
        o = c.dt("o", 10**8, 2 * 10**8)
        kw["origin"] = o
        total = total + c.secs(o) - c.secs(ts[0])
    cur = None
    if tz in ("old", "new"):
        cur = hours(c, "z0")
        kw["tz_offset"] = cur
    if tz == "new":
        z1 = hours(c, "z1")
        kw["new_tz_offset"] = z1
        total = total + (z1 - cur) * 3600
        cur = z1
    if disp == "td":
        d = c.td("d", -10**7, 10**7)
        kw["displacement"] = d
        total = total + c.secs(d)
    elif disp == "hours":
        d = hours(c, "d")
        kw["displacement"] = d
        total = total + d * 3600
    Time = c.g.time.Time
    if src == "array":
        source = c.dtarr(list(ts))
        get = lambda: [source[i] for i in range(n)]  # noqa
    elif src == "list":
        source = list(ts)
        get = lambda: source  # noqa
    else:
        source = Time(c.dtarr(list(ts)))
        get = lambda: [source.data[i] for i in range(n)]  # noqa
    T = Time(source, **kw)
    if disp:
        c.check("displacement kept", T.displacement is not None)
        c.raises("displacement only once", AttributeError, setattr, T, "displacement", d)
    verify(c, T, ts, total, cur, n)
    for k in range(later):
        z = hours(c, f"later{k}")
        T.tz_offset = z
        if cur is not None:
            total = total + (z - cur) * 3600
        cur = z
        verify(c, T, ts, total, cur, n)
    for i, t in enumerate(get()):
        c.check("caller's data unchanged", t == ts[i])
    cp = T.get_time_array()
    if n:
        cp[0] = ts[-1]
        verify(c, T, ts, total, cur, n)


def verify(c, T, ts, total, cur, n):
    c.check("length", len(T.data) == n)
    for i in range(n):
        c.check_eq("shifted time", c.secs(T.data[i]), c.secs(ts[i]) + total)
    if cur is None:
        c.check("offset unknown", T.tz_offset is None)
    else:
        c.check_eq("offset", T.tz_offset, cur)


def h_naive(c, n):
    ts = seq(c, n)
    z = hours(c, "z")
    c.raises("change from unknown offset refused", ValueError, c.g.time.Time, c.dtarr(ts), new_tz_offset=z)


def h_roundtrip(c, n):
    """there and back restores the axis; equality compares times and offset"""
    ts = seq(c, n)
    z0, z1 = hours(c, "z0"), hours(c, "z1")
    Time = c.g.time.Time
    T = Time(c.dtarr(list(ts)), tz_offset=z0)
    U = Time(c.dtarr(list(ts)), tz_offset=z0)
    T.tz_offset = z1
    c.check("changed axis differs", bool(T == U) == bool(c.fork(z0 == z1)))
    T.tz_offset = z0
    c.check("there and back", bool(T == U) and not bool(T != U))
    T.tz_offset = None
    for i in range(n):
        c.check("forgetting the offset moves nothing", T.data[i] == ts[i])


def jobs(tier):
    N = 3 if tier == "quick" else 5
    out = []
    for n in range(1, N + 2):
        for via in ("array", "list"):
            out.append(("h_validate", dict(n=n, via=via), dict(weight=n)))
    for n in (1, 2, N):
        out.append(("h_naive", dict(n=n), {}))
        out.append(("h_roundtrip", dict(n=n), {}))
        for src in ("array", "list", "Time"):
            for origin in (False, True):
                for tz in (None, "old", "new"):
                    for disp in (None, "td", "hours"):
                        if tier == "quick" and n != 2 and src != "array":
                            continue
                        out.append(("h_shift", dict(n=n, origin=origin, tz=tz, disp=disp, later=2 if disp is None else 1, src=src), {}))
    return out
