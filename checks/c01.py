"""C01: time lookup"""
BOUNDS = "time axes of 1..5 entries (thorough: 1..8), entries and query any whole second (or microsecond) in an 11-year window, extrapolation on/off, direct and after a displacement"
OUTSIDE = "longer axes; datetime64 axes; timezone-aware datetimes"
ASSUMPTIONS = ["numpy.searchsorted on an ascending array is modelled by its specification (translator validated by replaying solver models on the real code)"]


def axis(c, n, us=False):
    ts = [c.dt(f"t{i}", 0, 10**6 if us else 347000000, us) for i in range(n)]
    for a, b in zip(ts, ts[1:]):
        c.assume(a < b)
    return ts


def h_lookup(c, n, extrapolate, us=False):
    ts = axis(c, n, us)
    q = c.dt("q", 0, 10**6 if us else 347000000, us)
    T = c.g.time.Time(c.dtarr(ts))
    lookup(c, T, ts, q, extrapolate)


def lookup(c, T, ts, q, extrapolate):
    n = len(ts)
    before, after = c.fork(q < ts[0]), c.fork(q > ts[-1])
    Err = c.g.time.OutOfTimeRangeError
    c.check("bounds", bool(T.time_in_bounds(q)) == (not before and not after))
    r1, i = c.did_raise(ValueError, T.index_of, q, extrapolate=extrapolate)
    r2, a = c.did_raise(ValueError, T.interp_alpha, q, extrapolate=extrapolate)
    r3, e3 = c.did_raise(ValueError, T.valid_time, q)
    c.check("valid_time", r3 == (before or after))
    if (before or after) and not extrapolate and n > 1:
        c.check("index refused", r1 and isinstance(i, Err))
        c.check("alpha refused", r2 and isinstance(a, Err))
        return
    c.check("index accepted", not r1, i)
    c.check("alpha accepted", not r2, a)
    if n == 1:
        c.check_eq("one-entry index", i, 0)
        c.check_eq("one-entry weight", a, 0.0)
        return
    if before:
        c.check_eq("weight before", a, 0.0)
        c.check_eq("index before", i, 0)
        return
    if after:
        c.check_eq("weight after", a, 1.0)
        c.check_eq("index after", i, n)
        return
    c.check("weight range", c.And(a >= 0, a <= 1))
    if c.fork(i == 0):
        c.check("first entry", q == ts[0])
        c.check_eq("weight at first entry", a, 0.0)
        return
    k = int(i)
    c.check("index range", 0 < k < n)
    lo, hi = ts[k - 1], ts[k]
    c.check("bracket", c.And(lo < q, q <= hi))
    c.check_eq("weight is the fractional position", a * c.secs(hi - lo), c.secs(q - lo))


def h_displaced(c, n, extrapolate):
    """the same on an axis that was moved at construction"""
    ts = axis(c, n)
    d = c.td("d", -10**7, 10**7)
    q = c.dt("q", 0, 347000000)
    T = c.g.time.Time(c.dtarr(list(ts)), displacement=d)
    lookup(c, T, [t + d for t in ts], q, extrapolate)


def jobs(tier):
    N = 5 if tier == "quick" else 8
    out = []
    for n in range(1, N + 1):
        for ex in (False, True):
            out.append(("h_lookup", dict(n=n, extrapolate=ex), dict(weight=n)))
            if n <= 3 or tier != "quick":
                out.append(("h_displaced", dict(n=n, extrapolate=ex), dict(weight=n)))
    out.append(("h_lookup", dict(n=3, extrapolate=True, us=True), {}))
    return out
