"""C03: text form of a timezone offset"""
BOUNDS = "every whole-minute offset in (-24 h, 24 h); the offset in hours is any real within 2^-45 of minutes/60 (covers the nearest double and neighbours)"
OUTSIDE = "offsets that are not a whole number of minutes"
ASSUMPTIONS = ["double rounding is over-approximated by an error term |d| <= 2^-45 on the input offset"]


def h_format(c, lo, hi, neg):
    m = c.int("m", lo, hi)
    d = c.real("d", -1, 1)
    h = m / 60 + (d / 2**45)
    if c.fork(m == 0):
        h = 0.0
    if neg:
        h = -h
    s = c.g.time.offset_as_iso_string(h)
    c.check("shape", isinstance(s, str) and len(s) == 6 and s[3] == ":" and s[1:3].isdigit() and s[4:6].isdigit(), s)
    hh, mm = int(s[1:3]), int(s[4:6])
    c.check("minutes below 60", mm < 60, s)
    c.check_eq("denotes the offset", hh * 60 + mm, m)
    if not c.fork(m == 0):
        c.check("sign", s[0] == ("-" if neg else "+"), s)
    else:
        c.check("sign", s[0] in "+-", s)


def h_none(c):
    c.check("unknown", c.g.time.offset_as_iso_string(None) == "")


def jobs(tier):
    out = [("h_none", {}, {})]
    step = 120
    for lo in range(0, 1440, step):
        for neg in (False, True):
            out.append(("h_format", dict(lo=lo, hi=lo + step - 1, neg=neg), dict(validate=25)))
    return out
