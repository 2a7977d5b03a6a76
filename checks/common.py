"""geometry shared by the harnesses (plain arithmetic: works on symbolic and concrete numbers)"""


def cross(o, a, b):
    return (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])


def area2(t):
    return cross(t[0], t[1], t[2])


def barycentric(t, p):
    """weights of p in triangle t, times twice the area"""
    return [cross(p, t[1], t[2]), cross(p, t[2], t[0]), cross(p, t[0], t[1])]


def strictly_in(c, t, p):
    w = barycentric(t, p)
    return c.Or(c.And(*[x > 0 for x in w]), c.And(*[x < 0 for x in w]))


def strictly_out(c, t, p, margin=0):
    """outside the closed triangle"""
    w, a = barycentric(t, p), area2(t)
    return c.Or(*[x * a < -margin for x in w])


def convex_in(c, q, p):
    n = len(q)
    w = [cross(q[k], q[(k + 1) % n], p) for k in range(n)]
    return c.Or(c.And(*[x > 0 for x in w]), c.And(*[x < 0 for x in w]))


def rows(a, n):
    return [[a[i][0], a[i][1]] for i in range(n)]
