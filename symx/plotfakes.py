"""Stand-ins for the drawing libraries (matplotlib, shapely, pandas): they only record what they are given.
The recording axes and figure are also used when replaying against the real libraries."""
import types

import numpy as rnp


class Triangulation:
    def __init__(self, x, y, triangles=None, mask=None):
        self.x, self.y, self.triangles, self.mask = x, y, triangles, mask
        n = len(x)
        if triangles is not None:
            if len(triangles.shape) != 2 or triangles.shape[1] != 3:
                raise ValueError(f"triangles must be an (N, 3) int array, but found shape {triangles.shape!r}")
            if int(triangles.max()) >= n or int(triangles.min()) < 0:
                raise ValueError("triangles are indices into the points and must be in the range 0 <= i < number of points")


class LineCollection:
    def __init__(self, segments, **kw):
        self.segments = list(segments)

    def get_segments(self):
        return self.segments

    def set_segments(self, segments):
        self.segments = list(segments)


class Polygon:
    def __init__(self, xy, **kw):
        self.xy = xy

    def get_xy(self):
        return self.xy


class LineString:
    def __init__(self, coords):
        self.coords = [tuple(p) for p in coords]
        if len(self.coords) == 1:
            raise ValueError("linestrings requires at least 2 coordinates")


class MultiLineString:
    def __init__(self, lines=None):
        self.geoms = [x if isinstance(x, LineString) else LineString(x) for x in lines or []]


TABLES = {}  # path -> list of rows (lists of values), the first being the header


class DataFrame:
    def __init__(self, data=None, columns=None, **kw):
        rows = data if data is not None else []
        if isinstance(rows, dict):
            raise NotImplementedError("DataFrame from a dict of columns")
        if columns is None:
            columns = list(rows[0]) if rows else []
        self.columns = list(columns)
        self.rows = [[r[k] for k in self.columns] if isinstance(r, dict) else list(r) for r in rows]

    def to_csv(self, path, header=True, mode="w", index=True, **kw):
        if index:
            raise NotImplementedError("index column")
        t = TABLES.setdefault(str(path), [])
        if mode[0] == "w":
            t.clear()
        if header:
            t.append(list(self.columns))
        t += [list(r) for r in self.rows]


class Handle:
    def __init__(self, owner, item):
        self.owner, self.item = owner, item

    def remove(self):
        if not any(x is self.item for x in self.owner):
            raise ValueError("already removed")
        self.owner[:] = [x for x in self.owner if x is not self.item]


class Axes:
    """records what is drawn"""

    def __init__(self):
        self.lines, self.points, self.texts, self.tris, self.patches, self.limits = [], [], [], [], [], {}

    def _add(self, lst, item):
        lst.append(item)
        return Handle(lst, item)

    def triplot(self, *a, **k):
        if hasattr(a[0], "triangles"):
            t = a[0]
            item = (t.x, t.y, t.triangles)
        else:
            item = (a[0], a[1], k["triangles"] if "triangles" in k else a[2])
        return self._add(self.tris, item)

    def plot(self, x, y, *fmt, **k):
        return [self._add(self.points, (x, y))]

    def scatter(self, x, y, **k):
        return self._add(self.points, (x, y))

    def annotate(self, text, xy, **k):
        return self._add(self.texts, (text, tuple(xy)))

    def text(self, x, y, s, **k):
        return self._add(self.texts, (s, (x, y)))

    def add_collection(self, lc, **k):
        segs = list(lc.get_segments())
        return self._add(self.lines, segs)

    def add_patch(self, p):
        h = self._add(self.patches, p)
        try:
            p.remove = h.remove
        except AttributeError:
            pass
        return h

    def set_xlim(self, a, b=None, **k):
        self.limits["x"] = (a, b) if b is not None else tuple(a)

    def set_ylim(self, a, b=None, **k):
        self.limits["y"] = (a, b) if b is not None else tuple(a)

    def axis(self, v):
        self.limits["x"], self.limits["y"] = (v[0], v[1]), (v[2], v[3])

    def __getattr__(self, n):
        if n.startswith("set_") or n in ("grid", "legend", "autoscale", "autoscale_view", "margins"):
            return lambda *a, **k: None
        raise AttributeError(n)


class Figure:
    def __init__(self):
        self.handlers = {}
        self.canvas = self
        self.manager = self

    def mpl_connect(self, name, fn):
        self.handlers[name] = fn

    def set_window_title(self, t):
        pass

    def draw_idle(self):
        pass

    def draw(self):
        pass


def mod(name, **kw):
    m = types.ModuleType(name)
    m.__dict__.update(kw)
    return m


def _subplots(*a, **k):
    return Figure(), Axes()


tri = mod("matplotlib.tri", Triangulation=Triangulation)
collections = mod("matplotlib.collections", LineCollection=LineCollection)
patches = mod("matplotlib.patches", Polygon=Polygon)
pyplot = mod("matplotlib.pyplot", subplots=_subplots, Polygon=Polygon, show=lambda *a, **k: None, tight_layout=lambda *a, **k: None)
matplotlib = mod("matplotlib", tri=tri, collections=collections, patches=patches, pyplot=pyplot, use=lambda *a, **k: None, get_backend=lambda: "fake")
geometry = mod("shapely.geometry", LineString=LineString, MultiLineString=MultiLineString)
shapely = mod("shapely", geometry=geometry, LineString=LineString, MultiLineString=MultiLineString)
pandas = mod("pandas", DataFrame=DataFrame)

MAP = {"matplotlib": matplotlib, "matplotlib.tri": tri, "matplotlib.collections": collections, "matplotlib.patches": patches, "matplotlib.pyplot": pyplot,
       "shapely": shapely, "shapely.geometry": geometry, "pandas": pandas}
