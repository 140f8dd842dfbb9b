"""Shared by the checks of the random samplers (C13, C14, C15)."""
import core

Q = 500
# lattice hulls: parts -> rings (shell, holes ...)
BOX = [[[0, 0], [12, 0], [12, 12], [0, 12]]]
BOX2 = [[[-6, 3], [12, 3], [12, 9], [-6, 9]]]
TRI = [[[0, 0], [12, 0], [3, 9]]]
LSH = [[[0, 0], [12, 0], [12, 6], [6, 6], [6, 12], [0, 12]]]
HOLE = [[[0, 0], [12, 0], [12, 12], [0, 12]], [[3, 3], [3, 9], [9, 9], [9, 3]]]
HOLE2 = [[[0, 0], [15, 0], [15, 9], [0, 9]], [[1, 1], [5, 1], [5, 8], [1, 8]], [[8, 2], [14, 2], [11, 8]]]
PENT = [[[0, 3], [3, 0], [9, 0], [12, 6], [6, 12]]]
QUAD = [[[0, 2], [9, 0], [12, 7], [3, 12]]]
HULLS = [
    {"form": "bbox", "parts": [BOX]}, {"form": "bbox", "parts": [BOX2]}, {"form": "points", "parts": [PENT]},
    {"form": "points", "parts": [TRI]}, {"form": "points", "parts": [BOX2]}, {"form": "hullobj", "parts": [TRI]}, {"form": "hullobj", "parts": [PENT]},
    {"form": "poly", "parts": [LSH]}, {"form": "poly", "parts": [TRI]}, {"form": "poly", "parts": [HOLE]},
    {"form": "poly", "parts": [HOLE2]}, {"form": "poly", "parts": [BOX]},
    {"form": "multi", "parts": [[[[0, 0], [6, 0], [6, 6], [0, 6]]], [[[9, 9], [15, 9], [15, 15], [9, 15]]]]},
    {"form": "multi", "parts": [HOLE, [[[15, 3], [18, 3], [18, 6]]]]},
    # part inside the hole of another part
    {"form": "multi", "parts": [HOLE, [[[5, 5], [7, 5], [7, 7], [5, 7]]]]},
]
# arrays of exactly four, three and two points
BARE = [{"form": "points", "bare": 1, "parts": [p]} for p in (QUAD, TRI, [[[0, 0], [12, 6]]])]


def hull(h, s=1, off=(0, 0)):
    import numpy as np
    import shapely
    from scipy.spatial import ConvexHull

    f = lambda r: [(p[0] * s + off[0], p[1] * s + off[1]) for p in r]  # noqa: E731
    pts = [p for part in h["parts"] for ring in part for p in f(ring)]
    if h["form"] == "bbox":
        xs, ys = [p[0] for p in pts], [p[1] for p in pts]
        return core.narrow(core.single([min(xs), min(ys), max(xs), max(ys)]), 3)
    if h["form"] == "points":
        if h.get("bare"):
            return core.narrow(core.single(pts), 3)
        # points inside the box do not matter; neither does their order
        c = [sum(p[0] for p in pts) / len(pts), sum(p[1] for p in pts) / len(pts)]
        return core.narrow(core.single([c, *pts, c]), 3)
    if h["form"] == "hullobj":
        c = [sum(p[0] for p in pts) / len(pts), sum(p[1] for p in pts) / len(pts)]
        return ConvexHull(np.array([c, *pts]))
    polys = [shapely.Polygon(f(part[0]), [f(r) for r in part[1:]]) for part in h["parts"]]
    return polys[0] if h["form"] == "poly" else shapely.MultiPolygon(polys)


def quant(a, s=1, off=(0, 0)):
    import numpy as np

    a = np.asarray(a, dtype=float).reshape(-1, 2)
    return [[core.fx((x - off[0]) / s, Q), core.fx((y - off[1]) / s, Q)] for x, y in a]


def size(z):
    return {"none": lambda: None, "int": lambda: z["n"], "pair": lambda: (z["n"], z["r"]), "bad": lambda: z["v"]}[z["k"]]()


def dup(a):
    import numpy as np
    return len(np.unique(np.asarray(a).reshape(-1, 2), axis=0))


def lpoly(h, s=1, off=(0, 0), closed=True, rev=False):
    """the same shape as a libpysal polygon"""
    import libpysal

    def f(r):
        v = [(p[0] * s + off[0], p[1] * s + off[1]) for p in r]
        if rev:
            v = v[::-1]
        return v + v[:1] if closed else v
    parts = [f(part[0]) for part in h["parts"]]
    holes = [f(r) for part in h["parts"] for r in part[1:]]
    return libpysal.cg.Polygon(parts if len(parts) > 1 or closed else parts[0], holes or None)
