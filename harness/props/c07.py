"""Rectangular quadrat counts."""
from fractions import Fraction

import core
from core import Model
from props._fig import cell_paths
from props.c04 import container, geo

MODELS = [Model("QuadLaws", "QuadLaws.cfg", emits=True, thorough_cfg="QuadLaws_t.cfg", timeout=3000),
          Model("QuadLaws", "QuadLaws_noclamp.cfg", refutes=True)]
TRACE = "T_QUAD"
ASSUMPTIONS = ["lattice points; a point on a cell edge may be counted in any of the cells that share the edge"]
CONT = ["array", "list", "tuples", "pattern", "geoseries", "geodataframe", "intarray", "multipoint"]


def scenarios(emitted, rng, tier):
    out = []
    em = [e["g"] for e in emitted["QuadLaws"] if e["kind"] == "rect"]
    rng.shuffle(em)
    for i, g in enumerate(em[:160 if tier == "quick" else 9000]):
        box = [[0, 0], [g["U"], g["V"]]] if i % 2 else [[0, g["V"]], [g["U"], 0]]
        pts = box + [[rng.randint(0, g["U"]), rng.randint(0, g["V"])] for _ in range(rng.randint(0, 7))]
        rng.shuffle(pts)
        size = g["nc"] * g["w"][0] != g["U"] * g["w"][1] or g["nr"] * g["h"][0] != g["V"] * g["h"][1]
        s = {"pts": pts, "nc": g["nc"], "nr": g["nr"], "mode": "size" if size or i % 5 == 0 and g["U"] and g["V"] else "count",
             "w": red(g["w"]), "h": red(g["h"])}
        out.append(s)
    for r in range(200 if tier == "quick" else 6000):
        n = rng.choice([1, 2, 3, 5, 9, 17, 30])
        g = rng.choice([1, 3, 10, 60, 1000])
        pts = [[rng.randint(-g, g), rng.randint(-g, g)] for _ in range(n)]
        if r % 9 == 0:
            pts = [[7, p[1]] for p in pts] if r % 2 else [[p[0], -3] for p in pts]
        nc, nr = rng.choice([1, 2, 3, 3, 4, 5, 7]), rng.choice([1, 2, 3, 3, 4, 6])
        ww = [rng.randint(max(1, g // 4), 2 * g + 2), rng.choice([1, 1, 2, 3])]
        hh = [rng.randint(max(1, g // 4), 2 * g + 2), rng.choice([1, 1, 2, 4])]
        out.append({"pts": pts, "nc": nc, "nr": nr, "mode": rng.choice(["count", "size", "default"]) if r % 4 else "size",
                    "w": red(ww), "h": red(hh)})
        if out[-1]["mode"] == "default":
            out[-1].update(mode="count", nc=3, nr=3, default=1)
    for r in range(3 if tier == "quick" else 60):    # many points, many cells
        n, g = rng.choice([200, 600, 1200]), rng.choice([20, 97])
        out.append({"pts": [[rng.randint(0, g), rng.randint(0, g)] for _ in range(n)], "nc": rng.choice([1, 4, 13, 25]), "nr": rng.choice([3, 8, 20]),
                    "mode": ["count", "size"][r % 2], "w": [rng.choice([3, 7, 11]), 1], "h": [rng.choice([5, 9, 13]), 2]})
    for i, s in enumerate(out):
        s.update(off=rng.choice([[0, 0], [0, 0], [-1000, 500], [500000, 4000000]]), scale=rng.choice([1, 1, 0.1, 0.5, 37, 2**-17, 2**17]),
                 cont=CONT[i % 8] if i % 3 else "array", win=rng.choice([0, 0, 1, 2]), plot=i % 5 == 0)
    return core.far(out)


def red(r):
    f = Fraction(*r)
    return [f.numerator, f.denominator]


def cont(kind, xy):
    if kind == "multipoint":
        import geopandas
        import shapely
        k = max(1, len(xy) // 2)
        return geopandas.GeoSeries([shapely.MultiPoint(xy[:k])] + [shapely.Point(p) for p in xy[k:]])
    if kind == "pattern":
        from pointpats import PointPattern
        return PointPattern(xy)
    return container(kind, xy)


def window(kind, xy):
    import shapely
    xs, ys = [p[0] for p in xy], [p[1] for p in xy]
    if kind == 0:
        return None
    b = shapely.box(min(xs), min(ys), max(xs), max(ys)).buffer(max(xs) - min(xs) + 1)
    return b if kind == 1 else shapely.MultiPolygon([b])


def execute(scn, rec):
    import matplotlib.pyplot as plt
    import numpy as np
    import pointpats as pt

    s, (ox, oy) = scn["scale"], scn["off"]
    pts = scn["pts"]
    xy = [[p[0] * s + ox, p[1] * s + oy] for p in pts]
    c = cont(scn["cont"], xy)
    kw = {}
    if not scn.get("default"):
        kw = dict(count_column=scn["nc"], count_row=scn["nr"]) if scn["mode"] == "count" else dict(
            rectangle_width=scn["w"][0] / scn["w"][1] * s, rectangle_height=scn["h"][0] / scn["h"][1] * s)
    if scn["win"]:
        kw["window"] = window(scn["win"], xy)
    F = Fraction
    ex = all(F(v[k]) == p[k] * F(s) + F(o) for p, v in zip(pts, xy) for k, o in ((0, ox), (1, oy))) and all(
        F(v[0] / v[1] * s) == F(*v) * F(s) for v in (scn["w"], scn["h"]))
    base = dict(ex=ex, pts=pts, mode=scn["mode"], nc=scn["nc"], nr=scn["nr"], w=scn["w"], h=scn["h"])

    def go():
        m = pt.RectangleM(c, **kw)
        d = m.point_location_sta()
        x0, y0 = min(p[0] for p in xy), min(p[1] for p in xy)
        cells = []
        if scn["plot"]:
            ax, ids = m.plot()
            paths = cell_paths(ax, len(ids))
            assert len(ids) == len(paths)
            for i, p in zip(ids, paths):
                v = p.vertices
                f = lambda z, o: core.fx((z - o) / s, 1000)  # noqa: E731
                cells.append({"id": int(i), "b": [f(v[:, 0].min(), x0), f(v[:, 1].min(), y0),
                                                  f(v[:, 0].max(), x0), f(v[:, 1].max(), y0)]})
            plt.close("all")
            if abs(x0) > 1e5:
                cells = []
        return dict(cols=m.count_column, rows=m.count_row, num=m.num, keys=[int(k) for k in d],
                    vals=[core.it(v) for v in d.values()], cells=cells)

    r, exc = rec.call(go)
    if r is None:
        rec.fail("Rect", "", exc, **base)
    else:
        rec.ev("Rect", **base, **r)
    if scn["id"] % 12 == 0:
        import geopandas
        import shapely
        for want, f in (("ValueError", lambda: pt.RectangleM(np.zeros((0, 2)))),
                        ("ValueError", lambda: pt.RectangleM(np.zeros((3, 3)))),
                        ("TypeError", lambda: pt.RectangleM(geopandas.GeoSeries([shapely.box(0, 0, 1, 1)]))),
                        ("TypeError", lambda: pt.RectangleM(geopandas.GeoSeries([shapely.Point(0, 1), shapely.box(0, 0, 1, 1)])))):
            _, exc = rec.call(f)
            rec.ev("Error", want=want, kind=exc.split(":")[0])
