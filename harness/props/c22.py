"""Geometry helpers."""
import random
import warnings

import core
from core import Model
from props._geo import ISLAND, box, convex, pick, queries, round_, shp, unbox

MODELS = [Model("CellRegion", "CellRegion.cfg", emits=True, thorough_cfg="CellRegion_t.cfg"), Model("CellRegion", "CellRegion_all.cfg", refutes=True)]
TRACE = "T_GEO"
ASSUMPTIONS = ["membership of boundary points is judged for boxes and convex hulls only (closed), geographic shapes exclude or include it by convention",
               "the centroid of a convex hull object is the mean of its vertices, that of points their mean"]
BADHULL = ["nope", "Convex", 5, "list", "tuple", "square", "three", ""]


def scenarios(emitted, rng, tier):
    th = tier != "quick"
    em = emitted["CellRegion"]
    out = []
    for i, e in enumerate(em):
        out.append({"kind": "poly", "reg": e["reg"], "multi": i % 2})
    for r in range(1500 if th else 150):
        out.append({"kind": "poly", "reg": pick(em, rng), "multi": r % 2})
    out += [{"kind": "poly", "reg": ISLAND, "multi": 1}] * 3
    for r in range(1500 if th else 160):
        out.append({"kind": ["box", "hull", "points", "delaunay"][r % 4], "pts": convex(rng)})
    for r in range(1000 if th else 140):
        out.append({"kind": "prep", "name": ["bbox", "convex", "alpha", "bbox", "alpha"][r % 5], "pts": convex(rng, rng.choice([5, 8, 12, 20]))})
    for r in range(200 if th else 20):
        out.append({"kind": ["hull", "delaunay", "hull", "points", "hull"][r % 5], "pts": round_(rng)})
    for r in range(40 if th else 6):
        out.append({"kind": "prep", "name": ["convex", "bbox", "convex"][r % 3], "pts": round_(rng)})
    for r in range(200 if th else 40):
        out.append({"kind": "same", "form": ["box", "poly", "multi", "hull", "coll"][r % 5], "reg": pick(em, rng), "pts": convex(rng)})
    out += [{"kind": "bad", "hull": b, "pts": convex(rng)} for b in BADHULL] * 2
    out += [{"kind": "badshape", "what": w, "pts": convex(rng)} for w in ("list", "string", "points4", "points5", "centroid3", "len3")]
    for s in out:
        s.update(seed=rng.randint(0, 10**6), scale=rng.choice([1, 1, 0.5, 0.1, 32, 1000, 2**-17, 2**17]), off=rng.choice([[0, 0], [0, 0], [-1000, 500], [5, 0]]))
    return out


def execute(scn, rec):
    import numpy as np
    import pointpats.geometry as g
    import shapely
    from scipy import spatial

    warnings.simplefilter("ignore")
    rng = random.Random(scn["seed"])
    s, off, kind = scn["scale"], scn["off"], scn["kind"]
    at = lambda p: (p[0] * s + off[0], p[1] * s + off[1])  # noqa: E731
    un = lambda c: [core.q((float(c[i]) - off[i]) / s, maxden=6000, tol=1e-8) for i in (0, 1)]  # noqa: E731

    def measures(shape, qs, area=True, cen=True, inside=True):
        a = g.area(shape) if area else 0
        b = np.asarray(g.bbox(shape))
        c = np.asarray(g.centroid(shape)) if cen else None
        res = []
        for q in qs if inside else []:
            x, y = at([q[0] / 2, q[1] / 2])
            v = g.contains(shape, *((np.float64(x), np.float64(y)) if rng.random() < 0.5 else (x, y)))
            res.append([q[0], q[1], 1 if bool(v) else 0])
        if b.shape != (4,) or (cen and c.shape != (2,)):
            raise ValueError(f"shape of result {b.shape} {c.shape}")
        return dict(hasarea=area, area=core.q(a / s / s, maxden=100, tol=1e-7) if area else core.NONE, box=unbox(b, s, off), hascen=cen,
                    cen=un(c) if cen else [], q=res)

    def both(op, shape, qs, closed, rep, **kw):
        extra = {k: kw.pop(k) for k in ("reg", "pts") if k in kw}
        m, exc = rec.call(measures, shape, qs, **kw)
        if exc:
            rec.fail(op, rep, exc)
            return
        rec.ev(op, rep, closed=closed, **m, **extra)

    if kind == "poly":
        reg = scn["reg"]
        qs = queries(reg, rng)
        p = shp(reg, rng, s, off, multi=scn["multi"])
        if rng.random() < 0.2:
            shapely.prepare(p)
        both("Shape", p, qs, False, p.geom_type, reg=reg)
        if rng.random() < 0.5:
            # its box, as an array, agrees with the box as a polygon
            b = box(reg)
            br = [[[[b[0], b[1]], [b[2], b[1]], [b[2], b[3]], [b[0], b[3]]]]]
            arr = core.narrow([*at(b[:2]), *at(b[2:])])
            both("Shape", arr, qs + [[2 * b[0], 2 * b[1]], [2 * b[2], 2 * b[1] + 1], [2 * b[0] - 1, 2 * b[3]]], s in (1, 32, 1000, 0.5), "bbox", reg=br)
            both("Shape", shapely.box(*arr), qs, False, "box polygon", reg=br)
            if rng.random() < 0.5:
                both("Shape", [float(v) for v in arr] if rng.random() < 0.5 else tuple(arr), qs, False, "bbox list", reg=br, cen=False, inside=False)
        return
    pts = scn.get("pts")
    xy = core.narrow([at(p) for p in pts]) if pts else None
    if kind == "box":
        b = [min(p[0] for p in pts), min(p[1] for p in pts), max(p[0] for p in pts), max(p[1] for p in pts)]
        br = [[[[b[0], b[1]], [b[2], b[1]], [b[2], b[3]], [b[0], b[3]]]]]
        arr = np.array([*at(b[:2]), *at(b[2:])])
        arr = core.narrow(arr)
        qs = queries(br, rng) + [[2 * b[rng.choice([0, 2])], 2 * b[rng.choice([1, 3])]] for _ in range(2)]
        both("Shape", arr, qs, s in (1, 32, 1000, 0.5), "bbox", reg=br)
        return
    if kind == "hull":
        h = spatial.ConvexHull(xy)
        both("HullOf", h, queries([[pts]], rng, 20), False, "convex hull", pts=pts)
        return
    if kind == "delaunay":
        d = spatial.Delaunay(xy)
        h = spatial.ConvexHull(xy)
        m, exc = rec.call(lambda: dict(measures(h, [], cen=False), q=[[q[0], q[1], int(bool(g.contains(d, *at([q[0] / 2, q[1] / 2]))))] for q in queries([[pts]], rng, 20)]))
        if exc:
            rec.fail("HullOf", "delaunay", exc)
        else:
            rec.ev("HullOf", "delaunay", closed=False, pts=pts, **m)
        return
    if kind == "points":
        if rng.random() < 0.4:
            pts = pts[:rng.choice([1, 2, 2, 4])]
            xy = xy[:len(pts)]
        form = rng.choice(["array", "list", "tuples", "intarray"])
        v = xy if form == "array" else [list(p) for p in xy] if form == "list" else [tuple(p) for p in xy] if form == "tuples" else xy.astype(int) if (xy == xy.astype(int)).all() else xy
        both("Points", v, [], False, form, pts=pts, area=False, cen="array" in form, inside=False)
        return
    if kind == "prep":
        name = scn["name"]
        arg = {"bbox": [None, "bbox"], "convex": ["convex", "convex", "convex hull", "convex_hull"], "alpha": ["alpha", "α", "alpha_shape"]}[name]
        a = rng.choice(arg)
        h, exc = rec.call(lambda: g.prepare_hull(xy) if a is None and rng.random() < 0.5 else g.prepare_hull(xy, a))
        if exc:
            rec.fail("Prep", name, exc)
            return
        e = dict(form="?", box=[], ring=[], reg=[])
        if isinstance(h, np.ndarray):
            e.update(form="box", box=unbox(h, s, off))
        elif isinstance(h, spatial.ConvexHull):
            e.update(form="hull", ring=[[core.it(round((v[i] - off[i]) / s, 9)) for i in (0, 1)] for v in h.points[h.vertices]])
        else:
            r = lambda c: [[core.it(round((v[i] - off[i]) / s, 9)) for i in (0, 1)] for v in list(c.coords)[:-1]]  # noqa: E731
            e.update(form="poly", reg=[[r(q.exterior), *[r(i) for i in q.interiors]] for q in (h.geoms if h.geom_type == "MultiPolygon" else [h])])
            # the alpha shape is libpysal's; libpysal's leaves points of some tiny sets outside
            from libpysal.cg import alpha_shape_auto
            ref = alpha_shape_auto(xy)
            rec.ev("Equal", a=bool(ref.equals(h)), b=True, what="alpha_shape_of_the_points")
            if not all(ref.distance(shapely.Point(p)) < 1e-9 * s for p in xy):
                return
        rec.ev("Prep", name, name=name, pts=pts, **e)
        return
    if kind == "same":
        if scn["form"] == "box":
            h = np.array([*at([0, 0]), *at([3, 5])])
        elif scn["form"] == "hull":
            h = spatial.ConvexHull(xy)
        elif scn["form"] == "coll":
            h = shapely.GeometryCollection([shp(scn["reg"], rng, s, off)])
        else:
            h = shp(scn["reg"], rng, s, off, multi=scn["form"] == "multi")
        v, exc = rec.call(g.prepare_hull, xy, h)
        if exc:
            rec.fail("Same", scn["form"], exc)
            return
        same = v is h or (np.array_equal(v, h) if isinstance(h, np.ndarray) else v.equals(h) if hasattr(h, "equals") else np.array_equal(v.points, h.points))
        rec.ev("Equal", a=bool(same), b=True, what="a_given_hull_is_used_as_it_is")
        return
    if kind == "bad":
        b = scn["hull"]
        b = {"list": [0, 0, 1, 1], "tuple": (0, 0, 1, 1), "square": np.zeros((2, 2)), "three": np.zeros(3)}.get(b, b)
        _, exc = rec.call(g.prepare_hull, xy, b)
        rec.ev("Error", str(scn["hull"]), kind=exc.split(":")[0])
        return
    w = scn["what"]
    f = {"list": lambda: g.contains([0, 0, 1, 1], 0.5, 0.5), "string": lambda: g.contains("box", 0.5, 0.5), "points4": lambda: g.area(np.array([[0, 0], [3, 0], [3, 4], [0, 4.0]])),
         "points5": lambda: g.area(np.zeros((5, 2))), "centroid3": lambda: g.centroid(np.zeros((2, 2, 2))), "len3": lambda: g.area(np.zeros(3))}[w]
    _, exc = rec.call(f)
    rec.ev("Error", w, kind=exc.split(":")[0])
