"""Centres and dispersion."""
import core
from core import Model, q

MODELS = [Model("CentroLaws", "CentroLaws.cfg", emits=True, thorough_cfg="CentroLaws_t.cfg", timeout=3000)]
TRACE = "T_CEN"
ASSUMPTIONS = ["lattice points, shifted by up to 10^7 and scaled"]
CONT = ["array", "list", "tuples", "frame", "pattern", "geoseries", "geodataframe", "intarray"]


def scenarios(emitted, rng, tier):
    out = []
    em = emitted["CentroLaws"]
    rng.shuffle(em)
    for i, e in enumerate(em[:160 if tier == "quick" else 4000]):
        out.append({"pts": e["p"], "w": e["w"], "off": [0, 0], "scale": 1, "conts": [CONT[i % 8]]})
    for r in range(110 if tier == "quick" else 3000):
        n = rng.choice([1, 2, 3, 4, 5, 6, 7, 10, 13, 20])
        g = rng.choice([1, 3, 6, 20])
        pts = [[rng.randint(-g, g), rng.randint(-g, g)] for _ in range(n)]
        w = [rng.randint(0, 4) for _ in range(n)]
        if sum(w) == 0:
            w[0] = 1
        out.append({"pts": pts, "w": w,
                    "off": rng.choice([[0, 0], [0, 0], [1000, -50], [10**7, 10**7], [500000, 4000000], [500000.3, 4000000.7]]),
                    "scale": rng.choice([1, 1, 0.25, 0.1, 1 / 3, 64, 2**-17, 2**17]),
                    "conts": CONT if r % 4 == 0 else rng.sample(CONT, 2)})
    for r, n in enumerate([300, 1100] if tier == "quick" else [300, 600, 1100, 2100] * 6):   # many points
        pts = [[rng.randint(-3, 3), rng.randint(-3, 3)] for _ in range(n)]
        out.append({"pts": pts, "w": [rng.randint(0, 4) for _ in range(n)], "off": [0, 0], "scale": [1, 64][r % 2],
                    "conts": rng.sample(CONT, 3)})
    return out


def container(kind, xy):
    import geopandas
    import numpy as np
    import pandas as pd
    from pointpats import PointPattern

    if kind == "array":
        return core.narrow(np.array(xy, dtype=float), 4)
    if kind == "single":
        return core.single(xy)
    if kind == "intarray":
        return core.narrow(np.array(xy, dtype=float), 1)
    if kind == "list":
        return [list(p) for p in xy]
    if kind == "tuples":
        return [tuple(p) for p in xy]
    if kind == "frame":
        return pd.DataFrame(xy, columns=["x", "y"], index=range(5, 5 + len(xy)))
    if kind == "pattern":
        return PointPattern(xy).points
    g = geopandas.GeoSeries.from_xy([p[0] for p in xy], [p[1] for p in xy], index=range(3, 3 + len(xy)))
    return g if kind == "geoseries" else geopandas.GeoDataFrame({"a": range(len(xy))}, geometry=g.values, index=g.index)


def geo(kind):
    return kind.startswith("geo")


def unpair(v, isgeo):
    """the documented form: an array of two numbers, or a Point for geographic containers"""
    import numpy as np
    import shapely

    if isgeo:
        assert isinstance(v, shapely.Point), type(v)
        return [v.x, v.y]
    v = np.asarray(v)
    assert v.shape == (2,), v.shape
    return [float(v[0]), float(v[1])]


def execute(scn, rec):
    import numpy as np
    import pandas as pd
    import pointpats as pt
    import shapely

    s, (ox, oy) = scn["scale"], scn["off"]
    pts, w = scn["pts"], scn["w"]
    xy = [[p[0] * s + ox, p[1] * s + oy] for p in pts]
    n, W = len(pts), sum(w)

    def log(fn, cont, f, **more):
        v, exc = rec.call(f)
        if exc:
            rec.fail("Cen", "", exc, fn=fn, cont=cont, pts=pts, w=w, **more)
        else:
            rec.ev("Cen", fn=fn, cont=cont, pts=pts, w=w, v=v, **more)

    def xyq(v, isgeo, maxden):
        a, b = unpair(v, isgeo)
        return [q((a - ox) / s, maxden=maxden, tol=1e-6), q((b - oy) / s, maxden=maxden, tol=1e-6)]

    for cont in scn["conts"]:
        c = container(cont, xy)
        keep = container(cont, xy)
        g = geo(cont)
        log("mean_center", cont, lambda: xyq(pt.mean_center(c), g, n))
        ser = pd.Series([float(x) for x in w], index=list(range(n))[::-1])
        for ww in ([float(x) for x in w], np.array(w), [x * 0.5 for x in w], ser):
            log("weighted_mean_center", cont, lambda: xyq(pt.weighted_mean_center(c, ww), g, W))
        log("manhattan_median", cont, lambda: xyq(pt.manhattan_median(c), g, 2))
        log("std_distance", cont, lambda: q((float(pt.std_distance(c)) / s) ** 2, maxden=n * n, tol=1e-6))

        def mbr():
            r = pt.minimum_bounding_rectangle(c)
            if g:
                r = r.bounds
            le, b, ri, t = map(float, r)
            v = [(le - ox) / s, (b - oy) / s, (ri - ox) / s, (t - oy) / s]
            return [q(x, maxden=1, tol=1e-6)[0] if q(x, maxden=1, tol=1e-6) != core.NONE else core.LIM for x in v]

        log("minimum_bounding_rectangle", cont, mbr)
        for at in (pts[0], [1, -2]):
            a = [at[0] * s + ox, at[1] * s + oy]
            a = shapely.Point(a) if g else (core.narrow(a) if cont in ("array", "intarray") else a)
            log("dtot", cont, lambda: core.fx(float(pt.dtot(a, c)) / s, 500), at=at)

        def same():
            if g:
                return bool((c.geometry.geom_equals(keep.geometry)).all())
            return bool(np.array_equal(np.asarray(c), np.asarray(keep)))

        log("same", cont, same)
