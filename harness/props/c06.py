"""Extremal geometry."""
import math

import core
from core import Model, it, q
from props.c04 import container, geo, unpair
from props.c05 import collinear

MODELS = [Model("Skyum", "Skyum.cfg", emits=True, thorough_cfg="Skyum_t.cfg", timeout=6000),
          Model("Skyum", "Skyum_laws.cfg"),
          Model("Skyum", "Skyum_tie.cfg", refutes=True)]
TRACE = "T_EXT"
ASSUMPTIONS = ["points not all on one line (the convex hull of a line is rejected by Qhull)"]
CONT = ["array", "intarray", "list", "frame", "geoseries", "geodataframe", "single"]
LIMIT_S = 100


def scenarios(emitted, rng, tier):
    out = []
    em = emitted["Skyum"]
    rng.shuffle(em)
    em = em[:360 if tier == "quick" else 15000]
    for i in range(0, len(em), 12):
        out.append({"kind": "tiny", "sets": em[i:i + 12], "numba": True, "cont": "array"})
    for i in range(0, min(len(em), 120 if tier == "quick" else 3000), 12):
        out.append({"kind": "tiny", "sets": em[i:i + 12], "numba": False, "cont": "array"})
    for r in range(50 if tier == "quick" else 1500):
        n = rng.choice([3, 4, 6, 9, 15, 30])
        g = rng.choice([2, 3, 5, 5])
        pts = [[rng.randint(0, g), rng.randint(0, g)] for _ in range(n)]
        if r % 3 == 0:
            pts += pts[:2]
        if collinear(pts):
            continue
        out.append({"kind": "tiny", "sets": [pts], "cont": rng.choice(CONT), "numba": r % 4 != 0,
                    "off": rng.choice([[0, 0], [0, 0], [40, -20], [-7, 3]]), "scale": rng.choice([1, 1, 0.5, 4, 2**-17, 2**17])})
    for r in range(60 if tier == "quick" else 1500):
        n = rng.choice([3, 4, 5, 6, 7])
        pts = [[rng.randint(0, 999), rng.randint(0, 999)] for _ in range(n)]
        if not collinear(pts):
            out.append({"kind": "general", "pts": pts, "numba": r % 2 == 0})
    for r in range(45 if tier == "quick" else 1500):
        n = rng.choice([1, 2, 3, 4, 5, 6, 9])
        pts = [[rng.randint(0, 6), rng.randint(0, 6)] for _ in range(n)]
        if r % 4 == 0:
            pts = pts + [pts[0]] * rng.randint(1, 3)
        if r % 7 == 0:
            pts = [[i, 2 * i] for i in range(4)]
        if r % 5 == 2:      # a point of the pattern at the mean centre
            m = rng.choice([3, 4, 5])
            pts = [[rng.randint(0, 6), rng.randint(0, 6)] for _ in range(m - 1)]
            pts.append([-sum(p[i] for p in pts) % m + m * rng.randint(0, 1) for i in (0, 1)])
            pts.insert(rng.randint(0, m), [sum(p[i] for p in pts) // m for i in (0, 1)])
        out.append({"kind": "median", "pts": pts, "cont": rng.choice(CONT),
                    "off": rng.choice([[0, 0], [0, 0], [300, -20]]), "scale": rng.choice([1, 1, 2, 2**-17, 2**17])})
    for r in range(6 if tier == "quick" else 100):    # many points
        n, g = rng.choice([60, 150, 400]), 12
        pts = [[rng.randint(0, g), rng.randint(0, g)] for _ in range(n)]
        if r % 2:      # in a disc
            pts = [p for p in pts if (p[0] - 6) ** 2 + (p[1] - 6) ** 2 <= 37]
        out.append({"kind": "tiny", "sets": [pts], "cont": rng.choice(CONT), "numba": r % 3 != 0, "mbc": False})
        out.append({"kind": "general", "pts": [[rng.randint(0, 999), rng.randint(0, 999)] for _ in range([50, 200, 1000][r % 3])],
                    "numba": r % 2 == 0})
        out.append({"kind": "median", "pts": [[rng.randint(0, 6), rng.randint(0, 6)] for _ in range([40, 150][r % 2])],
                    "cont": rng.choice(CONT), "off": [0, 0], "scale": rng.choice([1, 2])})
    core.far(out)
    for r in range(24 if tier == "quick" else 600):   # projected
        pts = [[rng.randint(0, 6), rng.randint(0, 6)] for _ in range(rng.choice([5, 7, 10]))]
        if not collinear(pts):
            out.append({"kind": "tiny", "sets": [pts], "cont": rng.choice(CONT), "numba": r % 3 > 0, "off": [500000, 4000000],
                        "scale": [1, 0.5, 2][r % 3]})
    for r in range(30 if tier == "quick" else 600):   # metres, in degrees
        n, g = rng.choice([5, 8, 12, 20]), rng.choice([4, 8, 12])
        pts = [[80 * rng.randint(0, g), 80 * rng.randint(0, g)] for _ in range(n)]
        if not collinear(pts):
            out.append({"kind": "general", "pts": pts, "numba": r % 2 == 0, "geog": [[-80, 40], 1.25e-7]})
    for s in out:
        if s.get("numba") is False:
            s["env"] = {"VERIF_NO_NUMBA": "1"}
    return out


def circle(pt, c, kw, numba, isgeo):
    import sys

    import numpy as np
    import shapely

    assert numba == (sys.modules.get("numba") is not None)
    # options of shapely's buffer are for geopandas containers
    if isgeo and len(c) % 2:
        kw = {**kw, "quad_segs": 40}
    r = pt.minimum_bounding_circle(c, **kw)
    if isgeo:
        assert isinstance(r, shapely.Polygon), type(r)
        assert "quad_segs" not in kw or len(r.exterior.coords) == 161, len(r.exterior.coords)
        v = shapely.get_coordinates(r)[:-1]
        m = (v.min(axis=0) + v.max(axis=0)) / 2
        d = np.hypot(*(v - m).T)
        assert np.ptp(d) < 1e-6 * d.max() + 1e-9
        return m[0], m[1], float(d.mean())
    (x, y), rad = r
    return float(x), float(y), float(rad)


def execute(scn, rec):
    import numpy as np
    import pointpats as pt
    import shapely

    if scn["kind"] == "tiny":
        s, (ox, oy) = scn.get("scale", 1), scn.get("off", [0, 0])
        cont = scn["cont"]
        g = geo(cont)
        for pts in scn["sets"]:
            xy = [[p[0] * s + ox, p[1] * s + oy] for p in pts]
            c = container(cont, xy)

            def dec(v, f=it):
                return [[f((a - ox) / s), f((b - oy) / s)] for a, b in v]

            def poly(r):
                assert isinstance(r, shapely.Polygon), type(r)
                return shapely.get_coordinates(r)[:-1]

            r, exc = rec.call(lambda: dec(poly(pt.hull(c)) if g else pt.hull(c)))
            if exc:
                rec.fail("Hull", "", exc, pts=pts, cont=cont)
            else:
                rec.ev("Hull", pts=pts, cont=cont, v=r, ccw=not g)

            def mrr(angle):
                r = pt.minimum_rotated_rectangle(c, **({"return_angle": True} if angle else {}))
                deg = 0.0
                if angle:
                    r, deg = r
                v = dec(poly(r) if g else r, lambda x: q(x, maxden=600, tol=1e-7))
                t = math.radians(deg)
                return dict(v=v, angle=angle, deg=core.fx(deg, 1000), ca=core.fx(math.cos(t), 1e4),
                            sa=core.fx(math.sin(t), 1e4))

            for angle in (False, True):
                r, exc = rec.call(mrr, angle)
                if exc:
                    rec.fail("Mrr", "", exc, pts=pts, cont=cont)
                else:
                    rec.ev("Mrr", pts=pts, cont=cont, **r)
            if not scn.get("mbc", True):
                continue
            kw = {"quad_segs": 3} if g and len(pts) % 2 else {}
            r, exc = rec.call(circle, pt, c, kw, scn["numba"], g)
            if exc:
                rec.fail("Mbc", "", exc, pts=pts, cont=cont)
            else:
                x, y, rad = r
                rec.ev("Mbc", pts=pts, cont=cont, numba=scn["numba"], cx=q((x - ox) / s, maxden=200, tol=1e-7),
                       cy=q((y - oy) / s, maxden=200, tol=1e-7), r2=q((rad / s) ** 2, maxden=2600, tol=1e-8))
        return
    pts = scn["pts"]
    if scn["kind"] == "general":
        (ox, oy), s = scn.get("geog", [[0, 0], 1])
        r, exc = rec.call(circle, pt, np.array(pts, dtype=float) * s + np.array([ox, oy]), {}, scn["numba"], False)
        if exc:
            rec.fail("MbcF", "", exc, pts=pts)
        else:
            rec.ev("MbcF", pts=pts, numba=scn["numba"], cx=core.fx((r[0] - ox) / s, 10), cy=core.fx((r[1] - oy) / s, 10), r=core.fx(r[2] / s, 10))
        return
    s, (ox, oy) = scn["scale"], scn["off"]
    g = geo(scn["cont"])
    c = container(scn["cont"], [[p[0] * s + ox, p[1] * s + oy] for p in pts])

    def med():
        a, b = unpair(pt.euclidean_median(c), g)
        return (a - ox) / s, (b - oy) / s

    r, exc = rec.call(med)
    if exc:
        rec.fail("Med", "", exc, pts=pts)
    else:
        x, y = r
        rec.ev("Med", pts=pts, cont=scn["cont"], x=core.fx(x, 100), y=core.fx(y, 100),
               rel=[[core.fx(p[0] - x, 3000), core.fx(p[1] - y, 3000)] for p in pts])
