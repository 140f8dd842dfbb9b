"""Standard deviational ellipse."""
import math
import random
from fractions import Fraction

import core
from core import Model, it, q
from props.c04 import container, geo

MODELS = [Model("CentroLaws", "CentroLaws.cfg", emits=True, thorough_cfg="CentroLaws_t.cfg", timeout=3000)]
TRACE = "T_CEN"
ASSUMPTIONS = ["at least three points, not all on one line", "coordinates 0..4 so that products of moments fit TLC's integers"]


def scenarios(emitted, rng, tier):
    out = []
    for r in range(260 if tier == "quick" else 6000):
        n = rng.choice([3, 4, 4, 5, 6, 7, 8])
        kind = r % 6
        if kind == 0:   # axis-aligned cloud: no covariance
            a, b = rng.randint(1, 2), rng.randint(0, 2)
            pts = [[2 - a, 2], [2 + a, 2], [2, 2 - b], [2, 2 + b], [2, 2]]
        elif kind == 1:  # isotropic or symmetric about the diagonal
            pts = [[0, 0], [4, 4], [1, 3], [3, 1], [2, 2]][:rng.choice([4, 5])]
            if r % 12 == 1:
                pts = [[4 - x, y] for x, y in pts]
        else:
            pts = [[rng.randint(0, 4), rng.randint(0, 4)] for _ in range(n)]
        w = [1] * len(pts) if r % 3 else [rng.randint(1, 2) for _ in pts]
        X = len({tuple(p) for p in pts})
        if X < 3 or collinear(pts):
            continue
        m = rng.choice([("crimestat", True, True), ("crimestat", True, True), ("yuill", True, True),
                        ("yuill", False, True), ("yuill", True, False), ("yuill", False, False)])
        out.append({"pts": pts, "w": w, "weighted": bool(r % 3 == 0), "method": m[0], "cc": m[1], "df": m[2],
                    "off": rng.choice([[0, 0], [0, 0], [100, -70], [5000, 2000]]), "scale": rng.choice([1, 1, 0.5, 8, 2**-17, 2**17]),
                    "cont": rng.choice(["array", "array", "list", "frame", "geoseries", "geoseries", "geodataframe"])})
    for r in range(8 if tier == "quick" else 200):    # many points, on the corners of a square
        pts = [[2 * rng.randint(0, 1), 0] if rng.random() < 0.3 else [rng.randint(0, 1), rng.randint(0, 1)] for _ in range(24)] if r % 2 else \
              [[rng.randint(0, 1), rng.randint(0, 1)] for _ in range(rng.choice([32, 40]))]
        m = [("crimestat", True, True), ("yuill", True, True), ("yuill", False, False), ("yuill", False, True)][r % 4]
        out.append({"pts": pts, "w": [1] * len(pts), "weighted": bool(r % 2), "method": m[0], "cc": m[1], "df": m[2],
                    "off": [0, 0], "scale": 1, "cont": rng.choice(["array", "list", "frame", "geoseries", "geodataframe"])})
    for r in range(8 if tier == "quick" else 200):    # many copies of a few points
        while True:
            pts = [[rng.randint(0, 2), rng.randint(0, 2)] for _ in range(rng.choice([3, 4]))]
            if not collinear(pts):
                break
        m = rng.choice([("crimestat", True, True), ("yuill", True, True), ("yuill", False, True), ("yuill", True, False), ("yuill", False, False)])
        w = [1] * len(pts) if r % 2 else [rng.randint(1, 2) for _ in pts]
        mom = [sum(w) * sum(v * p[i] ** 2 for v, p in zip(w, pts)) - sum(v * p[i] for v, p in zip(w, pts)) ** 2 for i in (0, 1)]
        mult = [25, 50, 100, 200, 400]
        k = rng.choice([k for k in mult if mom[0] * mom[1] * numerator(m, k * len(pts)) ** 2 < 2**30] or [10])
        out.append({"pts": pts, "w": w, "weighted": r % 2 == 0, "method": m[0], "cc": m[1], "df": m[2], "m": k,
                    "off": rng.choice([[0, 0], [100, -70]]), "scale": 1, "cont": rng.choice(["array", "list", "frame", "geoseries", "geodataframe"])})
    return core.far(out, reach=22)    # the corners of the polygon have to keep their digits


def correction(m, n):
    both = m[0] == "crimestat"
    return Fraction((2 if both or m[1] else 1) * (n if both or m[2] else 1), n - 2 if both or m[2] else 1)


def numerator(m, n):
    return correction(m, n).numerator


def collinear(p):
    a = p[0]
    b = next((x for x in p if x != a), None)
    return b is None or all((b[0] - a[0]) * (c[1] - a[1]) == (b[1] - a[1]) * (c[0] - a[0]) for c in p)


def execute(scn, rec):
    import numpy as np
    import pointpats as pt
    import shapely

    s, (ox, oy) = scn["scale"], scn["off"]
    pts, w = scn["pts"], scn["w"]
    xy = [[p[0] * s + ox, p[1] * s + oy] for p in pts]
    W, m = sum(w), scn.get("m", 1)
    base = dict(cont=scn["cont"], pts=pts, w=w, method=scn["method"], cc=scn["cc"], df=scn["df"], m=m)
    if m > 1:
        order = list(range(m * len(pts)))
        random.Random(m).shuffle(order)
        xy, w = [xy[i % len(pts)] for i in order], [w[i % len(pts)] for i in order]
    n = len(xy)
    c = container(scn["cont"], xy)
    kw = {"method": scn["method"] if scn["id"] % 3 else scn["method"].upper()}
    if scn["method"] == "yuill" or scn["id"] % 2:
        kw.update(crimestatCorr=scn["cc"], degfreedCorr=scn["df"])
    if scn["weighted"]:
        kw["weights"] = [x * 0.5 for x in w] if scn["id"] % 2 else np.array(w)
    r, exc = rec.call(pt.ellipse, c, **kw)
    if r is None:
        rec.fail("Ell", "", exc, **base)
        return
    centre = []
    if geo(scn["cont"]):
        assert isinstance(r, shapely.Polygon), type(r)
        z = r.centroid
        centre = [q((z.x - ox) / s, maxden=W, tol=1e-5), q((z.y - oy) / s, maxden=W, tol=1e-5)]
        v = shapely.get_coordinates(r) - [z.x, z.y]
        d = np.hypot(v[:, 0], v[:, 1])
        major, minor = d.max() / s, d.min() / s
        t = math.atan2(*v[d.argmax()][::-1])
    else:
        major, minor, t = (float(x) for x in r)
        major, minor = major / s, minor / s
    k = correction((scn["method"], scn["cc"], scn["df"]), n).denominator
    det = (major * minor) ** 2 * W**4 * k**2
    rec.ev("Ell", centre=centre, trace=q(major**2 + minor**2, maxden=W * W * k, tol=1e-7),
           det=int(round(det)) if det < core.LIM and abs(det - round(det)) < 1e-6 * max(1, det) else core.LIM,
           major=core.fx(major, 10000) + 1, minor=core.fx(minor, 10000),
           c2=core.fx(math.cos(2 * t), 1e6), s2=core.fx(math.sin(2 * t), 1e6), **base)
    if scn["id"] % 10 == 0:
        for want, f in (("ValueError", lambda: pt.ellipse(np.array(xy), method="nosuch")),
                        ("ValueError", lambda: pt.ellipse(np.array(xy), weights=[1.0] * (n + 1)))):
            _, exc = rec.call(f)
            rec.ev("Error", want=want, kind=exc.split(":")[0])
