"""Density plots."""
import random
import warnings

import core
from core import Model

MODELS = [Model("ContourLaws", "ContourLaws.cfg", emits=True, thorough_cfg="ContourLaws_t.cfg"), Model("ContourLaws", "ContourLaws_yx.cfg", refutes=True),
          Model("ContourLaws", "ContourLaws_short.cfg", refutes=True), Model("DensityLaws", "DensityLaws.cfg", thorough_cfg="DensityLaws_t.cfg"),
          Model("DensityLaws", "DensityLaws_radius.cfg", refutes=True)]
TRACE = "T_DEN"
ASSUMPTIONS = ["contours are matplotlib's, the estimators statsmodels' and KDEpy's; what is judged is the picture against the density computed in the specification",
               "densities of the KDEpy engine are judged to a few per cent (it bins the points)"]
KER = ["gaussian", "epa", "biweight", "triweight", "tri"]


def scenarios(emitted, rng, tier):
    th = tier != "quick"
    em = emitted["ContourLaws"]
    out = []
    for r in range(700 if th else 70):
        up = [k for k in rng.choice(em)["up"]]
        a = rng.choice([2, 3])
        pts = [[p[0] * a, p[1] * rng.choice([a, a, 2 * a])] for p in up] + [[0, 0], [rng.choice([4, 6, 9]), rng.choice([3, 5, 8])]]
        pts += [[1, 1]] * (len(pts) < 3)
        out.append({"kind": "coarse", "pts": pts, "h": rng.choice([[1, 2], [1, 1], [3, 2], [2, 1], [3, 1]]), "res": [rng.randint(4, 13), rng.randint(4, 13)],
                    "m": rng.choice([[1, 10], [0, 1], [1, 2], [1, 4], [1, 1], "default"])})
    for r in range(900 if th else 80):
        n = 40 if r % 20 == 9 else rng.choice([3, 4, 5, 8, 12])
        pts = [[rng.randint(0, rng.choice([4, 12])), rng.randint(0, rng.choice([3, 12]))] for _ in range(n - 1)] + [[-1, rng.choice([1, -2])]]
        pts += [[1, 2]] if len({p[1] for p in pts}) == 1 else []
        out.append({"kind": "coarse", "pts": pts, "h": rng.choice([[1, 1], [3, 2], [2, 1], [5, 2]]), "res": [rng.randint(4, 15), rng.randint(4, 15)],
                    "m": rng.choice([[1, 10], [0, 1], [1, 2], [1, 5], "default"])})
    for r in range(300 if th else 32):
        n = rng.choice([3, 5, 8])
        pts = [[rng.randint(0, 9), rng.randint(0, rng.choice([4, 9]))] for _ in range(n - 1)] + [[-2, rng.choice([1, -2])]]
        pts += [[1, 2]] if len({p[1] for p in pts}) == 1 else []
        out.append({"kind": "fine", "engine": "sm", "pts": pts, "h": rng.choice([[1, 1], [3, 2], [2, 1]]), "res": rng.choice(["default", "default", None, [80, 120], [90, 60]]),
                    "m": rng.choice([[1, 2], [1, 4], "default"])})
    for r in range(600 if th else 70):
        n = rng.choice([3, 5, 8])
        pts = [[rng.randint(0, 9), rng.randint(0, rng.choice([4, 9]))] for _ in range(n - 1)] + [[-2, rng.choice([1, -2])]]
        pts += [[1, 2]] if len({p[1] for p in pts}) == 1 else []
        out.append({"kind": "fine", "engine": KER[r % 5], "pts": pts, "h": rng.choice([[1, 1], [3, 2], [2, 1]]), "res": rng.choice(["default", None, [96, 160], [160, 96], [128, 128]]), "m": "default"})
    for r in range(120 if th else 24):
        out.append({"kind": "bad", "pts": [[0, 0], [3, 1], [2, 5], [7, 2]], "bad": ["poly", "line", "mixed", "reslist", "resstr", "kernel", "polyframe", "resdict"][r % 8]})
    for s in out:
        s.update(seed=rng.randint(0, 10**6), scale=rng.choice([1, 1, 0.5, 0.125, 100, 2**-17, 2**17]), off=rng.choice([[0, 0], [0, 0], [1000, -500], [5, 0]]),
                 data=rng.choice(["array", "array", "series", "frame", "multi", "multiframe", "geom"]),
                 levels=rng.choice([None, None, 3, 5, 10, 20, "list", "list", "array"]), fill=rng.random() < 0.3, ax=rng.random() < 0.5, ret=rng.random() < 0.85,
                 style=rng.choice([None, None, "alpha", "cmap", "colors"]))
    for s in out:
        if s.get("engine", "sm") != "sm" and not 0.1 < s["scale"] < 1000:
            s["scale"] = 1     # KDEpy works with absolute tolerances
    return out


def execute(scn, rec):
    import geopandas
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    import numpy as np
    import shapely
    from matplotlib.contour import ContourSet
    from pointpats import plot_density

    warnings.simplefilter("ignore")
    rng = random.Random(scn["seed"])
    s, off = scn["scale"], scn["off"]
    pts = scn["pts"]
    xy = np.array([[p[0] * s + off[0], p[1] * s + off[1]] for p in pts], dtype=float)

    def container(d):
        if d == "array":
            return core.narrow(xy.copy(), 3)
        P = [shapely.Point(*p) for p in xy]
        if d in ("multi", "multiframe"):
            k = rng.randint(1, len(P) - 1)
            P = [shapely.MultiPoint(xy[:k]), *([shapely.Point(xy[k])] if k % 2 else []), shapely.MultiPoint(xy[k + k % 2:])]
            P = [p for p in P if not p.is_empty]
        crs = rng.choice([None, 3857])
        g = geopandas.GeoSeries(P, crs=crs, index=rng.sample(range(100), len(P)))
        if d in ("frame", "multiframe"):
            return geopandas.GeoDataFrame({"v": range(len(P))}, geometry=g.values, crs=crs)
        return geopandas.GeoDataFrame({"v": range(len(P)), "where": g.values}, geometry="where", crs=crs) if d == "geom" else g

    if scn["kind"] == "bad":
        b = scn["bad"]
        data, kw, want = xy, {}, "ValueError"
        box = shapely.box(0, 0, 2, 3)
        if b in ("poly", "polyframe"):
            data = geopandas.GeoSeries([box, box])
            data = geopandas.GeoDataFrame(geometry=data) if b == "polyframe" else data
        elif b == "line":
            data = geopandas.GeoSeries([shapely.LineString([(0, 0), (1, 1)]), shapely.Point(1, 1)])
        elif b == "mixed":
            g = [shapely.Point(0, 0), shapely.Point(3, 2), shapely.Point(1, 4), box]
            rng.shuffle(g)
            data = geopandas.GeoSeries(g)
        else:
            kw = {"reslist": {"resolution": [20, 20]}, "resstr": {"resolution": "fine"}, "resdict": {"resolution": {"x": 3}}, "kernel": {"kernel": "nope"}}[b]
        _, exc = rec.call(plot_density, data, 1.5, **kw)
        rec.ev("Error", b, kind=exc.split(":")[0], want=want)
        plt.close("all")
        return

    h = scn["h"]
    hh = h[0] / h[1] * s
    eng = "sm" if scn["kind"] == "coarse" else scn["engine"]
    ker = "gaussian" if eng == "sm" else eng
    n = len(pts)
    norm = n * (h[0] / h[1]) ** 2 * s * s      # density -> lattice units, times n h^2
    kw = {}
    if eng != "sm":
        kw["kernel"] = eng
    res = scn["res"]
    if res is None:
        kw["resolution"] = None
    elif res != "default":
        square = rng.random() < 0.3
        res = [res[0], res[0]] if square else res
        kw["resolution"] = res[0] if square and rng.random() < 0.7 else tuple(res)
    mesh = [100, 100] if res in (None, "default") else res
    m = [1, 10] if scn["m"] == "default" else scn["m"]
    if scn["m"] != "default":
        kw["margin"] = m[0] / m[1]
    lev = scn["levels"]
    peak = (0.5 if ker in ("gaussian", "tri") else 0.4) / 3.14159 / norm
    if lev in ("list", "array"):
        q = sorted(rng.sample([1, 2, 3, 4, 6, 8, 10, 12, 15, 20], rng.choice([2, 3, 5])))
        ex = [v / 10 * peak for v in q]
        kw["levels"] = ex if lev == "list" else np.array(ex)
    elif lev is not None:
        kw["levels"] = lev
    if scn["fill"]:
        kw["fill"] = True
    if scn["ret"]:
        kw["return_contourset"] = True
    style = scn["style"]
    if style:
        kw[style] = {"alpha": 0.25, "cmap": "magma", "colors": ["red"]}[style]
    if scn["seed"] % 3 == 0:
        kw["zorder"] = 5.5
    other = None
    if rng.random() < 0.4:
        # somebody else's figure is current
        other = plt.subplots()[1]
        other.plot([0, 1], [1, 0])
    before = len(plt.get_fignums())
    given = None
    if scn["ax"]:
        fig, axs = plt.subplots(1, 2)
        given = axs[1]
        plt.sca(axs[0])
        kw["ax"] = given
        if rng.random() < 0.3:
            kw["figsize"] = (3, 2)
    elif rng.random() < 0.5:
        kw["figsize"] = (5, 7)
    data = container(scn["data"])
    orig = data.copy()
    r, exc = rec.call(plot_density, data, hh, **kw)
    if exc:
        rec.fail("Plot", eng, exc)
        plt.close("all")
        return
    if scn["ret"]:
        if not (isinstance(r, tuple) and len(r) == 2):
            rec.ev("Equal", eng, a=str(type(r)), b="tuple", what="returns_axes_and_contours")
            return
        ax, cs = r
    else:
        ax = r
        cs = [c for c in getattr(ax, "collections", []) if isinstance(c, ContourSet)]
        cs = cs[0] if len(cs) == 1 else None
    sets = [c for c in ax.collections if isinstance(c, ContourSet)] if hasattr(ax, "collections") else []
    rec.ev("Equal", eng, a=[len(sets), len(sets) > 0 and sets[0] is cs], b=[1, True], what="drawn_once_on_the_axes_returned")
    if given is not None:
        rec.ev("Equal", eng, a=[ax is given, len(axs[0].collections), len(plt.get_fignums())], b=[True, 0, before + 1], what="drawn_on_the_axes_given")
    else:
        size = [round(float(v), 6) for v in ax.figure.get_size_inches()]
        rec.ev("Equal", eng, a=[len(plt.get_fignums()), len(ax.figure.axes), size], b=[before + 1, 1, [5, 7] if "figsize" in kw else [float(v) for v in plt.rcParams["figure.figsize"]]], what="new_axes")
    if other is not None:
        rec.ev("Equal", eng, a=[len(other.collections), len(other.lines), len(other.figure.axes), other.get_aspect() == "auto"], b=[0, 1, 1, True], what="other_figures_untouched")
    if cs is None:
        return
    same = bool((np.asarray(orig) == np.asarray(data)).all()) if scn["data"] == "array" else bool((orig.geometry if hasattr(orig, "geometry") else orig).geom_equals(data.geometry).all())
    rec.ev("Equal", eng, a=[same, bool(cs.filled)], b=[True, bool(scn["fill"])], what="data_unchanged_and_filled_on_request")
    if style:
        got = {"alpha": lambda: cs.get_alpha(), "cmap": lambda: cs.get_cmap().name, "colors": lambda: matplotlib.colors.to_hex((cs.get_facecolor() if scn["fill"] else cs.get_edgecolor())[0])}[style]()
        rec.ev("Equal", eng, a=got, b={"alpha": 0.25, "cmap": "magma", "colors": "#ff0000"}[style], what="style_passed_on")
    rec.ev("Equal", eng, a="zorder" not in kw or cs.get_zorder(), b=kw.get("zorder", True), what="style_passed_on")
    levels = [float(v) for v in cs.levels]
    paths = cs.get_paths()
    plt.close("all")
    if lev in ("list", "array"):
        rec.ev("Equal", eng, a=len(levels) == len(ex) and all(abs(a - b) < 1e-9 * b for a, b in zip(levels, ex)), b=True, what="levels_as_given")
    flev = [core.fx(v * norm, 10000) for v in levels]
    base = dict(pts=pts, h=h, res=mesh, m=m, ker=ker, lev=flev)

    def lines(p):
        v = [[(x - off[0]) / s, (y - off[1]) / s] for x, y in p.vertices]
        codes = p.codes if p.codes is not None else [1] + [2] * (len(v) - 1)
        out = []
        for c, w in zip(codes, v):
            if c == 1:
                out.append([w])
            elif c == 79:
                out[-1].append(out[-1][0])
            else:
                out[-1].append(w)
        return out
    K = lambda w: [core.fx(w[0]), core.fx(w[1])]  # noqa: E731
    tol = (40 + 10 * n) if eng == "sm" else (150 + 60 * n) * (3 if res is None else 1)
    # the number of levels
    if not isinstance(lev, str) and scn["kind"] == "coarse":
        rec.ev("Levels", eng, n=lev or 10, **base)
    if scn["fill"]:
        if eng == "sm" and scn["kind"] == "coarse":
            ks = [k for k in range(len(levels) - 1)]
            for k in rng.sample(ks, min(3, len(ks))):
                rings = [[K(w) for w in q] for q in lines(paths[k])]
                rec.ev("Filled", eng, k=k + 1, rings=rings, **base)
            return
        ks = list(range(len(levels) - 1))
        for k in rng.sample(ks, min(2, len(ks))):
            rings = [[K(w) for w in q] for q in lines(paths[k])]
            probes = [[rng.randint(500 * (min(p[c] for p in pts)), 500 * max(p[c] for p in pts)) * 2 + 1 for c in (0, 1)] for _ in range(20)]
            probes += [[1000 * p[0] + 1, 1000 * p[1] - 1] for p in rng.sample(pts, 3) if p[0] < max(q[0] for q in pts) and p[1] > min(q[1] for q in pts)]
            rec.ev("Band", eng, k=k + 1, rings=rings, probes=probes, tol=tol, **base)
        return
    # levels within the density
    ks = [k for k in range(len(levels)) if levels[k] > 0]
    if scn["kind"] == "coarse":
        for k in rng.sample(ks, min(2, len(ks))):
            vs = {tuple(K(w)) for q in lines(paths[k]) for w in q}
            rec.ev("Coarse", eng, k=k + 1, verts=sorted(map(list, vs)), **base)
        return
    for k in rng.sample(ks, min(2, len(ks))):
        ls = lines(paths[k])
        allv = [K(w) for q in ls for w in q]
        x0, x1, y0, y1 = min(p[0] for p in pts), max(p[0] for p in pts), min(p[1] for p in pts), max(p[1] for p in pts)
        probes = []
        for _ in range(6):
            a, b = sorted(rng.sample(range(1000 * x0, 1000 * x1), 2))
            probes.append([a, b, rng.randint(1000 * y0, 1000 * y1) // 2 * 2 + 1])
        for p in rng.sample(pts, min(3, len(pts))):
            # across a point, from outside
            probes.append([1000 * x0, 1000 * p[0], 1000 * p[1] + 1])
        rec.ev("Fine", eng, k=k + 1, verts=rng.sample(allv, min(16, len(allv))), lines=[[K(w) for w in q] for q in ls], probes=[p for p in probes if p[0] < p[1]],
               tol=tol, mesh=eng == "sm", **base)
    if eng != "sm":
        from KDEpy import FFTKDE
        g, _ = FFTKDE(bw=hh, kernel=eng).fit(xy).evaluate(tuple(mesh) if res not in (None, "default") else (100 if res == "default" else None))
        gx, gy = np.unique(g[:, 0]), np.unique(g[:, 1])
        dx, dy = gx[1] - gx[0], gy[1] - gy[0]
        worst = 0
        for p in paths:
            for x, y in p.vertices:
                fx, fy = (x - gx[0]) / dx, (y - gy[0]) / dy
                worst = max(worst, min(abs(fx - round(fx)), abs(fy - round(fy))))
        rec.ev("Equal", eng, a=bool(worst < 1e-3), b=True, what="vertices_on_the_requested_grid")
