"""Plots of patterns, quadrat grids and quadrat statistics."""
import math
import random
import warnings

import core
from core import Model
from props._fig import read
from props._geo import pick, shp
from props._sam import lpoly
from props.c07 import CONT, cont

MODELS = [Model("PlotSession", "PlotSession.cfg", emits=True, thorough_cfg="PlotSession_t.cfg"), Model("PlotSession", "PlotSession_oldest.cfg", refutes=True),
          Model("PlotSession", "PlotSession_chosen.cfg", refutes=True), Model("CellRegion", "CellRegion.cfg", emits=True)]
TRACE = "T_PLOT"
ASSUMPTIONS = ["an axes is read as its markers, outlines and texts, whatever artists draw them; colours of outlines and limits of the view are not judged"]
TITLES = ["Point Pattern", "a b", "Quadrat Count", "Kénya"]


def points(rng, n=None):
    n = n or rng.choice([3, 4, 6, 10, 25, 3, 4, 6, 10, 25, 3, 4, 6, 10, 25, 120])
    w, h = rng.choice([4, 9, 30]), rng.choice([3, 9, 12])
    pts = [[rng.randint(-w, w), rng.randint(-h, h)] for _ in range(n - 2)] + [[-w, rng.randint(0, h)], [w - 1, -h]]
    if rng.random() < 0.4:
        pts += [rng.choice(pts) for _ in range(3)]
    rng.shuffle(pts)
    a = pts[0]
    if all((p[0] - a[0]) * (q[1] - a[1]) == (q[0] - a[0]) * (p[1] - a[1]) for p in pts for q in pts):
        pts.append([0, h + 1])
    return pts


def one(rng, em, kind):
    s = {"what": kind, "pts": points(rng), "win": pick(em, rng) if rng.random() < 0.5 else [], "seed": rng.randint(0, 10**6), "title": rng.choice([None, *TITLES])}
    if kind == "pattern":
        s.update(window=rng.random() < 0.6, hull=rng.random() < 0.5, ax=rng.random() < 0.7)
    else:
        s.update(shape="hexagon" if kind == "hex" or kind == "chi2" and rng.random() < 0.5 else "rectangle", cls=kind == "chi2" or rng.random() < 0.5,
                 show="chi2" if kind == "chi2" else "counts", mode=rng.choice(["count", "count", "size"]), nc=rng.choice([1, 2, 3, 3, 4, 5]), nr=rng.choice([1, 2, 3, 4]),
                 w=[rng.choice([2, 3, 5, 7]), rng.choice([1, 1, 2])], h=[rng.choice([2, 3, 5]), 1], hh=rng.choice([2, 3, 4, 6]), direct=False, cont=rng.choice(CONT))
        if s["w"][0] % 2 == 0:
            s["w"][1] = 1
    return s


def scenarios(emitted, rng, tier):
    th = tier != "quick"
    em = emitted["CellRegion"]
    out = []
    for r in range(900 if th else 70):
        out.append({"kind": "one", "do": one(rng, em, "pattern")})
    for r in range(1500 if th else 130):
        d = one(rng, em, ["rect", "hex", "chi2"][r % 3])
        if r % 3 < 2 and r % 2:
            d.update(show="chi2", cls=False, direct=True)
        out.append({"kind": "one", "do": d})
    hist = [e["hist"] for e in emitted["PlotSession"]]
    for h in rng.sample(hist, min(len(hist), 700 if th else 60)):
        out.append({"kind": "session", "hist": h, "do": [one(rng, em, a["do"]) if a["do"] in ("pattern", "rect", "hex", "chi2") else None for a in h]})
    for r in range(60 if th else 24):
        out.append({"kind": "bad", "bad": ["nochi", "short", "long", "show", "qshow", "hexnochi", "hexlong", "hexshow"][r % 8], "do": one(rng, em, "rect")})
    for s in out:
        s.update(scale=rng.choice([1, 1, 0.5, 0.1, 37, 2**-17, 2**17]), off=rng.choice([[0, 0], [0, 0], [-100, 50], [500, 0]]))
    return out


def execute(scn, rec):
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    import numpy as np
    import pointpats as pt

    warnings.simplefilter("ignore")
    s, (ox, oy) = scn["scale"], scn["off"]

    def draw(d, judge=True):
        rng = random.Random(d["seed"])
        sy = s * math.cos(math.pi / 6) * 2 if d.get("shape") == "hexagon" else s
        at = lambda p: [p[0] * s + ox, p[1] * sy + oy]  # noqa: E731
        un = lambda p: [core.fx((p[0] - ox) / s), core.fx((p[1] - oy) / sy)]  # noqa: E731
        xy = [at(p) for p in d["pts"]]
        kw = {} if d["title"] is None else {"title": d["title"]}
        default = {"pattern": "Point Pattern"}.get(d["what"], "Quadrat Count")

        def seen(ax, flipped=False):
            marks, rings, texts, tint = read(ax)
            return dict(marks=[un(p[::-1] if flipped else p) for p in marks], rings=[[un(p) for p in r] for r in rings],
                        texts=[{"at": un(t[:2]), "v": core.it(round(float(t[2]) * 100, 6))} for t in texts], tint=[{"ring": [un(p) for p in r], "v": core.fx(v, 100)} for r, v in tint],
                        title=ax.get_title(), wanttitle=default if d["title"] is None else d["title"])
        base = dict(pts=d["pts"], win=d["win"], slack=4)
        if d["what"] == "pattern":
            win = pt.as_window(lpoly({"parts": d["win"]}, s, (ox, oy), closed=rng.random() < 0.5, rev=rng.random() < 0.5)) if d["win"] else None
            names = rng.choice([None, None, ["a", "b", "m"], ["m", "lon", "lat"]])
            if names:
                import pandas as pd
                c = [n for n in names if n != "m"]
                df = pd.DataFrame({n: ([p[c.index(n)] for p in xy] if n in c else list(range(len(xy)))) for n in names}, index=rng.sample(range(999), len(xy)))
                pp = pt.PointPattern(df, names=names, coord_names=c, window=win)
            else:
                pp = pt.PointPattern(core.narrow(xy), window=win)
            if rng.random() < 0.5:
                pp.hull, pp.mbb
            flips = 0
            if not d["window"] and not d["hull"]:
                flips = rng.choice([0, 1, 1, 2])
                for _ in range(flips):
                    pp.flip_coordinates()
            opts = {k: True for k in ("window", "hull") if d[k]}
            if d["ax"]:
                opts["get_ax"] = True

            def go():
                ax = pp.plot(**opts, **kw)
                if not d["ax"]:
                    assert ax is None
                    ax = plt.gcf().axes[0]
                return seen(ax, flips % 2)
            v, exc = rec.call(go)
            if exc:
                rec.fail("Pattern", "pattern", exc)
            elif judge:
                rec.ev("Pattern", "pattern", window=d["window"], hull=d["hull"], **base, **v)
            return
        if d["win"]:
            kwin = {"window": shp(d["win"], rng, 1, (0, 0), multi=rng.random() < 0.3)}
            import shapely
            kwin["window"] = shapely.transform(kwin["window"], lambda a: np.column_stack([a[:, 0] * s + ox, a[:, 1] * sy + oy]))
            if rng.random() < 0.15:
                kwin["window"] = shapely.GeometryCollection([kwin["window"]])
        else:
            kwin = {}
        c = cont(d["cont"], xy)
        size = dict(rectangle_width=d["w"][0] / d["w"][1] * s, rectangle_height=d["h"][0] / d["h"][1] * s)
        hexa = d["shape"] == "hexagon"
        lh = 2.0 * d["hh"] * s

        def go():
            if d["cls"]:
                dims = dict(lh=lh) if hexa else size if d["mode"] == "size" else dict(nx=d["nc"], ny=d["nr"])
                q = pt.QStatistic(c, shape=d["shape"], **dims, **kwin)
                m = q.mr
            else:
                q = None
                m = pt.HexagonM(c, lh, **kwin) if hexa else pt.RectangleM(c, **(size if d["mode"] == "size" else dict(count_column=d["nc"], count_row=d["nr"])), **kwin)
            cnt = m.point_location_sta()
            ij = lambda i: [int(i) % m.count_column, int(i) // m.count_column]  # noqa: E731
            given, ids, hasids = [], [], False
            if q is not None:
                ax = q.plot(**kw, **({"show": d["show"]} if d["show"] != "counts" or rng.random() < 0.5 else {}))
            else:
                if d["direct"]:
                    given = [rng.randint(-900, 900) for _ in cnt]
                    kw.update(show="chi2", chi2_contrib=rng.choice([list, tuple, np.array])([g / 100 for g in given]))
                ax, ids = m.plot(**kw)
                hasids = True
            return dict(seen(ax), shape=d["shape"], nc=0 if hexa else m.count_column, nr=0 if hexa else m.count_row, mode=d["mode"], w=d["w"], h=d["h"], hh=d["hh"],
                        cells=[ij(k) for k in cnt], counts=[core.it(v) for v in cnt.values()], given=given, ids=[ij(i) for i in ids], hasids=hasids, show=d["show"])
        v, exc = rec.call(go)
        if exc:
            rec.fail("Quad", d["what"], exc)
        elif judge:
            rec.ev("Quad", d["what"], **base, **v)

    plt.close("all")
    if scn["kind"] == "one":
        draw(scn["do"])
        plt.close("all")
        return
    if scn["kind"] == "bad":
        b, d = scn["bad"], scn["do"]
        xy = np.array([[p[0] * s + ox, p[1] * s + oy] for p in d["pts"]])
        hexa = b.startswith("hex")
        m = pt.HexagonM(xy, 5.0 * s) if hexa else pt.RectangleM(xy)
        n = len(m.point_location_sta())
        f = {"nochi": lambda: m.plot(show="chi2"), "short": lambda: m.plot(show="chi2", chi2_contrib=[1.0] * (n - 1)), "long": lambda: m.plot(show="chi2", chi2_contrib=[1.0] * (n + 1)),
             "show": lambda: m.plot(show="count")}.get(b[3:] if hexa else b) or (lambda: pt.QStatistic(xy).plot(show="chi"))
        _, exc = rec.call(f)
        rec.ev("Error", b, kind=exc.split(":")[0], want="ValueError")
        plt.close("all")
        return

    def digest(num):
        out = []
        for ax in plt.figure(num).axes:
            marks, rings, texts, tint = read(ax)
            out.append([[[round(v, 9) for v in p] for p in marks], [[[round(v, 9) for v in p] for p in r] for r in rings], texts, ax.get_title()])
        import json
        import zlib
        return zlib.crc32(json.dumps(out).encode()) % 2**30
    rec.ev("Begin")
    open_ = []
    for a, d in zip(scn["hist"], scn["do"]):
        cur = plt.gcf().number if plt.get_fignums() else None
        if a["do"] == "close":
            plt.close(open_[a["k"] - 1])
            open_.pop(a["k"] - 1)
        elif a["do"] == "select":
            plt.figure(open_[a["k"] - 1])
        else:
            draw(d)
            new = [k for k in plt.get_fignums() if k not in open_]
            open_ = [k for k in open_ if k in plt.get_fignums()] + new
        cur = plt.gcf().number if plt.get_fignums() else None
        figs = [digest(k) for k in open_]
        if cur is not None:
            plt.figure(cur)
        rec.ev("Figs", a["do"], do=a["do"], k=a["k"], figs=figs)
    plt.close("all")
