"""Space-time hotspots: table, map and interactive map."""
import random
import warnings

import core
from core import Model
from props._st import dress, events, frame, index, many, place, thresholds

MODELS = [Model("HotLinks", "HotLinks.cfg", emits=True, thorough_cfg="HotLinks_t.cfg", timeout=3000),
          Model("HotLinks", "HotLinks_first.cfg", refutes=True), Model("HotLinks", "HotLinks_own.cfg", refutes=True)]
TRACE = "T_ST"
ASSUMPTIONS = ["events have distinct ids", "critical values are equal to a pseudo p-value or at least 1e-9 away from every p-value"]


def scenarios(emitted, rng, tier):
    th = tier != "quick"
    out = []
    em = emitted["HotLinks"]
    rng.shuffle(em)
    for e in em[:1500 if th else 130]:
        # events on a line whose close pairs are a path, times chosen so that all pairs are close or not
        out.append({"s": [[x, 0] for x in e["x"]], "t": e["t"], "dd": 4, "tt": 2})
    for r in range(2000 if th else 130):
        s, t = events(rng, n=rng.choice([2, 3, 5, 6, 8, 10, 12]))
        dd, tt = thresholds(rng)
        if r % 2:
            dd, tt = rng.choice([4, 9, 16]), rng.choice([2, 4])
        out.append({"s": s, "t": t, "dd": dd, "tt": tt})
    for r in range(400 if th else 40):   # long chains of close pairs: hotspots linked through events that are not
        n = rng.randint(9, 16)
        x = [0]
        while len(x) < n:
            x.append(x[-1] + rng.choice([0, 1, 1, 2, 2, 3]))
        out.append({"s": [[v, 0] for v in x], "t": [rng.randint(0, 4) for _ in x], "dd": rng.choice([16, 36]), "tt": 2, "chain": True})
    for r in range(40 if th else 4):
        s, t, dd, tt = many(rng, rng.choice([25, 40]))
        out.append({"s": s, "t": t, "dd": dd, "tt": tt, "big": True})
    for i, s in enumerate(out):
        dress(s, rng, i)
        s.update(perms=rng.choice([0, 9, 9, 19, 39, 99]), crits=rng.choice([["p", 0.05, "p"], ["p", "mid", 0.5], ["mid", "mid", 0.99], [0.3, "p", 0.0001]]),
                 keep=i % 7 == 0, cont=rng.choice(["array", "dataframe"]), index=rng.choice(["range", "perm", "perm", "shift", "str", "gap", "date", "half", "named", "named"]), iseed=rng.randint(0, 999), crs=i % 3,
                 view=rng.choice(["plot", "plot", "plot", "explore", ""]), infs=[rng.randint(0, 2) > 0 for _ in range(3)], kns=[rng.random() < 0.5 for _ in range(3)],
                 big=s.get("big", False), pal=rng.randint(0, 2), edges=rng.random() < 0.7, ownax=rng.random() < 0.6, skip=rng.randint(0, 2))
        if s.pop("chain", False):
            s.update(view="", kns=[False, False, True], crits=["mid", "mid", "mid"], infs=[i % 4 == 0, False, False], perms=rng.choice([9, 19]))
        if s["view"] == "explore" and i % 2:
            s.update(cont="array", index="named")
        if s["big"]:     # the exact p-values are judged in C18
            s.update(infs=[True] * 3, perms=rng.choice([19, 99]))
    return out


def execute(scn, rec):
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    import numpy as np
    from matplotlib.colors import to_rgba
    from pointpats import KnoxLocal

    warnings.simplefilter("ignore")
    s, t, delta, tau = place(scn)
    n = len(s)
    rnd = random.Random(scn["iseed"])
    ix = index(scn["index"], n, rnd)
    ids = list(range(n)) if ix is None else ix
    np.random.seed(scn["seed"])
    kw = dict(permutations=scn["perms"], keep=scn["keep"])
    crs = 3857 if scn["crs"] == 1 and scn["cont"] == "dataframe" else None
    if scn["cont"] == "array":
        o, exc = rec.call(KnoxLocal, s, t, delta, tau, ids=ids if ix is not None else None, **kw)
    else:
        o, exc = rec.call(KnoxLocal.from_dataframe, frame(scn, s, t, index=ix, crs=crs), "T", delta, tau, **kw)
    if exc:
        rec.fail("Rows", "", exc)
        return
    pos = {v: k + 1 for k, v in enumerate(ids)}
    sc, off = scn["scale"], scn["off"]
    ux = lambda v: core.it(round((v - off[0]) / sc, 6))  # noqa: E731
    uy = lambda v: core.it(round((v - off[1]) / sc, 6))  # noqa: E731
    ut = lambda v: core.it(round(v / scn["tsc"] - scn.get("t0", 0), 6))  # noqa: E731
    base = dict(s=scn["s"], t=scn["t"], dd=scn["dd"], tt=scn["tt"])

    for k, c in enumerate(scn["crits"]):
        inf = "permutation" if scn["infs"][k] else "analytic"
        fallback = inf == "permutation" and scn["perms"] == 0
        perm = inf == "permutation" and not fallback
        pv = o.p_sims if perm else o.p_hypergeom
        u = np.unique(np.round(pv, 9))
        if c == "p":
            if perm:
                m = rnd.choice([int(round(v * (scn["perms"] + 1))) for v in pv])
                crit = m / (scn["perms"] + 1)
            else:
                c = "mid"
        if c == "mid":
            a = rnd.randrange(len(u))
            crit = float(u[a] + u[a + 1]) / 2 if a + 1 < len(u) else float(u[a]) * 0.7 + 0.3
        elif c != "p":
            crit = c
        if c != "p" and np.min(np.abs(pv - crit)) < 1e-9:
            crit += 0.001
        pq = core.qs(pv, maxden=100000, tol=1e-11)
        cq = core.q(round(crit, 4), maxden=10000) if c != "p" else core.q(crit, maxden=scn["perms"] + 1)
        if c != "p":
            crit = cq[0] / cq[1]
            if np.min(np.abs(pv - crit)) < 1e-9:
                continue
        kn = scn["kns"][k]
        a = dict(crit=crit, inference=inf, keep_neighbors=kn)
        if inf == "permutation" and k == 1:
            del a["inference"]
        if kn and k == 2:
            del a["keep_neighbors"]
        if crit == 0.05 and k == 1:
            del a["crit"]
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            h, exc = rec.call(o.hotspots, **a)
            warned = any("analytic" in str(x.message) for x in w)
        if exc:
            rec.fail("Rows", "", exc)
            continue
        rows = [[pos.get(r.focal, -1), 0 if r.neighbor != r.neighbor or r.neighbor is None else pos.get(r.neighbor, -1), str(r.orientation),
                 core.q(r.pvalue, maxden=100000, tol=1e-11), ut(r.focal_time), core.it(r.cluster), ux(r.geometry.x), uy(r.geometry.y)] for r in h.itertuples(index=False)]
        rec.ev("Rows", p=pq, crit=cq, keepn=kn, rows=rows, warned=warned, fallback=fallback, **base)
        rec.ev("Equal", a=str(h.crs), b=str(o.hotspots(**{**a, "crit": 1}).crs if crs else None), what="values_of_the_event")
        if not scn["view"] or k == scn["skip"]:
            continue
        names = [{}, {"colors": {"focal": "blue", "neighbor": "green", "nonsig": "black"}}, {"colors": {"focal": "orange", "neighbor": "cyan", "nonsig": "pink"}}][scn["pal"]]
        cols = names.get("colors", {"focal": "red", "neighbor": "yellow", "nonsig": "grey"})
        order = [cols["focal"], cols["neighbor"], cols["nonsig"]]
        edges = scn["edges"]
        a = dict(crit=crit, inference=inf, **names)
        if not edges:
            a["plot_edges"] = False
        onax = True
        pts, lines = [], []
        styled = (scn["id"] + k) % 3 == 0
        sty = []
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            if scn["view"] == "plot":
                plt.close("all")
                ax = plt.subplots()[1] if scn["ownax"] else None
                if ax is not None:
                    a["ax"] = ax
                if styled:
                    a.update(point_kwargs={"zorder": 7, "alpha": 1}, edge_kwargs={"linewidth": 3.5, "zorder": 3})
                m, exc = rec.call(o.plot, edge_color="purple", **a)
            else:
                if styled:
                    a.update([{"style_kwds": {"radius": 9}, "edge_weight": 6}, {"radius": 9, "edge_weight": 6}][scn["id"] % 2])
                m, exc = rec.call(o.explore, tiles=None, edge_color="purple", **a)
            warned = any("Using analytic" in str(x.message) for x in w)
        if exc:
            rec.fail("Drawn", scn["view"], exc)
            continue
        if scn["view"] == "plot":
            m.figure.canvas.draw()
            onax = ax is None or m is ax
            for col in m.collections:
                sty.append([1, float(col.get_linewidths()[0]), col.get_zorder()] if "Line" in type(col).__name__ else [0, 0, col.get_zorder()])
                if "Line" in type(col).__name__:
                    for p in col.get_segments():
                        lines.append([ux(p[0][0]), uy(p[0][1]), ux(p[-1][0]), uy(p[-1][1])])
                else:
                    of, fc = col.get_offsets(), col.get_facecolor()
                    for j, p in enumerate(of):
                        c = tuple(fc[j % len(fc)])
                        pts.append([ux(p[0]), uy(p[1]), next((x for x in order if to_rgba(x) == c), "?")])
            plt.close("all")
        else:
            import pyproj
            back = pyproj.Transformer.from_crs(4326, 3857, always_xy=True).transform if crs else lambda x, y: (x, y)
            for ch in m._children.values():
                for f in getattr(ch, "data", {}).get("features", []) if hasattr(ch, "data") else []:
                    g = f["geometry"]
                    sty.append([0, ch.style_function(f).get("radius")] if g["type"] == "Point" else [1, ch.style_function(f).get("weight")])
                    if g["type"] == "Point":
                        x, y = back(*g["coordinates"])
                        pts.append([ux(x), uy(y), f["properties"]["__folium_color"]])
                    else:
                        c = [back(*q) for q in g["coordinates"]]
                        lines.append([ux(c[0][0]), uy(c[0][1]), ux(c[-1][0]), uy(c[-1][1])])
        if styled:
            want = [[0, 0, 7], [1, 3.5, 3]] if scn["view"] == "plot" else [[0, 9], [1, 6]]
            rec.ev("Equal", scn["view"], a=[v for v in sty if v not in want], b=[], what="style_passed_on")
        rec.ev("Drawn", scn["view"], p=pq, crit=cq, colors=order, pts=pts, lines=lines, edges=edges, onax=onax, warned=warned, fallback=fallback, **base)
    if scn["id"] % 9 == 0:
        for f, a in ((o.hotspots, {}), (o.plot, {}), (o.explore, {"tiles": None})):
            _, exc = rec.call(f, inference="something", **a)
            rec.ev("Error", f.__name__, kind=exc.split(":")[0], want="ValueError")
