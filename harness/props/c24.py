"""Windows of point patterns."""
import random
import warnings

import core
from core import Model
from props._geo import box, manygon, pick, queries, ring, unbox

MODELS = [Model("WindowScan", "WindowScan.cfg", emits=True), Model("WindowScan", "WindowScan_island.cfg", refutes=True), Model("WindowScan", "WindowScan_always.cfg", refutes=True),
          Model("CellRegion", "CellRegion.cfg", emits=True, thorough_cfg="CellRegion_t.cfg")]
TRACE = "T_GEO"
ASSUMPTIONS = ["membership of boundary points is by libpysal's convention and not judged", "no part of a window lies inside a hole of another (libpysal cannot represent it)",
               "query points do not have the y of a horizontal edge (libpysal's winding number is not reliable there)"]
RECT = lambda b: [[[[b[0], b[1]], [b[2], b[1]], [b[2], b[3]], [b[0], b[3]]]]]  # noqa: E731


def scenarios(emitted, rng, tier):
    th = tier != "quick"
    cells, scan = emitted["CellRegion"], emitted["WindowScan"]
    out = []
    for i, e in enumerate(cells + scan):
        out.append({"kind": "poly", "regs": [e["reg"]], "open": i % 2})
    for r in range(2500 if th else 220):
        out.append({"kind": "poly", "regs": [pick(cells + scan * 8, rng) for _ in range(rng.choice([1, 1, 2, 3]))], "open": r % 2})
    for r in range(200 if th else 16):
        g = manygon(rng)
        if r % 3 == 0:       # a comb
            n = rng.choice([8, 20])
            g = [[0, 0], [2 * n, 0]] + [[x, 5 if x % 2 else rng.randint(1, 3)] for x in range(2 * n, -1, -1)]
        out.append({"kind": "poly", "regs": [[[g]]] if r % 2 else [[[g]], pick(cells, rng)], "open": r % 2, "q": 60})
    for r in range(600 if th else 90):
        a, b = rng.randint(-5, 20), rng.randint(-5, 20)
        out.append({"kind": "box", "b": [a, b, a + rng.randint(1, 15), b + rng.randint(1, 9)]})
    for r in range(600 if th else 90):
        n = rng.choice([1, 2, 3, 4, 5, 7])
        rg = [[rng.randint(0, 3), rng.randint(0, 3)] for _ in range(n)]
        if r % 3 == 1:
            rg = rg + [rg[0]]
        if r % 6 == 5 and n > 2:
            rg[n // 2] = rg[0]     # passes through its first vertex
        out.append({"kind": "close", "ring": rg})
    for r in range(60 if th else 8):
        out.append({"kind": "poly", "regs": [pick(cells + scan * 8, rng)], "open": r % 2, "q": rng.choice([300, 1100])})
    for r in range(20 if th else 4):
        out.append({"kind": "close", "ring": [[rng.randint(0, 90), rng.randint(0, 90)] for _ in range(rng.choice([60, 300]))]})
    for s in out:
        s.update(seed=rng.randint(0, 10**6), scale=rng.choice([1, 1, 0.5, 0.1, 32, 1000, 2**-17, 2**17]), off=rng.choice([[0, 0], [0, 0], [-1000, 500], [5, 0]]))
    return [s for s in out if s["kind"] != "poly" or all(_proper(r) for r in s["regs"])]


def _inside(p, r):
    c = False
    for i in range(len(r)):
        (x1, y1), (x2, y2) = r[i - 1], r[i]
        if (y1 > p[1]) != (y2 > p[1]) and p[0] < (x2 - x1) * (p[1] - y1) / (y2 - y1) + x1:
            c = not c
    return c


def _proper(reg):
    return not any(_inside([p[0] + 0.01, p[1] + 0.02], h) for a in reg for h in a[1:] for b in reg if b is not a for p in b[0][:1])


def execute(scn, rec):
    import libpysal
    import numpy as np
    import pointpats
    from pointpats import Window, as_window, poly_from_bbox, to_ccf

    warnings.simplefilter("ignore")
    rng = random.Random(scn["seed"])
    s, off, kind = scn["scale"], scn["off"], scn["kind"]
    at = lambda p: (p[0] * s + off[0], p[1] * s + off[1])  # noqa: E731
    dbl = lambda c: [core.it(round(2 * (float(c[i]) - off[i]) / s, 8)) for i in (0, 1)]  # noqa: E731

    def judge(w, reg, rep):
        qs = queries(reg, rng, scn.get("q", 16))

        def f():
            inn = []
            for q in qs:
                p = at([q[0] / 2, q[1] / 2])
                p = rng.choice([p, list(p), np.array(p), libpysal.cg.Point(p)])
                inn.append([q[0], q[1], 1 if bool(w.contains_point(p)) else 0])
            bb = w.bounding_box
            return inn, float(w.area), list(w.bbox), [bb.left, bb.lower, bb.right, bb.upper]
        v, exc = rec.call(f)
        if exc:
            rec.fail("Shape", rep, exc)
            return
        inn, area, b1, b2 = v
        rec.ev("Shape", rep, closed=False, reg=reg, hasarea=True, area=core.q(area / s / s, maxden=100, tol=1e-6), box=unbox(b1, s, off), hascen=False, cen=[], q=inn)
        if b1 != b2 or not isinstance(w, Window):
            rec.ev("Equal", rep, a=[b1, str(type(w))], b=[b2, "Window"], what="window_object")
        order = qs + [rng.choice(qs) for _ in range(4)]
        rng.shuffle(order)
        pts = [at([q[0] / 2, q[1] / 2]) for q in order]
        form = rng.choice(["tuples", "array", "arrays", "points", "lists", "few"])
        if form == "few":
            order = [q for q, i in zip(qs, inn) if i[2] == 0][:3] if rng.random() < 0.7 else []
            pts = [at([q[0] / 2, q[1] / 2]) for q in order]
        arg = {"tuples": pts, "array": np.array(pts), "arrays": [np.array(p) for p in pts], "points": [libpysal.cg.Point(p) for p in pts], "lists": [list(p) for p in pts], "few": pts}[form]
        before = [tuple(float(x) for x in p) for p in arg]
        v, exc = rec.call(w.filter_contained, arg)
        if exc:
            rec.fail("Filter", form, exc)
            return
        rec.ev("Filter", form, reg=reg, pts=order, kept=[dbl(k) if np.shape(k) == (2,) else [core.LIM, 0] for k in v], same=[tuple(float(x) for x in p) for p in arg] == before)

    if kind == "close":
        tup = rng.random() < 0.6
        r = [at(p) if tup else list(at(p)) for p in scn["ring"]]
        v, exc = rec.call(to_ccf, r)
        if exc:
            rec.fail("Close", "", exc)
            return
        rec.ev("Close", ring=scn["ring"], got=[[core.it(round((float(c[i]) - off[i]) / s, 8)) for i in (0, 1)] for c in v])
        v2, exc = rec.call(to_ccf, v)
        rec.ev("Equal", a=[list(c) for c in v2], b=[list(c) for c in (r if r[0] == r[-1] else r + r[:1])], what="closed_rings_stay_as_they_are")
        return
    if kind == "box":
        b = scn["b"]
        v = [*at(b[:2]), *at(b[2:])]
        arg = rng.choice([v, tuple(v), np.array(v)])
        p, exc = rec.call(poly_from_bbox, arg)
        if exc:
            rec.fail("Shape", "bbox", exc)
            return
        w, exc = rec.call(as_window, p)
        if exc:
            rec.fail("Shape", "bbox", exc)
            return
        judge(w, RECT(b), "bbox")
        if rng.random() < 0.4:
            # the default window of a pattern is its bounding box
            pts = [at(q) for q in ([b[0], b[1] + 1], [b[0] + 1, b[1]], [b[2], b[3]])]
            pp, exc = rec.call(lambda: pointpats.PointPattern(pts).window)
            judge(pp, RECT(b), "pattern window")
        return
    made = []
    for reg in scn["regs"]:
        def f(r):
            v = [libpysal.cg.Point(at(p)) if rng.random() < 0.3 else at(p) for p in ring(rng, r)]
            return v if scn["open"] else v + v[:1]
        parts = [f(part[0]) for part in reg]
        holes = [f(r) for part in reg for r in part[1:]]
        keep = [[list(map(tuple, r)) for r in parts], [list(map(tuple, r)) for r in holes]]
        how = rng.choice(["as_window", "as_window", "Window", "rewindow", "ring", "geojson"])

        def make():
            if how == "Window":
                return Window(parts, holes) if holes or rng.random() < 0.3 else Window(parts)
            if how == "ring" and len(parts) == 1:
                return as_window(libpysal.cg.Polygon(parts[0], holes or None)) if rng.random() < 0.5 else Window(parts[0], holes)
            if how == "geojson":
                g = {"type": "MultiPolygon", "coordinates": [[f(r) for r in part] for part in reg]} if len(reg) > 1 else {"type": "Polygon", "coordinates": [f(r) for r in reg[0]]}
                g["coordinates"] = [[[tuple(c) for c in r] for r in part] for part in g["coordinates"]] if len(reg) > 1 else [[tuple(c) for c in r] for r in g["coordinates"]]
                return as_window(libpysal.cg.Polygon.__from_geo_interface__(g))
            w = as_window(libpysal.cg.Polygon(parts, holes or None))
            return as_window(w) if how == "rewindow" else w
        w, exc = rec.call(make)
        if exc:
            rec.fail("Shape", how, exc)
            continue
        if keep != [[list(map(tuple, r)) for r in parts], [list(map(tuple, r)) for r in holes]]:
            rec.ev("Equal", how, a="changed", b="kept", what="arguments_unchanged")
        made.append((w, reg, how))
    # all windows at the end: one does not disturb another
    for w, reg, how in made:
        judge(w, reg, how)
