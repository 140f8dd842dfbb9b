"""F and G functions."""
import math
import warnings

import core
from core import Model, q, qs
from props._rip import EXACT, cont, pattern, shape, squares, suparg, support

MODELS = [Model("RipleyLaws", "RipleyLaws.cfg", emits=True, thorough_cfg="RipleyLaws_t.cfg", timeout=3000),
          Model("RipleyLaws", "RipleyLaws_norm.cfg", refutes=True), Model("RipleyLaws", "RipleyLaws_below.cfg", refutes=True)]
TRACE = "T_RIP"
ASSUMPTIONS = ["at least two points", "F without given distances is compared with the exact empty-space function of a fine "
               "lattice of locations, with a tolerance of 0.13 (1000 random locations: more than 6 standard deviations)"]
CONT = ["array", "array", "geoseries", "geodataframe", "list", "frame", "tree", "array", "sktree", "balltree"]
NBIG, SIZES = 6, (70, 150, 300)
METRICS = ["euclidean", "euclidean", "cityblock", "chebyshev", "manhattan"]


def scenarios(emitted, rng, tier):
    out = []
    em = emitted["RipleyLaws"]
    rng.shuffle(em)
    for i, e in enumerate(em[:100 if tier == "quick" else 9000]):
        vals = [[x, 1] for x in e["s"]]
        # the emitted support is squared: use integers only
        out.append({"pts": e["p"], "sup": {"kind": "list", "v": vals, "arg": ["array", "list", "intarray"][i % 3]}, "metric": "euclidean"})
    for r in range(330 if tier == "quick" else 9000):
        p, top = pattern(rng)
        s = {"pts": p, "sup": support(rng, top), "metric": rng.choice(METRICS)}
        n = len(p)
        k = r % 6
        if k == 1:
            s.update(form="vec", fn="g", d=[rng.randint(0, top * top) for _ in range(n)], metric="euclidean")
        elif k == 2:
            d = [[rng.randint(0, top * top) for _ in range(n)] for _ in range(n)]
            if r % 12 == 2:   # a true distance matrix: zero diagonal, symmetric
                d = [[(a[0] - b[0]) ** 2 + (a[1] - b[1]) ** 2 for b in p] for a in p]
            s.update(form="mat", fn="g", d=d, metric="euclidean")
        elif k == 3:
            s.update(form="vec", fn="f", d=[rng.randint(0, top * top) for _ in range(rng.choice([1, 2, 7, 20]))], metric="euclidean")
        elif k == 4:
            m = rng.choice([1, 2, 5, 9, n])
            s.update(form="mat", fn="f", d=[[rng.randint(0, top * top) for _ in range(m)] for _ in range(n)], metric="euclidean")
        out.append(s)
    for r in range(36 if tier == "quick" else 800):
        p, top = pattern(rng, sizes=(3, 4, 6), tops=(6, 9), area=True)
        h = rng.choice([None, "bbox", "convex", 1, 2, 3, 4])
        w = top + rng.choice([0, 3, 6])
        if isinstance(h, int):
            ring = [[[0, 0], [w, 0], [w, w], [0, w]], [[-1, 0], [w, -1], [2, w]], [[0, 0], [w, 2], [w, w], [1, w]]][r % 3]
            h = {"ring": ring, "form": "bbox" if r % 3 == 0 and h == 1 else ["poly", "hullobj", "multi"][h % 3]}
        s = {"pts": p, "sup": {"kind": "list", "v": [[1, 1], [2, 1], [7, 2], [5, 1], [8, 1]], "arg": "array"},
             "metric": rng.choice(METRICS[:4]), "hull": h, "empty": 1}
        hp = h["ring"] if isinstance(h, dict) else None
        if hp is None and h == "convex":
            from props.c05 import collinear
            if collinear(p):
                continue
        out.append(s)
    for r in range(NBIG if tier == "quick" else 60):    # many points
        p, top = pattern(rng, sizes=SIZES, tops=(15, 40), area=True)
        out.insert(r * len(out) // 12, {"pts": p, "sup": support(rng, top), "metric": METRICS[r % 4], "kind": "kl"})
    for i, s in enumerate(out):
        s.update(off=rng.choice([[0, 0], [0, 0], [-1000, 500]]), scale=rng.choice([1, 1, 0.5, 32, 0.1, 2**-17, 2**17]), cont=CONT[i % 10])
    return core.far(out)


def execute(scn, rec):
    import numpy as np
    import pointpats.distance_statistics as ds

    warnings.simplefilter("ignore")
    s, (ox, oy) = scn["scale"], scn["off"]
    pts = scn["pts"]
    xy = [[p[0] * s + ox, p[1] * s + oy] for p in pts]
    c = cont(scn["cont"], xy)
    sup = suparg(scn["sup"], s)
    metric = scn["metric"]
    base = dict(pts=pts, sup=scn["sup"], metric="cityblock" if metric == "manhattan" else metric,
                exact=s in EXACT and ox == 0)
    n = len(pts)
    if scn.get("empty"):
        h = scn["hull"]
        v, exc = rec.call(ds.f, c, support=sup, metric=metric, hull=shape(h, s, (ox, oy), pts))
        b = dict(base, ring=h["ring"] if isinstance(h, dict) else [], hull="convex" if h == "convex" else "bbox", fn="f")
        if exc:
            rec.fail("Empty", "", exc, **b)
        else:
            rec.ev("Empty", s2=squares(v[0], s), v=[core.fx(x, 1000) for x in v[1]], **b)
        return
    if "form" in scn:
        d = np.sqrt(np.array(scn["d"], dtype=float)) * s
        calls = [(scn["fn"], scn["form"], scn["d"], dict(distances=d))]
        if scn["id"] % 5 == 0:
            calls = [(scn["fn"], scn["form"], scn["d"], dict(distances=d, metric="precomputed"))]
    else:
        calls = [("g", "none", [], dict(metric=metric))]
        if metric == "euclidean":
            calls.append(("g", "none", [], {}))
            # the nearest distances given by the caller: the same function
            nn = [min((a[0] - b[0]) ** 2 + (a[1] - b[1]) ** 2 for j, b in enumerate(pts) if j != i) for i, a in enumerate(pts)]
            calls.append(("g", "vec", nn, dict(distances=np.sqrt(np.array(nn, dtype=float)) * s)))
        if scn["id"] % 10 == 0 and metric == "cityblock" and scn["cont"] in ("array", "list"):
            calls.append(("g", "none", [], dict(metric=lambda a, b: float(abs(a - b).sum()))))
    for fn, form, d, kw in calls:
        keep = core.digest(kw["distances"]) if "distances" in kw else ""
        v, exc = rec.call(getattr(ds, fn), c, support=sup, **kw)
        b = dict(base, fn=fn, form=form, d=d)
        if exc:
            rec.fail("Cdf", "", exc, **b)
        else:
            assert len(v) == 2
            rec.ev("Cdf", s2=squares(v[0], s), v=qs(v[1], maxden=max(n, len(d), len(d[0]) if form == "mat" else 0)), **b)
        if keep:
            rec.ev("Equal", what="distances_unchanged", a=keep, b=core.digest(kw["distances"]))
    if scn["id"] % 15 == 0:
        a = np.array(xy)
        for want, f in (("ValueError", lambda: ds.g(a, distances=np.ones((n, n + 1)))),
                        ("ValueError", lambda: ds.g(a, distances=np.ones(n + 1))),
                        ("ValueError", lambda: ds.g(a, distances=np.ones((n, n, 2)))),
                        ("ValueError", lambda: ds.f(a, distances=np.ones((n + 1, 4)))),
                        ("ValueError", lambda: ds.g(a, metric="precomputed")),
                        ("ValueError", lambda: ds.f(a, metric="precomputed")),
                        ("TypeError", lambda: ds.g(a, metric=3)),
                        ("NotImplementedError", lambda: ds.f(a, edge_correction="ripley")),
                        ("NotImplementedError", lambda: ds.g(a, edge_correction=True))):
            _, exc = rec.call(f)
            rec.ev("Error", want=want, kind=exc.split(":")[0])
