"""K, L and J functions."""
import math
import warnings

import core
from core import Model, q, qs
from props._rip import EXACT, cont, jq, pattern, shape, squares, suparg, support

MODELS = [Model("RipleyLaws", "RipleyLaws.cfg", emits=True, thorough_cfg="RipleyLaws_t.cfg", timeout=3000),
          Model("RipleyLaws", "RipleyLaws_ordered.cfg", refutes=True)]
TRACE = "T_RIP"
ASSUMPTIONS = ["at least two points, bounding box of positive area", "the window area of K and L is that of the points' bounding box",
               "J without given distances is compared with the exact ratio up to 0.13 / (1 - F)"]
CONT = ["array", "array", "geoseries", "geodataframe", "list", "frame", "tree", "array", "sktree", "balltree"]
NBIG, SIZES = 5, (45, 80, 150, 260)
METRICS = ["euclidean", "euclidean", "cityblock", "chebyshev"]


def boxed(p):
    return len({x[0] for x in p}) > 1 and len({x[1] for x in p}) > 1


def scenarios(emitted, rng, tier):
    out = []
    em = [e for e in emitted["RipleyLaws"] if boxed(e["p"])]
    rng.shuffle(em)
    for i, e in enumerate(em[:80 if tier == "quick" else 9000]):
        out.append({"pts": e["p"], "sup": {"kind": "list", "v": [[x, 1] for x in e["s"]], "arg": ["array", "list", "intarray"][i % 3]},
                    "metric": "euclidean", "kind": "kl"})
    for r in range(200 if tier == "quick" else 6000):
        p, top = pattern(rng, area=True, tops=(2, 4, 9, 15))
        s = {"pts": p, "sup": support(rng, top), "metric": rng.choice(METRICS), "kind": "kl"}
        n = len(p)
        if r % 4 == 1:
            s.update(form="vec", d=[rng.randint(0, top * top) for _ in range(n * (n - 1) // 2)], metric="euclidean")
        elif r % 4 == 2:
            d = [[0] * n for _ in range(n)]
            for i in range(n):
                for j in range(i):
                    d[i][j] = d[j][i] = rng.randint(0, top * top)
            s.update(form="mat", d=d, metric="euclidean")
        out.append(s)
    for r in range(200 if tier == "quick" else 6000):
        p, top = pattern(rng, sizes=(2, 3, 4, 6, 9))
        n = len(p)
        sup = support(rng, top)
        s = {"pts": p, "sup": sup, "metric": "euclidean", "kind": "j", "gform": ["vec", "mat", "vec"][r % 3], "fform": ["vec", "vec", "mat"][r % 3]}
        hi = rng.choice([top * top, top * top // 2 + 1, 4])
        s["gd"] = ([rng.randint(0, hi) for _ in range(n)] if s["gform"] == "vec" else [[rng.randint(0, hi) for _ in range(n)] for _ in range(n)])
        m = rng.choice([1, 2, 5, 9])
        s["fd"] = ([rng.randint(0, top * top) for _ in range(m)] if s["fform"] == "vec" else [[rng.randint(0, top * top) for _ in range(m)] for _ in range(n)])
        out.append(s)
    for r in range(26 if tier == "quick" else 500):
        p, top = pattern(rng, sizes=(3, 4, 6), tops=(6, 9), area=True)
        w = top + rng.choice([0, 3, 6])
        ring = [[[0, 0], [w, 0], [w, w], [0, w]], [[-1, 0], [w, -1], [2, w]]][r % 2]
        h = rng.choice([None, "bbox", {"ring": ring, "form": "poly"}])
        out.append({"pts": p, "sup": {"kind": "list", "v": [[1, 2], [1, 1], [3, 2], [2, 1], [5, 2]], "arg": "array"},
                    "metric": rng.choice(METRICS), "hull": h, "kind": "jempty"})
    for r in range(NBIG if tier == "quick" else 60):    # many points
        p, top = pattern(rng, sizes=SIZES, tops=(15, 40), area=True)
        out.insert(r * len(out) // 12, {"pts": p, "sup": support(rng, top), "metric": METRICS[r % 4], "kind": "kl"})
    for i, s in enumerate(out):
        s.update(off=rng.choice([[0, 0], [0, 0], [-1000, 500]]), scale=rng.choice([1, 1, 0.5, 32, 0.1, 2**-17, 2**17]), cont=CONT[i % 10])
    return core.far(out)


def execute(scn, rec):
    import numpy as np
    import pointpats.distance_statistics as ds

    warnings.simplefilter("ignore")
    s, (ox, oy) = scn["scale"], scn["off"]
    pts = scn["pts"]
    xy = [[p[0] * s + ox, p[1] * s + oy] for p in pts]
    c = cont(scn["cont"], xy)
    sup = suparg(scn["sup"], s)
    metric = scn["metric"]
    n = len(pts)
    base = dict(pts=pts, sup=scn["sup"], metric=metric, exact=s in EXACT and ox == 0)
    if scn["kind"] == "kl":
        kw, form, d = {"metric": metric} if metric != "euclidean" or scn["id"] % 2 else {}, "none", []
        if "form" in scn:
            form, d = scn["form"], scn["d"]
            kw["distances"] = np.sqrt(np.array(d, dtype=float)) * s
        ks = None
        for fn, more in (("k", {}), ("l", {}), ("l", {"linearized": True}), ("l", {"linearized": False})):
            v, exc = rec.call(getattr(ds, fn), c, support=sup, **kw, **more)
            b = dict(base, fn=fn, form=form, d=d, linearized=more.get("linearized", False))
            if exc:
                rec.fail("KL", "", exc, **b)
                continue
            x = np.asarray(v[1])
            if fn == "l":
                x = x / s + (np.asarray(v[0]) / s if more.get("linearized") else 0)
                x = np.where(x < -1e-9, np.nan, x) ** 2 * math.pi
            else:
                x = x / s**2
            rec.ev("KL", s2=squares(v[0], s), v=qs(x, maxden=n * n, tol=1e-7), **b)
            if fn == "k":
                ks = v
        if scn["id"] % 3 == 0 and ks is not None and "tree" not in scn["cont"] and form == "none":
            v, exc = rec.call(ds.k, cont(scn["cont"], xy[::-1]), support=sup, **kw)
            rec.ev("Equal", what="order_of_points", a=core.digest(ks[1]) if not exc else "", b=core.digest(v[1]) if not exc else exc)
    elif scn["kind"] == "j":
        dd = tuple(np.sqrt(np.array(scn[k], dtype=float)) * s for k in ("gd", "fd"))
        for t, kw in ((True, {}), (True, {"truncate": True}), (False, {"truncate": False})):
            v, exc = rec.call(ds.j, c, support=sup, distances=dd, **kw)
            b = dict(base, truncate=t, gform=scn["gform"], gd=scn["gd"], fform=scn["fform"], fd=scn["fd"])
            if exc:
                rec.fail("J", "", exc, **b)
            else:
                rec.ev("J", s2=squares(v[0], s), v=[jq(x) for x in v[1]], **b)
    else:
        h = scn["hull"]
        v, exc = rec.call(ds.j, c, support=sup, metric=metric, hull=shape(h, s, (ox, oy), pts), truncate=True)
        b = dict(base, ring=h["ring"] if isinstance(h, dict) else [], hull="bbox")
        if exc:
            rec.fail("JEmpty", "", exc, **b)
        else:
            rec.ev("JEmpty", s2=squares(v[0], s), v=[core.fx(x, 1000) for x in v[1]], **b)
    if scn["id"] % 15 == 0:
        a = np.array(xy)
        for fn in (ds.k, ds.l, ds.j):
            es = [("TypeError", lambda: fn(a, metric=3)), ("NotImplementedError", lambda: fn(a, edge_correction="ripley")),
                  ("ValueError", lambda: fn(a, metric="precomputed"))]
            if fn is not ds.j:
                es += [("ValueError", lambda: fn(a, distances=np.ones((n, n + 1)))), ("ValueError", lambda: fn(a, distances=np.ones(n * n)))]
            for want, f in es:
                _, exc = rec.call(f)
                rec.ev("Error", want=want, kind=exc.split(":")[0])
