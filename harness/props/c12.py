"""Ripley-type tests."""
import math
import warnings

import core
from core import Model
from props._rip import EXACT, cont, jq, pattern, ranks, shape, squares, suparg, support
from props.c05 import collinear

MODELS = [Model("Envelope", "Envelope.cfg", thorough_cfg="Envelope_t.cfg", timeout=3000),
          Model("Envelope", "Envelope_axis.cfg", refutes=True), Model("Envelope", "Envelope_early.cfg", refutes=True),
          Model("Envelope", "Envelope_keepp.cfg", refutes=True),
          Model("RankP", "RankP.cfg", thorough_cfg="RankP_t.cfg")]
TRACE = "T_RIP"
ASSUMPTIONS = ["at least two points, bounding box of positive area",
               "the points simulated by K and L tests are observed through a metric given by the caller; those of F and G tests "
               "through the mean of their curves (slack 0.2: more than 6 standard deviations)"]
CONT = ["array", "array", "geoseries", "geodataframe"]
TESTS = ["f", "g", "j", "k", "l"]


def scenarios(emitted, rng, tier):
    out = []
    for r in range(210 if tier == "quick" else 5000):
        p, top = pattern(rng, sizes=(3, 4, 6, 9), tops=(4, 9), area=True)
        n = len(p)
        fn = TESTS[r % 5]
        s = {"kind": "test", "fn": fn, "pts": p, "sup": support(rng, top), "metric": rng.choice(["euclidean", "euclidean", "cityblock", "chebyshev"]),
             "R": rng.choice([0, 1, 2, 5, 9, 19]), "keep": r % 4 != 0, "hull": hull(rng, p, top), "opts": {}, "jobs": 1}
        if r in (7, 12):
            s["jobs"] = 2
        if fn == "l":
            s["opts"] = rng.choice([{}, {"linearized": True}, {"linearized": False}])
        if fn == "j":
            s["opts"] = rng.choice([{}, {"truncate": True}, {"truncate": False}])
        if r % 3 == 0:
            sq = lambda k: [rng.randint(0, top * top) for _ in range(k)]  # noqa: E731
            s["metric"] = "euclidean"
            m = rng.choice([1, 4, 9])
            if fn == "f":
                s["d"] = rng.choice([sq(m), [sq(m) for _ in range(n)]])
            elif fn == "g":
                s["d"] = rng.choice([sq(n), [sq(n) for _ in range(n)]])
            elif fn == "j":
                s["d"] = [sq(n), sq(m)]
            else:
                s["d"] = sq(n * (n - 1) // 2)
        out.append(s)
    for r in range(11 if tier == "quick" else 120):   # many points, many realizations
        n = rng.choice([40, 70, 100, 130]) if r % 2 else rng.choice([4, 9])
        p, top = pattern(rng, sizes=(n,), tops=(30,) if r % 2 else (6,), area=True)
        out.append({"kind": "test", "fn": TESTS[r % 5], "pts": p, "sup": support(rng, top), "R": rng.choice([3, 7]) if r % 2 else rng.choice([99, 150]), "keep": True, "hull": hull(rng, p, top),
                    "opts": {"linearized": bool(r % 3)} if TESTS[r % 5] == "l" else {}, "jobs": [1, 2, -1][r % 3]})
    for r in range(40 if tier == "quick" else 600):   # points seen through a metric of the caller
        p, top = pattern(rng, sizes=(3, 5, 8), tops=(4, 9), area=True)
        out.append({"kind": "points", "fn": "kl"[r % 2], "pts": p, "hull": hull(rng, p, top), "sup": {"kind": "list", "v": [[1, 1], [2, 1]], "arg": "array"}})
    for r in range(8 if tier == "quick" else 100):
        p, top = pattern(rng, sizes=(6, 8), tops=(6,), area=True)
        w = rng.choice([14, 18])
        h = rng.choice([{"ring": [[0, 0], [w, 0], [w, w], [0, w]], "form": ["bbox", "poly"][r % 2]},
                        {"ring": [[0, 0], [w + 6, 0], [0, w + 6]], "form": "poly"}])
        out.append({"kind": "mean", "fn": "fg"[r % 2], "pts": p, "hull": h, "R": 60, "sup": {"kind": "list", "v": [[0, 1], [2, 1], [3, 1], [20, 1]], "arg": "array"}})
    for r in range(10 if tier == "quick" else 200):
        p, top = pattern(rng, sizes=(3, 4, 6), tops=(6,), area=True)
        h = hull(rng, p, top)
        out.append({"kind": "empty", "fn": "fj"[r % 2], "pts": p, "hull": h, "sup": {"kind": "list", "v": [[1, 2], [1, 1], [3, 2], [2, 1]], "arg": "array"}})
    for i, s in enumerate(out):
        s.setdefault("metric", "euclidean")
        s.update(off=rng.choice([[0, 0], [0, 0], [-1000, 500]]), scale=rng.choice([1, 1, 0.5, 32, 0.1, 2**-17, 2**17]), cont=CONT[i % 4])
    return core.far(out)


def hull(rng, p, top):
    w = top + rng.choice([0, 4, 11])
    h = rng.choice([None, "bbox", "convex", 1, 1, 2, 3])
    if h == "convex" and collinear(p):
        h = None
    if isinstance(h, int):
        ring = [[[0, 0], [w, 0], [w, w], [0, w]], [[-1, 0], [w, -1], [2, w]], [[0, 0], [w, 2], [w, w], [1, w]]][h - 1]
        h = {"ring": ring, "form": rng.choice(["bbox", "poly", "hullobj", "multi"] if h == 1 else ["poly", "hullobj", "multi"])}
    return h


def execute(scn, rec):
    import numpy as np
    import pointpats.distance_statistics as ds

    warnings.simplefilter("ignore")
    s, (ox, oy) = scn["scale"], scn["off"]
    pts, fn, h = scn["pts"], scn["fn"], scn["hull"]
    xy = [[p[0] * s + ox, p[1] * s + oy] for p in pts]
    c = cont(scn["cont"], xy)
    sup = suparg(scn["sup"], s)
    n = len(pts)
    test, func = getattr(ds, fn + "_test"), getattr(ds, fn)
    H = shape(h, s, (ox, oy), pts)
    base = dict(pts=pts, sup=scn["sup"], metric=scn["metric"], exact=s in EXACT and ox == 0, fn=fn,
                ring=h["ring"] if isinstance(h, dict) else [], hull="convex" if h == "convex" else "bbox")
    if scn["kind"] == "test":
        kw = {"support": sup, "metric": scn["metric"]}
        if "d" in scn:
            sq = lambda d: np.sqrt(np.array(d, dtype=float)) * s  # noqa: E731
            kw["distances"] = tuple(sq(d) for d in scn["d"]) if fn == "j" else sq(scn["d"])
        kw.update(scn["opts"])
        R = scn["R"]

        def go():
            r = test(c, hull=H, n_simulations=R, keep_simulations=scn["keep"], n_jobs=scn["jobs"], **kw)
            assert r._fields == ("support", "statistic", "pvalue", "simulations")
            m = len(r.support)
            if not scn["keep"]:
                rec.ev("Equal", what="simulations_only_on_request", a=r.simulations is None, b=True)
                rec.ev("Equal", what="same_length", a=[len(r.statistic), len(r.pvalue)], b=[m, m])
                from fractions import Fraction
                okp = all(abs(v * (R + 1) - round(v * (R + 1))) < 1e-6 and 0 <= v <= 0.5 + 1e-9 for v in r.pvalue) if R else bool(np.isnan(r.pvalue).all())
                rec.ev("Equal", what="pseudo_p_value", a=bool(okp), b=True)
            else:
                sims = np.asarray(r.simulations)
                obs, rk = [], []
                if sims.ndim == 2 and sims.shape == (R, m) and len(r.statistic) == m:
                    for i in range(m):
                        a, b = ranks(r.statistic[i], sims[:, i])
                        obs.append(a)
                        rk.append(b)
                if sims.shape == (R, m) and fn != "j":
                    lin = fn == "l" and scn["opts"].get("linearized", False)
                    rec.ev("Curves", c=[curve(fn, lin, v, np.asarray(r.support)) for v in sims], **base)
                rec.ev("Test", obs=obs, sims=rk, R=R, m=m, p=[jq(v) for v in r.pvalue], kept=[int(x) for x in sims.shape], **base)
            if fn in "gkl" or "d" in scn:
                k2 = {k: v for k, v in kw.items()}
                if fn in "fj":
                    k2["hull"] = H
                f = func(c, **k2)
                rec.ev("Agree", s1=[core.fx(v / s, 1e5) for v in r.support], s2=[core.fx(v / s, 1e5) for v in f[0]],
                       v1=vals(r.statistic), v2=vals(f[1]), **base)
            return r

        _, exc = rec.call(go)
        if exc:
            rec.fail("Test", "", exc, **base)
    elif scn["kind"] == "points":
        def seen(R):
            got = set()

            def metric(a, b):
                if len(a) == 2:
                    got.add((float(a[0]), float(a[1])))
                    got.add((float(b[0]), float(b[1])))
                return math.hypot(a[0] - b[0], a[1] - b[1])
            test(c, support=sup, hull=H, n_simulations=R, n_jobs=1, metric=metric)
            return got

        def go():
            R = 1 + scn["id"] % 3 // 2
            a, b = seen(0), seen(R)
            new = sorted(b - a)
            rec.ev("Pattern", n=len(new), R=R, x=[[core.fx((x - ox) / s, 500), core.fx((y - oy) / s, 500)] for x, y in new], **base)

        _, exc = rec.call(go)
        if exc:
            rec.fail("Pattern", "", exc, **base)
    elif scn["kind"] == "mean":
        def go():
            r = test(c, support=sup, hull=H, n_simulations=scn["R"], n_jobs=1, keep_simulations=True)
            v = np.asarray(r.simulations).mean(axis=0)
            rec.ev("Equal", a=len(np.unique(np.asarray(r.simulations), axis=0)) > 1, b=True, what="patterns_drawn_anew")
            for i in (1, 2):
                rec.ev("Mean", s2=squares(r.support, s)[i], v=core.fx(v[i], 1000), slack=200, **base)
        _, exc = rec.call(go)
        if exc:
            rec.fail("Mean", "", exc, **base)
    else:
        def go():
            r = test(c, support=sup, hull=H, n_simulations=1, n_jobs=1)
            rec.ev("Empty" if fn == "f" else "JEmpty", s2=squares(r.support, s), v=[core.fx(x, 1000) for x in r.statistic], **base)
        _, exc = rec.call(go)
        if exc:
            rec.fail("Empty", "", exc, **base)
    if scn["id"] % 25 == 0:
        a = np.array(xy)
        for want, f in (("NotImplementedError", lambda: test(a, edge_correction="ripley", n_simulations=1, n_jobs=1)),
                        ("ValueError", lambda: test(a, hull="nosuch", n_simulations=1, n_jobs=1))):
            _, exc = rec.call(f)
            rec.ev("Error", want=want, kind=exc.split(":")[0])


def curve(fn, lin, v, d):
    """a simulated curve as rationals: F and G as they are, K and pi L^2 relative to their last value"""
    if fn in "fg":
        return [jq(x) for x in v]
    k = (v + d if lin else v) ** 2 if fn == "l" else v
    return [jq(x / k[-1] if k[-1] else x) for x in k]


def vals(x):
    return [-5 if math.isnan(v) else -7 if math.isinf(v) else core.fx(v, 1e5) if abs(v) < 10000 else core.fx(v, 100) for v in x]
