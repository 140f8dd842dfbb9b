"""Neighbour queries."""
import math

import core
from core import Model

MODELS = [Model("KNN", "KNN.cfg", emits=True, thorough_cfg="KNN_t.cfg", timeout=3000),
          Model("KNN", "KNN_first.cfg", refutes=True)]
TRACE = "T_KNN"
ASSUMPTIONS = ["a spatial tree may order ties arbitrarily", "k at most the number of candidate points"]


def scenarios(emitted, rng, tier):
    out = []
    configs = emitted["KNN"]
    for i in range(0, len(configs), 12):
        out.append({"kind": "tiny", "sets": configs[i:i + 12]})
    reps = 40 if tier == "quick" else 1500
    for r in range(reps):
        n = rng.choice([3, 5, 8, 13, 25, 45, 70])
        g = rng.choice([1, 2, 4, 9, 30])
        pts = [[rng.randint(0, g), rng.randint(0, g)] for _ in range(n)]
        if r % 5 == 0:  # heavy coincidence
            pts = [pts[rng.randrange(max(1, n // 4))] for _ in range(n)]
        m = rng.choice([2, 3, 9])
        other = [[rng.randint(-1, g + 1), rng.randint(-1, g + 1)] for _ in range(m)]
        if r % 3 == 0:
            other[0] = list(pts[0])
        out.append({"kind": "random", "pts": pts, "other": other,
                    "ks": sorted(set([1, 2, min(n - 1, rng.randint(1, 6)), n - 1 if n < 14 else 3])),
                    "off": rng.choice([0, 0, 1000])})
    for r in range(2 if tier == "quick" else 30):   # many points
        n, g = rng.choice([150, 300]), rng.choice([9, 40, 300])
        pts = [[rng.randint(0, g), rng.randint(0, g)] for _ in range(n)]
        out.insert(0, {"kind": "random", "pts": pts, "other": [[rng.randint(0, g), rng.randint(0, g)] for _ in range(n if r % 2 else 120)],
                       "ks": [[1, 12], [4, 40]][r % 2], "off": rng.choice([0, 1000]), "big": True})
    return core.far(out)


UNIT = {"hamming": 2, "canberra": 840, "ring": 8 / (2 * math.pi)}
NAMES = {"euclidean": ["euclidean", "l2", "minkowski"], "manhattan": ["manhattan", "l1", "cityblock"],
         "chebyshev": ["chebyshev", "infinity"]}


def isq(d, metric="euclidean"):
    x = float(d) ** 2 if metric == "euclidean" else float(d) * UNIT.get(metric, 1)
    r = round(x) if x == x and abs(x) < core.LIM else core.LIM
    return int(r) if abs(x - r) <= 1e-6 * max(1, abs(r)) else core.LIM


def rows(a, f):
    import numpy as np

    a = np.asarray(a)
    if a.ndim == 1:
        a = a[:, None]
    return [[f(x) for x in r] for r in a]


def execute(scn, rec):
    import numpy as np
    from pointpats import PointPattern
    from pointpats.geometry import build_best_tree, k_neighbors
    from scipy import spatial
    from sklearn.neighbors import BallTree
    from sklearn.neighbors import KDTree as SKTree

    def knn(name, pts, other, k, metric, r, exc):
        e = dict(name=name, pts=pts, other=other or [], own=other is None, k=k, metric=metric)
        if r is None:
            rec.fail("Knn", "", exc, **e)
        else:
            rec.ev("Knn", ids=rows(r[0], core.it), d=rows(r[1], lambda x: isq(x, metric)), **e)

    def pairs(name, pts, rr, r, exc):
        if r is None:
            rec.fail("Pairs", "", exc, name=name, pts=pts, rr=rr)
        else:
            rec.ev("Pairs", name=name, pts=pts, rr=rr, pairs=[[int(a), int(b)] for a, b in r])

    def helper(name, tree, coords, pts, k, metric):
        r, exc = rec.call(k_neighbors, tree, coords, k)
        knn(name, pts, None, k, metric, None if r is None else (r[1], r[0]), exc)

    def error(want, fn):
        _, exc = rec.call(fn)
        rec.ev("Error", want=want, kind=exc.split(":")[0])
        rec.events[-1]["exc"] = exc

    if scn["kind"] == "tiny":
        for pts in scn["sets"]:
            pp = PointPattern(pts)
            xy = np.array(pts, dtype=float)
            for k in range(1, len(pts)):
                r, exc = rec.call(pp.knn, k)
                knn("knn", pts, None, k, "euclidean", r, exc)
                helper("scipy", spatial.KDTree(xy), xy, pts, k, "euclidean")
                helper("best", build_best_tree(xy, "euclidean"), xy, pts, k, "euclidean")
            for rr in (0, 4):
                r, exc = rec.call(pp.find_pairs, (rr / 4) ** 0.5)
                pairs("find_pairs", pts, rr, r, exc)
        return

    off = scn["off"]
    pts = scn["pts"]
    xy = core.narrow(np.array(pts, dtype=float) + off)
    oxy = core.narrow(np.array(scn["other"], dtype=float) + off)
    pp = PointPattern(xy)
    op = PointPattern(oxy)
    for k in scn["ks"] + ([len(pts)] if len(pts) <= 45 else []):
        if k < len(pts):
            r, exc = rec.call(pp.knn, k)
            knn("knn", pts, None, k, "euclidean", r, exc)
        r, exc = rec.call(pp.knn_other, op, k)
        knn("knn_other", pts, scn["other"], k, "euclidean", r, exc)
        r, exc = rec.call(pp.knn_other, [list(map(float, oxy[0]))], k)
        knn("knn_other_list", pts, scn["other"][:1], k, "euclidean", r, exc)
        if k == len(pts):
            continue
        for metric in ("euclidean", "manhattan", "chebyshev"):
            t, exc = rec.call(build_best_tree, xy, NAMES[metric][scn["id"] % len(NAMES[metric])])
            if t is None:
                rec.fail("Knn", "", exc, name="best", pts=pts, other=[], own=True, k=k, metric=metric)
            else:
                helper("best", t, xy, pts, k, metric)
        # metrics that only a ball tree supports; "ring": the equator cut into eight
        for name, metric, p, c in (("hamming", "hamming", pts, xy), ("canberra", "canberra", [[x % 5, y % 5] for x, y in pts], None),
                                   ("haversine", "ring", [[0, x] for x, _ in pts], None)):
            if c is None:
                c = np.array(p, dtype=float) * (2 * math.pi / 8 if metric == "ring" else 1)
            t, exc = rec.call(build_best_tree, c, name)
            if t is None:
                rec.fail("Knn", "", exc, name="best", pts=p, other=[], own=True, k=k, metric=metric)
            else:
                helper("best", t, c, p, k, metric)
        helper("ball", BallTree(xy, metric="manhattan"), xy, pts, k, "manhattan")
        helper("sklearn", SKTree(xy, leaf_size=3), xy, pts, k, "euclidean")
        helper("scipy", spatial.KDTree(xy, leafsize=2), xy, pts, k, "euclidean")
    if len(pts) <= 13:
        t, exc = rec.call(build_best_tree, xy, lambda a, b: float(np.abs(a - b).max()))
        if t is None:
            rec.fail("Knn", "", exc, name="callable", pts=pts, other=[], own=True, k=1, metric="chebyshev")
        else:
            helper("callable", t, xy, pts, 1, "chebyshev")
    r, exc = rec.call(lambda: (pp.knn(1)[0], pp.nnd))
    knn("nnd", pts, None, 1, "euclidean", r, exc)
    for rr in (0, 4, 9, 16, 100):
        r, exc = rec.call(pp.find_pairs, (rr ** 0.5) / 2)
        pairs("find_pairs", pts, rr, r, exc)
    error("ValueError", lambda: pp.knn(0))
    error("ValueError", lambda: pp.knn(-1))
    error("ValueError", lambda: pp.knn_other(op, 0))
    error("KeyError", lambda: build_best_tree(xy, "no such metric"))
