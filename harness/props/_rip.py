"""Shared by the checks of the distance functions (C10, C11, C12)."""
import math

import core
from core import q

EXACT = {1, 0.5, 32}


def support(rng, top):
    """a documented form of the support: (record for the specification, how to pass it)"""
    k = rng.randint(0, 8)
    m = rng.choice([2, 3, 5, 10, 20])
    if k == 0:
        return {"kind": "int", "m": 20, "arg": "none"}
    if k in (1, 2):
        return {"kind": "int", "m": m, "arg": "int"}
    b = [rng.randint(1, 2 * top), 2] if rng.random() < 0.5 else [rng.randint(1, top), 1]
    if b[0] % 2 == 0 and b[1] == 2:
        b = [b[0] // 2, 1]
    if k == 3:
        return {"kind": "lin", "a": [0, 1], "b": b, "m": 20, "arg": "stop"}
    a = rng.choice([[0, 1], [1, 2], [1, 1], [2, 1]])
    if a[0] * b[1] >= b[0] * a[1]:
        a = [0, 1]
    if k == 4:
        return {"kind": "lin", "a": a, "b": b, "m": 20, "arg": "startstop"}
    if k == 5:
        return {"kind": "lin", "a": a, "b": b, "m": m, "arg": "startstopnum"}
    vals = sorted({rng.choice([rng.randint(0, top), rng.randint(0, 2 * top) / 2]) for _ in range(rng.randint(3, 7))})
    if len(vals) < 2:
        vals = [0, vals[0] + 1]
    return {"kind": "list", "v": [q(v) for v in vals], "arg": rng.choice(["array", "list", "intarray"])}


def suparg(sup, s):
    import numpy as np

    # a whole number is as good a radius as the equal float
    whole = sup.get("b", [0, 1])[0] % 3 != 0
    f = lambda r: (lambda x: int(x) if whole and x == int(x) else x)(r[0] / r[1] * s)  # noqa: E731
    a = sup["arg"]
    if a == "none":
        return None
    if a == "int":
        return sup["m"]
    if a == "stop":
        return (f(sup["b"]),)
    if a == "startstop":
        return (f(sup["a"]), f(sup["b"]))
    if a == "startstopnum":
        return (f(sup["a"]), f(sup["b"]), sup["m"])
    v = [f(x) for x in sup["v"]]
    if a == "intarray" and all(x == int(x) for x in v):
        return np.array(v, dtype=int)
    return np.array(v) if a != "list" else v


def squares(x, s):
    return [q((float(v) / s) ** 2, maxden=20000) for v in x]


def pattern(rng, sizes=(2, 3, 4, 6, 9, 14), tops=(2, 4, 9, 15), area=False):
    n = rng.choice(sizes)
    top = rng.choice(tops)
    while True:
        p = [[rng.randint(0, top), rng.randint(0, top)] for _ in range(n)]
        if rng.random() < 0.25 and n > 2:
            p[1] = list(p[0])
        if len({tuple(x) for x in p}) > 1 and (not area or (len({x[0] for x in p}) > 1 and len({x[1] for x in p}) > 1)):
            return p, top


def ranks(obs, sims):
    """ranks of an observed value and simulated ones among themselves (equal up to rounding: same rank)"""
    idx, last, i = {}, None, -1
    for v in sorted({float(v) for v in [obs, *sims] if not math.isnan(v)}):
        if last is None or v != last and not (math.isfinite(v) and v - last <= 2e-13 * max(abs(v), abs(last))):
            i += 1
        idx[v], last = i, v
    return (core.LIM if math.isnan(obs) else idx[float(obs)]), [-1 if math.isnan(v) else idx[float(v)] for v in sims]


def jq(x):
    x = float(x)
    if math.isnan(x):
        return [0, 0]
    r = q(x, maxden=20000)
    return [0, -1] if r == [0, 0] else r


def cont(kind, xy):
    from props.c04 import container
    if kind == "tree":
        from scipy.spatial import KDTree
        return KDTree(xy)
    if kind in ("sktree", "balltree"):
        import sklearn.neighbors as sk
        return (sk.KDTree if kind == "sktree" else sk.BallTree)(xy)
    return container(kind, xy)


def shape(h, s, off, pts):
    """hull argument: None, a name, or (ring, form)"""
    import numpy as np
    import shapely
    from scipy.spatial import ConvexHull

    if h is None or isinstance(h, str):
        return h
    ring = [[x * s + off[0], y * s + off[1]] for x, y in h["ring"]]
    if h["form"] == "bbox":
        return np.array([*ring[0], *ring[2]])
    if h["form"] == "hullobj":
        return ConvexHull(np.array(ring))
    if h["form"] == "multi":
        return shapely.MultiPolygon([shapely.Polygon(ring)])
    return shapely.Polygon(ring)
