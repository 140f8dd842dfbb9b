"""Shared by the checks of space-time interaction (C17-C21)."""
import core

SCALES = [1, 1, 0.5, 32, 2**-17, 2**17]


def events(rng, n=None, style=None):
    """Lattice events with ties, duplicates and clusters."""
    n = n or rng.choice([2, 3, 4, 5, 5, 5, 6, 8, 10, 12])
    style = style or rng.choice(["dense", "spread", "dup", "line", "clusters", "sametime", "sameplace", "wide"])
    g, tg = {"dense": (3, 3), "spread": (12, 20), "dup": (2, 2), "line": (9, 9), "clusters": (9, 9), "wide": (4, 120), "sametime": (6, 0), "sameplace": (0, 6)}[style]
    s, t = [], []
    for i in range(n):
        if style == "clusters" and i % 3:
            s.append([s[-1][0] + rng.randint(0, 1), s[-1][1] + rng.randint(0, 1)])
            t.append(t[-1] + rng.randint(0, 1))
        else:
            s.append([rng.randint(0, g), 0 if style == "line" else rng.randint(0, g)])
            t.append(rng.randint(0, tg))
    return s, t


def many(rng, n, most=4):
    """Many events in a wide region, none with more than some close ones in space."""
    while True:
        s = [[rng.randint(0, 6 * n), rng.randint(0, 2)] for _ in range(n)]
        t = [rng.randint(0, 9) for _ in range(n)]
        near = [sum(4 * ((a[0] - b[0]) ** 2 + (a[1] - b[1]) ** 2) <= 64 for b in s) - 1 for a in s]
        if max(near) <= most and sum(near) > n // 2:
            return s, t, 64, rng.choice([2, 4])


def thresholds(rng):
    """dd = (2 delta)^2, tt = 2 tau"""
    return rng.choice([0, 1, 2, 3, 4, 5, 6, 10, 40]) ** 2, rng.choice([0, 1, 2, 3, 4, 7, 60])


def place(scn):
    import numpy as np

    sc, off = scn["scale"], scn["off"]
    s = np.array(scn["s"], float) * sc + np.array(off)
    t = (np.array(scn["t"]).reshape(-1, 1) + scn.get("t0", 0)) * (1 if scn.get("tint", True) else 1.0) * scn.get("tsc", 1)
    if scn.get("sint"):
        s = core.narrow(s, 1)
        t = core.narrow(t)
    return s, t, (scn["dd"] ** 0.5) / 2 * sc, scn["tt"] / 2 * scn.get("tsc", 1)


def dress(scn, rng, i):
    scn.update(scale=rng.choice(SCALES), off=rng.choice([[0, 0], [0, 0], [-1000, 512], [2**22, -(2**25)]]), t0=rng.choice([0, 0, 40000, -7, 2**33]),
               tint=i % 3 != 0, sint=i % 2 == 0, tsc=rng.choice([1, 1, 2, 0.5]), seed=rng.randint(0, 10**6))
    return scn


def num(rows):
    return [[core.it(v) for v in r] for r in rows]


def rats(rows, **k):
    return [[core.q(v, **k) for v in r] for r in rows]


def glob(o, scn, rec, same, key=""):
    """The event of a global statistic (Knox or the global part of KnoxLocal)."""
    hs, hp = hasattr(o, "sim"), hasattr(o, "p_sim")
    rec.ev("Glob", key, s=scn["s"], t=scn["t"], dd=scn["dd"], tt=scn["tt"], perms=scn["perms"], keep=scn["keep"], nst=core.it(o.nst),
           stat=core.it(o.statistic_) if key != "local" else core.it(o.nst), obs=num(o.observed), exp=rats(o.expected), pp=core.fx(o.p_poisson, 10000),
           haspsim=hp, hassim=hs, psim=core.q(o.p_sim, maxden=scn["perms"] + 1) if hp else core.NONE, sim=[core.it(v) for v in o.sim] if hs else [], same=same)


def frame(scn, s, t, name="T", index=None, crs=None):
    import geopandas as gpd

    d = gpd.GeoDataFrame({"T2": t[::-1, 0].copy(), name: t[:, 0], "a": range(len(t))}, geometry=gpd.points_from_xy(s[:, 0], s[:, 1]), crs=crs)
    if index is not None:
        d.index = index
    return d


def index(kind, n, rng):
    if kind == "range":
        return None
    if kind == "perm":
        v = list(range(n))
        rng.shuffle(v)
        return v
    if kind == "shift":
        return list(range(1, n + 1))
    if kind == "str":
        v = [f"e{k}" for k in range(n)]
        rng.shuffle(v)
        return v
    if kind == "date":
        import pandas as pd

        v = [pd.Timestamp(2020, 2, 1) + pd.Timedelta(days=9 * k) for k in range(n)]
        rng.shuffle(v)
        return v
    if kind == "half":
        v = [k / 2 for k in range(n)]
        rng.shuffle(v)
        return v
    if kind == "named":
        import pandas as pd

        v = list(range(n))
        rng.shuffle(v)
        return pd.Index(v, name=["event", "index", "focal", "time"][n % 4])
    v = [10 * k + 3 for k in range(n)]
    rng.shuffle(v)
    return v
