"""Classic tests of space-time interaction."""
import warnings

import core
from core import Model
from props._st import dress, events, many, place, thresholds

MODELS = [Model("SpaceTimeLaws", "SpaceTimeLaws.cfg", emits=True, thorough_cfg="SpaceTimeLaws_t.cfg", timeout=3000),
          Model("SpaceTimeLaws", "SpaceTimeLaws_free.cfg", refutes=True),
          Model("RankP", "RankP.cfg", thorough_cfg="RankP_t.cfg"), Model("RankP", "RankP_gt.cfg", refutes=True)]
TRACE = "T_ST"
ASSUMPTIONS = ["Jacquez: no ties at the k-th neighbour in space or time; Mantel: events on a line with integer distances, statistic to 1/800",
               "statistical clauses hold up to six standard deviations"]


def distinct_gaps(rng, n, dim, top=60):
    """Integer positions whose pairwise distances from every point are all different."""
    while True:
        p = [tuple(rng.randint(0, top) for _ in range(dim)) for _ in range(n)]
        if all(len({sum((a - b) ** 2 for a, b in zip(u, v)) for v in p}) == n for u in p):
            return [list(u) for u in p]


def sharp(rng):
    """Events for which few permuted Mantel correlations tie with a middling observed one."""
    import itertools
    while True:
        n = 5
        s, t = [rng.randint(0, 4) for _ in range(n)], [rng.randint(0, 4) for _ in range(n)]
        pr = [(i, j) for i in range(n) for j in range(i)]
        u = [60 // (abs(s[i] - s[j]) + 1) for i, j in pr]
        c = [sum(a * 60 // (abs(t[f[i]] - t[f[j]]) + 1) for a, (i, j) in zip(u, pr)) for f in itertools.permutations(range(n))]
        lo, hi = sum(v > c[0] for v in c), sum(v >= c[0] for v in c)
        if hi - lo <= 4 and 30 < hi < 90 and len(set(u)) > 1:
            return [[x, 0] for x in s], t


def extreme(rng, r):
    """Events whose Jacquez statistic is the smallest (or largest) of all relabellings."""
    import itertools
    n, k = [4, 5, 5][r % 3], 1 + r % 2
    s, t = distinct_gaps(rng, n, 2), [x[0] for x in distinct_gaps(rng, n, 1)]
    near = lambda d, i: set(sorted((j for j in range(n) if j != i), key=lambda j: d(i, j))[:k])  # noqa: E731
    a = [near(lambda i, j: sum((p - q) ** 2 for p, q in zip(s[i], s[j])), i) for i in range(n)]

    def stat(f):
        return sum(len(a[i] & near(lambda i, j: abs(t[f[i]] - t[f[j]]), i)) for i in range(n))
    f = (min if r % 4 < 3 else max)(itertools.permutations(range(n)), key=stat)
    return {"test": "jacquez", "s": s, "t": [t[x] for x in f], "dd": 4, "tt": 2, "k": k}


def scenarios(emitted, rng, tier):
    th = tier != "quick"
    out = []
    em = emitted["SpaceTimeLaws"]
    rng.shuffle(em)
    for i, e in enumerate(em[:4000 if th else 160]):
        out.append(dict(e, test=["knox", "modified_knox"][i % 2], perms=rng.choice([0, 1, 19, 99])))
    for r in range(2500 if th else 160):
        s, t = events(rng)
        dd, tt = thresholds(rng)
        out.append({"s": s, "t": t, "dd": dd, "tt": tt, "test": ["knox", "modified_knox"][r % 2], "perms": rng.choice([0, 4, 19, 99, 99])})
    for r in range(250 if th else 30):
        s, t = events(rng, n=rng.choice([4, 5]), style=rng.choice(["dense", "clusters", "line"]))
        out.append({"s": s, "t": t, "dd": rng.choice([4, 9]), "tt": rng.choice([2, 4]), "test": ["knox", "modified_knox"][r % 2], "perms": 499})
    for r in range(1500 if th else 120):
        n = rng.choice([3, 4, 5, 5, 6, 9])
        out.append({"test": "jacquez", "s": distinct_gaps(rng, n, 2), "t": [x[0] for x in distinct_gaps(rng, n, 1)], "dd": 4, "tt": 2, "k": rng.randint(1, min(3, n - 1)),
                    "perms": rng.choice([0, 1, 9, 99, 299]) if n < 6 else rng.choice([0, 9])})
    for r in range(1500 if th else 120):
        n = rng.choice([3, 4, 4, 5, 5, 6])
        sp, tp = rng.choice([1, -1, -1, 2, -2]), rng.choice([1, -1, -1, 2, -2])
        # the same events in any order
        s = [[rng.randint(0, 2 if sp == -2 else 4), 0] for _ in range(n)]
        t = [rng.randint(0, 2 if tp == -2 else 4) for _ in range(n)]
        if r % 5 == 0:
            t = [a[0] % 3 for a in s]
        sc, tc = rng.choice([1, 1, 2]) if sp < 0 else rng.choice([0, 1, 3]), rng.choice([1, 1, 2]) if tp < 0 else rng.choice([0, 1, 3])
        if len({abs(a[0] - b[0]) for i, a in enumerate(s) for b in s[:i]}) < 2 or len({abs(a - b) for i, a in enumerate(t) for b in t[:i]}) < 2:
            continue
        out.append({"test": "mantel", "s": s, "t": t, "dd": 4, "tt": 2, "spow": sp, "tpow": tp, "scon": sc, "tcon": tc,
                    "perms": rng.choice([0, 1, 99, 199])})
    for r in range(120 if th else 16):
        s, t = sharp(rng)
        out.append({"test": "mantel", "s": s, "t": t, "dd": 4, "tt": 2, "spow": -1, "tpow": -1, "scon": 1, "tcon": 1, "perms": 2999})
    for r in range(120 if th else 16):
        # many permutations change nothing
        t = [0] * 3 + [rng.randint(1, 4)] + [rng.choice([2, 4])] * (r % 4 > 0)
        s = rng.choice([[3, 1, 0, 4, 2], [0, 0, 4, 1, 1], [2, 2, 0, 1, 4]])[:len(t)]
        sp, tp = rng.choice([1, -1, 2]), rng.choice([1, -1, 2])
        c = [0, 1, 2] if r % 2 else [2, 1, 0]
        sc, tc = max(c[0], sp < 0), max(c[2], tp < 0)
        out.append({"test": "mantel", "s": [[x, 0] for x in s], "t": t, "dd": 4, "tt": 2, "spow": sp, "tpow": tp, "scon": int(sc), "tcon": int(tc), "perms": 999})
    for r in range(90 if th else 15):
        out.append(dict(extreme(rng, r), perms=rng.choice([99, 399])))
    for r in range(80 if th else 8):     # many events
        if r % 4 < 2:
            s, t = events(rng, n=[40, 80, 130, 270][r % 4], style=["clusters", "spread"][r % 2])
            out.append({"s": s, "t": t, "dd": 16, "tt": 4, "test": ["knox", "modified_knox"][r // 4 % 2], "perms": rng.choice([0, 9])})
        elif r % 4 == 2:
            out.append({"test": "jacquez", "s": distinct_gaps(rng, 16, 2, 999), "t": [x[0] for x in distinct_gaps(rng, 16, 1, 9999)], "dd": 4, "tt": 2,
                        "k": rng.choice([1, 3, 6]), "perms": 9})
        else:
            out.append({"test": "mantel", "s": [[rng.randint(0, 4), 0] for _ in range(26)], "t": [rng.randint(0, 4) for _ in range(26)], "dd": 4, "tt": 2,
                        "spow": -1, "tpow": [1, -1][r // 4 % 2], "scon": 1, "tcon": 1, "perms": 9})
    for i, s in enumerate(out):
        dress(s, rng, i)
        s.update(k=s.get("k", 1))
        for f in ("spow", "tpow", "scon", "tcon"):
            s[f] = s.get(f, 1)
    return out


def execute(scn, rec):
    import numpy as np
    import pointpats as pt

    warnings.simplefilter("ignore")
    test, perms = scn["test"], scn["perms"]
    if test == "mantel":
        # the offset applies to the distances as they are
        c, o = [(1, 0), (0, 1), (3 / 5, 4 / 5)][scn["id"] % 3]
        s = np.array([[p[0] * c + scn["off"][0], p[0] * o + scn["off"][1]] for p in scn["s"]])
        if scn["id"] % 3 < 2 and scn["sint"]:
            s = s.astype(int)
        t = np.array(scn["t"]).reshape(-1, 1) + scn["t0"]
        t = t if scn["tint"] else t * 1.0
    else:
        s, t, delta, tau = place(scn)
    b = core.digest(s), core.digest(t)
    np.random.seed(scn["seed"])
    kw = {"permutations": perms}
    if perms == 99 and scn["id"] % 2:
        kw = {}
    if test == "knox":
        r, exc = rec.call(pt.knox, s, t, delta, tau, **kw, **({"debug": True} if scn["id"] % 5 == 0 else {}))
    elif test == "modified_knox":
        r, exc = rec.call(pt.modified_knox, s, t, delta, tau, **kw)
    elif test == "jacquez":
        r, exc = rec.call(pt.jacquez, s, t, scn["k"], **kw)
    else:
        a = {k: float(scn[k]) for k in ("scon", "spow", "tcon", "tpow")}
        if all(scn[k] == v for k, v in (("scon", 1), ("spow", -1), ("tcon", 1), ("tpow", -1))) and scn["id"] % 2:
            a = {}
        r, exc = rec.call(pt.mantel, s, t, **a, **kw)
    if exc:
        rec.fail("Classic", test, exc)
        return
    d = r if isinstance(r, dict) else {"stat": r}
    hasp = "pvalue" in d
    val = lambda v: np.asarray(v).ravel()[0]  # noqa: E731
    rec.ev("Classic", test, test=test, s=scn["s"], t=scn["t"], dd=scn["dd"], tt=scn["tt"], k=scn["k"], scon=scn["scon"], spow=scn["spow"],
           tcon=scn["tcon"], tpow=scn["tpow"], perms=perms, stat=core.q(val(d["stat"]), maxden=1000) if test != "mantel" else core.NONE,
           fx=core.fx(val(d["stat"]), 10000) if test == "mantel" else 0, hasp=hasp, p=core.q(val(d["pvalue"]), maxden=perms + 1) if hasp else core.NONE,
           same=(core.digest(s), core.digest(t)) == b)
