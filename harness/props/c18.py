"""Local Knox statistics."""
import random
import warnings

import core
from core import Model
from props._st import dress, events, frame, glob, index, many, place, thresholds

MODELS = [Model("SpaceTimeLaws", "SpaceTimeLaws.cfg", emits=True, thorough_cfg="SpaceTimeLaws_t.cfg", timeout=3000),
          Model("SpaceTimeLaws", "SpaceTimeLaws_set.cfg", refutes=True),
          Model("RankP", "RankP.cfg", thorough_cfg="RankP_t.cfg"), Model("RankP", "RankP_gt.cfg", refutes=True)]
TRACE = "T_ST"
ASSUMPTIONS = ["at least two events with distinct ids", "statistical clauses hold up to six standard deviations"]


def scenarios(emitted, rng, tier):
    th = tier != "quick"
    out = []
    em = emitted["SpaceTimeLaws"]
    rng.shuffle(em)
    for e in em[:5000 if th else 200]:
        out.append(dict(e, perms=rng.choice([0, 1, 9, 19, 99]), keep=rng.random() < 0.6))
    for r in range(3000 if th else 220):
        s, t = events(rng)
        dd, tt = thresholds(rng)
        out.append({"s": s, "t": t, "dd": dd, "tt": tt, "perms": rng.choice([0, 1, 4, 19, 99, 99]), "keep": rng.random() < 0.6})
    for r in range(200 if th else 16):
        s, t = events(rng, n=rng.choice([5, 7, 9, 11]), style=rng.choice(["dense", "clusters", "line"]))
        out.append({"s": s, "t": t, "dd": rng.choice([4, 9, 16]), "tt": rng.choice([2, 4]), "perms": 299, "keep": r % 3 > 0})
    for r in range(60 if th else 5):     # many events
        s, t, dd, tt = many(rng, [20, 35, 50, 70, 90][r % 5])
        out.append({"s": s, "t": t, "dd": dd, "tt": tt, "perms": rng.choice([0, 9, 99]), "keep": r % 2 == 0})
    for i, s in enumerate(out):
        dress(s, rng, i)
        s.update(cont=["array", "dataframe"][i % 2], index=rng.choice(["range", "perm", "perm", "shift", "str", "gap", "date", "half", "named", "named"]), iseed=rng.randint(0, 999), crs=i % 3)
    for r in range(12):
        out.append(dict(out[r], bad=["tlist", "slist", "narrow", "short", "ids", "sframe"][r % 6]))
    return out


def execute(scn, rec):
    import numpy as np
    import pandas as pd
    from pointpats import KnoxLocal

    warnings.simplefilter("ignore")
    s, t, delta, tau = place(scn)
    n = len(s)
    bad = scn.get("bad")
    if bad:
        a, b, kw = s, t, {}
        if bad == "tlist":
            b = t.tolist()
        elif bad == "slist":
            a = s.tolist()
        elif bad == "sframe":
            a = pd.DataFrame(s)
        elif bad == "narrow":
            a = s[:, :1]
        elif bad == "short":
            b = t[:-1]
        else:
            kw = {"ids": list(range(n + 1))}
        o, exc = rec.call(KnoxLocal, a, b, delta, tau, **kw)
        rec.ev("Error", bad, kind=exc.split(":")[0], want="ValueError")
        return
    b = core.digest(s), core.digest(t)
    kw = dict(permutations=scn["perms"], keep=scn["keep"])
    if scn["perms"] == 99 and not scn["keep"] and scn["id"] % 2:
        kw = {}
    ix = index(scn["index"], n, random.Random(scn["iseed"]))
    ids = list(range(n)) if ix is None else ix
    np.random.seed(scn["seed"])
    if scn["cont"] == "array":
        if ix is not None:
            kw["ids"] = np.array(ix) if scn["id"] % 4 == 0 else ix
        o, exc = rec.call(KnoxLocal, s, t, delta, tau, **kw)
    else:
        d = frame(scn, s, t, name=["T", "when"][scn["id"] % 3 // 2], index=ix, crs=3857 if scn["crs"] else None)
        before = d.copy()
        o, exc = rec.call(KnoxLocal.from_dataframe, d, ["T", "when"][scn["id"] % 3 // 2], delta, tau, **kw)
        if not exc:
            rec.ev("Equal", a=before.equals(d), b=True, what="arguments_unchanged")
    if exc:
        rec.fail("Loc", "", exc)
        return
    same = (core.digest(s), core.digest(t)) == b
    pos = {v: k + 1 for k, v in enumerate(ids)}
    hs, hp = hasattr(o, "sims"), hasattr(o, "p_sims")
    a = o.adjlist
    rec.ev("Loc", s=scn["s"], t=scn["t"], dd=scn["dd"], tt=scn["tt"], perms=scn["perms"], nst=core.it(o.nst), keep=scn["keep"],
           nsti=[core.it(v) for v in o.nsti], big=n > 12, haspsims=hp, hassims=hs,
           hyp=[core.fx(v, 100000) for v in o.p_hypergeom] if n > 12 else core.qs(o.p_hypergeom, maxden=100000, tol=1e-11),
           psims=core.qs(o.p_sims, maxden=scn["perms"] + 1) if hp else [], sims=[[core.it(v) for v in r] for r in o.sims] if hs else [],
           adj=[[pos.get(x, 0), pos.get(y, 0), z] for x, y, z in zip(a.focal, a.neighbor, a.orientation, strict=True)], same=same)
    rec.ev("Equal", a=[core.it(v) for v in o.statistic_], b=[core.it(v) for v in o.nsti], what="local_statistic")
    if scn["id"] % 3 == 0:
        glob(o, scn, rec, same, key="local")
