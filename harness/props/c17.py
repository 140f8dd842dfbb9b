"""Global Knox statistic."""
import random
import warnings

import core
from core import Model
from props._st import dress, events, frame, glob, index, many, place, thresholds

MODELS = [Model("SpaceTimeLaws", "SpaceTimeLaws.cfg", emits=True, thorough_cfg="SpaceTimeLaws_t.cfg", timeout=3000),
          Model("SpaceTimeLaws", "SpaceTimeLaws_free.cfg", refutes=True),
          Model("RankP", "RankP.cfg", thorough_cfg="RankP_t.cfg"), Model("RankP", "RankP_gt.cfg", refutes=True),
          Model("RankP", "RankP_noplus.cfg", refutes=True)]
TRACE = "T_ST"
ASSUMPTIONS = ["at least two events", "the Poisson tail is judged to 1/500 and for means below 10", "statistical clauses hold up to six standard deviations"]
CONT = ["array", "frame", "dataframe", "array", "frame32"]


def scenarios(emitted, rng, tier):
    th = tier != "quick"
    out = []
    em = emitted["SpaceTimeLaws"]
    rng.shuffle(em)
    for e in em[:6000 if th else 250]:
        out.append(dict(e, perms=rng.choice([0, 1, 9, 19, 99]), keep=rng.random() < 0.6))
    for r in range(3000 if th else 250):
        s, t = events(rng)
        dd, tt = thresholds(rng)
        out.append({"s": s, "t": t, "dd": dd, "tt": tt, "perms": rng.choice([0, 1, 4, 19, 99, 99]), "keep": rng.random() < 0.6})
    for r in range(200 if th else 24):
        s, t = events(rng, n=5 if r % 2 else rng.choice([6, 9, 12]), style=rng.choice(["dense", "clusters", "line"]))
        out.append({"s": s, "t": t, "dd": rng.choice([4, 9, 16]), "tt": rng.choice([2, 4]), "perms": 499, "keep": r % 4 > 0})
    for r in range(60 if th else 5):     # many events
        s, t = events(rng, n=[40, 300, 130, 90, 210][r % 5], style=["clusters", "dense", "spread"][r % 3])
        dd, tt = [(4, 2), (36, 6)][r % 2]
        if r % 5 == 4:
            s, t, dd, tt = many(rng, 100)
        out.append({"s": s, "t": t, "dd": dd, "tt": tt, "perms": rng.choice([0, 9, 19]), "keep": r % 2 == 0})
    for r in range(20 if th else 2):     # many permutations
        s, t = events(rng, n=7, style="clusters")
        out.append({"s": s, "t": t, "dd": 4, "tt": 2, "perms": [999, 1999][r % 2], "keep": True})
    for i, s in enumerate(out):
        dress(s, rng, i)
        s.update(cont=CONT[i % 5], index=rng.choice(["range", "perm", "shift", "str", "gap"]), iseed=rng.randint(0, 999), crs=i % 2)
    return out


def execute(scn, rec):
    import numpy as np
    import pandas as pd
    from pointpats import Knox

    warnings.simplefilter("ignore")
    s, t, delta, tau = place(scn)
    b = core.digest(s), core.digest(t)
    kw = dict(permutations=scn["perms"], keep=scn["keep"])
    if scn["perms"] == 99 and not scn["keep"] and scn["id"] % 2:
        kw = {}
    np.random.seed(scn["seed"])
    ref = s, t
    if scn["cont"] == "array":
        o, exc = rec.call(Knox, s, t, delta, tau, **kw)
    elif scn["cont"] == "frame":
        f, ft = pd.DataFrame(s, columns=["X", "Y"]), pd.DataFrame(t, columns=["T"])
        ref = f, ft
        o, exc = rec.call(Knox, f, ft, delta, tau, **kw)
    elif scn["cont"] == "frame32":
        o, exc = rec.call(Knox, s.astype(np.float32) if (s == s.astype(np.float32)).all() else s, t.astype(np.int32) if (t == t.astype(np.int32)).all() else t, delta, tau, **kw)
    else:
        ix = index(scn["index"], len(s), random.Random(scn["iseed"]))
        d = frame(scn, s, t, name=["T", "when"][scn["id"] % 2], index=ix, crs=3857 if scn["crs"] else None)
        before = d.copy()
        o, exc = rec.call(Knox.from_dataframe, d, ["T", "when"][scn["id"] % 2], delta, tau, **kw)
        if not exc:
            rec.ev("Equal", a=before.equals(d), b=True, what="arguments_unchanged")
    if exc:
        rec.fail("Glob", "", exc)
        return
    glob(o, scn, rec, (core.digest(ref[0]), core.digest(ref[1])) == b)
    if scn["id"] % 5 == 0:
        # the order of the events does not matter, nor do their places in memory
        k = list(range(len(s)))
        random.Random(scn["iseed"]).shuffle(k)
        o, exc = rec.call(Knox, s[k], np.asfortranarray(t[k]), delta, tau, **kw)
        if exc:
            rec.fail("Glob", "", exc)
            return
        glob(o, dict(scn, s=[scn["s"][i] for i in k], t=[scn["t"][i] for i in k]), rec, True)
