"""Clustered and inhibited samples."""
import math
import warnings

import core
from core import Model
from props._sam import BARE, HULLS, Q, dup, hull, quant, size

MODELS = [Model("SizeLaws", "SizeLaws.cfg"), Model("Strauss", "Strauss_ok.cfg"), Model("Strauss", "Strauss_total.cfg", refutes=True)]
TRACE = "T_SAM"
LIMIT_S = 120
ASSUMPTIONS = ["statistical clauses hold up to six standard deviations of the sample, for the fixed seeds of the run",
               "the first point of each group is its seed", "default radii and covariances need at least two seeds",
               "an inhibition sample with parameter 0 has run long enough to have considered every initial point"]
ALL = HULLS + BARE


def scenarios(emitted, rng, tier):
    out = []
    th = tier != "quick"
    for r in range(1500 if th else 110):
        k = rng.choice([1, 2, 3, 4, 5, 7])
        n = k * rng.randint(1, 8) + rng.randint(0, k - 1)
        form = rng.choice(["none", "none", "float", "int", "list", "tuple", "array", "col"])
        if k == 1 and form == "none":
            form = "float"
        rad = [rng.choice([1, 2, 3, 5]) for _ in range(k)]
        if form in ("float", "int"):
            rad = rad[:1] * k
        z = {"k": "pair", "n": n, "r": rng.choice([1, 2, 3])} if r % 3 else {"k": "int", "n": n}
        it = []
        if r % 7 == 0:
            z, it = {"k": "int", "n": rng.choice([1, 2])}, [1, 4]
        if r % 14 == 1:
            z = {"k": "none"}
        if r % 12 == 5:
            k = rng.choice([12, 20, 33])
            n = k * rng.randint(2, 9) + rng.randint(0, k - 1)
            form, rad = rng.choice([("none", [1] * k), ("array", [rng.choice([1, 2, 3, 5]) for _ in range(k)]), ("float", [2] * k)])
            z, it = {"k": "int", "n": n}, []
        out.append({"kind": "cpoisson", "k": k, "form": form, "rad": rad, "size": z, "inten": it, "hull": ALL[r % len(ALL)]})
    big = [{"form": "bbox", "parts": [[[[-6000, -6000], [6000, -6000], [6000, 6000], [-6000, 6000]]]]},
           {"form": "poly", "parts": [[[[-9000, -3000], [6000, -9000], [9000, 9000], [-3000, 6000]]]]}]
    for r in range(60 if th else 6):
        k = rng.choice([2, 3])
        out.append({"kind": "eighths", "k": k, "form": ["array", "float", "none"][r % 3],
                    "rad": [rng.choice([1, 2, 4]) for _ in range(k)] if r % 3 == 0 else [3] * k, "n": 1200, "hull": big[r % 2]})
    for r in range(700 if th else 60):
        k = rng.choice([1, 2, 3, 4, 5])
        n = k * rng.randint(1, 8) + rng.randint(0, k - 1)
        form = rng.choice(["none", "float", "int", "matrix"])
        if k == 1 and form == "none":
            form = "float"
        if r % 12 == 7:
            k = rng.choice([12, 25])
            n = k * rng.randint(2, 9) + rng.randint(0, k - 1)
        z = {"k": "pair", "n": n, "r": rng.choice([1, 2, 3])} if r % 3 else {"k": "int", "n": n}
        out.append({"kind": "cnormal", "k": k, "form": form, "size": z, "hull": ALL[(r + 4) % len(ALL)], "cov": [2, 0, 2] if r % 2 else [2, 1, 2]})
    for r in range(40 if th else 6):
        out.append({"kind": "cmoments", "k": rng.choice([2, 3]), "hull": big[r % 2], "n": 1200, "form": ["matrix", "float", "matrix"][r % 3],
                    "cov": [[4, 2, 4], [4, 0, 4], [9, 0, 1]][r % 3]})
    for r in range(20 if th else 3):
        out.append({"kind": "cdefault", "k": 2 + r % 2, "reps": 1100, "n": 14, "form": ["bbox", "poly", "points"][r % 3]})
    for r in range(600 if th else 48):
        n = rng.choice([2, 3, 4, 6, 8, 10])
        h = rng.choice(ALL)
        out.append({"kind": "hard", "n": n, "reps": rng.choice([1, 1, 2]), "hull": h, "r": rng.choice([1000, 1500, 2500, 700]), "it": rng.choice([1500, 2500])})
    for r in range(12 if th else 2):
        out.append({"kind": "pairs", "n": 20, "r": 750, "reps": 20, "form": ["bbox", "poly"][r % 2], "hull": {"form": ["bbox", "poly"][r % 2], "parts": ALL[0]["parts"]}})
    out.sort(key=lambda s: s["kind"] not in ("pairs", "cdefault"))
    for s in out:
        s.update(seed=rng.randint(0, 10**6), scale=rng.choice([1, 1, 0.5, 0.1, 20, 2**-17, 2**17]), off=rng.choice([[0, 0], [0, 0], [-1000, 500]]))
    return core.far(out)


def radii(form, rad, s):
    import numpy as np
    v = [float(x * s) for x in rad]
    if form == "int":
        return int(v[0]) if v[0] == int(v[0]) else v[0]
    return {"none": lambda: None, "float": lambda: v[0], "list": lambda: v, "tuple": lambda: tuple(v), "array": lambda: np.array(v),
            "col": lambda: np.array(v).reshape(-1, 1)}[form]()


def execute(scn, rec):
    import numpy as np
    import pointpats.random as pr

    warnings.simplefilter("ignore")
    s, off = scn["scale"], scn["off"]
    kind = scn["kind"]
    seed = scn["seed"]
    H = scn.get("hull")
    if kind == "cpoisson":
        z, k = scn["size"], scn["k"]
        kw = dict(n_seeds=k, cluster_radius=radii(scn["form"], scn["rad"], s))
        if scn["inten"]:
            kw["intensity"] = scn["inten"][0] / scn["inten"][1] / s / s
        if k == 2 and scn["id"] % 3 == 0:
            kw.pop("n_seeds")     # documented default
        base = dict(fn="cluster_poisson", size=z, inten=scn["inten"], hull=H)
        v, exc = rec.call(pr.cluster_poisson, hull(H, s, off), size=size(z), rng=seed, **kw)
        if exc:
            rec.fail("Shape", "", exc, **base)
            return
        rec.ev("Shape", got=list(v.shape), x=quant(v, s, off), distinct=dup(v), **base)
        for rep in v.reshape(-1, v.shape[-2], 2):
            rec.ev("CPoisson", hull=H, k=k, x=quant(rep, s, off), reach=False, r=[] if scn["form"] == "none" else [x * Q for x in scn["rad"]])
        if scn["id"] % 10 == 0:
            for f in (lambda: pr.cluster_poisson(hull(H, s, off), size=k, n_seeds=k + 1, cluster_radius=1.0 * s, rng=seed),
                      lambda: pr.cluster_poisson(hull(H, s, off), size=20, n_seeds=k, cluster_radius=[1.0 * s] * (k + 1), rng=seed),
                      lambda: pr.cluster_normal(hull(H, s, off), size=k, n_seeds=k + 1, cov=1.0 * s, rng=seed)):
                _, exc = rec.call(f)
                rec.ev("Error", kind=exc.split(":")[0])
    elif kind == "eighths":
        k, n = scn["k"], scn["n"]
        v, exc = rec.call(pr.cluster_poisson, hull(H, s, off), size=n, n_seeds=k, cluster_radius=radii(scn["form"], scn["rad"], s), rng=seed)
        if exc:
            rec.fail("Eighths", "", exc)
            return
        groups = np.array_split((v - np.array(off)) / s, k)
        none = scn["form"] == "none"
        if none:
            sd = np.array([g[0] for g in groups])
            rad = [0.5 * min(math.dist(a, b) for i, a in enumerate(sd) for b in sd[:i])] * k
        else:
            rad = scn["rad"]
        unit = rad[0] if none else 1
        for g, r in zip(groups, rad):
            d = (g[1:] - g[0]) / r
            q2 = (d ** 2).sum(axis=1)
            b = (d[:, 0] > 0) * 4 + (d[:, 1] > 0) * 2 + (q2 > 0.5)
            c = np.bincount(b[q2 <= 1 + 1e-6], minlength=8)
            # a default radius is so large that the hull may cut the circles
            if not none:
                rec.ev("Eighths", n=len(d), c=[int(x) for x in c])
        # centred at the first seed so that the coordinates stay small
        if not none:
            for g, r in zip(groups, rad):
                rec.ev("CPoisson", hull={"form": "bbox", "parts": [[[[-50, -50], [50, -50], [50, 50], [-50, 50]]]]}, k=1,
                       x=quant(g - g[0]), reach=True, r=[r * Q])
        else:
            w = 9000
            rec.ev("CPoisson", hull={"form": "bbox", "parts": [[[[-40, -40], [40, -40], [40, 40], [-40, 40]]]]}, k=k,
                   x=quant((np.vstack(groups)) / w * 40), reach=True, r=[])
    elif kind == "cnormal":
        z, k = scn["size"], scn["k"]
        a, b, c = scn["cov"]
        cov = {"none": None, "float": float(a * s * s), "int": max(1, int(a * s * s)) if s > 0.01 else float(a * s * s), "matrix": np.array([[a, b], [b, c]]) * s * s}[scn["form"]]
        base = dict(fn="cluster_normal", size=z, inten=[], hull=H)
        kw = {} if cov is None else {"cov": cov}
        v, exc = rec.call(pr.cluster_normal, hull(H, s, off), size=size(z), n_seeds=k, rng=seed, **kw)
        if exc:
            rec.fail("Shape", "", exc, **base)
            return
        rec.ev("Shape", got=list(v.shape), x=quant(v, s, off), distinct=dup(v), **base)
    elif kind == "cmoments":
        k, n = scn["k"], scn["n"]
        a, b, c = scn["cov"]
        cov = float(a * s * s) if scn["form"] == "float" else np.array([[a, b], [b, c]]) * s * s
        R = 2
        v, exc = rec.call(pr.cluster_normal, hull(H, s, off), size=(n, R), n_seeds=k, cov=cov, rng=seed)
        if exc:
            rec.fail("Moments", "", exc)
            return
        for rep in v:
            for g in np.array_split((rep - np.array(off)) / s, k):
                d = g[1:] - g[0]
                m, kk = d.mean(axis=0), np.cov(d.T)
                rec.ev("Moments", n=len(d), c=[[0, 1], [0, 1]], s=[100 * t for t in scn["cov"]], m=[core.fx(t, 1000) for t in m],
                       v=[core.fx(kk[0, 0], 100), core.fx(kk[0, 1], 100), core.fx(kk[1, 1], 100)])
    elif kind == "cdefault":
        k, R, n = scn["k"], scn["reps"], scn["n"]
        L = 120
        H = {"form": scn["form"], "parts": [[[[0, 0], [L, 0], [L, L], [0, L]]]]}
        v, exc = rec.call(pr.cluster_normal, hull(H, s, off), size=(n, R), n_seeds=k, rng=seed)
        if exc:
            rec.fail("CDefault", "", exc)
            return
        v = (v - np.array(off)) / s
        # the place of each coordinate in its distribution: normal, of the mean distance of
        # the seeds, cut off at the sides of the hull
        f = lambda z: 0.5 * math.erfc(-z / math.sqrt(2))  # noqa: E731
        c = [[0] * 10, [0] * 10]
        for rep in v:
            groups = np.array_split(rep, k)
            sd = np.array([g[0] for g in groups])
            d = np.mean([math.dist(a, b) for i, a in enumerate(sd) for b in sd[:i]])
            for g in groups:
                for j in (0, 1):
                    lo, hi = f(-g[0][j] / d), f((L - g[0][j]) / d)
                    for x in g[1:, j]:
                        c[j][min(9, max(0, int(10 * (f((x - g[0][j]) / d) - lo) / (hi - lo))))] += 1
        rec.ev("CDefault", n=R * (n - k), c=c)
    elif kind == "hard":
        n, R = scn["n"], scn["reps"]
        v, exc = rec.call(pr.strauss, hull(H, s, off), size=(n, R) if R > 1 or scn["id"] % 2 else n, gamma=[0, 0.0][scn["id"] % 2], r=scn["r"] / Q * s,
                          n_iter=scn["it"], rng=seed, **({"max_iter": 3} if scn["id"] % 3 == 0 else {}))
        if exc.startswith("RuntimeError"):
            rec.ev("Equal", what="documented", a=0, b=0)
            return
        if exc:
            rec.fail("HardCore", "", exc)
            return
        rec.ev("Shape", fn="strauss", size={"k": "pair", "n": n, "r": R}, inten=[], hull=H, got=list(v.shape), x=quant(v, s, off), distinct=dup(v))
        for rep in v.reshape(-1, n, 2):
            rec.ev("HardCore", hull=H, r=scn["r"], x=quant(rep, s, off))
    else:
        n, R, r = scn["n"], scn["reps"], scn["r"] / Q
        c = []
        for g in (0.03, 0.35, 1.0):
            v, exc = rec.call(pr.strauss, hull(H, s, off), size=(n, R), gamma=g, r=r * s, n_iter=500, rng=seed)
            if exc:
                rec.fail("PairCounts", "", exc)
                return
            c.append(sum(math.dist(a, b) < r * s for rep in v for i, a in enumerate(rep) for b in rep[:i]))
        # expected number of close pairs of n uniform points in the 12 x 12 box
        L = 12
        rec.ev("PairCounts", c=c, want=round(R * n * (n - 1) / 2 * (math.pi * r**2 - 8 / 3 * r**3 / L + r**4 / 2 / L**2) / L**2))
