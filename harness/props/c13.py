"""Random samplers: shape, hull, uniformity, moments."""
import warnings

import core
from core import Model, q
from props._sam import BARE, HULLS, Q, dup, hull, quant, size

MODELS = [Model("SizeLaws", "SizeLaws.cfg", emits=True), Model("SizeLaws", "SizeLaws_both.cfg", refutes=True)]
TRACE = "T_SAM"
LIMIT_S = 120
ASSUMPTIONS = ["statistical clauses hold up to six standard deviations of the sample, for the fixed seeds of the run",
               "coordinates are judged to 1/250 of a lattice unit"]
FNS = ["poisson", "normal", "cluster_poisson", "cluster_normal", "strauss"]
ALL = HULLS + BARE


def scenarios(emitted, rng, tier):
    out = []
    th = tier != "quick"
    em = emitted["SizeLaws"]
    rng.shuffle(em)
    k = 0
    # one and the same request for every sampler and many hulls
    for e in em if th else em[:120]:
        z = dict(e["size"])
        for fn in (FNS if th else [FNS[k % 5], FNS[(k // 5 + k + 2) % 5]]):
            h = ALL[k % len(ALL)]
            k += 1
            if fn in ("normal", "cluster_normal") and e["inten"]:
                continue
            if z["k"] == "bad":
                z["v"] = rng.choice([2.5, [10, 2], "10", [3], {"t": [5]}, {"t": [5, 2, 2]}])
            out.append({"kind": "shape", "fn": fn, "size": dict(z), "inten": e["inten"], "hull": h})
    for z, it in (({"k": "pair", "n": 4, "r": 1}, []), ({"k": "pair", "n": 1, "r": 3}, []), ({"k": "int", "n": 1}, []),
                  ({"k": "pair", "n": 1, "r": 1}, []), ({"k": "int", "n": 1}, [1, 8]), ({"k": "none"}, [1, 8]), ({"k": "none"}, []),
                  ({"k": "pair", "n": 30, "r": 4}, []), ({"k": "int", "n": 3}, [1, 3])):
        for fn in FNS:
            if fn in ("normal", "cluster_normal") and it:
                continue
            out.append({"kind": "shape", "fn": fn, "size": z, "inten": it, "hull": rng.choice(ALL)})
    if th:
        for _ in range(600):
            k = rng.choice(["int", "pair", "none"])
            it = rng.choice([[], [1, 3], [2, 7], [1, 1]]) if k != "pair" else []
            z = {"k": k, "n": rng.choice([1, 2, 3, 7, 20]), "r": rng.choice([1, 2, 5])}
            fn = rng.choice(FNS)
            if fn in ("normal", "cluster_normal") and it:
                continue
            out.append({"kind": "shape", "fn": fn, "size": z, "inten": it, "hull": rng.choice(ALL)})
    for h in ALL:
        for rep in range(4 if th else 1):
            out.append({"kind": "uniform", "hull": h, "n": 2000, "reps": rng.choice([1, 2])})
    big = {"form": "bbox", "parts": [[[[-600, -600], [600, -600], [600, 600], [-600, 600]]]]}
    bigp = {"form": "poly", "parts": [[[[-900, -300], [600, -900], [900, 900], [-300, 600]]]]}
    bigh = {"form": "hullobj", "parts": bigp["parts"]}
    for rep in range(12 if th else 1):
        for h in (big, bigp, bigh):
            for cov in ([[4, 0, 4]], [[9, 0, 1]], [[1, 0, 16]], [[4, 2, 4]], [[2, -1, 2]]):
                out.append({"kind": "moments", "hull": h, "n": 1500, "cov": cov, "form": "matrix", "center": rng.choice([[0, 0], [20, -35], [-7, 11]])})
            out.append({"kind": "moments", "hull": h, "n": 1500, "cov": [[4, 0, 4]], "form": "scalar", "center": [3, 4]})
            out.append({"kind": "moments", "hull": h, "n": 1500, "cov": [[3, 0, 3]], "form": "intscalar", "center": None if h is not bigh else [1, 1]})
            out.append({"kind": "moments", "hull": h, "n": 1500, "cov": [[9, 0, 1], [1, 0, 9], [4, 2, 4]], "form": "3d", "center": [5, -5]})
            # full covariances with unequal spreads: see known_findings.json
            out.append({"kind": "moments", "hull": h, "n": 1500, "cov": [[9, 2, 1]], "form": "matrix", "center": [0, 2], "key": "F18"})
    for rep in range(6 if th else 1):
        for k, w in ((1, 24), (2, 24), (3, 24)):
            out.append({"kind": "default", "w": w, "k": k, "n": 1500, "form": rng.choice(["bbox", "poly", "points"])})
    for s in out:
        s.update(seed=rng.randint(0, 10**6), scale=rng.choice([1, 1, 0.5, 0.1, 20, 2**-17, 2**17]), off=rng.choice([[0, 0], [0, 0], [-1000, 500]]))
    return core.far(out)


def call(fn, h, z, inten, seed, s=1, **kw):
    import numpy as np
    import pointpats.random as pr

    warnings.simplefilter("ignore")
    if inten:
        kw["intensity"] = inten[0] / inten[1] / (s * s)
    if fn.startswith("cluster"):
        kw.setdefault("n_seeds", 1 if z is None and False else 2)
    sz = z
    return getattr(pr, fn)(h, size=sz, rng=seed, **kw)


def execute(scn, rec):
    import numpy as np
    import pointpats.random as pr

    s, off = scn["scale"], scn["off"]
    kind = scn["kind"]
    key = scn.get("key", "")
    if kind == "shape":
        fn, z = scn["fn"], scn["size"]
        v = z.get("v")
        zz = size({**z, "v": tuple(v["t"]) if isinstance(v, dict) else v})
        h = hull(scn["hull"], s, off)
        kw = {}
        from fractions import Fraction  # noqa: F401
        if fn == "strauss":
            kw = dict(n_iter=40, r=0.1 * s, gamma=0.7)
        if fn.startswith("cluster"):
            # as many seeds as there can be
            kw = dict(n_seeds=2)
            if z.get("n") == 1 and z["k"] != "none" and not (z["k"] == "int" and scn["inten"]):
                kw = dict(n_seeds=1)
            if fn == "cluster_poisson":
                kw["cluster_radius"] = [None, 2.0 * s][scn["id"] % 2] if kw["n_seeds"] == 2 else 1.5 * s
            else:
                kw["cov"] = [None, 2.0 * s * s][scn["id"] % 2] if kw["n_seeds"] == 2 else 1.5 * s * s
        base = dict(fn=fn, size={k: x for k, x in z.items() if k != "v"}, inten=scn["inten"], hull=scn["hull"])
        if hasattr(pr, "parse_size_and_intensity") and scn["hull"]["form"] != "points" and z["k"] != "bad" and not (z["k"] == "pair" and scn["inten"]):
            it = scn["inten"]
            r, exc = rec.call(pr.parse_size_and_intensity, h, size=zz, intensity=it[0] / it[1] / (s * s) if it else None)
            if exc:
                rec.fail("Parsed", key, exc, **base)
            else:
                rec.ev("Parsed", n=core.it(r[0]), r=core.it(r[1]), got=q(r[2] * s * s, maxden=2000, tol=1e-7 if scn["hull"]["form"] == "hullobj" else 1e-9), **base)
        v, exc = rec.call(call, fn, h, zz, scn["inten"], scn["seed"], s, **kw)
        if z["k"] == "bad" or (z["k"] == "pair" and scn["inten"]):
            rec.ev("Reject", kind=exc.split(":")[0], **base)
        elif exc:
            rec.fail("Shape", key, exc, **base)
        else:
            assert isinstance(v, np.ndarray), type(v)
            rec.ev("Shape", got=list(v.shape), x=quant(v, s, off), distinct=dup(v), **base)
        return
    if kind == "uniform":
        n, reps = scn["n"], scn["reps"]
        h = hull(scn["hull"], s, off)
        v, exc = rec.call(pr.poisson, h, size=(n, reps), rng=scn["seed"])
        if exc:
            rec.fail("Uniform", "", exc)
            return
        pts = [p for part in scn["hull"]["parts"] for r in part for p in r]
        x0, y0, x1, y1 = min(p[0] for p in pts), min(p[1] for p in pts), max(p[0] for p in pts), max(p[1] for p in pts)
        v = v.reshape(reps, n, 2)
        for rep in v:
            a = (rep - np.array(off)) / s
            i = np.floor(3 * (a[:, 0] - x0) / (x1 - x0)).astype(int)
            j = np.floor(3 * (a[:, 1] - y0) / (y1 - y0)).astype(int)
            ok = (i >= 0) & (i < 3) & (j >= 0) & (j < 3)
            c = np.bincount((3 * j + i)[ok], minlength=9)
            rec.ev("Uniform", hull=scn["hull"], n=n, c=[int(t) for t in c])
        return
    if kind == "moments":
        n = scn["n"]
        h = hull(scn["hull"], s, off)
        covs = [np.array([[a, b], [b, c]]) * s * s for a, b, c in scn["cov"]]
        form = scn["form"]
        R = len(covs)
        cov = {"matrix": lambda: covs[0], "scalar": lambda: float(scn["cov"][0][0] * s * s), "3d": lambda: np.array(covs),
               "intscalar": lambda: float(scn["cov"][0][0] * s * s)}[form]()
        if form == "intscalar" and cov == int(cov):
            cov = int(cov)
        c = scn["center"]
        kw = {}
        if c is not None:
            kw["center"] = [(c[0] * s + off[0]), (c[1] * s + off[1])]
            kw["center"] = [tuple, list, np.array][scn["id"] % 3](kw["center"])
        v, exc = rec.call(pr.normal, h, cov=cov, size=(n, R) if R > 1 or scn["id"] % 2 else n, rng=scn["seed"], **kw)
        if exc:
            rec.fail("Moments", key, exc)
            return
        v = np.asarray(v).reshape(R, n, 2)
        cq, small = [], {}
        if c is None:
            small = {"form": scn["hull"]["form"], "parts": [[[[x // 300 for x in p] for p in r] for r in part] for part in scn["hull"]["parts"]]}
        else:
            cq = [[c[0], 1], [c[1], 1]]
        for r in range(R):
            a = (v[r] - np.array(off)) / s
            m, k = a.mean(axis=0), np.cov(a.T)
            rec.ev("Moments", key, n=n, c=cq, k=300, hull=small, s=[100 * t for t in scn["cov"][r]],
                   m=[core.fx(t, 1000) for t in m], v=[core.fx(k[0, 0], 100), core.fx(k[0, 1], 100), core.fx(k[1, 1], 100)])
        return
    if kind == "default":
        w, k, n = scn["w"], scn["k"], scn["n"]
        hh = w // k
        H = {"form": scn["form"], "parts": [[[[3, 6], [3 + w, 6], [3 + w, 6 + hh], [3, 6 + hh]]]]}
        v, exc = rec.call(pr.normal, hull(H, s, off), size=n, rng=scn["seed"])
        if exc:
            rec.fail("Default", "", exc)
            return
        a = (v - np.array(off)) / s
        m, c = a.mean(axis=0), np.cov(a.T)
        rec.ev("Default", n=n, k=k, w=w, c=[q(3 + w / 2), q(6 + hh / 2)], m=[core.fx(t, 1000) for t in m],
               v=[core.fx(c[0, 0], 100), core.fx(c[0, 1], 100), core.fx(c[1, 1], 100)])
