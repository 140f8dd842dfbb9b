"""Seeded calls: reproducible, advancing, isolated."""
import warnings

import core
from core import Model
from props._sam import HULLS, hull, lpoly

MODELS = [Model("RngStream", "RngStream.cfg", emits=True, thorough_cfg="RngStream_t.cfg")] + [
    Model("RngStream", f"RngStream_{v}.cfg", refutes=True) for v in ("global", "reseed", "shared")]
TRACE = "T_RNG"
ASSUMPTIONS = ["results of two calls must differ when one generator history extends the other by the same request, or the seeds differ"]

# requests: name -> (sampler, keyword arguments); hull is an index into HULLS
SAMPLERS = {
    "poisson": [dict(size=6), dict(size=(3, 2)), dict(intensity=0.1), dict(intensity=0.1, size=2), dict(size=1)],
    "normal": [dict(size=6), dict(size=(3, 2), cov=4.0), dict(size=1, center=(4, 5), cov=2.0), dict(size=4, cov="full")],
    "cluster_poisson": [dict(size=8), dict(size=(6, 2), n_seeds=3), dict(size=9, n_seeds=3, cluster_radius=2.0), dict(intensity=0.1, n_seeds=2),
                        dict(size=(12, 3), n_seeds=2, cluster_radius=[1.0, 3.0]), dict(size=3, n_seeds=3)],
    "cluster_normal": [dict(size=8), dict(size=(6, 2), n_seeds=3), dict(size=9, n_seeds=3, cov=2.0), dict(size=(8, 3), n_seeds=2, cov=1.0)],
    "strauss": [dict(size=5, n_iter=20), dict(size=(4, 2), n_iter=10, gamma=0.5, r=1.0), dict(intensity=0.1, n_iter=10, gamma=1.0), dict(size=3, n_iter=0)],
}
QS = [dict(realizations=19), dict(realizations=19, nx=2, ny=4), dict(realizations=19, shape="hexagon", lh=4), dict(realizations=9, rectangle_width=5, rectangle_height=4)]
LEGACY = ["pp", "ppc", "pcp", "pcpc", "circle", "window", "knox", "mantel", "jacquez", "modified_knox", "Knox", "KnoxLocal"]
OTHER = ["g_test", "f_test", "k_test", "f", "j"]


def scenarios(emitted, rng, tier):
    th = tier != "quick"
    em = emitted["RngStream"]
    rng.shuffle(em)
    reqs = [("S", fn, i, h) for fn, v in SAMPLERS.items() for i in range(len(v)) for h in (0, 2, 5, 9, 12)]
    reqs += [("Q", "QStatistic", i, h) for i in range(len(QS)) for h in (0, 9)]
    out = []
    for n, e in enumerate(em[: 3000 if th else 330]):
        rq = [rng.choice(reqs), rng.choice(reqs)]
        q = n % 8 == 0
        if q:
            rq = [rng.choice([r for r in reqs if r[0] == "Q"]) for _ in "ab"]
        kinds = ["gen", "gen" if n % 7 else "mt"]
        if q:
            kinds = [rng.choice(["gen", "bit", "rs"]), rng.choice(["gen", "bit", "rs"])]
        # a call of a legacy function now and then, between the others
        leg = [rng.choice(LEGACY) for _ in e["ops"]]
        out.append({"ops": e["ops"], "reqs": rq, "kinds": kinds, "legacy": leg, "np": n % 5 == 1, "extend": rng.randint(0, 3),
                    "form": ["plain", "plain", "zero", "plain", "large", "pair", "sequence"][n % 7]})
    # every request, directly; seeds of any size and form
    call = lambda k, v, f=1: {"op": "call", "f": f, "k": k, "v": v}  # noqa: E731
    for r in reqs:
        out.append({"ops": [call("int", 7), call("gen", 1), call("gen", 1), call("int", 8), call("int", 7)],
                    "reqs": [r, r], "kinds": ["gen", "gen"], "legacy": [], "np": False, "extend": 0})
        if r[3] in (0, 9):
            for f in ("zero", "large", "pair", "sequence"):
                out.append({"ops": [call("int", 7), call("int", 8), call("int", 7)], "reqs": [r, r], "kinds": [], "legacy": [], "np": f == "zero" and r[2] == 1, "extend": 0, "form": f})
    for name in LEGACY:
        ops = []
        for s in (3, 4, 3):
            ops += [{"op": "seed", "v": s}, {"op": "legacy", "v": name}, {"op": "legacy", "v": name}]
        out.append({"ops": ops, "reqs": [], "kinds": [], "legacy": [], "np": False, "extend": 0})
    for name in OTHER:
        out.append({"ops": [{"op": "other", "v": name}] * 2, "reqs": [], "kinds": [], "legacy": [], "np": False, "extend": 0})
    return out


def gstate():
    import numpy as np
    s = np.random.get_state()
    return core.digest(list(map(float, s[1])) + [s[2], s[3], s[4]])


def request(r, rng):
    import numpy as np
    import pointpats as pt
    import pointpats.random as pr

    kind, fn, i, h = r
    if kind == "Q":
        p = np.random.default_rng(11).integers(0, 13, size=(30, 2)).astype(float)
        w = hull(HULLS[h]) if h == 9 else None
        return pt.QStatistic(p, window=w, rng=rng, **QS[i]).chi2_realizations
    kw = dict(SAMPLERS[fn][i])
    if kw.get("cov") == "full":
        kw["cov"] = np.array([[2.0, 1.0], [1.0, 2.0]])
    return getattr(pr, fn)(hull(HULLS[h]), rng=rng, **kw)


def legacy(name):
    import numpy as np
    import pointpats as pt
    import pointpats.process as pp

    rs = np.random.default_rng(2)
    s = rs.integers(0, 20, size=(12, 2)).astype(float)
    t = rs.integers(0, 20, size=(12, 1)).astype(float)
    if name in ("pp", "ppc", "pcp", "pcpc", "window"):
        w = pt.as_window(lpoly(HULLS[9]))
        if name == "pp":
            return np.vstack(list(pp.PoissonPointProcess(w, 9, 2, asPP=True).realizations.values())[0].points.values)
        if name == "ppc":
            return list(pp.PoissonPointProcess(w, 9, 2, conditioning=True, asPP=False).realizations.values())[0]
        if name == "window":
            return list(pp.PoissonPointProcess(w, 9, 2, asPP=False).realizations.values())[1]
        return list(pp.PoissonClusterPointProcess(w, 12, 3, 1.0, 2, asPP=False, conditioning=name == "pcpc").realizations.values())[0]
    if name == "circle":
        return pp.runif_in_circle(5)
    if name == "knox":
        r = pt.knox(s, t, 5, 5, permutations=29)
        return [float(np.ravel(r["stat"])[0]), float(np.ravel(r["pvalue"])[0])]
    if name == "mantel":
        r = pt.mantel(s, t, permutations=29)
        return [float(np.ravel(r["stat"])[0]), float(np.ravel(r["pvalue"])[0])]
    if name == "jacquez":
        r = pt.jacquez(s, t, 2, permutations=29)
        return [float(np.ravel(r["stat"])[0]), float(np.ravel(r["pvalue"])[0])]
    if name == "modified_knox":
        r = pt.modified_knox(s, t, 5, 5, permutations=29)
        return [float(np.ravel(r["stat"])[0]), float(np.ravel(r["pvalue"])[0])]
    k = getattr(pt, name)(s, t, 8, 8, permutations=29, keep=True)
    return np.ravel(k.sim)


def other(name):
    import numpy as np
    import pointpats.distance_statistics as ds

    p = np.random.default_rng(2).integers(0, 60, size=(14, 2)).astype(float)
    if name in ("f", "j"):
        return np.ravel(getattr(ds, name)(p, support=6)[1])
    return np.ravel(getattr(ds, name)(p, support=6, n_simulations=7, keep_simulations=True, n_jobs=1).simulations)


def execute(scn, rec):
    import numpy as np

    warnings.simplefilter("ignore")
    mk = {"gen": np.random.default_rng, "bit": np.random.PCG64, "rs": np.random.RandomState,
          "mt": lambda s: np.random.Generator(np.random.MT19937(s))}
    # what the seeds of the history are called in the trace, and what they are
    form = scn.get("form", "plain")
    label, seed = {"plain": (lambda v: v, lambda v: v), "zero": (lambda v: v - 7, lambda v: v - 7), "large": (lambda v: 100 + v, lambda v: 2**31 * (v - 6)),
                   "pair": (lambda v: 200 + v, lambda v: [v, 3]), "sequence": (lambda v: 300 + v, lambda v: np.random.SeedSequence((v, 5)))}[form]
    gens = [mk[k](7 + i) for i, k in enumerate(scn["kinds"])]
    np.random.seed(99)
    rec.ev("Begin", kinds=[k if k in ("rs", "mt") else "s" for k in scn["kinds"]], seeds=[7, 8][:len(gens)])
    ops = list(scn["ops"])
    if scn["extend"] == 1:      # repeat the history
        ops = ops + ops
    if scn["extend"] == 2:
        ops = ops + ops[::-1]
    nleg = 0
    for i, o in enumerate(ops):
        if o["op"] == "draw":
            g = gens[o["v"] - 1]
            getattr(g, "random_raw" if hasattr(g, "random_raw") else "random" if hasattr(g, "random") else "random_sample")()
            rec.ev("Draw", g=o["v"])
        elif o["op"] == "seed":
            np.random.seed(5 + o.get("v", 0))
            rec.ev("GSeed", seed=5 + o.get("v", 0))
        elif o["op"] == "gdraw":
            np.random.random()
            rec.ev("GDraw")
        elif o["op"] in ("legacy", "other"):
            name = o["v"]
            before = gstate()
            v, exc = rec.call(legacy if o["op"] == "legacy" else other, name)
            v2 = None
            if o["op"] == "other":
                v2, exc2 = rec.call(other, name)
                exc = exc or exc2
            b = dict(fn=name, args="", k="global" if o["op"] == "legacy" else "none", g=0, seed=0, wide=False, gchanged=gstate() != before)
            if exc:
                rec.fail("Call", "", exc, d="", d2="", **b)
            else:
                rec.ev("Call", d=core.digest(v), d2="" if v2 is None or name != "f" else core.digest(v2) + "x", **b)
        else:
            r = scn["reqs"][o["f"] - 1]
            k = o["k"]
            src = {"int": lambda: np.int64(seed(o["v"])) if scn["np"] and form in ("plain", "zero", "large") else seed(o["v"]), "gen": lambda: gens[o["v"] - 1], "none": lambda: None}[k]()
            before = gstate()
            v, exc = rec.call(request, r, src)
            v2 = None
            if k == "none" and not exc:
                v2, exc = rec.call(request, r, None)
            b = dict(fn=r[1], args=f"{r[2]}/{r[3]}", k=k, g=o["v"] if k == "gen" else 0, seed=label(o["v"]) if k == "int" else 0,
                     wide=True, gchanged=gstate() != before)
            if exc:
                rec.fail("Call", "", exc, d="", d2="", **b)
            else:
                rec.ev("Call", d=core.digest(v), d2="" if v2 is None else core.digest(v2), **b)
            if scn["legacy"] and i % 3 == 2 and nleg < 2 and scn["extend"] == 3:
                nleg += 1
                v, exc = rec.call(legacy, scn["legacy"][i % len(scn["legacy"])])
                rec.ev("GDraw")
