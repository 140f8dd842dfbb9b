"""Quadrat chi-square statistics and p-values."""
import core
from core import Model, q, qs
from props.c07 import cont

MODELS = [Model("ChiLaws", "ChiLaws.cfg", emits=True, thorough_cfg="ChiLaws_t.cfg", timeout=3000),
          Model("RankP", "RankP.cfg", thorough_cfg="RankP_t.cfg"), Model("RankP", "RankP_gt.cfg", refutes=True),
          Model("RankP", "RankP_noplus.cfg", refutes=True)]
TRACE = "T_QUAD"
ASSUMPTIONS = ["at least two points of non-zero extent when realizations are simulated"]
CONT = ["array", "list", "pattern", "geoseries", "geodataframe"]
LSHAPE = [[0, 0], [60, 0], [60, 30], [30, 30], [30, 60], [0, 60]]


def scenarios(emitted, rng, tier):
    out = []
    em = emitted["ChiLaws"]
    rng.shuffle(em)
    for i, e in enumerate(em[:90 if tier == "quick" else 4000]):
        # a pattern with exactly this table of counts: centres of a 2 x (k/2) or 1 x k grid
        c = e["c"]
        nc, nr = (2, len(c) // 2) if len(c) % 2 == 0 else (len(c), 1)
        pts = []
        for k, m in enumerate(c):
            x, y = k % nc, k // nc
            pts += [[6 * x + rng.randint(1, 5), 6 * y + rng.randint(1, 5)] for _ in range(m)]
        out.append({"pts": pts, "shape": "rectangle", "nx": nc, "ny": nr})
    for r in range(150 if tier == "quick" else 3000):
        n = rng.choice([4, 6, 9, 12, 15, 30, 47])
        g = rng.choice([10, 60])
        pts = [[rng.randint(0, g), rng.randint(0, g)] for _ in range(n)]
        if r % 4 == 0:
            pts = [[p[0] // 3, p[1] // 3] if j % 3 else p for j, p in enumerate(pts)]
        s = {"pts": pts}
        if r % 3 == 0:
            s.update(shape="hexagon", lh=rng.choice([g // 2, g // 3, g // 5]))
        elif r % 3 == 1:
            s.update(shape="rectangle", nx=rng.choice([1, 2, 3, 4]), ny=rng.choice([2, 2, 3, 4]))
        else:
            s.update(shape="rectangle", w=rng.choice([g // 2, g // 3, g / 4]), hh=rng.choice([g // 2, g // 3, g / 4]))
        if r % 2 == 0 or s["shape"] == "hexagon":
            s.update(R=rng.choice([1, 2, 3, 9, 19, 39]), rng=rng.choice([0, 1, rng.randint(0, 10**6), rng.randint(0, 10**6)]), rngkind=rng.choice(["int", "gen", "npint", "state", "bit"]),
                     win=rng.choice([0, 1, 2]))
        out.append(s)
    for r in range(4 if tier == "quick" else 60):    # many points, many realizations
        n = [300, 800, 6, 8][r % 4]
        out.append({"pts": [[rng.randint(0, 60), rng.randint(0, 60)] for _ in range(n)], "shape": ["hexagon", "rectangle"][r % 2], "lh": 14, "nx": 5, "ny": 4,
                    "R": [1, 3, 99, 199][r % 4], "rng": rng.randint(0, 10**6), "rngkind": "int", "win": r % 3})
    out += [{"pts": [[rng.randint(0, 60), rng.randint(0, 60)] for _ in range(60)], "spread": k, "shape": sh, "R": 200, "rng": 5 + k,
             "rngkind": "int", "nx": 2, "ny": 2, "lh": 25, "win": w} for k, (sh, w) in
            enumerate([("rectangle", 0), ("rectangle", 3)])]
    # the simulated statistics are those of patterns drawn and counted one by one
    for k, (sh, w, lh, g) in enumerate([("hexagon", 0, 17.5, 60), ("hexagon", 1, 1.75, 9), ("hexagon", 3, 25, 60), ("rectangle", 1, 0, 60)]):
        s = {"pts": [[rng.randint(0, g), rng.randint(0, g)] for _ in range(40)], "spread": 9, "shape": sh, "R": 120, "rng": rng.randint(0, 10**6), "rngkind": "int", "lh": lh, "win": w}
        s.update({"w": 25, "hh": 14} if sh == "rectangle" else {})
        out.append(s)
    for i, s in enumerate(out):
        s.update(off=rng.choice([[0, 0], [0, 0], [-1000, 500]]), scale=rng.choice([1, 1, 0.5, 32, 2**-17, 2**17]), cont=CONT[i % 5])
    return core.far([s for s in out if len({p[0] for p in s["pts"]}) > 1 and len({p[1] for p in s["pts"]}) > 1])


def mkrng(kind, seed):
    import numpy as np
    return {"int": lambda: seed, "npint": lambda: np.int64(seed), "gen": lambda: np.random.default_rng(seed),
            "state": lambda: np.random.RandomState(seed), "bit": lambda: np.random.PCG64(seed)}[kind]()


def execute(scn, rec):
    import matplotlib.pyplot as plt
    import numpy as np
    import pointpats as pt
    import shapely

    s, (ox, oy) = scn["scale"], scn["off"]
    pts = scn["pts"]
    n = len(pts)
    xy = [[p[0] * s + ox, p[1] * s + oy] for p in pts]
    c = cont(scn["cont"], xy)
    R = scn.get("R", 0)
    shape = scn["shape"]
    kw = {"shape": shape}
    if shape == "hexagon":
        kw["lh"] = scn["lh"] * s
    elif "w" in scn:
        kw.update(rectangle_width=scn["w"] * s, rectangle_height=scn["hh"] * s)
    else:
        kw.update(nx=scn["nx"], ny=scn["ny"])
    xs, ys = [p[0] for p in xy], [p[1] for p in xy]
    win = {0: None, 1: shapely.box(min(xs), min(ys), max(xs), max(ys)).buffer(5 * s),
           2: shapely.MultiPolygon([shapely.box(min(xs), min(ys), max(xs), max(ys)).buffer(s), shapely.box(max(xs) + 10 * s, min(ys), max(xs) + 14 * s, max(ys))]),
           3: shapely.Polygon([[a * s + ox, b * s + oy] for a, b in LSHAPE])}[scn.get("win", 0)]
    if win is not None:
        kw["window"] = win

    def make(seed=None, **more):
        k = dict(kw)
        if R:
            k["realizations"] = R
            k["rng"] = mkrng(scn["rngkind"], scn["rng"] if seed is None else seed)
        k.update(more)
        return pt.QStatistic(c, **k)

    base = dict(n=n, shape=shape, R=R)

    def stat():
        m = make()
        if shape == "hexagon":
            d = pt.HexagonM(c, kw["lh"]).point_location_sta()
        elif "w" in scn:
            d = pt.RectangleM(c, rectangle_width=kw["rectangle_width"], rectangle_height=kw["rectangle_height"]).point_location_sta()
        else:
            d = pt.RectangleM(c, scn["nx"], scn["ny"]).point_location_sta()
        ids = list(m.cell_ids)
        counts = [int(d.get(i, -1)) for i in ids]
        k = len(counts)
        rec.ev("Stat", counts=counts, ids=len(ids) == len(set(ids)) and set(ids) == set(d), chi2=q(m.chi2, maxden=n, tol=1e-8),
               df=core.it(m.df), p=core.fx(m.chi2_pvalue, 10000), contrib=qs(m.chi2_contrib, maxden=n * k, tol=1e-8), **base)
        return m

    m, exc = rec.call(stat)
    if m is None:
        rec.fail("Stat", "", exc, **base)
        return
    if R:
        def sim():
            v = np.asarray(m.chi2_realizations)
            assert v.ndim == 1
            if "spread" in scn:
                if scn["spread"] == 9:
                    area = m.window
                    grid = dict(kw, nx=m.mr.count_column, ny=m.mr.count_row) if shape == "rectangle" else dict(kw)
                    for f in ("rectangle_width", "rectangle_height"):
                        grid.pop(f, None)
                    gen = np.random.default_rng([scn["rng"], 1])
                    own = np.array([pt.QStatistic(pt.random.poisson(area, size=n, rng=gen), **grid).chi2 for _ in range(120)])
                    slack = 6 * ((own.var() + v.var()) / 120) ** 0.5
                    lo, hi = own.mean() - slack, own.mean() + slack
                else:
                    lo, hi = {0: (2, 6), 1: (12, 40)}[scn["spread"]]
                rec.ev("Spread", mean=core.fx(v.mean(), 100), lo=core.fx(lo, 100), hi=core.fx(hi, 100), win=scn["win"])
            k = len(m.cell_ids)
            kmax = k
            if shape == "hexagon":
                b = m.window.bounds
                kmax = pt.HexagonM(np.array([b[:2], b[2:]]), kw["lh"]).num
            rec.ev("Sim", chi2=q(m.chi2, maxden=n, tol=1e-8), sims=qs(v, maxden=n, tol=1e-8),
                   p=q(m.chi2_r_pvalue, maxden=R + 1), k=k if shape == "rectangle" else 0,
                   kmax=kmax, **base)
            m2 = make()
            rec.ev("Same", a=core.digest(v), b=core.digest(m2.chi2_realizations), want=True, what=scn["rngkind"])
            if R >= 9 and n >= 12 and len(m.cell_ids) > 3:
                m3 = make(seed=scn["rng"] + 1)
                rec.ev("Same", a=core.digest(v), b=core.digest(m3.chi2_realizations), want=False, what=scn["rngkind"])
        _, exc = rec.call(sim)
        if exc:
            rec.fail("Sim", "", exc, **base)
    elif scn["id"] % 4 == 0:
        rec.ev("Equal", what="no_simulation_unless_requested", a=hasattr(m, "chi2_r_pvalue"), b=False)
        if scn["id"] % 8 == 0:
            for want, f in (("ValueError", lambda: make(shape="triangle")), ("ValueError", lambda: m.plot(show="nosuch"))):
                _, exc = rec.call(f)
                rec.ev("Error", want=want, kind=exc.split(":")[0])
            plt.close("all")
