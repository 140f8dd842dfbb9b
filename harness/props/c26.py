"""Histories of calls on objects that the caller keeps and edits."""
import warnings

import core
from core import Model

MODELS = [Model("Purity", "Purity.cfg", emits=True, thorough_cfg="Purity_t.cfg")] + [
    Model("Purity", f"Purity_{v}.cfg", refutes=True) for v in ("inplace", "memo", "leak")]
TRACE = "T_PURE"
LIMIT_S = 120
ASSUMPTIONS = ["two results are the same when their numbers agree to 1e-7 (relative, or absolute for numbers below one)",
               "numpy's global generator is seeded before calls that document drawing from it"]
GROUPS = {
    "centre": "mbr mrr mrr_angle hull mean wmean manhattan std ellipse ellipse_w ellipse_yuill dtot eucl circle".split(),
    "centre_geo": "mbr_geo mrr_geo hull_geo mean_geo wmean_geo manhattan_geo std_geo ellipse_geo dtot_geo eucl_geo circle_geo circle_geo_plain".split(),
    "distance": "f g j k l g_dist k_dist l_dist f_dist j_dist g_test f_test j_test k_test l_test f_geo k_geo".split(),
    "geometry": "box_ops poly_ops chull_ops points_ops tree tree_ball prepare".split(),
    "random": "poisson_box poisson_poly poisson_chull poisson_points normal normal_3d cpoisson cnormal strauss".split(),
    "quadrat": "rect rect_size hexa qstat qstat_hex qstat_window rect_plot hexa_plot".split(),
    "density": "density density_geo density_levels density_fill density_tri".split(),
    "spacetime": "knox mknox mantel jacquez Knox Knox_frame Local Local_ids Local_frame hotspots map map_plain explore explore_plain".split(),
    "pattern": "pp pp_names pp_frame knn pairs knn_other superimpose explode unique summary pp_plot inside mbb".split(),
    "process": "ppp ppp_cond pcpp circle_rand window filter".split(),
}
# functions that take options, and their forms without
FORMS = [("map", "map_plain"), ("explore", "explore_plain"), ("map", "explore_plain"), ("circle_geo", "circle_geo_plain"), ("g", "g_dist"), ("k", "k_dist"), ("f", "f_dist"),
         ("ellipse", "ellipse_w"), ("ellipse", "ellipse_yuill"), ("mean", "wmean"), ("cpoisson", "cnormal"), ("normal", "normal_3d"), ("density", "density_levels"),
         ("density", "density_geo"), ("Local", "Local_ids"), ("mrr", "mrr_angle"), ("pp", "pp_names"), ("knox", "mknox"), ("rect", "rect_size"), ("qstat", "qstat_hex"),
         ("poisson_box", "poisson_poly"), ("l", "l_dist"), ("k_test", "l_test"), ("prepare", "poisson_points"), ("knn", "tree")]
ALL = [f for g in GROUPS.values() for f in g]


def scenarios(emitted, rng, tier):
    em = emitted["Purity"]
    th = tier != "quick"
    rng.shuffle(em)
    out = []
    n = 40 if th else 2
    i = 0
    for gname, fns in GROUPS.items():
        for f in fns:
            for k in range(n):
                # the other function: the same now and then, mostly of the same group
                g = f if k % 4 == 3 else rng.choice(fns if k % 2 == 0 else ALL)
                e = em[i % len(em)]
                i += 1
                out.append({"ops": e["ops"], "fns": [f, g], "seed": rng.randint(0, 10**6), "n": rng.choice([9, 14, 22]), "typ": rng.choice(["float64", "float64", "int64", "float32"])})
    # every function between two edits
    for f in ALL:
        c = lambda o, k=1: {"op": "call", "f": k, "o": o}  # noqa: E731
        ed = lambda o: {"op": "edit", "f": 0, "o": o}  # noqa: E731
        out.append({"ops": [c(1), c(1), ed(1), c(1), c(2), ed(1), c(1)], "fns": [f, f], "seed": rng.randint(0, 10**6), "n": 12, "typ": "float64"})
    for f, g in FORMS:
        out.append({"ops": [{"op": "call", "f": k, "o": o} for k, o in ((2, 1), (1, 1), (2, 1), (1, 2), (2, 2), (1, 1))], "fns": [f, g], "seed": rng.randint(0, 10**6), "n": 13, "typ": "float64"})
    rng.shuffle(out)
    return out


# -- the objects ------------------------------------------------------------
def raw(seed, o, v, n, typ):
    """plain contents of object o in version v"""
    import numpy as np

    r = np.random.default_rng([seed, o, v])
    cells = r.permutation(400)[:n]
    xy = np.column_stack([cells % 20, cells // 20]).astype(typ) * np.asarray(1, dtype=typ)
    x0, y0, x1, y1 = -1 - v, -2, 21 + o, 22 + v
    fd = np.hypot(*(xy[:, None].astype(float) - r.uniform(0, 20, (1, 25, 2))).T).T
    d = np.hypot(*(xy[:, None].astype(float) - xy[None].astype(float)).T).T
    return dict(xy=xy, w=r.integers(1, 6, n).astype(float), t=r.integers(0, 12, n).reshape(-1, 1) * 1.0, sup=np.array([0.5, 2, 3.5, 7 + v]), dist=d, edist=fd,
                gdist=np.where(np.eye(n, dtype=bool), np.inf, d).min(axis=1), box=np.array([x0, y0, x1, y1], dtype=float), cov=np.array([[4.0 + v, 1], [1, 4.0 + v]]),
                covs=np.array([[[4.0 + v, 1], [1, 4.0 + v]], [[3.0, 0], [0, 3.0]]]), radii=np.array([2.0 + v, 3.0]), mark=r.integers(0, 3, n) + 10 * v,
                other=r.integers(0, 20, (5, 2)).astype(float), levels=[1e-4, 2e-4 + v * 1e-5, 4e-4], names=["a", "b"], ids=[f"e{7 * i % n}" for i in range(n)],
                center=np.array([9.0 + v, 10.0]), pkw={"markersize": 3}, ekw={"linewidth": 2}, colors={"focal": "green", "neighbor": "orange", "nonsig": "black"}, skw={"radius": 4},
                pd=d[np.triu_indices(n, 1)], kernel="tri", yes=True, res=(24, 24), bkw={"quad_segs": 4}, coord=[3 + v, 4])


def build(W, c):
    """the objects that the caller makes anew from the plain contents"""
    import geopandas
    import libpysal
    import numpy as np
    import pointpats as pt
    import shapely
    from scipy.spatial import ConvexHull, Delaunay

    b = c["box"]
    x0, y0, x1, y1 = (float(z) for z in b)
    W["poly"] = shapely.Polygon([(x0, y0), (x1, y0), (x1 - 3, y1), (x0, y1)], [[(4, 4), (4, 9), (9, 9), (9, 4)]])
    W["chull"] = ConvexHull(c["xy"].astype(float))
    W["delaunay"] = Delaunay(c["xy"].astype(float))
    W["pp"] = pt.PointPattern(c["xy"].copy())
    W["pp2"] = pt.PointPattern(c["other"].copy())
    W["marked"] = pt.PointPattern(np.column_stack([c["xy"].astype(float), c["mark"]]), names=["x", "y", "kind"])
    W["cgpoly"] = libpysal.cg.Polygon([[(x0, y0), (x1, y0), (x1 - 3, y1), (x0, y1), (x0, y0)]], [[(4.0, 4.0), (4.0, 9.0), (9.0, 9.0), (9.0, 4.0), (4.0, 4.0)]])
    W["window"] = pt.as_window(W["cgpoly"])
    P = geopandas.points_from_xy(*c["xy"].astype(float).T)
    if "geo" not in W:
        W["geo"] = geopandas.GeoSeries(P, crs=3857)
        W["frame"] = geopandas.GeoDataFrame({"t": c["t"].ravel(), "m": c["mark"]}, geometry=P, crs=3857)
        import pandas
        W["table"] = pandas.DataFrame(np.column_stack([c["xy"].astype(float), c["mark"]]), columns=list("uvm"))
    else:
        W["geo"][:] = P
        W["frame"]["t"] = c["t"].ravel()
        W["frame"]["m"] = c["mark"]
        W["frame"]["geometry"] = P
        W["table"].loc[:, ["u", "v"]] = c["xy"].astype(float)
        W["table"]["m"] = c["mark"]


def make(c):
    import copy
    W = {k: copy.deepcopy(v) for k, v in c.items()}
    build(W, c)
    return W


def edit(W, c):
    """the caller writes new contents into the same objects"""
    import numpy as np
    for k, v in c.items():
        if isinstance(v, np.ndarray):
            W[k][:] = v
        elif isinstance(v, list):
            W[k][:] = v
        elif isinstance(v, dict):
            W[k].update(v)
    build(W, c)


def canon(x):
    """nested lists of numbers and strings"""
    import geopandas
    import numpy as np
    import pandas
    import pointpats as pt
    import shapely

    if x is None or isinstance(x, (str, bool, np.bool_)):
        return str(x)
    if isinstance(x, (int, float, np.number)):
        return float(x)
    if isinstance(x, pt.PointPattern):
        return [list(map(str, x.df.columns)), canon(x.df.values), list(map(str, x.df.index)), canon(x.coord_names), canon(x.window), canon(x.points.values)]
    if isinstance(x, pt.Window):
        return [canon(x.parts), canon(x.holes), float(x.area)]
    if isinstance(x, (geopandas.GeoSeries, geopandas.GeoDataFrame)):
        f = x.to_frame("g") if isinstance(x, geopandas.GeoSeries) else x
        return [list(map(str, f.columns)), list(map(str, f.index)), str(x.crs), list(map(str, f.dtypes))] + [[canon(v) for v in f[c]] for c in f.columns]
    if isinstance(x, (pandas.DataFrame, pandas.Series)):
        f = x.to_frame("s") if isinstance(x, pandas.Series) else x
        return [list(map(str, f.columns)), list(map(str, f.index)), list(map(str, f.dtypes)), [canon(v) for v in f.values.ravel()]]
    if isinstance(x, shapely.Geometry):
        return [x.geom_type, shapely.get_coordinates(x).tolist(), shapely.get_num_interior_rings(x).tolist()]
    if isinstance(x, np.ndarray):
        return [list(x.shape), x.astype(float).ravel().tolist() if x.dtype.kind in "fiu" else [canon(v) for v in x.ravel()]]
    if isinstance(x, dict):
        return [[canon(k), canon(v)] for k, v in x.items()]
    if isinstance(x, (set, frozenset)):
        return sorted(canon(v) for v in x)
    if isinstance(x, (list, tuple)):
        if all(type(v) is float for v in x):
            return list(x)
        return [canon(v) for v in x]
    if hasattr(x, "vertices") and hasattr(x, "simplices"):
        return [canon(x.points), canon(x.vertices), canon(x.simplices)]
    if hasattr(x, "simplices"):
        return [canon(x.points), canon(x.simplices)]
    if hasattr(x, "parts"):
        return [canon(x.parts), canon(x.holes)]
    raise TypeError(type(x))


def near(a, b):
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b) or abs(a - b) <= 1e-7 * max(1.0, abs(a), abs(b))
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(near(x, y) for x, y in zip(a, b))
    return a == b


# -- the calls --------------------------------------------------------------
def table():
    import numpy as np
    import pointpats as pt
    import pointpats.geometry as ge
    import pointpats.process as pp
    import pointpats.random as pr

    def seeded(f):
        def g(W):
            np.random.seed(5)
            return f(W)
        return g

    def axes(ax):
        return [[p.get_text() for p in ax.texts], [np.asarray(ln.get_xydata()) for ln in ax.lines], [len(c.get_paths()) for c in ax.collections], ax.get_title()]

    def grid(m):
        ax, ids = m.plot()
        return axes(ax), ids

    def dens(c, **kw):
        def f(W):
            ax, cs = pt.plot_density(W[c], 3.0, resolution=W["res"], return_contourset=True, **{k: W[v] for k, v in kw.items()})
            return np.asarray(cs.levels), [p.vertices for p in cs.get_paths()]
        return f

    def test(f, **kw):
        def g(W):
            r = f(W["xy"], n_simulations=3, n_jobs=1, **{k: W[v] for k, v in kw.items()})
            # F and J of a test are taken at random places
            return f is pt.j_test or r.support, f in (pt.f_test, pt.j_test) or r.statistic
        return g

    def helpers(name):
        def f(W):
            h = W[name]
            return ge.area(h), ge.bbox(h), np.asarray(ge.centroid(h)), [bool(ge.contains(h, x, y)) for x, y in W["other"]]
        return f

    def knn(tree, W):
        return tree, ge.k_neighbors(tree, W["xy"], 2)

    def local(o):
        return np.asarray(o.nsti), np.asarray(o.p_hypergeom), o.statistic_, sorted(map(list, o.adjlist[["focal", "neighbor"]].astype(str).values.tolist()))

    def knoxo(o):
        return o.statistic_, o.p_poisson, np.asarray(o.expected), np.asarray(o.observed)

    def loc(W):
        return pt.KnoxLocal.from_dataframe(W["frame"], "t", 5, 4, permutations=0)

    def drawn(ax):
        return [[np.asarray(c.get_facecolor()), np.asarray(c.get_edgecolor()), c.get_zorder(), np.asarray(c.get_linewidths())] for c in ax.collections]

    def mapped(W):
        return drawn(loc(W).plot(crit=0.3, inference="analytic", colors=W["colors"], point_kwargs=W["pkw"], edge_kwargs=W["ekw"], edge_color="blue"))

    def shown(m):
        return [[ft["geometry"]["type"], ft["geometry"]["coordinates"], sorted(ch.style_function(ft).items())] for ch in m._children.values() if hasattr(ch, "data") for ft in ch.data["features"]]

    def explore(W):
        return shown(loc(W).explore(crit=0.4, inference="analytic", colors=W["colors"], style_kwds=W["skw"], edge_color="blue", edge_weight=4, tiles=None))

    def ppkeep(W):
        p = W["pp"]
        return p.n, p.mbb, p.hull, p.hull_area, p.lambda_hull, p.lambda_window, p.min_nnd, p.mean_nnd, p.rot

    def printed(W):
        import contextlib
        import io
        s = io.StringIO()
        with contextlib.redirect_stdout(s):
            W["pp"].summary()
        return s.getvalue()

    def window(W):
        w = pt.as_window(W["cgpoly"])
        return w, pt.to_ccf(W["poly"]) if False else float(w.area)

    def reals(p):
        return [np.asarray(getattr(v, "points", v)) for v in p.realizations.values()]

    T = {
        "mbr": lambda W: pt.minimum_bounding_rectangle(W["xy"]), "mrr": lambda W: pt.minimum_rotated_rectangle(W["xy"]),
        "mrr_angle": lambda W: pt.minimum_rotated_rectangle(W["xy"], return_angle=True), "hull": lambda W: pt.hull(W["xy"]),
        "mean": lambda W: pt.mean_center(W["xy"]), "wmean": lambda W: pt.weighted_mean_center(W["xy"], W["w"]),
        "manhattan": lambda W: pt.manhattan_median(W["xy"]), "std": lambda W: pt.std_distance(W["xy"]), "ellipse": lambda W: pt.ellipse(W["xy"]),
        "ellipse_w": lambda W: pt.ellipse(W["xy"], weights=W["w"]), "ellipse_yuill": lambda W: pt.ellipse(W["xy"], method="yuill", crimestatCorr=False),
        "dtot": lambda W: pt.dtot(W["coord"], W["xy"]), "eucl": lambda W: np.round(pt.euclidean_median(W["xy"]), 2),
        "circle": lambda W: pt.minimum_bounding_circle(W["xy"]),
        "mbr_geo": lambda W: pt.minimum_bounding_rectangle(W["geo"]), "mrr_geo": lambda W: pt.minimum_rotated_rectangle(W["geo"]),
        "hull_geo": lambda W: pt.hull(W["geo"]), "mean_geo": lambda W: pt.mean_center(W["geo"]), "wmean_geo": lambda W: pt.weighted_mean_center(W["geo"], W["w"]),
        "manhattan_geo": lambda W: pt.manhattan_median(W["geo"]), "std_geo": lambda W: pt.std_distance(W["geo"]), "ellipse_geo": lambda W: pt.ellipse(W["geo"], weights=W["w"]),
        "dtot_geo": lambda W: pt.dtot(W["geo"].iloc[0], W["geo"]), "eucl_geo": lambda W: pt.euclidean_median(W["frame"]).geom_type,
        "circle_geo": lambda W: pt.minimum_bounding_circle(W["geo"], **W["bkw"]),
        "f": lambda W: pt.f(W["xy"], support=W["sup"], hull=W["poly"])[0], "g": lambda W: pt.g(W["xy"], support=W["sup"]),
        "j": lambda W: len(pt.j(W["xy"], support=W["sup"], hull=W["box"])), "k": lambda W: pt.k(W["xy"], support=W["sup"]), "l": lambda W: pt.l(W["xy"], support=W["sup"], linearized=True),
        "g_dist": lambda W: (pt.g(W["xy"], support=W["sup"], distances=W["dist"]), pt.g(W["xy"], support=W["sup"], distances=W["gdist"])),
        "k_dist": lambda W: pt.k(W["xy"], support=W["sup"], distances=W["dist"]), "l_dist": lambda W: pt.l(W["xy"], support=W["sup"], distances=W["pd"]),
        "f_dist": lambda W: (pt.f(W["xy"], support=W["sup"], distances=W["edist"]), pt.f(W["xy"], support=W["sup"], distances=W["edist"].min(axis=1))),
        "j_dist": lambda W: pt.j(W["xy"], support=W["sup"], distances=(W["gdist"], W["edist"].min(axis=1))),
        "g_test": test(pt.g_test, support="sup"), "f_test": test(pt.f_test, support="sup", hull="poly"), "j_test": test(pt.j_test, support="sup", hull="box"),
        "k_test": test(pt.k_test, support="sup", distances="dist"), "l_test": test(pt.l_test, support="sup", hull="chull"),
        "f_geo": lambda W: pt.f(W["geo"], support=W["sup"], distances=W["edist"]), "k_geo": lambda W: pt.k(W["frame"], support=W["sup"]),
        "box_ops": helpers("box"), "poly_ops": helpers("poly"), "chull_ops": helpers("chull"),
        "points_ops": lambda W: (ge.bbox(W["xy"]), np.asarray(ge.centroid(W["xy"])), [bool(ge.contains(W["delaunay"], x, y)) for x, y in W["other"]]),
        "tree": lambda W: knn(ge.build_best_tree(W["xy"], "euclidean"), W)[1], "tree_ball": lambda W: knn(ge.build_best_tree(W["xy"], "canberra"), W)[1],
        "prepare": lambda W: [ge.prepare_hull(W["xy"], h) for h in (None, "bbox", "convex", W["box"], W["poly"])],
        "poisson_box": lambda W: pr.poisson(W["box"], size=(4, 2), rng=3), "poisson_poly": lambda W: pr.poisson(W["poly"], size=5, rng=3),
        "poisson_chull": lambda W: pr.poisson(W["chull"], size=5, rng=3), "poisson_points": lambda W: pr.poisson(W["xy"], intensity=0.03, rng=3),
        "normal": lambda W: pr.normal(W["poly"], center=W["center"], cov=W["cov"], size=5, rng=3),
        "normal_3d": lambda W: pr.normal(W["box"], center=W["center"], cov=W["covs"], size=(5, 2), rng=3),
        "cpoisson": lambda W: pr.cluster_poisson(W["box"], size=(6, 2), n_seeds=2, cluster_radius=W["radii"], rng=3),
        "cnormal": lambda W: pr.cluster_normal(W["poly"], cov=W["cov"], size=(6, 2), n_seeds=2, rng=3),
        "strauss": lambda W: pr.strauss(W["poly"], size=4, gamma=0.5, r=2.0, n_iter=20, rng=3),
        "rect": lambda W: pt.RectangleM(W["xy"], 3, 2, window=W["poly"]).point_location_sta(),
        "rect_size": lambda W: pt.RectangleM(W["geo"], rectangle_width=6, rectangle_height=5).point_location_sta(),
        "hexa": lambda W: pt.HexagonM(W["xy"], 4).point_location_sta(),
        "qstat": lambda W: (lambda q: (q.chi2, q.chi2_pvalue, q.df, q.cell_ids, q.chi2_contrib))(pt.QStatistic(W["xy"], nx=2, ny=3)),
        "qstat_hex": lambda W: (lambda q: (q.chi2, q.chi2_realizations, q.chi2_r_pvalue))(pt.QStatistic(W["pp"], shape="hexagon", lh=6, realizations=4, rng=3)),
        "qstat_window": lambda W: (lambda q: (q.chi2, q.chi2_realizations, q.chi2_r_pvalue))(pt.QStatistic(W["xy"], realizations=4, rng=3, window=W["poly"])),
        "rect_plot": lambda W: grid(pt.RectangleM(W["xy"], 3, 2, window=W["poly"])), "hexa_plot": lambda W: grid(pt.HexagonM(W["xy"], 4, window=W["poly"])),
        "density": dens("xy"), "density_tri": dens("xy", kernel="kernel"), "density_geo": dens("frame"), "density_levels": dens("geo", levels="levels"), "density_fill": dens("xy", levels="levels", fill="yes"),
        "knox": seeded(lambda W: pt.knox(W["xy"], W["t"], 5, 4, permutations=9)), "mknox": seeded(lambda W: pt.modified_knox(W["xy"], W["t"], 5, 4, permutations=9)),
        "mantel": seeded(lambda W: pt.mantel(W["xy"], W["t"], permutations=9)), "jacquez": seeded(lambda W: pt.jacquez(W["xy"], W["t"], 2, permutations=9)),
        "Knox": seeded(lambda W: knoxo(pt.Knox(W["xy"], W["t"], 5, 4, permutations=9, keep=True))),
        "Knox_frame": seeded(lambda W: knoxo(pt.Knox.from_dataframe(W["frame"], "t", 5, 4, permutations=9))),
        "Local": seeded(lambda W: local(pt.KnoxLocal(W["xy"], W["t"], 5, 4, permutations=9, keep=True))),
        "Local_ids": seeded(lambda W: local(pt.KnoxLocal(W["xy"], W["t"], 5, 4, permutations=0, ids=W["ids"]))),
        "Local_frame": seeded(lambda W: local(loc(W))), "hotspots": lambda W: loc(W).hotspots(crit=0.4, inference="analytic"), "map": mapped, "explore": explore,
        "map_plain": lambda W: drawn(loc(W).plot(crit=0.3, inference="analytic")), "explore_plain": lambda W: shown(loc(W).explore(crit=0.4, inference="analytic", tiles=None)),
        "circle_geo_plain": lambda W: pt.minimum_bounding_circle(W["geo"]),
        "pp": lambda W: pt.PointPattern(W["xy"]), "pp_names": lambda W: pt.PointPattern(W["other"], names=W["names"], coord_names=W["names"]),
        "pp_frame": lambda W: pt.PointPattern(W["table"], names=["p", "q", "m"], coord_names=["q", "p"]),
        "knn": lambda W: W["pp"].knn(2)[1], "pairs": lambda W: W["pp"].find_pairs(4), "knn_other": lambda W: W["pp"].knn_other(W["pp2"], 2)[1],
        "superimpose": lambda W: W["pp"].superimpose(W["pp2"]), "explode": lambda W: W["marked"].explode("kind"), "unique": lambda W: W["marked"].unique(),
        "summary": printed, "pp_plot": lambda W: axes(W["pp"].plot(window=True, hull=True, get_ax=True)),
        "inside": lambda W: [bool(p in W["pp"]) for p in W["other"].tolist() + W["xy"][:2].tolist()], "mbb": ppkeep,
        "ppp": seeded(lambda W: reals(pp.PoissonPointProcess(W["window"], 7, 2, asPP=True))), "ppp_cond": seeded(lambda W: reals(pp.PoissonPointProcess(W["window"], 7, 2, conditioning=True))),
        "pcpp": seeded(lambda W: reals(pp.PoissonClusterPointProcess(W["window"], 8, 2, 1.0, 1))),
        "circle_rand": seeded(lambda W: pp.runif_in_circle(5, 2.0, W["center"])), "window": window,
        "filter": lambda W: W["window"].filter_contained(W["other"].tolist()),
    }
    assert sorted(T) == sorted(ALL), set(T) ^ set(ALL)
    return T


def same(a, b):
    return a == b or repr(a) == repr(b)     # NaN is NaN


def execute(scn, rec):
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot as plt

    warnings.simplefilter("ignore")
    T = table()
    C = {(o, v): raw(scn["seed"], o, v, scn["n"], scn["typ"]) for o in (1, 2) for v in (0, 1)}
    worlds = {o: make(C[o, 0]) for o in (1, 2)}
    ver = {1: 0, 2: 0}
    results = {}
    rec.ev("Begin")

    last = {}

    def run(op, f, o, W, **extra):
        old = last.pop(o, None) if op == "Do" else None
        old = old or {k: canon(v) for k, v in W.items()}
        r, exc = rec.call(lambda: canon(T[f](W)))
        plt.close("all")
        if exc:
            rec.fail(op, "", exc, f=f, o=o)
            return
        seen = results.setdefault(f, [])
        k = next((i for i, x in enumerate(seen) if near(x, r)), None)
        if k is None:
            seen.append(r)
            k = len(seen) - 1
        new = {k: canon(v) for k, v in W.items()}
        rec.ev(op, f=f, o=o, r=k, changed=" ".join(k for k in W if not same(new[k], old[k])), **extra)
        if op == "Do":
            last[o] = new
    for e in scn["ops"]:
        o = e["o"]
        if e["op"] == "edit":
            ver[o] = 1 - ver[o]
            last.pop(o, None)
            edit(worlds[o], C[o, ver[o]])
            rec.ev("Edit", o=o)
        else:
            run("Do", scn["fns"][e["f"] - 1], o, worlds[o])
    # and on objects that nobody has used
    used = {(e["f"], e["o"]) for e in scn["ops"] if e["op"] == "call"}
    for k, o in sorted(used):
        for v in (0, 1):
            run("Fresh", scn["fns"][k - 1], o, make(C[o, v]), v=v)
