"""Loading space-time events from files and frames."""
import contextlib
import io
import os
import random
import tempfile
import warnings

import core
from core import Model
from props._st import dress, events, frame, glob, index, place, thresholds

MODELS = [Model("LoadPath", "LoadPath.cfg", emits=True, thorough_cfg="LoadPath_t.cfg"), Model("LoadPath", "LoadPath_first.cfg", refutes=True),
          Model("LoadPath", "LoadPath_stem.cfg", refutes=True)]
TRACE = "T_ST"
ASSUMPTIONS = ["data frames have distinct index values; dates in frames are rejected (the caller converts them), dates in tables are converted on request"]
BAD = ["geographic", "geographic2", "polygon", "line", "multipoint", "mixed", "none", "str", "datetime", "object", "nan", "period"]


def scenarios(emitted, rng, tier):
    th = tier != "quick"
    out = []
    em = [e["p"] for e in emitted["LoadPath"]]
    rng.shuffle(em)
    # every shape of path with dots and directories first
    em.sort(key=lambda p: -len({c for c in p} & {".", "/"}))
    for i, p in enumerate(em[:1500 if th else 160] + em[-60:]):
        n = 260 + i if i % 40 == 7 else rng.choice([1, 2, 3, 5, 9])
        span = rng.choice([[-30, 400], [-30, 400], [-3, 60], [-3000, 12000]])
        out.append({"kind": "file", "path": "".join(p), "recs": [[rng.randint(-50, 50), rng.randint(-50, 50), rng.randint(*span)] for _ in range(n)],
                    "day": rng.choice([[2001, 2, 3], [2019, 12, 28], [2020, 2, 20], [1970, 1, 1], [1900, 2, 1]]),
                    "type": rng.choice(["int", "float", "date", "date"]), "infer": rng.random() < 0.6, "decoys": rng.random() < 0.5, "unit": rng.choice([1, 1, 0.5, 0.25])})
    for r in range(1200 if th else 120):
        s, t = events(rng)
        dd, tt = thresholds(rng)
        out.append(dress({"kind": "frame", "s": s, "t": t, "dd": dd, "tt": tt, "perms": rng.choice([0, 9]), "keep": False, "geomname": rng.choice(["geometry", "geom", "where"]),
                          "crs": rng.choice([None, 3857, 32616]), "z": rng.random() < 0.2, "col": rng.choice(["T", "when", "time", "geometry_t"]),
                          "index": rng.choice(["range", "perm", "shift", "str", "gap", "date", "half", "named"]), "iseed": rng.randint(0, 999), "local": r % 2 == 1}, rng, r))
    for r in range(20 if th else 4):
        s, t = events(rng, n=rng.choice([40, 90]))
        dd, tt = thresholds(rng)
        out.append(dress({"kind": "frame", "s": s, "t": t, "dd": dd, "tt": tt, "perms": rng.choice([0, 9]), "keep": False, "geomname": "geometry",
                          "crs": 3857, "z": False, "col": "T", "index": rng.choice(["perm", "gap"]), "iseed": rng.randint(0, 999), "local": False}, rng, r))
    for r in range(240 if th else 48):
        s, t = events(rng, n=rng.choice([2, 4, 7]))
        dd, tt = thresholds(rng)
        out.append(dress({"kind": "bad", "bad": BAD[r % len(BAD)], "s": s, "t": t, "dd": dd, "tt": tt, "local": r // len(BAD) % 2 == 1}, rng, r))
    return out


def write(path, recs, kind, unit, day):
    import datetime

    import libpysal as lps
    from libpysal.cg import Point
    day = datetime.date(*day)
    tv = lambda t: day + datetime.timedelta(days=t) if kind == "date" else t * unit if kind == "float" else t  # noqa: E731
    with contextlib.redirect_stdout(io.StringIO()):
        shp = lps.io.open(path, "w")
        for x, y, _ in recs:
            shp.write(Point((x * unit, y * unit)))
        shp.close()
        dbf = lps.io.open(path[:-4] + ".dbf", "w")
        dbf.header = ["ID", "WHEN", "TT"]
        dbf.field_spec = [("N", 9, 0), ("D", 8, 0) if kind == "date" else ("N", 12, 4) if kind == "float" else ("N", 9, 0), ("N", 9, 0)]
        for k, (_, _, t) in enumerate(recs):
            dbf.write([k, tv(t), -k])
        dbf.close()
    return tv


def execute(scn, rec):
    import geopandas as gpd
    import numpy as np
    import pandas as pd
    import shapely
    from pointpats import Knox, KnoxLocal, SpaceTimeEvents

    warnings.simplefilter("ignore")
    kind = scn["kind"]
    if kind == "file":
        u, n = scn["unit"], len(scn["recs"])
        with tempfile.TemporaryDirectory() as d:
            path = os.path.join(d, scn["path"] + ".shp")
            os.makedirs(os.path.dirname(path), exist_ok=True)
            other = [[r[1] + 1, r[0] - 1, r[2] + 7] for r in scn["recs"]]
            if scn["decoys"]:
                # tables that a wrong path would find
                full = os.path.join(d, scn["path"])
                for q in {os.path.join(d, os.path.basename(full).split(".")[0]), os.path.join(d, scn["path"].split(".")[0]), os.path.join(d, "ev"),
                          os.path.join(os.path.dirname(full), os.path.basename(full)[:-1] + "zz")}:
                    if q != full and not q.endswith("/") and os.path.isdir(os.path.dirname(q)) and os.path.basename(q) and not os.path.isdir(q + ".dbf"):
                        write(q + ".shp", other, scn["type"], u, scn.get("day", [2001, 2, 3]))
            tv = write(path, scn["recs"], scn["type"], u, scn.get("day", [2001, 2, 3]))
            # a relative path means the same file
            cwd = os.getcwd()
            if scn["id"] % 3 == 0:
                os.chdir(d)
                path = scn["path"] + ".shp"
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    if scn["infer"]:
                        o, exc = rec.call(SpaceTimeEvents, path, "WHEN", infer_timestamp=True)
                    else:
                        o, exc = rec.call(SpaceTimeEvents, path, "WHEN")
            finally:
                os.chdir(cwd)
        if exc:
            rec.fail("Load", "", exc)
            return
        days = scn["infer"] and scn["type"] == "date"
        back = {tv(r[2]): r[2] for r in scn["recs"]} if scn["type"] == "date" and not days else None
        ut = (lambda v: back.get(v, core.LIM)) if back else (lambda v: core.it(v / (u if scn["type"] == "float" else 1)))
        rec.ev("Load", recs=scn["recs"], days=bool(days), n=core.it(o.n), shapes=[list(np.shape(v)) for v in (o.x, o.y, o.t, o.space, o.time)],
               x=[core.it(v / u) for v in o.x[:, 0]], y=[core.it(v / u) for v in o.y[:, 0]], space=[[core.it(a / u), core.it(b / u)] for a, b in o.space],
               tt=[ut(v) for v in o.t[:, 0]], time=[[ut(a), core.it(b)] for a, b in o.time])
        return
    s, t, delta, tau = place(scn)
    n = len(s)
    cls = KnoxLocal if scn["local"] else Knox
    if kind == "frame":
        ix = index(scn["index"], n, random.Random(scn["iseed"]))
        col = scn["col"]
        g = gpd.points_from_xy(s[:, 0], s[:, 1], z=np.arange(n) * 50.0) if scn["z"] else gpd.points_from_xy(s[:, 0], s[:, 1])
        d = gpd.GeoDataFrame({"T0": t[::-1, 0].copy(), col: t[:, 0], scn["geomname"]: g}, geometry=scn["geomname"], crs=scn["crs"])
        if scn["iseed"] % 4 == 0:
            d[col] = d[col].convert_dtypes(convert_integer=scn["tint"])
        if scn["id"] % 2:
            d["elsewhere"] = gpd.GeoSeries(gpd.points_from_xy(s[::-1, 1], s[::-1, 0]), crs=scn["crs"])
        ids = list(range(n))
        if ix is not None:
            d.index = ids = ix
            if scn["id"] % 3 == 0:
                d.index.name = "event"
        o, exc = rec.call(cls.from_dataframe, d, col, delta, tau, permutations=scn["perms"])
        if exc:
            rec.fail("Glob", "", exc)
            return
        glob(o, scn, rec, True, key="local" if scn["local"] else "")
        if scn["local"]:
            pos = {v: k + 1 for k, v in enumerate(ids)}
            h, exc = rec.call(o.hotspots, crit=1, inference="analytic")
            if exc:
                rec.fail("Rows", "", exc)
                return
            sc, off = scn["scale"], scn["off"]
            rec.ev("Rows", s=scn["s"], t=scn["t"], dd=scn["dd"], tt=scn["tt"], p=core.qs(o.p_hypergeom, maxden=100000, tol=1e-11), crit=[1, 1], keepn=True, warned=False, fallback=False,
                   rows=[[pos.get(r.focal, -1), 0 if r.neighbor != r.neighbor or r.neighbor is None else pos.get(r.neighbor, -1), str(r.orientation),
                          core.q(r.pvalue, maxden=100000, tol=1e-11), core.it(round(r.focal_time / scn["tsc"] - scn["t0"], 6)), core.it(r.cluster),
                          core.it((r.geometry.x - off[0]) / sc), core.it((r.geometry.y - off[1]) / sc)] for r in h.itertuples(index=False)])
            rec.ev("Equal", a=str(h.crs), b=str(d.crs), what="coordinate_reference_system_kept")
        return
    d = frame(scn, s, t, crs=3857)
    b, what = scn["bad"], ""
    if b.startswith("geographic"):
        d = frame(scn, s, t, crs=4326 if b == "geographic" else 4269)
        what = "ValueError"
    elif b in ("polygon", "line", "multipoint", "mixed"):
        f = {"polygon": lambda p: p.buffer(1), "line": lambda p: shapely.LineString([p, (p.x + 1, p.y)]), "multipoint": lambda p: shapely.MultiPoint([p])}
        f["mixed"] = f["polygon"]
        g = [f[b](p) if b != "mixed" or k == n - 1 else p for k, p in enumerate(d.geometry)]
        d = d.set_geometry(gpd.GeoSeries(g, crs=3857))
        what = "ValueError"
    elif b == "none":
        d.loc[d.index[-1], "geometry"] = None
    elif b == "nan":
        d["T"] = d["T"].astype(float)
        d.loc[d.index[0], "T"] = np.nan
    elif b == "str":
        d["T"] = d["T"].astype(str)
        what = "ValueError"
    elif b == "object":
        d["T"] = pd.Series([["a"]] * n, dtype=object)
        what = "ValueError"
    elif b == "period":
        d["T"] = pd.date_range("2001-01-01", periods=n).to_period("D")
        what = "ValueError"
    else:
        d["T"] = pd.to_datetime("2001-01-01") + pd.to_timedelta(np.abs(t[:, 0].astype(float)) % 1000, unit="D")
        what = "ValueError"
    o, exc = rec.call(cls.from_dataframe, d, "T", delta, tau, permutations=9)
    rec.ev("Error", b, kind=exc.split(":")[0], want=what)
