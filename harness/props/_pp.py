"""Sessions with PointPattern objects (C01, C02): replay of PPSession histories."""

import contextlib
import io
import re

import core
from core import Model, it, q

SIM = Model("PPSession", "PPSession_sim.cfg", emits=True,
            args=("-simulate", "num=110", "-depth", "16", "-seed", "$SEED"),
            thorough_args=("-simulate", "num=4000", "-depth", "16", "-seed", "$SEED"))
LAWS = Model("PPSession", "PPSession_mc.cfg", thorough_cfg="PPSession_mct.cfg", timeout=3000)
CACHE = [Model("PPCache", "PPCache_ok.cfg"),
         Model("PPCache", "PPCache_stale.cfg", refutes=True),
         Model("PPCache", "PPCache_shared.cfg", refutes=True)]


def handmade():
    """Histories the random simulation is unlikely to produce."""
    rows = [[0, 0], [4, 0], [4, 3], [0, 3], [2, 1], [2, 1]]
    new = {"op": "New", "kind": "array", "rows": rows, "names": [], "coords": [], "win": []}
    L, R = [0, 0, 6, 6, 54], [-1, -2, 7, 8, 160]

    def rd(o, *a):
        return [{"op": "Read", "o": o, "attr": x} for x in a]

    allattr = ["mbb", "mbb_area", "rot", "lambda_mbb", "lambda_window", "lambda_hull", "hull",
               "hull_area", "nnd", "min_nnd", "max_nnd", "mean_nnd", "summary", "head", "tail", "n"]
    out = []
    out.append([new] + rd(1, *allattr) + [{"op": "SetWin", "o": 1, "win": R}] + rd(1, *allattr)
               + [{"op": "DropWin", "o": 1}] + rd(1, "lambda_window", "summary"))
    out.append([new, {"op": "SetWin", "o": 1, "win": L}] + rd(1, *allattr)
               + [{"op": "Unique", "o": 1}] + rd(2, *allattr)
               + [{"op": "SetWin", "o": 2, "win": R}] + rd(1, "lambda_window", "summary")
               + rd(2, "lambda_window", "summary"))
    out.append([dict(new, win=R)] + rd(1, "nnd", "hull", "lambda_window")
               + [{"op": "Mark", "o": 1, "names": [], "vals": [[0, 1, 0, 1, 2, 2], [1, 1, 1, 0, 0, 0]]}]
               + rd(1, *allattr) + [{"op": "Explode", "o": 1, "col": "mark_1"}]
               + rd(2, *allattr) + rd(3, *allattr) + rd(4, *allattr)
               + [{"op": "Mark", "o": 2, "names": [], "vals": [[1, 0]]}]
               + rd(2, "head", "tail") + rd(1, "head"))
    out.append([dict(new, coords=["lon", "lat"])] + rd(1, "hull", "nnd") + [{"op": "Flip", "o": 1}]
               + rd(1, *allattr) + [{"op": "Has", "o": 1, "pt": [4, 3]}, {"op": "Has", "o": 1, "pt": [3, 4]},
                                    {"op": "Unique", "o": 1}, {"op": "Flip", "o": 1}]
               + rd(2, *allattr))
    other = dict(new, rows=[[9, 9], [2, 1], [7, 8]])
    out.append([new, other] + rd(1, "mbb", "hull", "nnd") + rd(2, "mbb", "n", "nnd")
               + [{"op": "Super", "o": 1, "q": 2}, {"op": "Super", "o": 2, "q": 1},
                  {"op": "Super", "o": 1, "q": 1}] + rd(3, *allattr) + rd(4, *allattr) + rd(5, *allattr))
    m3 = {"op": "New", "kind": "frame", "rows": [[1, 0, 5], [1, 0, 5], [2, 0, 5], [1, 4, 2], [2, 3, 3]],
          "names": ["m", "lon", "lat"], "coords": ["lon", "lat"], "win": []}
    out.append([m3, {"op": "Unique", "o": 1}, {"op": "Explode", "o": 1, "col": "m"}]
               + rd(1, *allattr) + rd(2, *allattr) + rd(3, *allattr)
               + [{"op": "Super", "o": 3, "q": 4}, {"op": "Has", "o": 5, "pt": [0, 5]},
                  {"op": "Has", "o": 5, "pt": [1, 0]}] + rd(5, *allattr))
    # more rows than head() and tail() show
    big = dict(new, rows=[[i, (i * i) % 7] for i in range(9)])
    out.append([big] + rd(1, *allattr) + [{"op": "Mark", "o": 1, "names": ["q"], "vals": [[i % 3 for i in range(9)]]}]
               + rd(1, "head", "tail") + [{"op": "Unique", "o": 1}] + rd(2, "head", "tail")
               + [{"op": "Explode", "o": 1, "col": "q"}])
    return out


def many(rng, n):
    """Histories of patterns with many events, duplicates among them and marks with more than ten values."""
    def rows(k):
        r = [[rng.randint(0, 40), rng.randint(0, 40)] for _ in range(k)]
        for i in range(k // 8):
            r[rng.randrange(k)] = list(r[i])
        return r

    def rd(o, *a):
        return [{"op": "Read", "o": o, "attr": x} for x in a]
    few = ["mbb", "hull", "nnd", "lambda_window", "head", "tail", "mean_nnd", "max_nnd"]
    new = {"op": "New", "kind": rng.choice(["array", "list"]), "rows": rows(n), "names": [], "coords": [], "win": []}
    q = dict(new, rows=rows(n // 3))
    a = [new, q] + rd(1, *few) + [{"op": "Super", "o": 1, "q": 2}] + rd(3, "mbb", "tail", "head", "nnd", "n", "hull") + [{"op": "Unique", "o": 3}] + rd(4, "n", "tail", "head", "nnd") \
        + [{"op": "Has", "o": 4, "pt": new["rows"][n // 2]}, {"op": "Has", "o": 4, "pt": [41, 3]}]
    b = [new, {"op": "Mark", "o": 1, "names": ["q"], "vals": [[i * 7 % 13 for i in range(n)]]}] + rd(1, "head", "tail") + [{"op": "Explode", "o": 1, "col": "q"}] \
        + rd(2, "mbb", "tail", "n", "nnd") + rd(14, "mbb", "tail", "n", "nnd") + [{"op": "Flip", "o": 1}] + rd(1, *few)
    return [a, b]


def scenarios(emitted, rng, tier):
    hs = handmade() + emitted["PPSession"]
    for n in [45, 140] if tier == "quick" else [40, 60, 90, 130, 200, 300]:
        hs += many(rng, n)
    out = []
    for i, h in enumerate(hs):
        out.append({"kind": "session", "hist": h, "scale": [1, 0.5, 8, 40, 1, 0.5, 4000][i % 7], "strmarks": [0, 2, 0, 1, 0, 2, 0, 3][i % 8]})
    return out


def window(w, s):
    from pointpats.window import Window

    le, b, r, t, a2 = w

    def ring(pts):
        return [(x * s, y * s) for x, y in pts]

    if a2 == 54:
        return Window([ring([(0, 0), (0, 6), (3, 6), (3, 3), (6, 3), (6, 0), (0, 0)])])
    if a2 == 96:
        return Window([ring([(0, 0), (0, 8), (8, 8), (8, 0), (0, 0)])],
                      [ring([(2, 2), (6, 2), (6, 6), (2, 6), (2, 2)])])
    return Window([ring([(le, b), (le, t), (r, t), (r, b), (le, b)])])


NEAR = 0.375   # between coordinates, which are multiples of a half


def execute(scn, rec):
    import matplotlib.pyplot as plt
    import numpy as np
    import pandas as pd
    from pointpats import PointPattern

    s = scn["scale"]
    sm = scn["strmarks"]
    heap, inputs = [], []

    # marks: numbers, strings, numbers and strings that hardly differ
    def mark(v):
        if sm == 2:
            return NEAR + v * 2.0**-42
        return v * s if not sm else f"v{v}" if sm == 1 else f"v{v - v % 2}" + " " * (v % 2)

    def dec(v):
        if isinstance(v, str):
            return core.LIM if not re.fullmatch(r"v\d+ ?", v) else int(v[1:].rstrip()) + v.endswith(" ")
        if sm == 2 and NEAR - 2**-20 < float(v) < NEAR + 2**-20:
            return it((float(v) - NEAR) * 2.0**42)
        return it(float(v) / s)

    def rows(df):
        return [[dec(v) for v in r] for r in df.values.tolist()]

    def proj(p):
        w = p.window
        b = w.bounding_box
        return {
            "cols": [str(c) for c in p.df.columns], "rows": rows(p.df),
            "cx": str(p.coord_names[0]), "cy": str(p.coord_names[1]),
            "pts": [[it(a / s), it(c / s)] for a, c in np.asarray(p.points, dtype=float)],
            "n": it(p.n), "len": it(len(p)),
            "win": [it(b.left / s), it(b.lower / s), it(b.right / s), it(b.upper / s),
                    it(2 * w.area / s / s)],
        }

    def same_inputs():
        for obj, copy in inputs:
            if isinstance(obj, pd.DataFrame):
                if not (obj.equals(copy) and list(obj.columns) == list(copy.columns)):
                    return False
            elif isinstance(obj, np.ndarray):
                if not np.array_equal(obj, copy):
                    return False
            elif obj != copy:
                return False
        return True

    def track(x):
        import copy as c

        if isinstance(x, (list, np.ndarray, pd.DataFrame)):
            inputs.append((x, x.copy() if not isinstance(x, list) else c.deepcopy(x)))
        return x

    def read(p, a):
        if a == "len":
            return it(len(p))
        if a == "summary":
            buf = io.StringIO()
            with contextlib.redirect_stdout(buf):
                p.summary()
            ls = buf.getvalue().splitlines()
            num = r"[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?"
            box = [float(x) for x in re.findall(num, ls[2].replace("np.float64", ""))]
            return [q(float(re.findall(num, ls[1])[0]))] + [q(x / s) for x in box] + [
                q(float(re.findall(num, ls[3])[-1]) / s / s), q(float(re.findall(num, ls[4])[-1]) * s * s)]
        v = getattr(p, a)
        if a == "n":
            return it(v)
        if a in ("head", "tail"):
            f = v()
            return {"cols": [str(c) for c in f.columns], "rows": rows(f)}
        if a == "mbb":
            return [it(x / s) for x in v]
        if a in ("mbb_area", "hull_area"):
            return q(v / s / s)
        if a == "rot":
            return q(v / s)
        if a.startswith("lambda"):
            return q(float(v) * s * s)
        if a == "hull":
            return [[it(x / s) for x in r] for r in v]
        if a == "nnd":
            return [it(round((float(x) / s) ** 2, 6)) for x in np.asarray(v).ravel()]
        if a in ("min_nnd", "max_nnd"):
            return it(round((float(v) / s) ** 2, 6))
        if a == "mean_nnd":
            return core.fx(float(v) / s, 1000)
        raise AssertionError(a)

    first = [True]

    def event(e, exc, **more):
        d = {k: v for k, v in e.items() if k != "op"}
        d.update(more)
        d["heap"] = [proj(p) for p in heap]
        d["inputs_same"] = same_inputs()
        d["first"] = first[0]
        first[0] = False
        rec.ev(e["op"], scn.get("key", ""), **d)
        rec.events[-1]["exc"] = exc

    for e in scn["hist"]:
        op = e["op"]
        if op == "End":
            continue
        if op == "New":
            data = [[v * s for v in r] for r in e["rows"]]
            if e["kind"] == "array":
                data = core.narrow(data)
            elif e["kind"] == "frame":
                data = pd.DataFrame(data, columns=[f"c{i}" for i in range(len(data[0]))],
                                    index=range(10, 10 + len(data)))
                for c in data.columns[:2]:      # each column with its own type
                    data[c] = core.narrow(data[c].values, 3)
            track(data)
            kw = {}
            if e["names"]:
                kw["names"] = track(list(e["names"]))
            if e["coords"]:
                kw["coord_names"] = track(list(e["coords"]))
            if e["win"]:
                kw["window"] = window(e["win"], s)
            p, exc = rec.call(PointPattern, data, **kw)
            if p is not None:
                heap.append(p)
            event(e, exc)
            if p is None:
                return
            continue
        p = heap[e["o"] - 1] if e["o"] <= len(heap) else None
        if p is None or ("q" in e and e["q"] > len(heap)):
            return
        if op == "Mark":
            vals = [[mark(v) for v in col] for col in e["vals"]]
            track(vals)
            args = [vals] + ([track(list(e["names"]))] if e["names"] else [])
            _, exc = rec.call(p.add_marks, *args)
            event(e, exc)
        elif op == "SetWin":
            if scn["id"] % 2:
                _, exc = rec.call(p.set_window, window(e["win"], s))
            else:
                _, exc = rec.call(setattr, p, "window", window(e["win"], s))
            event(e, exc)
        elif op == "DropWin":
            _, exc = rec.call(p.set_window, None)
            event(e, exc)
        elif op == "Unique":
            r, exc = rec.call(p.unique)
            if r is not None:
                heap.append(r)
            event(e, exc)
        elif op == "Super":
            r, exc = rec.call(p.superimpose, heap[e["q"] - 1])
            if r is not None:
                heap.append(r)
            event(e, exc, typeerror=exc.startswith("TypeError"))
        elif op == "Explode":
            r, exc = rec.call(p.explode, e["col"])
            heap.extend(r or [])
            event(e, exc)
        elif op == "Flip":
            _, exc = rec.call(p.flip_coordinates)
            event(e, exc)
        elif op == "Has":
            pt = [x * s for x in e["pt"]]
            r, exc = rec.call(lambda: (tuple(pt) if scn["id"] % 2 else pt) in p)
            event(e, exc, ans=bool(r))
        elif op == "Read":
            v, exc = rec.call(read, p, e["attr"])
            event(e, exc, v=v if v is not None else "")
    plt.close("all")
