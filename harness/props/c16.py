"""Legacy point processes."""
import warnings

import core
from core import Model
from props._sam import HULLS, Q, dup, lpoly, quant

MODELS = [Model("DrawLoop", "DrawLoop.cfg", emits=True, thorough_cfg="DrawLoop_t.cfg"), Model("DrawLoop", "DrawLoop_floor.cfg", refutes=True),
          Model("DrawLoop", "DrawLoop_keepall.cfg", refutes=True)]
TRACE = "T_SAM"
LIMIT_S = 120
ASSUMPTIONS = ["coordinates are judged to 1/250 of a lattice unit", "statistical clauses hold up to six standard deviations",
               "the number of circles of a whole realization is judged for radii so small that few points fall outside the window"]
WINS = [h for h in HULLS[:-1] if h["form"] not in ("points", "hullobj")]
BIG = {"form": "poly", "parts": [[[[0, 0], [60, 0], [60, 60], [0, 60]]]]}


def scenarios(emitted, rng, tier):
    th = tier != "quick"
    out = []
    em = emitted["DrawLoop"]
    rng.shuffle(em)
    for e in em:
        out.append({"kind": "pcp", "n": e["n"], "par": e["par"], "r": rng.choice([0.5, 1, 2]), "samples": rng.choice([1, 2, 3]),
                    "win": rng.choice(WINS)})
        out.append({"kind": "round", "n": e["n"] * 6, "par": e["par"], "r": rng.choice([0.2, 0.5])})
    for r in range(600 if th else 70):
        out.append({"kind": "pp", "n": rng.choice([0, 1, 2, 5, 20, 40]), "samples": rng.choice([1, 1, 2, 5]), "win": WINS[r % len(WINS)]})
    for r in range(400 if th else 40):
        n = rng.choice([1, 5, 10, 24, 30])
        out.append({"kind": "pcp", "n": n, "par": rng.randint(1, min(n, 7)), "r": rng.choice([0.5, 1, 3, 8]), "samples": rng.choice([1, 2, 3]),
                    "win": WINS[r % len(WINS)]})
        out.append({"kind": "round", "n": rng.choice([n, 4 * n]), "par": rng.randint(1, 6), "r": rng.choice([0.2, 0.5])})
        out.append({"kind": "over", "n": rng.choice([12, 20, 21, 22, 31]), "par": rng.randint(1, 5), "r": 0.15, "samples": 18})
    for r in range(300 if th else 40):
        out.append({"kind": "circle", "n": rng.choice([0, 1, 2, 7, 50]), "r": rng.choice([1, 2, 7]), "c": rng.choice([[0, 0], [5, -3], [30, 12]]), "burn": rng.choice([1, 2, 3])})
    for r in range(20 if th else 3):
        out.append({"kind": "eighths", "n": 3000, "r": rng.choice([1, 5])})
    for r in range(20 if th else 4):   # more points than needed: the choice among them favours no place
        n, par = rng.choice([(10, 4), (7, 3), (5, 3), (10, 1)])
        out.append({"kind": "halves", "n": n, "par": par, "r": rng.choice([0.5, 4]), "samples": 2000})
    for w in WINS:
        for r in range(4 if th else 1):
            out.append({"kind": "uniform", "win": w, "n": 2000})
    for r in range(20 if th else 3):
        out.append({"kind": "drawn", "lam": rng.choice([5, 9]), "samples": 400, "which": ["pp", "pcp"][r % 2]})
    for i, s in enumerate(out):
        s.update(seed=rng.randint(0, 10**6), scale=rng.choice([1, 1, 0.5, 0.1, 20, 2**-17, 2**17]), off=rng.choice([[0, 0], [0, 0], [-1000, 500]]),
                 cond=i % 3 == 1, aspp=i % 2 == 0, keep=i % 4 == 3, parts=i % 2)
    return out


def execute(scn, rec):
    import libpysal
    import numpy as np
    import pointpats as pt
    import pointpats.process as pp

    warnings.simplefilter("ignore")
    s, off = scn["scale"], scn["off"]
    np.random.seed(scn["seed"])
    kind = scn["kind"]

    def window(w):
        if w["form"] == "bbox":
            p = [x for part in w["parts"] for x in part[0]]
            return pt.as_window(pt.poly_from_bbox([min(x[0] for x in p) * s + off[0], min(x[1] for x in p) * s + off[1],
                                                   max(x[0] for x in p) * s + off[0], max(x[1] for x in p) * s + off[1]]))
        p = lpoly(w, s, off)
        if scn["parts"] and not any(len(part) > 1 for part in w["parts"]):
            return pt.Window(p.parts)
        return pt.as_window(p)

    if kind in ("pp", "pcp"):
        w = scn["win"]
        win = window(w)
        n, S = scn["n"], scn["samples"]
        cond, aspp = scn["cond"], scn["aspp"]
        if kind == "pp":
            f = lambda: pt.PoissonPointProcess(win, n, S, conditioning=cond, asPP=aspp)  # noqa: E731
        else:
            f = lambda: pt.PoissonClusterPointProcess(win, n, scn["par"], scn["r"] * s, S, keep=scn["keep"], asPP=aspp, conditioning=cond)  # noqa: E731
        p, exc = rec.call(f)
        if exc:
            rec.fail("Process", "", exc)
            return
        clu = kind == "pcp"
        rec.ev("Process", samples=S, keys=[int(k) for k in p.realizations], pkeys=[int(k) for k in p.parameters], nkeys=[int(k) for k in p.num_parents] if clu else [],
               parents=scn["par"] if clu else -1, fixed=not cond, nparents=[int(x) for x in p.num_parents.values()] if clu else [])
        every = [np.asarray(v.points if isinstance(v, pt.PointPattern) else v) for v in p.realizations.values()]
        total = sum(len(a) for a in every)
        rec.ev("Equal", a=dup(np.vstack(every)) if total else 0, b=total, what="realizations_drawn_anew")
        for k, v in p.realizations.items():
            a = np.asarray(v.points) if isinstance(v, pt.PointPattern) else v
            box, area = [], 0
            if isinstance(v, pt.PointPattern):
                ww = v.window
                box = [core.it(round((ww.bbox[i] - off[i % 2]) / s, 6)) for i in range(4)]
                area = core.it(round(2 * ww.area / s / s, 4))
            rec.ev("Real", hull=w, rec=int(p.parameters[k]["n"]), want=-1 if cond else n, shape=list(a.shape), x=quant(a, s, off), distinct=dup(a) if len(a) else 0,
                   parents=int(p.num_parents[k]) if clu else -1, children=int(p.children) if clu else 0,
                   type="pattern" if isinstance(v, pt.PointPattern) else "array" if isinstance(v, np.ndarray) else type(v).__name__,
                   wanttype="pattern" if aspp else "array", winbox=box, winarea2=area)
        return
    if kind in ("round", "over"):
        n, par, r = scn["n"], scn["par"], scn["r"]
        win = window(BIG)
        if kind == "round":
            p, exc = rec.call(pt.PoissonClusterPointProcess, win, n, par, r * s, 0, keep=scn["keep"])
            v = None
            if not exc:
                v, exc = rec.call(p.realize, n)
            if exc:
                rec.fail("Round", "", exc)
                return
            v = np.asarray(v)
            rec.ev("Round", n=n, parents=par, children=-(-n // par), keep=scn["keep"], r=int(r * Q), full=True, x=quant(v, s, off))
            return
        p, exc = rec.call(pt.PoissonClusterPointProcess, win, n, par, r * s, scn["samples"], keep=False)
        if exc:
            rec.fail("Over", "", exc)
            return
        over = 0
        from scipy.cluster.hierarchy import fclusterdata
        for v in p.realizations.values():
            if len(v) > 1 and len(set(fclusterdata(v, 2.001 * r * s, criterion="distance", method="single"))) > par:
                over += 1
        rec.ev("Over", over=over, total=scn["samples"])
        return
    if kind == "halves":
        n, S = scn["n"], scn["samples"]
        p, exc = rec.call(pt.PoissonClusterPointProcess, window(BIG), n, scn["par"], scn["r"] * s, S, keep=scn["keep"])
        if exc:
            rec.fail("Halves", "", exc)
            return
        a = (np.vstack([np.asarray(v) for v in p.realizations.values()]) - np.array(off)) / s
        rec.ev("Halves", n=n, samples=S, c=[int((a[:, 0] < 30).sum()), int((a[:, 1] < 30).sum()), int((a.sum(axis=1) < 60).sum())])
        return
    if kind == "circle":
        n, r, c = scn["n"], scn["r"], scn["c"]
        kw = {} if r == 1 and c == [0, 0] else dict(radius=r * s, center=(c[0] * s + off[0], c[1] * s + off[1]))
        if not kw:
            s, off = 1, [0, 0]
        if scn["id"] % 2:
            kw["burn"] = scn["burn"]
        if scn["id"] % 4 == 1:
            kw["verbose"] = True
        v, exc = rec.call(pp.runif_in_circle, n, **kw)
        if exc:
            rec.fail("Circle", "", exc)
            return
        rec.ev("Circle", n=n, r=r * Q, c=[c[0] * Q, c[1] * Q], shape=list(v.shape), x=quant(v, s, off), distinct=dup(v) if n else 0)
        return
    if kind == "eighths":
        r = scn["r"]
        v, exc = rec.call(pp.runif_in_circle, scn["n"], radius=r * s, center=(off[0], off[1]))
        if exc:
            rec.fail("Eighths", "", exc)
            return
        d = (v - np.array(off)) / s / r
        q2 = (d ** 2).sum(axis=1)
        b = (d[:, 0] > 0) * 4 + (d[:, 1] > 0) * 2 + (q2 > 0.5)
        rec.ev("Eighths", n=len(d), c=[int(x) for x in np.bincount(b[q2 <= 1 + 1e-6], minlength=8)])
        return
    if kind == "uniform":
        w, n = scn["win"], scn["n"]
        p, exc = rec.call(pt.PoissonPointProcess, window(w), n, 1)
        if exc:
            rec.fail("Uniform", "", exc)
            return
        pts = [q for part in w["parts"] for ring in part for q in ring]
        x0, y0, x1, y1 = min(q[0] for q in pts), min(q[1] for q in pts), max(q[0] for q in pts), max(q[1] for q in pts)
        a = (p.realizations[0] - np.array(off)) / s
        i = np.floor(3 * (a[:, 0] - x0) / (x1 - x0)).astype(int)
        j = np.floor(3 * (a[:, 1] - y0) / (y1 - y0)).astype(int)
        ok = (i >= 0) & (i < 3) & (j >= 0) & (j < 3)
        rec.ev("Uniform", hull=w, n=n, c=[int(t) for t in np.bincount((3 * j + i)[ok], minlength=9)])
        return
    lam, S = scn["lam"], scn["samples"]
    win = window(BIG)
    if scn["which"] == "pp":
        p, exc = rec.call(pt.PoissonPointProcess, win, lam, S, conditioning=True)
        c = [] if exc else [len(v) for v in p.realizations.values()]
    else:
        p, exc = rec.call(pt.PoissonClusterPointProcess, win, 2 * lam, lam, 0.1 * s, S, conditioning=True)
        c = [] if exc else [len(v) // 2 for v in p.realizations.values()]
    if exc:
        rec.fail("Drawn", "", exc)
        return
    rec.ev("Drawn", lam=lam, c=c)
