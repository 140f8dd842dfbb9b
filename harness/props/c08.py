"""Hexagonal quadrat counts."""
import math

import core
from core import Model
from props._fig import cell_paths
from props.c07 import CONT, cont, window

MODELS = [Model("QuadLaws", "QuadLaws.cfg", emits=True, thorough_cfg="QuadLaws_t.cfg", timeout=3000),
          Model("QuadLaws", "QuadLaws_onerow.cfg", refutes=True), Model("QuadLaws", "QuadLaws_num.cfg", refutes=True)]
TRACE = "T_QUAD"
ASSUMPTIONS = ["points on the lattice (multiples of a fraction of half a side, of half a height); a point on an edge may be "
               "counted in any of the cells that share the edge"]


def scenarios(emitted, rng, tier):
    out = []
    em = [e["g"] for e in emitted["QuadLaws"] if e["kind"] == "hex"]
    rng.shuffle(em)
    for i, g in enumerate(em[:126 if tier == "quick" else 9000]):
        box = [[0, 0], [g["U"], g["V"]]] if i % 2 else [[0, g["V"]], [g["U"], 0]]
        pts = box + [[rng.randint(0, g["U"]), rng.randint(0, g["V"])] for _ in range(rng.randint(0, 7))]
        rng.shuffle(pts)
        out.append({"pts": pts, "h": g["s"]})
    for r in range(230 if tier == "quick" else 6000):
        n = rng.choice([1, 2, 3, 5, 9, 17, 30])
        h = rng.choice([1, 2, 3, 10, 50])
        W, H = h * rng.choice([1, 3, 5, 12]), h * rng.choice([1, 3, 5, 12])
        pts = [[rng.randint(-W, W), rng.randint(-H, H)] for _ in range(n)]
        if r % 9 == 0:
            pts = [[7, p[1]] for p in pts] if r % 2 else [[p[0], -3] for p in pts]
        if r % 9 == 1:    # extent an exact number of half sides / half heights
            pts = [[h * rng.randint(0, 7), h * rng.randint(0, 7)] for _ in range(min(n, 9))]
        if r % 9 == 2:    # far corners of a wide and of a high pattern
            pts = [[0, 0], [h * rng.randint(1, 16), rng.randint(0, 2 * h)]]
        if r % 9 == 3:
            pts = [[0, 0], [rng.randint(0, 2 * h), h * rng.randint(1, 16)]]
        out.append({"pts": pts, "h": h})
    for r in range(3 if tier == "quick" else 60):    # many points, many cells
        n, g = rng.choice([200, 600, 1200]), rng.choice([31, 97])
        out.append({"pts": [[rng.randint(0, g), rng.randint(0, g)] for _ in range(n)], "h": rng.choice([2, 5, 17])})
    for i, s in enumerate(out):
        s.update(off=rng.choice([[0, 0], [0, 0], [-1000, 500], [5000, 4000]]), scale=rng.choice([1, 1, 0.1, 0.5, 37, 2**-17, 2**17]),
                 cont=CONT[i % 8] if i % 3 else "array", win=rng.choice([0, 0, 1, 2]), plot=i % 5 == 0)
    return core.far(out)


def execute(scn, rec):
    import matplotlib.pyplot as plt
    import pointpats as pt

    s, (ox, oy), h = scn["scale"], scn["off"], scn["h"]
    lh = 2.0 * h * s              # one lattice unit is s horizontally, s * sqrt(3) vertically
    sh = lh * math.cos(math.pi / 6)
    pts = scn["pts"]
    xy = [[p[0] * s + ox, p[1] * sh / h + oy] for p in pts]
    c = cont(scn["cont"], xy)
    kw = {"window": window(scn["win"], xy)} if scn["win"] else {}
    lengths = [lh, int(lh)] if lh == int(lh) else [lh]

    def go(lh):
        m = pt.HexagonM(c, lh, **kw)
        d = m.point_location_sta()
        x0, y0 = min(p[0] for p in xy), min(p[1] for p in xy)
        nc = m.count_column
        cells = []
        if scn["plot"]:
            ax, ids = m.plot()
            paths = cell_paths(ax, len(ids))
            assert len(ids) == len(paths)
            for i, p in zip(ids, paths):
                v = p.vertices[:6]
                cells.append({"ij": [int(i) % nc, int(i) // nc],
                              "v": [[core.fx((x - x0) / s, 1000), core.fx((y - y0) / sh * h, 1000)] for x, y in v]})
            plt.close("all")
        return dict(num=m.num, keys=[[int(k) % nc, int(k) // nc] for k in d], vals=[core.it(v) for v in d.values()],
                    cells=cells)

    r, exc = rec.call(go, lengths[scn["id"] % len(lengths)])
    if r is None:
        rec.fail("Hex", "", exc, pts=pts, h=h)
    else:
        rec.ev("Hex", pts=pts, h=h, **r)
