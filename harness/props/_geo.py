"""Shared by C22, C24 and C25: regions of the plane and query points."""
import core
from props._sam import HULLS

ZOO = [h["parts"] for h in HULLS if h["form"] in ("poly", "multi")]
ISLAND = [h["parts"] for h in HULLS][-1]


def stretch(reg, kx, ky, swap=False):
    return [[[[p[1] * kx, p[0] * ky] if swap else [p[0] * kx, p[1] * ky] for p in ring] for ring in part] for part in reg]


def pick(emitted, rng):
    """A region: one of the model's, stretched, or one of the zoo."""
    if rng.random() < 0.7:
        return stretch(rng.choice(emitted)["reg"], rng.choice([1, 1, 2, 3]), rng.choice([1, 1, 2, 5]), rng.random() < 0.3)
    return stretch(rng.choice(ZOO), 1, rng.choice([1, 1, 2]), rng.random() < 0.3)


def ring(rng, r):
    """The same ring from another vertex, in either direction."""
    k = rng.randrange(len(r))
    r = r[k:] + r[:k]
    return r[::-1] if rng.random() < 0.5 else r


def queries(reg, rng, n=14):
    """Doubled coordinates, at odd positions mostly (off the lattice lines)."""
    pts = [p for part in reg for r in part for p in r]
    x0, x1, y0, y1 = min(p[0] for p in pts), max(p[0] for p in pts), min(p[1] for p in pts), max(p[1] for p in pts)
    return [[2 * rng.randint(x0 - 1, x1) + 1, 2 * rng.randint(y0 - 1, y1) + 1] for _ in range(n)]


def convex(rng, n=None):
    pts = [[rng.randint(0, 9), rng.randint(0, 9)] for _ in range(n or rng.choice([3, 4, 5, 6, 9, 14]))]
    a = pts[0]
    if all((p[0] - a[0]) * (q[1] - a[1]) == (q[0] - a[0]) * (p[1] - a[1]) for p in pts for q in pts):
        pts += [[0, 0], [3, 1], [1, 4]]
    return pts


def manygon(rng):
    """A convex ring with many vertices (collinear runs included)."""
    import math
    vs = [[a, b] for a in range(-3, 4) for b in range(-3, 4) if math.gcd(a, b) == 1]
    vs = rng.sample(vs, rng.choice([14, 18, 24]))
    vs.sort(key=lambda v: math.atan2(v[1], v[0]))
    vs += [[-sum(v[0] for v in vs), -sum(v[1] for v in vs)]]
    vs = sorted((v for v in vs if v != [0, 0]), key=lambda v: math.atan2(v[1], v[0]))
    ring, x, y = [], 0, 0
    for v in vs:
        x, y = x + v[0], y + v[1]
        ring.append([x, y])
    return ring


def round_(rng):
    """Points whose convex hull has many vertices, some of them inside it, on its edges or twice."""
    ring = manygon(rng)
    cx, cy = sum(q[0] for q in ring) // len(ring), sum(q[1] for q in ring) // len(ring)
    pts = ring + [[cx + rng.randint(-2, 2), cy + rng.randint(-2, 2)] for _ in range(rng.choice([0, 10, 40]))] + ring[:rng.choice([0, 3])]
    rng.shuffle(pts)
    return pts


def shp(reg, rng, s, off, multi=False):
    import shapely
    f = lambda r: [(p[0] * s + off[0], p[1] * s + off[1]) for p in r]  # noqa: E731
    polys = [shapely.Polygon(f(ring(rng, part[0])), [f(ring(rng, r)) for r in part[1:]]) for part in reg]
    return polys[0] if len(polys) == 1 and not multi else shapely.MultiPolygon(polys)


def box(reg):
    pts = [p for part in reg for r in part for p in r]
    return [min(p[0] for p in pts), min(p[1] for p in pts), max(p[0] for p in pts), max(p[1] for p in pts)]


def unbox(b, s, off):
    return [core.it(round((float(v) - off[i % 2]) / s, 9)) for i, v in enumerate(b)]
