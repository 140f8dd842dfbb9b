"""Reading what an axes shows, whatever artists draw it."""


def _subpaths(path):
    v = [list(map(float, w)) for w in path.vertices]
    codes = path.codes if path.codes is not None else [1] + [2] * (len(v) - 1)
    out = []
    for c, w in zip(codes, v):
        if c == 1:
            out.append([w])
        elif c == 79:
            pass
        elif out:
            out[-1].append(w)
    return out


def open_ring(r):
    """Without repeated vertices."""
    out = []
    for p in r:
        if not out or max(abs(p[0] - out[-1][0]), abs(p[1] - out[-1][1])) > 1e-12 * (1 + abs(p[0]) + abs(p[1])):
            out.append(p)
    while len(out) > 1 and max(abs(out[0][0] - out[-1][0]), abs(out[0][1] - out[-1][1])) <= 1e-12 * (1 + abs(out[0][0]) + abs(out[0][1])):
        out.pop()
    return out


def read(ax):
    """marks, rings, texts, tints (ring, value of the colour array)"""
    import numpy as np
    from matplotlib.collections import LineCollection, PatchCollection, PathCollection, PolyCollection

    marks, rings, tint = [], [], []
    for ln in ax.lines:
        xy = [list(map(float, p)) for p in np.column_stack(ln.get_data())]
        if str(ln.get_linestyle()) in ("None", "none", "", " "):
            marks += xy if str(ln.get_marker()) not in ("None", "none", "", " ") else []
        else:
            rings.append(open_ring(xy))
    for c in ax.collections:
        if isinstance(c, PathCollection):
            marks += [list(map(float, p)) for p in np.asarray(c.get_offsets())]
        elif isinstance(c, (PatchCollection, PolyCollection, LineCollection)):
            a = c.get_array()
            k = 0
            for i, p in enumerate(c.get_paths()):
                for r in _subpaths(p):
                    rings.append(open_ring(r))
                    if a is not None:
                        tint.append([rings[-1], float(a[i])])
                    k += 1
    for p in ax.patches:
        path = p.get_path().transformed(p.get_patch_transform())
        rings += [open_ring(r) for r in _subpaths(path)]
    texts = [[float(t.get_position()[0]), float(t.get_position()[1]), t.get_text()] for t in ax.texts if t.get_visible()]
    return marks, rings, texts, tint


def cell_paths(ax, n):
    """the paths of the n cells of a grid, in the order in which they were given"""
    from matplotlib.collections import LineCollection, PatchCollection, PolyCollection

    found = [c.get_paths() for c in ax.collections if isinstance(c, (PatchCollection, PolyCollection, LineCollection)) and len(c.get_paths()) == n]
    if not found and len(ax.patches) >= n:
        found = [[p.get_path().transformed(p.get_patch_transform()) for p in ax.patches][-n:]]
    return found[-1]
