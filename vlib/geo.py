"""Reference geometry, written from the documented definition of each environment."""
import itertools
import math


# ------------------------------------------------------------------ narrow passage
def narrow_free_margin(p, c):
    """>0: p is inside the free space (distance-like margin, sup norm); <0: outside."""
    x, ys = p[0], p[1:]
    m = max(abs(y) for y in ys)
    hall = min(0.5 - abs(x), c - m)            # inside the hallway
    ends = min(abs(x) - 0.5, 1.5 - abs(x), 0.5 - m)
    both = min(1.5 - abs(x), c - m)            # crossing the mouth of the hallway is free
    return max(hall, ends, both)


def narrow_motion_slack(a, b, c):
    """clearance minus the largest |y_i| reached while |x| <= .5; None if the motion never gets there.
    Second value: how close the motion comes to |x| = .5 without reaching it (inf when it does)."""
    ax, bx = a[0], b[0]
    dx = bx - ax
    lo, hi = 0.0, 1.0
    if dx == 0.0:
        if abs(ax) > 0.5:
            return None, abs(ax) - 0.5
    else:
        t1, t2 = (-0.5 - ax) / dx, (0.5 - ax) / dx
        if t1 > t2:
            t1, t2 = t2, t1
        lo, hi = max(lo, t1), min(hi, t2)
        if lo > hi:
            return None, min(abs(ax), abs(bx)) - 0.5
    worst = 0.0
    for i in range(1, len(a)):
        for t in (lo, hi):
            worst = max(worst, abs(a[i] + t * (b[i] - a[i])))
    return c - worst, math.inf


# ------------------------------------------------------------------ Gray-code maze
def maze_path(dim, length):
    """Cells of the maze in order: reflected Gray code over the last dim-1 coordinates, back and forth per layer."""
    n = 1 << (dim - 1)
    codes = [[(g >> (dim - 2 - j)) & 1 for j in range(dim - 1)] for g in (i ^ (i >> 1) for i in range(n))]
    out = []
    for layer in range(length):
        seq = codes if layer % 2 == 0 else codes[::-1]
        out += [(layer,) + tuple(c) for c in seq]
    return out


def maze_doors(path, k):
    """[(axis, sign)] of the open faces of cell k."""
    doors = []
    for j in (k - 1, k + 1):
        if 0 <= j < len(path):
            for ax, (a, b) in enumerate(zip(path[k], path[j])):
                if a != b:
                    doors.append((ax, 1 if b > a else -1))
    return doors


def maze_cell_slack(path, k, x, thickness):
    """distance of x (taken as a point of cell k) to the cell's closed walls, minus the thickness."""
    doors = set(maze_doors(path, k))
    best = math.inf
    for ax in range(len(x)):
        lo, hi = x[ax] - path[k][ax], path[k][ax] + 1 - x[ax]
        if (ax, -1) not in doors:
            best = min(best, lo)
        if (ax, 1) not in doors:
            best = min(best, hi)
    return best - thickness


def maze_motion_slack(path, index, a, b, thickness, eps=1e-8):
    """>=0: the motion is free with this margin; <0: it is blocked; None: too close to call.
    Second value: the number of cells it visits."""
    dim = len(a)
    cuts = []
    for ax in range(dim):
        lo, hi = min(a[ax], b[ax]), max(a[ax], b[ax])
        for c in range(math.floor(lo) + 1, math.floor(hi) + 1):
            cuts.append(((c - a[ax]) / (b[ax] - a[ax]), ax))
    cuts.sort()
    ts = [0.0] + [t for t, _ in cuts] + [1.0]
    worst = math.inf
    prev = None
    close = any(t2 - t1 < eps for t1, t2 in zip(ts, ts[1:]))
    if close:
        return None, len(ts) - 1
    for t1, t2 in zip(ts, ts[1:]):
        tm = (t1 + t2) / 2
        cell = tuple(math.floor(a[i] + tm * (b[i] - a[i])) for i in range(dim))
        k = index.get(cell)
        if k is None or (prev is not None and abs(k - prev) != 1):
            return -1.0, len(ts) - 1
        for t in (t1, t2):
            worst = min(worst, maze_cell_slack(path, k, [a[i] + t * (b[i] - a[i]) for i in range(dim)], thickness))
        prev = k
    return worst, len(ts) - 1
