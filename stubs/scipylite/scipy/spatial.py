import numpy as np
from vdoubles_base import DoubleUnsupported, unsupported

class QhullError(RuntimeError):
    pass

class ConvexHull:
    """Planar hull: .vertices are the indices of the corners in counter-clockwise order."""

    def __init__(self, points, *a, **kw):
        pts = np.asarray(points, dtype=float)
        if pts.ndim != 2 or pts.shape[1] != 2:
            raise DoubleUnsupported('hull of other than planar points')
        self.points = pts
        order = sorted(range(len(pts)), key=lambda i: (pts[i][0], pts[i][1]))

        def cross(o, a, b):
            return (pts[a][0] - pts[o][0]) * (pts[b][1] - pts[o][1]) - (pts[a][1] - pts[o][1]) * (pts[b][0] - pts[o][0])

        def chain(seq):
            out = []
            for i in seq:
                while len(out) >= 2 and cross(out[-2], out[-1], i) <= 0:
                    out.pop()
                out.append(i)
            return out
        lower, upper = chain(order), chain(order[::-1])
        v = lower[:-1] + upper[:-1]
        if len(v) < 3:
            raise QhullError('flat hull')
        self.vertices = np.array(v, dtype=np.int32)
        x, y = pts[v, 0], pts[v, 1]
        self.volume = 0.5 * abs(np.dot(x, np.roll(y, -1)) - np.dot(y, np.roll(x, -1)))
        self.simplices = np.array([[v[i], v[(i + 1) % len(v)]] for i in range(len(v))])

__getattr__ = unsupported('scipy.spatial')
