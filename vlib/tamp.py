"""Loading of the task-and-motion-planning code against the doubles in stubs/tamp, and geometry for its oracles."""
import contextlib
import importlib.util
import itertools
import os
import sys

os.environ['TQDM_DISABLE'] = '1'
import numpy as np  # noqa: E402
from vlib.core import REPO, HarnessLimit  # noqa: E402

TAMP = os.path.join(REPO, 'exps', 'tamp_environment')
DIRS = {'turtlebot': os.path.join(TAMP, 'turtlebot_move'), 'kuka': os.path.join(TAMP, 'kuka_carry')}
_loaded = {}


@contextlib.contextmanager
def quiet():
    """Nothing printed by the code under test reaches the log (it may also replace sys.stdout)."""
    out, err = sys.stdout, sys.stderr
    with open(os.devnull, 'w') as null:
        sys.stdout = sys.stderr = null
        try:
            yield
        finally:
            sys.stdout, sys.stderr = out, err


def load(which, name):
    """Module `name` of one of the two domains; the two directories use the same module names for their own files."""
    if (which, name) in _loaded:
        return _loaded[which, name]
    d = DIRS[which]
    path = os.path.join(d, name + '.py')
    if not os.path.exists(path):
        raise HarnessLimit('%s is gone' % path)
    siblings = [f[:-3] for f in os.listdir(d) if f.endswith('.py')]
    hidden = {s: sys.modules.pop(s) for s in siblings if s in sys.modules}
    for (w, n), m in _loaded.items():
        if w == which:
            sys.modules[n] = m
    keep = list(sys.path)
    sys.path.insert(0, d)
    try:
        with quiet():
            mod = importlib.import_module(name)
    finally:
        sys.path[:] = keep
        for s in siblings:
            m = sys.modules.pop(s, None)
            if m is not None:
                _loaded.setdefault((which, s), m)
        sys.modules.update(hidden)
    _loaded[which, name] = mod
    return mod


# ---- boxes: (centre, half extents, rotation matrix)

def edges_meet(p, q):
    """Does some edge of box p pass through box q?"""
    c, h, r = p
    cq, hq, rq = q
    if np.any(np.asarray(hq) < 0) or np.any(np.asarray(h) < 0):
        return False
    corner = {sg: rq.T @ (c + r @ (np.array(sg) * h) - cq) for sg in itertools.product((-1, 1), repeat=3)}
    for sg in corner:
        for k in range(3):
            if sg[k] == -1:
                t = list(sg)
                t[k] = 1
                u, v = corner[sg], corner[tuple(t)]
                lo, hi = 0.0, 1.0
                for x in range(3):
                    d = v[x] - u[x]
                    if abs(d) < 1e-300:
                        if abs(u[x]) > hq[x]:
                            lo, hi = 1.0, 0.0
                        continue
                    t0, t1 = (-hq[x] - u[x]) / d, (hq[x] - u[x]) / d
                    if t0 > t1:
                        t0, t1 = t1, t0
                    lo, hi = max(lo, t0), min(hi, t1)
                if lo <= hi:
                    return True
    return False


def boxes_meet(a, b, grow=0.0):
    """Two boxes share a point, when the second is grown (or shrunk) by `grow` on each side.  Two convex polyhedra meet
    exactly when an edge of one meets the other, so no separating axes are involved."""
    h = np.asarray(b[1], dtype=float) + grow
    if np.any(h < 0):
        return False
    a = tuple(np.asarray(x, dtype=float) for x in a)
    b = (np.asarray(b[0], dtype=float), h, np.asarray(b[2], dtype=float))
    if np.linalg.norm(a[0] - b[0]) > np.linalg.norm(a[1]) + np.linalg.norm(b[1]) + 1e-9:
        return False
    return edges_meet(a, b) or edges_meet(b, a)


_SG = np.array(list(itertools.product((-1.0, 1.0), repeat=3)))
_EDGES = [(i, j) for i in range(8) for j in range(i + 1, 8) if np.sum(_SG[i] != _SG[j]) == 1]
_EI, _EJ = np.array([e[0] for e in _EDGES]), np.array([e[1] for e in _EDGES])


def _edges_meet_many(c, h, r, cq, hq, rq):
    """For each n: does an edge of box n of the first kind pass through box n of the second?"""
    ok = np.all(h >= 0, axis=1) & np.all(hq >= 0, axis=1)
    corners = c[:, None, :] + np.einsum('nij,nkj->nki', r, _SG[None] * h[:, None, :])
    local = np.einsum('nji,nkj->nki', rq, corners - cq[:, None, :])
    u, v = local[:, _EI], local[:, _EJ]
    d = v - u
    flat = np.abs(d) < 1e-300
    safe = np.where(flat, 1.0, d)
    t0, t1 = (-hq[:, None, :] - u) / safe, (hq[:, None, :] - u) / safe
    lo = np.where(flat, np.where(np.abs(u) > hq[:, None, :], 2.0, 0.0), np.minimum(t0, t1))
    hi = np.where(flat, 1.0, np.maximum(t0, t1))
    return np.any(np.maximum(lo.max(axis=2), 0.0) <= np.minimum(hi.min(axis=2), 1.0), axis=1) & ok


def boxes_meet_many(a, b, grow=0.0):
    """boxes_meet for arrays: a = (centres (n,3), half extents (n,3), rotations (n,3,3)), b likewise."""
    c, h, r = (np.asarray(x, dtype=float) for x in a)
    cq, hq, rq = (np.asarray(x, dtype=float) for x in b)
    hq = hq + grow
    return _edges_meet_many(c, h, r, cq, hq, rq) | _edges_meet_many(cq, hq, rq, c, h, r)
