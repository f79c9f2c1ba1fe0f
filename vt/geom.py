"""
Geometry oracles: positions of panels on the segments named by the definition.

Nothing of the code under test is used; inputs are the (JSON) definition of the
aircraft and the observed panel corners.
"""

import numpy as np

from vt.runner import Violation

# Coordinate reversed by each symmetry flag
AXIS = {1: 2, 2: 1, 3: 0}
# Order of the corners of a mirrored panel with respect to the original one
ORDER = {1: [0, 1, 2, 3], 2: [1, 0, 3, 2], 3: [3, 2, 1, 0]}


def mirror(points, symmetry):
    out = np.array(points, float)
    out[..., AXIS[symmetry]] *= -1
    return out


def unmirror_panels(p, symmetry):
    """Mirrored panels moved back to the defined side, with the original order of corners"""
    return mirror(p, symmetry)[:, ORDER[symmetry]]


def surface(v, eta, xsi):
    """Point of a segment (bilinear in eta and xsi)"""
    a, b, c, d = (np.array(v[k], float) for k in 'abcd')
    eta, xsi = np.asarray(eta, float)[..., None], np.asarray(xsi, float)[..., None]
    le = a + eta*(b - a)
    te = d + eta*(c - d)
    return le + xsi*(te - le)


def locate(v, points):
    """(eta, xsi, distance) of points on a segment, by Gauss-Newton iterations"""
    a, b, c, d = (np.array(v[k], float) for k in 'abcd')
    pts = np.asarray(points, float)
    eta = np.full(pts.shape[:-1], .5)
    xsi = np.full(pts.shape[:-1], .5)
    for _ in range(40):
        r = pts - surface(v, eta, xsi)
        se = (b - a) + xsi[..., None]*((c - d) - (b - a))
        sx = (d - a) + eta[..., None]*((c - b) - (d - a))
        ee, xx, ex = (se*se).sum(-1), (sx*sx).sum(-1), (se*sx).sum(-1)
        re, rx = (r*se).sum(-1), (r*sx).sum(-1)
        det = ee*xx - ex*ex
        de, dx = (re*xx - rx*ex)/det, (rx*ee - re*ex)/det
        eta, xsi = eta + np.clip(de, -1, 1), xsi + np.clip(dx, -1, 1)
        if max(np.abs(de).max(), np.abs(dx).max()) < 1e-14:
            break
    return eta, xsi, np.linalg.norm(pts - surface(v, eta, xsi), axis=-1)


class Strip:
    """Spanwise strip of a segment: parts from leading to trailing edge"""

    def __init__(self, left, right, parts):
        self.left, self.right, self.parts = left, right, parts


class Part:
    """
    One entry of the bookkeeping, seen in segment coordinates

    eta, xsi: arrays (n, 4), corners ordered (inner LE, outer LE, outer TE, inner TE), panels from leading to trailing edge
    """

    def __init__(self, entry, idx, eta, xsi):
        self.entry, self.idx, self.eta, self.xsi = entry, idx, eta, xsi
        # xsi at inner/outer end of the leading and the trailing side
        self.front = (xsi[0, 0], xsi[0, 1])
        self.back = (xsi[-1, 3], xsi[-1, 2])


def segment_of(case, entry):
    wing = next(w for w in case['aircraft']['wings'] if w['uid'] == entry.wing)
    return wing, next(s for s in wing['segments'] if s['uid'] == entry.segment)


def strips(case, o, mon=None, tol=1e-7):
    """
    Strips of every (wing, segment, mirror); raises a violation if the panels do not tile the segment

    Only for undeformed wings.
    """
    groups = {}
    for e in o.entries:
        groups.setdefault((e.wing, e.segment, e.mirror), []).append(e)
    expected = set()
    for w in case['aircraft']['wings']:
        for s in w['segments']:
            expected.add((w['uid'], s['uid'], False))
            if w['symmetry']:
                expected.add((w['uid'], s['uid'], True))
    if set(groups) != expected:
        raise Violation(f'segments with panels: {sorted(groups)}, defined: {sorted(expected)}', 'segments')

    out = {}
    for key, entries in groups.items():
        wing, seg = segment_of(case, entries[0])
        size = max(np.ptp(np.array(list(seg['vertices'].values()), float), axis=0))
        found = []
        for e in entries:
            if not len(e.idx):
                raise Violation(f'{key}: entry without panels', 'tiling')
            p = o.p[e.idx]
            idx = e.idx
            if e.mirror:
                p = unmirror_panels(p, wing['symmetry'])
                if wing['symmetry'] == 3:
                    p, idx = p[::-1], idx[::-1]
            eta, xsi, dist = locate(seg['vertices'], p)
            if dist.max() > tol*size:
                raise Violation(f'{key}: panel corner {dist.max():.2e} m away from the surface of the segment', 'surface')
            if max(np.ptp(eta[:, [0, 3]]), np.ptp(eta[:, [1, 2]])) > tol:
                raise Violation(f'{key}: side edges of panels {idx.tolist()} do not follow lines of constant span position', 'tiling')
            if len(p) > 1 and max(np.abs(p[:-1, 3] - p[1:, 0]).max(), np.abs(p[:-1, 2] - p[1:, 1]).max()) > tol*size:
                raise Violation(f'{key}: panels {idx.tolist()} do not share edges from leading to trailing edge', 'tiling')
            if (eta[:, 1] - eta[:, 0]).min() <= 0 or (xsi[:, 3] - xsi[:, 0]).min() <= 0 or (xsi[:, 2] - xsi[:, 1]).min() <= 0:
                raise Violation(f'{key}: panels {idx.tolist()} have no extent or the wrong orientation', 'tiling')
            found.append(Part(e, idx, eta, xsi))
        found.sort(key=lambda q: (round(q.eta[0, 0], 6), q.front[0] + q.front[1]))
        rows = []
        for q in found:
            if rows and abs(rows[-1].left - q.eta[0, 0]) <= tol:
                rows[-1].parts.append(q)
            else:
                rows.append(Strip(q.eta[0, 0], q.eta[0, 1], [q]))
        edge = 0.0
        for row in rows:
            if abs(row.left - edge) > tol:
                raise Violation(f'{key}: strip begins at {row.left:.9f}, but the preceding one ends at {edge:.9f}', 'tiling')
            front = (0.0, 0.0)
            for q in row.parts:
                if abs(q.eta[0, 1] - row.right) > tol:
                    raise Violation(f'{key}: parts of a strip end at {q.eta[0, 1]:.9f} and {row.right:.9f}', 'tiling')
                if max(abs(q.front[0] - front[0]), abs(q.front[1] - front[1])) > tol:
                    raise Violation(f'{key}: part of the strip at {row.left:.4f} begins at {q.front}, but the preceding one ends at {front}', 'tiling')
                front = q.back
            if max(abs(front[0] - 1), abs(front[1] - 1)) > tol:
                raise Violation(f'{key}: strip at {row.left:.4f} ends at {front} of the chord', 'tiling')
            edge = row.right
        if abs(edge - 1) > tol:
            raise Violation(f'{key}: strips end at {edge:.9f} of the segment', 'tiling')
        out[key] = rows
        if mon:
            mon.count('segment sides tiled')
            mon.count('strips', len(rows))
    return out


def line_xsi(v, p_inner, p_outer, eta):
    """
    xsi at position eta of the line between two points (eta, xsi) of a segment

    Exact if the segment is plane; otherwise the line is projected along the normal at the inner leading edge.
    """
    pi, po = surface(v, *p_inner), surface(v, *p_outer)
    up, lo = surface(v, eta, 0.), surface(v, eta, 1.)
    a, b, d = (np.array(v[k], float) for k in 'abd')
    plane = np.cross(np.cross(b - a, d - a), lo - up)
    t = np.dot(plane, up - pi)/np.dot(plane, po - pi)
    x = pi + t*(po - pi)
    return float(np.dot(x - up, lo - up)/np.dot(lo - up, lo - up))


def control_on_segments(wing, ctl):
    """
    {segment uid: (eta_inner, eta_outer, xsi_inner, xsi_outer, hinge_inner, hinge_outer)} of a control

    Between segments positions are interpolated linearly with the distance along the control.
    """
    uids = [s['uid'] for s in wing['segments']]
    rv, rh = ctl['rel_vertices'], ctl['rel_hinge_vertices']
    i, j = uids.index(ctl['segment_uid']['inner']), uids.index(ctl['segment_uid']['outer'])
    x1, x2, h1, h2 = rv['xsi_inner'], rv['xsi_outer'], rh['xsi_inner'], rh['xsi_outer']
    if i == j:
        return {uids[i]: (rv['eta_inner'], rv['eta_outer'], x1, x2, h1, h2)}
    length = [0.0]
    for k in range(i, j + 1):
        e1 = rv['eta_inner'] if k == i else 0.0
        e2 = rv['eta_outer'] if k == j else 1.0
        q1 = x1 if k == i else (x1 + x2)/2
        q2 = x2 if k == j else (x1 + x2)/2
        v = wing['segments'][k]['vertices']
        length.append(length[-1] + np.linalg.norm(surface(v, e2, q2) - surface(v, e1, q1)))
    out = {}
    for n, k in enumerate(range(i, j + 1)):
        t1, t2 = length[n]/length[-1], length[n + 1]/length[-1]
        out[uids[k]] = (rv['eta_inner'] if k == i else 0.0, rv['eta_outer'] if k == j else 1.0,
                        x1 + t1*(x2 - x1), x1 + t2*(x2 - x1), h1 + t1*(h2 - h1), h1 + t2*(h2 - h1))
    return out


def is_plane(v):
    a, b, c, d = (np.array(v[k], float) for k in 'abcd')
    n = np.cross(b - a, d - a)
    return abs(np.dot(n/np.linalg.norm(n), c - a)) < 1e-9*np.linalg.norm(c - a)


def rotation(axis, angle):
    """Rotation matrix (right-hand rule)"""
    u = np.array(axis, float)
    u = u/np.linalg.norm(u)
    k = np.array([[0, -u[2], u[1]], [u[2], 0, -u[0]], [-u[1], u[0], 0]])
    return np.eye(3) + np.sin(angle)*k + (1 - np.cos(angle))*(k @ k)
