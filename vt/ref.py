"""
Reference model of the vortex lattice method, written from the theory pages.

Only numpy, vectorised, independent of the C++ extension.  Inputs are the
observable lattice arrays, the flight state and the reference values.
"""

import numpy as np

FAR = 10000.0


def stream_dir(alpha, beta):
    """Unit vector of the undisturbed flow (angles in degrees)"""
    a, b = np.radians(alpha), np.radians(beta)
    return np.array([np.cos(a)*np.cos(b), -np.sin(b), np.sin(a)*np.cos(b)])


def horseshoes(p, direction):
    """Vortex points (N, 4, 3) of the panels p (N, 4, 3)"""
    left = 0.75*p[:, 0] + 0.25*p[:, 3]
    right = 0.75*p[:, 1] + 0.25*p[:, 2]
    far = FAR*direction
    return np.stack([left + far, left, right, right + far], axis=1)


def collocation(p):
    return 0.125*(p[:, 0] + p[:, 1]) + 0.375*(p[:, 2] + p[:, 3])


def base_normals(p):
    """Unit normal in the collocation point, pointing along chord x span (downwards for a wing)"""
    chordwise = collocation(p) - 0.5*(p[:, 0] + p[:, 1])
    spanwise = collocation(p) - (0.75*p[:, 2] + 0.25*p[:, 1])
    n = np.cross(chordwise, spanwise)
    return n/np.linalg.norm(n, axis=1)[:, None]


def areas(p):
    span = 0.5*((p[:, 1] - p[:, 0]) + (p[:, 2] - p[:, 3]))
    chord = 0.5*((p[:, 3] - p[:, 0]) + (p[:, 2] - p[:, 1]))
    return np.linalg.norm(np.cross(span, chord), axis=1)


def aspects(p):
    span = 0.5*((p[:, 1] - p[:, 0]) + (p[:, 2] - p[:, 3]))
    chord = 0.5*((p[:, 3] - p[:, 0]) + (p[:, 2] - p[:, 1]))
    return np.linalg.norm(span, axis=1)/np.linalg.norm(chord, axis=1)


def influence(points, v, eps):
    """Velocities (M, N, 3) induced in 'points' by horseshoes 'v' of unit strength"""
    out = np.zeros((len(points), len(v), 3))
    for k in range(3):
        r1 = points[:, None, :] - v[None, :, k, :]
        r2 = points[:, None, :] - v[None, :, k + 1, :]
        m1 = np.linalg.norm(r1, axis=2)
        m2 = np.linalg.norm(r2, axis=2)
        dot = np.einsum('ijk,ijk->ij', r1, r2)
        f = (1/m1 + 1/m2)/(dot + m1*m2*(1 + eps))/(4*np.pi)
        out += f[:, :, None]*np.cross(r1, r2)
    return out


def body_velocity(points, aero, gcenter):
    """Velocity of points fixed to the aircraft relative to the undisturbed air"""
    omega = np.array([aero['rate_P'], aero['rate_Q'], aero['rate_R']], dtype=float)
    return -aero['airspeed']*stream_dir(aero['alpha'], aero['beta']) + np.cross(omega, points - gcenter)


def body_to_wind(alpha, beta):
    a, b = np.radians(alpha), np.radians(beta)
    return np.array([[np.cos(b)*np.cos(a), -np.sin(b), np.cos(b)*np.sin(a)],
                     [np.sin(b)*np.cos(a), np.cos(b), np.sin(b)*np.sin(a)],
                     [-np.sin(a), 0., np.cos(a)]])


def system(p, n, aero, refs, eps):
    v = horseshoes(p, stream_dir(aero['alpha'], aero['beta']))
    c = collocation(p)
    w = influence(c, v, eps)
    aic = np.einsum('ijk,ik->ij', w, n)
    rhs = np.einsum('ik,ik->i', body_velocity(c, aero, np.array(refs['gcenter'], float)), n)
    return v, c, aic, rhs


def panel_loads(v, n, area, gamma, aero, refs, eps):
    """Panelwise quantities from the circulation"""
    mid = 0.5*(v[:, 1] + v[:, 2])
    w = np.einsum('ijk,j->ik', influence(mid, v, eps), gamma)
    rel = w - body_velocity(mid, aero, np.array(refs['gcenter'], float))
    f = aero['density']*gamma[:, None]*np.cross(rel, v[:, 2] - v[:, 1])
    q = 0.5*aero['density']*aero['airspeed']**2
    cp = np.einsum('ik,ik->i', f, n)/(q*area)
    return {'mid': mid, 'w': w, 'f': f, 'cp': cp}


def totals(f, mid, aero, refs):
    """Global loads and coefficients from panel forces"""
    F = f.sum(axis=0)
    M = np.cross(mid - np.array(refs['rcenter'], float), f).sum(axis=0)
    W = body_to_wind(aero['alpha'], aero['beta']) @ F
    q = 0.5*aero['density']*aero['airspeed']**2 or 1.0
    S, b, c = float(refs['area']), float(refs['span']), float(refs['chord'])
    forces = dict(x=F[0], y=F[1], z=F[2], D=W[0], C=W[1], L=W[2], l=M[0], m=M[1], n=M[2])
    div = dict(x=S, y=S, z=S, D=S, C=S, L=S, l=S*b, m=S*c, n=S*b)
    coeffs = {k: forces[k]/(q*div[k]) for k in forces}
    return forces, coeffs
