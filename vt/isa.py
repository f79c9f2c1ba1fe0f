"""ICAO standard atmosphere (1993), independent of the code under test: constants and layers of ICAO Doc 7488"""

import math

R_EARTH, G0, R, KAPPA, T0, P0 = 6356766.0, 9.80665, 287.05287, 1.4, 288.15, 101325.0
# Base geopotential altitude [m] and temperature gradient [K/m]
LAYERS = [(-5000.0, -6.5e-3), (0.0, -6.5e-3), (11000.0, 0.0), (20000.0, 1.0e-3), (32000.0, 2.8e-3),
          (47000.0, 0.0), (51000.0, -2.8e-3), (71000.0, -2.0e-3)]
MIN_ALT, MAX_ALT = -5003.0, 81019.0


def atmosphere(z):
    """Density and speed of sound at geometric altitude z"""
    h = R_EARTH*z/(R_EARTH + z)
    t, p = T0, P0
    if h <= 0:
        t1 = T0 - 6.5e-3*h
        p1 = P0*(t1/T0)**(G0/(R*6.5e-3))
    else:
        bounds = LAYERS[1:]
        for i, (hb, beta) in enumerate(bounds):
            top = bounds[i + 1][0] if i + 1 < len(bounds) else math.inf
            dh = min(h, top) - hb
            t1 = t + beta*dh
            p1 = p*(math.exp(-G0*dh/(R*t)) if beta == 0 else (t1/t)**(-G0/(R*beta)))
            if h <= top:
                break
            t, p = t1, p1
    return p1/(R*t1), math.sqrt(KAPPA*R*t1)
