"""A07: classical limits and sign conventions of wing theory"""

import numpy as np

from vt import gen, observe
from vt.checks import vlmrun

RULE = ('simple wings of random aspect ratio, sweep, taper, camber, flap size, position and resolution, compared with lifting-line, '
        'lifting-surface and thin-aerofoil theory; non-trivial: lift is not zero')
ASSUMPTIONS = ['tolerances of a few percent, since theory and discretised wing agree only in the limit']
KINDS = ('polar', 'two pi', 'camber', 'flap', 'signs', 'damping')
REQUIRE = {f'cases: {k}': 15 for k in KINDS}
prepare = observe.prepare


def plan(tier, seed):
    return [{'seed': ['A07', seed, i], 'kind': KINDS[i % len(KINDS)]} for i in range(180*vlmrun.TIERS[tier])]


def straight_wing(rng, ar, sweep=0., taper=1., nc=4, ns=12, foil='NACA0000', controls=(), offset=None):
    """Plane wing; sweep and taper about the quarter-chord line"""
    chord = rng.uniform(.5, 2.5)
    half = ar*chord*(1 + taper)/4
    dx = half*np.tan(np.radians(sweep))
    x0, y0, z0 = offset if offset is not None else (rng.uniform(-3, 3), 0., rng.uniform(-3, 3))
    ct = taper*chord
    v = {'a': [x0, y0, z0], 'b': [x0 + .25*chord + dx - .25*ct, y0 + half, z0],
         'c': [x0 + .25*chord + dx + .75*ct, y0 + half, z0], 'd': [x0 + chord, y0, z0]}
    w = {'uid': 'w', 'symmetry': 2, 'segments': [
        {'uid': 's', 'vertices': {k: [float(q) for q in p] for k, p in v.items()}, 'airfoils': {'inner': foil, 'outer': foil},
         'panels': {'num_c': int(nc), 'num_s': int(ns)}}], 'controls': list(controls)}
    area = half*(chord + ct)
    refs = {'area': float(area), 'span': float(2*half), 'chord': float(chord),
            'gcenter': [float(x0), 0., float(z0)], 'rcenter': [float(x0), 0., float(z0)]}
    return w, refs


def run(w, refs, **aero):
    state = dict(airspeed=100., density=1., alpha=0., beta=0., rate_P=0., rate_Q=0., rate_R=0.)
    airfoils = aero.pop('airfoils', None)
    state.update(aero)
    case = {'aircraft': {'uid': 'x', 'refs': refs, 'wings': w if isinstance(w, list) else [w]}, 'state': {'aero': state}, 'settings': {}}
    if airfoils:
        case['airfoils'] = airfoils
    return observe.run_case(case)


def alpha_zero(m, p):
    """Zero-lift angle of a NACA 4-digit camber line (thin-aerofoil theory)"""
    th = np.linspace(0, np.pi, 4001)
    x = .5*(1 - np.cos(th))
    slope = np.where(x < p, 2*m/p**2*(p - x), 2*m/(1 - p)**2*(p - x))
    return -np.trapz(slope*(np.cos(th) - 1), th)/np.pi


def flap(xsi, deflection, mirror, num_c, eta=(0., 1.)):
    return {'uid': 'flap', 'device_type': 'flap', 'deflection': float(deflection), 'deflection_mirror': float(mirror),
            'segment_uid': {'inner': 's', 'outer': 's'},
            'rel_vertices': {'eta_inner': eta[0], 'eta_outer': eta[1], 'xsi_inner': xsi, 'xsi_outer': xsi},
            'rel_hinge_vertices': {'xsi_inner': xsi, 'xsi_outer': xsi}, 'panels': {'num_c': int(num_c)}}


def near(mon, value, target, tol, what):
    mon.require(abs(value - target) <= tol*abs(target), f'{what}: {value:.5g}, theory {target:.5g} (tolerance {100*tol:.0f} %)', what)


def run_case(spec, mon):
    rng = gen.rng_for(*spec['seed'])
    kind = spec['kind']
    sweep = float(rng.uniform(-10, 35))
    taper = float(rng.uniform(.4, 1.))
    nc, ns = int(rng.integers(3, 8)), int(rng.integers(10, 18))
    info = {'kind': kind, 'sweep': sweep, 'taper': taper, 'nc': nc, 'ns': ns}
    if kind == 'polar':
        ar = float(rng.uniform(4, 14))
        if gen.chance(rng, .4):
            sweep = 0.
        w, refs = straight_wing(rng, ar, sweep, taper, nc, ns)
        a1, a2 = rng.uniform(.5, 1.), rng.uniform(2., 3.)
        o1, o2, o3 = run(w, refs, alpha=float(a1)), run(w, refs, alpha=float(a2)), run(w, refs, alpha=-float(a2))
        s1, s2 = o1.coeffs['L']/np.radians(a1), o2.coeffs['L']/np.radians(a2)
        near(mon, s1, s2, .025, 'linear lift curve')
        near(mon, o3.coeffs['L'], -o2.coeffs['L'], 1e-3 if nc else 0, 'antisymmetric lift curve')
        limit = 2*np.pi*ar/(2 + np.sqrt(4 + ar**2*(1 + np.tan(np.radians(sweep))**2)))
        mon.peak('slope deviation', abs(s2/limit - 1))
        near(mon, s2, limit, .09, 'lift-curve slope')
        mon.require(0 < s2 < 2*np.pi, f'lift-curve slope {s2:.3f} outside of (0, 2 pi)', 'lift-curve slope')
        e = o2.coeffs['L']**2/np.pi/ar/o2.coeffs['D']
        mon.require(o2.coeffs['D'] > 0 and .78 < e < 1.15, f'induced drag {o2.coeffs["D"]:.5f}, span efficiency {e:.3f} (AR {ar:.1f})', 'induced drag')
        mon.peak('efficiency deviation', abs(e - 1))
        mon.require(abs(o2.coeffs['C']) < 1e-8, 'side force', 'side force')
        if sweep == 0.:
            xcp = -o2.coeffs['m']*refs['chord']/o2.coeffs['L']/refs['chord']
            mon.peak('cp deviation', abs(xcp - .25))
            mon.require(abs(xcp - .25) < .025, f'centre of pressure at {xcp:.4f} of the chord', 'centre of pressure')
        info.update(aspect_ratio=ar, slope=s2, efficiency=e)
    elif kind == 'two pi':
        ar = float(rng.uniform(40, 200))
        w, refs = straight_wing(rng, ar, 0., taper, nc, ns)
        o = run(w, refs, alpha=2.)
        slope = o.coeffs['L']/np.radians(2)
        near(mon, slope, 2*np.pi*ar/(ar + 2), .035, 'two-dimensional limit')
        info.update(aspect_ratio=ar, slope=slope)
    elif kind == 'camber':
        m, p = round(float(rng.uniform(.01, .05)), 3), round(float(rng.uniform(.3, .6)), 2)
        w, refs = straight_wing(rng, float(rng.uniform(40, 80)), 0., 1., nc + 4, ns, foil='airfoils/blade.test')
        foils = {'blade.test': gen.blade_file(m, p, .12, 81)}
        o0, o1 = run(w, refs, airfoils=foils), run(w, refs, alpha=2., airfoils=foils)
        slope = (o1.coeffs['L'] - o0.coeffs['L'])/np.radians(2)
        a0 = -o0.coeffs['L']/slope
        # The test is on the magnitude and the sign: positive camber gives positive lift
        mon.peak('zero-lift deviation', abs(a0/alpha_zero(m, p) - 1))
        near(mon, a0, -abs(alpha_zero(m, p)), .06, 'zero-lift angle')
        info.update(camber=m, position=p, alpha_zero=a0)
    elif kind == 'flap':
        size = float(rng.uniform(.15, .4))
        nf = int(rng.integers(4, 8))
        w, refs = straight_wing(rng, float(rng.uniform(30, 60)), 0., 1., nc + 6, ns, controls=[flap(round(1 - size, 5), 2., 2., nf)])
        o0 = run(w, refs)
        w['controls'][0].update(deflection=0., deflection_mirror=0.)
        o1 = run(w, refs, alpha=2.)
        th = np.arccos(1 - 2*(1 - size))
        tau = 1 - (th - np.sin(th))/np.pi
        got = o0.coeffs['L']/o1.coeffs['L']
        mon.peak('flap deviation', abs(got/tau - 1))
        near(mon, got, tau, .08, 'flap effectiveness')
        info.update(flap=size, effectiveness=got)
    elif kind == 'signs':
        w, refs = straight_wing(rng, float(rng.uniform(4, 10)), sweep, taper, nc, ns)
        base = run(w, refs, alpha=1.)
        mon.require(base.coeffs['L'] > 0 and base.forces['z'] > 0 and base.forces['L'] > 0, 'positive alpha does not lift', 'sign of lift')
        # Lift per area opposes a nose-up moment about a point ahead of the wing
        ahead = dict(refs, rcenter=[refs['rcenter'][0] - 5, 0., refs['rcenter'][2]])
        mon.require(run(w, ahead, alpha=1.).coeffs['m'] < 0, 'lift behind the reference point does not pitch down', 'sign of pitch')
        lo = dict(refs, gcenter=[refs['gcenter'][0] - 10, 0., refs['gcenter'][2]])
        q = run(w, lo, rate_Q=.5)
        mon.require(q.coeffs['L'] > 0, 'pitching up does not lift a wing behind the centre of gravity', 'sign of pitch rate')
        c = flap(.7, 3., 3., 2, (.2, .8))
        both = run({**w, 'controls': [c]}, refs)
        mon.require(both.coeffs['L'] > 0, 'flaps down do not lift', 'sign of flaps')
        right = run({**w, 'controls': [flap(.7, 3., -3., 2, (.4, .9))]}, refs)
        mon.require(abs(right.coeffs['L']) < .2*abs(both.coeffs['L']), 'antisymmetric flaps lift', 'sign of flaps')
        mon.require(np.sign(right.forces['l']) == np.sign(np.cross([0, 1., 0], [0, 0, 1.])[0]),
                    'right flap down, left flap up does not lift the right wing', 'sign of flaps')
        fin, _ = straight_wing(rng, 4., 20., .7, 3, 6)
        f = {'uid': 'fin', 'symmetry': 0, 'controls': [], 'segments': [
            {'uid': 'f', 'vertices': {'a': [10., 0., 1.], 'b': [11., 0., 4.], 'c': [12., 0., 4.], 'd': [12., 0., 1.]},
             'airfoils': {'inner': 'NACA0000', 'outer': 'NACA0000'}, 'panels': {'num_c': 3, 'num_s': 6}}]}
        side = run([f], refs, beta=3.)
        mon.require(side.forces['y'] < 0, f'side slip from the right pushes the fin to the right ({side.forces["y"]:.3f} N)', 'sign of side force')
        mon.require(abs(side.forces['z']) < .2*abs(side.forces['y']), 'fin lifts', 'sign of side force')
    elif kind == 'damping':
        w, refs = straight_wing(rng, float(rng.uniform(5, 12)), sweep, taper, nc, ns)
        rate = float(rng.uniform(.05, .5))
        o = run(w, refs, rate_P=rate)
        mon.require(abs(o.coeffs['L']) < 1e-6*max(1, abs(o.coeffs['l'])) + 1e-8, 'rolling lifts', 'damping')
        # Roll: moment about +x (aft) opposes the rotation vector (P, Q, R) used by the boundary condition
        mon.require(o.forces['l']*rate < 0, f'roll rate {rate:.2f} gives rolling moment {o.forces["l"]:.1f}', 'roll damping')
        # Strip theory: Clp = -slope/12 for rectangular wings without induction, always less than that
        clp = o.coeffs['l']/(rate*refs['span']/2/100.)
        slope = run(w, refs, alpha=1.).coeffs['L']/np.radians(1)
        mon.peak('roll damping', abs(clp))
        mon.require(.04*slope < abs(clp) < .13*slope, f'roll damping derivative {clp:.3f}, lift-curve slope {slope:.3f}', 'roll damping')
        info.update(clp=clp, slope=slope)
    mon.count(f'cases: {kind}')
    mon.nontrivial(info)
    mon.sample = info
