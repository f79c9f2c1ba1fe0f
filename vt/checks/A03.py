"""A03: panel loads, induced velocities and pressure coefficients"""

import numpy as np

from vt import observe, ref
from vt.checks import vlmrun

RULE = ('random aircraft, flight states, regularisations and deformations; panel velocities, forces and pressure coefficients '
        'are recomputed from the reported circulations; non-trivial: non-zero forces')
ASSUMPTIONS = ['bound vortex points are taken from the panel corners, areas are the cross product of the mid-chord and mid-span vectors']
REQUIRE = {'panels': 2000, 'cases with rotation': 20, 'skewed panels': 200}
prepare = observe.prepare


def plan(tier, seed):
    return vlmrun.specs('A03', seed, 600*vlmrun.TIERS[tier])


def run_case(spec, mon):
    case = vlmrun.make(spec)
    o = observe.run_case(case)
    aero, refs, eps = case['state']['aero'], case['aircraft']['refs'], observe.epsilon(case)
    v = o.v.copy()
    bound = ref.horseshoes(o.p, np.zeros(3))
    v[:, 1:3] = bound[:, 1:3]
    area = ref.areas(o.p)
    loads = ref.panel_loads(v, o.n, area, o.gamma, aero, refs, eps)

    speed = max(aero['airspeed'], np.abs(ref.body_velocity(loads['mid'], aero, np.array(refs['gcenter'], float))).max())
    # Velocities and forces: relative to the sum of the moduli of all contributions
    part = np.linalg.norm(ref.influence(loads['mid'], v, eps), axis=2) @ np.abs(o.gamma)
    for k, i in (('vx', 0), ('vy', 1), ('vz', 2)):
        rel = np.abs(o.pw[k] - loads['w'][:, i])/(part + 1e-6*speed)
        mon.peak('induced velocity deviation', rel.max())
        j = int(rel.argmax())
        mon.require(rel.max() <= 1e-6, f'panel {j}: {k} = {o.pw[k][j]:.9e}, expected {loads["w"][j, i]:.9e}', 'velocity')
    legs = np.linalg.norm(v[:, 2] - v[:, 1], axis=1)
    fscale = aero['density']*np.abs(o.gamma)*(part + speed)*legs
    fscale = fscale + 1e-9*fscale.max() + 1e-30
    for k, i in (('fx', 0), ('fy', 1), ('fz', 2)):
        rel = np.abs(o.pw[k] - loads['f'][:, i])/fscale
        mon.peak('force deviation', rel.max())
        j = int(rel.argmax())
        mon.require(rel.max() <= 1e-6, f'panel {j}: {k} = {o.pw[k][j]:.9e}, expected {loads["f"][j, i]:.9e}', 'force')
    for k, vec in (('vmag', o.w), ('fmag', o.f)):
        expected = np.linalg.norm(vec, axis=1)
        rel = np.abs(o.pw[k] - expected)/(expected.max() + 1e-30)
        mon.require(rel.max() <= 1e-10, f'{k} is not the norm of its components (panel {int(rel.argmax())})', 'magnitude')
    cscale = fscale/(0.5*aero['density']*aero['airspeed']**2*area)
    rel = np.abs(o.pw['cp'] - loads['cp'])/cscale
    mon.peak('cp deviation', rel.max())
    j = int(rel.argmax())
    mon.require(rel.max() <= 1e-6, f'panel {j}: cp = {o.pw["cp"][j]:.9e}, expected {loads["cp"][j]:.9e}', 'cp')

    span = 0.5*((o.p[:, 1] - o.p[:, 0]) + (o.p[:, 2] - o.p[:, 3]))
    chord = 0.5*((o.p[:, 3] - o.p[:, 0]) + (o.p[:, 2] - o.p[:, 1]))
    cosine = np.einsum('ij,ij->i', span, chord)/np.linalg.norm(span, axis=1)/np.linalg.norm(chord, axis=1)
    mon.count('skewed panels', (np.abs(cosine) > .1).sum())
    mon.count('panels', o.n_panels)
    mon.peak('panels of a lattice', o.n_panels)
    mon.count('cases with rotation', any(aero[k] for k in ('rate_P', 'rate_Q', 'rate_R')))
    if np.abs(o.f).max() > 0:
        mon.nontrivial(case)
    mon.sample = vlmrun.summary(case, o)
