"""A04: global loads and coefficients are the sums of the panel loads"""

import numpy as np

from vt import observe, ref
from vt.checks import vlmrun

RULE = ('random aircraft, flight states and reference values (all different from each other); totals are recomputed from the '
        'reported panel forces; non-trivial: non-zero total force')
ASSUMPTIONS = ['panel forces as reported (they are checked by A03)']
REQUIRE = {'comparisons': 4000, 'cases with side slip': 20, 'cases with moment reference away from the centre of gravity': 20}
prepare = observe.prepare


def plan(tier, seed):
    return vlmrun.specs('A04', seed, 600*vlmrun.TIERS[tier])


def run_case(spec, mon):
    case = vlmrun.make(spec)
    o = observe.run_case(case)
    aero, refs = case['state']['aero'], case['aircraft']['refs']
    mid = ref.horseshoes(o.p, np.zeros(3))[:, 1:3].mean(axis=1)
    forces, coeffs = ref.totals(o.f, mid, aero, refs)
    fscale = np.linalg.norm(o.f, axis=1).sum()
    arm = np.linalg.norm(mid - np.array(refs['rcenter'], float), axis=1)
    mscale = (np.linalg.norm(o.f, axis=1)*arm).sum()
    q = 0.5*aero['density']*aero['airspeed']**2
    lengths = {'l': refs['span'], 'm': refs['chord'], 'n': refs['span']}
    for k in observe.GLOBAL_KEYS:
        scale = mscale if k in 'lmn' else fscale
        rel = abs(o.forces[k] - forces[k])/scale
        mon.peak('load deviation', rel)
        mon.count('comparisons', 2)
        mon.require(rel <= 1e-10, f"total load '{k}' is {o.forces[k]:.9e}, the panels add up to {forces[k]:.9e}", 'load')
        rel = abs(o.coeffs[k] - coeffs[k])/(scale/q/refs['area']/lengths.get(k, 1.0))
        mon.require(rel <= 1e-10, f"coefficient '{k}' is {o.coeffs[k]:.9e}, expected {coeffs[k]:.9e}", 'coefficient')
    res = o.state.results
    names = {'Fx': 'x', 'Fy': 'y', 'Fz': 'z', 'FD': 'D', 'FC': 'C', 'FL': 'L', 'Mx': 'l', 'My': 'm', 'Mz': 'n'}
    for k, g in names.items():
        mon.require(list(res[k]) == [o.forces[g]], f"aeroperformance result '{k}' {res[k]} differs from the total load {o.forces[g]!r}", 'map')
    names = {'Cx': 'x', 'Cy': 'y', 'Cz': 'z', 'CD': 'D', 'CC': 'C', 'CL': 'L', 'Cl': 'l', 'Cm': 'm', 'Cn': 'n'}
    for k, g in names.items():
        mon.require(list(res[k]) == [o.coeffs[g]], f"aeroperformance result '{k}' {res[k]} differs from the coefficient {o.coeffs[g]!r}", 'map')
    mon.count('cases with side slip', aero['beta'] != 0)
    mon.count('cases with moment reference away from the centre of gravity', refs['rcenter'] != refs['gcenter'])
    if fscale > 0:
        mon.nontrivial(case)
    mon.sample = vlmrun.summary(case, o)
