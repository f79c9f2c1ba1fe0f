"""A01: flow tangency in every collocation point of every completed analysis"""

import numpy as np

from vt import gen, observe, project, ref
from vt.checks import vlmrun
from vt.runner import Violation

RULE = ('random aircraft, flight states, regularisations and deformations; non-trivial: the analysis completed and '
        'some circulation is not zero; singular configurations (coincident surfaces) are added')
ASSUMPTIONS = ['the reference influence coefficients (numpy) are computed from the panel corner points, '
               'normals and circulations that the analysis reports']
REQUIRE = {'panels': 2000, 'singular cases': 4, 'cases with rotation': 20, 'cases with side slip': 20}
TOL = 1e-8
prepare = observe.prepare


def plan(tier, seed):
    n = 600*vlmrun.TIERS[tier]
    out = vlmrun.specs('A01', seed, n)
    out += [{'seed': ['A01s', seed, i], 'singular': i % 3} for i in range(16 if tier == 'quick' else 120)]
    return out


def tangency(case, o, mon):
    aero = case['state']['aero']
    _, c, aic, rhs = ref.system(o.p, o.n, aero, case['aircraft']['refs'], observe.epsilon(case))
    residual = np.abs(aic @ o.gamma - rhs)
    scale = (np.abs(aic) @ np.abs(o.gamma) + np.abs(rhs)).max() or 1.0
    rel = residual.max()/scale
    mon.peak('residual relative to the velocities involved', rel)
    mon.count('panels', o.n_panels)
    mon.peak('panels of a lattice', o.n_panels)
    mon.require(rel <= TOL, f'normal velocity {residual.max():.3e} m/s in the collocation point of panel '
                f'{int(residual.argmax())} ({rel:.2e} of the velocities involved)', 'tangency')


def run_singular(spec, mon):
    rng = gen.rng_for(*spec['seed'])
    case = gen.case(rng, aircraft_kw=dict(nwings=1, symmetry=(0, 2), controls=0., airfoils='sym'))
    wings = case['aircraft']['wings']
    if spec['singular'] == 0:
        # The same wing twice
        twin = {**wings[0], 'uid': 'twin'}
        wings.append(twin)
    elif spec['singular'] == 1:
        # A fin in the plane of symmetry which is mirrored onto itself
        fin = gen.wing(rng, 'fin', [3., 0., 5.], symmetry=0, vertical=True, controls=0., twist=False)
        for s in fin['segments']:
            for v in s['vertices'].values():
                v[1] = 0.0
        fin['symmetry'] = 2
        wings.append(fin)
    else:
        # A flat wing in the plane of its own symmetry
        flat = gen.wing(rng, 'flat', [4., 0., 0.], symmetry=0, controls=0., twist=False, dihedral=False)
        for s in flat['segments']:
            for v in s['vertices'].values():
                v[2] = 0.0
        flat['symmetry'] = 1
        wings.append(flat)
    mon.count('singular cases')
    try:
        with project.scratch() as tmp:
            results = project.run_project(tmp, **case)
    except Exception as err:
        mon.count('singular cases refused')
        mon.nontrivial([spec, type(err).__name__])
        return
    # Rounding can make the matrix regular: then the equations must hold
    try:
        o = observe.observe(results)
    except Violation as err:
        raise Violation(f'coincident surfaces: {err}', 'singular')
    mon.count('singular cases solved')
    mon.nontrivial([spec, 'solved'])
    tangency(case, o, mon)


def run_case(spec, mon):
    if 'singular' in spec:
        return run_singular(spec, mon)
    case = vlmrun.make(spec)
    o = observe.run_case(case)
    tangency(case, o, mon)
    aero = case['state']['aero']
    mon.count('cases with rotation', any(aero[k] for k in ('rate_P', 'rate_Q', 'rate_R')))
    mon.count('cases with side slip', aero['beta'] != 0)
    if np.abs(o.gamma).max() > 0:
        mon.nontrivial(case)
    mon.sample = vlmrun.summary(case, o)
