"""A02: downwash matrix and right-hand side against an independent evaluation"""

import numpy as np

from vt import observe, ref
from vt.checks import vlmrun

RULE = ('random aircraft, flight states, regularisations and deformations; every matrix element and every element of the '
        'right-hand side is compared; non-trivial: more than one panel and non-zero right-hand side')
ASSUMPTIONS = ['horseshoe end points on the wing are taken from the panels, the far end of the trailing legs as reported '
               'after checking that it lies far downstream along the free stream']
REQUIRE = {'matrix elements': 100000, 'rows': 2000, 'cases with rotation': 20}
prepare = observe.prepare


def plan(tier, seed):
    return vlmrun.specs('A02', seed, 600*vlmrun.TIERS[tier])


def far_points(o, direction):
    """Length of the trailing legs"""
    base = ref.horseshoes(o.p, 0*direction)
    legs = np.concatenate([o.v[:, 0] - base[:, 0], o.v[:, 3] - base[:, 3]])
    return legs


def run_case(spec, mon):
    case = vlmrun.make(spec)
    o = observe.run_case(case)
    aero, refs, eps = case['state']['aero'], case['aircraft']['refs'], observe.epsilon(case)
    direction = ref.stream_dir(aero['alpha'], aero['beta'])

    legs = far_points(o, direction)
    size = np.ptp(o.p.reshape(-1, 3), axis=0).max()
    along = legs @ direction
    across = np.abs(legs - along[:, None]*direction).max()
    mon.require(across <= 1e-7*np.abs(along).max(), f'trailing legs are not aligned with the free stream ({across:.2e} m off)', 'wake')
    mon.require(along.min() > 20*size, f'trailing legs end {along.min():.1f} m downstream of an aircraft of size {size:.1f} m', 'wake')

    v = ref.horseshoes(o.p, 0*direction)
    v[:, 0] = o.v[:, 0]
    v[:, 3] = o.v[:, 3]
    c = ref.collocation(o.p)
    w = ref.influence(c, v, eps)
    aic = np.einsum('ijk,ik->ij', w, o.n)
    scale = np.linalg.norm(w, axis=2)
    diff = np.abs(aic - o.aic)
    rel = diff/(scale + 1e-6*scale.max(axis=1, keepdims=True))
    worst = np.unravel_index(rel.argmax(), rel.shape)
    mon.peak('matrix deviation', rel.max())
    mon.count('matrix elements', aic.size)
    mon.require(rel.max() <= 1e-8, f'element {tuple(int(i) for i in worst)}: {o.aic[worst]:.9e}, expected {aic[worst]:.9e} '
                f'(alpha {aero["alpha"]}, beta {aero["beta"]}, eps {eps})', 'matrix')

    vel = ref.body_velocity(c, aero, np.array(refs['gcenter'], float))
    rhs = np.einsum('ik,ik->i', vel, o.n)
    rel = np.abs(rhs - o.rhs)/np.linalg.norm(vel, axis=1).max()
    mon.peak('right-hand side deviation', rel.max())
    mon.count('rows', len(rhs))
    i = int(rel.argmax())
    mon.require(rel.max() <= 1e-10, f'right-hand side {i}: {o.rhs[i]:.9e}, expected {rhs[i]:.9e} ({aero})', 'rhs')
    mon.count('cases with rotation', any(aero[k] for k in ('rate_P', 'rate_Q', 'rate_R')))
    if len(rhs) > 1 and np.abs(rhs).max() > 0:
        mon.nontrivial(case)
    mon.sample = vlmrun.summary(case, o)
