"""G01: the lattice tiles every wing surface exactly once; local geometry of the panels"""

import numpy as np

from vt import gen, geom, observe, ref
from vt.checks import vlmrun

RULE = ('random aircraft (all symmetry flags, up to three segments and several controls per wing, deformed ones for the local '
        'properties); panels are located on the segments of the definition; non-trivial: more than one panel')
ASSUMPTIONS = ['tiling of deformed wings is judged by G05, which maps every corner to the undeformed one']
REQUIRE = {'segment sides tiled': 600, 'strips': 2000, 'panels': 5000, 'unrotated normals': 500, 'deformed': 20, 'mirrored sides': 50, 'plane segments': 50}
prepare = observe.prepare


def plan(tier, seed):
    return vlmrun.specs('G01', seed, 600*vlmrun.TIERS[tier])


def local_properties(case, o, mon):
    aero = case['state']['aero']
    direction = ref.stream_dir(aero['alpha'], aero['beta'])
    size = np.ptp(o.p.reshape(-1, 3), axis=0).max()
    tol = 1e-9*max(size, np.abs(o.p).max())
    v = ref.horseshoes(o.p, direction)
    mon.require(np.abs(o.v[:, 1:3] - v[:, 1:3]).max() <= tol, 'bound vortex is not on the quarter-chord line', 'bound vortex')
    mon.require(np.abs(o.mid - v[:, 1:3].mean(axis=1)).max() <= tol, 'midpoint is not on the bound vortex', 'bound vortex')
    for k, j in ((0, 1), (3, 2)):
        leg = o.v[:, k] - v[:, j]
        along = leg @ direction
        mon.require(along.min() > 20*size, 'trailing legs are short', 'trailing legs')
        off = np.abs(leg - along[:, None]*direction).max()
        mon.require(off <= 1e-8*along.max(), f'trailing legs deviate by {off:.2e} m from the free stream direction', 'trailing legs')
    mon.require(np.abs(o.c - ref.collocation(o.p)).max() <= tol, 'collocation points are not at three quarters of the chord, mid-span', 'collocation')
    mon.require(np.abs(np.linalg.norm(o.n, axis=1) - 1).max() <= 1e-9, 'normals do not have unit length', 'unit normals')
    area, aspect = ref.areas(o.p), ref.aspects(o.p)
    rel = np.abs(o.a - area).max()/area.max()
    mon.peak('area deviation', rel)
    mon.require(rel <= 1e-9, f'panel area is {o.a[np.abs(o.a - area).argmax()]}, expected {area[np.abs(o.a - area).argmax()]}', 'area')
    for name, values in (('area', area), ('aspect', aspect)):
        for stat, fun in (('min', np.min), ('max', np.max), ('avg', np.mean)):
            got = o.info[f'{name}_{stat}']
            mon.require(abs(got - fun(values)) <= 1e-8*abs(fun(values)), f'{stat} panel {name} reported as {got}, panels have {fun(values)}', 'statistics')
    mon.require(o.info['num_panels'] == o.n_panels, 'reported number of panels', 'statistics')


def unrotated(case):
    """Names of wings where normals are not rotated at all"""
    if case['settings'].get('_do_normal_rotations') is False:
        return [w['uid'] for w in case['aircraft']['wings']]
    out = []
    for w in case['aircraft']['wings']:
        flat = all(f.upper().startswith('NACA00') for s in w['segments'] for f in s['airfoils'].values())
        still = all(not c['deflection'] and not (w['symmetry'] and c.get('deflection_mirror')) for c in w['controls'])
        if flat and still:
            out.append(w['uid'])
    return out


def run_case(spec, mon):
    case = vlmrun.make(spec)
    rng = gen.rng_for(*spec['seed'], 'switch')
    if gen.chance(rng, .25):
        case['settings']['_do_normal_rotations'] = False
    o = observe.run_case(case)
    mon.count('panels', o.n_panels)
    mon.peak('panels of a lattice', o.n_panels)

    # ----- Bookkeeping -----
    idx = np.concatenate([e.idx for e in o.entries])
    mon.require(sorted(idx.tolist()) == list(range(o.n_panels)), 'panels are not in exactly one entry of the bookkeeping', 'bookkeeping')
    for (uid, mirror), panels in o.by_wing.items():
        mon.require(sorted(panels) == sorted(o.panels(wing=uid, mirror=mirror).tolist()),
                    f"panels filed under wing '{uid}' (mirror: {mirror}) differ from those of its entries", 'bookkeeping')
    for e in o.entries:
        mon.require(e.num_c == len(e.idx), 'number of chordwise panels of an entry', 'bookkeeping')
        mon.require((e.type == 'segment') == (e.control is None), 'entry without control is not of type segment', 'bookkeeping')

    local_properties(case, o, mon)
    wings = unrotated(case)
    base = ref.base_normals(o.p)
    for uid in wings:
        k = o.panels(wing=uid)
        off = np.abs(o.n[k] - base[k]).max()
        mon.count('unrotated normals', len(k))
        mon.require(off <= 1e-9, f"wing '{uid}': unrotated normals are not perpendicular to the panels ({off:.2e})", 'normals')

    if 'deformation' in case:
        mon.count('deformed')
    else:
        rows = geom.strips(case, o, mon)
        mon.count('mirrored sides', sum(1 for k in rows if k[2]))
        # Areas add up to those of plane segments
        for (uid, suid, mirror), strips in rows.items():
            w = next(w for w in case['aircraft']['wings'] if w['uid'] == uid)
            v = next(s for s in w['segments'] if s['uid'] == suid)['vertices']
            if geom.is_plane(v):
                a, b, c, d = (np.array(v[k], float) for k in 'abcd')
                total = .5*np.linalg.norm(np.cross(c - a, d - b))
                got = sum(o.a[q.idx].sum() for s in strips for q in s.parts)
                mon.require(abs(got - total) <= 1e-8*total, f'panel areas of segment {suid} add up to {got}, segment has {total}', 'area')
                mon.count('plane segments')
    if o.n_panels > 1:
        mon.nontrivial(case)
    mon.sample = vlmrun.summary(case, o)
