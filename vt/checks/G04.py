"""G04: the symmetry flag adds the exact mirror image of the wing"""

import copy

import numpy as np

from vt import gen, geom, observe, ref
from vt.checks import vlmrun

RULE = ('random wings with symmetry flags 0 to 3, controls, aerofoils, also deformed symmetrically; every mirrored panel is compared with '
        'its original and the defined side with an analysis without the flag; non-trivial: at least one mirrored wing')
ASSUMPTIONS = ['mirrored normals are compared for flags 1 and 2, with controls undeflected or (flag 2) deflected equally']
REQUIRE = {'mirrored panels: 1': 500, 'mirrored panels: 2': 500, 'mirrored panels: 3': 500, 'mirrored normals': 1000,
           'mirrored control panels': 300, 'wings without symmetry': 50, 'against no flag': 60, 'deformed': 20, 'spanwise order': 50}
prepare = observe.prepare


def plan(tier, seed):
    return [{'seed': ['G04', seed, i], 'deform': i % 6 == 5} for i in range(450*vlmrun.TIERS[tier])]


def run_case(spec, mon):
    rng = gen.rng_for(*spec['seed'])
    case = gen.case(rng, aircraft_kw=dict(symmetry=(0, 1, 2, 3), controls=.7, auto_panels=.3))
    for w in case['aircraft']['wings']:
        for c in w['controls']:
            c.pop('deflection_mirror', None)
            if w['symmetry'] in (1, 3):
                c['deflection'] = 0.0
            elif w['symmetry'] == 2 and gen.chance(rng, .5):
                c['deflection_mirror'] = c['deflection']
    if spec['deform']:
        case['deformation'] = gen.deformation(rng, case['aircraft'], mirrored=False)
        for w in case['aircraft']['wings']:
            if w['symmetry']:
                k = geom.AXIS[w['symmetry']]
                flip = [1.]*9
                flip[k] = flip[3 + k] = -1.
                for j in range(3):
                    flip[6 + j] = 1. if j == k else -1.
                case['deformation'][w['uid'] + '_m'] = [[a*b for a, b in zip(r, flip)] for r in case['deformation'][w['uid']]]
        mon.count('deformed')
    o = observe.run_case(case)
    size = np.ptp(o.p.reshape(-1, 3), axis=0).max()
    names = set()
    for w in case['aircraft']['wings']:
        names.add(w['uid'])
        sym = w['symmetry']
        orig = [e for e in o.entries if e.wing == w['uid'] and not e.mirror]
        mirr = [e for e in o.entries if e.wing == w['uid'] and e.mirror]
        if not sym:
            mon.count('wings without symmetry')
            mon.require(not mirr, f"wing '{w['uid']}' without symmetry has mirrored panels", 'extra')
            continue
        count = sum(len(e.idx) for e in orig), sum(len(e.idx) for e in mirr)
        mon.require(count[0] == count[1], f"wing '{w['uid']}', symmetry {sym}: {count[0]} panels, {count[1]} mirrored", 'count')
        # Partner of every mirrored panel, within the same segment and control
        for e in mirr:
            cand = np.concatenate([q.idx for q in orig if (q.segment, q.control, q.type) == (e.segment, e.control, e.type)] or [np.zeros(0, int)])
            where = f"wing '{w['uid']}', symmetry {sym}, segment {e.segment}, control {e.control}"
            mon.require(len(cand) > 0, f'{where}: mirrored panels, but no original ones', 'attribution')
            back = geom.unmirror_panels(o.p[e.idx], sym)
            d = np.abs(back[:, None] - o.p[cand][None]).max(axis=(2, 3))
            j = d.argmin(axis=1)
            mon.peak('deviation from mirror image', d.min(axis=1).max()/size)
            mon.require(d.min(axis=1).max() <= 1e-9*size, f'{where}: panel without mirror image ({d.min(axis=1).max():.2e} m off)', 'mirror image')
            mon.require(len(set(j.tolist())) == len(j), f'{where}: two panels have the same mirror image', 'mirror image')
            mon.count(f'mirrored panels: {sym}', len(j))
            mon.count('mirrored control panels', len(j) if e.control else 0)
            if sym in (1, 2):
                want = geom.mirror(o.n[cand[j]], sym)
                off = np.minimum(np.abs(o.n[e.idx] - want).max(axis=1), np.abs(o.n[e.idx] + want).max(axis=1)).max()
                mon.peak(f'normals, symmetry {sym}', off)
                mon.require(off <= 1e-7, f'{where}: normals are not mirror images ({off:.2e})', 'normals')
                mon.count('mirrored normals', len(j))
            mon.require(np.abs(o.a[e.idx] - o.a[cand[j]]).max() <= 1e-9*o.a.max(), f'{where}: areas differ', 'areas')
        # Leading edge first, spanwise order in the global sense (flags 1 and 2)
        if sym in (1, 2):
            pm, po = o.p[np.concatenate([e.idx for e in mirr])], o.p[np.concatenate([e.idx for e in orig])]
            mon.require((pm[:, 3, 0] + pm[:, 2, 0] > pm[:, 0, 0] + pm[:, 1, 0]).all() or spec['deform'],
                        f"wing '{w['uid']}': mirrored panels do not begin at the leading edge", 'order')
            if sym == 2:
                so, sm = np.sign((po[:, 1] - po[:, 0])[:, 1]), np.sign((pm[:, 1] - pm[:, 0])[:, 1])
                along = po[:, 1] - po[:, 0]
                if not spec['deform'] and (np.abs(along[:, 1]) > .3*np.linalg.norm(along, axis=1)).all():
                    mon.count('spanwise order')
                    mon.require((so == so[0]).all() and (sm == so[0]).all(), f"wing '{w['uid']}': mirrored panels are ordered in the other spanwise sense", 'order')
    mon.require({e.wing for e in o.entries} == names, 'wings in the lattice', 'extra')

    if any(w['symmetry'] for w in case['aircraft']['wings']):
        mon.nontrivial(case)
        if gen.chance(rng, .4):
            other = copy.deepcopy(case)
            for w in other['aircraft']['wings']:
                w['symmetry'] = 0
            if spec['deform']:
                other['deformation'] = {k: v for k, v in other['deformation'].items() if not k.endswith('_m')}
            o2 = observe.run_case(other)
            first = [e for e in o.entries if not e.mirror]
            mon.require([(e.wing, e.segment, e.control, e.type, e.num_c) for e in first] ==
                        [(e.wing, e.segment, e.control, e.type, e.num_c) for e in o2.entries], 'the flag changes the defined side', 'defined side')
            k = np.concatenate([e.idx for e in first])
            mon.require(np.abs(o.p[k] - o2.p).max() <= 1e-12*size and np.abs(o.n[k] - o2.n).max() <= 1e-12,
                        'the symmetry flag changes panels or normals of the defined side', 'defined side')
            mon.count('against no flag')
    mon.sample = {**vlmrun.summary(case, o)}
