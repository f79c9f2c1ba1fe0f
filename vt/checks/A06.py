"""A06: mirror symmetry of geometry, flow and loads"""

import copy

import numpy as np

from vt import gen, observe
from vt.checks import vlmrun

RULE = ('(a) symmetric aircraft in symmetric flow, (b) pairs of mirror-image aircraft in mirror-image flow, (c) wings with symmetry flag '
        'against two explicit wings; non-trivial: loads are not zero')
ASSUMPTIONS = ['explicit mirror images of wings use planar segments, because for twisted segments the hinge and camber axes '
               'are anchored at the inner edge']
KINDS = ('symmetric', 'mirror image', 'explicit')
REQUIRE = {f'cases: {k}': 40 for k in KINDS}
REQUIRE.update({'panel pairs': 2000, 'cases with deflected controls': 30, 'cases with camber': 30})
prepare = observe.prepare
TIGHT, LOOSE = 2e-6, 1e-3
M = np.array([1., -1., 1.])


def plan(tier, seed):
    return [{'seed': ['A06', seed, i], 'kind': KINDS[i % 3]} for i in range(360*vlmrun.TIERS[tier])]


def mirrored_vertices(v):
    m = {k: [x[0], -x[1], x[2]] for k, x in v.items()}
    return {'a': m['b'], 'b': m['a'], 'c': m['d'], 'd': m['c']}


def mirror_control(c, side='deflection'):
    out = copy.deepcopy(c)
    out['segment_uid'] = {'inner': c['segment_uid']['outer'], 'outer': c['segment_uid']['inner']}
    rv, rh = c['rel_vertices'], c['rel_hinge_vertices']
    out['rel_vertices'] = {'eta_inner': round(1 - rv['eta_outer'], 9), 'eta_outer': round(1 - rv['eta_inner'], 9),
                           'xsi_inner': rv['xsi_outer'], 'xsi_outer': rv['xsi_inner']}
    out['rel_hinge_vertices'] = {'xsi_inner': rh['xsi_outer'], 'xsi_outer': rh['xsi_inner']}
    if side == 'mirror':
        defl = c.get('deflection_mirror')
        out['deflection'] = c['deflection'] if defl is None else defl
    out.pop('deflection_mirror', None)
    return out


def mirror_wing(w, side='deflection', uid=None):
    """Explicit mirror image of a wing without symmetry flag"""
    out = copy.deepcopy(w)
    out['uid'] = uid or w['uid']
    out['symmetry'] = 0
    out['segments'] = []
    for s in reversed(w['segments']):
        t = copy.deepcopy(s)
        t['vertices'] = mirrored_vertices(s['vertices'])
        t['airfoils'] = {'inner': s['airfoils']['outer'], 'outer': s['airfoils']['inner']}
        out['segments'].append(t)
    out['controls'] = [mirror_control(c, side) for c in w['controls']]
    return out


def mirror_aircraft(ac):
    out = copy.deepcopy(ac)
    out['wings'] = []
    for w in ac['wings']:
        if w['symmetry'] == 0:
            out['wings'].append(mirror_wing(w))
        else:
            t = copy.deepcopy(w)
            for c in t['controls']:
                left = c.get('deflection_mirror')
                c['deflection'], c['deflection_mirror'] = (c['deflection'] if left is None else left), c['deflection']
            out['wings'].append(t)
    for k in ('gcenter', 'rcenter'):
        out['refs'][k] = [float(x) for x in np.array(ac['refs'][k])*M]
    return out


def partners(o1, o2, mon):
    """Index of the panel of o2 that is the mirror image of each panel of o1"""
    size = np.ptp(o1.p.reshape(-1, 3), axis=0).max()
    mon.require(o1.n_panels == o2.n_panels, f'{o1.n_panels} and {o2.n_panels} panels', 'panels')
    mirrored = o1.p[:, [1, 0, 3, 2]]*M
    d = np.abs(mirrored[:, None] - o2.p[None, :]).max(axis=(2, 3))
    j = d.argmin(axis=1)
    mon.require(d.min(axis=1).max() <= 1e-7*size, f'panel {int(d.min(axis=1).argmax())} has no mirror image', 'panels')
    mon.require(len(set(j.tolist())) == len(j), 'several panels have the same mirror image', 'panels')
    return j


def ill_conditioned(mon, o):
    """Nearly intersecting surfaces amplify the noise of the input without limit"""
    if np.linalg.cond(o.aic) <= 2000:
        return False
    mon.count('ill-conditioned, loads not compared')
    return True


def check_pair(mon, case, o1, o2, what):
    j = partners(o1, o2, mon)
    if ill_conditioned(mon, o1):
        return
    fs = np.linalg.norm(o1.f, axis=1).sum()
    arm = np.linalg.norm(o1.mid - np.array(case['aircraft']['refs']['rcenter'], float), axis=1)
    ms = (np.linalg.norm(o1.f, axis=1)*arm).sum()
    rel = np.abs(o1.f*M - o2.f[j]).max()/fs
    mon.peak(f'panel force, tolerance {mon.tol:.0e}', rel)
    mon.count('panel pairs', len(j))
    mon.require(rel <= mon.tol, f'{what}: panel forces are not mirror images ({rel:.2e} of the total)', 'panel forces')
    for k in observe.GLOBAL_KEYS:
        sign = -1 if k in ('y', 'C', 'l', 'n') else 1
        scale = ms if k in 'lmn' else fs
        rel = abs(o1.forces[k] - sign*o2.forces[k])/scale
        mon.peak(f'global load, tolerance {mon.tol:.0e}', rel)
        mon.require(rel <= mon.tol, f"{what}: load '{k}' is {o1.forces[k]:.6e} and {o2.forces[k]:.6e}", 'global loads')


def run_case(spec, mon):
    rng = gen.rng_for(*spec['seed'])
    kind = spec['kind']
    kw = dict(symmetry=(2,), vertical=0.0) if kind != 'mirror image' else {}
    if kind == 'explicit' and gen.chance(rng, .6):
        kw['symmetry'] = (0, 2)
    exact = dict(twist=False) if kind != 'symmetric' else {}
    # Camber angles come from numerical differentiation; they are noisy in the last digits (about 1e-5 rad)
    foils = 'sym' if gen.chance(rng, .6) else 'mixed'
    case = gen.case(rng, aircraft_kw=dict(auto_panels=0.3, airfoils=foils, **kw, **exact))
    # With less regularisation rounding errors are amplified on the extension of vortex legs
    case['settings']['_epsilon'] = gen.pick(rng, [1e-6, 1e-5, 1e-4])
    mon.tol = TIGHT if foils == 'sym' else LOOSE
    ac, aero = case['aircraft'], case['state']['aero']

    if kind == 'symmetric':
        for w in ac['wings']:
            for c in w['controls']:
                c['deflection_mirror'] = gen.pick(rng, [None, c['deflection']])
        if gen.chance(rng, .4):
            # A fin in the plane of symmetry
            fin = gen.wing(rng, 'fin', [30., 0., 2.], symmetry=0, vertical=True, twist=False, controls=0., airfoils='sym')
            for s in fin['segments']:
                for v in s['vertices'].values():
                    v[1] = 0.0
            ac['wings'].append(fin)
        for k in ('beta', 'rate_P', 'rate_R'):
            aero[k] = 0.0
        ac['refs']['rcenter'][1] = 0.0
        ac['refs']['gcenter'][1] = 0.0
        if gen.chance(rng, .3):
            case['deformation'] = gen.deformation(rng, {'wings': [w for w in ac['wings'] if w['symmetry']]}, mirrored=False)
            for uid, rows in list(case['deformation'].items()):
                # Mirrored field: y displacement and rotations about x and z change sign
                case['deformation'][uid + '_m'] = [[r[0], -r[1], r[2], r[3], -r[4], r[5], -r[6], r[7], -r[8]] for r in rows]
        o = observe.run_case(case)
        fin_panels = set(o.panels(wing='fin').tolist())
        size = np.ptp(o.p.reshape(-1, 3), axis=0).max()
        check_pair_symmetric(mon, case, o, fin_panels, size)
    elif kind == 'mirror image':
        o = observe.run_case(case)
        twin = copy.deepcopy(case)
        twin['aircraft'] = mirror_aircraft(ac)
        for k in ('beta', 'rate_P', 'rate_R'):
            twin['state']['aero'][k] = -aero[k]
        check_pair(mon, case, o, observe.run_case(twin), 'mirror image')
    else:
        o = observe.run_case(case)
        twin = copy.deepcopy(case)
        wings = []
        for w in twin['aircraft']['wings']:
            if w['symmetry'] == 2:
                right = copy.deepcopy(w)
                right['symmetry'] = 0
                for c in right['controls']:
                    c.pop('deflection_mirror', None)
                wings += [right, mirror_wing(w, 'mirror', w['uid'] + ' left')]
            else:
                wings.append(w)
        twin['aircraft']['wings'] = wings
        o2 = observe.run_case(twin)
        fs = np.linalg.norm(o.f, axis=1).sum()
        ms = (np.linalg.norm(o.f, axis=1)*np.linalg.norm(o.mid - np.array(ac['refs']['rcenter'], float), axis=1)).sum()
        mon.require(o.n_panels == o2.n_panels, f'symmetry flag gives {o.n_panels} panels, explicit wings {o2.n_panels}', 'panels')
        d = np.abs(o.p[:, None] - o2.p[None, :]).max(axis=(2, 3))
        size = np.ptp(o.p.reshape(-1, 3), axis=0).max()
        j = d.argmin(axis=1)
        mon.require(d.min(axis=1).max() <= 1e-7*size and len(set(j.tolist())) == len(j),
                    'symmetry flag and explicit wings give different panels', 'panels')
        if ill_conditioned(mon, o):
            return
        rel = np.abs(o.f - o2.f[j]).max()/fs
        mon.peak(f'flag against explicit, tolerance {mon.tol:.0e}', rel)
        mon.count('panel pairs', len(j))
        mon.require(rel <= mon.tol, f'symmetry flag and explicit wings give different panel forces ({rel:.2e})', 'explicit')
        for k in observe.GLOBAL_KEYS:
            rel = abs(o.forces[k] - o2.forces[k])/(ms if k in 'lmn' else fs)
            mon.require(rel <= mon.tol, f"load '{k}' is {o.forces[k]:.6e} with symmetry flag, {o2.forces[k]:.6e} with explicit wings", 'explicit')
    mon.count(f'cases: {kind}')
    mon.count('cases with deflected controls', any(c['deflection'] for w in ac['wings'] for c in w['controls']))
    mon.count('cases with camber', any(not f.upper().startswith('NACA00') for w in ac['wings'] for s in w['segments'] for f in s['airfoils'].values()))
    if np.abs(o.f).max() > 0:
        mon.nontrivial([kind, case])
    mon.sample = {**vlmrun.summary(case, o), 'kind': kind}


def check_pair_symmetric(mon, case, o, fin, size):
    mirrored = o.p[:, [1, 0, 3, 2]]*M
    for i in fin:
        # Panels in the plane of symmetry are their own image
        mirrored[i] = o.p[i]
    d = np.abs(mirrored[:, None] - o.p[None, :]).max(axis=(2, 3))
    j = d.argmin(axis=1)
    mon.require(d.min(axis=1).max() <= 1e-7*size, 'a panel has no mirror image', 'panels')
    fs = np.linalg.norm(o.f, axis=1).sum()
    arm = np.linalg.norm(o.mid - np.array(case['aircraft']['refs']['rcenter'], float), axis=1)
    ms = (np.linalg.norm(o.f, axis=1)*arm).sum()
    if ill_conditioned(mon, o):
        return
    rel = np.abs(o.f*M - o.f[j]).max()/fs
    mon.count('panel pairs', len(j))
    mon.peak(f'panel force, tolerance {mon.tol:.0e}', rel)
    mon.require(rel <= mon.tol, f'loads of mirrored panels are not mirrored ({rel:.2e} of the total)', 'panel forces')
    for k in ('y', 'C', 'l', 'n'):
        rel = abs(o.forces[k])/(ms if k in 'lmn' else fs)
        mon.require(rel <= mon.tol, f"load '{k}' of a symmetric aircraft is {o.forces[k]:.6e} ({rel:.2e} of the loads)", 'global loads')
