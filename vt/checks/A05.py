"""A05: similarity and invariance laws, checked between pairs of analyses"""

import copy

import numpy as np

from vt import gen, observe, ref
from vt.checks import vlmrun

RULE = ('pairs of analyses of a random aircraft before and after a transformation (density, airspeed, translation, scale, references, '
        'names, order of wings, splitting of wings, moment reference); non-trivial: loads are not zero')
ASSUMPTIONS = ['the finite wake is long compared to the aircraft, so that scaling changes coefficients by less than the tolerance']
KINDS = ('density', 'airspeed', 'translate', 'scale', 'references', 'rename', 'reorder', 'split', 'moment reference', 'scale')
REQUIRE = {f'pairs: {k}': 10 for k in KINDS}
prepare = observe.prepare


def plan(tier, seed):
    return [{'seed': ['A05', seed, i], 'kind': KINDS[i % len(KINDS)]} for i in range(360*vlmrun.TIERS[tier])]


def scales(case, o):
    """Sum of the moduli of all panel forces and moments"""
    mid = o.mid
    f = np.linalg.norm(o.f, axis=1)
    arm = np.linalg.norm(mid - np.array(case['aircraft']['refs']['rcenter'], float), axis=1)
    return f.sum(), (f*arm).sum()


def compare(mon, case, o, new, expected, tol, label, what='forces'):
    fs, ms = scales(case, o)
    ratio = {k: 1.0 for k in observe.GLOBAL_KEYS}
    base = getattr(o, what)
    for k in observe.GLOBAL_KEYS:
        scale = ms if k in 'lmn' else fs
        if what == 'coeffs':
            refs, aero = case['aircraft']['refs'], case['state']['aero']
            scale = scale/(0.5*aero['density']*aero['airspeed']**2*refs['area'])
            scale /= {'l': refs['span'], 'n': refs['span'], 'm': refs['chord']}.get(k, 1.0)
        exp = expected[k]*base[k] if isinstance(expected, dict) else expected*base[k]
        ref_scale = scale*(abs(expected[k]) if isinstance(expected, dict) else abs(expected))
        rel = abs(getattr(new, what)[k] - exp)/(ref_scale or 1.0)
        mon.peak(f'{label}, tolerance {tol:.0e}', rel)
        mon.require(rel <= tol, f"{label}: {what} '{k}' is {getattr(new, what)[k]:.9e}, expected {exp:.9e} "
                    f'({rel:.2e} of the loads)', label)


WAKE = 1e4


def wake_effect(case, o, k):
    """Relative change of the total loads if the wake of length 10 km is measured on an aircraft scaled by 'k'"""
    aero, refs, eps = case['state']['aero'], case['aircraft']['refs'], observe.epsilon(case)
    direction = ref.stream_dir(aero['alpha'], aero['beta'])
    c = ref.collocation(o.p)
    rhs = np.einsum('ik,ik->i', ref.body_velocity(c, aero, np.array(refs['gcenter'], float)), o.n)
    loads = []
    for length in (WAKE, WAKE/k):
        v = ref.horseshoes(o.p, 0*direction)
        v[:, 0] += length*direction
        v[:, 3] += length*direction
        gamma = np.linalg.solve(np.einsum('ijk,ik->ij', ref.influence(c, v, eps), o.n), rhs)
        f = ref.panel_loads(v, o.n, o.a, gamma, aero, refs, eps)['f']
        arm = o.mid - np.array(refs['rcenter'], float)
        loads.append((f.sum(axis=0), np.cross(arm, f).sum(axis=0)))
    fs, ms = scales(case, o)
    return max(np.abs(loads[1][0] - loads[0][0]).max()/(fs or 1.0), np.abs(loads[1][1] - loads[0][1]).max()/(ms or 1.0))


def shift_points(ac, fun):
    for w in ac['wings']:
        for s in w['segments']:
            s['vertices'] = {k: [float(x) for x in fun(np.array(v, float))] for k, v in s['vertices'].items()}


def run_case(spec, mon):
    rng = gen.rng_for(*spec['seed'])
    kind = spec['kind']
    if kind == 'split':
        case = gen.case(rng, aircraft_kw=dict(controls=0.0, auto_panels=0.0, symmetry=(0, 2)))
        if all(len(w['segments']) == 1 for w in case['aircraft']['wings']):
            case['aircraft']['wings'].append(gen.wing(rng, 'extra', [30., 1., 5.], symmetry=2, nseg=3, controls=0., auto_panels=0.))
    else:
        metric = kind in ('translate', 'scale')
        # Camber angles come from numerical differentiation; they are noisy in the last digits (about 1e-5 rad)
        foils = 'sym' if metric and gen.chance(rng, .75) else 'mixed'
        case = gen.case(rng, aircraft_kw=dict(auto_panels=0.3, airfoils=foils), deform=0.2 if not metric and kind != 'rename' else 0.0)
        if metric:
            # With less regularisation rounding errors are amplified on the extension of vortex legs
            case['settings']['_epsilon'] = gen.pick(rng, [1e-6, 1e-5, 1e-4])
        noise = 1e-3 if foils == 'mixed' else 5e-6
    new = copy.deepcopy(case)
    ac, aero = new['aircraft'], new['state']['aero']
    refs = ac['refs']
    o = observe.run_case(case)
    force_ratio, coeff_ratio, tol = 1.0, 1.0, 1e-8
    cond = np.linalg.cond(o.aic) if kind in ('translate', 'scale') else 0
    if cond > 2000:
        # Nearly intersecting surfaces: the noise of the input is amplified without limit
        mon.count('ill-conditioned, not compared')
        return
    if kind in ('translate', 'scale') and foils == 'mixed':
        noise = max(noise, 1e-5*cond)

    if kind == 'density':
        k = float(rng.uniform(.1, 8))
        aero['density'] *= k
        force_ratio = k
    elif kind == 'airspeed':
        k = float(rng.uniform(.1, 4))
        for name in ('airspeed', 'rate_P', 'rate_Q', 'rate_R'):
            aero[name] *= k
        force_ratio = k*k
    elif kind == 'translate':
        d = rng.uniform(-20, 20, 3)
        if any(w['symmetry'] == 2 for w in ac['wings']):
            d[1] = 0.0
        tol = noise
        shift_points(ac, lambda p: p + d)
        for name in ('gcenter', 'rcenter'):
            refs[name] = [float(x) for x in np.array(refs[name]) + d]
    elif kind == 'scale':
        k = float(np.exp(rng.uniform(-1, 2.3)))
        shift_points(ac, lambda p: k*p)
        for name in ('gcenter', 'rcenter'):
            refs[name] = [k*x for x in refs[name]]
        refs['area'] *= k*k
        refs['span'] *= k
        refs['chord'] *= k
        for name in ('rate_P', 'rate_Q', 'rate_R'):
            aero[name] /= k
        force_ratio = {n: k**3 if n in 'lmn' else k**2 for n in observe.GLOBAL_KEYS}
        # The wake has the same finite length (10 km or more) for both
        tol = noise + 3*wake_effect(case, o, k)
    elif kind == 'references':
        ka, kb, kc = (float(x) for x in np.exp(rng.uniform(-1, 1, 3)))
        refs['area'] *= ka
        refs['span'] *= kb
        refs['chord'] *= kc
        coeff_ratio = {n: 1/ka/{'l': kb, 'n': kb, 'm': kc}.get(n, 1.0) for n in observe.GLOBAL_KEYS}
    elif kind == 'rename':
        ac['uid'] = 'other aircraft'
        for i, w in enumerate(ac['wings']):
            names = {s['uid']: f'{i}-{j} segment_m' for j, s in enumerate(w['segments'])}
            w['uid'] = f'Z {i} wing'
            for s in w['segments']:
                s['uid'] = names[s['uid']]
            for j, c in enumerate(w['controls']):
                c['uid'] = f'{len(w["controls"]) - j}.control'
                c['segment_uid'] = {k: names[v] for k, v in c['segment_uid'].items()}
    elif kind == 'reorder':
        order = rng.permutation(len(ac['wings']))
        ac['wings'] = [ac['wings'][i] for i in order]
        if len(order) == 1:
            ac['wings'] = ac['wings'] + [gen.wing(rng, 'late', [40., 3., 8.], controls=0.)]
            case['aircraft']['wings'] = [ac['wings'][1], ac['wings'][0]]
            o = observe.run_case(case)
    elif kind == 'split':
        wings = []
        for w in ac['wings']:
            cut = int(rng.integers(0, len(w['segments'])))
            parts = [w['segments'][:cut], w['segments'][cut:]]
            for j, segs in enumerate(parts):
                if segs:
                    wings.append({**w, 'uid': f"{w['uid']}_{j}", 'segments': segs})
        ac['wings'] = wings
    elif kind == 'moment reference':
        d = rng.uniform(-5, 5, 3)
        refs['rcenter'] = [float(x) for x in np.array(refs['rcenter']) + d]

    o2 = observe.run_case(new)
    mon.count(f'pairs: {kind}')
    if kind == 'moment reference':
        F = np.array([o.forces[k] for k in 'xyz'])
        for k, dm in zip('lmn', np.cross(-d, F)):
            fs, ms = scales(case, o)
            rel = abs(o2.forces[k] - o.forces[k] - dm)/(ms + fs*np.linalg.norm(d))
            mon.require(rel <= 1e-10, f"moment '{k}' about the shifted reference is {o2.forces[k]:.9e}, "
                        f'expected {o.forces[k] + dm:.9e}', kind)
        for k in ('x', 'y', 'z', 'D', 'C', 'L'):
            mon.require(o2.forces[k] == o.forces[k] or abs(o2.forces[k] - o.forces[k]) <= 1e-9*scales(case, o)[0],
                        f"force '{k}' changes with the moment reference", kind)
    else:
        mon.require(o2.n_panels == o.n_panels, f'{kind}: number of panels changes from {o.n_panels} to {o2.n_panels}', kind)
        compare(mon, case, o, o2, force_ratio, tol, kind)
        compare(mon, case, o, o2, coeff_ratio, tol, kind, 'coeffs')
    if np.abs(o.f).max() > 0:
        mon.nontrivial([spec, case])
    mon.sample = {**vlmrun.summary(case, o), 'transformation': kind}
