"""Workload shared by the checks that look at single analyses"""

from vt import gen

TIERS = {'quick': 2, 'thorough': 20}

PROFILES = {
    # name: (weight, keyword arguments of gen.case)
    'mixed': (4, dict()),
    'plane': (1, dict(aircraft_kw=dict(twist=False, symmetry=(0, 1, 2, 3)))),
    'deformed': (1, dict(deform=1.0)),
    'single panels': (1, dict(aircraft_kw=dict(auto_panels=0., max_c=1, max_s=1, controls=0.))),
    'fine': (1, dict(aircraft_kw=dict(auto_panels=1., nwings=1), settings_kw=dict(max_c=8, max_s=14))),
    'large rates': (1, dict(aero_kw=dict(), settings_kw=dict())),
    'regularised': (1, dict()),
    'large angles': (1, dict()),
    'large': (0, dict(aircraft_kw=dict(auto_panels=1., nwings=1, symmetry=(0, 2)))),
    'all symmetries': (1, dict(aircraft_kw=dict(symmetry=(0, 1, 2, 3)))),
}


def specs(prop, seed, n, profiles=None):
    names = [k for k, (w, _) in PROFILES.items() for _ in range(w) if profiles is None or k in profiles]
    out = [{'seed': [prop, seed, i], 'profile': names[i % len(names)]} for i in range(n)]
    if profiles is None:
        # A few large lattices, first as they take longest
        for spec in out[:max(2, n//300)]:
            spec['profile'] = 'large'
    return out


def make(spec):
    rng = gen.rng_for(*spec['seed'])
    case = gen.case(rng, **PROFILES[spec['profile']][1])
    aero = case['state']['aero']
    if spec['profile'] == 'large rates':
        for k in ('rate_P', 'rate_Q', 'rate_R'):
            aero[k] = gen.r3(rng.uniform(-20, 20))
    if spec['profile'] == 'regularised':
        case['settings']['_epsilon'] = gen.pick(rng, [1e-3, 1e-2, 0.1, 0.5])
    if spec['profile'] == 'large':
        case['settings'].update(vlm_autopanels_c=int(rng.integers(12, 18)), vlm_autopanels_s=int(rng.integers(30, 45)))
    if spec['profile'] == 'large angles':
        aero['alpha'] = gen.r3(rng.uniform(-60, 60))
        aero['beta'] = gen.r3(rng.uniform(-60, 60))
    return case


def summary(case, o):
    return {'wings': [{'uid': w['uid'], 'symmetry': w['symmetry'], 'segments': len(w['segments']),
                       'controls': [c['uid'] for c in w['controls']]} for w in case['aircraft']['wings']],
            'aero': case['state']['aero'], 'panels': o.n_panels,
            'CL': o.coeffs['L'], 'CD': o.coeffs['D'], 'deformed': 'deformation' in case}
