"""S01: accepted parameter combinations, standard atmosphere, free stream vector"""

import itertools
import json
import math

import numpy as np

from vt import gen, isa, observe, project
from vt.checks import vlmrun
from vt.runner import Violation

RULE = ('all 81 combinations of given, null and absent airspeed, density, mach and altitude, each as numbers and as lists (the '
        'expectation is the documented table), random lists of states over the whole atmosphere, invalid angles, altitudes and list '
        'lengths at random places, and analyses of a random aircraft in a state given by mach and altitude against the same state '
        'given by airspeed and density; non-trivial: the case reached its verdict on acceptance and, if accepted, on all values')
ASSUMPTIONS = ['vt/isa.py: ICAO standard atmosphere written from the tables of ICAO Doc 7488']
REQUIRE = {'combinations': 162, 'accepted': 60, 'rejected': 150, 'altitudes': 100, 'states': 200, 'analyses': 20}
MIN_DISTINCT = 200
prepare = observe.prepare

SPEED = ('airspeed', 'density', 'mach', 'altitude')
VALID = [{'airspeed', 'density'}, {'airspeed', 'altitude'}, {'mach', 'altitude'}]


def plan(tier, seed):
    scale = {'quick': 3, 'thorough': 20}[tier]
    out = [{'kind': 'table', 'combo': list(c), 'n': n, 'seed': [seed, 'S01', *map(ord, ''.join(c)), n]}
           for c in itertools.product(('given', 'null', 'absent'), repeat=4) for n in (0, 1, 3)]
    for kind, n in (('lists', 120), ('lengths', 60), ('angles', 60), ('edges', 30), ('altitude', 30), ('analysis', 40)):
        out += [{'kind': kind, 'seed': [seed, 'S01' + kind, i]} for i in range(n*scale)]
    return out


def random_aero(rng, n, given):
    """n = 0: numbers, otherwise lists with n items"""
    def value(f):
        return f() if n == 0 else [f() for _ in range(n)]
    alt = lambda: round(float(rng.uniform(isa.MIN_ALT, isa.MAX_ALT)), 2) if gen.chance(rng, .5) else round(float(rng.uniform(0, 12000)), 2)
    makers = {'airspeed': lambda: gen.pick(rng, [gen.r3(rng.uniform(1, 300)), int(rng.integers(1, 300))]),
              'density': lambda: gen.r3(rng.uniform(.01, 1.5)), 'mach': lambda: gen.r3(rng.uniform(.05, .9)), 'altitude': alt,
              'alpha': lambda: gen.pick(rng, [gen.r3(rng.uniform(-90, 90)), int(rng.integers(-90, 91))]),
              'beta': lambda: gen.pick(rng, [gen.r3(rng.uniform(-90, 90)), 0]),
              'rate_P': lambda: gen.r3(rng.uniform(-1, 1)), 'rate_Q': lambda: gen.r3(rng.uniform(-1, 1)), 'rate_R': lambda: gen.r3(rng.uniform(-1, 1))}
    keys = [k for k in makers if k in given or k not in SPEED]
    rng.shuffle(keys)
    return {k: value(makers[k]) for k in keys}


def load(aero):
    """Flight state loaded from a state file"""
    import pytornado.fileio as io
    from pytornado.objects.settings import Settings
    with project.scratch() as tmp, project.quiet():
        settings = Settings('job.json', tmp, settings_dict={'aircraft': 'ac.json', 'state': 'st.json'})
        (tmp / 'state' / 'st.json').write_text(json.dumps({'aero': aero}))
        return io.native.state.load(settings)


def attempt(aero):
    try:
        state = load(aero)
        # Taking the states may be where invalid input is noticed
        return state, list(state.iter_states())
    except (MemoryError, OSError):
        raise
    except Exception as err:
        return None, err


def expected_states(aero, n):
    out = []
    for i in range(max(n, 1)):
        get = lambda k: float(aero[k][i] if n else aero[k]) if aero.get(k) is not None else None
        exp = {k: get(k) for k in ('alpha', 'beta', 'rate_P', 'rate_Q', 'rate_R', 'airspeed', 'density')}
        given = {k for k in SPEED if aero.get(k) is not None}
        exact = set(exp)
        if 'altitude' in given:
            rho, a = isa.atmosphere(get('altitude'))
            exp['density'] = rho
            exact.discard('density')
            if 'mach' in given:
                exp['airspeed'] = get('mach')*a
                exact.discard('airspeed')
        al, be = math.radians(exp['alpha']), math.radians(exp['beta'])
        vec = exp['airspeed']*np.array([math.cos(al)*math.cos(be), -math.sin(be), math.sin(al)*math.cos(be)])
        out.append((exp, exact, vec))
    return out


def check_accepted(aero, n, mon):
    state, states = attempt(aero)
    if state is None:
        raise Violation(f'valid flight state {aero} was rejected: {states!r}', 'rejected valid input')
    mon.count('accepted')
    expected = expected_states(aero, n)
    mon.require(len(states) == len(expected), f'{len(states)} flight states instead of {len(expected)} for {aero}', 'number of states')
    for cur, (exp, exact, vec) in zip(states, expected):
        mon.count('states')
        for k, v in exp.items():
            got = float(cur.aero[k])
            if k in exact:
                mon.require(got == v, f"'{k}' is {got!r}, given was {v!r} ({aero})", 'given value changed')
            else:
                mon.count('altitudes')
                rel = abs(got - v)/v
                mon.peak('atmosphere deviation', rel)
                mon.require(rel < 2e-5, f"'{k}' is {got!r}, the standard atmosphere gives {v!r} ({aero})", 'atmosphere')
        fs = np.asarray(cur.free_stream_velocity_vector, float)
        tol = 1e-9 + (2e-5 if 'airspeed' not in exact else 0)
        mon.require(fs.shape == (3,) and np.abs(fs - vec).max() <= tol*exp['airspeed'],
                    f'free stream vector {fs}, expected {vec} ({aero})', 'free stream vector')
    return state, states


def check_rejected(aero, mon, why):
    state, states = attempt(aero)
    mon.count('rejected')
    mon.require(state is None, f'flight state with {why} was accepted: {aero}', 'accepted invalid input')


def run_case(spec, mon):
    rng = gen.rng_for(*spec['seed'])
    kind = spec['kind']
    mon.sample = None
    if kind == 'table':
        combo = dict(zip(SPEED, spec['combo']))
        given = {k for k, v in combo.items() if v == 'given'}
        aero = random_aero(rng, spec['n'], given)
        aero.update({k: None for k, v in combo.items() if v == 'null'})
        mon.count('combinations')
        if given in VALID:
            check_accepted(aero, spec['n'], mon)
        else:
            check_rejected(aero, mon, f'the combination {sorted(given)}')
    elif kind == 'lists':
        aero = random_aero(rng, n := int(rng.integers(1, 7)), gen.pick(rng, VALID))
        check_accepted(aero, n, mon)
    elif kind == 'lengths':
        n = int(rng.integers(2, 5))
        aero = random_aero(rng, n, gen.pick(rng, VALID))
        k = gen.pick(rng, sorted(aero))
        other = gen.pick(rng, [n + 1, n - 1, 0])
        aero[k] = gen.pick(rng, [(aero[k]*2)[:other], aero[k][0]]) if n - 1 != 0 else (aero[k]*2)[:other]
        check_rejected(aero, mon, f"'{k}' of another length")
    elif kind == 'angles':
        n = int(rng.integers(0, 4))
        aero = random_aero(rng, n, gen.pick(rng, VALID))
        k = gen.pick(rng, ['alpha', 'beta'])
        bad = gen.pick(rng, [90.001, -90.001, 91, -95.5, 180, -180, 270, 360, 1e6])
        if n:
            aero[k][int(rng.integers(n))] = bad
        else:
            aero[k] = bad
        check_rejected(aero, mon, f"'{k}' of {bad} degrees")
    elif kind == 'edges':
        n = int(rng.integers(0, 4))
        aero = random_aero(rng, n, gen.pick(rng, VALID))
        for k in ('alpha', 'beta'):
            edge = gen.pick(rng, [90, -90, 90.0, -90.0, 89.999])
            if n:
                aero[k][int(rng.integers(n))] = edge
            else:
                aero[k] = edge
        check_accepted(aero, n, mon)
    elif kind == 'altitude':
        n = int(rng.integers(0, 4))
        aero = random_aero(rng, n, gen.pick(rng, VALID[1:]))
        bad = gen.pick(rng, [-5100., -1e4, 81100., 1e5, 1e7])
        if n:
            aero['altitude'][int(rng.integers(n))] = bad
        else:
            aero['altitude'] = bad
        check_rejected(aero, mon, f'altitude {bad}')
    else:
        analysis(rng, mon)
    mon.nontrivial(spec)
    if kind != 'analysis':
        mon.sample = {'kind': kind, 'aero': aero}


def analysis(rng, mon):
    """The analysis works with the flow conditions of the state"""
    case = gen.case(rng, aircraft_kw=dict(nwings=1), settings_kw=dict(max_c=2, max_s=4))
    aero = case['state']['aero']
    for k in ('airspeed', 'density'):
        del aero[k]
    given = gen.pick(rng, VALID[1:])
    new = random_aero(rng, 0, given)
    aero.update({k: new[k] for k in given})
    for k in ('density', 'mach'):
        if k not in given and gen.chance(rng, .4):
            aero[k] = None
    o = observe.run_case(case)
    (exp, _, vec), = expected_states(aero, 0)
    mon.count('analyses')
    cur = o.state
    for k in ('airspeed', 'density'):
        got = np.asarray(cur.aero[k], float).reshape(-1)
        mon.require(got.shape == (1,) and abs(got[0] - exp[k]) <= 2e-5*exp[k], f"state of the results has '{k}' {got}, expected {exp[k]}", 'state in results')
    other = dict(case, state={'aero': {k: exp[k] for k in exp}})
    o2 = observe.run_case(other)
    scale = np.abs(o2.f).max()
    dev = np.abs(o.f - o2.f).max()/scale
    mon.require(dev < 2e-4, f'panel forces differ by {dev:.1e} from those at the equivalent airspeed and density ({aero})', 'flow conditions')
    mon.sample = dict(vlmrun.summary(case, o), equivalent={k: exp[k] for k in ('airspeed', 'density')})
