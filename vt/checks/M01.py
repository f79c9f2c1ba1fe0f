"""M01: the native extension is free of memory errors and undefined behaviour"""

import numpy as np

from vt import build, faults, gen, native
from vt.checks import S04
from vt.runner import Violation

RULE = ('random analyses (single panels to hundreds of panels, all symmetry flags, controls, deformation, several flight states, input '
        'faults) run in batches in separate processes: with AddressSanitizer and UndefinedBehaviorSanitizer compiled into the extension '
        '(large redzones, filled heap), with a pattern in uninitialised automatic variables, and with two different fill bytes of '
        'allocated and freed heap memory and under valgrind memcheck; a report, a crash, results which depend on the memory '
        'environment or change after they were returned are violations; non-trivial: distinct completed analysis')
ASSUMPTIONS = ['memory errors inside of NumPy, LAPACK and Python are only seen if they go through malloc or memcpy',
               'uninitialised reads are seen if they influence results (all tiers) or branches (valgrind, few analyses in the quick tier)']
REQUIRE = {'analyses under valgrind': 2, 'sanitized analyses': 60, 'analyses compared': 150, 'sanitized faults': 10, 'analyses while results are kept': 15}
MIN_DISTINCT = 40
CASE_TIMEOUT = 840
BUDGET = {'quick': 700, 'thorough': 6000}
BUILDS = {}


def prepare():
    for kind in ('plain', 'asan', 'pattern'):
        BUILDS[kind] = build.prepare(kind)


def worker_init():
    pass


def plan(tier, seed):
    n, size = {'quick': (8, 16), 'thorough': (40, 30)}[tier]
    specs = []
    for b in range(n):
        batch = []
        for i in range(size):
            kind = ['tiny', 'small', 'medium', 'fault', 'states', 'strips'][i % 6]
            if i == size - 1:
                kind = 'large'
            if i == size - 2 and b < (2 if tier == 'thorough' else 1):
                kind = 'huge'
            batch.append({'kind': kind, 'seed': [seed, 'M01', b, i], 'thorough': tier == 'thorough'})
        specs.append({'mode': 'sanitizers', 'batch': batch})
    n, kinds = {'quick': (1, ['tiny', 'small']), 'thorough': (8, ['tiny', 'small', 'strips', 'tiny', 'states', 'small'])}[tier]
    # The slow ones first
    return [{'mode': 'memcheck', 'batch': [{'kind': kind, 'seed': [seed, 'M01v', b, i]} for i, kind in enumerate(kinds)]}
            for b in range(n)] + specs


def make(spec):
    """The project of a spec"""
    rng = gen.rng_for(*spec['seed'])
    kind = spec['kind']
    if kind == 'tiny':
        case = gen.case(rng, aircraft_kw=dict(nwings=1, max_c=1, max_s=1, nseg=1, controls=.3, auto_panels=0),
                        settings_kw=dict(max_c=1, max_s=1))
    elif kind == 'small':
        case = gen.case(rng, aircraft_kw=dict(max_c=3, max_s=3, symmetry=(0, 1, 2, 3)), deform=.3)
    elif kind == 'medium':
        case = gen.case(rng, aircraft_kw=dict(max_c=5, max_s=6), settings_kw=dict(max_c=5, max_s=10), deform=.2)
    elif kind == 'strips':
        # Very different numbers of panels in chord- and spanwise direction
        case = gen.case(rng, aircraft_kw=dict(nwings=1, auto_panels=0, controls=.5))
        for w in case['aircraft']['wings']:
            for s in w['segments']:
                nc, ns = (int(rng.integers(15, 50)), 1) if gen.chance(rng, .5) else (1, int(rng.integers(15, 50)))
                s['panels'] = {'num_c': nc, 'num_s': ns}
    elif kind == 'states':
        case = gen.case(rng, aircraft_kw=dict(max_c=2, max_s=3), settings_kw=dict(max_c=2, max_s=3))
        a = case['state']['aero']
        n = int(rng.integers(2, 6))
        case['state']['aero'] = {k: [float(f'{v*(1 - .1*j):.6g}') for j in range(n)] for k, v in a.items()}
    elif kind == 'large':
        k = 2 if spec.get('thorough') else 1
        case = gen.case(rng, aircraft_kw=dict(nwings=2, max_c=8, max_s=10*k), settings_kw=dict(max_c=8, max_s=15*k))
        for w in case['aircraft']['wings']:
            for s in w['segments']:
                s['panels'] = {'num_c': int(rng.integers(4, 9)), 'num_s': int(rng.integers(4, 10*k))}
    elif kind == 'huge':
        # More than a thousand (two thousand) panels
        case = gen.case(rng, aircraft_kw=dict(nwings=1, nseg=1, controls=0., symmetry=(0,)), names=0., crowd=0.)
        k = 2 if spec.get('thorough') else 1
        case['aircraft']['wings'][0]['segments'][0]['panels'] = {'num_c': int(rng.integers(17, 20)*k), 'num_s': int(rng.integers(62, 70))}
    else:
        for _ in range(20):
            name = gen.pick(rng, sorted(faults.FAULTS))
            _, case, what = S04.make(rng, name)
            if case is not None and not case.get('truncate'):
                break
        case.pop('truncate', None)
    case['settings']['plot'] = {}
    return case


def last_begun(events):
    begun = [e[1] for e in events if e[0] == 'begin']
    return begun[-1] if begun else None


def excerpt(text):
    lines = text.splitlines()
    for i, line in enumerate(lines):
        if 'ERROR: AddressSanitizer' in line or 'runtime error' in line or 'Assertion' in line:
            return '\n'.join(lines[i:i + 14])
    return '\n'.join(lines[-8:])


def check_process(kind, events, code, err, n, what):
    """The process ran the batch to the end"""
    if 'ERROR: AddressSanitizer' in err and 'c_vlm' in err or 'runtime error' in err:
        raise Violation(f'{what}, analysis {last_begun(events)}: {excerpt(err)}',
                        'memory error' if 'AddressSanitizer' in err else 'undefined behaviour')
    if code < 0 or 'ERROR: AddressSanitizer' in err:
        raise Violation(f'{what}, analysis {last_begun(events)}: process died ({native.describe(code)})\n{excerpt(err)}', 'crash')
    if code != 0 or not events or events[-1][0] != 'end':
        raise RuntimeError(f'{what}: {native.describe(code)}\n{err[-1500:]}')
    for e in events:
        if e[0] == 'changed':
            raise Violation(f'{what}: results of analysis {e[2]} changed while analysis {e[1]} was running', 'results changed')


def outcome(events):
    return {e[1]: e for e in events if e[0] in ('done', 'error')}


def compare(ref, other, what, mon):
    a, b = outcome(ref), outcome(other)
    for i in a:
        if a[i][0] != b[i][0] or (a[i][0] == 'error' and a[i][2] != b[i][2]):
            raise Violation(f'analysis {i}: {a[i][0]} {a[i][2] if a[i][0] == "error" else ""} with the plain build, '
                            f'{b[i][0]} {b[i][2] if b[i][0] == "error" else ""} {what}', 'depends on memory')
        if a[i][0] == 'error':
            continue
        cond = a[i][4]
        for key, fa in a[i][2].items():
            fb = b[i][2][key]
            tol = 1e-11 if key in ('p', 'v', 'c', 'n', 'a', 'bound_leg_midpoints', 'aic', 'rhs', 'info') else 1e-12*max(cond, 1e3)
            if key[:5] in ('load:', 'coef:'):
                scale = max(x[1] for k, x in a[i][2].items() if k[:5] == key[:5])*fa[0]
            else:
                scale = fa[1]*fa[0]
            if key in ('pan:fx', 'pan:fy', 'pan:fz'):
                scale = a[i][2]['pan:fmag'][1]*fa[0]
            if key[:4] in ('load', 'coef'):
                scale *= a[i][3]**.5 + 1
            if fa[0] != fb[0] or fa[3] != fb[3]:
                raise Violation(f'analysis {i}: {key} has {fa} with the plain build and {fb} {what}', 'depends on memory')
            if fa[3] and not (abs(fa[1] - fb[1]) <= tol*scale + 1e-300 and abs(fa[2] - fb[2]) <= tol*scale + 1e-300):
                raise Violation(f'analysis {i}: {key} has {fa} with the plain build and {fb} {what}', 'depends on memory')
            mon.count('assertions')
        mon.count('analyses compared')


def run_case(spec, mon):
    batch = spec['batch']
    if spec['mode'] == 'memcheck':
        return memcheck(batch, mon)
    events, code, err = native.run(BUILDS['asan'], 'asan', batch)
    check_process('asan', events, code, err, len(batch), 'with sanitizers')
    asan = events
    mon.count('analyses while results are kept', sum(e[0] == 'twin' for e in events))
    for i, e in outcome(events).items():
        if e[0] == 'done':
            mon.count('sanitized analyses')
            mon.count('sanitized panels', e[3])
            mon.peak('panels', e[3])
        else:
            mon.count('sanitized faults')
    ref, code, err = native.run(BUILDS['plain'], 'plain', batch, perturb=85)
    check_process('plain', ref, code, err, len(batch), 'with the plain build')
    compare(ref, asan, 'with sanitizers', mon)
    for kind, perturb in (('plain', 170), ('pattern', 0)):
        events, code, err = native.run(BUILDS[kind], kind, batch, perturb=perturb)
        what = f'with the {kind} build and memory filled with {perturb}'
        check_process(kind, events, code, err, len(batch), what)
        compare(ref, events, what, mon)
    for i, e in outcome(ref).items():
        if e[0] == 'done':
            mon.nontrivial([batch[i], e[3]])
            if mon.sample is None and batch[i]['kind'] == 'small':
                mon.sample = {'spec': batch[i], 'panels': e[3], 'arrays': {k: v[0] for k, v in e[2].items() if v[0] > 1}}


def memcheck(batch, mon):
    dest = build.prepare('debug')
    prefix = ['valgrind', '--tool=memcheck', '--error-exitcode=0', '--undef-value-errors=yes', '--num-callers=30', '-q', '--error-limit=no']
    events, code, err = native.run(dest, 'plain', batch, timeout=830, prefix=prefix)
    if code != 0 or not events or events[-1][0] != 'end':
        raise RuntimeError(f'valgrind: {native.describe(code)}\n{err[-1500:]}')
    block = []
    for line in err.splitlines() + ['== ']:
        text = line.split('== ', 1)[-1] if line.startswith('==') else ''
        if text.strip():
            block.append(text)
            continue
        # An error whose innermost frame lies in the extension
        if block and any('c_vlm' in x or 'vlm_' in x for x in block[1:4] if ' at ' in x or ' by ' in x):
            raise Violation('valgrind: ' + '\n'.join(block[:12]), 'memcheck')
        block = []
    for i, e in outcome(events).items():
        mon.count('analyses under valgrind')
        mon.count('assertions')
        if e[0] == 'done':
            mon.nontrivial([batch[i], 'valgrind'])
