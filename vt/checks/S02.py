"""S02: batches of flight states equal the states one by one, and no history influences an analysis"""

import copy

import numpy as np

from vt import fresh, gen, observe, project, record
from vt.runner import Violation

RULE = ('random aircraft (with controls, symmetry, deformation) with lists of 2 to 7, sometimes up to 29 flight states: every entry is compared with an '
        'analysis of that entry alone in a pristine process; random histories of 2 to 5 analyses in one process (other aircraft, the '
        'same project again, edited input files, failing analyses in between): every analysis is compared with the same analysis in a '
        'pristine process; non-trivial: entries differ in their loads')
ASSUMPTIONS = ['a process forked before any analysis is pristine', 'one BLAS thread, hence reproducible results']
REQUIRE = {'entries compared': 250, 'history analyses compared': 150, 'failing analyses in histories': 20}
MIN_DISTINCT = 80
CASE_TIMEOUT = 180
BUDGET = {'quick': 240, 'thorough': 5400}
prepare = observe.prepare

KW = dict(aircraft_kw=dict(nwings=None, max_c=2, max_s=3), settings_kw=dict(max_c=3, max_s=4))
TOL = 1e-12
zygote = None


def worker_init():
    global zygote
    zygote = fresh.Zygote()


def plan(tier, seed):
    scale = {'quick': 1, 'thorough': 20}[tier]
    return ([{'kind': 'batch', 'seed': [seed, 'S02b', i]} for i in range(90*scale)] +
            [{'kind': 'history', 'seed': [seed, 'S02h', i]} for i in range(70*scale)])


def make_case(rng):
    case = gen.case(rng, deform=.35, **KW)
    case['settings']['save_results'] = dict(record.SAVE_ALL)
    return case


def state_list(rng, n):
    """Lists of flight states in which neighbouring entries differ in some parameters only"""
    states = []
    for i in range(n):
        new = gen.flow(rng)
        if states and gen.chance(rng, .6):
            base = dict(states[int(rng.integers(len(states)))])
            for k in rng.choice(sorted(new), size=int(rng.integers(0, 3)), replace=False):
                base[str(k)] = new[str(k)]
            new = base
        elif states and gen.chance(rng, .3):
            # Almost the same as another one
            base = dict(states[int(rng.integers(len(states)))])
            k = gen.pick(rng, ['alpha', 'beta', 'airspeed', 'rate_Q', 'density'])
            base[k] += gen.pick(rng, [1e-7, 1e-6, 1e-5, 1e-4, 1e-3])
            new = base
        states.append(new)
    if gen.chance(rng, .3):
        # Another combination of parameters
        for s in states:
            del s['density']
            s['altitude'] = gen.r3(rng.uniform(0, 11000))
            if len(s) % 2:
                pass
        if gen.chance(rng, .5):
            for s in states:
                del s['airspeed']
                s['mach'] = gen.r3(rng.uniform(.1, .8))
    return states


def with_states(case, states):
    return dict(case, state={'aero': {k: [s[k] for s in states] for k in states[0]}})


def run_case(spec, mon):
    rng = gen.rng_for(*spec['seed'])
    if spec['kind'] == 'batch':
        batch(rng, mon)
    else:
        history(rng, mon)


def batch(rng, mon):
    case = make_case(rng)
    n = int(rng.integers(2, 8))
    if gen.chance(rng, .06):
        n = int(rng.integers(10, 30))
        mon.count('long batches')
    states = state_list(rng, n)
    rec = record.run(with_states(case, states))
    singles = {}
    alone = []
    for s in states:
        key = tuple(sorted(s.items()))
        if key not in singles:
            # Half of the entries as number, half as list with one item
            aero = {k: [v] for k, v in s.items()} if gen.chance(rng, .5) else dict(s)
            singles[key] = zygote.call(record.run, dict(case, state={'aero': aero}))
        alone.append(singles[key])
    mon.count('batches')
    for k, values in rec['apm'].items():
        mon.require(len(values) == n, f"aeroperformance results '{k}' have {len(values)} entries for {n} flight states", 'number of entries')
    apm_file = '_results/job_aeroperformance.json'
    expected_files = {f'_results/job_{i:03d}/{f}' for i in range(n) for f in ('global.json', 'panelwise.dat', 'matrix.dat')} | {apm_file}
    mon.require(set(rec['files']) == expected_files, f"result files {sorted(set(rec['files']) ^ expected_files)} are missing or not expected", 'files')
    for i, single in enumerate(alone):
        mon.count('entries compared')
        for k, values in rec['apm'].items():
            d = record.differences(values[i], single['apm'][k][0], tol=TOL)
            mon.require(d is None, f"entry {i} of {n}: '{k}' in the batch and alone differ{d}", 'loads')
        for f in ('global.json', 'panelwise.dat', 'matrix.dat'):
            a, b = rec['files'][f'_results/job_{i:03d}/{f}'], single['files'][f'_results/job_000/{f}']
            d = record.differences(a, b, tol=TOL if f == 'global.json' else 5e-6)
            mon.require(d is None, f'entry {i} of {n}: {f} in the batch and alone differ{d}', f'file {f}')
        for k, values in rec['aero'].items():
            if values is not None and single['aero'][k] is not None:
                d = record.differences(values[i], single['aero'][k][0], tol=TOL)
                mon.require(d is None, f"entry {i} of {n}: '{k}' in the batch and alone differ{d}", 'state')
        table = rec['files'][apm_file]
        for k, values in single['files'][apm_file].items():
            mon.require((len(table[k]) == n) if values else not table[k], f"aeroperformance file has {len(table[k])} values of '{k}'", 'map')
            if values:
                d = record.differences(float(table[k][i]), float(values[0]), tol=TOL)
                mon.require(d is None, f"entry {i} of {n}: '{k}' in the aeroperformance files of batch and single state differ{d}", 'map')
    for k in ('lattice', 'panelwise', 'matrix', 'rhs', 'forces', 'coeffs'):
        d = record.differences(rec[k], alone[-1][k], tol=TOL)
        mon.require(d is None, f'returned {k} and those of the last flight state alone differ{d}', 'returned results')
    if len({tuple(v) for v in zip(*rec['apm'].values())}) > 1:
        mon.nontrivial([case, states])
    mon.sample = {'states': states, 'CL': rec['apm']['CL'], 'deformed': 'deformation' in case,
                  'wings': [w['uid'] for w in case['aircraft']['wings']]}


def edited(rng, case):
    """The same project with edited input files"""
    case = copy.deepcopy(case)
    what = gen.pick(rng, ['state', 'deflection', 'panels', 'refs', 'point', 'nothing', 'deformation', 'airfoil', 'airfoil'])
    if what == 'state':
        case['state'] = {'aero': gen.flow(rng)}
    elif what == 'deflection':
        for w in case['aircraft']['wings']:
            for c in w['controls']:
                c['deflection'] = gen.r3(rng.uniform(-20, 20))
    elif what == 'panels':
        case['settings']['vlm_autopanels_s'] = int(rng.integers(1, 6))
    elif what == 'refs':
        case['aircraft']['refs']['gcenter'] = [gen.r3(v) for v in rng.uniform(-2, 4, 3)]
        case['aircraft']['refs']['area'] = gen.r3(rng.uniform(5, 40))
    elif what == 'point' and 'deformation' not in case:
        w = gen.pick(rng, case['aircraft']['wings'])
        seg = w['segments'][-1]['vertices']
        for k in 'bc':
            seg[k] = [gen.r3(seg[k][0] + .05), seg[k][1], gen.r3(seg[k][2] + .03)]
    elif what == 'airfoil':
        # Files keep their names
        case['airfoils'] = {f: gen.some_blade(rng) for f in case.get('airfoils', {})}
    elif what == 'deformation' and 'deformation' in case:
        case['deformation'] = gen.deformation(rng, case['aircraft'])
    return case, what


def broken(rng, case):
    """A project whose analysis fails, early or late"""
    case = copy.deepcopy(case)
    what = gen.pick(rng, ['airfoil', 'refs', 'state', 'control', 'settings', 'singular'])
    w = case['aircraft']['wings'][-1]
    if what == 'airfoil':
        w['segments'][-1]['airfoils']['outer'] = 'NOT_AN_AIRFOIL'
    elif what == 'refs':
        case['aircraft']['refs']['area'] = -1.0
    elif what == 'state':
        case['state']['aero']['alpha'] = 120.0
    elif what == 'control':
        w['controls'].append({'uid': 'bad', 'device_type': 'flap', 'deflection': 1.0, 'segment_uid': {'inner': 'nowhere', 'outer': 'nowhere'},
                              'rel_vertices': {'eta_inner': .1, 'eta_outer': .9, 'xsi_inner': .8, 'xsi_outer': .8},
                              'rel_hinge_vertices': {'xsi_inner': .8, 'xsi_outer': .8}})
    elif what == 'settings':
        case['settings']['vlm_autopanels_c'] = 'four'
    else:
        # Two identical wings
        twin = copy.deepcopy(w)
        twin['uid'] = 'twin'
        case['aircraft']['wings'].append(twin)
        case.pop('deformation', None)
    return case, what


def history(rng, mon):
    import contextlib
    n = int(rng.integers(2, 6))
    trail = []
    with contextlib.ExitStack() as stack:
        roots = []
        cases = []
        for i in range(n):
            root = None
            if cases and gen.chance(rng, .55):
                j = int(rng.integers(len(cases)))
                case, what = edited(rng, cases[j])
                # In the same directory or in another one with the same file names
                root = roots[j] if gen.chance(rng, .6) else None
            else:
                case, what = make_case(rng), 'new'
            if gen.chance(rng, .3):
                bad, fault = broken(rng, case)
                out = record.attempt(bad)
                trail.append(f'failing ({fault}): {out if isinstance(out, str) else "ran"}')
                mon.count('failing analyses in histories', isinstance(out, str))
            if root is None:
                root = stack.enter_context(project.scratch())
            roots.append(root)
            cases.append(case)
            if gen.chance(rng, .3):
                case = with_states(case, state_list(rng, int(rng.integers(1, 4))))
                cases[-1] = dict(case, state={'aero': gen.flow(rng)})
            before = set(record.files(root))
            rec = record.run(case, root)
            ref = zygote.call(record.run, case)
            trail.append(f'{what}: CL {rec["coeffs"]["L"]:.4f}')
            # Files of earlier analyses stay where they are
            rec['files'] = {k: v for k, v in rec['files'].items() if k in ref['files'] or k not in before}
            fa, fb = rec.pop('files'), ref.pop('files')
            d = record.differences(rec, ref, tol=TOL) or record.differences(fa, fb, tol=5e-6)
            mon.count('history analyses compared')
            mon.require(d is None, f'analysis number {i} of the history {trail} differs from the same analysis in a new process: {d}', 'history')
            mon.nontrivial([case, i])
    mon.sample = {'history': trail}
