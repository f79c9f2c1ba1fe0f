"""F01: result files contain the computed results completely and faithfully"""

import copy
import math
import re

import numpy as np

from vt import gen, isa, observe, project, record

RULE = ('random aircraft, lists of 1 to 6 (sometimes 12) flight states, random combinations of save settings and project names; files are '
        'parsed independently and compared with the returned results, the input and each other; non-trivial: at least one file with '
        'results of a distinct project')
ASSUMPTIONS = ['results of earlier flight states are compared through the sums of the panel forces and the equation system (S02 compares them with single analyses)']
REQUIRE = {'global files': 150, 'panelwise files': 150, 'matrix files': 150, 'aeroperformance files': 80, 'files not requested': 100, 'projects with several states': 60, 'projects without loads': 8, 'projects analysed before': 40}
MIN_DISTINCT = 100
prepare = observe.prepare

GLOBAL = {'x': ('Fx', 'Cx'), 'y': ('Fy', 'Cy'), 'z': ('Fz', 'Cz'), 'D': ('FD', 'CD'), 'C': ('FC', 'CC'), 'L': ('FL', 'CL'),
          'l': ('Mx', 'Cl'), 'm': ('My', 'Cm'), 'n': ('Mz', 'Cn')}
PRIMARY = ('airspeed', 'alpha', 'beta', 'density', 'rate_P', 'rate_Q', 'rate_R')


def plan(tier, seed):
    return [{'seed': [seed, 'F01', i], 'index': i} for i in range({'quick': 360, 'thorough': 4000}[tier])]


def printed(value, x):
    """'value' is x, printed with at least seven significant digits"""
    return np.abs(np.asarray(value) - np.asarray(x)) <= 6e-7*np.abs(x) + 1e-300


def run_case(spec, mon):
    rng = gen.rng_for(*spec['seed'])
    case = gen.case(rng, aircraft_kw=dict(max_c=2, max_s=3), settings_kw=dict(max_c=3, max_s=5), deform=.2)
    n = 12 if spec['index'] % 30 == 7 else int(rng.integers(1, 7))
    if spec['index'] % 90 == 41:
        # More than a hundred
        n = int(rng.integers(101, 115))
        case['aircraft']['wings'] = case['aircraft']['wings'][:1]
        case['aircraft']['wings'][0]['segments'] = case['aircraft']['wings'][0]['segments'][:1]
        case['aircraft']['wings'][0]['controls'] = []
        case.pop('deformation', None)
        mon.count('more than a hundred states')
    scalar = n == 1 and gen.chance(rng, .5)
    states = [gen.flow(rng) for _ in range(n)]
    if gen.chance(rng, .4):
        # Values which are the same in all states, often zero
        for k in ('alpha', 'beta', 'rate_P', 'rate_Q', 'rate_R'):
            if gen.chance(rng, .5):
                value = gen.pick(rng, [0., 0., 2., -1.])
                for s in states:
                    s[k] = value
    if gen.chance(rng, .1):
        # No loads at all: flat wings along the flow
        for w in case['aircraft']['wings']:
            for s in w['segments']:
                v = s['vertices']
                for k, e in (('c', 'b'), ('d', 'a')):
                    v[k] = [v[k][0], v[e][1], v[e][2]]
                s['airfoils'] = {'inner': 'NACA0012', 'outer': 'NACA0006'}
            w['controls'] = []
        case.pop('deformation', None)
        for s in states:
            s.update({k: 0. for k in ('alpha', 'beta', 'rate_P', 'rate_Q', 'rate_R')})
        mon.count('projects without loads')
    if gen.chance(rng, .3):
        for s in states:
            del s['density']
            s['altitude'] = gen.r3(rng.uniform(0, 11000))
    keys = list(states[0])
    case['state'] = {'aero': {k: states[0][k] if scalar else [s[k] for s in states] for k in keys}}
    wanted = {k: gen.chance(rng, .75) for k in record.SAVE_ALL}
    case['settings']['save_results'] = {k: v for k, v in wanted.items() if v or gen.chance(rng, .5)}
    case['name'] = gen.pick(rng, ['job', 'my_project', 'Case-7', 'a b', 'X', 'v1.2', 'A.B.c', 'x.json'])
    with project.scratch() as tmp:
        if gen.chance(rng, .35):
            # The project has been analysed before, with other input
            before = copy.deepcopy(case)
            other = [dict(s, alpha=gen.r3(s['alpha']*.8 + .5), airspeed=gen.r3(s['airspeed']*1.1)) if 'airspeed' in s else dict(s, alpha=gen.r3(s['alpha']*.8 + .5))
                     for s in states[:int(rng.integers(1, n + 1))]]
            before['state'] = {'aero': {k: [s[k] for s in other] for k in other[0]}}
            if gen.chance(rng, .3):
                before['aircraft']['refs']['area'] = gen.r3(1.1*before['aircraft']['refs']['area'])
            observe.run_results(before, tmp)
            mon.count('projects analysed before')
        results = observe.run_results(case, tmp)
        o = observe.observe(results)
        apm = {k: [float(x) for x in v] for k, v in results['state'].results.items()}
        mon.count('projects with several states', n > 1)

        for i in range(n):
            folder = tmp / '_results' / f"{case['name']}_{i:03d}"
            for key, name in (('global', 'global.json'), ('panelwise', 'panelwise.dat'), ('matrix_system', 'matrix.dat')):
                mon.require((folder / name).is_file() == wanted[key], f"{folder.name}/{name} is {'missing' if wanted[key] else 'there without being requested'}", 'presence')
                mon.count('files not requested', not wanted[key])
            last = i == n - 1
            if wanted['global']:
                check_global(folder / 'global.json', case, states[i], apm, i, mon)
                if last:
                    data = record.read_json(folder / 'global.json')
                    mon.require(data['global_forces'] == o.forces and data['global_coeffs'] == o.coeffs,
                                'global.json differs from the returned loads and coefficients', 'global results')
            table = check_panelwise(folder / 'panelwise.dat', o, apm, i, last, mon) if wanted['panelwise'] else None
            if wanted['matrix_system']:
                check_matrix(folder / 'matrix.dat', o, table, last, mon)
        path = tmp / '_results' / f"{case['name']}_aeroperformance.json"
        mon.require(path.is_file() == wanted['aeroperformance'], f"{path.name} is {'missing' if wanted['aeroperformance'] else 'there without being requested'}", 'presence')
        if wanted['aeroperformance']:
            check_map(path, states, apm, n, mon)
        expected = sum(wanted[k] for k in ('global', 'panelwise', 'matrix_system'))*n + wanted['aeroperformance']
        count = sum(p.is_file() for p in (tmp / '_results').rglob('*'))
        mon.require(count == expected, f'{count} result files, expected {expected}', 'number of files')
    if any(wanted.values()):
        mon.nontrivial(case)
    mon.sample = {'name': case['name'], 'states': n, 'save_results': case['settings']['save_results'], 'panels': o.n_panels}


def expected_state(state):
    out = {k: float(v) for k, v in state.items() if k in PRIMARY}
    if 'altitude' in state:
        out['density'] = isa.atmosphere(state['altitude'])[0]
    return out


def same_state(got, want):
    return all(k in got and math.isclose(got[k], v, rel_tol=1e-5 if k == 'density' else 0, abs_tol=0) for k, v in want.items())


def check_global(path, case, state, apm, i, mon):
    data = record.read_json(path)
    mon.count('global files')
    want = expected_state(state)
    mon.require(same_state(data['aero'], want), f"flight state in {path.parent.name}/global.json is {data['aero']}, expected {want}", 'state')
    refs = case['aircraft']['refs']
    for k, v in refs.items():
        mon.require(data['refs'].get(k) == (v if not isinstance(v, list) else [float(x) for x in v]), f"reference '{k}' in the file is {data['refs'].get(k)}, given was {v}", 'refs')
    for g, (force, coeff) in GLOBAL.items():
        for section, name in (('global_forces', force), ('global_coeffs', coeff)):
            got = data[section].get(g)
            mon.require(got == apm[name][i], f"{section} '{g}' in {path.parent.name}/global.json is {got!r}, the result was {apm[name][i]!r}", 'global results')


def check_panelwise(path, o, apm, i, last, mon):
    header, table = record.read_table(path)
    mon.count('panelwise files')
    names = re.findall(r'(\w+) *\[', ' '.join(header))
    mon.require(sorted(names) == sorted(observe.PANEL_KEYS), f'panelwise.dat has the columns {names}', 'columns')
    mon.require(table.shape == (o.n_panels, len(names)), f'panelwise.dat has shape {table.shape} for {o.n_panels} panels', 'rows')
    col = {k: table[:, j] for j, k in enumerate(names)}
    if last:
        for k in names:
            ok = printed(col[k], o.pw[k])
            j = int(np.argmin(ok))
            mon.require(ok.all(), f"panelwise.dat: '{k}' of panel {j} is {col[k][j]!r}, the result was {o.pw[k][j]!r}", 'panelwise results')
    for k, name in (('fx', 'Fx'), ('fy', 'Fy'), ('fz', 'Fz')):
        tol = 1e-6*np.abs(col[k]).sum() + 1e-9*abs(apm[name][i])
        mon.require(abs(col[k].sum() - apm[name][i]) <= tol, f"'{k}' in {path.parent.name}/panelwise.dat adds up to {col[k].sum()}, the total load is {apm[name][i]}", 'wrong flight state')
    return col


def check_matrix(path, o, col, last, mon):
    _, table = record.read_table(path)
    mon.count('matrix files')
    n = o.n_panels
    mon.require(table.shape == (n, n + 1), f'matrix.dat has shape {table.shape} for {n} panels', 'shape')
    if last:
        want = np.concatenate([o.aic, o.rhs.reshape(-1, 1)], axis=1)
        ok = printed(table, want)
        j = np.unravel_index(np.argmin(ok), ok.shape)
        mon.require(ok.all(), f'matrix.dat: entry {tuple(map(int, j))} is {table[j]!r}, the value used was {want[j]!r}', 'matrix values')
    if col is not None:
        # The circulations in the panelwise file of this state solve this system
        a, b = table[:, :n], table[:, n]
        scale = np.abs(a) @ np.abs(col['gamma']) + np.abs(b)
        res = np.abs(a @ col['gamma'] - b)/np.where(scale > 0, scale, 1)
        mon.peak('residual of the printed system', res.max())
        mon.require(res.max() <= 2e-6, f'{path.parent.name}/matrix.dat and panelwise.dat do not belong together (residual {res.max():.1e})', 'wrong flight state')


def check_map(path, states, apm, n, mon):
    data = record.read_json(path)
    mon.count('aeroperformance files')
    for k, v in apm.items():
        mon.require(data.get(k) == v and len(v) == n, f"'{k}' in the aeroperformance file is {data.get(k)}, the results were {v}", 'map')
    for k in PRIMARY + ('altitude', 'mach'):
        want = [expected_state(s).get(k, s.get(k)) for s in states]
        if want[0] is None:
            mon.require(not data.get(k), f"'{k}' in the aeroperformance file is {data.get(k)}, but it was not given", 'map')
            continue
        got = data.get(k)
        ok = isinstance(got, list) and len(got) == n and all(math.isclose(a, b, rel_tol=1e-5 if k == 'density' else 0) for a, b in zip(got, want))
        mon.require(ok, f"'{k}' in the aeroperformance file is {got}, expected {want}", 'map')
