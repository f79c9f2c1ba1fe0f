"""S04: ill-defined input is refused before results are written"""

import copy
import json

from vt import faults, gen, observe, project, record
from vt.runner import Violation

RULE = ('random valid projects with one fault of the catalogue (vt/faults.py) injected at a random place; the project without the '
        'fault must run, the project with the fault must end with an error and leave no result or plot file, also when it is repeated '
        'and after the valid project has run; non-trivial: distinct fault at a distinct place')
ASSUMPTIONS = ['faults which are not documented constraints are not in the catalogue']
REQUIRE = {'refused': 350, 'valid projects': 350, 'kinds of faults': 1}
MIN_DISTINCT = 300
prepare = observe.prepare


def plan(tier, seed):
    scale = {'quick': 9, 'thorough': 30}[tier]
    return [{'fault': name, 'seed': [seed, 'S04', i, n]} for n in range(scale) for i, name in enumerate(sorted(faults.FAULTS))]


def make(rng, name):
    """A valid case and the case with the fault"""
    for _ in range(60):
        case = gen.case(rng, aircraft_kw=dict(max_c=2, max_s=3), settings_kw=dict(max_c=2, max_s=3), deform=.15)
        case['settings']['save_results'] = dict(record.SAVE_ALL)
        bad = copy.deepcopy(case)
        what = faults.FAULTS[name](rng, bad)
        if what is not None:
            return case, bad, what
    return None, None, None


def attempt(root, case):
    case = dict(case)
    truncate = case.pop('truncate', None)
    path = project.write_project(root, **case)
    if truncate:
        target = {'aircraft': root / 'aircraft' / 'ac.json', 'state': root / 'state' / 'st.json',
                  'deformation': root / 'deformation' / 'def.json', 'settings': path}[truncate]
        text = target.read_text()
        target.write_text(text[:int(len(text)*.6)])
    try:
        results = project.run(path)
    except (MemoryError,):
        raise
    except Exception as err:
        return err
    return results


def outputs(root):
    return sorted(str(p.relative_to(root)) for top in ('_results', '_plots') for p in (root / top).rglob('*') if p.is_file())


def run_case(spec, mon):
    rng = gen.rng_for(*spec['seed'])
    case, bad, what = make(rng, spec['fault'])
    if case is None:
        mon.count('no place for the fault')
        return
    with project.scratch() as tmp:
        out = attempt(tmp / 'bad', bad)
        if not isinstance(out, Exception):
            raise Violation(f"input with fault '{spec['fault']}' ({what}) was accepted", 'accepted: ' + spec['fault'])
        left = outputs(tmp / 'bad')
        mon.require(not left, f"input with fault '{spec['fault']}' ({what}) was refused ({type(out).__name__}) after writing {left}", 'files left')
        mon.count('refused')
        mon.count(f'refused with {type(out).__name__}')
        # The same project without the fault
        observe.run_results(case, tmp / 'good')
        mon.count('valid projects')
        before = {p: (tmp / 'good' / p).read_bytes() for p in outputs(tmp / 'good')}
        mon.require(len(before) == 4, f'result files of the valid project are {sorted(before)}', 'valid project')
        # A fault in a project with results of an earlier analysis
        again = attempt(tmp / 'good', bad)
        mon.require(isinstance(again, Exception), f"input with fault '{spec['fault']}' ({what}) was accepted in a project which had been valid", 'accepted again')
        after = {p: (tmp / 'good' / p).read_bytes() for p in outputs(tmp / 'good')}
        mon.require(after == before, f"a refused analysis ({spec['fault']}) changed the results of the earlier one", 'results changed')
    mon.nontrivial([spec['fault'], what, case['aircraft']])
    mon.sample = {'fault': spec['fault'], 'place': what, 'error': f'{type(out).__name__}: {str(out).strip()[:150]}'}


def finish(counters, tier):
    counters['kinds of faults'] = len(faults.FAULTS)
