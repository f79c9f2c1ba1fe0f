"""M02: repeated analyses do not leak memory or references"""

import array
import contextlib
import ctypes
import gc
import io
import logging
import os
import statistics
import sys
import weakref

from vt import faults, fresh, gen, observe, project, record
from vt.checks import S04
from vt.runner import Violation

RULE = ('random analyses (valid, with several flight states, result files, plots; or refused because of a fault or a singular system) '
        'repeated in a pristine process; after every repetition the results are released and Python memory blocks, malloc bytes, open '
        'files, threads, log handlers, figures and the lifetime of lattice and result arrays are observed; a steady growth, an array '
        'which stays alive or has less references than known owners is a violation; non-trivial: distinct repeated analysis')
ASSUMPTIONS = ['growth which does not occur in every one of the last repetitions is taken for a cache',
               'the first repetitions (imports, caches) are not judged',
               'malloc bytes are not judged for analyses with plots (Matplotlib keeps some memory)']
REQUIRE = {'repetitions': 400, 'arrays released': 4000, 'kind: plots': 3, 'kind: refused': 4, 'kind: valid': 10}
MIN_DISTINCT = 25
CASE_TIMEOUT = 300
ZYGOTE = None
prepare = observe.prepare


class MallInfo(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in ('arena', 'ordblks', 'smblks', 'hblks', 'hblkhd', 'usmblks', 'fsmblks',
                                               'uordblks', 'fordblks', 'keepcost')]


def worker_init():
    global ZYGOTE
    ZYGOTE = fresh.Zygote()


def plan(tier, seed):
    scale = {'quick': 1, 'thorough': 8}[tier]
    kinds = ['valid', 'states', 'files', 'plots', 'refused', 'singular', 'valid', 'deformed']
    reps = {'quick': 16, 'thorough': 40}[tier]
    order = sorted((k for k in kinds for _ in range(5*scale)), key=lambda k: k != 'plots')
    return [{'kind': k, 'reps': reps, 'seed': [seed, 'M02', i]} for i, k in enumerate(order)]


def make(spec):
    rng = gen.rng_for(*spec['seed'])
    kind = spec['kind']
    kw = dict(aircraft_kw=dict(max_c=2, max_s=3), settings_kw=dict(max_c=2, max_s=3))
    if kind == 'refused':
        while True:
            _, bad, what = S04.make(rng, gen.pick(rng, sorted(faults.FAULTS)))
            if bad is not None and not bad.get('truncate'):
                return bad
    case = gen.case(rng, deform=1.0 if kind == 'deformed' else .1, **kw)
    if kind == 'states':
        n = int(rng.integers(2, 5))
        case['state']['aero'] = {k: [gen.r3(v*(1 + .1*j)) for j in range(n)] for k, v in case['state']['aero'].items()}
    elif kind == 'files':
        case['settings']['save_results'] = dict(record.SAVE_ALL)
    elif kind == 'plots':
        case['settings']['plot'] = {gen.pick(rng, ['geometry', 'lattice', 'results', 'matrix_downwash']): {'save': True, 'show': False}}
    elif kind == 'singular':
        # Two coincident wings
        import copy
        twin = copy.deepcopy(case['aircraft']['wings'][0])
        twin['uid'] = 'twin'
        for s in twin['segments']:
            s['uid'] += '_twin'
        for c in twin['controls']:
            c['uid'] += '_twin'
            c['segment_uid'] = {k: v + '_twin' for k, v in c['segment_uid'].items()}
        case['aircraft']['wings'].append(twin)
    return case


def arrays(results):
    """Arrays held by the results, by name"""
    import numpy as np
    out = {}
    for owner, obj in (('lattice', results['lattice']), ('vlmdata', results['vlmdata'])):
        for name, value in vars(obj).items():
            if isinstance(value, np.ndarray):
                out[f'{owner}.{name}'] = value
            elif isinstance(value, dict):
                for key, item in value.items():
                    if isinstance(item, np.ndarray):
                        out[f'{owner}.{name}[{key}]'] = item
    return out


def repeat(case, reps):
    """Repeat the analysis and return what was observed after each repetition (in the pristine process)"""
    from pytornado.stdfun.run import standard_run, StdRunArgs
    libc = ctypes.CDLL('libc.so.6')
    libc.mallinfo2.restype = MallInfo
    import matplotlib.pyplot as plt
    names = ('blocks', 'malloc', 'fds', 'threads', 'handlers', 'figures')
    seen = {n: array.array('q', [0]*reps) for n in names}
    problems, released, outcome = [], 0, None
    clear = getattr(sys, '_clear_type_cache', lambda: None)
    sink = io.StringIO()
    with project.scratch() as tmp:
        path = project.write_project(tmp, **case)
        for i in range(reps):
            refs, results, error = [], None, None
            with contextlib.redirect_stdout(sink), contextlib.redirect_stderr(sink):
                try:
                    results = standard_run(StdRunArgs(run=str(path), quiet=True))
                except Exception as err:
                    error = type(err).__name__
            sink.seek(0)
            sink.truncate()
            if i and error != outcome:
                problems.append(('changed', f'repetition {i} ended with {error}, the first one with {outcome}'))
            outcome = error
            if results is not None:
                for name, value in arrays(results).items():
                    # owner, loop variable, argument (the dictionary of arrays is another one)
                    if sys.getrefcount(value) < 3:
                        problems.append(('refcount', f'{name} has {sys.getrefcount(value)} references'))
                    refs.append((name, weakref.ref(value)))
                refs += [('lattice', weakref.ref(results['lattice'])), ('vlmdata', weakref.ref(results['vlmdata']))]
                value = None
            del results
            gc.collect()
            alive = [name for name, ref in refs if ref() is not None]
            released += len(refs) - len(alive)
            if alive and i:
                problems.append(('alive', f'{alive} are not freed after repetition {i}'))
            del refs
            gc.collect()
            clear()
            info = libc.mallinfo2()
            now = (sys.getallocatedblocks(), info.uordblks + info.hblkhd, len(os.listdir('/proc/self/fd')),
                   len(os.listdir('/proc/self/task')), len(logging.getLogger().handlers) + len(logging.getLogger('pytornado').handlers),
                   len(plt.get_fignums()))
            for n, v in zip(names, now):
                seen[n][i] = v
            if len(problems) > 5:
                break
    return {n: list(v) for n, v in seen.items()}, problems, released, outcome


def windows(steps, n):
    return [sum(steps[i:i + n]) for i in range(0, len(steps) - n + 1, n)]


def judge(spec, seen, mon, confirm):
    for name, values in seen.items():
        steps = [b - a for a, b in zip(values[5:], values[6:])]
        if name == 'malloc' and spec['kind'] == 'plots':
            mon.peak('malloc growth per repetition with plots', statistics.median(steps))
            continue
        mon.count('assertions')
        mon.peak(f'{name} growth per repetition', statistics.median(steps))
        if name == 'blocks':
            growing = min(steps) > 0
        elif name == 'malloc':
            # Small leaks are hidden by rounding and caches: growth in every window of repetitions, also after many of them
            growing = min(windows(steps, 3)) > 40
            if growing:
                mon.count('confirmations')
                later = confirm()[name][-49:]
                growing = min(windows([b - a for a, b in zip(later, later[1:])], 4)) > 60
        else:
            growing = values[-1] > values[5] and statistics.median(steps) > 0
        if growing:
            raise Violation(f"{name} grow with every repetition of an analysis ({spec['kind']}): {seen[name]}", 'growth: ' + name)


def run_case(spec, mon):
    case = make(spec)
    seen, problems, released, outcome = ZYGOTE.call(repeat, case, spec['reps'])
    for key, message in problems:
        raise Violation(message, key)
    valid = spec['kind'] not in ('refused', 'singular')
    if valid and outcome is not None:
        raise Violation(f'a valid analysis failed with {outcome}', 'exception')
    judge(spec, seen, mon, lambda: ZYGOTE.call(repeat, case, 90)[0])
    mon.count('repetitions', spec['reps'])
    mon.count('arrays released', released)
    mon.count(f"kind: {spec['kind']}")
    mon.nontrivial([spec['kind'], case['aircraft']])
    mon.sample = {'kind': spec['kind'], 'observed': {k: v[-4:] for k, v in seen.items()}, 'outcome': outcome}
