"""
Runs a batch of analyses in an own process, with a given build of the code under
test and a given memory environment, and reports what the analyses returned.

usage: native.py BUILD_DIRECTORY < list of specs (JSON) > one line per event (JSON)
"""

import contextlib
import copy
import gc
import json
import os
import signal
import subprocess
import sys
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
PYTHON = '/opt/venv/bin/python'
ASAN_EXIT, UBSAN_EXIT = 98, 97


def main():
    dest, specs = sys.argv[1], json.load(sys.stdin)
    out = os.fdopen(os.dup(1), 'w')
    sys.path[:0] = [str(VERIF), os.path.join(dest, 'lib')]
    import importlib
    import numpy as np
    from vt import project

    def say(*event):
        out.write(json.dumps(event) + '\n')
        out.flush()

    def summary(res):
        lat, vlm = res['lattice'], res['vlmdata']
        data = {k: np.asarray(getattr(lat, k), float).reshape(-1) for k in ('p', 'v', 'c', 'n', 'a', 'bound_leg_midpoints')}
        data['aic'] = np.asarray(vlm.matrix_downwash, float).reshape(-1)
        data['rhs'] = np.asarray(vlm.array_rhs, float).reshape(-1)
        data.update({'pan:' + k: np.asarray(v, float).reshape(-1) for k, v in vlm.panelwise.items()})
        data.update({'load:' + k: np.asarray([v], float) for k, v in vlm.forces.items()})
        data.update({'coef:' + k: np.asarray([v], float) for k, v in vlm.coeffs.items()})
        data['info'] = np.asarray([float(lat.info[k]) for k in sorted(lat.info)])
        return data

    def features(data):
        """Few numbers characterising an array, sensitive to every element"""
        out = {}
        for k, x in data.items():
            w = np.cos(np.arange(len(x))*1.2345 + .5)
            out[k] = [len(x), float(np.abs(x).max()) if len(x) else 0.0, float(x @ w) if len(x) else 0.0,
                      bool(np.isfinite(x).all())]
        return out

    make = importlib.import_module('vt.checks.M01').make
    kept = []
    say('start', sys.version.split()[0])
    for i, spec in enumerate(specs):
        say('begin', i)
        case = make(spec)
        try:
            with project.scratch() as tmp:
                res = project.run_project(tmp, **case)
            feats = features(summary(res))
            # Results of earlier analyses stay valid while later ones run
            kept.append((i, feats, res))
            if i % 3 == 0:
                # Another analysis with arrays of the same size
                twin = copy.deepcopy(case)
                aero = twin['state']['aero']
                aero['alpha'] = [.5*a + 1. for a in aero['alpha']] if isinstance(aero['alpha'], list) else .5*aero['alpha'] + 1.
                with project.scratch() as tmp, contextlib.suppress(Exception):
                    project.run_project(tmp, **twin)
                    say('twin', i)
            say('done', i, feats, len(res['lattice'].p), float(np.linalg.cond(res['vlmdata'].matrix_downwash, 1)))
        except MemoryError:
            raise
        except Exception as err:
            say('error', i, type(err).__name__)
        if len(kept) > 2:
            del kept[0]
        gc.collect()
        for j, feats, res in kept:
            # Compared as text, since values may be NaN
            if json.dumps(features(summary(res))) != json.dumps(feats):
                say('changed', i, j)
    say('end', len(specs))
    out.flush()
    os._exit(0)


def environment(kind, perturb=None):
    env = {k: v for k, v in os.environ.items() if k not in ('LD_PRELOAD', 'MALLOC_PERTURB_')}
    env.update({'PYTHONMALLOC': 'malloc', 'PYTHONDONTWRITEBYTECODE': '1', 'MPLBACKEND': 'Agg'})
    if kind == 'asan':
        lib = subprocess.run(['gcc', '-print-file-name=libasan.so'], capture_output=True, text=True).stdout.strip()
        env['LD_PRELOAD'] = os.path.realpath(lib)
        env['ASAN_OPTIONS'] = (f'detect_leaks=0:halt_on_error=1:exitcode={ASAN_EXIT}:redzone=1024:max_redzone=2048:'
                               'detect_stack_use_after_return=1:max_malloc_fill_size=1073741824:malloc_fill_byte=203:'
                               'quarantine_size_mb=128:allocator_may_return_null=1:handle_segv=1')
        env['UBSAN_OPTIONS'] = f'halt_on_error=1:print_stacktrace=1:exitcode={UBSAN_EXIT}'
    elif perturb:
        env['MALLOC_PERTURB_'] = str(perturb)
    return env


def run(dest, kind, specs, perturb=None, timeout=300, prefix=()):
    """(events, exit code, stderr)"""
    proc = subprocess.run([*prefix, PYTHON, str(Path(__file__).resolve()), str(dest)], input=json.dumps(specs),
                          capture_output=True, text=True, env=environment(kind, perturb), timeout=timeout)
    events = [json.loads(line) for line in proc.stdout.splitlines() if line.startswith('[')]
    return events, proc.returncode, proc.stderr


def describe(code):
    return f'signal {signal.Signals(-code).name}' if code < 0 else f'exit code {code}'


if __name__ == '__main__':
    main()
