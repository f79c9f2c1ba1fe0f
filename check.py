#!/opt/venv/bin/python
"""Run the check of one property: check.py ID [--tier quick|thorough] [--seed N] [--replay FILE]"""
import argparse
import os
import sys

ENV = {'PYTHONDONTWRITEBYTECODE': '1', 'MPLBACKEND': 'Agg', 'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1',
       'PYTHONHASHSEED': '0', 'VT_ENV': '1'}


def main():
    if os.environ.get('VT_ENV') != '1' or sys.executable != '/opt/venv/bin/python':
        env = dict(os.environ, **ENV)
        env.setdefault('MPLCONFIGDIR', '/opt/venv/mplconfig')
        os.execve('/opt/venv/bin/python', ['/opt/venv/bin/python', os.path.abspath(__file__), *sys.argv[1:]], env)
    parser = argparse.ArgumentParser()
    parser.add_argument('property')
    parser.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    parser.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    parser.add_argument('--replay')
    parser.add_argument('--cases', type=int, help='run the first cases only (no evidence is written)')
    args = parser.parse_args()

    here = os.path.dirname(os.path.abspath(__file__))
    sys.path.insert(0, here)
    from vt import build, runner
    try:
        code = runner.run_check(args.property, args.tier, args.seed, args.replay, args.cases)
    except build.BuildError as err:
        print(f'BUILD ERROR: {err}', file=sys.stderr)
        code = 3
    sys.stdout.flush()
    os._exit(code)


if __name__ == '__main__':
    main()
