"""F02: only the requested files are written, and nothing outside the project changes"""

import json
import os
import re
import tempfile
from pathlib import Path

from vt import cli, fresh, gen, observe, project
from vt.runner import Violation

RULE = ('random projects with random previous contents (results of other jobs, lookalike directories, links pointing outside, foreign files), random '
        'save and plot settings and command lines, run by the real command-line script in a process of its own as an unprivileged user; oracle: complete '
        'snapshot of the surroundings before and after, audit log of all write accesses; non-trivial: distinct histories with at least one changed file')
ASSUMPTIONS = ['write accesses of the extension module bypassing Python are only seen inside the sandbox directory (snapshots)',
               'temporary files in the directory for temporary files are tolerated if they are removed']
REQUIRE = {'commands': 150, 'runs': 90, 'result files': 150, 'plot files': 60, 'cleanings': 30, 'examples': 15, 'refusals': 25, 'write accesses': 600}
MIN_DISTINCT = 60
CASE_TIMEOUT = 240
prepare = observe.prepare
FOLDERS = ['aircraft', 'airfoils', 'deformation', 'settings', 'state']
RESULT_FILES = {'global': 'global.json', 'panelwise': 'panelwise.dat', 'matrix_system': 'matrix.dat'}
STAMP = r'_\d{4}-\d\d-\d\d_\d\d-\d\d-\d\d-\d{6}\.png'
DB = ['NASA_CRM', 'boxwing', 'bwb', 'd150', 'optimale']


def worker_init():
    global ZYGOTE, SCRIPT
    import pytornado.database.tools  # noqa: F401
    import pytornado.stdfun.setup  # noqa: F401
    import scipy.sparse.csgraph  # noqa: F401
    SCRIPT = cli.script()
    ZYGOTE = fresh.Zygote()


def plan(tier, seed):
    n = {'quick': 216, 'thorough': 4000}[tier]
    return [{'seed': [seed, 'F02', i], 'plots': i % 6 == 0, 'kind': ['run', 'run', 'run', 'example', 'run', 'misuse'][i % 6]} for i in range(n)]


class Sandbox:
    def __init__(self, root, mon):
        self.root, self.mon = Path(root), mon
        for name in ('work', 'home', 'outside'):
            (self.root / name).mkdir()
        (self.root / 'outside' / 'precious.dat').write_text('precious')
        self.log = []

    def call(self, argv, cwd='work'):
        """Run a command; returns (code, exception, stdout, stderr, created, removed, changed, events)"""
        cli.grant(self.root)
        before = cli.snapshot(self.root)
        res = ZYGOTE.call(cli.command, argv, self.root / cwd, self.root / 'home', SCRIPT)
        created, removed, changed = cli.changes(before, cli.snapshot(self.root))
        code, exception, out, err, events = res
        if 'PermissionError' in str(exception):
            # Nothing a valid command does needs more rights
            raise Violation(f'{argv}: {exception}', 'outside')
        self.mon.count('commands')
        self.mon.count('write accesses', len(events))
        self.log.append([argv, code, len(created), len(removed), len(changed)])
        return code, exception, out, err, created, removed, changed, events

    def accesses(self, events, allowed, argv):
        """Every write access inside the sandbox is to an allowed path, none outside"""
        root = os.path.realpath(self.root)
        tolerated = [os.path.realpath(tempfile.gettempdir()), '/dev', os.path.realpath(os.environ.get('MPLCONFIGDIR', '/nonexistent'))]
        for kind, path in events:
            if path == root or path.startswith(root + '/'):
                rel = os.path.relpath(path, root)
                self.mon.require(allowed(rel, kind), f"{argv}: '{kind}' on {rel}", 'write access')
            else:
                self.mon.require(any(path == t or path.startswith(t + '/') for t in tolerated), f"{argv}: '{kind}' on {path}, outside of the project", 'outside')

    def nothing(self, res, argv):
        code, exception, out, err, created, removed, changed, events = res
        self.mon.require(not (created or removed or changed), f'{argv} changed files: created {created[:5]}, removed {removed[:5]}, changed {changed[:5]}', 'changes')
        self.accesses(events, lambda rel, kind: False, argv)


def write(root, rel, text='x'):
    path = Path(root) / rel
    path.parent.mkdir(parents=True, exist_ok=True)
    path.write_text(text)


def previous_contents(rng, sand, proj, name):
    """Foreign files which must survive"""
    keep = [f'{proj}/notes.txt', f'{proj}/_results_old/global.json', f'{proj}/_plots.bak/fig.png', f'{proj}/results/{name}_000/global.json',
            f'{proj}/settings/other.json', f'{proj}/state/other.json', f'{proj}/aircraft/old/ac.json', f'{proj}/_results.zip', f'{proj}/.git/config',
            'work/_results/foreign.txt', 'work/_plots/foreign.png', f'_results/{name}_000/global.json', '_plots/a.png', f'{proj}2/_results/x.dat', f'{proj}2/log.txt',
            'home/.config/x', 'work/log.txt', 'work/aircraft/x.json', f'{proj}/blade.txt', f'{proj}/_pytornado']
    for rel in keep:
        if gen.chance(rng, .6):
            write(sand.root, rel, rel)


def old_output(rng, sand, proj, name):
    """Output of earlier runs"""
    for rel in (f'_results/{name}_000/global.json', f'_results/{name}_007/panelwise.dat', '_results/other_000/global.json', '_results/other_aeroperformance.json',
                f'_results/{name}_aeroperformance.json', f'_plots/{name}_000/cp.png', '_plots/other_001/x.png', '_results/readme.txt', '_results/sub/deep/er.txt', f'_results/{name}_000/notes.txt'):
        if gen.chance(rng, .5):
            write(sand.root / proj, rel, 'old ' + rel)
    if gen.chance(rng, .4):
        link = sand.root / proj / '_results' / 'link'
        link.parent.mkdir(parents=True, exist_ok=True)
        link.symlink_to(sand.root / 'outside')
    if gen.chance(rng, .4):
        link = sand.root / proj / '_plots' / 'precious.png'
        link.parent.mkdir(parents=True, exist_ok=True)
        link.symlink_to(sand.root / 'outside' / 'precious.dat')


def expected_plots(plot, n_states):
    """List of regular expressions of the plot files of one flight state"""
    out = []
    for key, base in (('geometry', ['geometry']), ('lattice', ['lattice']), ('results', ['results_' + k for k in plot.get('results', {}).get('opt') or ['cp']])):
        if plot.get(key, {}).get('save'):
            out += [b + dim + STAMP for b in base for dim in ('2D', '3D')]
    if plot.get('matrix_downwash', {}).get('save'):
        out.append('downwash' + STAMP)
    return out


def make_case(rng, plots):
    case = gen.case(rng, aircraft_kw=dict(nwings=1 + gen.chance(rng, .3), max_c=2, max_s=2, nseg=1 + gen.chance(rng, .5)), settings_kw=dict(max_c=2, max_s=3), deform=.2)
    n = int(rng.integers(1, 3 if plots else 5))
    if n > 1 or gen.chance(rng, .3):
        states = [gen.flow(rng) for _ in range(n)]
        case['state'] = {'aero': {k: [s[k] for s in states] for k in states[0]}}
    s = case['settings']
    if gen.chance(rng, .8):
        s['save_results'] = {k: gen.chance(rng, .5) for k in ('global', 'panelwise', 'aeroperformance', 'matrix_system') if gen.chance(rng, .8)}
    if plots:
        s['plot'] = {}
        for key in ('geometry', 'lattice', 'matrix_downwash', 'results'):
            if gen.chance(rng, .75):
                s['plot'][key] = {'save': gen.chance(rng, .6)}
                if gen.chance(rng, .4):
                    s['plot'][key]['show'] = gen.chance(rng, .5)
        if 'results' in s['plot'] and gen.chance(rng, .6):
            s['plot']['results']['opt'] = [gen.pick(rng, ['cp', 'gamma', 'fz'])]
        if 'lattice' in s['plot'] and gen.chance(rng, .4):
            s['plot']['lattice']['opt'] = ['deformation']
    return case, n


def run_case(spec, mon):
    rng = gen.rng_for(*spec['seed'])
    with project.scratch() as tmp:
        sand = Sandbox(tmp, mon)
        if spec['kind'] == 'example':
            example(rng, sand, mon)
        elif spec['kind'] == 'misuse':
            misuse(rng, sand, mon)
        else:
            runs(rng, sand, mon, spec['plots'])
        if any(x[2] or x[3] for x in sand.log):
            mon.nontrivial(json.dumps([spec['seed'], sand.log], default=str))
        mon.sample = {'commands': [[str(a).replace(str(tmp), '') for a in x[0]] for x in sand.log], 'exit codes': [x[1] for x in sand.log]}


def runs(rng, sand, mon, plots):
    proj = gen.pick(rng, ['proj', 'my project', 'work/proj', 'deep/er/proj'])
    name = gen.pick(rng, ['job', 'my_job', 'a b', 'job.v2'])
    case, n = make_case(rng, plots)
    (sand.root / proj).mkdir(parents=True)
    path = project.write_project(sand.root / proj, name=name, **case)
    for sub in ('airfoils', 'deformation'):
        if not list((sand.root / proj / sub).iterdir()) and gen.chance(rng, .5):
            (sand.root / proj / sub).rmdir()
    if gen.chance(rng, .25):
        new = sand.root / proj / path.name
        path.rename(new)
        if gen.chance(rng, .5):
            path.parent.rmdir()
        path = new
    previous_contents(rng, sand, proj, name)
    old_output(rng, sand, proj, name)
    prefix = proj + '/'

    for _ in range(int(rng.integers(1, 2 if plots else 4))):
        if gen.chance(rng, .3) and (sand.root / proj / '_results').is_dir():
            old_output_again = sand.root / proj / '_results' / 'again.txt'
            old_output_again.write_text('again')
        clean = gen.pick(rng, [None, None, None, '-c', '--clean', '--clean-only'])
        verbosity = gen.pick(rng, [[], [], ['-q'], ['--quiet'], ['-v'], ['-d'], ['--debug'], ['--verbose']])
        cwd = gen.pick(rng, ['work', '.', proj, 'outside'])
        arg = str(path)
        if gen.chance(rng, .6):
            arg = os.path.relpath(path, sand.root / cwd)
        argv = [gen.pick(rng, ['-r', '--run']), arg] + verbosity + ([clean] if clean else [])
        if gen.chance(rng, .3):
            argv = argv[2:] + argv[:2]
        before = cli.snapshot(sand.root)
        code, exception, out, err, created, removed, changed, events = sand.call(argv, cwd)
        mon.count('runs')
        mon.require(code == 0, f'{argv} failed with exit code {code}: {exception or err[-800:]}', 'failed')
        after = cli.snapshot(sand.root)
        mon.count('cleanings', clean is not None)

        # ----- Model of what should be there afterwards -----
        old = {k: v for k, v in before.items() if not (clean and (k.startswith(prefix + '_results/') or k.startswith(prefix + '_plots/') or k in (prefix + '_results', prefix + '_plots')))}
        written = set()
        folders = {prefix + f for f in FOLDERS}
        if clean != '--clean-only':
            written.add(prefix + 'log.txt')
            folders |= {prefix + '_results', prefix + '_plots'}
            for i in range(n):
                for top in ('_results', '_plots'):
                    folders.add(f'{prefix}{top}/{name}_{i:03d}')
                for key, fname in RESULT_FILES.items():
                    if case['settings'].get('save_results', {}).get(key):
                        written.add(f'{prefix}_results/{name}_{i:03d}/{fname}')
            if case['settings'].get('save_results', {}).get('aeroperformance'):
                written.add(f'{prefix}_results/{name}_aeroperformance.json')
        patterns = {i: expected_plots(case['settings'].get('plot', {}), n) for i in range(n)} if clean != '--clean-only' else {}

        # Files which existed before and are not written
        for k, v in old.items():
            if k not in written:
                mon.require(after.get(k) == v, f"{argv}: {k} was {'removed' if k not in after else 'changed'}", 'previous contents')
        if clean:
            for k in before:
                if k not in old and k not in written and k not in folders:
                    mon.require(k not in after, f'{argv}: {k} was not removed', 'clean')
            if clean == '--clean-only':
                for f in ('_results', '_plots'):
                    mon.require(prefix + f not in after, f'{argv}: {f} was not removed', 'clean')
        for k in sorted(written):
            mon.require(after.get(k, ('none',))[0] == 'file', f'{argv}: {k} was not written', 'missing')
            if k in old and k.endswith(('.json', '.dat')):
                text = (sand.root / k).read_text()
                mon.require(not text.startswith('old '), f'{argv}: {k} was not overwritten', 'stale')
            mon.count('result files')
        for k in sorted(folders):
            mon.require(after.get(k, ('none',))[0] == 'dir', f'{argv}: directory {k} is missing', 'missing')
        # Plots: one match per pattern
        new = [k for k in after if k not in old and k not in written and k not in folders]
        for i, pats in patterns.items():
            head = f'{prefix}_plots/{name}_{i:03d}/'
            for pat in pats:
                found = [k for k in new if k.startswith(head) and re.fullmatch(pat, k[len(head):])]
                mon.require(len(found) == 1, f'{argv}: {len(found)} files match {head}{pat}', 'plots')
                mon.require((sand.root / found[0]).read_bytes().startswith(b'\x89PNG'), f'{found[0]} is not a PNG file', 'plots')
                new.remove(found[0])
                mon.count('plot files')
        mon.require(not new, f'{argv} created files nobody asked for: {new[:5]}', 'not requested')

        def allowed(rel, kind):
            if rel == prefix + 'log.txt' or rel in folders and kind == 'os.mkdir':
                return True
            top = (prefix + '_results', prefix + '_plots')
            return rel in top or rel.startswith(tuple(t + '/' for t in top))
        sand.accesses(events, allowed, argv)


def example(rng, sand, mon):
    cwd = gen.pick(rng, ['work', 'deep/er dir'])
    (sand.root / cwd).mkdir(parents=True, exist_ok=True)
    write(sand.root, cwd + '/settings/template.json', 'mine')
    write(sand.root, cwd + '/pytornado.txt', 'mine')
    target = cwd + '/pytornado'
    if gen.chance(rng, .5):
        argv, stem = ['--make-example'], 'template'
    else:
        stem = gen.pick(rng, DB)
        argv = [gen.pick(rng, ['--make-example-from-db', '--mdb']), stem + gen.pick(rng, ['', '.json'])]
    blocked = gen.pick(rng, [None, None, None, None, None, None, 'dir', 'project', 'file', 'link'])
    if blocked == 'dir':
        (sand.root / target).mkdir()
    elif blocked == 'project':
        write(sand.root, target + '/settings/template.json', 'mine')
        write(sand.root, target + '/aircraft/template_aircraft.json', 'mine')
    elif blocked == 'file':
        write(sand.root, target)
    elif blocked == 'link':
        (sand.root / target).symlink_to(sand.root / 'outside')
    res = sand.call(argv, cwd)
    if blocked:
        mon.require(res[0] not in (0, None), f'{argv} with an existing {blocked} ended with exit code 0', 'refusal')
        sand.nothing(res, argv)
        mon.count('refusals')
        return
    code, exception, out, err, created, removed, changed, events = res
    mon.require(code == 0, f'{argv} failed with exit code {code}: {exception or err[-800:]}', 'failed')
    mon.require(not removed and not changed, f'{argv} removed {removed[:5]}, changed {changed[:5]}', 'changes')
    for k in created:
        mon.require(k == target or k.startswith(target + '/'), f'{argv} created {k}', 'not requested')
    sand.accesses(events, lambda rel, kind: rel == target or rel.startswith(target + '/'), argv)
    files = sorted(k[len(target) + 1:] for k in created if (sand.root / k).is_file())
    expected = sorted([f'settings/{stem}.json', f'state/{stem}.json', 'aircraft/' + ('template_aircraft.json' if stem == 'template' else f'{stem}.json')])
    mon.require(files == expected, f'{argv} created the files {files}, expected {expected}', 'not requested')
    mon.count('examples')
    # The same command again refuses and leaves everything
    again = gen.pick(rng, [argv, ['--make-example'], ['--mdb', 'boxwing']])
    res = sand.call(again, cwd)
    mon.require(res[0] != 0, f'{again} with an existing project ended with exit code 0', 'refusal')
    sand.nothing(res, again)
    mon.count('refusals')


def misuse(rng, sand, mon):
    """Commands which should not change anything"""
    case, _ = make_case(rng, False)
    path = project.write_project(sand.root / 'proj', name='job', **case)
    previous_contents(rng, sand, 'proj', 'job')
    old_output(rng, sand, 'proj', 'job')
    commands = [(['--list-example-from-db'], 0), (['--ldb'], 0), ([], 0), (['--help'], 0), (['-c'], 1), (['--clean-only'], 1), (['--make-example', '--clean'], 1),
                (['--mdb', 'no_such_aircraft'], 1), (['--mdb', '../../settings'], 1), (['-r', str(path), '--make-example'], 1), (['-r', str(path), '-v', '-q'], 1),
                (['-r', str(path), '-c', '--clean-only'], 1), (['--bogus'], 1), (['-r'], 1), (['-r', str(path.parent / 'missing.json')], 1),
                (['-c', '-r', str(sand.root / 'work' / 'settings' / 'missing.json')], 1), (['--ldb', '--clean-only'], 1)]
    for i in rng.choice(len(commands), size=5, replace=False):
        argv, code = commands[int(i)]
        res = sand.call(argv)
        mon.require((res[0] != 0) == bool(code), f'{argv} ended with exit code {res[0]} ({res[1] or res[3][-300:]})', 'exit code')
        sand.nothing(res, argv)
        mon.count('refusals', code != 0)
        if argv and argv[0] in ('--list-example-from-db', '--ldb') and not code:
            for name in DB:
                mon.require(name in res[2], f"{argv} does not list '{name}'", 'list')
