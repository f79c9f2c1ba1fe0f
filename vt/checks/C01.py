"""C01: the command line runs exactly what it is told and reports failures"""

import json
import os
import re
import shutil
from pathlib import Path

from vt import gen, project, record
from vt.checks import F02, F05, S04
from vt import faults

RULE = ('random projects (native and CPACS) which are analysed by the command-line script in a process of its own as an unprivileged user, with all '
        'forms of the arguments, from different working directories, with edits in between, and by the library in pristine processes; faulty projects; '
        'generated examples; conversions; oracle: result files of both byte by byte, exit status, messages by level, database; non-trivial: '
        'distinct projects with a completed analysis')
ASSUMPTIONS = ['the stand-ins (vt/standin) behave like TiXI and TiGL for the functions used', 'messages are identified by the format of the logger (external library)']
REQUIRE = {'runs compared': 150, 'result files compared': 400, 'failing runs': 70, 'missing files': 30, 'examples': 10, 'conversions': 8, 'messages': 1000, 'nested levels': 40,
           'CPACS runs compared': 8, 'listed aircraft': 10}
MIN_DISTINCT = 60
CASE_TIMEOUT = 240
LINE = re.compile(r'^\[\d{4}-\d\d-\d\d \d\d:\d\d:\d\d (\w+)\] @ (\S+) \| (.*)$')
# Forms of an option -> lowest level of messages
LEVELS = {'quiet': (['-q', '--quiet'], 40), 'default': (None, 30), 'verbose': (['-v', '--verbose'], 20), 'debug': (['-d', '--debug'], 10)}
NUMBER = {'DEBUG': 10, 'INFO': 20, 'WARNING': 30, 'ERROR': 40, 'CRITICAL': 50}


def prepare():
    F05.prepare()


def worker_init():
    global ZYGOTE
    F02.worker_init()
    ZYGOTE = F02.ZYGOTE


def plan(tier, seed):
    n = {'quick': 240, 'thorough': 2400}[tier]
    return [{'seed': [seed, 'C01', i], 'kind': ['levels', 'edits', 'fault', 'cpacs', 'levels', 'example', 'edits', 'fault', 'edits', 'convert'][i % 10]} for i in range(n)]


# ----- The library as reference -----

def results_of(root):
    """Result files: path below the project -> content"""
    root = Path(root)
    return {str(p.relative_to(root)): p.read_bytes() for p in sorted((root / '_results').rglob('*')) if p.is_file()}


def library(path, root, level):
    """Analysis with the library: result files or the name of the exception (call in a pristine process only)"""
    from pytornado.stdfun.run import standard_run, StdRunArgs
    with project.quiet():
        try:
            standard_run(StdRunArgs(run=str(path), **{level: True}))
        except (MemoryError, OSError) as err:
            if not isinstance(err, FileNotFoundError):
                raise
            return type(err).__name__
        except Exception as err:
            return type(err).__name__
    return results_of(root)


def reference(rng, proj, rel):
    """What the library gives for a copy of a project without results"""
    copy = proj.parent / 'reference'
    if copy.exists():
        shutil.rmtree(copy)
    shutil.copytree(proj, copy, symlinks=True)
    for name in ('_results', '_plots'):
        shutil.rmtree(copy / name, ignore_errors=True)
    try:
        return ZYGOTE.call(library, copy / rel, copy, gen.pick(rng, ['quiet', 'verbose', 'debug']))
    finally:
        shutil.rmtree(copy)


# ----- The command line -----

def messages(text):
    """Messages of the logger: (level, logger, first line)"""
    return [m.groups() for m in map(LINE.match, text.splitlines()) if m]


def command(rng, sand, proj, rel, level, mon, clean=None):
    """Run an analysis; returns exit status, stdout, stderr, log"""
    path, cwd = proj / rel, gen.pick(rng, ['work', '.', str(proj.relative_to(sand.root)), str((proj / rel).parent.relative_to(sand.root))])
    arg = str(path) if gen.chance(rng, .4) else os.path.relpath(path, sand.root / cwd)
    option = gen.pick(rng, ['-r', '--run', '--run='])
    run = [option + arg] if option.endswith('=') else [option, arg]
    flags, _ = LEVELS[level]
    other = ([gen.pick(rng, flags)] if flags else []) + ([clean] if clean else [])
    rng.shuffle(other)
    short = ''.join(x[1:] for x in other if len(x) == 2)
    if short and gen.chance(rng, .3):
        # All in one
        argv = [x for x in other if len(x) != 2] + ['-' + short + 'r', arg]
    else:
        cut = int(rng.integers(len(other) + 1))
        argv = other[:cut] + run + other[cut:]
    log = proj / 'log.txt'
    log.unlink(missing_ok=True)
    code, exception, out, err, created, removed, changed, events = sand.call(argv, cwd)
    text = log.read_text() if log.is_file() else ''
    return code, exception, out, err, text, argv


def completed(rng, sand, proj, rel, level, mon, clean=None):
    """A valid analysis: same result files as the library, messages of the level asked for"""
    want = reference(rng, proj, rel)
    mon.require(isinstance(want, dict), f'a valid analysis with the library failed: {want}', 'exception')
    code, exception, out, err, log, argv = command(rng, sand, proj, rel, level, mon, clean)
    mon.require(code == 0, f'{argv} failed with exit code {code}: {exception or err[-800:]}', 'failed')
    got = results_of(proj)
    for k in want:
        mon.require(k in got, f'{argv} did not write {k}', 'missing')
        mon.require(got[k] == want[k], f'{argv}: {k} differs from the file which the library writes', 'results')
        mon.count('result files compared')
    mon.count('runs compared')

    lines, filed = messages(err), messages(log)
    lowest = LEVELS[level][1]
    for name, _, text in lines + filed:
        mon.require(NUMBER.get(name, 0) >= lowest, f'{argv} prints a message of level {name}: {text}', 'level')
    mon.require(lines == filed, f'{argv}: {len(lines)} messages on the terminal, {len(filed)} in the log file', 'log file')
    mon.count('messages', len(lines))
    if level in ('quiet', 'default'):
        mon.require(not out.strip(), f'{argv} prints {out.strip()[:200]!r}', 'output')
    else:
        mon.require(len([x for x in lines if x[0] == 'INFO']) >= 5, f'{argv} prints {len(lines)} messages only', 'level')
    return lines, got


def change(rng, proj):
    """Edit an input file; its name"""
    what = gen.pick(rng, ['alpha', 'density', 'refs', 'point', 'panels', 'save', 'nothing'])
    if what in ('alpha', 'density'):
        path = proj / 'state' / 'st.json'
        data = json.loads(path.read_text())
        a = data['aero']
        k = 'alpha' if what == 'alpha' or 'density' not in a else 'density'
        a[k] = [gen.r3(.9*x) for x in a[k]] if isinstance(a[k], list) else gen.r3(.9*a[k])
    elif what in ('refs', 'point'):
        path = proj / 'aircraft' / 'ac.json'
        data = json.loads(path.read_text())
        if what == 'refs':
            data['refs']['area'] = gen.r3(1.1*data['refs']['area'])
        else:
            data['refs']['gcenter'] = [gen.r3(x) for x in rng.uniform(-1, 1, 3)]
    elif what in ('panels', 'save'):
        path = next((proj / 'settings').glob('*.json'), None) or next(proj.glob('*.json'))
        data = json.loads(path.read_text())
        if what == 'panels':
            data['vlm_autopanels_s'] = int(rng.integers(1, 5))
        else:
            data['save_results'] = {k: gen.chance(rng, .7) for k in record.SAVE_ALL}
    else:
        return what
    path.write_text(json.dumps(data))
    return what


def new_project(rng, sand, deform=.2):
    case = gen.case(rng, aircraft_kw=dict(max_c=2, max_s=3), settings_kw=dict(max_c=3, max_s=4), deform=deform)
    n = int(gen.pick(rng, [1, 1, 2, 3]))
    if n > 1:
        states = [gen.flow(rng) for _ in range(n)]
        case['state'] = {'aero': {k: [s[k] for s in states] for k in states[0]}}
    case['settings']['save_results'] = dict(record.SAVE_ALL)
    case['settings'].pop('plot', None)
    name = gen.pick(rng, ['job', 'my job', 'v1.2', 'settings'])
    proj = sand.root / gen.pick(rng, ['proj', 'work/proj', 'a dir/proj'])
    proj.mkdir(parents=True)
    path = project.write_project(proj, name=name, **case)
    return case, proj, path.relative_to(proj)


# ----- Kinds of cases -----

def levels(rng, sand, mon):
    """The level of messages does not matter for the results"""
    case, proj, rel = new_project(rng, sand)
    seen, results = {}, {}
    for i in rng.permutation(4):
        level = list(LEVELS)[int(i)]
        seen[level], results[level] = completed(rng, sand, proj, rel, level, mon, gen.pick(rng, [None, None, '-c', '--clean']))
    order = list(LEVELS)
    for a, b in zip(order, order[1:]):
        # Paths may be different ones (relative or absolute), hence only the kinds of messages
        more = list(seen[b])
        for x in seen[a]:
            mon.require(x in more, f'message {x} of level {a} is missing with level {b}', 'nested')
            more.remove(x)
        mon.require(results[a] == results[b], f'results with messages of levels {a} and {b} differ', 'results')
        mon.count('nested levels')
    mon.nontrivial(case)
    mon.sample = {'messages': {k: len(v) for k, v in seen.items()}, 'files': sorted(results['quiet'])}


def edits(rng, sand, mon):
    """Edited input between runs, with results of earlier runs"""
    case, proj, rel = new_project(rng, sand, deform=.3)
    done = []
    for i in range(int(rng.integers(2, 4))):
        if i:
            done.append(change(rng, proj))
        clean = gen.pick(rng, [None, None, '-c', '--clean'])
        _, got = completed(rng, sand, proj, rel, gen.pick(rng, list(LEVELS)), mon, clean)
    mon.nontrivial(case)
    mon.sample = {'edits': done, 'files': sorted(got)}


def failing(rng, sand, mon, proj, rel, what, level):
    code, exception, out, err, log, argv = command(rng, sand, proj, rel, level, mon, gen.pick(rng, [None, '-c']))
    mon.require(code not in (0, None), f"{argv} with {what} ended with exit code {code}", 'exit code')
    mon.require(exception or err.strip(), f"{argv} with {what} ended without a message", 'message')
    left = [k for k in results_of(proj)] if (proj / '_results').is_dir() else []
    mon.require(not left, f"{argv} with {what} left {left}", 'files')
    mon.count('failing runs')


def fault(rng, sand, mon):
    """A failing analysis ends with an exit status which says so"""
    levels = [list(LEVELS)[int(i)] for i in rng.permutation(4)]
    for k in range(2):
        for _ in range(40):
            name = gen.pick(rng, sorted(faults.FAULTS))
            _, case, what = S04.make(rng, name)
            if case is not None and not case.get('truncate') and 'plot' not in case['settings']:
                break
        case.pop('truncate', None)
        proj = sand.root / f'proj{k}'
        rel = project.write_project(proj, **case).relative_to(proj)
        failing(rng, sand, mon, proj, rel, f"fault '{name}' ({what})", levels.pop())
    # Files which are not there or cannot be read
    case, proj, rel = new_project(rng, sand, .5)
    some = [p for p in sorted(proj.rglob('*')) if p.is_file() and (p.parent.name != 'airfoils' or f'airfoils/{p.name}' in json.dumps(case['aircraft']))]
    for k, path in enumerate(gen.pick(rng, some) if i else proj / rel for i in range(2)):
        text = path.read_bytes()
        path.unlink()
        kind = gen.pick(rng, ['missing', 'missing', 'directory'])
        if kind == 'directory':
            path.mkdir()
        failing(rng, sand, mon, proj, rel, f'{kind} file {path.relative_to(proj)}', levels.pop())
        if kind == 'directory':
            path.rmdir()
        path.unlink(missing_ok=True)
        path.write_bytes(text)
        mon.count('missing files')


def example(rng, sand, mon):
    """Examples contain the aircraft of the database and can be analysed"""
    stem = gen.pick(rng, ['template', 'template'] + F02.DB)
    cwd = gen.pick(rng, ['work', 'outside'])
    argv = ['--make-example'] if stem == 'template' else [gen.pick(rng, ['--make-example-from-db', '--mdb']), stem + gen.pick(rng, ['', '.json'])]
    res = sand.call(argv, cwd)
    mon.require(res[0] == 0, f'{argv} failed with exit code {res[0]}: {res[1] or res[3][-500:]}', 'failed')
    proj = sand.root / cwd / 'pytornado'
    base = Path(F02.SCRIPT).parent.parent / 'lib' / 'pytornado' / 'database' / 'aircraft'
    if stem != 'template':
        given = json.loads((base / f'{stem}.json').read_text())
        written = json.loads((proj / 'aircraft' / f'{stem}.json').read_text())
        d = missing_in(given, written)
        mon.require(d is None, f'{argv}: aircraft of the project differs from the one of the database: {d}', 'database')
    path = proj / 'settings' / f'{stem}.json'
    data = json.loads(path.read_text())
    mon.require(data['plot']['results']['show'] is True, f'{argv}: results are not to be shown', 'plot')
    if stem in ('template', 'boxwing', 'bwb'):
        # As it is, but few panels and no plots
        data.update(vlm_autopanels_c=2, vlm_autopanels_s=6, save_results=record.SAVE_ALL, plot={})
        path.write_text(json.dumps(data))
        completed(rng, sand, proj, path.relative_to(proj), gen.pick(rng, list(LEVELS)), mon)
    mon.count('examples')
    # List
    res = sand.call([gen.pick(rng, ['--ldb', '--list-example-from-db'])], cwd)
    mon.require(res[0] == 0, f'list of aircraft failed: {res[1]}', 'failed')
    listed = sorted(m.group(1) for m in map(re.compile(r'^\* (\S+)\s+-- .+$').match, res[2].splitlines()) if m)
    want = sorted(p.stem for p in base.glob('*.json'))
    mon.require(listed == want, f'listed aircraft are {listed}, the database has {want}', 'list')
    mon.count('listed aircraft', len(listed))
    mon.sample = {'example': stem, 'listed': listed}


def missing_in(a, b, path=''):
    """First part of 'a' which 'b' does not have (None if there is none)"""
    if isinstance(a, dict) and isinstance(b, dict):
        for k, v in a.items():
            if k == 'geometry' and None not in a.get('vertices', {}).values():
                # Derived from the corner points
                continue
            if k not in b:
                # Optional parts without content need not be there; comments and versions neither
                if v in (None, {}, []) or k in ('comment', 'version'):
                    continue
                return f'{path}/{k}'
            d = missing_in(v, b[k], f'{path}/{k}')
            if d:
                return d
        return None
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        return next((d for i, (x, y) in enumerate(zip(a, b)) if (d := missing_in(x, y, f'{path}[{i}]'))), None)
    return None if a == b else f'{path}: {a!r} became {b!r}'


def from_cpacs(rng, sand, mon, spec):
    """Analyses of CPACS aircraft"""
    _, model, case, _ = F05.make({'seed': spec['seed'], 'kind': gen.pick(rng, ['map', 'state', 'deformed'])})
    case['settings'].pop('plot', None)
    proj = sand.root / 'proj'
    from_map = gen.chance(rng, .6)
    path = F05.write(proj, model, case, from_map)
    for _ in range(2):
        completed(rng, sand, proj, path.relative_to(proj), gen.pick(rng, list(LEVELS)), mon)
        mon.count('CPACS runs compared')
    mon.nontrivial(case)


def convert_library(file, cwd):
    from pytornado.stdfun.setup import cpacs2pytornado
    os.chdir(cwd)
    with project.quiet():
        cpacs2pytornado(file)


def convert(rng, sand, mon, spec):
    """Conversion of CPACS aircraft"""
    _, model, case, _ = F05.make({'seed': spec['seed'], 'kind': 'convert'})
    proj = sand.root / 'proj'
    F05.write(proj, model, case, True)
    xml = proj / 'aircraft' / 'ac.xml'
    ref = sand.root / 'reference'
    shutil.copytree(proj, ref)
    ZYGOTE.call(convert_library, 'aircraft/ac.xml', str(ref))
    want = json.loads((ref / 'aircraft' / 'ac.json').read_text())
    shutil.rmtree(ref)
    before = xml.read_bytes()
    arg = gen.pick(rng, ['aircraft/ac.xml', str(xml)])
    res = sand.call(['--cpacs2json', arg], 'proj')
    mon.require(res[0] == 0, f'--cpacs2json {arg} failed with exit code {res[0]}: {res[1] or res[3][-500:]}', 'failed')
    path = proj / 'aircraft' / 'ac.json'
    mon.require(path.is_file(), f'--cpacs2json {arg} wrote no native file', 'conversion')
    d = record.differences(json.loads(path.read_text()), want, 'aircraft')
    mon.require(d is None, f'--cpacs2json {arg}: {d} from the library', 'conversion')
    mon.require(xml.read_bytes() == before, f'--cpacs2json {arg} changed the CPACS file', 'file changed')
    mon.require(not res[5] and not [k for k in res[6]], f'--cpacs2json {arg} removed {res[5][:3]}, changed {res[6][:3]}', 'file changed')
    # Not a file
    res = sand.call(['--cpacs2json', 'aircraft/nothing.xml'], 'proj')
    mon.require(res[0] != 0 and not res[4], '--cpacs2json with a missing file ended with exit code 0', 'exit code')
    mon.count('failing runs')
    mon.count('conversions')
    mon.nontrivial(case)


def run_case(spec, mon):
    rng = gen.rng_for(*spec['seed'], spec['kind'])
    with project.scratch() as tmp:
        sand = F02.Sandbox(tmp, mon)
        if spec['kind'] == 'cpacs':
            from_cpacs(rng, sand, mon, spec)
        elif spec['kind'] == 'convert':
            convert(rng, sand, mon, spec)
        else:
            {'levels': levels, 'edits': edits, 'fault': fault, 'example': example}[spec['kind']](rng, sand, mon)
