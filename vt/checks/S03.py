"""S03: settings against a shadow model, over random histories of several settings objects"""

import contextlib
import copy
import json

from vt import gen, observe, project
from vt.runner import Violation

RULE = ('random histories over several projects in one process: load settings files with random subsets of settings at every level, '
        'construct and update settings objects, edit one of them in place, save, load again, run analyses with settings objects alive; '
        'after every step all live objects are compared with shadow dictionaries, and saved files with the shadow without hidden '
        'entries; settings with one wrong type or value must be refused; non-trivial: distinct histories')
ASSUMPTIONS = []
REQUIRE = {'objects compared': 1500, 'loaded': 300, 'edited in place': 80, 'saved': 150, 'analyses': 60, 'refused': 250, 'partial sections': 200}
MIN_DISTINCT = 80
prepare = observe.prepare

PLOTS = ('geometry', 'lattice', 'matrix_downwash', 'results')
SAVES = ('global', 'panelwise', 'aeroperformance', 'matrix_system')


def defaults():
    return {'aircraft': None, 'state': None, 'deformation': None, 'vlm_autopanels_c': 4, 'vlm_autopanels_s': 4,
            'save_results': {k: False for k in SAVES},
            'plot': {k: {'opt': [], 'show': False, 'save': False} for k in PLOTS},
            '_do_normal_rotations': True, '_deformation_check': True, '_epsilon': 1e-6}


def merged(old, new):
    out = copy.deepcopy(old)
    for k, v in new.items():
        if k == 'save_results':
            out[k].update(v)
        elif k == 'plot':
            for name, opts in v.items():
                out[k][name].update(copy.deepcopy(opts))
        else:
            out[k] = copy.deepcopy(v)
    if not out['plot']['results']['opt']:
        out['plot']['results']['opt'] = ['cp']
    return out


def visible(settings):
    return {k: v for k, v in settings.items() if not k.startswith('_')}


def subset(rng, full=False):
    """A random valid settings dictionary"""
    out = {'aircraft': gen.pick(rng, ['ac.json', 'other.json', 'ac.xml', 'A.JSON']), 'state': gen.pick(rng, ['st.json', 'climb.json'])}
    if gen.chance(rng, .3):
        out['deformation'] = gen.pick(rng, ['def.json', None])
    for k in ('vlm_autopanels_c', 'vlm_autopanels_s'):
        if gen.chance(rng, .5):
            out[k] = int(rng.integers(1, 30))
    if gen.chance(rng, .3):
        out['_epsilon'] = gen.pick(rng, [1e-6, 1e-3, .5, .999, 1e-12])
    for k in ('_do_normal_rotations', '_deformation_check'):
        if gen.chance(rng, .25):
            out[k] = gen.chance(rng, .5)
    if gen.chance(rng, .6):
        out['save_results'] = {k: gen.chance(rng, .5) for k in SAVES if gen.chance(rng, .5)}
    if gen.chance(rng, .6):
        out['plot'] = {}
        for name in PLOTS:
            if gen.chance(rng, .5):
                opts = {}
                if gen.chance(rng, .5):
                    opts['opt'] = [str(x) for x in rng.choice(['cp', 'fmag', 'vx', 'gamma', 'deformation'], size=int(rng.integers(0, 3)), replace=False)]
                for k in ('show', 'save'):
                    if gen.chance(rng, .5):
                        opts[k] = gen.chance(rng, .5)
                out['plot'][name] = opts
    keys = list(out)
    rng.shuffle(keys)
    return {k: out[k] for k in keys}


WRONG = [
    ('aircraft', 5), ('aircraft', None), ('aircraft', ['ac.json']), ('aircraft', 'ac.txt'), ('aircraft', 'ac'), ('aircraft', 'json'),
    ('state', 7), ('state', None), ('vlm_autopanels_c', '4'), ('vlm_autopanels_c', 2.5), ('vlm_autopanels_c', None),
    ('vlm_autopanels_s', [4]), ('vlm_autopanels_s', 4.0), ('vlm_autopanels_s', None), ('save_results', [True]), ('save_results', 'all'), ('save_results', None),
    ('save_results.global', 'yes'), ('save_results.panelwise', 1), ('save_results.aeroperformance', None), ('save_results.matrix_system', 'false'),
    ('plot', True), ('plot', []), ('plot', None), ('plot.geometry', True), ('plot.lattice', None), ('plot.matrix_downwash', ['show']), ('plot.results', []),
    ('plot.geometry.show', 1), ('plot.lattice.save', 'true'), ('plot.results.save', None), ('plot.results.opt', 'cp'), ('plot.results.opt', {'cp': True}),
    ('plot.matrix_downwash.opt', 'none'), ('_epsilon', 0.0), ('_epsilon', 1.0), ('_epsilon', -1e-6), ('_epsilon', 2.0), ('_epsilon', '1e-6'), ('_epsilon', None),
    ('_do_normal_rotations', 'yes'), ('_do_normal_rotations', None), ('_deformation_check', 0), ('_deformation_check', 'off'),
]


def plan(tier, seed):
    scale = {'quick': 4, 'thorough': 25}[tier]
    return ([{'kind': 'history', 'seed': [seed, 'S03h', i]} for i in range(100*scale)] +
            [{'kind': 'wrong', 'index': i, 'seed': [seed, 'S03w', n, i]} for n in range(6*scale) for i in range(len(WRONG))])


def require_equal(obj, shadow, what, mon):
    got = obj.settings
    mon.count('objects compared')
    mon.require(sorted(got) == sorted(shadow), f'{what}: settings {sorted(set(got) ^ set(shadow))} are missing or not expected', 'keys')
    for k, v in shadow.items():
        mon.require(got[k] == v and type(got[k]) is type(v), f"{what}: setting '{k}' is {got[k]!r}, expected {v!r}", 'value')


def run_case(spec, mon):
    rng = gen.rng_for(*spec['seed'])
    if spec['kind'] == 'wrong':
        wrong(spec, rng, mon)
    else:
        with contextlib.ExitStack() as stack:
            history(rng, stack, mon)


def inject(rng, base, path, value):
    """Put one wrong value into otherwise valid settings"""
    new = copy.deepcopy(base)
    d = new
    *parents, last = path.split('.')
    for p in parents:
        if not isinstance(d.get(p), dict):
            d[p] = {}
        d = d[p]
    d[last] = copy.deepcopy(value)
    return new


def load_file(tmp, data, name='job.json', folder='settings'):
    import pytornado.fileio as io
    (tmp / folder).mkdir(parents=True, exist_ok=True)
    path = tmp / folder / name
    path.write_text(json.dumps(data))
    return io.native.settings.load(path)


def wrong(spec, rng, mon):
    path, value = WRONG[spec['index']]
    base = subset(rng)
    with project.scratch() as tmp, project.quiet():
        require_equal(load_file(tmp, base), merged(defaults(), base), f'settings {base}', mon)
        bad = inject(rng, base, path, value)
        try:
            load_file(tmp, bad, name='bad.json')
        except OSError:
            raise
        except Exception:
            pass
        else:
            raise Violation(f"settings with '{path}' = {value!r} were accepted: {bad}", 'accepted wrong value')
        mon.count('refused')
        # A refused file leaves no traces
        require_equal(load_file(tmp, base), merged(defaults(), base), f'settings {base} after refused ones', mon)
    mon.nontrivial(spec)
    mon.sample = {'refused': {path: value}, 'base': base}


def history(rng, stack, mon):
    import pytornado.fileio as io
    from pytornado.objects.settings import Settings
    live = []      # (label, object, shadow, root, name)
    trail = []
    with project.quiet():
        for step in range(int(rng.integers(6, 16))):
            op = gen.pick(rng, ['load', 'load', 'load', 'construct', 'default', 'edit', 'edit', 'save', 'save', 'run', 'update'])
            if op == 'load' or not live:
                root = live[int(rng.integers(len(live)))][3] if live and gen.chance(rng, .3) else stack.enter_context(project.scratch())
                data = subset(rng)
                name = f'job{step}.json'
                obj = load_file(root, data, name=name, folder=gen.pick(rng, ['settings', 'settings', '.']))
                live.append([f'loaded in step {step}', obj, merged(defaults(), data), root, name])
                mon.count('loaded')
                mon.count('partial sections', any(k in data for k in ('plot', 'save_results')))
                trail.append(f'load {data}')
            elif op in ('construct', 'default'):
                root = stack.enter_context(project.scratch())
                data = subset(rng) if op == 'construct' else None
                name = f'made{step}.json'
                given = copy.deepcopy(data)
                obj = Settings(name, root, settings_dict=given, check_ac_file_type=data is not None, make_dirs=gen.chance(rng, .7))
                mon.require(given == data, f'the given settings dictionary was changed from {data} to {given}', 'argument changed')
                live.append([f'constructed in step {step}', obj, defaults() if data is None else merged(defaults(), data), root, name])
                if given is not None and gen.chance(rng, .6):
                    # The caller goes on using its dictionary
                    given.setdefault('plot', {}).setdefault('results', {}).setdefault('opt', []).append('gamma')
                    for v in given.values():
                        if isinstance(v, dict):
                            v['later'] = True
                trail.append(f'{op} {data}')
            elif op == 'update':
                item = live[int(rng.integers(len(live)))]
                data = subset(rng)
                item[1].update_from_dict(copy.deepcopy(data))
                item[2] = merged(item[2], data)
                trail.append(f'update {item[0]} {data}')
            elif op == 'edit':
                item = live[int(rng.integers(len(live)))]
                for target in (item[1].settings, item[2]):
                    r = gen.rng_for(*[step, 99])
                    target['plot'][gen.pick(r, PLOTS)]['opt'].append('fmag')
                    target['plot'][gen.pick(r, PLOTS)]['save'] = True
                    target['save_results'][gen.pick(r, SAVES)] = True
                    target['vlm_autopanels_c'] += 1
                mon.count('edited in place')
                trail.append(f'edit {item[0]}')
            elif op == 'save':
                item = live[int(rng.integers(len(live)))]
                (item[3] / 'settings').mkdir(exist_ok=True)
                io.native.settings.save(item[1])
                path = item[3] / 'settings' / item[4]
                mon.require(path.is_file(), f'{item[0]}: settings were not saved as settings/{item[4]}', 'not saved')
                got, want = json.loads(path.read_text()), visible(item[2])
                mon.require(got == want, f'{item[0]}: saved settings {got}, expected {want}', 'saved file')
                mon.count('saved')
                if item[2]['aircraft'] is not None:
                    again = io.native.settings.load(path)
                    shadow = merged(defaults(), {**want, **{}})
                    live.append([f'loaded again in step {step}', again, shadow, item[3], item[4]])
                trail.append(f'save {item[0]}')
            elif op == 'run':
                case = gen.case(rng, aircraft_kw=dict(nwings=1, max_c=2, max_s=2), settings_kw=dict(max_c=2, max_s=3))
                data = subset(rng)
                for k in ('aircraft', 'state', 'deformation'):
                    data.pop(k, None)
                for p in data.get('plot', {}).values():
                    p['show'] = p['save'] = False
                case['settings'] = dict(data, vlm_autopanels_c=2)
                root = stack.enter_context(project.scratch())
                results = observe.run_results(case, root)
                file_data = json.loads((root / 'settings' / 'job.json').read_text())
                live.append([f'used by the analysis in step {step}', results['settings'], merged(defaults(), file_data), root, 'job.json'])
                mon.count('analyses')
                trail.append(f'run {data}')
            for label, obj, shadow, _, _ in live:
                require_equal(obj, shadow, f'settings {label}, after {trail[-1]}', mon)
    mon.nontrivial(trail)
    mon.sample = {'history': [t[:150] for t in trail]}
