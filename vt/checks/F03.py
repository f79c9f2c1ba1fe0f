"""F03: aircraft, settings and flight states survive saving and loading"""

import copy
import json
import os
import traceback
from pathlib import Path

import numpy as np

from vt import gen, isa, observe, project, record
from vt.checks.S03 import defaults, merged
from vt.runner import Violation

RULE = ('random projects (aerofoil files below and outside of the project, lists of states in all combinations, values given as null) taken through random '
        'histories of load, save, move, rebuild by the interface and run, in which every saved file is compared with the original input and every run with '
        'the first one, bit by bit; projects generated from the template and the database; non-trivial: distinct histories with at least one saved file')
ASSUMPTIONS = ['aircraft objects are only available to library users before and during an analysis; the one used by an analysis is recorded at the loader']
REQUIRE = {'aircraft saved': 200, 'states saved': 150, 'settings saved': 150, 'runs compared': 200, 'aerofoil files': 40,
           'generated projects': 6, 'projects moved': 40}
MIN_DISTINCT = 80
CASE_TIMEOUT = 300
prepare = observe.prepare


def plan(tier, seed):
    names = [None, 'NASA_CRM', 'boxwing', 'bwb', 'd150', 'optimale']
    out = [{'kind': 'generated', 'name': n} for n in names]
    return out + [{'kind': 'history', 'seed': [seed, 'F03', i]} for i in range({'quick': 240, 'thorough': 3000}[tier])]


def run_case(spec, mon):
    if spec['kind'] == 'generated':
        generated(spec['name'], mon)
    else:
        history(gen.rng_for(*spec['seed']), mon)


def guard(what, func, *args, **kw):
    """Nothing that is done here may fail"""
    try:
        with project.quiet():
            return func(*args, **kw)
    except (Violation, MemoryError):
        raise
    except Exception:
        raise Violation(f'{what} failed:\n' + traceback.format_exc()[-1500:], 'exception')


# ----- Comparison of files with the original input -----

def number(a, b):
    return isinstance(a, (int, float)) and not isinstance(a, bool) and float(a) == float(b)


def vector(a, b):
    return isinstance(a, list) and len(a) == len(b) and all(number(x, y) for x, y in zip(a, b))


def same_ac(saved, orig, root, mon, panels=True):
    """First difference between a saved aircraft file and the original definition"""
    if saved.get('uid') != orig['uid']:
        return f"uid '{saved.get('uid')}'"
    for k, v in orig['refs'].items():
        got = saved['refs'].get(k)
        if not (vector(got, v) if isinstance(v, list) else got == v if isinstance(v, str) else number(got, v)):
            return f"reference value '{k}' is {got!r} instead of {v!r}"
    if [w.get('uid') for w in saved['wings']] != [w['uid'] for w in orig['wings']]:
        return f"wings {[w.get('uid') for w in saved['wings']]}"
    for ws, wo in zip(saved['wings'], orig['wings']):
        if ws.get('symmetry') != wo['symmetry']:
            return f"symmetry of '{wo['uid']}' is {ws.get('symmetry')!r}"
        if [s.get('uid') for s in ws['segments']] != [s['uid'] for s in wo['segments']]:
            return f"segments {[s.get('uid') for s in ws['segments']]}"
        for ss, so in zip(ws['segments'], wo['segments']):
            for k, v in so['vertices'].items():
                if not vector(ss['vertices'].get(k), v):
                    return f"vertex '{k}' of '{so['uid']}' is {ss['vertices'].get(k)} instead of {v}"
            for k, v in so['airfoils'].items():
                got = ss['airfoils'].get(k)
                if v.startswith('airfoils/') or os.path.isabs(v):
                    mon.count('aerofoil files')
                    same = isinstance(got, str) and os.path.realpath(os.path.join(root, got)) == os.path.realpath(os.path.join(root, v))
                    if same and not os.path.isabs(v) and os.path.isabs(got):
                        return f"aerofoil '{v}' was saved with the absolute path '{got}'"
                else:
                    same = got == v
                if not same:
                    return f"aerofoil '{k}' of '{so['uid']}' is {got!r} instead of {v!r}"
            if panels:
                for k in ('num_c', 'num_s'):
                    got = (ss.get('panels') or {}).get(k)
                    if got != (so.get('panels') or {}).get(k):
                        return f"'{k}' of '{so['uid']}' is {got!r}"
        cs, co = ws.get('controls', []), wo.get('controls', [])
        if [c.get('uid') for c in cs] != [c['uid'] for c in co]:
            return f"controls {[c.get('uid') for c in cs]}"
        for a, b in zip(cs, co):
            if a.get('device_type') != b['device_type'] or a.get('segment_uid') != b['segment_uid']:
                return f"type or segments of '{b['uid']}'"
            if not number(a.get('deflection'), b['deflection']):
                return f"deflection of '{b['uid']}' is {a.get('deflection')!r} instead of {b['deflection']}"
            # A missing value stands for the same deflection on both sides
            da, db = (x['deflection'] if x.get('deflection_mirror') is None else x['deflection_mirror'] for x in (a, b))
            if not number(da, db):
                return f"mirrored deflection of '{b['uid']}' is {da!r} instead of {db!r}"
            for part in ('rel_vertices', 'rel_hinge_vertices'):
                for k, v in b[part].items():
                    if not number(a[part].get(k), v):
                        return f"{part} '{k}' of '{b['uid']}' is {a[part].get(k)!r} instead of {v!r}"
            if panels and (a.get('panels') or {}).get('num_c') != (b.get('panels') or {}).get('num_c'):
                return f"'num_c' of '{b['uid']}' is {(a.get('panels') or {}).get('num_c')!r}"
    return None


def listed(x):
    return x if isinstance(x, list) else [x]


def same_state(saved, orig):
    for k in ('airspeed', 'density', 'altitude', 'mach', 'alpha', 'beta', 'rate_P', 'rate_Q', 'rate_R'):
        a, b = saved.get(k), orig.get(k)
        if b is None:
            if a is not None:
                return f"'{k}' is {a}, it was not given"
        elif a is None or len(listed(a)) != len(listed(b)) or not all(number(x, y) for x, y in zip(listed(a), listed(b))):
            return f"'{k}' is {a} instead of {b}"
    return None


# ----- Histories -----

class Project:
    def __init__(self, root, case, name='job'):
        self.root, self.case, self.name = Path(root), case, name
        self.path = project.write_project(root, name=name, **case)

    def settings(self):
        from pytornado.fileio.native import settings
        return guard('loading the settings', settings.load, self.path)

    def read(self, *rel):
        return record.read_json(self.root.joinpath(*rel))


def history(rng, mon):
    from pytornado import fileio
    case = gen.case(rng, aircraft_kw=dict(nwings=1 + gen.chance(rng, .4), symmetry=(0, 1, 2, 3) if gen.chance(rng, .2) else (0, 2), max_c=2, max_s=3, nseg=int(rng.integers(1, 3))), settings_kw=dict(max_c=3, max_s=4), deform=.3)
    case['settings'].pop('_epsilon', None)
    case['settings']['save_results'] = {k: True for k in record.SAVE_ALL}
    variants(rng, case)
    steps = []
    with project.scratch() as tmp:
        outside = tmp / 'outside'
        outside.mkdir()
        aerofoils(rng, case, tmp)
        proj = Project(tmp / 'p0', case)
        captured = capture_loader(fileio)
        try:
            reference = guarded_run(proj)
            loads = list(captured)
            for k in range(int(rng.integers(3, 7))):
                step = gen.pick(rng, ['aircraft', 'aircraft', 'state', 'settings', 'move', 'rebuild', 'after', 'twice', 'run'])
                steps.append(step)
                proj = perform(step, rng, proj, tmp, k, captured, reference, mon)
                compare(proj, reference, step, mon)
        finally:
            fileio.native.aircraft.load = captured.original
    mon.nontrivial([case, steps])
    mon.sample = {'steps': steps, 'wings': len(case['aircraft']['wings']), 'state': case['state']['aero'], 'loader seen': len(loads)}


class capture_loader(list):
    """Records the aircraft objects which analyses load"""

    def __init__(self, fileio):
        super().__init__()
        self.original = fileio.native.aircraft.load

        def load(*args, **kw):
            aircraft = self.original(*args, **kw)
            self.append(aircraft)
            return aircraft
        fileio.native.aircraft.load = load


def variants(rng, case):
    """Less common ways of writing the same things"""
    a = case['state']['aero']
    n = int(rng.integers(1, 4))
    states = [gen.flow(rng) for _ in range(n)]
    for s in states:
        # Numbers with many digits
        s['airspeed'] = float(rng.uniform(20, 200))
        s['alpha'] = float(rng.uniform(-8, 12))
    kind = gen.pick(rng, ['density', 'altitude', 'mach'])
    for s in states:
        if kind != 'density':
            del s['density']
            s['altitude'] = float(rng.uniform(0, 15000))
        if kind == 'mach':
            del s['airspeed']
            s['mach'] = float(rng.uniform(.05, .8))
    a = {k: [s[k] for s in states] for k in states[0]}
    if n == 1 and gen.chance(rng, .6):
        a = {k: v[0] for k, v in a.items()}
    for k in ('airspeed', 'density', 'mach', 'altitude'):
        if k not in a and gen.chance(rng, .4):
            a[k] = None
    case['state'] = {'aero': a}
    ac = case['aircraft']
    ac['uid'] = gen.pick(rng, ['generated', 'My aircraft', 'X-31 "test"', 'fl\u00fcgel'])
    if gen.chance(rng, .3):
        ac['refs']['comment'] = 'reference values'
    for k in ('area', 'span', 'chord'):
        ac['refs'][k] = gen.pick(rng, [ac['refs'][k], ac['refs'][k]/3, int(np.ceil(ac['refs'][k]))])
    for w in ac['wings']:
        if not w['controls'] and gen.chance(rng, .5):
            del w['controls']
        for c in w.get('controls', []):
            c['deflection'] = gen.pick(rng, [c['deflection'], c['deflection']/7, int(round(c['deflection']))])
        for s in w['segments']:
            if gen.chance(rng, .3):
                s.setdefault('panels', None)
    if gen.chance(rng, .5):
        # Numbers which are not short decimals; corners of neighbours are changed together by moving everything
        shift = [float(x) for x in rng.uniform(-1e-6, 1e-6, 3)]
        for k in ('gcenter', 'rcenter'):
            ac['refs'][k] = [x + d for x, d in zip(ac['refs'][k], shift)]
        for w in ac['wings']:
            for s in w['segments']:
                s['vertices'] = {k: [x + (d if x else 0.0) for x, d in zip(v, shift)] for k, v in s['vertices'].items()}
            for c in w.get('controls', []):
                for part in ('rel_vertices', 'rel_hinge_vertices'):
                    c[part] = {k: v if v in (0, 1) else v + float(rng.uniform(-1e-7, 1e-7)) for k, v in c[part].items()}


def aerofoils(rng, case, tmp):
    """Aerofoil files in the project, in subdirectories, elsewhere"""
    files = case.setdefault('airfoils', {})
    files['blade.test'] = gen.blade_file()
    for w in case['aircraft']['wings']:
        for s in w['segments']:
            for k in ('inner', 'outer'):
                if gen.chance(rng, .3):
                    where = gen.pick(rng, ['airfoils/blade.test', 'airfoils/foil.dat', 'airfoils/sub/foil.dat', 'abs'])
                    if where == 'abs':
                        (tmp / 'outside' / 'foil.txt').write_text(gen.blade_file(.02, .5))
                        s['airfoils'][k] = str(tmp / 'outside' / 'foil.txt')
                    else:
                        files[where[9:]] = gen.blade_file(.03, .3) if 'foil' in where else gen.blade_file()
                        s['airfoils'][k] = where
    # Projects are written flat: make the subdirectory
    if 'sub/foil.dat' in files:
        for k in range(12):
            (tmp / f'p{k}' / 'airfoils' / 'sub').mkdir(parents=True, exist_ok=True)


def guarded_run(proj):
    try:
        results = project.run(proj.path)
    except (MemoryError, OSError):
        raise
    except Exception:
        raise Violation('a valid analysis failed:\n' + traceback.format_exc()[-1500:], 'exception')
    proj.results = results
    return record.collect(results, proj.root)


def compare(proj, reference, step, mon):
    again = guarded_run(proj)
    diff = record.differences(reference, again)
    mon.count('runs compared')
    mon.require(diff is None, f"after '{step}' the analysis gives other results: {diff}", 'results')


def check_aircraft(proj, mon, what, panels=True):
    diff = same_ac(proj.read('aircraft', 'ac.json'), proj.case['aircraft'], proj.root, mon, panels)
    mon.count('aircraft saved')
    mon.require(diff is None, f'aircraft file after {what}: {diff}', 'aircraft file')


def check_state(proj, mon, what):
    diff = same_state(proj.read('state', 'st.json')['aero'], proj.case['state']['aero'])
    mon.count('states saved')
    mon.require(diff is None, f'state file after {what}: {diff}', 'state file')


def check_settings(proj, mon, what):
    saved = proj.read('settings', proj.name + '.json')
    given = dict(proj.case['settings'], aircraft='ac.json', state='st.json')
    if 'deformation' in proj.case:
        given['deformation'] = 'def.json'
    want = {k: v for k, v in merged(defaults(), given).items() if not k.startswith('_')}
    mon.count('settings saved')
    mon.require(saved == want, f'settings file after {what} contains {saved}, expected {want}', 'settings file')


def perform(step, rng, proj, tmp, k, captured, reference, mon):
    from pytornado import fileio
    from pytornado.objects.settings import Settings
    native = fileio.native
    if step == 'aircraft' or step == 'twice':
        for _ in range(1 if step == 'aircraft' else 3):
            settings = proj.settings()
            aircraft = guard('loading the aircraft', captured.original, settings)
            guard('saving the aircraft', native.aircraft.save, aircraft, settings)
            check_aircraft(proj, mon, step, panels=not getattr(proj, 'panels_set', False))
            if gen.chance(rng, .3):
                text = (proj.root / 'aircraft' / 'ac.json').read_text()
                guard('saving the aircraft again', native.aircraft.save, aircraft, settings)
                mon.require((proj.root / 'aircraft' / 'ac.json').read_text() == text, 'saving the same aircraft twice gives different files', 'repeated')
    if step == 'state' or step == 'twice':
        settings = proj.settings()
        for _ in range(int(rng.integers(1, 3))):
            state = guard('loading the state', native.state.load, settings)
            if gen.chance(rng, .4):
                list(state.iter_states())
            guard('saving the state', native.state.save, state, settings)
            check_state(proj, mon, step)
    if step == 'settings' or step == 'twice':
        settings = proj.settings()
        guard('saving the settings', native.settings.save, settings)
        check_settings(proj, mon, step)
    if step == 'after':
        guarded_run(proj)
        settings, state = proj.results['settings'], proj.results['state']
        guard('saving the state after the analysis', native.state.save, state, settings)
        check_state(proj, mon, 'an analysis')
        guard('saving the settings after the analysis', native.settings.save, settings)
        check_settings(proj, mon, 'an analysis')
        if captured:
            guard('saving the aircraft after the analysis', native.aircraft.save, captured[-1], settings)
            # The panel numbers chosen automatically are part of the aircraft now
            proj.panels_set = True
            check_aircraft(proj, mon, 'an analysis', panels=False)
            mon.count('aircraft saved after analysis')
    if step == 'move':
        settings = proj.settings()
        aircraft = guard('loading the aircraft', captured.original, settings)
        state = guard('loading the state', native.state.load, settings)
        new = Project(tmp / f'p{k + 1}', proj.case)
        # The aircraft file refers to aerofoils below the old project now; moving means loading at the new place
        guard('saving the aircraft', native.aircraft.save, aircraft, settings)
        (new.root / 'aircraft' / 'ac.json').write_text((proj.root / 'aircraft' / 'ac.json').read_text())
        moved = guard('creating settings', Settings, 'job.json', new.root, settings_dict=copy.deepcopy(settings.settings))
        guard('saving the state', native.state.save, state, moved)
        guard('saving the settings', native.settings.save, moved)
        new.panels_set = getattr(proj, 'panels_set', False)
        check_aircraft(new, mon, step, panels=not new.panels_set)
        check_state(new, mon, step)
        check_settings(new, mon, step)
        mon.count('projects moved')
        return new
    if step == 'rebuild':
        settings = proj.settings()
        aircraft = guard('building the aircraft', build, proj.case['aircraft'], proj.root)
        guard('saving the aircraft', native.aircraft.save, aircraft, settings)
        check_aircraft(proj, mon, step)
        proj.panels_set = False
    return proj


def build(ac, root):
    """Aircraft object made through the interface, as for the template project"""
    from pytornado.objects.aircraft import Aircraft
    aircraft = Aircraft()
    aircraft.uid = ac['uid']
    for k, v in ac['refs'].items():
        aircraft.refs[k] = v
    for w in ac['wings']:
        wing = aircraft.add_wing(w['uid'])
        wing.symmetry = w['symmetry']
        for s in w['segments']:
            segment = wing.add_segment(s['uid'])
            for k, v in s['vertices'].items():
                segment.vertices[k] = v
            for k, v in s['airfoils'].items():
                segment.airfoils[k] = v
            for k, v in (s.get('panels') or {}).items():
                segment.panels[k] = v
        for c in w.get('controls', []):
            control = wing.add_control(c['uid'])
            control.device_type = c['device_type']
            control.deflection = c['deflection']
            control.deflection_mirror = c.get('deflection_mirror')
            for part in ('segment_uid', 'rel_vertices', 'rel_hinge_vertices', 'panels'):
                for k, v in (c.get(part) or {}).items():
                    getattr(control, part)[k] = v
    return aircraft


# ----- Generated projects -----

def generated(name, mon):
    import pytornado.database.tools as tools
    from pytornado.stdfun.setup import setup_wkdir
    with project.scratch() as tmp:
        source = guard('looking up the aircraft', tools.get_aircraft_file_path, name) if name else None
        guard('generating the project', setup_wkdir, source)
        root = tmp / 'pytornado'
        stem = name or 'template'
        path = root / 'settings' / f'{stem}.json'
        if name:
            orig = json.loads(Path(source).read_text())
            diff = same_ac(record.read_json(root / 'aircraft' / f'{stem}.json'), orig, root, mon)
            mon.require(diff is None, f'aircraft file of the project generated from {name}: {diff}', 'aircraft file')
        data = record.read_json(path)
        data['save_results'] = {k: True for k in record.SAVE_ALL}
        path.write_text(json.dumps(data))
        results = guard(f'running {stem}', project.run, path)
        o = observe.observe(results)
        mon.require(o.n_panels >= 50, f'{stem} has only {o.n_panels} panels', 'generated')
        mon.require(o.coeffs['L'] > 0, f"lift coefficient of {stem} is {o.coeffs['L']}", 'generated')
        for i, p in enumerate(sorted((root / '_results').rglob('*.dat'))):
            mon.require(np.isfinite(record.read_table(p)[1]).all(), f'{p.name} of {stem} contains values which are not finite', 'generated')
        mon.count('generated projects')
        mon.nontrivial(['generated', name])
