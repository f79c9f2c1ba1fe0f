"""F05: CPACS input and output map to the same model as the native format"""

import copy
import json
import sys
import xml.etree.ElementTree as ET
from pathlib import Path

import numpy as np

from vt import cpacs, gen, observe, project, record
from vt.runner import Violation

RULE = ('random CPACS files (wings with symmetry, segments, component segments, trailing edge devices, aerofoils, aeroperformance maps, '
        'tool specific deflections) read through stand-ins of TiXI and TiGL; the analysis is compared with the one of the equivalent '
        'native project, the coefficients written back with those of every flight state, the rest of the file with what it was; the '
        'converted native file is analysed and compared, too; non-trivial: distinct CPACS file which was analysed and compared')
ASSUMPTIONS = ['the stand-ins (vt/standin) behave like TiXI and TiGL for the functions used; the real libraries are not available here',
               'leading edge devices are not imported from CPACS (not supported) and not part of the property',
               'wings extend from root to tip towards positive y, or upwards if they are vertical; or the other way ("reversed")']
REQUIRE = {'compared analyses': 40, 'compared controls': 40, 'maps written back': 25, 'conversions': 8, 'flight states': 60,
           'refused maps': 4}
MIN_DISTINCT = 40
CASE_TIMEOUT = 120


def prepare():
    sys.path.insert(0, str(Path(__file__).resolve().parent.parent / 'standin'))
    observe.prepare()


def plan(tier, seed):
    scale = {'quick': 2, 'thorough': 12}[tier]
    kinds = ['map', 'map', 'state', 'convert', 'bad map', 'map', 'fin', 'deformed', 'missing', 'reversed', 'reversed control', 'anonymous', 'forward']
    return [{'kind': k, 'seed': [seed, 'F05', i, n]} for n in range(9*scale) for i, k in enumerate(kinds)]


def parse(uid):
    return ''.join(c for c in uid if c.isalnum() or c in '-_')


def odd(rng, uid):
    """UIDs with characters which are not kept"""
    return uid.replace('_', gen.pick(rng, ['_', '.', ' ', ':', '-']))


def is_vertical(w):
    v = w['segments'][0]['vertices']
    return abs(v['b'][2] - v['a'][2]) > abs(v['b'][1] - v['a'][1])


def make(spec):
    """Model for vt.cpacs.build, and the equivalent native case"""
    rng = gen.rng_for(*spec['seed'])
    kind = spec['kind']
    case = gen.case(rng, aircraft_kw=dict(max_c=3, max_s=3, auto_panels=1.0, controls=0, symmetry=(0, 1, 2, 2, 3),
                                          nwings=int(rng.integers(1, 4)), vertical={'fin': 1.0, 'forward': 0}.get(kind, .3)),
                    settings_kw=dict(max_c=4, max_s=7), deform=0)
    ac = case['aircraft']
    if kind.startswith('reversed'):
        # The tip is at the end with the smaller y or z
        for w in ac['wings']:
            w['symmetry'] = 0
            axis = 2 if is_vertical(w) else 1
            at = w['segments'][0]['vertices']['a'][axis]
            for s in w['segments']:
                s['vertices'] = {k: [gen.r3(2*at - x) if i == axis else x for i, x in enumerate(v)] for k, v in s['vertices'].items()}
    ac['uid'] = odd(rng, 'model_a')
    model = {'uid': ac['uid'], 'wings': [], 'airfoils': {}, 'maps': [], 'deflections': [],
             'refs': {'area': ac['refs']['area'], 'length': ac['refs']['chord'], 'point': ac['refs']['gcenter']}}
    ac['uid'] = parse(ac['uid'])
    ac['refs'].update(span=ac['refs']['chord'], rcenter=list(ac['refs']['gcenter']))
    case['airfoils'] = {}
    for i in range(int(rng.integers(1, 4))):
        name = odd(rng, f'foil_{i}')
        text = gen.blade_file(camber=rng.uniform(0, .05), pos=rng.uniform(.3, .6), thick=rng.uniform(.06, .14), n=25)
        coords = np.array([[float(x) for x in line.split()] for line in text.splitlines()])
        model['airfoils'][name] = (coords[:, 0].tolist(), coords[:, 1].tolist())
        case['airfoils']['blade.' + parse(name)] = f'# {parse(name)}\n' + ''.join(f'{x:+.7f} {z:+.7f}\n' for x, z in coords)
    names = list(model['airfoils'])
    if gen.chance(rng, .4):
        # Not used, and without name
        model['airfoils'] = dict(sorted([*model['airfoils'].items(), ('', ([1, .5, 0, .5, 1], [0, .05, 0, -.05, 0]))], key=lambda x: rng.uniform()))

    for n_wing, w in enumerate(ac['wings'], 1):
        if is_vertical(w):
            # Upright leading edge
            y = w['segments'][0]['vertices']['a'][1]
            for s in w['segments']:
                v = s['vertices']
                dy = {'a': v['a'][1] - y, 'b': v['b'][1] - y}
                for le, te in (('a', 'd'), ('b', 'c')):
                    v[te][1] = gen.r3(v[te][1] - dy[le])
                    v[le][1] = y
        uid = odd(rng, w['uid'] + '_x')
        profiles = [gen.pick(rng, names) for _ in range(len(w['segments']) + 1)]
        out = {'uid': uid, 'symmetry': w['symmetry'], 'segments': [], 'profiles': profiles, 'components': []}
        w['uid'] = parse(uid)
        if kind == 'anonymous' and gen.chance(rng, .7):
            out['anonymous'], w['uid'] = True, f'WING{n_wing:02d}'
        unnamed = kind == 'anonymous' and gen.chance(rng, .7)
        for k, s in enumerate(w['segments']):
            suid = odd(rng, s['uid'])
            out['segments'].append({'uid': suid, 'vertices': copy.deepcopy(s['vertices'])})
            s['uid'] = parse(suid)
            if unnamed and gen.chance(rng, .8):
                out['segments'][-1]['anonymous'], s['uid'] = True, f"{w['uid']}_SEGMENT{k + 1:02d}"
            if kind == 'forward':
                # Leading and trailing edge are exchanged
                v = out['segments'][-1]['vertices']
                v['a'], v['b'], v['c'], v['d'] = v['d'], v['c'], v['b'], v['a']
            s['airfoils'] = {'inner': 'airfoils/blade.' + parse(profiles[k]), 'outer': 'airfoils/blade.' + parse(profiles[k + 1])}
            s.pop('panels', None)
        # ----- Component segments and controls -----
        n = len(w['segments'])
        first = 0
        while first < n:
            count = int(rng.integers(1, n - first + 1))
            comp = {'uid': f'{uid}_comp{first}', 'first': first, 'count': count, 'controls': [], 'slats': []}
            if gen.chance(rng, .7) and kind not in ('reversed', 'forward') and not unnamed:
                for ctl, native in controls(rng, w, comp, f'{uid}_flap{first}', kind == 'reversed control'):
                    comp['controls'].append(ctl)
                    w['controls'].append(native)
                    if gen.chance(rng, .7):
                        d = {'uid': ctl['uid']}
                        if gen.chance(rng, .85):
                            native['deflection'] = d['deflection'] = gen.r3(rng.uniform(-12, 12))
                        if w['symmetry'] and gen.chance(rng, .6):
                            native['deflection_mirror'] = d['deflectionMirror'] = gen.r3(rng.uniform(-12, 12))
                        model['deflections'].append(d)
            out['components'].append(comp)
            first += count
        model['wings'].append(out)
        if kind.startswith('reversed'):
            for s in w['segments']:
                v, f = s['vertices'], s['airfoils']
                v['a'], v['b'], v['c'], v['d'] = v['b'], v['a'], v['d'], v['c']
                f['inner'], f['outer'] = f['outer'], f['inner']
    rng.shuffle(model['deflections'])

    # ----- Flight states -----
    for i in range(1 if gen.chance(rng, .5) else int(rng.integers(2, 4))):
        n = 12 if gen.chance(rng, .05) else int(rng.integers(1, 5))
        extra = {}
        if gen.chance(rng, .5):
            extra = {k: [9.0]*int(rng.integers(1, 4)) for k in ('cl', 'cd', 'cs', 'cmd', 'cms', 'cml', 'dampingDerivatives') if gen.chance(rng, .6)}
        model['maps'].append({'uid': f'map{i}', 'altitude': [gen.r3(x) for x in rng.uniform(0, 12000, n)],
                              'machNumber': [gen.r3(x) for x in rng.uniform(.1, .6, n)],
                              'angleOfAttack': [gen.r3(x) for x in rng.uniform(-6, 8, n)],
                              'angleOfSideslip': [gen.r3(x) for x in rng.uniform(-6, 6, n)], 'extra': extra})
    chosen = gen.pick(rng, model['maps'])
    if len(model['maps']) > 1:
        model['map_uid'] = chosen['uid']
    n = len(chosen['altitude'])
    if kind != 'state':
        case['state'] = {'aero': {'altitude': chosen['altitude'], 'mach': chosen['machNumber'], 'alpha': chosen['angleOfAttack'],
                                  'beta': chosen['angleOfSideslip'], 'rate_P': [0]*n, 'rate_Q': [0]*n, 'rate_R': [0]*n}}
    if kind == 'deformed':
        case['deformation'] = gen.deformation(rng, ac)
    case['settings']['save_results'] = dict(record.SAVE_ALL)
    return rng, model, case, chosen


def controls(rng, w, comp, prefix, reverse):
    """Trailing edge devices of a component segment: CPACS and native definition"""
    n = int(rng.integers(1, 3))
    cuts = sorted(rng.choice(np.arange(1, 20), size=2*n, replace=False)/20.0)
    out = []
    for i in range(n):
        ctl, ends = {'uid': f'{prefix}{i}'}, {}
        ok = True
        for side, eta in (('inner', cuts[2*i]), ('outer', cuts[2*i + 1])):
            eta = round(float(eta) + .00137, 5)
            xsi, hinge = gen.r3(rng.uniform(.65, .85)), gen.r3(rng.uniform(.65, .85))
            ctl[side] = {'etaLE': eta, 'etaTE': round(eta + gen.r3(rng.uniform(-.02, .02)), 5), 'xsi': xsi, 'hinge': hinge}
            k, e, x = cpacs.component_to_segment(comp['first'], comp['count'], eta, xsi)
            h = cpacs.component_to_segment(comp['first'], comp['count'], eta, hinge)[2]
            ok = ok and .03 < e < .97
            ends[side] = (w['segments'][k]['uid'], e, x, h)
        if not ok or (ends['inner'][0] == ends['outer'][0] and ends['outer'][1] - ends['inner'][1] < .03):
            continue
        if reverse and ends['inner'][0] != ends['outer'][0]:
            continue
        (s1, e1, x1, h1), (s2, e2, x2, h2) = ends['inner'], ends['outer']
        native = {'uid': ctl['uid'], 'device_type': 'flap', 'deflection': 0, 'segment_uid': {'inner': s1, 'outer': s2},
                  'rel_vertices': {'eta_inner': e1, 'eta_outer': e2, 'xsi_inner': x1, 'xsi_outer': x2},
                  'rel_hinge_vertices': {'xsi_inner': h1, 'xsi_outer': h2}}
        out.append((ctl, native))
    return out


def write(root, model, case, from_map):
    """Project with a CPACS aircraft"""
    path = project.write_project(root, None, None if from_map else case['state'],
                                 dict(case['settings'], **({'state': '__CPACS'} if from_map else {})),
                                 deformation=case.get('deformation'), aircraft_name='ac.xml')
    cpacs.build(model).write(root / 'aircraft' / 'ac.xml', encoding='utf-8', xml_declaration=True)
    return path


def run(path, what):
    try:
        return project.run(path)
    except (MemoryError, OSError) as err:
        if isinstance(err, OSError) and not isinstance(err, FileNotFoundError):
            raise
        raise Violation(f'{what} failed: {type(err).__name__}: {err}', 'exception')
    except Exception as err:
        import traceback
        tb = traceback.extract_tb(err.__traceback__)[-1]
        raise Violation(f'{what} failed: {type(err).__name__}: {str(err).strip()[:300]} ({tb.name}, line {tb.lineno})', 'exception')


def compare(a, b, what, mon):
    """Two records of the same model"""
    for key, tol in (('p', 1e-9), ('v', 1e-9), ('c', 1e-9), ('mid', 1e-9), ('a', 1e-8), ('n', 1e-4)):
        d = record.differences(a['lattice'][key], b['lattice'][key], f'lattice.{key}', tol)
        mon.require(d is None, f'{what}: {d}', f'lattice {key}')
    ea, eb = a['lattice']['entries'], b['lattice']['entries']
    mon.require(ea == eb, f'{what}: panels belong to {ea[:3]}... and {eb[:3]}...', 'bookkeeping')
    d = record.differences(a['aero'], b['aero'], 'aero')
    mon.require(d is None, f'{what}: flight state {d}', 'state')
    cond = max(1e3, np.linalg.cond(b['matrix']))
    # Slopes from the airfoils library may differ (rounding at points of the camber line)
    noise = np.abs(np.array(a['lattice']['n']) - np.array(b['lattice']['n'])).max()
    noise = 0 if noise < 1e-7 else 100*noise
    for n in range(len(b['apm']['CL'])):
        for group in (('Fx', 'Fy', 'Fz', 'FD', 'FC', 'FL'), ('Mx', 'My', 'Mz'), ('Cx', 'Cy', 'Cz', 'CD', 'CC', 'CL'), ('Cl', 'Cm', 'Cn')):
            x, y = (np.array([r['apm'][k][n] for k in group]) for r in (a, b))
            scale = np.abs(y).max()
            mon.require(np.abs(x - y).max() <= (1e-9*cond + noise)*scale, f'{what}: {group} of flight state {n} are {x} and {y}', 'loads')


def strip(node, skip=()):
    """Plain content of an XML element"""
    return (node.tag, sorted(node.attrib.items()), (node.text or '').strip(), [strip(c, skip) for c in node if c not in skip])


def run_case(spec, mon):
    kind = spec['kind']
    rng, model, case, chosen = make(spec)
    from_map = kind != 'state'
    with project.scratch() as tmp:
        if kind == 'bad map':
            return bad_map(rng, tmp, model, case, chosen, mon)
        if kind == 'missing':
            return missing(rng, tmp, model, case, mon)
        native = record.run(case, tmp / 'native')
        path = write(tmp / 'cpacs', model, case, from_map)
        xml = tmp / 'cpacs' / 'aircraft' / 'ac.xml'
        before, tree = xml.read_bytes(), ET.parse(xml)
        results = run(path, 'the analysis of a CPACS aircraft')
        got = record.collect(results, tmp / 'cpacs')
        if kind == 'reversed control':
            return reversed_control(tmp, case, native, got, mon)
        compare(got, native, 'CPACS and native analysis differ', mon)
        names = lambda rec: sorted(rec['files'])
        mon.require(names(got) == names(native), f"result files {names(got)} and {names(native)}", 'files')
        mon.count('compared analyses')
        mon.count('compared controls', sum(len(w['controls']) for w in case['aircraft']['wings']))
        mon.count('flight states', len(native['apm']['CL']))
        if not from_map:
            mon.require(xml.read_bytes() == before, 'an analysis with a native flight state changed the CPACS file', 'file changed')
        else:
            written(xml, tree, chosen, native, got, mon)
            # The file with the results can be analysed again
            again = record.collect(run(path, 'the analysis of a CPACS file with results'), tmp / 'cpacs')
            compare(again, native, 'CPACS file with results', mon)
            written(xml, tree, chosen, native, again, mon)
        if kind == 'convert':
            before = xml.read_bytes()
            convert(tmp, model, case, native, mon)
            mon.require(xml.read_bytes() == before, 'the conversion changed the CPACS file', 'file changed')
        mon.nontrivial([kind, ET.tostring(tree.getroot(), encoding='unicode')])
        mon.sample = {'kind': kind, 'wings': [[w['uid'], w['symmetry'], len(w['segments']), len(w['controls'])] for w in case['aircraft']['wings']],
                      'maps': len(model['maps']), 'states': len(native['apm']['CL']), 'panels': len(native['lattice']['p'])}


def reversed_control(tmp, case, native, got, mon):
    """Controls of wings which extend towards negative y; 'native' has the relative coordinates of CPACS, which start at the other edge"""
    right = copy.deepcopy(case)
    for w in right['aircraft']['wings']:
        for c in w['controls']:
            e, x, h = c['rel_vertices'], c['rel_vertices'], c['rel_hinge_vertices']
            e['eta_inner'], e['eta_outer'] = 1 - e['eta_outer'], 1 - e['eta_inner']
            x['xsi_inner'], x['xsi_outer'] = x['xsi_outer'], x['xsi_inner']
            h['xsi_inner'], h['xsi_outer'] = h['xsi_outer'], h['xsi_inner']
    right = record.run(right, tmp / 'right')
    try:
        compare(got, right, 'reversed wing with controls', mon)
    except Violation:
        compare(got, native, 'reversed wing with controls', mon)
        raise Violation('controls of a wing which extends towards negative y are at the mirrored span positions', 'reversed-wing-controls')
    mon.count('reversed controls', sum(len(w['controls']) for w in case['aircraft']['wings']))


def written(xml, tree, chosen, native, got, mon):
    """The coefficients are in the map which was analysed, nothing else has changed"""
    after = ET.parse(xml)
    base = '/'.join(cpacs.MODEL) + '/analyses/aeroPerformance'
    keys = {'cl': 'CL', 'cd': 'CD', 'cs': 'CC', 'cmd': 'Cl', 'cms': 'Cm', 'cml': 'Cn'}
    for amap in after.getroot().find(base):
        node = amap.find('aeroPerformanceMap')
        if amap.attrib['uID'] != chosen['uid']:
            continue
        for tag, key in keys.items():
            found = node.findall(tag)
            mon.require(len(found) == 1, f'{len(found)} elements <{tag}> in the map', 'written')
            values = [float(x) for x in found[0].text.split(';')]
            want = got['apm'][key]
            mon.require(len(values) == len(want) and all(abs(x - y) <= 5.1e-6*abs(y) + 1e-300 for x, y in zip(values, want)),
                        f'<{tag}> has {values}, the results are {key} = {want}', 'written')
            node.remove(found[0])
        mon.count('maps written back')
    tree = copy.deepcopy(tree)
    for amap in tree.getroot().find(base):
        if amap.attrib['uID'] == chosen['uid']:
            node = amap.find('aeroPerformanceMap')
            for tag in keys:
                for c in node.findall(tag):
                    node.remove(c)
    mon.require(strip(after.getroot()) == strip(tree.getroot()), 'writing back the results changed other parts of the CPACS file', 'file changed')


def convert(tmp, model, case, native, mon):
    """Conversion to the native format"""
    import os
    from pytornado.stdfun.setup import cpacs2pytornado
    root = tmp / 'cpacs'
    cwd = os.getcwd()
    os.chdir(root)
    try:
        with project.quiet():
            cpacs2pytornado(gen.pick(np.random.default_rng(len(model['wings'])), ['aircraft/ac.xml', str(root / 'aircraft' / 'ac.xml')]))
    except Exception as err:
        raise Violation(f'converting a CPACS file failed: {type(err).__name__}: {err}', 'exception')
    finally:
        os.chdir(cwd)
    path = root / 'aircraft' / 'ac.json'
    mon.require(path.is_file(), 'the conversion wrote no native file', 'conversion')
    data = json.loads(path.read_text())
    plain = lambda ac: {'uid': ac['uid'], 'refs': {k: np.array(v, float) for k, v in ac['refs'].items() if k != 'comment'},
                        'wings': [[w['uid'], w['symmetry'], [s['uid'] for s in w['segments']], [c['uid'] for c in w['controls']]] for w in ac['wings']]}
    d = record.differences(plain(data), plain(case['aircraft']), 'aircraft', 1e-12)
    mon.require(d is None, f'converted aircraft differs: {d}', 'conversion')
    other = dict(case, aircraft=data)
    got = record.collect(run(project.write_project(root, **dict(other, airfoils={})), 'the analysis of a converted aircraft'), root)
    compare(got, native, 'converted aircraft', mon)
    mon.count('conversions')


def refused(path, what):
    try:
        project.run(path)
    except MemoryError:
        raise
    except Exception as err:
        return type(err).__name__
    raise Violation(f'{what} was accepted', 'accepted')


def bad_map(rng, tmp, model, case, chosen, mon):
    """Maps with vectors of different length, missing vectors, ambiguous choice"""
    what = gen.pick(rng, ['length', 'missing', 'choice', 'unknown'])
    tags = ['altitude', 'machNumber', 'angleOfAttack', 'angleOfSideslip']
    if what == 'length':
        tag = gen.pick(rng, tags)
        chosen[tag] = chosen[tag] + [chosen[tag][0]] if gen.chance(rng, .5) or len(chosen[tag]) == 1 else chosen[tag][:-1]
    elif what == 'missing':
        del chosen[gen.pick(rng, tags)]
    else:
        if len(model['maps']) == 1:
            model['maps'].append(dict(chosen, uid='map9'))
        model['map_uid'] = 'map_unknown' if what == 'unknown' else None
    path = write(tmp / 'cpacs', model, case, True)
    xml = tmp / 'cpacs' / 'aircraft' / 'ac.xml'
    before = xml.read_bytes()
    refused(path, f'an aeroperformance map with fault ({what})')
    mon.require(xml.read_bytes() == before, 'a refused map changed the CPACS file', 'file changed')
    left = [str(p) for p in (tmp / 'cpacs' / '_results').rglob('*') if p.is_file()] if (tmp / 'cpacs' / '_results').exists() else []
    mon.require(not left, f'a refused map left {left}', 'files left')
    mon.count('refused maps')
    mon.nontrivial([what, chosen])


def missing(rng, tmp, model, case, mon):
    """Other faults in the CPACS file"""
    what = gen.pick(rng, ['no file', 'deflection of unknown control', 'no area', 'no point', 'unknown profile', 'no wings'])
    if what == 'deflection of unknown control':
        model['deflections'].append({'uid': 'unknown', 'deflection': 3.0})
    elif what == 'unknown profile':
        model['wings'][0]['profiles'][0] = 'does_not_exist'
    elif what == 'no wings':
        model['wings'], model['deflections'] = [], []
    path = write(tmp / 'cpacs', model, case, True)
    xml = tmp / 'cpacs' / 'aircraft' / 'ac.xml'
    if what == 'no file':
        xml.unlink()
    elif what in ('no area', 'no point'):
        tree = ET.parse(xml)
        refs = tree.getroot().find('/'.join(cpacs.MODEL) + '/reference')
        refs.remove(refs.find(what[3:]))
        tree.write(xml)
    refused(path, f'a CPACS file with fault ({what})')
    mon.count('refused files')
    mon.nontrivial([what, case['aircraft']])
