"""O01: the object model an analysis leaves behind describes the definition completely"""

import numpy as np

from vt import gen, observe, project
from vt.checks import vlmrun
from vt.runner import Violation

RULE = ('aircraft objects recorded during analyses of random aircraft are enumerated with the helper functions before and after the '
        'lattice is made; non-trivial: more than one wing, segment or control')
ASSUMPTIONS = ['an analysis makes one aircraft object, which is complete once Aircraft.generate() returns',
               'helpers of objecttools which do not exist are not called']
REQUIRE = {'enumerations': 400, 'subareas': 3000, 'controls': 300, 'subareas of controls': 300, 'strips of controls': 300, 'names used in several wings': 20, 'areas': 50}
prepare = observe.prepare


def plan(tier, seed):
    return vlmrun.specs('O01', seed, 350*vlmrun.TIERS[tier])


def run_case(spec, mon):
    from pytornado.objects import aircraft as module
    case = vlmrun.make(spec)
    if spec['seed'][2] % 3 == 0:
        local_names(case['aircraft'])
        mon.count('names used in several wings', len(case['aircraft']['wings']) > 1)
    seen = []
    original = module.Aircraft.generate

    def generate(self, *args, **kw):
        out = original(self, *args, **kw)
        seen.append(self)
        definition(self, case['aircraft'], mon, 'after generating')
        return out
    module.Aircraft.generate = generate
    try:
        with project.scratch() as tmp:
            results = observe.run_results(case, tmp)
    finally:
        module.Aircraft.generate = original
    mon.require(len({id(a) for a in seen}) == 1, f'{len(seen)} aircraft were generated in one analysis', 'one aircraft')
    o = observe.observe(results)
    ac = seen[0]
    definition(ac, case['aircraft'], mon, 'after the analysis')
    subareas(ac, case['aircraft'], results['lattice'], mon)
    sizes(ac, case['aircraft'], mon)
    if sum(len(w['segments']) + len(w['controls']) for w in case['aircraft']['wings']) > 1:
        mon.nontrivial([spec, case])
    mon.sample = vlmrun.summary(case, o)


def local_names(data):
    """Segments and controls with the same names in all wings"""
    for w in data['wings']:
        names = {s['uid']: f's{i}' for i, s in enumerate(w['segments'])}
        for s in w['segments']:
            s['uid'] = names[s['uid']]
        for i, c in enumerate(w.get('controls') or []):
            c['uid'] = f'c{i}'
            c['segment_uid'] = {k: names[v] for k, v in c['segment_uid'].items()}


def reach(w, k, kind):
    """Controls of the given type on segment k of a wing: (name, inner eta, outer eta)"""
    order = [s['uid'] for s in w['segments']]
    out = []
    for c in w.get('controls') or []:
        i, j = (order.index(c['segment_uid'][x]) for x in ('inner', 'outer'))
        if c['device_type'] == kind and i <= k <= j:
            out.append((c['uid'], c['rel_vertices']['eta_inner'] if k == i else 0., c['rel_vertices']['eta_outer'] if k == j else 1.))
    return out


def call(name, *args):
    """Items of a helper as a list; None if there is no such helper"""
    from pytornado.objects import objecttools
    func = getattr(objecttools, name, None)
    if func is None:
        return None
    try:
        out = func(*args)
        return out if isinstance(out, int) else list(out)
    except (MemoryError, OSError):
        raise
    except Exception as err:
        raise Violation(f'{name}() failed: {type(err).__name__}: {err}', 'exception')


def same(got, expected, what, mon):
    """Same items (number, name, identical object) in the same order"""
    if got is None:
        return
    mon.count('enumerations')
    flat = [[t for t in (item if isinstance(item[0], tuple) else (item,))] for item in got]
    names = [[(t[0], t[1]) for t in item] for item in flat]
    want = [[(t[0], t[1]) for t in item] for item in expected]
    mon.require(names == want, f'{what}: enumerated {names}, expected {want}', 'items')
    mon.require(all(a[2] is b[2] for x, y in zip(flat, expected) for a, b in zip(x, y)), f'{what}: other objects than those of the model', 'objects')


def definition(ac, data, mon, when):
    """Wings, segments and controls, in the order of their definition, with the right owners"""
    wings, segments, controls = [], [], []
    for i, w in enumerate(data['wings']):
        obj = ac.wings.get(w['uid'])
        mon.require(obj is not None, f"{when}: there is no wing '{w['uid']}'", 'model')
        wings.append([(i, w['uid'], obj)])
        for key, table, out in (('segments', obj.segments, segments), ('controls', obj.controls, controls)):
            uids = [x['uid'] for x in w.get(key) or []]
            mon.require(list(table) == uids, f"{when}: {key} of '{w['uid']}' are {list(table)}, expected {uids}", 'model')
            for k, uid in enumerate(uids):
                mon.require(table[uid].parent_wing is obj, f"{when}: '{uid}' belongs to another wing", 'owners')
                mon.require(table[uid].uid == uid, f"{when}: '{uid}' is named '{table[uid].uid}'", 'model')
                out.append([(k, uid, table[uid]), wings[-1][0]])
    mon.require(len(ac.wings) == len(wings), f'{when}: wings {list(ac.wings)}', 'model')
    for name, items in (('wings', wings), ('segments', segments), ('controls', controls)):
        same(call('all_' + name, ac), items, f'{when}: {name}', mon)
        n = call('count_all_' + name, ac)
        mon.require(n in (None, len(items)), f'{when}: {n} {name}, the aircraft has {len(items)}', 'number')
    mon.count('controls', len(controls))


def subareas(ac, data, lattice, mon):
    """Every subarea once, with its owners; the bookkeeping of the lattice refers to the same subareas once per side"""
    strips, areas = [], []
    for i, w in enumerate(data['wings']):
        for k, s in enumerate(w['segments']):
            wing = ac.wings[w['uid']]
            segment = wing.segments[s['uid']]
            for j, (name, strip) in enumerate(segment.subdivision.items()):
                strips.append([(j, name, strip), (k, s['uid'], segment), (i, w['uid'], wing)])
                mon.require(strip.parent_segment is segment and strip.parent_wing is wing, f"strip {j} of '{s['uid']}' has other owners", 'owners')
                middle = .5*(strip.rel_vertices['eta_a'] + strip.rel_vertices['eta_b'])
                for kind in ('flap', 'slat'):
                    # Borders which are closer than one percent are merged
                    for uid, inner, outer in reach(w, k, kind):
                        if inner + .01 < middle < outer - .01:
                            mon.count('strips of controls')
                            got = strip.subarea.get(kind)
                            mon.require(got is not None and got.parent_control is not None and got.parent_control.uid == uid,
                                        f"strip {j} of '{s['uid']}' (around eta = {middle:.3f}) has no subarea of the {kind} '{uid}'", 'owners')
                for m, (kind, sub) in enumerate(strip.subarea.items()):
                    areas.append([(m, kind, sub), *strips[-1]])
                    mon.require(sub.parent_subdivision is strip and sub.parent_segment is segment and sub.parent_wing is wing and sub.type == kind,
                                f"subarea '{kind}' of strip {j} of '{s['uid']}' has other owners or another type", 'owners')
                    owner = sub.parent_control
                    if kind == 'segment':
                        mon.require(owner is None, f"subarea of segment '{s['uid']}' belongs to a control", 'owners')
                    else:
                        mon.require(owner is not None and wing.controls.get(owner.uid) is owner and owner.device_type == kind,
                                    f"'{kind}' of strip {j} of '{s['uid']}' does not belong to a {kind} of wing '{w['uid']}'", 'owners')
    same(call('all_subdivisions', ac), strips, 'strips', mon)
    same(call('all_subareas', ac), areas, 'subareas', mon)
    mon.require(call('count_all_subareas', ac) in (None, len(areas)), 'number of subareas', 'number')
    mon.count('subareas', len(areas))

    booked = sorted((id(e.subarea), bool(e.mirror)) for e in lattice.panel_bookkeeping)
    want = sorted((id(x[0][2]), side) for x in areas for side in ((False, True) if x[-1][2].symmetry else (False,)))
    mon.require(booked == want, 'the bookkeeping of the lattice does not contain every subarea once per side', 'bookkeeping')

    for uid in [c['uid'] for w in data['wings'] for c in w.get('controls') or []] + ['no such control']:
        got = call('all_subareas_of_control', ac, uid)
        if got is None:
            break
        mine = [x[0] for x in areas if x[0][2].parent_control is not None and x[0][2].parent_control.uid == uid]
        mon.require((uid == 'no such control') == (not mine), f"control '{uid}' has {len(mine)} subareas", 'subareas of controls')
        mon.require([(t[0], t[1], id(t[2])) for t in got] == [(t[0], t[1], id(t[2])) for t in mine],
                    f"subareas of control '{uid}': {[t[:2] for t in got]}, expected {[t[:2] for t in mine]}", 'subareas of controls')
        mon.count('subareas of controls', len(mine))


def sizes(ac, data, mon):
    """Areas and spans (of one side) of wings whose chords are parallel to the x-axis"""
    total, known = 0.0, True
    for w in data['wings']:
        corners = [{k: np.array(v, float) for k, v in s['vertices'].items()} for s in w['segments']]
        if any(np.abs((v['d'] - v['a'])[1:]).max() > 0 or np.abs((v['c'] - v['b'])[1:]).max() > 0 for v in corners):
            known = False
            continue
        wing = ac.wings[w['uid']]
        spans = [float(np.linalg.norm((v['b'] - v['a'])[1:])) for v in corners]
        areas = [.5*b*((v['d'] - v['a'])[0] + (v['c'] - v['b'])[0]) for b, v in zip(spans, corners)]
        total += sum(areas)
        mon.require(abs(wing.span - sum(spans)) <= 1e-6*sum(spans), f"span of '{w['uid']}' is {wing.span}, expected {sum(spans)}", 'size')
        mon.require(abs(wing.area - sum(areas)) <= 1e-6*sum(areas), f"area of '{w['uid']}' is {wing.area}, expected {sum(areas)}", 'size')
        for s, b, a in zip(w['segments'], spans, areas):
            mon.require(abs(wing.segments[s['uid']].area - a) <= 1e-6*a, f"area of '{s['uid']}' is {wing.segments[s['uid']].area}, expected {a}", 'size')
        mon.count('areas', len(areas))
    if known:
        mon.require(abs(ac.area - total) <= 1e-6*total, f'area of the aircraft is {ac.area}, expected {total}', 'size')
        mon.count('areas of aircraft')
