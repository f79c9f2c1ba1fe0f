"""G07: wing segments given by geometric properties instead of vertices"""

import copy
import os
from math import asin, atan2, cos, degrees, hypot, radians, sin, tan

import numpy as np

from vt import gen, geom, observe, project, record
from vt.checks import vlmrun
from vt.checks.F03 import capture_loader, guard

RULE = ('random wings given by vertices, whose derived properties are compared with their definitions and which are then given by these properties '
        'and one corner or one edge per segment; random properties (also zero), whose corners are compared with a construction from the definitions; '
        'incomplete definitions; non-trivial: an aircraft with at least one segment given by properties')
ASSUMPTIONS = ['positive chords and spans, |alpha|, |beta|, |dihedral| and |sweep| below 90 degrees']
REQUIRE = {'segments by properties: a': 30, 'segments by properties: b': 30, 'segments by properties: c': 30, 'segments by properties: d': 30,
           'segments by properties: ad': 30, 'segments by properties: bc': 30, 'derived properties': 300, 'values of zero': 100,
           'constructed corners': 200, 'refused definitions': 40, 'redundant properties': 30, 'areas of flat wings': 30, 'saved and loaded': 30,
           'default axes': 30}
MIN_DISTINCT = 100
prepare = observe.prepare

KEYS = ('inner_chord', 'inner_alpha', 'inner_beta', 'inner_axis', 'outer_chord', 'outer_alpha', 'outer_beta', 'outer_axis', 'span', 'sweep', 'dihedral')


def plan(tier, seed):
    n = vlmrun.TIERS[tier]
    return ([{'seed': ['G07', seed, i], 'kind': 'rebuild'} for i in range(160*n)] + [{'seed': ['G07', seed, i], 'kind': 'random'} for i in range(160*n)] +
            [{'seed': ['G07', seed, i], 'kind': 'refused'} for i in range(60*n)])


def run_case(spec, mon):
    rng = gen.rng_for(*spec['seed'], spec['kind'])
    {'rebuild': rebuild, 'random': constructed, 'refused': refused}[spec['kind']](rng, mon)


# ----- Definitions -----

def derive(v, axi=.25, axo=.25):
    """Geometric properties of a segment with the given corners"""
    v = {k: np.array(x, float) for k, x in v.items()}
    out = {'inner_axis': axi, 'outer_axis': axo}
    for side, p, q in (('inner', 'a', 'd'), ('outer', 'b', 'c')):
        x, y, z = v[q] - v[p]
        out[f'{side}_chord'] = float(np.sqrt(x*x + y*y + z*z))
        out[f'{side}_alpha'] = degrees(-atan2(z, x))
        out[f'{side}_beta'] = degrees(asin(y/hypot(x, y)))
    ab = v['b'] - v['a']
    out['span'] = hypot(ab[1], ab[2])
    out['sweep'] = degrees(atan2(ab[0], out['span']))
    axis = v['b'] + axo*(v['c'] - v['b']) - v['a'] - axi*(v['d'] - v['a'])
    out['dihedral'] = degrees(atan2(axis[2], axis[1]))
    return out


def edge(chord, alpha, beta):
    """Vector along a chord with the given length, angles"""
    d = np.array([cos(radians(beta)), sin(radians(beta)), -cos(radians(beta))*tan(radians(alpha))])
    return chord*d/np.linalg.norm(d)


def corners(g, point, pos):
    """Corners of a segment with the given properties"""
    ad, bc = (edge(*(g[f'{s}_{k}'] for k in ('chord', 'alpha', 'beta'))) for s in ('inner', 'outer'))
    shift = g['outer_axis']*bc - g['inner_axis']*ad
    # Direction of the leading edge in the y-z plane, such that the axis line has the given dihedral: the component normal to the axis vanishes
    n = np.array([-sin(radians(g['dihedral'])), cos(radians(g['dihedral']))])
    h = -float(n @ shift[1:])
    t = np.sqrt(g['span']**2 - h**2)
    yz = t*np.array([n[1], -n[0]]) + h*n
    ab = np.array([g['span']*tan(radians(g['sweep'])), *yz])
    out = {'a': np.zeros(3), 'b': ab, 'c': ab + bc, 'd': ad}
    return {k: x + np.array(pos, float) - out[point] for k, x in out.items()}


# ----- Observation -----

def analyse(case, root, mon):
    """Observation of an analysis, and the aircraft object it used"""
    from pytornado import fileio
    captured = capture_loader(fileio)
    try:
        results = observe.run_results(case, root)
    finally:
        fileio.native.aircraft.load = captured.original
    mon.require(len(captured) == 1, f'{len(captured)} aircraft were loaded by one analysis', 'loader')
    return observe.observe(results), captured[0], results


def compare(o, p, mon, what, case):
    # The camber line of an aerofoil is found iteratively by a library: rounding differences of positions are magnified
    foils = {f for w in case['aircraft']['wings'] for s in w['segments'] for f in s['airfoils'].values()}
    tol_n, tol = (1e-9, 1e-6) if foils <= set(gen.SYMMETRIC) else (1e-4, 1e-5)
    mon.require(o.n_panels == p.n_panels, f'{what}: {p.n_panels} panels instead of {o.n_panels}', 'panels')
    size = np.ptp(o.p.reshape(-1, 3), axis=0).max()
    d = np.abs(o.p - p.p).max()/size
    mon.peak('deviation of corners', d)
    mon.require(d <= 1e-12, f'{what}: panel corners differ by {d*size:.2e} m', 'corners')
    mon.peak(f'deviation of normals ({tol_n})', np.abs(o.n - p.n).max())
    mon.require(np.abs(o.n - p.n).max() <= tol_n, f'{what}: panel normals differ by {np.abs(o.n - p.n).max():.2e}', 'normals')
    if np.linalg.cond(o.aic) < 1e4:
        scale = np.abs(o.f).max()
        d = np.abs(o.f - p.f).max()/scale
        mon.peak(f'deviation of loads over condition ({tol})', d/np.linalg.cond(o.aic))
        mon.require(d <= tol*np.linalg.cond(o.aic), f'{what}: loads differ by {d:.2e}', 'loads')
        mon.count('loads compared')


def check_properties(case, aircraft, mon, axes=None):
    """The object offers the derived properties, areas, spans, positions"""
    total = 0.0
    for w in case['aircraft']['wings']:
        wing = aircraft.wings[w['uid']]
        want = {s['uid']: derive(s['vertices'], *(axes or {}).get((w['uid'], s['uid']), (.25, .25))) for s in w['segments']}
        span, area = sum(g['span'] for g in want.values()), 0.0
        pos = 0.0
        for s in w['segments']:
            seg, g = wing.segments[s['uid']], want[s['uid']]
            for k in KEYS:
                got = seg.geometry[k]
                mon.require(isinstance(got, float) and abs(got - g[k]) <= 1e-7*max(1, abs(g[k])), f"'{k}' of {s['uid']} is {got!r}, expected {g[k]}", 'derived')
            mon.count('derived properties', len(KEYS))
            part = g['span']*(g['inner_chord'] + g['outer_chord'])/2
            mon.require(abs(seg.area - part) <= 1e-9*part, f"area of {s['uid']} is {seg.area}, expected {part}", 'area')
            area += part
            for k, x in (('inner', pos/span), ('outer', (pos + g['span'])/span)):
                mon.require(abs(seg.position[k] - x) <= 1e-9, f"position '{k}' of {s['uid']} is {seg.position[k]}, expected {x}", 'position')
            pos += g['span']
        mon.require(abs(wing.span - span) <= 1e-9*span, f"span of {w['uid']} is {wing.span}, expected {span}", 'span')
        mon.require(abs(wing.area - area) <= 1e-9*area, f"area of {w['uid']} is {wing.area}, expected {area}", 'area')
        total += area
    mon.require(abs(aircraft.area - total) <= 1e-9*total, f'area of the aircraft is {aircraft.area}, expected {total}', 'area')


def flat_areas(case, o, aircraft, mon):
    """Without twist the panels of one side cover exactly the area of the wing"""
    for w in case['aircraft']['wings']:
        idx = np.concatenate([e.idx for e in o.entries if e.wing == w['uid'] and not e.mirror])
        if any(np.abs(np.array(s['vertices'][q], float) - s['vertices'][p])[1:].max() > 0 for s in w['segments'] for p, q in ('ad', 'bc')):
            continue
        got, want = o.a[idx].sum(), aircraft.wings[w['uid']].area
        mon.require(abs(got - want) <= 1e-7*want, f"panels of {w['uid']} cover {got} m2, the area is {want} m2", 'area')
        mon.count('areas of flat wings')


def by_properties(rng, s, g, mon, keep=None):
    """Definition of the same segment by properties and a corner or an edge"""
    way = keep or gen.pick(rng, ['a', 'b', 'c', 'd', 'ad', 'bc'])
    full = {k: [float(x) for x in v] for k, v in s['vertices'].items()}
    s['vertices'] = {k: full[k] for k in way}
    s['geometry'] = dict(g)
    side = {'ad': 'inner', 'bc': 'outer'}.get(way)
    if side:
        # The properties of a given edge are not needed; where they are given the vertices count
        if gen.chance(rng, .6):
            for k in ('chord', 'alpha', 'beta'):
                del s['geometry'][f'{side}_{k}']
        else:
            for k in ('chord', 'alpha', 'beta'):
                s['geometry'][f'{side}_{k}'] *= gen.pick(rng, [1., .7])
            mon.count('redundant properties')
    for k in ('inner_axis', 'outer_axis'):
        if s['geometry'][k] == .25 and gen.chance(rng, .5):
            s['geometry'].pop(k)
            mon.count('default axes')
    if gen.chance(rng, .2):
        for k in 'abcd':
            s['vertices'].setdefault(k, None)
    mon.count(f'segments by properties: {way}')
    mon.count('values of zero', sum(x == 0 for x in s['geometry'].values()))


def rebuild(rng, mon):
    case = gen.case(rng, aircraft_kw=dict(vertical=0., max_c=2, max_s=3, twist=gen.chance(rng, .7), symmetry=(0, 1, 2, 3) if gen.chance(rng, .1) else (0, 2)),
                    settings_kw=dict(max_c=2, max_s=4))
    axes = {}
    if gen.chance(rng, .4):
        # Properties in addition to all vertices are replaced by the ones of the vertices, except for the positions of the axes
        for w in case['aircraft']['wings']:
            for s in w['segments']:
                if gen.chance(rng, .5):
                    axes[w['uid'], s['uid']] = (gen.r3(rng.uniform(0, 1)), gen.r3(rng.uniform(0, 1)))
                    s['geometry'] = dict(zip(('inner_axis', 'outer_axis'), axes[w['uid'], s['uid']]))
                    if gen.chance(rng, .5):
                        s['geometry'].update({k: gen.r3(rng.uniform(.5, 3)) for k in KEYS if 'axis' not in k and gen.chance(rng, .7)})
                        mon.count('redundant properties')
    with project.scratch() as tmp:
        o, aircraft, _ = analyse(case, tmp, mon)
    check_properties(case, aircraft, mon, axes)
    flat_areas(case, o, aircraft, mon)
    other = copy.deepcopy(case)
    for w in other['aircraft']['wings']:
        for s in w['segments']:
            if gen.chance(rng, .85):
                # Axes do not matter for the shape when the dihedral is the one of the same axes
                ax = axes.get((w['uid'], s['uid'])) or ((.25, .25) if gen.chance(rng, .5) else (gen.pick(rng, [0., .5, 1., gen.r3(rng.random())]), gen.pick(rng, [0., 1., gen.r3(rng.random())])))
                by_properties(rng, s, derive(s['vertices'], *ax), mon)
    with project.scratch() as tmp:
        p, again, results = analyse(other, tmp, mon)
        compare(o, p, mon, 'aircraft given by properties', case)
        # What is saved and loaded is the same aircraft
        if gen.chance(rng, .5):
            from pytornado import fileio
            guard('saving the aircraft', fileio.native.aircraft.save, again, results['settings'])
            saved = record.read_json(tmp / 'aircraft' / 'ac.json')
            third = {**other, 'aircraft': saved}
            with project.scratch() as tmp2:
                for sub in ('airfoils',):
                    (tmp2 / sub).mkdir(exist_ok=True)
                q, _, _ = analyse(third, tmp2, mon)
            compare(o, q, mon, 'aircraft given by properties, saved and loaded', case)
            mon.count('saved and loaded')
    mon.nontrivial(other)
    mon.sample = vlmrun.summary(other, p)


def angle(rng, limit, zero=.3):
    return 0.0 if gen.chance(rng, zero) else float(round(rng.uniform(-limit, limit), gen.pick(rng, [0, 2, 6])))


def constructed(rng, mon):
    """Wings made of segments with properties chosen at random, each beginning at the end of the previous one"""
    case = gen.case(rng, aircraft_kw=dict(nwings=1, controls=0., max_c=2, max_s=3), settings_kw=dict(max_c=2, max_s=4))
    w = case['aircraft']['wings'][0]
    w['symmetry'] = gen.pick(rng, [0, 0, 2])
    vertical = gen.chance(rng, .2)
    # Mirrored wings stay clear of the plane of symmetry
    pos = rng.uniform(-1, 1, 3) + [0, 30. if w['symmetry'] else 0., 0]
    inner = None
    by_vertices = copy.deepcopy(case)
    twist = gen.chance(rng, .7)
    for s, t in zip(w['segments'], by_vertices['aircraft']['wings'][0]['segments']):
        for _ in range(100):
            ends = [inner] if inner else [{'chord': float(round(rng.uniform(.5, 3), 3)), 'alpha': angle(rng, 20)*twist, 'beta': angle(rng, 12, .7)*twist}]
            ends.append({'chord': float(round(rng.uniform(.5, 3), 3)), 'alpha': angle(rng, 20)*twist, 'beta': angle(rng, 12, .7)*twist})
            g = {f'{side}_{k}': v for side, e in zip(('inner', 'outer'), ends) for k, v in e.items()}
            g.update(inner_axis=gen.pick(rng, [0., .25, .25, 1., gen.r3(rng.random())]), outer_axis=gen.pick(rng, [0., .25, .25, 1., gen.r3(rng.random())]),
                     span=float(round(rng.uniform(1.5, 5), 3)), sweep=angle(rng, 50), dihedral=angle(rng, 85 if vertical else 30))
            shift = g['outer_axis']*edge(*ends[1].values()) - g['inner_axis']*edge(*ends[0].values())
            if np.linalg.norm(shift) < .6*g['span']:
                break
        v = corners(g, 'a', pos)
        t['vertices'] = s['vertices'] = {k: [float(x) for x in v[k]] for k in 'abcd'}
        by_properties(rng, s, g, mon)
        mon.count('constructed corners', 4)
        pos, inner = v['b'], ends[1]
    with project.scratch() as tmp:
        p, aircraft, _ = analyse(case, tmp, mon)
    for s, t in zip(w['segments'], by_vertices['aircraft']['wings'][0]['segments']):
        got = aircraft.wings[w['uid']].segments[s['uid']].vertices
        for k in 'abcd':
            mon.require(got[k] is not None and np.abs(np.array(got[k], float) - t['vertices'][k]).max() <= 1e-9,
                        f"corner '{k}' of {s['uid']} with {s['geometry']} is {got[k]}, expected {t['vertices'][k]}", 'corners')
    compare(observe.run_case(by_vertices), p, mon, 'wing with properties chosen at random', case)
    mon.nontrivial(case)
    mon.sample = vlmrun.summary(case, p)


def refused(rng, mon):
    """Definitions which do not determine the segment"""
    case = gen.case(rng, aircraft_kw=dict(nwings=1, vertical=0., controls=0., max_c=2, max_s=3), settings_kw=dict(max_c=2, max_s=4))
    case['settings']['save_results'] = dict(record.SAVE_ALL)
    s = gen.pick(rng, case['aircraft']['wings'][0]['segments'])
    g = derive(s['vertices'])
    why = gen.pick(rng, ['missing property', 'corners', 'no corner', 'no properties', 'missing property for edge', 'three corners', 'type'])
    if why == 'missing property':
        by_properties(rng, s, g, mon, gen.pick(rng, 'abcd'))
        s['geometry'].pop(gen.pick(rng, [k for k in KEYS if 'axis' not in k]))
    elif why == 'missing property for edge':
        way = gen.pick(rng, ['ad', 'bc'])
        by_properties(rng, s, g, mon, way)
        s['geometry'].pop(gen.pick(rng, [k for k in KEYS if 'axis' not in k and {'ad': 'inner', 'bc': 'outer'}[way] not in k]))
    elif why in ('corners', 'three corners', 'no corner'):
        keep = {'corners': ['ab', 'ac', 'bd', 'cd'], 'three corners': ['abc', 'abd', 'acd', 'bcd'], 'no corner': ['']}[why]
        keep = gen.pick(rng, keep)
        s['vertices'] = {k: v for k, v in s['vertices'].items() if k in keep}
        s['geometry'] = g
    elif why == 'no properties':
        keep = gen.pick(rng, ['a', 'b', 'c', 'd', 'ad', 'bc', 'ab', 'abc', 'bcd'])
        s['vertices'] = {k: v for k, v in s['vertices'].items() if k in keep}
    else:
        by_properties(rng, s, g, mon, 'a')
        s['geometry'][gen.pick(rng, [k for k in KEYS if k in s['geometry']])] = gen.pick(rng, ['2', [1.], {}, '1.0'])
    with project.scratch() as tmp:
        out = record.attempt(case, tmp)
        mon.require(not isinstance(out, dict), f"segment with vertices {sorted(s['vertices'])} and properties {sorted(s.get('geometry', {}))} was accepted ({why})", 'accepted')
        left = [str(p) for p in tmp.rglob('*') if p.is_file() and '_results' in str(p) and p.stat().st_size]
        mon.require(not left, f'refused analysis left results: {left[:3]}', 'files')
    mon.count('refused definitions')
    mon.count(f'refused: {why}')
