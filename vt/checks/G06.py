"""G06: panel numbers, spanwise borders and convergence"""

import copy
from math import ceil, floor

import numpy as np

from vt import gen, geom, observe
from vt.checks import G02, vlmrun

RULE = ('random wings with given and automatic panel numbers, with and without controls (edges close to each other, to borders and to segment '
        'edges), and series of refined lattices; non-trivial: more than one panel')
ASSUMPTIONS = ['where a rounded-up product is within 1e-9 of an integer both neighbours are accepted']
REQUIRE = {'segments without controls': 300, 'automatic numbers': 200, 'strips with controls': 500, 'controls with automatic numbers': 100,
           'borders': 1000, 'merged borders': 20, 'narrow controls': 20, 'series': 20}
LIMIT = 0.01
prepare = observe.prepare


def plan(tier, seed):
    n = vlmrun.TIERS[tier]
    return [{'seed': ['G06', seed, i], 'kind': 'series'} for i in range(40*n)] + [{'seed': ['G06', seed, i], 'kind': 'counts'} for i in range(450*n)]


def ceils(x):
    return {ceil(x - 1e-9), ceil(x), ceil(x + 1e-9)}


def leading_span(seg):
    a, b = (np.array(seg['vertices'][k], float) for k in 'ab')
    return float(np.hypot(*(b - a)[1:]))


def make(spec):
    rng = gen.rng_for(*spec['seed'], 'counts')
    kw = dict(twist=False, controls=gen.pick(rng, [0., 1., 1.]), symmetry=(0, 2), nseg=int(rng.integers(1, 4)), auto_panels=.5,
              max_c=6, max_s=gen.pick(rng, [3, 8, 30]), nwings=1 if gen.chance(rng, .7) else 2)
    case = gen.case(rng, aircraft_kw=kw, settings_kw=dict(max_c=6, max_s=gen.pick(rng, [4, 20])))
    for w in case['aircraft']['wings']:
        for s in w['segments']:
            # Only one of the numbers may be given
            if s.get('panels') and gen.chance(rng, .3):
                s['panels'].pop(gen.pick(rng, ['num_c', 'num_s']))
        if gen.chance(rng, .5):
            G02.nudge(rng, w)
        if w['controls'] and gen.chance(rng, .2):
            # Too narrow to be modelled
            c = gen.pick(rng, w['controls'])
            if c['segment_uid']['inner'] == c['segment_uid']['outer']:
                rv = c['rel_vertices']
                rv['eta_outer'] = min(1., rv['eta_inner'] + gen.pick(rng, [.0005, .003, .0095]))
    for k in ('vlm_autopanels_c', 'vlm_autopanels_s'):
        if gen.chance(rng, .1):
            case['settings'].pop(k)
    return case


def counts(case, o, mon):
    autoc = case['settings'].get('vlm_autopanels_c', 4)
    autos = case['settings'].get('vlm_autopanels_s', 4)
    rows = geom.strips(case, o)
    for (uid, suid, mirror), strips in rows.items():
        w = next(w for w in case['aircraft']['wings'] if w['uid'] == uid)
        seg = next(s for s in w['segments'] if s['uid'] == suid)
        controls = {c['uid']: c for c in w['controls']}
        given = seg.get('panels') or {}
        num_c = given.get('num_c') or autoc
        if given.get('num_s'):
            options = {given['num_s']}
        else:
            options = ceils(leading_span(seg)/sum(leading_span(s) for s in w['segments'])*autos)
        mon.count('automatic numbers', not given.get('num_s') or not given.get('num_c'))
        where = f'segment {suid}' + (' (mirrored)' if mirror else '')
        actual = [0.0] + [s.right for s in strips]
        pieces = [r[:2] for c in w['controls'] for k, r in geom.control_on_segments(w, c).items() if k == suid]
        edges = [e for r in pieces for e in r if r[1] - r[0] >= LIMIT]
        # One which is too narrow by itself may be wide enough when an edge is merged with a border nearby
        allowed = [e for r in pieces for e in r]
        mon.count('narrow controls', sum(r[1] - r[0] < LIMIT for r in pieces))

        # ----- Spanwise -----
        if not edges:
            mon.count('segments without controls')
            mon.require(len(strips) in options, f'{where}: {len(strips)} spanwise panels, expected {sorted(options)}', 'spanwise number')
            mon.require(np.abs(np.array(actual) - np.linspace(0, 1, len(strips) + 1)).max() <= 1e-9, f'{where}: strips are not equally spaced', 'spacing')
        widths = np.diff(actual)
        mon.count('borders', len(actual))
        mon.require(widths.min() >= LIMIT - 1e-9, f'{where}: spanwise borders only {widths.min():.2e} apart', 'sliver')
        fits = []
        for n in options:
            even = list(np.linspace(0, 1, n + 1))
            wanted, possible = np.array(sorted(edges + even)), np.array(sorted(allowed + even))
            got = np.array(actual)
            missing = np.abs(wanted[:, None] - got[None]).min(axis=1).max()
            extra = np.abs(got[:, None] - possible[None]).min(axis=1).max()
            fits.append((missing < LIMIT + 1e-9 and extra <= 1e-9, missing, extra))
            mon.count('merged borders', (np.abs(wanted[:, None] - got[None]).min(axis=1) > 1e-9).sum())
        mon.require(any(f[0] for f in fits), f'{where}: spanwise borders {np.round(actual, 5).tolist()} do not match control edges {edges} and '
                    f'{sorted(options)} panels', 'borders')

        # ----- Chordwise -----
        for strip in strips:
            mon.count('strips with controls', len(strip.parts) > 1)
            for q in strip.parts:
                if q.entry.control is not None:
                    given_c = (controls[q.entry.control].get('panels') or {}).get('num_c')
                    want = {given_c or autoc}
                    mon.count('controls with automatic numbers', given_c is None)
                    name = f"control '{q.entry.control}'"
                else:
                    length = .5*(q.back[0] + q.back[1] - q.front[0] - q.front[1])
                    want = ceils(length*num_c) if len(strip.parts) > 1 else {num_c}
                    name = 'rest' if len(strip.parts) > 1 else 'strip'
                mon.require(len(q.idx) in want, f'{where}, {name} in strip {strip.left:.4f}..{strip.right:.4f}: {len(q.idx)} chordwise panels, '
                            f'expected {sorted(want)}', 'chordwise number')
                # Equal spacing along both side edges
                for lead, trail in ((0, 3), (1, 2)):
                    steps = q.xsi[:, trail] - q.xsi[:, lead]
                    mon.require(np.ptp(steps) <= 1e-7, f'{where}, {name}: chordwise panels are not equally spaced', 'spacing')


def series(spec, mon):
    rng = gen.rng_for(*spec['seed'], 'series')
    case = gen.case(rng, aircraft_kw=dict(nwings=1, controls=0., symmetry=(2,), vertical=0., airfoils='sym', nseg=1),
                    aero_kw=dict(rates=False, beta=False))
    aero = case['state']['aero']
    aero['alpha'] = gen.r3(rng.uniform(1, 8))
    base = 2
    values, panels = [], []
    for level in range(3):
        n = base*2**level
        for s in case['aircraft']['wings'][0]['segments']:
            s['panels'] = {'num_c': n, 'num_s': 2*n}
        o = observe.run_case(case)
        values.append(o.forces['L'])
        panels.append(o.n_panels)
        scale = np.linalg.norm(o.f, axis=1).sum()
    d1, d2 = abs(values[1] - values[0]), abs(values[2] - values[1])
    mon.peak('last change relative to loads', d2/scale)
    mon.require(d2 <= max(.9*d1, .05*scale), f'lift with {panels} panels: {values}, refinement does not converge', 'convergence')
    mon.require(d2 <= .12*scale, f'lift with {panels} panels: {values}', 'convergence')
    mon.count('series')
    mon.nontrivial(case)


def run_case(spec, mon):
    if spec['kind'] == 'series':
        return series(spec, mon)
    case = make(spec)
    o = observe.run_case(case)
    counts(case, o, mon)
    if o.n_panels > 1:
        mon.nontrivial(case)
    mon.sample = vlmrun.summary(case, o)
