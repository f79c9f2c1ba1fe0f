"""G02: control surfaces occupy exactly the region the definition names"""

import numpy as np

from vt import gen, geom, observe
from vt.checks import vlmrun

RULE = ('random wings of one to four segments with up to six controls (flaps and slats overlapping in span, edges on, near and away from '
        'segment and panel borders); non-trivial: at least one control')
ASSUMPTIONS = ['dividing lines on twisted segments are projected along the normal at the inner leading edge',
               'between segments positions are interpolated with the distance along the control']
REQUIRE = {'controls': 400, 'controls over several segments': 60, 'strips of controls': 1000, 'tapered dividing lines': 60,
           'mirrored controls': 60, 'moved edges': 10, 'slats': 50}
LIMIT = 0.01
prepare = observe.prepare


def plan(tier, seed):
    return [{'seed': ['G02', seed, i]} for i in range(500*vlmrun.TIERS[tier])]


def make(spec):
    rng = gen.rng_for(*spec['seed'])
    kw = dict(twist=gen.chance(rng, .3), controls=1.0, symmetry=gen.pick(rng, [(0,), (2,), (1,), (3,), (0, 2)]), nseg=int(rng.integers(1, 5)),
              auto_panels=.3, max_s=gen.pick(rng, [3, 3, 8, 25]), nwings=1 if gen.chance(rng, .7) else 2)
    case = gen.case(rng, aircraft_kw=kw)
    for w in case['aircraft']['wings']:
        if gen.chance(rng, .35):
            nudge(rng, w)
    return case


def nudge(rng, w):
    """Move control edges close to other edges or borders"""
    for c in w['controls']:
        rv = c['rel_vertices']
        for k in ('eta_inner', 'eta_outer'):
            if not gen.chance(rng, .5):
                continue
            others = [o['rel_vertices'][q] for o in w['controls'] for q in ('eta_inner', 'eta_outer')
                      if o is not c and o['device_type'] != c['device_type']] + [.25, 1/3, .5, 2/3, .75, 0., 1.]
            near = [q for q in others if abs(q - rv[k]) < .06]
            if near:
                x = gen.pick(rng, near) + gen.pick(rng, [0., .0041, -.0041, .0123, -.0123, 1e-7, -1e-7, 1e-15])
                rv[k] = float(min(1., max(0., x)))
    # Overlaps between controls of the same type are not intended
    for kind in ('flap', 'slat'):
        uids = [s['uid'] for s in w['segments']]
        pos = sorted(((uids.index(c['segment_uid']['inner']) + c['rel_vertices']['eta_inner'],
                       uids.index(c['segment_uid']['outer']) + c['rel_vertices']['eta_outer'], c['uid'])
                      for c in w['controls'] if c['device_type'] == kind))
        drop = set()
        end = -1.
        for lo, hi, uid in pos:
            if lo < end + .03 or hi - lo < .035:
                drop.add(uid)
            else:
                end = hi
        w['controls'] = [c for c in w['controls'] if c['uid'] not in drop]


def borders(w, seg_uid, num_s):
    """All positions at which spanwise borders are requested on a segment"""
    out = [0.0, 1.0]
    for c in w['controls']:
        region = geom.control_on_segments(w, c).get(seg_uid)
        if region:
            out += [region[0], region[1]]
    if num_s:
        out += list(np.linspace(0, 1, num_s + 1))
    return out


def check_side(mon, w, seg, mirror, rows):
    found = {}
    for n, row in enumerate(rows):
        for q in row.parts:
            if q.entry.control is not None:
                found.setdefault(q.entry.control, []).append((n, row, q))
    expected = {}
    for c in w['controls']:
        region = geom.control_on_segments(w, c).get(seg['uid'])
        if region:
            expected[c['uid']] = (c, region)
    num_s = (seg.get('panels') or {}).get('num_s')
    for uid in found:
        mon.require(uid in expected, f"control '{uid}' has panels on segment {seg['uid']}, where it is not defined", 'attribution')
    for uid, (c, (e1, e2, x1, x2, _, _)) in expected.items():
        where = f"control '{uid}' on segment {seg['uid']}{' (mirrored)' if mirror else ''}"
        if e2 - e1 < 2*LIMIT + .005:
            # Narrower than the limit of the discretisation
            continue
        mon.require(uid in found, f'{where} has no panels', 'attribution')
        parts = found[uid]
        ns = [n for n, _, _ in parts]
        mon.require(ns == list(range(ns[0], ns[0] + len(ns))), f'{where}: strips are not contiguous', 'attribution')
        lo, hi = parts[0][1].left, parts[-1][1].right
        others = borders(w, seg['uid'], num_s)
        if num_s is None:
            others += [s.left for s in rows]
        moved = False
        for got, want, name in ((lo, e1, 'inner'), (hi, e2, 'outer')):
            near = [b for b in others if 0 < abs(b - want) < LIMIT + 1e-12]
            exact = abs(got - want) <= 1e-9
            if not exact:
                moved = True
                mon.count('moved edges')
                mon.require(near and min(abs(got - b) for b in near) <= 1e-9,
                            f'{where}: {name} edge at {got:.9f}, defined at {want:.9f}', 'edge position')
        for n, row, q in parts:
            mon.require(q.entry.type == c['device_type'], f"{where}: panels are of type '{q.entry.type}'", 'type')
            mon.require(len([1 for r in row.parts if r.entry.type == c['device_type']]) == 1, f'{where}: several parts in a strip', 'attribution')
            if c['device_type'] == 'flap':
                mon.require(q is row.parts[-1], f'{where}: does not reach the trailing edge', 'region')
                line = q.front
            else:
                mon.require(q is row.parts[0], f'{where}: does not begin at the leading edge', 'region')
                line = q.back
            v = seg['vertices']
            tol = .01 if moved else 1e-7 if geom.is_plane(v) else 1e-3
            if not moved:
                want = [geom.line_xsi(v, (e1, x1), (e2, x2), e) for e in (row.left, row.right)]
            else:
                want = [geom.line_xsi(v, (lo, x1), (hi, x2), e) for e in (row.left, row.right)]
            dev = max(abs(line[0] - want[0]), abs(line[1] - want[1]))
            mon.peak(f'dividing line, tolerance {tol}', dev)
            mon.require(dev <= tol, f'{where}: strip {row.left:.4f} to {row.right:.4f} divided at {line[0]:.6f} and {line[1]:.6f} of the '
                        f'chord, expected {want[0]:.6f} and {want[1]:.6f}', 'dividing line')
            mon.count('strips of controls')
            mon.count('tapered dividing lines', abs(line[0] - line[1]) > .01)
    # The rest of every strip belongs to no control
    for row in rows:
        kinds = [q.entry.type for q in row.parts]
        mon.require(kinds in (['segment'], ['slat', 'segment'], ['segment', 'flap'], ['slat', 'segment', 'flap']),
                    f"segment {seg['uid']}: strip with parts {kinds}", 'region')


def run_case(spec, mon):
    case = make(spec)
    o = observe.run_case(case)
    rows = geom.strips(case, o)
    for w in case['aircraft']['wings']:
        for s in w['segments']:
            for m in (False, True) if w['symmetry'] else (False,):
                check_side(mon, w, s, m, rows[w['uid'], s['uid'], m])
        mon.count('controls', len(w['controls']))
        mon.count('slats', sum(1 for c in w['controls'] if c['device_type'] == 'slat'))
        mon.count('mirrored controls', len(w['controls']) if w['symmetry'] else 0)
        mon.count('controls over several segments', sum(1 for c in w['controls'] if c['segment_uid']['inner'] != c['segment_uid']['outer']))
    if any(w['controls'] for w in case['aircraft']['wings']):
        mon.nontrivial(case['aircraft'])
    mon.sample = {**vlmrun.summary(case, o), 'regions': [[c['uid'], c['rel_vertices']] for w in case['aircraft']['wings'] for c in w['controls']][:4]}
