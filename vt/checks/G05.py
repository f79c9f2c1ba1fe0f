"""G05: deformed wings have exactly the deformation of the given field, and only it"""

import copy
import json

import numpy as np

from vt import gen, geom, observe, project
from vt.checks import vlmrun

RULE = ('random aircraft with deformation fields of several kinds (smooth, scattered points, uniform, zero, large rotations, one side only, '
        'marked to be ignored, empty, of some wings only, uids with special endings), one or several flight states; non-trivial: a panel moves')
ASSUMPTIONS = ['points with two equally distant field points may follow either of them']
KINDS = ('empty', 'smooth', 'scattered', 'uniform', 'zero', 'one side', 'ignored', 'some wings', 'names', 'states', 'rotations', 'translations', 'one component')
REQUIRE = {f'cases: {k}': 20 for k in KINDS}
REQUIRE.update({'corners': 3000, 'moved corners': 1500, 'mirrored corners': 300})
prepare = observe.prepare


def plan(tier, seed):
    return [{'seed': ['G05', seed, i], 'kind': KINDS[i % len(KINDS)]} for i in range(520*vlmrun.TIERS[tier])]


def scattered(rng, ac, rot):
    out = {}
    for w in ac['wings']:
        pts = np.array([v for s in w['segments'] for v in s['vertices'].values()], float)
        lo, hi = pts.min(axis=0) - .5, pts.max(axis=0) + .5
        for suffix in ('', '_m') if w['symmetry'] else ('',):
            n = int(rng.integers(1, 15))
            p = rng.uniform(lo, hi, (n, 3))
            if suffix:
                p = geom.mirror(p, w['symmetry'])
            out[w['uid'] + suffix] = np.hstack([p, rng.uniform(-.05, .05, (n, 3)), rng.uniform(-rot, rot, (n, 3))]).tolist()
    return out


def displaced(point, field):
    """Candidates for the position of a point displaced by its nearest field point(s)"""
    field = np.array(field, float)
    d = np.linalg.norm(field[:, :3] - point, axis=1)
    out = []
    for row in field[d <= d.min() + 1e-9]:
        r = point - row[:3]
        new = point + row[3:6]
        for k in range(3):
            new = new + geom.rotation(np.eye(3)[k], row[6 + k]) @ r - r
        out.append(new)
    return np.array(out)


def run_case(spec, mon):
    rng = gen.rng_for(*spec['seed'])
    kind = spec['kind']
    case = gen.case(rng, aircraft_kw=dict(controls=.5, auto_panels=.3, symmetry=(0, 2, 2, 1, 3)))
    ac = case['aircraft']
    if kind == 'names':
        names = ['wing_m', 'm', '_m_m', 'mm_', 'a_m.m', 'wing__m']
        for w, uid in zip(ac['wings'], rng.permutation(names)):
            uid = str(uid)
            if uid.startswith('_'):
                uid = 'x' + uid
            w['uid'] = uid if w['symmetry'] or not uid.endswith('_m') else uid + '1'
    if kind == 'scattered':
        field = scattered(rng, ac, gen.pick(rng, [0., .05, .3]))
    else:
        field = gen.deformation(rng, ac)
    if kind == 'uniform':
        moves = {}
        for uid, rows in field.items():
            moves[uid] = rng.uniform(-3, 3, 3)
            field[uid] = [[*r[:3], *(float(x) for x in moves[uid]), 0., 0., 0.] for r in rows]
    elif kind == 'rotations':
        field = {uid: [[*r[:3], 0., 0., 0., *r[6:]] for r in rows] for uid, rows in field.items()}
    elif kind == 'translations':
        field = {uid: [[*r[:6], 0., 0., 0.] for r in rows] for uid, rows in field.items()}
    elif kind == 'one component':
        k = int(rng.integers(3, 9))
        field = {uid: [[*r[:3], *(x if 3 + j == k else 0. for j, x in enumerate(r[3:]))] for r in rows] for uid, rows in field.items()}
    elif kind == 'zero':
        field = {uid: [[*r[:3], 0., 0., 0., 0., 0., 0.] for r in rows] for uid, rows in field.items()}
    elif kind == 'one side':
        sides = gen.pick(rng, ['', '_m'])
        keep = {w['uid'] + (sides if w['symmetry'] else '') for w in ac['wings']}
        field = {k: v for k, v in field.items() if k in keep}
    elif kind == 'ignored':
        field = {('_' if gen.chance(rng, .6) else '') + k: v for k, v in field.items()}
        field['_comment'] = [[0.]*9]
    elif kind == 'some wings':
        drop = {w['uid'] for w in ac['wings'][1:]} or {ac['wings'][0]['uid']}
        field = {k: v for k, v in field.items() if k not in drop and (k[:-2] not in drop or not k.endswith('_m'))}
    elif kind == 'empty':
        field = {}
    if kind == 'states':
        n = int(rng.integers(2, 4))
        case['state'] = {'aero': {k: [v*(1 + .1*i) for i in range(n)] for k, v in case['state']['aero'].items()}}

    plain = copy.deepcopy(case)
    case['deformation'] = field if kind != 'empty' else gen.pick(rng, ['', '{}', '{ }', '\n'])
    if kind == 'names':
        # Wings whose name ends like a mirrored field cannot have a field of their own
        clash = {w['uid'] for w in ac['wings'] if w['uid'].endswith('_m')}
        case['deformation'] = field = {k: v for k, v in field.items() if k not in clash}
    o0 = observe.run_case(plain)
    with project.scratch() as tmp:
        o = observe.run_case(case, tmp)
        text = case['deformation'] if kind == 'empty' else json.dumps(field)
        mon.require((tmp/'deformation'/'def.json').read_text() == text, 'the deformation file changed', 'input')
    if kind == 'states':
        for n in range(1, len(case['state']['aero']['alpha'])):
            part = copy.deepcopy(case)
            part['state'] = {'aero': {k: v[:n] for k, v in case['state']['aero'].items()}}
            mon.require(np.array_equal(observe.run_case(part).p, o.p), f'the deformed lattice changes after {n} flight states', 'states')
    mon.require([e[:4] for e in o.entries] == [e[:4] for e in o0.entries], 'the deformation changes the bookkeeping', 'bookkeeping')
    size = np.ptp(o0.p.reshape(-1, 3), axis=0).max()
    rows = geom.strips(plain, o0)
    moved = 0
    for (uid, suid, mirror), strips in rows.items():
        mine = field.get(uid + ('_m' if mirror else ''))
        w = next(w for w in ac['wings'] if w['uid'] == uid)
        where = f"wing '{uid}'{' (mirrored)' if mirror else ''}"
        for strip in strips:
            p0 = np.concatenate([o0.p[q.idx] for q in strip.parts])
            p1 = np.concatenate([o.p[q.idx] for q in strip.parts])
            if mirror:
                # Corners in the order of the defined side, positions on the mirrored side
                p0, p1 = p0[:, geom.ORDER[w['symmetry']]], p1[:, geom.ORDER[w['symmetry']]]
            mon.count('corners', 4*len(p0))
            mon.count('mirrored corners', 4*len(p0) if mirror else 0)
            if mine is None or kind == 'zero':
                off = np.abs(p1 - p0).max()
                mon.require(off <= 1e-12*size, f'{where} has no deformation, but moves by {off:.2e} m', 'undeformed')
                continue
            moved += 1
            xsi = np.concatenate([q.xsi for q in strip.parts])
            for le, te in ((0, 3), (1, 2)):
                a0, a1 = p0[0, le], p1[0, le]
                d0, d1 = p0[-1, te], p1[-1, te]
                if kind == 'uniform':
                    shift = moves[uid + ('_m' if mirror else '')]
                    off = np.abs(p1 - p0 - shift).max()
                    mon.require(off <= 1e-12*size, f'{where}: uniform translation {shift} is not reproduced ({off:.2e} m off)', 'uniform')
                for before, after, edge in ((a0, a1, 'leading'), (d0, d1, 'trailing')):
                    cand = displaced(before, mine)
                    off = np.abs(cand - after).max(axis=1).min()
                    mon.peak('deviation', off/size)
                    mon.require(off <= 1e-9*size, f'{where}: point {before.round(4).tolist()} on the {edge} edge is at {after.round(6).tolist()}, '
                                f'expected {cand[0].round(6).tolist()}', 'edge point')
                    mon.count('moved corners')
                # Points in between: linear along the chord
                for k in range(len(p1)):
                    for j in (le, te):
                        want = a1 + xsi[k, j]*(d1 - a1)
                        off = np.abs(p1[k, j] - want).max()
                        mon.require(off <= 1e-7*size, f'{where}: points between the edges are not linear along the chord ({off:.2e} m)', 'chord')
    if kind in ('zero', 'ignored', 'empty') and not moved:
        mon.require(np.abs(o.f - o0.f).max() <= 1e-5*np.abs(o0.f).max(), 'loads change without deformation', 'undeformed')
    mon.count(f'cases: {kind}')
    if moved or kind in ('zero', 'ignored', 'empty'):
        mon.nontrivial([spec, case])
    mon.sample = {**vlmrun.summary(plain, o) , 'kind': kind} if kind != 'states' else None
