"""G03: normals are tilted by exactly the control deflection and the camber slope"""

import copy
import os

import numpy as np

from vt import gen, geom, observe, project, ref
from vt.checks import vlmrun

RULE = ('random wings with controls over several segments, hinge lines off the dividing line, cambered and interpolated aerofoils, '
        'also deformed; every normal is compared; non-trivial: a normal differs from the geometric one')
ASSUMPTIONS = ['slopes of camber lines come from the airfoils library, evaluated by the oracle at the position of the panel; they carry '
               'noise of about 1e-5 rad', 'control deflections of wings mirrored across the X-Y or Y-Z plane are not judged']
REQUIRE = {'normals': 5000, 'deflected normals': 800, 'cambered normals': 800, 'mirrored deflected normals': 200, 'deformed': 30,
           'interpolated aerofoils': 50, 'geometry compared': 60, 'hinge off the dividing line': 100, 'large deflections': 30}
prepare = observe.prepare


def plan(tier, seed):
    return [{'seed': ['G03', seed, i], 'foils': ('sym', 'mixed', 'camber', 'sym')[i % 4], 'deform': i % 5 == 4} for i in range(500*vlmrun.TIERS[tier])]


def make(spec):
    rng = gen.rng_for(*spec['seed'])
    kw = dict(controls=.9, symmetry=(0, 2), airfoils=spec['foils'], auto_panels=.3, twist=gen.chance(rng, .4))
    case = gen.case(rng, aircraft_kw=kw, deform=1.0 if spec['deform'] else 0.0)
    for w in case['aircraft']['wings']:
        for c in w['controls']:
            if gen.chance(rng, .15):
                c['deflection'] = gen.pick(rng, [85., -85., 60., -45.])
            if w['symmetry'] and gen.chance(rng, .15):
                c['deflection_mirror'] = gen.pick(rng, [85., -85., 60., -45.])
    return case


def foil_objects(case):
    """Interpolated aerofoils of every segment, made by the library"""
    from airfoils import Airfoil, MorphAirfoil
    from airfoils.fileio import import_airfoil_data

    def load(name):
        if name.startswith('airfoils/'):
            with project.scratch():
                with open('foil', 'w') as handle:
                    handle.write(case['airfoils'][os.path.basename(name)])
                upper, lower = import_airfoil_data('foil')
            return Airfoil(upper, lower)
        return Airfoil.NACA4(name.upper()[4:])

    out = {}
    for w in case['aircraft']['wings']:
        for s in w['segments']:
            out[w['uid'], s['uid']] = MorphAirfoil(load(s['airfoils']['inner']), load(s['airfoils']['outer']))
    return out


def run_case(spec, mon):
    case = make(spec)
    o = observe.run_case(case)
    plain = copy.deepcopy(case)
    plain.pop('deformation', None)
    o0 = observe.run_case(plain) if 'deformation' in case else o
    mon.require([e[:4] for e in o.entries] == [e[:4] for e in o0.entries], 'deformation changes the bookkeeping', 'bookkeeping')
    mon.count('deformed', 'deformation' in case)
    rows = geom.strips(plain, o0)
    foils = foil_objects(case)

    for (uid, suid, mirror), strips in rows.items():
        w = next(w for w in case['aircraft']['wings'] if w['uid'] == uid)
        seg = next(s for s in w['segments'] if s['uid'] == suid)
        symmetric = all(f.upper().startswith('NACA00') for f in seg['airfoils'].values())
        tol = 1e-8 if symmetric else 1e-4
        if seg['airfoils']['inner'] != seg['airfoils']['outer'] and not symmetric:
            mon.count('interpolated aerofoils')
        lines = {}
        for c in w['controls']:
            region = geom.control_on_segments(w, c).get(suid)
            if region is None:
                continue
            mine = [s for s in strips if any(q.entry.control == c['uid'] for q in s.parts)]
            if not mine:
                continue
            # Edges which have been moved to a close border
            lo, hi = mine[0].left, mine[-1].right
            lines[c['uid']] = (c, (lo, region[4]), (hi, region[5]))
            mon.count('hinge off the dividing line', abs(region[4] - region[2]) > .01)
        for strip in strips:
            p_all = np.concatenate([o.p[q.idx] for q in strip.parts])
            if mirror:
                p_all = geom.unmirror_panels(p_all, 2)
            corner = p_all[0, 0], p_all[0, 1], p_all[-1, 2], p_all[-1, 3]
            foil = foils[uid, suid].at_eta(.5*(strip.left + strip.right))
            for q in strip.parts:
                p, n = o.p[q.idx], o.n[q.idx]
                if mirror:
                    p, n = geom.unmirror_panels(p, 2), geom.mirror(n, 2)
                expected = ref.base_normals(p)
                base = expected.copy()
                angle = 0.0
                if q.entry.control is not None:
                    c, inner, outer = lines[q.entry.control]
                    angle = c['deflection']
                    if mirror and c.get('deflection_mirror') is not None:
                        angle = c['deflection_mirror']
                    h = [geom.line_xsi(seg['vertices'], inner, outer, e) for e in (strip.left, strip.right)]
                    axis = (corner[1] + h[1]*(corner[2] - corner[1])) - (corner[0] + h[0]*(corner[3] - corner[0]))
                    expected = expected @ geom.rotation(axis, np.radians(angle)).T
                    if angle:
                        mon.count('deflected normals', len(n))
                        mon.count('mirrored deflected normals', len(n) if mirror else 0)
                        mon.count('large deflections', abs(angle) >= 45)
                # Camber: about the spanwise axis perpendicular to the chord at the inner edge
                a, b, d = p[0, 0], p[0, 1], p[-1, 3]
                axis = np.cross(np.cross(b - a, d - a), d - a)
                x = .25*q.xsi[:, [0, 1]].mean(axis=1) + .75*q.xsi[:, [2, 3]].mean(axis=1)
                for k in range(len(n)):
                    slope = 0.0 if symmetric else np.radians(float(foil.camber_line_angle(x[k])))
                    if slope:
                        expected[k] = geom.rotation(axis, slope) @ expected[k]
                        mon.count('cambered normals')
                off = np.abs(n - expected).max()
                twisted = q.entry.control is not None and angle and not geom.is_plane(seg['vertices'])
                limit = tol + (2e-4 if twisted else 0)
                mon.peak(f'deviation, tolerance {limit:.1e}', off)
                mon.count('normals', len(n))
                side = ' (mirrored)' if mirror else ''
                k = int(np.abs(n - expected).max(axis=1).argmax())
                mon.require(off <= limit, f"panel {int(q.idx[k])} of '{uid}', {suid}{side}, control {q.entry.control} (deflection {angle}): "
                            f'normal {n[k].round(6).tolist()}, expected {expected[k].round(6).tolist()}, geometric {base[k].round(6).tolist()}', 'normal')
                if np.abs(n - base).max() > 1e-6:
                    mon.nontrivial([spec, case['aircraft']])
    if gen.chance(gen.rng_for(*spec['seed'], 'flat'), .25):
        other = copy.deepcopy(case)
        mode = gen.pick(gen.rng_for(*spec['seed'], 'mode'), ['undeflected', 'switch'])
        if mode == 'switch':
            other['settings']['_do_normal_rotations'] = False
        else:
            for w in other['aircraft']['wings']:
                for c in w['controls']:
                    c['deflection'] = 0.0
                    c.pop('deflection_mirror', None)
                for s in w['segments']:
                    s['airfoils'] = {'inner': 'NACA0000', 'outer': 'NACA0000'}
        o2 = observe.run_case(other)
        for name in ('p', 'v', 'c', 'a', 'mid'):
            mon.require(np.array_equal(getattr(o, name), getattr(o2, name)), f'{name} depends on deflections or aerofoils', 'geometry')
        mon.require(np.abs(o2.n - ref.base_normals(o2.p)).max() <= 1e-9, f'normals without rotation ({mode}) are not the geometric ones', 'unrotated')
        mon.count('geometry compared')
    mon.sample = vlmrun.summary(case, o)
