"""Random workloads: aircraft, flight states, settings, deformations (all plain JSON data)"""

import math

import numpy as np

SYMMETRIC = ['NACA0000', 'NACA0006', 'NACA0012', 'NACA0018', 'naca0009']
CAMBERED = ['NACA2412', 'NACA4415', 'NACA1410', 'NACA6409', 'NACA3512']


def rng_for(*key):
    """Deterministic generator for a tuple of integers and strings"""
    seq = []
    for k in key:
        if isinstance(k, str):
            seq += [ord(c) for c in k]
        else:
            seq.append(int(k) & 0xffffffff)
    return np.random.default_rng(seq)


def r3(x):
    return round(float(x), 3)

FILES = ['airfoils/blade.test', 'airfoils/blade.two']


def pick(rng, options):
    return options[int(rng.integers(len(options)))]


def chance(rng, p):
    return bool(rng.random() < p)


def blade_file(camber=0.04, pos=0.4, thick=0.12, n=41):
    """Coordinates of a cambered aerofoil, in the order expected by the airfoils library"""
    x = 0.5*(1 - np.cos(np.linspace(0, np.pi, n)))
    yt = 5*thick*(0.2969*np.sqrt(x) - 0.126*x - 0.3516*x**2 + 0.2843*x**3 - 0.1036*x**4)
    yc = np.where(x < pos, camber/pos**2*(2*pos*x - x**2),
                  camber/(1 - pos)**2*((1 - 2*pos) + 2*pos*x - x**2))
    up = np.stack([x, yc + yt], axis=1)[::-1]
    lo = np.stack([x, yc - yt], axis=1)[1:]
    return '\n'.join(f'{a:.8f} {b:.8f}' for a, b in np.vstack([up, lo])) + '\n'


def some_blade(rng):
    return blade_file(float(rng.uniform(0, .06)), float(rng.uniform(.25, .6)), float(rng.uniform(.06, .16)), int(rng.integers(25, 60)))


def wing(rng, uid, origin, symmetry=0, vertical=False, nseg=None, airfoils='mixed', twist=True,
         auto_panels=0.5, controls=0.6, max_c=4, max_s=4, slat=True, taper=True, sweep=True,
         dihedral=True, offset_root=None, left=0.2, max_controls=3):
    """A continuous lifting surface made of quadrilateral segments"""
    nseg = int(nseg or rng.integers(1, 4))
    origin = np.array(origin, float)
    if offset_root is None:
        # A vertical surface in the plane of symmetry would coincide with its mirror image
        offset_root = chance(rng, 0.4) or (vertical and symmetry == 2)
    if symmetry == 2 and not offset_root:
        origin[1] = 0.0
    elif symmetry == 2:
        origin[1] = abs(origin[1]) + (2.0 if vertical else 0.2) + rng.random()
    chord = 1.0 + 2*rng.random()
    le = origin.copy()
    theta = math.radians(rng.uniform(-4, 4)) if twist else 0.0
    sections = []
    for k in range(nseg + 1):
        if k:
            length = rng.uniform(1.0, 4.0)
            dih = math.radians(rng.uniform(-12, 20)) if dihedral else 0.0
            dx = length*math.tan(math.radians(rng.uniform(-10, 40))) if sweep else 0.0
            if vertical:
                step = [dx, length*math.sin(dih)*0.3, length]
            else:
                step = [dx, length*math.cos(dih), length*math.sin(dih)]
            le = le + np.array(step)
            chord = max(0.4, chord*(rng.uniform(0.45, 1.05) if taper else 1.0))
            theta += math.radians(rng.uniform(-4, 3)) if twist else 0.0
        if vertical:
            te = le + chord*np.array([math.cos(theta), -math.sin(theta), 0])
        else:
            te = le + chord*np.array([math.cos(theta), 0, -math.sin(theta)])
        if airfoils == 'sym':
            foil = pick(rng, SYMMETRIC)
        elif airfoils == 'camber':
            foil = pick(rng, CAMBERED + FILES)
        else:
            foil = pick(rng, SYMMETRIC + CAMBERED)
        sections.append(([r3(v) for v in le], [r3(v) for v in te], foil))
    segments = []
    for k in range(nseg):
        (a, d, fi), (b, c, fo) = sections[k], sections[k + 1]
        seg = {'uid': f'{uid}_s{k}', 'vertices': {'a': a, 'b': b, 'c': c, 'd': d},
               'airfoils': {'inner': fi, 'outer': fo}}
        if not chance(rng, auto_panels):
            seg['panels'] = {'num_c': int(rng.integers(1, max_c + 1)), 'num_s': int(rng.integers(1, max_s + 1))}
        segments.append(seg)
    if symmetry in (0, 2) and not vertical and chance(rng, left):
        # The same wing on the other side, still defined from left to right
        flip = lambda p: [p[0], -p[1] + 0., p[2]]
        for s in segments:
            v, f = s['vertices'], s['airfoils']
            s['vertices'] = {'a': flip(v['b']), 'b': flip(v['a']), 'c': flip(v['d']), 'd': flip(v['c'])}
            s['airfoils'] = {'inner': f['outer'], 'outer': f['inner']}
        segments = segments[::-1]
    out = {'uid': uid, 'symmetry': symmetry, 'segments': segments, 'controls': []}
    if chance(rng, controls):
        out['controls'] = make_controls(rng, out, slat=slat, max_n=max_controls)
    return out


def locate(u, nseg, outer):
    """Map a position along the wing (unit: segments) to (segment index, eta)"""
    k = int(math.floor(u))
    eta = u - k
    if outer and eta == 0.0:
        k, eta = k - 1, 1.0
    return min(k, nseg - 1), float(round(eta, 6))


def make_controls(rng, w, slat=True, flap=True, max_n=3, hinge='mixed', deflection=15.):
    """Non-overlapping control surfaces, edges either on segment borders or clear of them"""
    nseg = len(w['segments'])
    out = []
    for kind in (['flap'] if flap else []) + (['slat'] if slat else []):
        if kind == 'slat' and not chance(rng, 0.5):
            continue
        grid = [k + e for k in range(nseg) for e in (0., .1, .2, .3, .4, .5, .6, .7, .8, .9)] + [float(nseg)]
        n = int(rng.integers(1, max_n + 1))
        n = min(n, (len(grid)//2) - 1)
        cuts = sorted(rng.choice(len(grid), size=2*n, replace=False))
        for i in range(n):
            u1, u2 = grid[cuts[2*i]], grid[cuts[2*i + 1]]
            # The offsets keep distances between borders clear of the limit (one percent) below which they are merged
            shift = .00037 if kind == 'flap' else .00011
            jitter = lambda u: u + shift + r3(rng.uniform(-.03, .03)) if abs(u - round(u)) > .05 else float(round(u))
            u1, u2 = jitter(u1), jitter(u2)
            k1, e1 = locate(u1, nseg, False)
            k2, e2 = locate(u2, nseg, True)
            if kind == 'flap':
                x1, x2 = rng.uniform(.62, .88), rng.uniform(.62, .88)
            else:
                x1, x2 = rng.uniform(.08, .3), rng.uniform(.08, .3)
            if chance(rng, .5):
                x2 = x1
            h1, h2 = x1, x2
            if hinge == 'mixed' and chance(rng, .4):
                h1, h2 = rng.uniform(max(.0, x1 - .1), min(1., x1 + .1)), rng.uniform(max(.0, x2 - .1), min(1., x2 + .1))
            # An offset keeps relative lengths times panel numbers clear of integers
            off = .00037 if kind == 'flap' else .00011
            x1, x2, h1, h2 = r3(x1) + off, r3(x2) + off, r3(h1), r3(h2)
            ctl = {'uid': f"{w['uid']}_{kind}{i}", 'device_type': kind,
                   'deflection': r3(rng.uniform(-deflection, deflection)),
                   'segment_uid': {'inner': w['segments'][k1]['uid'], 'outer': w['segments'][k2]['uid']},
                   'rel_vertices': {'eta_inner': e1, 'eta_outer': e2, 'xsi_inner': round(x1, 5), 'xsi_outer': round(x2, 5)},
                   'rel_hinge_vertices': {'xsi_inner': h1, 'xsi_outer': h2}}
            if chance(rng, .1):
                ctl['deflection'] = 0.0
            if w['symmetry']:
                ctl['deflection_mirror'] = pick(rng, [None, r3(rng.uniform(-deflection, deflection)), -ctl['deflection'], 0.0])
            if chance(rng, .6):
                ctl['panels'] = {'num_c': int(rng.integers(1, 4))}
            out.append(ctl)
    return out


def aircraft(rng, nwings=None, symmetry=(0, 2), vertical=.3, **kw):
    """Several well separated wings"""
    nwings = int(nwings or rng.integers(1, 4))
    wings = []
    for i in range(nwings):
        is_vert = chance(rng, vertical) and i > 0
        sym = 0 if is_vert and chance(rng, .7) else int(pick(rng, list(symmetry)))
        origin = [7.0*i + rng.uniform(-1, 1), rng.uniform(.5, 1.5) if sym else rng.uniform(-3, 0), 1.7*i + rng.uniform(-.5, .5)]
        wings.append(wing(rng, f'wing{i}', origin, symmetry=sym, vertical=is_vert, **kw))
    refs = {'area': r3(rng.uniform(5, 40)), 'span': r3(rng.uniform(3, 15)), 'chord': r3(rng.uniform(.8, 4)),
            'gcenter': [r3(v) for v in rng.uniform(-2, 4, 3)], 'rcenter': [r3(v) for v in rng.uniform(-2, 4, 3)]}
    return {'uid': 'generated', 'refs': refs, 'wings': wings}


def aero(rng, beta=True, rates=True):
    rate = (lambda: r3(rng.uniform(-.6, .6))) if rates else (lambda: 0.0)
    return {'airspeed': r3(rng.uniform(20, 200)), 'density': r3(rng.uniform(.2, 1.4)),
            'alpha': r3(rng.uniform(-8, 12)), 'beta': r3(rng.uniform(-10, 10)) if beta else 0.0,
            'rate_P': rate(), 'rate_Q': rate(), 'rate_R': rate()}


def settings(rng, max_c=4, max_s=8, **kw):
    out = {'vlm_autopanels_c': int(rng.integers(1, max_c + 1)), 'vlm_autopanels_s': int(rng.integers(1, max_s + 1))}
    if chance(rng, .3):
        out['_epsilon'] = pick(rng, [1e-6, 1e-4, 1e-9])
    out.update(kw)
    return out


def deformation(rng, ac, mirrored=True, rot=.08):
    """Smooth deformation field around every wing"""
    out = {}
    for w in ac['wings']:
        pts = []
        for s in w['segments']:
            v = {k: np.array(x, float) for k, x in s['vertices'].items()}
            for e in np.linspace(0, 1, 5):
                pts.append((1 - e)*(.6*v['a'] + .4*v['d']) + e*(.6*v['b'] + .4*v['c']))
        for suffix in ('', '_m') if (w['symmetry'] and mirrored) else ('',):
            rows = []
            amp = rng.uniform(-.4, .4, 3)*np.array([.2, .4, 1.])
            tw = rng.uniform(-rot, rot, 3)
            for i, p in enumerate(pts):
                q = p.copy()
                if suffix:
                    q[{1: 2, 2: 1, 3: 0}[w['symmetry']]] *= -1
                s = i/(len(pts) - 1)
                rows.append([float(x) for x in [*q, *(amp*s*s), *(tw*s)]])
            out[w['uid'] + suffix] = rows
    return out


def rescale(data, factor):
    """Same aircraft in another size, at a flight state with the same relative flow"""
    ac, aero = data['aircraft'], data['state']['aero']
    r = lambda values: [float(f'{factor*v:.9g}') for v in values]
    for w in ac['wings']:
        for s in w['segments']:
            s['vertices'] = {k: r(v) for k, v in s['vertices'].items()}
    refs = ac['refs']
    for k in ('gcenter', 'rcenter'):
        refs[k] = r(refs[k])
    refs['span'], refs['chord'] = r([refs['span'], refs['chord']])
    refs['area'] = float(f"{factor**2*refs['area']:.9g}")
    for k in ('rate_P', 'rate_Q', 'rate_R'):
        aero[k] = float(f'{aero[k]/factor:.9g}')
    for uid, rows in data.get('deformation', {}).items():
        data['deformation'][uid] = [[*r(row[:6]), *row[6:]] for row in rows]


SIZES = (.01, .08, .3, 3.)


def unusual_flow(rng, state, kinds=('slow', 'thin', 'angles')):
    """Very slow flow, thin air or large angles"""
    what = pick(rng, list(kinds))
    if what == 'slow':
        factor = 10**rng.uniform(-3.5, -1)
        for k in ('airspeed', 'rate_P', 'rate_Q', 'rate_R'):
            state[k] = float(f'{factor*state[k]:.6g}')
    elif what == 'thin':
        state['density'] = float(f"{state['density']*10**rng.uniform(-5, -1):.6g}")
    else:
        state['alpha'] = r3(rng.uniform(-60, 60))
        if state['beta']:
            state['beta'] = r3(rng.uniform(-45, 45))


def integers(value):
    """Whole numbers as integers"""
    if isinstance(value, dict):
        return {k: integers(v) for k, v in value.items()}
    if isinstance(value, list):
        return [integers(v) for v in value]
    return int(value) if isinstance(value, float) and value.is_integer() else value


def whole_numbers(rng, data):
    """Reference values, flow and deflections are whole numbers"""
    ac, aero = data['aircraft'], data['state']['aero']
    refs = ac['refs']
    for k in ('gcenter', 'rcenter'):
        refs[k] = [float(round(x)) for x in refs[k]]
    for k in ('area', 'span', 'chord'):
        refs[k] = max(1.0, float(round(refs[k])))
    for k in ('alpha', 'beta', 'airspeed'):
        aero[k] = float(round(aero[k])) or aero[k]
    for k in ('rate_P', 'rate_Q', 'rate_R'):
        aero[k] = float(round(1.6*aero[k]))
    if chance(rng, .5):
        aero['density'] = 1.0
    for w in ac['wings']:
        for c in w['controls']:
            for k in ('deflection', 'deflection_mirror'):
                if c.get(k) is not None:
                    c[k] = float(round(c[k]))
                    c[k] = integers(c[k])
        for s in w['segments']:
            s['vertices'] = integers(s['vertices'])
    ac['refs'] = integers(refs)
    data['state'] = integers(data['state'])


WING_NAMES = ['w', 'w1', 'w10', 'w2', 'W', 'wing', 'wing wing', 'Flügel', 'main.wing', '1', '10', 'None', 'm', 'x_m_', 'segment', 'a:b', 'global']
SEGMENT_NAMES = ['s', 's1', 's10', 's2', 'S', 'root', 'tip', '1', '2', '10', 'left wing', 'w', 'wing', 'Ä', 'b', 'a', 'inner', 'outer']
CONTROL_NAMES = ['c', 'c1', 'c10', 'c2', 'C', 'flap', 'slat', '1', '10', 'w', 's', 'segment', 'aileron left', 'É', 'z', 'y', 'x', 'flap0']


def rename(rng, data):
    """Names which contain each other, are equal for different things, or not in the order of the definition"""
    new = {}
    wings = data['aircraft']['wings']
    for w, uid in zip(wings, rng.permutation(WING_NAMES)):
        new[w['uid']] = w['uid'] = str(uid)
        segments = {s['uid']: str(n) for s, n in zip(w['segments'], rng.permutation(SEGMENT_NAMES))}
        for s in w['segments']:
            s['uid'] = segments[s['uid']]
        for c, n in zip(w['controls'], rng.permutation(CONTROL_NAMES + ['_' + n for n in CONTROL_NAMES])):
            c['uid'] = str(n)
            c['segment_uid'] = {k: segments[v] for k, v in c['segment_uid'].items()}
        if chance(rng, .7):
            rng.shuffle(w['controls'])
    if 'deformation' in data:
        suffix = lambda k: (k[:-2], '_m') if k.endswith('_m') else (k, '')
        data['deformation'] = {new[suffix(k)[0]] + suffix(k)[1]: v for k, v in data['deformation'].items()}


def disconnected(rng, wings):
    """Steps or gaps between the segments of a wing"""
    w = pick(rng, wings)
    chord = min(np.linalg.norm(np.subtract(s['vertices']['d'], s['vertices']['a'])) for s in w['segments'])
    for i in range(1, len(w['segments'])):
        step = pick(rng, ['chord', 'shift', 'gap', 'none'])
        if step == 'chord':
            # Longer or shorter from here on
            s = w['segments'][i]['vertices']
            k, f = pick(rng, [('d', 'a'), ('a', 'd')]), rng.uniform(.6, 1.3)
            s[k[0]] = [r3(x) for x in np.array(s[k[1]], float) + f*np.subtract(s[k[0]], s[k[1]])]
        elif step != 'none':
            out = np.subtract(w['segments'][i]['vertices']['b'], w['segments'][i]['vertices']['a'])
            move = rng.uniform(-.5, .5)*chord*np.array([1, 0, 0]) if step == 'shift' else rng.uniform(.05, .4)*out
            for s in w['segments'][i:]:
                s['vertices'] = {k: [r3(x) for x in np.array(v, float) + move] for k, v in s['vertices'].items()}


def crowded(rng, kw):
    """Many wings, segments or controls"""
    kw = dict(kw)
    what = pick(rng, ['wings', 'segments', 'controls'])
    if what == 'wings':
        kw.update(nwings=int(rng.integers(10, 13)), nseg=1, max_s=2)
    elif what == 'segments':
        kw.update(nwings=1, nseg=int(rng.integers(10, 13)), max_s=2)
    else:
        kw.update(nwings=1, nseg=int(rng.integers(2, 5)), controls=1. if kw.get('controls', 1) else 0., max_controls=12)
    return dict(kw, max_c=min(2, kw.get('max_c', 2)))


def flow(rng, unusual=.2):
    state = aero(rng)
    if chance(rng, unusual):
        unusual_flow(rng, state)
    return state


def case(rng, aircraft_kw=None, aero_kw=None, settings_kw=None, deform=0.0, sizes=.25, flows=.2, whole=.12,
         names=.2, crowd=.05, steps=.06, foils=.3):
    aircraft_kw = aircraft_kw or {}
    if chance(rng, crowd) and not {'nwings', 'nseg'} & set(aircraft_kw):
        aircraft_kw = crowded(rng, aircraft_kw)
    ac = aircraft(rng, **aircraft_kw)
    if chance(rng, steps):
        disconnected(rng, ac['wings'])
    out = {'aircraft': ac, 'state': {'aero': aero(rng, **(aero_kw or {}))}, 'settings': settings(rng, **(settings_kw or {}))}
    if chance(rng, deform):
        out['deformation'] = deformation(rng, ac)
    if aircraft_kw.get('airfoils', 'mixed') == 'mixed' and chance(rng, foils):
        for s in (s for w in ac['wings'] for s in w['segments']):
            for k in ('inner', 'outer'):
                if s['airfoils'][k] in CAMBERED:
                    s['airfoils'][k] = pick(rng, FILES)
    files = sorted({f[9:] for w in ac['wings'] for s in w['segments'] for f in s['airfoils'].values() if f.startswith('airfoils/')})
    if files:
        out['airfoils'] = {f: some_blade(rng) for f in files}
    if chance(rng, sizes):
        rescale(out, pick(rng, SIZES))
    if chance(rng, flows):
        unusual_flow(rng, out['state']['aero'])
    elif chance(rng, whole):
        whole_numbers(rng, out)
    if chance(rng, names):
        rename(rng, out)
    return out
