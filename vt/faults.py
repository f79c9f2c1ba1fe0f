"""
Catalogue of input faults: every entry is a function which injects one fault at a
random place of a valid project (aircraft, state, settings, files) and returns a
description, or None if the project has no place for it.
"""

import copy

from vt import gen

FAULTS = {}


def fault(name):
    def register(func):
        FAULTS[name] = func
        return func
    return register


def _wing(rng, case):
    return gen.pick(rng, case['aircraft']['wings'])


def _segment(rng, case):
    return gen.pick(rng, _wing(rng, case)['segments'])


def _control(rng, case, symmetric=False):
    options = [(w, c) for w in case['aircraft']['wings'] for c in w['controls'] if w['symmetry'] or not symmetric]
    return gen.pick(rng, options) if options else (None, None)


# ----- Aircraft: references -----
for _key in ('area', 'span', 'chord'):
    for _value in (0, -1.5, 'ten', None, [1.0]):
        @fault(f'refs.{_key} = {_value!r}')
        def _(rng, case, key=_key, value=_value):
            case['aircraft']['refs'][key] = value
            return f'{key} = {value!r}'

for _key in ('area', 'span', 'chord', 'gcenter', 'rcenter'):
    @fault(f'refs without {_key}')
    def _(rng, case, key=_key):
        del case['aircraft']['refs'][key]
        return f'no {key}'

for _key in ('gcenter', 'rcenter'):
    for _value in ([0, 0], [0, 0, 0, 0], 1.0, None, ['a', 'b', 'c'], [0, None, 0]):
        @fault(f'refs.{_key} = {_value!r}')
        def _(rng, case, key=_key, value=_value):
            case['aircraft']['refs'][key] = value
            return f'{key} = {value!r}'


# ----- Aircraft: structure -----
@fault('no wings')
def _(rng, case):
    case['aircraft']['wings'] = []
    return 'empty list of wings'


@fault('wing without segments')
def _(rng, case):
    w = _wing(rng, case)
    w['segments'], w['controls'] = [], []
    case.pop('deformation', None)
    return f"no segments in {w['uid']}"


@fault('duplicate wing')
def _(rng, case):
    w = copy.deepcopy(_wing(rng, case))
    for s in w['segments']:
        for v in s['vertices'].values():
            v[2] += 5.0
    case['aircraft']['wings'].append(w)
    return f"two wings '{w['uid']}'"


@fault('duplicate segment')
def _(rng, case):
    w = _wing(rng, case)
    s = copy.deepcopy(gen.pick(rng, w['segments']))
    for v in s['vertices'].values():
        v[2] += 5.0
    w['segments'].append(s)
    return f"two segments '{s['uid']}'"


@fault('duplicate control')
def _(rng, case):
    w, c = _control(rng, case)
    if c is None:
        return None
    w['controls'].append(copy.deepcopy(c))
    return f"two controls '{c['uid']}'"


for _value in ('', None, 7):
    @fault(f'wing uid {_value!r}')
    def _(rng, case, value=_value):
        w = _wing(rng, case)
        case.pop('deformation', None)
        w['uid'] = value
        return 'wing uid'

    @fault(f'segment uid {_value!r}')
    def _(rng, case, value=_value):
        w = _wing(rng, case)
        w['controls'] = []
        gen.pick(rng, w['segments'])['uid'] = value
        return 'segment uid'

    @fault(f'control uid {_value!r}')
    def _(rng, case, value=_value):
        w, c = _control(rng, case)
        if c is None:
            return None
        c['uid'] = value
        return 'control uid'

for _value in (4, -1, '2', None, 'xz'):
    @fault(f'symmetry {_value!r}')
    def _(rng, case, value=_value):
        _wing(rng, case)['symmetry'] = value
        return 'symmetry'

for _key in ('uid', 'symmetry', 'segments'):
    @fault(f'wing without {_key}')
    def _(rng, case, key=_key):
        del _wing(rng, case)[key]
        return f'no {key}'

for _key in ('refs', 'wings', 'uid'):
    @fault(f'aircraft without {_key}')
    def _(rng, case, key=_key):
        del case['aircraft'][key]
        return f'no {key}'

for _key in ('uid', 'vertices', 'airfoils'):
    @fault(f'segment without {_key}')
    def _(rng, case, key=_key):
        del _segment(rng, case)[key]
        return f'no {key}'


# ----- Segments -----
@fault('missing corner points')
def _(rng, case):
    s = _segment(rng, case)
    n = int(rng.integers(1, 4))
    drop = [str(k) for k in rng.choice(list('abcd'), size=n, replace=False)]
    for k in drop:
        if gen.chance(rng, .5):
            del s['vertices'][k]
        else:
            s['vertices'][k] = None
    return f'no corner points {drop}'


for _value in ([1.0, 2.0], [1.0, 2.0, 3.0, 4.0], ['a', 0, 0], 1.0, [None, 0, 0]):
    @fault(f'corner point {_value!r}')
    def _(rng, case, value=_value):
        k = gen.pick(rng, 'abcd')
        _segment(rng, case)['vertices'][k] = value
        return f'corner point {k} = {value!r}'

for _value in ('NOT_AN_AIRFOIL', '', 'NACA12', 'NACA', 'NACAabcd', 'airfoils/missing.dat', 'airfoils', 'airfoils/junk.dat', 'airfoils/empty.dat', None, 2412):
    @fault(f'airfoil {_value!r}')
    def _(rng, case, value=_value):
        k = gen.pick(rng, ['inner', 'outer'])
        _segment(rng, case)['airfoils'][k] = value
        files = case.setdefault('airfoils', {})
        files['junk.dat'] = 'this file\ncontains text\n'
        files['empty.dat'] = ''
        return f'{k} airfoil {value!r}'


@fault('airfoil not given')
def _(rng, case):
    k = gen.pick(rng, ['inner', 'outer'])
    del _segment(rng, case)['airfoils'][k]
    return f'no {k} airfoil'


for _value in (0, -3, 'two', [2]):
    for _key in ('num_s', 'num_c'):
        @fault(f'segment panels {_key} = {_value!r}')
        def _(rng, case, key=_key, value=_value):
            s = _segment(rng, case)
            s['panels'] = dict(s.get('panels') or {'num_s': 2, 'num_c': 2}, **{key: value})
            return f'{key} = {value!r}'

    @fault(f'control panels num_c = {_value!r}')
    def _(rng, case, value=_value):
        w, c = _control(rng, case)
        if c is None:
            return None
        c['panels'] = {'num_c': value}
        return f'num_c = {value!r}'


# ----- Controls -----
for _value in ('aileron', '', None, 'FLAPS', 3):
    @fault(f'device type {_value!r}')
    def _(rng, case, value=_value):
        w, c = _control(rng, case)
        if c is None:
            return None
        c['device_type'] = value
        return 'device type'

for _value in (90.5, -91, 180, 1e6, '5', [5.0]):
    @fault(f'deflection {_value!r}')
    def _(rng, case, value=_value):
        w, c = _control(rng, case)
        if c is None:
            return None
        c['deflection'] = value
        return 'deflection'

    @fault(f'mirrored deflection {_value!r}')
    def _(rng, case, value=_value):
        w, c = _control(rng, case, symmetric=True)
        if c is None:
            return None
        c['deflection_mirror'] = value
        return 'deflection_mirror'


@fault('no deflection')
def _(rng, case):
    w, c = _control(rng, case)
    if c is None:
        return None
    if gen.chance(rng, .5):
        del c['deflection']
    else:
        c['deflection'] = None
    return 'no deflection'


for _key in ('uid', 'device_type', 'segment_uid', 'rel_vertices', 'rel_hinge_vertices'):
    @fault(f'control without {_key}')
    def _(rng, case, key=_key):
        w, c = _control(rng, case)
        if c is None:
            return None
        del c[key]
        return f'no {key}'

for _key in ('eta_inner', 'eta_outer', 'xsi_inner', 'xsi_outer'):
    @fault(f'control without {_key}')
    def _(rng, case, key=_key):
        w, c = _control(rng, case)
        if c is None:
            return None
        if gen.chance(rng, .5):
            del c['rel_vertices'][key]
        else:
            c['rel_vertices'][key] = None
        return f'no {key}'

for _value in (-.2, 1.2, 5, 'half'):
    for _key in ('eta_inner', 'eta_outer', 'xsi_inner', 'xsi_outer'):
        @fault(f'{_key} = {_value!r}')
        def _(rng, case, key=_key, value=_value):
            w, c = _control(rng, case)
            if c is None:
                return None
            c['rel_vertices'][key] = value
            return f'{key} = {value!r}'

    for _key in ('xsi_inner', 'xsi_outer'):
        @fault(f'hinge {_key} = {_value!r}')
        def _(rng, case, key=_key, value=_value):
            w, c = _control(rng, case)
            if c is None:
                return None
            c['rel_hinge_vertices'][key] = value
            return f'hinge {key} = {value!r}'

for _value in (0.0, 1.0):
    for _key in ('xsi_inner', 'xsi_outer'):
        @fault(f'{_key} = {_value!r}')
        def _(rng, case, key=_key, value=_value):
            w, c = _control(rng, case)
            # (across segments such values are interpolated, and rounding may bring them just inside of the range)
            if c is None or c['segment_uid']['inner'] != c['segment_uid']['outer']:
                return None
            c['rel_vertices'][key] = value
            return f'{key} = {value!r}'


@fault('reversed spanwise positions')
def _(rng, case):
    w, c = _control(rng, case)
    if c is None or c['segment_uid']['inner'] != c['segment_uid']['outer']:
        return None
    rv = c['rel_vertices']
    rv['eta_inner'], rv['eta_outer'] = rv['eta_outer'], rv['eta_inner']
    return 'eta_inner and eta_outer exchanged'


@fault('no spanwise extent')
def _(rng, case):
    w, c = _control(rng, case)
    if c is None or c['segment_uid']['inner'] != c['segment_uid']['outer']:
        return None
    c['rel_vertices']['eta_outer'] = c['rel_vertices']['eta_inner']
    return 'eta_inner equal to eta_outer'


@fault('unknown segment of a control')
def _(rng, case):
    w, c = _control(rng, case)
    if c is None:
        return None
    k = gen.pick(rng, ['inner', 'outer'])
    other = [s['uid'] for v in case['aircraft']['wings'] if v is not w for s in v['segments'] if s['uid'] not in [t['uid'] for t in w['segments']]]
    c['segment_uid'][k] = gen.pick(rng, ['nowhere', ''] + other)
    return f"{k} segment '{c['segment_uid'][k]}'"


@fault('two controls in the same place')
def _(rng, case):
    w, c = _control(rng, case)
    if c is None:
        return None
    new = copy.deepcopy(c)
    new['uid'] += '_copy'
    w['controls'].append(new)
    return 'copy of a control'


@fault('controls overlapping along the span')
def _(rng, case):
    w, c = _control(rng, case)
    if c is None or c['segment_uid']['inner'] != c['segment_uid']['outer']:
        return None
    new = copy.deepcopy(c)
    new['uid'] += '_half'
    rv = new['rel_vertices']
    rv['eta_outer'] = .5*(rv['eta_inner'] + rv['eta_outer'])
    if rv['eta_outer'] - rv['eta_inner'] < .05:
        return None
    w['controls'].append(new)
    return 'control on the inner half of another one'


@fault('slat and flap overlapping along the chord')
def _(rng, case):
    w, c = _control(rng, case)
    if c is None or len(w['controls']) != 1:
        return None
    new = copy.deepcopy(c)
    new['uid'] += '_opposite'
    new['device_type'] = {'flap': 'slat', 'slat': 'flap'}[c['device_type']]
    shift = {'flap': -.07, 'slat': .07}[new['device_type']]
    # At both ends, or at one of them only
    ends = rng.integers(3)
    for i, k in enumerate(('xsi_inner', 'xsi_outer')):
        x = new['rel_vertices'][k] + (shift if ends in (i, 2) else -3*shift)
        if not .02 < x < .98:
            return None
        new['rel_vertices'][k] = x
    w['controls'].insert(int(rng.integers(2)), new)
    return 'slat reaching behind the front edge of the flap'


# ----- Flight state -----
for _key in ('airspeed', 'density', 'alpha', 'beta', 'rate_P', 'rate_Q', 'rate_R'):
    for _value in ('absent', None, 'fast', [], [1.0, None], {}):
        @fault(f'state {_key} {_value!r}')
        def _(rng, case, key=_key, value=_value):
            aero = case['state']['aero']
            if value == 'absent':
                del aero[key]
            elif isinstance(value, list) and value:
                for k in aero:
                    aero[k] = [aero[k], aero[k]]
                aero[key] = [aero[key][0], None]
            else:
                aero[key] = value
            return f'{key} {value!r}'

for _extra in ({'mach': .3}, {'altitude': 1000.}, {'mach': .3, 'altitude': 1000.}):
    @fault(f'state overdetermined by {sorted(_extra)}')
    def _(rng, case, extra=_extra):
        case['state']['aero'].update(extra)
        return f'additional {extra}'

for _key in ('alpha', 'beta'):
    for _value in (90.01, -120, 360):
        @fault(f'state {_key} = {_value}')
        def _(rng, case, key=_key, value=_value):
            case['state']['aero'][key] = value
            return f'{key} = {value}'


@fault('lists of different lengths')
def _(rng, case):
    aero = case['state']['aero']
    for k in aero:
        aero[k] = [aero[k]]*3
    k = gen.pick(rng, sorted(aero))
    aero[k] = aero[k][:2]
    return f'two values of {k}, three of the others'


@fault('empty state')
def _(rng, case):
    case['state'] = gen.pick(rng, [{'aero': {}}, {}, {'aero': None}, {'aero': {k: [] for k in case['state']['aero']}}])
    return f"state {case['state']}"


# ----- Settings -----
for _key in ('vlm_autopanels_c', 'vlm_autopanels_s'):
    for _value in (0, -2, '4', 2.5, None):
        @fault(f'{_key} = {_value!r}')
        def _(rng, case, key=_key, value=_value):
            case['settings'][key] = value
            # Autopanels are needed somewhere
            for w in case['aircraft']['wings']:
                for s in w['segments']:
                    s.pop('panels', None)
            return f'{key} = {value!r}'

for _value in (0.0, 1.0, -1e-6, 'small'):
    @fault(f'_epsilon = {_value!r}')
    def _(rng, case, value=_value):
        case['settings']['_epsilon'] = value
        return f'_epsilon {value!r}'


# ----- Files -----
for _key in ('aircraft', 'state', 'deformation'):
    @fault(f'{_key} file missing')
    def _(rng, case, key=_key):
        case.pop('deformation', None)
        case['settings'][key] = 'missing.json'
        return 'file does not exist'

for _value in ('ac.txt', 'ac', 'ac.csv', '.json.bak'):
    @fault(f'aircraft file {_value!r}')
    def _(rng, case, value=_value):
        case['aircraft_name'] = value
        return 'unsupported file type'

for _key in ('aircraft', 'state', 'deformation', 'settings'):
    @fault(f'{_key} file truncated')
    def _(rng, case, key=_key):
        if key == 'deformation' and 'deformation' not in case:
            case['deformation'] = gen.deformation(rng, case['aircraft'])
        case['truncate'] = key
        return 'file ends in the middle'


@fault('deformation of an unknown wing')
def _(rng, case):
    field = gen.deformation(rng, case['aircraft'])
    field[gen.pick(rng, ['no_such_wing', 'no_such_wing_m'])] = next(iter(field.values()))
    case['deformation'] = field
    return 'deformation field for a wing which does not exist'


@fault('state from CPACS with a native aircraft')
def _(rng, case):
    case['settings']['state'] = gen.pick(rng, ['__CPACS', '__cpacs'])
    return 'state __CPACS'
