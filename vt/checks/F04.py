"""F04: requested plots are produced, show the right data and do not affect results"""

import contextlib
import copy
import re
import traceback
from pathlib import Path

import numpy as np

from vt import gen, geom, observe, project, record
from vt.runner import Violation

RULE = ('random aircraft (all symmetry flags, controls over several segments, deformation fields), lists of flight states and plot settings; matplotlib figures '
        'are recorded at the moment they are saved or shown, and their artists (lines, markers, coloured surfaces, images, colour bars) compared with the '
        'definition and with analyses of the single states without plots; non-trivial: distinct projects with at least one figure')
ASSUMPTIONS = ['figures are compared through matplotlib artists (edges of polylines, colours of patches), pixels are left to matplotlib',
               'saving is replaced by a stand-in which only creates the file (F02 saves real files)']
REQUIRE = {'figures saved': 150, 'figures shown': 60, 'projects without plots': 5, 'wing outlines': 100, 'panel outlines': 3000, 'coloured panels': 1500, 'controls drawn': 30,
           'downwash images': 20, 'deformation points': 20, 'colour bars': 40, 'info boxes': 60}
MIN_DISTINCT = 35
CASE_TIMEOUT = 300

GREY, BLACK, RED, GREEN, BLUE, MAROON = ('grey', 'black', 'red', 'green', 'blue', 'maroon')
VIEWS = ((1, 2), (0, 2), (0, 1))
KEYS = ['cp', 'gamma', 'vx', 'vy', 'vz', 'vmag', 'fx', 'fy', 'fz', 'fmag']


def prepare():
    observe.prepare()
    import matplotlib.pyplot  # noqa: F401
    import mpl_toolkits.mplot3d  # noqa: F401


def plan(tier, seed):
    return [{'seed': [seed, 'F04', i], 'index': i} for i in range({'quick': 110, 'thorough': 2500}[tier])]


class Recorder:
    """Replaces saving and showing of figures"""

    def __init__(self, stack):
        import matplotlib.figure
        import matplotlib.pyplot as plt
        self.saved, self.shown = [], []

        def savefig(fig, fname, **kw):
            Path(fname).touch()
            self.saved.append((str(fname), inspect(fig)))

        def show(*args, **kw):
            self.shown.append([inspect(plt.figure(n)) for n in plt.get_fignums()])
        for owner, name, new in ((matplotlib.figure.Figure, 'savefig', savefig), (plt, 'show', show)):
            old = getattr(owner, name)
            setattr(owner, name, new)
            stack.callback(setattr, owner, name, old)


def rgba(color):
    from matplotlib.colors import to_rgba
    return tuple(np.round(to_rgba(color), 6))


def arrow(segments):
    """Vector from the tail to the tip of an arrow made of a shaft and the lines of the head"""
    segments = sorted((np.array(s, float) for s in segments), key=lambda s: -np.linalg.norm(s[-1] - s[0]))
    a, b = segments[0][0], segments[0][-1]
    heads = np.concatenate(segments[1:]) if len(segments) > 1 else b.reshape(1, -1)
    return b - a if np.abs(heads - b).max(axis=1).min() <= np.abs(heads - a).max(axis=1).min() else a - b


def inspect(fig):
    """Plain description of the artists of a figure"""
    out = {'lines': [], 'points': [], 'surfaces': [], 'patches': {0: [], 1: [], 2: []}, 'images': [], 'bars': [], 'vectors': [], 'limits': [], 'dim': None, 'texts': []}
    out['texts'].append(fig._suptitle.get_text() if fig._suptitle is not None else '')
    view = 0
    for ax in fig.axes:
        out['texts'].append(ax.get_title())
        if ax.name == '3d':
            out['dim'] = 3
            for line in ax.lines:
                out['lines'].append((3, rgba(line.get_color()), np.array(line.get_data_3d(), float).T, line.get_marker()))
            for coll in ax.collections:
                kind = type(coll).__name__
                if kind == 'Path3DCollection':
                    out['points'].append((3, rgba(coll.get_facecolor()[0] if len(coll.get_facecolor()) else coll.get_edgecolor()[0]), np.array(coll._offsets3d, float).T))
                elif kind == 'Poly3DCollection':
                    vec = np.asarray(coll._vec)[:3].T
                    out['surfaces'].append((vec, np.unique(np.round(np.atleast_2d(coll._facecolor3d), 6), axis=0)))
                elif kind == 'Line3DCollection':
                    out['vectors'].append(arrow(coll._segments3d))
            out['limits'].append((3, np.array([ax.get_xlim3d(), ax.get_ylim3d(), ax.get_zlim3d()])))
            out['texts'] += [t.get_text() for t in ax.texts]
        elif ax.images and not ax.lines:
            out['images'].append(np.array(ax.images[0].get_array(), float))
            out['dim'] = out['dim'] or 0
        elif ax.get_xlabel() and ax.get_xlabel()[0] in 'XYZ':
            out['dim'] = 2
            for line in ax.lines:
                out['lines'].append((view, rgba(line.get_color()), np.array(line.get_xydata(), float), line.get_marker()))
            for coll in ax.collections:
                out['points'].append((view, rgba(coll.get_edgecolor()[0]), np.array(coll.get_offsets(), float)))
            for patch in ax.patches:
                out['patches'][view].append((tuple(np.round(patch.get_facecolor(), 6)), np.array(patch.get_xy(), float)))
            out['limits'].append((view, np.array([ax.get_xlim(), ax.get_ylim()])))
            view += 1
        elif ax.get_ylabel():
            out['bars'].append((ax.get_ylabel(), tuple(ax.get_ylim())))
    return out


def make_case(rng, index):
    if index % 8 == 5:
        # A single panel: all values are the same
        kw = dict(nwings=1, symmetry=(0,), max_c=1, max_s=1, auto_panels=0., nseg=1, controls=0.)
    elif index % 8 == 6:
        kw = dict(nwings=1, symmetry=(2,), max_c=2, max_s=3, nseg=int(rng.integers(1, 4)), controls=.8, left=1.)
    else:
        kw = dict(nwings=1 + gen.chance(rng, .4), symmetry=(0, 2, 2, 1, 3), max_c=3, max_s=4, nseg=int(rng.integers(1, 4)), controls=.8)
    case = gen.case(rng, aircraft_kw=kw, settings_kw=dict(max_c=3, max_s=5), deform=.35,
                    sizes=0 if index % 8 == 1 else .25)
    if index % 8 == 1:
        gen.rescale(case, gen.pick(rng, [.01, .03]))
    field = case.get('deformation')
    if field and len(field) > 1 and gen.chance(rng, .5):
        # Fields for some wings or sides only
        del field[gen.pick(rng, sorted(field))]
    n = 12 if index % 40 == 18 else int(gen.pick(rng, [1, 1, 2, 3]))
    states = [gen.flow(rng) for _ in range(n)]
    if index % 8 == 1:
        # Small values
        for s in states:
            gen.unusual_flow(rng, s, ['slow'])
    case['state'] = {'aero': {k: [s[k] for s in states] for k in states[0]}}
    if index % 8 == 3:
        case['settings']['plot'] = gen.pick(rng, [{}, {'results': {'opt': ['cp', 'fz']}}, {'lattice': {'opt': ['deformation'], 'save': False}}])
        return case, states
    plot = {'results': {'save': True}} if index % 8 in (1, 5) else {}
    for name in ('geometry', 'lattice', 'matrix_downwash', 'results'):
        if gen.chance(rng, .75) and not (name == 'results' and index % 8 == 1):
            plot[name] = {'save': gen.chance(rng, .6), 'show': gen.chance(rng, .3)}
            if gen.chance(rng, .2):
                del plot[name][gen.pick(rng, ['save', 'show'])]
    if n == 12:
        plot = {gen.pick(rng, ['lattice', 'results']): {'save': True}}
    if 'results' in plot and gen.chance(rng, .7):
        plot['results']['opt'] = [str(k) for k in rng.choice(KEYS, size=int(rng.integers(1, 3)), replace=False)]
    if 'lattice' in plot and gen.chance(rng, .6):
        plot['lattice']['opt'] = ['deformation']
    if index % 8 == 1:
        plot['results']['opt'] = [gen.pick(rng, ['gamma', 'fx', 'fy', 'fz', 'fmag'])]
    case['settings']['plot'] = plot
    return case, states


def run_case(spec, mon):
    import matplotlib.pyplot as plt
    rng = gen.rng_for(*spec['seed'])
    case, states = make_case(rng, spec['index'])
    plot = case['settings']['plot']
    # Reference: every state alone and without plots
    refs = []
    for s in states:
        alone = copy.deepcopy(case)
        del alone['settings']['plot']
        alone['state'] = {'aero': s}
        refs.append(record.run(alone))

    with project.scratch() as tmp, contextlib.ExitStack() as stack:
        rec = Recorder(stack)
        try:
            results = project.run_project(tmp, **case)
        except (MemoryError, OSError):
            raise
        except Exception:
            raise Violation('an analysis with plots failed:\n' + traceback.format_exc()[-1500:], 'exception')
        got = record.collect(results, tmp)
        left = plt.get_fignums()
        plt.close('all')
        files = sorted(str(p.relative_to(tmp / '_plots')) for p in (tmp / '_plots').rglob('*') if p.is_file())
    mon.require(not left, f'{len(left)} figures are left open', 'left open')

    # ----- Results are the same with and without plots -----
    for key in ('lattice', 'panelwise', 'matrix', 'rhs', 'forces', 'coeffs'):
        diff = record.differences(refs[-1][key], got[key], key)
        mon.require(diff is None, f'results with plots differ from those without: {diff}', 'results')
    for i, ref in enumerate(refs):
        diff = record.differences({k: v[0] for k, v in ref['apm'].items()}, {k: v[i] for k, v in got['apm'].items()})
        mon.require(diff is None, f'results with plots differ from those without: {diff}', 'results')

    # ----- Exactly the plots which were requested -----
    wanted = []
    keys = plot.get('results', {}).get('opt') or ['cp']
    for name, labels in (('geometry', ['geometry']), ('lattice', ['lattice']), ('results', [f'results_{k}' for k in keys]), ('matrix_downwash', ['downwash'])):
        if name in plot:
            wanted += [(name, label) for label in labels]
    expected = []
    for i in range(len(states)):
        for name, label in wanted:
            if plot[name].get('save'):
                expected += [(i, label + dim) for dim in ([''] if label == 'downwash' else ['2D', '3D'])]
    found = []
    for fname, fig in rec.saved:
        m = re.fullmatch(r'.*/_plots/job_(\d{3})/(\w+?)_\d{4}-\d\d-\d\d_[\d-]+\.png', fname)
        mon.require(m is not None, f'figure saved as {fname}', 'file name')
        found.append((int(m[1]), m[2]))
        mon.count('figures saved')
        check(m[2], fig, case, refs[int(m[1])], states[int(m[1])], plot, mon)
    mon.require(sorted(found) == sorted(expected), f'figures saved: {sorted(found)}, expected: {sorted(expected)}', 'presence')
    mon.require(len(files) == len(found), f'{len(files)} files in the plot directories, {len(found)} figures saved', 'presence')

    shows = [label for name, label in wanted if plot[name].get('show')]
    figures = sum(len(s) for s in rec.shown)
    want = len(states)*sum(1 if label == 'downwash' else 2 for label in shows)
    mon.require(figures == want, f'{figures} figures shown, expected {want} ({shows})', 'shown')
    # Figures are shown in the order of the states
    per_state = len(want and rec.shown)//len(states) if states and want else 0
    for k, group in enumerate(rec.shown):
        i = k//per_state
        for fig in group:
            mon.count('figures shown')
            check(classify(fig, shows, refs[i], mon), fig, case, refs[i], states[i], plot, mon)
    mon.count('projects without plots', not expected and not shows)
    if expected or shows:
        mon.nontrivial(case)
    mon.sample = {'plot': plot, 'states': len(states), 'figures saved': len(rec.saved), 'shown': figures, 'panels': len(got['lattice']['p'])}


def classify(fig, shows, ref, mon):
    if fig['images']:
        label = 'downwash'
    elif fig['surfaces']:
        label = 'results_' + (fig['bars'][0][0] if fig['bars'] else '?') + '3D'
    elif any(fig['patches'].values()):
        label = 'results_?2D'
    else:
        colors = {c for _, c, _, _ in fig['lines']}
        label = ('geometry' if rgba(GREY) in colors else 'lattice') + f"{fig['dim']}D"
    mon.require(any(label.startswith(s) for s in shows) or label == 'results_?2D' and any(s.startswith('results_') for s in shows), f"a figure like '{label}' was shown, requested were {shows}", 'shown')
    return label


# ----- Content -----

def edges(polylines):
    """Set of undirected edges"""
    out = set()
    for pts in polylines:
        r = np.round(np.asarray(pts, float), 7) + 0.0
        for a, b in zip(r[:-1], r[1:]):
            out.add(tuple(sorted((tuple(a), tuple(b)))))
    return out


def projected(polylines, view):
    return [np.asarray(p, float) if view == 3 else np.asarray(p, float)[:, list(VIEWS[view])] for p in polylines]


def drawn(fig, color, what, polylines, mon, label):
    """In every view exactly the given polylines have the given colour"""
    for view in ([3] if fig['dim'] == 3 else [0, 1, 2]):
        got = edges([xy for v, c, xy, _ in fig['lines'] if v == view and c == rgba(color)])
        want = edges(projected(polylines, view))
        if view != 3:
            # Edges seen from the end are points; they carry no information
            got, want = ({e for e in s if e[0] != e[1]} for s in (got, want))
        extra, missing = near(got, want), near(want, got)
        mon.require(not missing, f'{label}: {what} not drawn in view {view}: {sorted(missing)[:2]}', what)
        mon.require(not extra, f'{label}: in view {view} drawn as {what}: {sorted(extra)[:2]}', what)


def near(a, b):
    """Edges of a which are not in b, up to rounding"""
    rest = a - b
    if not rest or not b:
        return rest
    arr = np.array(sorted(b)).reshape(len(b), -1)
    dim = arr.shape[1]//2
    swapped = np.concatenate([arr[:, dim:], arr[:, :dim]], axis=1)
    both = np.concatenate([arr, swapped])
    return {e for e in rest if np.abs(both - np.array(e).reshape(1, -1)).max(axis=1).min() > 1e-6}


def both_sides(lines, symmetry):
    return lines + ([geom.mirror(x, symmetry) for x in lines] if symmetry else [])


def control_lines(case):
    """Outlines of flaps, slats and hinges"""
    flaps, slats, hinges = [], [], []
    for w in case['aircraft']['wings']:
        seg = {s['uid']: s['vertices'] for s in w['segments']}
        for c in w['controls']:
            vi, vo = seg[c['segment_uid']['inner']], seg[c['segment_uid']['outer']]
            r, h = c['rel_vertices'], c['rel_hinge_vertices']
            edge = 1. if c['device_type'] == 'flap' else 0.
            pts = [geom.surface(vi, r['eta_inner'], edge), geom.surface(vi, r['eta_inner'], r['xsi_inner']),
                   geom.surface(vo, r['eta_outer'], r['xsi_outer']), geom.surface(vo, r['eta_outer'], edge)]
            (flaps if c['device_type'] == 'flap' else slats).extend(both_sides([np.array(pts)], w['symmetry']))
            hinges += both_sides([np.array([geom.surface(vi, r['eta_inner'], h['xsi_inner']), geom.surface(vo, r['eta_outer'], h['xsi_outer'])])], w['symmetry'])
    return flaps, slats, hinges


def controls(fig, case, visible, mon, label):
    flaps, slats, hinges = control_lines(case) if visible else ([], [], [])
    drawn(fig, RED, 'flaps', flaps, mon, label)
    drawn(fig, GREEN, 'slats', slats, mon, label)
    drawn(fig, BLUE, 'hinges', hinges, mon, label)
    mon.count('controls drawn', len(flaps) + len(slats))


def centre(fig, case, mon, label):
    cg = np.array(case['aircraft']['refs']['gcenter'], float)
    for view in ([3] if fig['dim'] == 3 else [0, 1, 2]):
        want = cg if view == 3 else cg[list(VIEWS[view])]
        got = [p for v, _, pts in fig['points'] if v == view for p in pts]
        mon.require(len(got) == 1 and np.abs(got[0] - want).max() < 1e-9, f'{label}: centre of gravity drawn at {[p.tolist() for p in got]} in view {view}, expected {want.tolist()}', 'centre of gravity')


def inside(fig, points, mon, label):
    """All points are within the limits of the axes"""
    for view, lim in fig['limits']:
        p = points if view == 3 else points[:, list(VIEWS[view])]
        mon.require((p >= lim[:, 0] - 1e-9).all() and (p <= lim[:, 1] + 1e-9).all(), f'{label}: parts of the aircraft are outside of the limits {lim.tolist()} of view {view}', 'limits')


def info_box(fig, case, mon, label):
    """Numbers of wings, segments and controls next to the aircraft"""
    wings = case['aircraft']['wings']
    text = '\n'.join(fig['texts'])
    for name, want in (('Wings', len(wings)), ('Segments', sum(len(w['segments']) for w in wings)), ('Controls', sum(len(w['controls']) for w in wings))):
        got = re.findall(name + r'\s*[=:]\s*(\S+)', text)
        mon.require(got == [str(want)], f'{label}: {name} = {got}, the aircraft has {want}', 'info box')
    mon.count('info boxes')


def outlines(case):
    out = []
    for w in case['aircraft']['wings']:
        for s in w['segments']:
            out += both_sides([np.array([s['vertices'][k] for k in 'abcda'], float)], w['symmetry'])
    return out


def check(label, fig, case, ref, state, plot, mon):
    dim = {'2D': 2, '3D': 3}.get(label[-2:])
    if label != 'downwash':
        mon.require(fig['dim'] == dim, f"{label}: figure has dimension {fig['dim']}", 'dimension')
        mon.require(case['aircraft']['uid'] in fig['texts'], f"{label}: aircraft is not named, texts are {fig['texts']}", 'title')
        if fig['dim'] == 3:
            info_box(fig, case, mon, label)
        wings = outlines(case)
        inside(fig, np.concatenate(wings), mon, label)
    if label.startswith('geometry'):
        centre(fig, case, mon, label)
        drawn(fig, GREY, 'wing outlines', wings, mon, label)
        mon.count('wing outlines', len(wings))
        controls(fig, case, True, mon, label)
        known = [GREY, RED, GREEN, BLUE]
    elif label.startswith('lattice'):
        centre(fig, case, mon, label)
        p = ref['lattice']['p']
        drawn(fig, BLACK, 'panels', [np.concatenate([q, q[:1]]) for q in p], mon, label)
        mon.count('panel outlines', len(p))
        controls(fig, case, 'deformation' not in case, mon, label)
        points = deformation_points(case) if 'deformation' in plot['lattice'].get('opt', []) else []
        drawn(fig, MAROON, 'deformation field', points, mon, label)
        mon.count('deformation points', sum(map(len, points)))
        known = [BLACK, RED, GREEN, BLUE, MAROON]
    elif label == 'downwash':
        mon.require(len(fig['images']) == 1 and np.array_equal(fig['images'][0], ref['matrix']), 'downwash plot does not show the downwash matrix', 'downwash')
        mon.count('downwash images')
        return
    else:
        results(label, fig, ref, state, plot, mon)
        return
    unknown = {c for _, c, _, _ in fig['lines']} - {rgba(c) for c in known}
    mon.require(not unknown, f'{label}: lines in unexpected colours {unknown}', 'colour')


def deformation_points(case):
    out = []
    for rows in case.get('deformation', {}).values():
        out.append(np.array(rows, float)[:, :3])
    return out


def results(label, fig, ref, state, plot, mon):
    from matplotlib import cm
    key = label[8:-2]
    p = ref['lattice']['p']
    keys = [key] if key != '?' else (plot['results'].get('opt') or ['cp'])
    errors = []
    for k in keys:
        data = ref['panelwise'][k]
        span = data.max() - data.min()
        colors = np.round(cm.get_cmap('Spectral')((data - data.min())/span if span else np.zeros(len(data))), 6)
        try:
            (surfaces if fig['dim'] == 3 else fills)(fig, p, colors, label)
            mon.count('coloured panels', len(p))
            break
        except Violation as err:
            errors.append(err)
    else:
        raise errors[0]
    mon.count('assertions')
    if fig['dim'] == 3:
        data = ref['panelwise'][key]
        mon.require(len(fig['bars']) == 1 and fig['bars'][0][0] == key, f"{label}: colour bars {fig['bars']}", 'colour bar')
        lo, hi = fig['bars'][0][1]
        scale = np.abs(data).max() or 1.
        if data.max() > data.min():
            mon.require(abs(lo - data.min()) < 1e-9*scale and abs(hi - data.max()) < 1e-9*scale, f'{label}: colour bar from {lo} to {hi}, data from {data.min()} to {data.max()}', 'colour bar')
        mon.count('colour bars')
        a, b = np.radians(state['alpha']), np.radians(state['beta'])
        u = np.array([np.cos(a)*np.cos(b), -np.sin(b), np.sin(a)*np.cos(b)])
        arrows = fig['vectors']
        good = [v for v in arrows if np.linalg.norm(v) > 0 and np.linalg.norm(v/np.linalg.norm(v) - u) < 1e-6]
        mon.require(len(arrows) == 1 and good, f'{label}: free stream vectors {[v.tolist() for v in arrows]}, expected direction {u.tolist()}', 'free stream')
        mon.require(any(f"{state['airspeed']:.1f} m/s" in t for t in fig['texts']), f"{label}: airspeed {state['airspeed']} not found in {fig['texts']}", 'airspeed')


def surfaces(fig, p, colors, label):
    """One surface per panel, in the colour of its value"""
    if len(fig['surfaces']) != len(p):
        raise Violation(f"{label}: {len(fig['surfaces'])} surfaces for {len(p)} panels", 'panels')
    boxes = np.array([np.concatenate([v.min(axis=0), v.max(axis=0)]) for v, _ in fig['surfaces']])
    want = np.concatenate([p.min(axis=1), p.max(axis=1)], axis=1)
    free = set(range(len(p)))
    for i in range(len(p)):
        cand = [j for j in ([i] if i in free else []) + sorted(free) if np.abs(boxes[j] - want[i]).max() < 1e-7]
        if not cand:
            raise Violation(f'{label}: panel {i} is not drawn', 'panels')
        match = [j for j in cand if len(fig['surfaces'][j][1]) == 1 and np.abs(fig['surfaces'][j][1][0] - colors[i]).max() < 1e-5]
        if not match:
            raise Violation(f"{label}: panel {i} has the colour {fig['surfaces'][cand[0]][1].tolist()}, its value corresponds to {colors[i].tolist()}", 'panel colours')
        free.remove(match[0])


def fills(fig, p, colors, label):
    """The parts of every view in one colour are the panels with this colour"""
    for view, axes in enumerate(VIEWS):
        got, want = {}, {}
        for c, xy in fig['patches'][view]:
            got.setdefault(tuple(np.round(c, 4)), []).append(xy)
        for q, c in zip(p[:, :, list(axes)], colors):
            want.setdefault(tuple(np.round(c, 4)), []).append(q)
        if set(got) != set(want):
            raise Violation(f'{label}: view {view} has {len(set(got) - set(want))} unexpected and {len(set(want) - set(got))} missing colours', 'panel colours')
        for c in got:
            a, b = np.concatenate(got[c]), np.concatenate(want[c])
            if max(np.abs(a.min(axis=0) - b.min(axis=0)).max(), np.abs(a.max(axis=0) - b.max(axis=0)).max()) > 1e-7:
                raise Violation(f'{label}: in view {view} the colour {c} covers {a.min(axis=0).tolist()} to {a.max(axis=0).tolist()}, '
                                f'the panels with this value cover {b.min(axis=0).tolist()} to {b.max(axis=0).tolist()}', 'panel colours')
