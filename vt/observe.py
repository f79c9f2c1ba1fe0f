"""
Observation of analyses: what a caller of the public entry points gets to see.

Everything the monitors need is copied out of the results into plain data;
structural expectations (array shapes, finite numbers, bookkeeping indices) are
checked here, because every other monitor relies on them.
"""

import traceback
from collections import namedtuple

import numpy as np

from vt import build, project
from vt.runner import Violation

Entry = namedtuple('Entry', 'wing segment control type mirror idx num_c')

PANEL_KEYS = ('gamma', 'vx', 'vy', 'vz', 'vmag', 'fx', 'fy', 'fz', 'fmag', 'cp')
GLOBAL_KEYS = ('x', 'y', 'z', 'D', 'C', 'L', 'l', 'm', 'n')


def prepare():
    """Build the code under test and import it (in the parent of the workers)"""
    build.activate(build.prepare('plain'))
    import pytornado.stdfun.run  # noqa: F401
    import scipy.linalg  # noqa: F401


class Obs:
    """Plain data observed from one analysis"""

    def panels(self, **kw):
        """Indices of the panels of all entries with the given attributes"""
        out = [e.idx for e in self.entries if all(getattr(e, k) == v for k, v in kw.items())]
        return np.concatenate(out) if out else np.zeros(0, int)

    @property
    def n_panels(self):
        return len(self.p)


def _array(value, shape, name):
    if value is None:
        raise Violation(f'{name} is missing', 'structure')
    value = np.array(value, dtype=float)
    if value.shape != shape:
        raise Violation(f'{name} has shape {value.shape}, expected {shape}', 'structure')
    if not np.isfinite(value).all():
        raise Violation(f'{name} contains values which are not finite', 'nonfinite')
    return value


def observe_lattice(lattice):
    o = Obs()
    n = len(lattice.p)
    o.p = _array(lattice.p, (n, 4, 3), 'lattice.p')
    o.v = _array(lattice.v, (n, 4, 3), 'lattice.v')
    o.c = _array(lattice.c, (n, 3), 'lattice.c')
    o.n = _array(lattice.n, (n, 3), 'lattice.n')
    o.a = _array(lattice.a, (n,), 'lattice.a')
    o.mid = _array(lattice.bound_leg_midpoints, (n, 3), 'lattice.bound_leg_midpoints')
    o.info = dict(lattice.info)
    o.entries = []
    for e in lattice.panel_bookkeeping:
        s = e.subarea
        idx = np.array(list(e.pan_idx), dtype=int)
        if len(idx) and (idx.min() < 0 or idx.max() >= n):
            raise Violation('bookkeeping names panels which do not exist', 'structure')
        o.entries.append(Entry(s.parent_wing.uid, s.parent_segment.uid,
                               s.parent_control.uid if s.parent_control is not None else None,
                               s.type, bool(e.mirror), idx, int(e.num_chordwise_panels)))
    o.by_wing = {}
    for mirror, table in ((False, lattice.bookkeeping_by_wing_uid), (True, lattice.bookkeeping_by_wing_uid_mirror)):
        for uid, entries in table.items():
            o.by_wing[uid, mirror] = [int(i) for e in entries for i in e.pan_idx]
    return o


def observe(results):
    """Plain observation of a results dictionary of standard_run"""
    o = observe_lattice(results['lattice'])
    n = len(o.p)
    vlm = results['vlmdata']
    o.aic = _array(vlm.matrix_downwash, (n, n), 'downwash matrix')
    o.rhs = _array(np.reshape(vlm.array_rhs, -1), (n,), 'right-hand side')
    o.pw = {k: _array(np.reshape(vlm.panelwise[k], -1), (n,), f'panelwise {k}') for k in PANEL_KEYS}
    o.gamma = o.pw['gamma']
    o.f = np.stack([o.pw['fx'], o.pw['fy'], o.pw['fz']], axis=1)
    o.w = np.stack([o.pw['vx'], o.pw['vy'], o.pw['vz']], axis=1)
    o.forces = {k: float(vlm.forces[k]) for k in GLOBAL_KEYS}
    o.coeffs = {k: float(vlm.coeffs[k]) for k in GLOBAL_KEYS}
    if not np.isfinite(list(o.forces.values()) + list(o.coeffs.values())).all():
        raise Violation('loads or coefficients are not finite', 'nonfinite')
    o.state = results['state']
    o.settings = results['settings']
    return o


def run_results(case, root=None):
    """Results dictionary of an analysis of a valid case; failing is a violation"""
    try:
        if root is not None:
            return project.run_project(root, **case)
        with project.scratch() as tmp:
            return project.run_project(tmp, **case)
    except Violation:
        raise
    except (MemoryError, OSError):
        raise
    except Exception:
        raise Violation('a valid analysis failed:\n' + traceback.format_exc()[-1500:], 'exception')


def run_case(case, root=None):
    return observe(run_results(case, root))


def epsilon(case):
    return case['settings'].get('_epsilon', 1e-6)


def close(a, b, scale, tol):
    """Largest deviation relative to 'scale', and whether it is within 'tol'"""
    diff = np.max(np.abs(np.asarray(a) - np.asarray(b))) if np.size(a) else 0.0
    rel = float(diff/scale) if scale else float(diff)
    return rel, rel <= tol
