"""Plain record of an analysis and of the files it left (everything picklable)"""

import json
from pathlib import Path

import numpy as np

from vt import observe, project
from vt.runner import Violation

COLUMNS = ['gamma', 'vx', 'vy', 'vz', 'vmag', 'fx', 'fy', 'fz', 'fmag', 'cp']
SAVE_ALL = {'global': True, 'panelwise': True, 'aeroperformance': True, 'matrix_system': True}


def read_table(path):
    """Header lines and numbers of a text file"""
    header, rows = [], []
    for line in Path(path).read_text().splitlines():
        if line.startswith('#'):
            header.append(line[1:].strip())
        elif line.strip():
            rows.append([float(x) for x in line.split(',')])
    return header, np.array(rows)


def read_json(path):
    try:
        return json.loads(Path(path).read_text())
    except ValueError as err:
        raise Violation(f'{Path(path).name} is not a JSON file: {err}', 'file format')


def files(root):
    root = Path(root)
    out = {}
    for path in sorted(p for p in root.rglob('*') if p.is_file()):
        rel = str(path.relative_to(root))
        if not rel.startswith('_results/'):
            continue
        if path.suffix == '.json':
            out[rel] = read_json(path)
        elif path.suffix == '.dat':
            out[rel] = read_table(path)
        else:
            out[rel] = None
    return out


def lattice(lat):
    o = observe.observe_lattice(lat)
    return {'p': o.p, 'v': o.v, 'c': o.c, 'n': o.n, 'a': o.a, 'mid': o.mid,
            'info': {k: float(v) for k, v in o.info.items()},
            'entries': [tuple(e._replace(idx=[int(i) for i in e.idx])) for e in o.entries]}


def collect(results, root):
    v = results['vlmdata']
    return {'lattice': lattice(results['lattice']),
            'gamma': np.array(v.panelwise['gamma'], float), 'panelwise': {k: np.array(v.panelwise[k], float) for k in COLUMNS},
            'matrix': np.array(v.matrix_downwash, float), 'rhs': np.array(v.array_rhs, float).reshape(-1),
            'forces': {k: float(x) for k, x in v.forces.items()}, 'coeffs': {k: float(x) for k, x in v.coeffs.items()},
            'apm': {k: [float(x) for x in vals] for k, vals in results['state'].results.items()},
            'aero': {k: None if vals is None else [float(x) for x in np.reshape(vals, -1)] for k, vals in results['state'].aero.items()},
            'files': files(root)}


def run(case, root=None):
    """Record of a valid analysis"""
    if root is not None:
        return collect(observe.run_results(case, root), root)
    with project.scratch() as tmp:
        return collect(observe.run_results(case, tmp), tmp)


def attempt(case, root=None):
    """Record of an analysis which may be refused"""
    try:
        if root is not None:
            return collect(project.run_project(root, **case), root)
        with project.scratch() as tmp:
            return collect(project.run_project(tmp, **case), tmp)
    except (MemoryError, OSError):
        raise
    except Exception as err:
        return type(err).__name__


def differences(a, b, path='', tol=0.0):
    """First difference between two records (None if there is none); numbers may differ by tol, relative to the array"""
    if isinstance(a, dict) and isinstance(b, dict):
        if sorted(map(str, a)) != sorted(map(str, b)):
            return f'{path}: {sorted(map(str, a))} and {sorted(map(str, b))}'
        for k in a:
            d = differences(a[k], b[k], f'{path}/{k}', tol)
            if d:
                return d
        return None
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        if a.shape != b.shape:
            return f'{path}: shapes {a.shape} and {b.shape}'
        if not a.size:
            return None
        scale = max(np.abs(a).max(), np.abs(b).max())
        dev = np.abs(a - b).max()
        if not dev <= tol*scale:
            i = np.unravel_index(np.argmax(np.abs(a - b)), a.shape)
            return f'{path}{list(map(int, i))}: {a[i]!r} and {b[i]!r}'
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return f'{path}: {len(a)} and {len(b)} items'
        for i, (x, y) in enumerate(zip(a, b)):
            d = differences(x, y, f'{path}[{i}]', tol)
            if d:
                return d
        return None
    if isinstance(a, float) and isinstance(b, float):
        return None if abs(a - b) <= tol*max(abs(a), abs(b)) or a == b else f'{path}: {a!r} and {b!r}'
    return None if a == b else f'{path}: {a!r} and {b!r}'
