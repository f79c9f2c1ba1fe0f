"""Write project directories and run analyses through the public entry points"""

import contextlib
import io as _io
import json
import logging
import os
import shutil
import sys
import tempfile
from pathlib import Path


@contextlib.contextmanager
def scratch(prefix='vt_'):
    """A scratch directory, removed at exit; the working directory is inside it meanwhile"""
    base = tempfile.mkdtemp(prefix=prefix)
    cwd = os.getcwd()
    os.chdir(base)
    try:
        yield Path(base)
    finally:
        os.chdir(cwd)
        shutil.rmtree(base, ignore_errors=True)


def write_project(root, aircraft=None, state=None, settings=None, deformation=None,
                  airfoils=None, name='job', aircraft_name='ac.json', state_name='st.json'):
    root = Path(root)
    for sub in ('aircraft', 'airfoils', 'deformation', 'settings', 'state'):
        (root / sub).mkdir(parents=True, exist_ok=True)
    sdict = {'aircraft': aircraft_name, 'state': state_name}
    sdict.update(settings or {})
    if deformation is not None:
        (root / 'deformation' / 'def.json').write_text(deformation if isinstance(deformation, str) else json.dumps(deformation))
        sdict['deformation'] = 'def.json'
    if aircraft is not None:
        (root / 'aircraft' / aircraft_name).write_text(json.dumps(aircraft))
    if state is not None:
        (root / 'state' / state_name).write_text(json.dumps(state))
    for fname, text in (airfoils or {}).items():
        (root / 'airfoils' / fname).write_text(text)
    path = root / 'settings' / f'{name}.json'
    path.write_text(json.dumps(sdict))
    return path


@contextlib.contextmanager
def quiet():
    """Silence stdout/stderr at the Python level"""
    out, err = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = _io.StringIO(), _io.StringIO()
    try:
        yield
    finally:
        sys.stdout, sys.stderr = out, err


def run(settings_path):
    """Run a standard analysis, return its results dictionary"""
    from pytornado.stdfun.run import standard_run, StdRunArgs
    with quiet():
        try:
            return standard_run(StdRunArgs(run=str(settings_path), quiet=True))
        finally:
            root = logging.getLogger()
            for h in list(root.handlers):
                root.removeHandler(h)
                with contextlib.suppress(Exception):
                    h.close()


def run_project(root, **kw):
    return run(write_project(root, **kw))
