"""
Build the code under test from /repo's current working tree, outside /repo.

``prepare('plain')`` copies src/lib and src/bin to a directory keyed by the
content of the sources (under /verif/.build, ignored by git), compiles the C++
extension there and returns that directory.  ``prepare('asan')`` does the same
with AddressSanitizer and UndefinedBehaviorSanitizer, 'pattern' with a pattern in
automatic variables.  Nothing is ever written
to /repo and the extension module that may lie in /repo is not used.
"""

import fcntl
import hashlib
import os
import shutil
import subprocess
import sys
import sysconfig
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

REPO = Path(os.environ.get('VT_REPO', '/repo'))
VERIF = Path(__file__).resolve().parent.parent
CACHE = VERIF / '.build'
PYTHON = '/opt/venv/bin/python'

FLAGS = {
    'plain': (['-O2'], []),
    # Every finding of ASan or UBSan ends the process
    'asan': (['-O1', '-g', '-fno-omit-frame-pointer', '-D_GLIBCXX_ASSERTIONS',
              '-fsanitize=address,undefined', '-fsanitize=float-cast-overflow',
              '-fno-sanitize-recover=all'],
             ['-fsanitize=address,undefined']),
    # Automatic variables without initial value hold a pattern (huge negative numbers, wild pointers)
    'pattern': (['-O2', '-ftrivial-auto-var-init=pattern'], []),
    # With debug information, for valgrind
    'debug': (['-O1', '-g'], []),
}


class BuildError(Exception):
    pass


def _source_files():
    out = []
    for top in ('src/lib', 'src/bin'):
        for path in sorted((REPO / top).rglob('*')):
            if path.is_file() and path.suffix not in ('.so', '.pyc', '.o') and '__pycache__' not in path.parts:
                out.append(path)
    return out


def fingerprint(kind):
    digest = hashlib.sha256()
    digest.update(repr((kind, FLAGS[kind])).encode())
    for path in _source_files():
        digest.update(str(path.relative_to(REPO)).encode() + b'\0')
        digest.update(path.read_bytes())
        digest.update(b'\0')
    return digest.hexdigest()[:20]


def prepare(kind='plain'):
    CACHE.mkdir(parents=True, exist_ok=True)
    with open(CACHE / 'lock', 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        key = fingerprint(kind)
        dest = CACHE / f'{kind}-{key}'
        if (dest / 'done').exists():
            return dest
        # Keep the cache small
        old = sorted((p for p in CACHE.iterdir() if p.is_dir() and p.name.startswith(kind + '-') and p.name != 'compiled'),
                     key=lambda p: p.stat().st_mtime)
        for p in old[:-3]:
            shutil.rmtree(p, ignore_errors=True)
        tmp = CACHE / f'tmp-{os.getpid()}'
        shutil.rmtree(tmp, ignore_errors=True)
        for path in _source_files():
            target = tmp / path.relative_to(REPO / 'src')
            target.parent.mkdir(parents=True, exist_ok=True)
            shutil.copy2(path, target)
        _compile(tmp / 'lib' / 'pytornado' / 'aero', kind)
        (tmp / 'done').write_text(key)
        shutil.rmtree(dest, ignore_errors=True)
        os.rename(tmp, dest)
        return dest


def _compile(aero, kind):
    """Compile the extension, unless the same sources were compiled before"""
    digest = hashlib.sha256(repr((kind, FLAGS[kind])).encode())
    for path in sorted(aero.iterdir()):
        if path.suffix != '.py' and path.is_file():
            digest.update(path.name.encode() + b'\0' + path.read_bytes() + b'\0')
    name = 'c_vlm' + sysconfig.get_config_var('EXT_SUFFIX')
    store = CACHE / 'compiled' / f'{kind}-{digest.hexdigest()[:20]}'
    if not store.exists():
        _compile_sources(aero, kind, name)
        store.parent.mkdir(exist_ok=True)
        old = sorted(store.parent.glob(kind + '-*'), key=lambda p: p.stat().st_mtime)
        for p in old[:-3]:
            p.unlink()
        shutil.copy2(aero / name, str(store) + '.tmp')
        os.rename(str(store) + '.tmp', store)
    else:
        shutil.copy2(store, aero / name)


def _compile_sources(aero, kind, name):
    cflags, ldflags = FLAGS[kind]
    numpy_inc = subprocess.run([PYTHON, '-c', 'import numpy; print(numpy.get_include())'],
                               capture_output=True, text=True, check=True).stdout.strip()
    inc = ['-I', sysconfig.get_path('include'), '-I', numpy_inc]
    if not os.path.exists(os.path.join(sysconfig.get_path('include'), 'Python.h')):
        raise BuildError('Python.h not found')
    sources = sorted(aero.glob('*.cpp'))
    if not sources:
        raise BuildError('no C++ sources found')

    def one(src):
        obj = src.with_suffix('.o')
        cmd = ['g++', '-fPIC', '-w', '-c', *cflags, *inc, str(src), '-o', str(obj)]
        return obj, subprocess.run(cmd, capture_output=True, text=True)

    with ThreadPoolExecutor(8) as pool:
        results = list(pool.map(one, sources))
    for obj, res in results:
        if res.returncode:
            raise BuildError(f'compilation failed: {obj.stem}\n{res.stderr[-4000:]}')
    cmd = ['g++', '-shared', *ldflags, *[str(o) for o, _ in results], '-o', str(aero / name)]
    res = subprocess.run(cmd, capture_output=True, text=True)
    if res.returncode:
        raise BuildError(f'link failed\n{res.stderr[-4000:]}')
    for obj, _ in results:
        obj.unlink()


def activate(dest):
    """Make `import pytornado` resolve to the scratch build in this process"""
    sys.path.insert(0, str(dest / 'lib'))
    import pytornado
    here = os.path.realpath(list(pytornado.__path__)[0])
    if not here.startswith(os.path.realpath(str(dest))):
        raise BuildError(f'pytornado imported from {here}')


if __name__ == '__main__':
    for k in sys.argv[1:] or ['plain']:
        print(prepare(k))
