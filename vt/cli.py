"""
Runs the command line program in a process of its own, as an unprivileged user,
and records what it did to the file system.
"""

import contextlib
import hashlib
import os
import runpy
import stat
import sys
import tempfile

from vt import build

NOBODY = 65534
WRITING = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND
CHANGING = {'os.remove', 'os.rename', 'os.rmdir', 'os.mkdir', 'os.chmod', 'os.chown', 'os.link', 'os.symlink',
            'os.truncate', 'os.utime', 'os.setxattr', 'os.removexattr', 'shutil.rmtree', 'shutil.move', 'shutil.copyfile'}


def script(kind='plain'):
    return build.prepare(kind) / 'bin' / 'pytornado'


def grant(path):
    """Give a directory tree to the unprivileged user"""
    os.lchown(path, NOBODY, NOBODY)
    os.chmod(path, 0o755)
    for folder, dirs, files in os.walk(path):
        for name in dirs + files:
            os.lchown(os.path.join(folder, name), NOBODY, NOBODY)


def drop_privileges():
    os.umask(0o022)
    os.setgroups([])
    os.setgid(NOBODY)
    os.setuid(NOBODY)
    if os.access('/root', os.R_OK) or os.geteuid() != NOBODY:
        raise RuntimeError('still privileged')


class Recorder:
    """Audit hook: every write access made through Python"""

    def __init__(self):
        self.events = []
        self.active = False

    def __call__(self, event, args):
        if not self.active:
            return
        if event == 'open':
            path, mode, flags = args
            if isinstance(path, int):
                return
            if isinstance(flags, int) and flags & WRITING or (isinstance(mode, str) and set(mode) & set('wax+')):
                self._add('write', path)
        elif event in CHANGING:
            which = {'os.rename': args[:2], 'shutil.move': args[:2], 'os.link': args[1:2], 'os.symlink': args[1:2], 'shutil.copyfile': args[1:2]}
            for arg in which.get(event, args[:1]):
                if isinstance(arg, (str, bytes, os.PathLike)):
                    dir_fd = next((a for a in args[1:] if isinstance(a, int) and a > 2), None) if event in ('os.remove', 'os.rmdir', 'shutil.rmtree') else None
                    self._add(event, arg, dir_fd)

    def _add(self, kind, path, dir_fd=None):
        path = os.fsdecode(path)
        if not os.path.isabs(path):
            base = os.getcwd()
            if dir_fd is not None and dir_fd >= 0:
                with contextlib.suppress(OSError):
                    base = os.readlink(f'/proc/self/fd/{dir_fd}')
            path = os.path.join(base, path)
        # Resolve the directory (the last component itself may be a link which is removed)
        head, tail = os.path.split(os.path.normpath(path))
        self.events.append((kind, os.path.join(os.path.realpath(head), tail)))


def command(argv, cwd, home, script_path, show_log=None):
    """
    Run 'pytornado argv' in this process (call in a child process only)

    Returns (exit code, exception, stdout, stderr, file system events)
    """
    drop_privileges()
    os.chdir(cwd)
    os.environ['HOME'] = str(home)
    files = [tempfile.TemporaryFile() for _ in range(2)]
    sys.stdout.flush()
    sys.stderr.flush()
    keep = [os.dup(1), os.dup(2)]
    recorder = Recorder()
    sys.addaudithook(recorder)
    code, exception = 0, None
    for f, fd in zip(files, (1, 2)):
        os.dup2(f.fileno(), fd)
    sys.stdout, sys.stderr = open(1, 'w', closefd=False), open(2, 'w', closefd=False)
    sys.argv = [str(script_path), *map(str, argv)]
    recorder.active = True
    try:
        runpy.run_path(str(script_path), run_name='__main__')
    except SystemExit as err:
        code = err.code if isinstance(err.code, int) else (0 if err.code is None else 1)
    except BaseException as err:
        code, exception = 1, f'{type(err).__name__}: {err}'
    recorder.active = False
    sys.stdout.flush()
    sys.stderr.flush()
    out = []
    for f, fd, k in zip(files, (1, 2), keep):
        os.dup2(k, fd)
        f.seek(0)
        out.append(f.read().decode(errors='replace'))
    return code, exception, out[0], out[1], recorder.events


def snapshot(root):
    """Content of a directory tree: relative path -> ('dir',) | ('link', target) | ('file', mode, digest)"""
    root = os.fspath(root)
    out = {}
    for folder, dirs, files in os.walk(root):
        for name in dirs + files:
            path = os.path.join(folder, name)
            rel = os.path.relpath(path, root)
            info = os.lstat(path)
            if stat.S_ISLNK(info.st_mode):
                out[rel] = ('link', os.readlink(path))
            elif stat.S_ISDIR(info.st_mode):
                out[rel] = ('dir',)
            else:
                with open(path, 'rb') as fp:
                    out[rel] = ('file', stat.S_IMODE(info.st_mode), hashlib.sha1(fp.read()).hexdigest())
    return out


def changes(before, after):
    """(created, removed, changed) paths"""
    return (sorted(set(after) - set(before)), sorted(set(before) - set(after)),
            sorted(k for k in before if k in after and before[k] != after[k]))
