"""
Runs functions in a pristine process: a child forked before the worker has run
any analysis, which in turn forks once per call.
"""

import os
import pickle
import struct


class Zygote:
    def __init__(self):
        self.req_r, self.req_w = os.pipe()
        self.res_r, self.res_w = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            os.close(self.req_w)
            os.close(self.res_r)
            self._serve()
            os._exit(0)
        os.close(self.req_r)
        os.close(self.res_w)

    @staticmethod
    def _write(fd, data):
        data = struct.pack('>Q', len(data)) + data
        while data:
            data = data[os.write(fd, data):]

    @staticmethod
    def _read(fd):
        def exactly(n):
            out = b''
            while len(out) < n:
                part = os.read(fd, n - len(out))
                if not part:
                    return None
                out += part
            return out
        head = exactly(8)
        return None if head is None else exactly(struct.unpack('>Q', head)[0])

    def _serve(self):
        while True:
            data = self._read(self.req_r)
            if data is None:
                return
            pid = os.fork()
            if pid == 0:
                try:
                    func, args = pickle.loads(data)
                    out = ('ok', func(*args))
                except BaseException as err:
                    out = ('error', err)
                try:
                    out = pickle.dumps(out)
                except Exception:
                    out = pickle.dumps(('error', RuntimeError(repr(out[1]))))
                self._write(self.res_w, out)
                os._exit(0)
            _, status = os.waitpid(pid, 0)
            if status:
                self._write(self.res_w, pickle.dumps(('died', status)))

    def call(self, func, *args):
        self._write(self.req_w, pickle.dumps((func, args)))
        data = self._read(self.res_r)
        if data is None:
            raise RuntimeError('pristine process has ended')
        kind, value = pickle.loads(data)
        if kind == 'error':
            raise value
        if kind == 'died':
            raise RuntimeError(f'pristine process died with status {value}')
        return value
