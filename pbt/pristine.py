"""A process that has imported nvector and never called it: each request runs in a fork of it.

Reads pickled lists of (operation, described arguments, parameters, which
arguments are one object) from stdin, writes pickled
lists of described results.
"""
import os
import pickle
import struct
import subprocess
import sys
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def _read(fd):
    head = b''
    while len(head) < 8:
        part = fd.read(8 - len(head))
        if not part:
            return None
        head += part
    size = struct.unpack('<Q', head)[0]
    data = b''
    while len(data) < size:
        part = fd.read(size - len(data))
        if not part:
            return None
        data += part
    return data


def _write(fd, data):
    fd.write(struct.pack('<Q', len(data)) + data)
    fd.flush()


def serve():
    import pbt.env  # noqa: F401
    from pbt import hist, sched
    from pbt.props import c24  # noqa: F401
    stdin, stdout = sys.stdin.buffer, sys.stdout.buffer
    while True:
        data = _read(stdin)
        if data is None:
            return
        results = []
        for request in pickle.loads(data):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.close(r)
                    if request[0] in sched.HANDLERS:
                        try:
                            status, value = 'ok', sched.HANDLERS[request[0]](*request[1:])
                        except Exception:
                            status, value = 'harness', traceback.format_exc()
                    else:
                        name, args, q, same = request
                        objs = [hist.rebuild(a) for a in args]
                        status, value = hist.perform(name, [objs[i] for i in same], q)
                        if status == 'ok':
                            value = hist.describe(value)
                    with os.fdopen(w, 'wb') as out:
                        out.write(pickle.dumps((status, value)))
                    code = 0
                finally:
                    os._exit(code)
            os.close(w)
            with os.fdopen(r, 'rb') as inp:
                answer = inp.read()
            os.waitpid(pid, 0)
            results.append(answer)
        _write(stdout, pickle.dumps(results))


class Pristine(object):
    """client"""

    def __init__(self):
        self.proc = subprocess.Popen([sys.executable, '-c', 'import sys; sys.path.insert(0, %r); '
                                      'from pbt import pristine; pristine.serve()' % VERIF],
                                     stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                     stderr=subprocess.DEVNULL)

    def run(self, requests):
        _write(self.proc.stdin, pickle.dumps(requests))
        data = _read(self.proc.stdout)
        if data is None:
            raise RuntimeError('the pristine process died')
        return [pickle.loads(x) if x else ('died', None) for x in pickle.loads(data)]
