"""Helpers shared by the property modules: forked sub-runs, violations, stats."""
import json
import os
import select
import signal
import struct
import sys
import traceback

from dst import sched
from dst.sched import REAL_MONOTONIC
from dst.userland import Invalid


class Viol(Exception):
    """the property is violated"""

    def __init__(self, kind, msg, **detail):
        super().__init__(f'{kind}: {msg}')
        self.kind = kind
        self.msg = msg
        self.detail = detail


class HarnessError(Exception):
    pass


def _send(fd, obj):
    data = json.dumps(obj).encode()
    data = struct.pack('>I', len(data)) + data
    while data:
        n = os.write(fd, data)
        data = data[n:]


def _read_exact(fd, n, deadline):
    buf = b''
    while len(buf) < n:
        left = deadline - REAL_MONOTONIC()
        if left <= 0:
            return None
        r, _, _ = select.select([fd], [], [], left)
        if not r:
            return None
        b = os.read(fd, n - len(buf))
        if not b:
            raise EOFError
        buf += b
    return buf


def forked(fn, timeout=90.0, keep_fds=()):
    """run fn() in a forked copy of this process; returns its JSON-able result.

    A dead child or one that does not answer is an error of the harness, never a pass."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                out = {'r': fn()}
            except Viol as v:
                out = {'v': {'kind': v.kind, 'msg': v.msg, 'detail': v.detail}}
            except Invalid as e:
                out = {'i': str(e)}
            except BaseException as e:
                out = {'h': ''.join(traceback.format_exception(e))[-4000:]}
            try:
                _send(w, out)
            except BaseException as e:
                _send(w, {'h': 'cannot send: ' + repr(e)})
        finally:
            os._exit(0)
    os.close(w)
    deadline = REAL_MONOTONIC() + timeout
    try:
        head = _read_exact(r, 4, deadline)
        body = None if head is None else _read_exact(r, struct.unpack('>I', head)[0], deadline)
    except EOFError:
        _, st = os.waitpid(pid, 0)
        raise HarnessError(f'simulated process died, status {st}')
    finally:
        os.close(r)
    if body is None:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        raise HarnessError(f'simulated process did not answer within {timeout} s')
    os.waitpid(pid, 0)
    out = json.loads(body)
    if 'v' in out:
        raise Viol(out['v']['kind'], out['v']['msg'], **out['v']['detail'])
    if 'i' in out:
        raise Invalid(out['i'])
    if 'h' in out:
        raise HarnessError(out['h'])
    return out['r']


def fork_many(fns, timeout=90.0):
    """like [forked(f) for f in fns]"""
    return [forked(f, timeout) for f in fns]


class Stats(dict):
    def inc(self, k, n=1):
        self[k] = self.get(k, 0) + n


def short(x, n=400):
    s = x if isinstance(x, str) else json.dumps(x)
    return s if len(s) <= n else s[:n] + '...'


def diff_outcome(a, b):
    """a short classification of how outcome ``b`` differs from the expected ``a``"""
    if ('ok' in a) != ('ok' in b):
        return 'raised' if 'ok' in a else 'returned'
    if 'ok' in a:
        return 'value' if a['ok'] != b['ok'] else 'identity'
    return 'error-type' if a['err']['t'] != b['err']['t'] else 'error'


def norm(x):
    """through JSON, so that tuples and lists compare equal"""
    return json.loads(json.dumps(x))
