"""Restarted processes: long-lived interpreters with another string-hash seed that execute one request per fork.

A request {'id', 'mod', 'arg'} is answered by the module's ``serve(arg)``, run in a fresh fork of the server.
"""
import importlib
import json
import os
import struct
import subprocess
import sys

from dst import env


def _read_exact(fd, n):
    buf = b''
    while len(buf) < n:
        b = os.read(fd, n - len(buf))
        if not b:
            raise EOFError
        buf += b
    return buf


def _recv(fd):
    return json.loads(_read_exact(fd, struct.unpack('>I', _read_exact(fd, 4))[0]))


def _send(fd, obj):
    data = json.dumps(obj).encode()
    data = struct.pack('>I', len(data)) + data
    while data:
        n = os.write(fd, data)
        data = data[n:]


def main(argv):
    rfd, wfd = os.dup(0), os.dup(1)
    os.dup2(2, 1)
    env.boot()
    from dst.common import forked, Viol, HarnessError
    from dst.userland import Invalid
    mods = {}
    while True:
        try:
            req = _recv(rfd)
        except EOFError:
            return
        m = req['mod']
        if m not in mods:
            mods[m] = importlib.import_module('dst.props.' + m.lower())
        try:
            out = {'ok': forked(lambda: mods[m].serve(req['arg']), 60)}
        except Viol as v:
            out = {'viol': {'kind': v.kind, 'msg': v.msg, 'detail': v.detail}}
        except Invalid as e:
            out = {'invalid': str(e)}
        except HarnessError as e:
            out = {'harness': str(e)}
        _send(wfd, {'id': req['id'], **out})


class Server:
    """client side; usable from forks of the process that made it, one at a time"""

    def __init__(self, hashseed):
        self.hashseed = hashseed
        self.p = subprocess.Popen([env.python(), '-B', '-s', os.path.join(env.VERIF, 'check.py'), '--server'],
                                  env=env.child_env(hashseed), cwd=env.VERIF, preexec_fn=env.no_aslr,
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, bufsize=0)

    def call(self, mod, arg):
        from dst.common import Viol, HarnessError
        from dst.userland import Invalid
        rid = os.urandom(6).hex()
        try:
            _send(self.p.stdin.fileno(), {'id': rid, 'mod': mod, 'arg': arg})
            while True:
                out = _recv(self.p.stdout.fileno())
                if out['id'] == rid:
                    break
        except (EOFError, OSError) as e:
            raise HarnessError(f'restarted process is gone: {e!r}')
        if 'viol' in out:
            raise Viol(out['viol']['kind'], out['viol']['msg'], **out['viol']['detail'])
        if 'invalid' in out:
            raise Invalid(out['invalid'])
        if 'harness' in out:
            raise HarnessError(out['harness'])
        return out['ok']


SERVERS = []


def start(n=1):
    """start servers whose hash seeds differ from this process'"""
    mine = os.environ.get('PYTHONHASHSEED', '0')
    k = env.HASH_SEEDS.index(mine) if mine in env.HASH_SEEDS else 0
    for j in range(n):
        SERVERS.append(Server(env.OTHER_SEEDS[(k + j) % len(env.OTHER_SEEDS)]))
