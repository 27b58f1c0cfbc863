"""A simulated disk: append-only files behind a volatile cache, with failing, short and lost writes, and crashes."""
from dst import userland as U
from dst.userland import TL


class SimCrash(BaseException):
    """the process is dead: nothing after this point happens any more"""


class SimDisk:
    """``crash_at``: the number of the disk call at which the process dies (or None)"""

    def __init__(self, crash_at=None):
        self.calls = 0
        self.crash_at = crash_at
        self.dead = False
        self.files = {}  # name -> [cache bytes, length that is durable, frozen]

    def tick(self):
        ctx = getattr(TL, 'ctx', None)
        if ctx is not None:
            ctx.point(('io',))
        if self.dead:
            raise SimCrash
        self.calls += 1
        if self.calls == self.crash_at:
            self.dead = True
            raise SimCrash

    def append(self, name, data):
        self.files.setdefault(name, [b'', 0])[0] += data

    def size(self, name):
        return len(self.files.get(name, [b''])[0])

    def fsync(self, name):
        self.tick()
        f = self.files.setdefault(name, [b'', 0])
        f[1] = len(f[0])

    def after_crash(self, name, keep):
        """what a later process finds: everything synced, and a part of the rest"""
        data, durable = self.files.get(name, [b'', 0])
        return data[:durable + int((len(data) - durable) * keep + 0.5)]


class SimFile:
    """a file opened for appending.  ``faults``: [[call number, 'raise', exception] | [call number, 'short', fraction]]"""

    def __init__(self, disk, name, faults=(), text=False, sized=None):
        self.disk = disk
        self.sized = sized
        self.name = name
        self.faults = faults
        self.text = text
        self.calls = 0
        self.full = False
        self.fired = []
        self.raised = []

    def __bool__(self):
        """``sized``: None: always true; 'len': false while nothing was written to it; 'never': always false"""
        return self.sized is None or (self.sized == 'len' and self.disk.size(self.name) > 0)

    def _raise(self, name):
        e = U.make_exc(name)
        ctx = getattr(TL, 'ctx', None)
        if ctx is not None and name in U.BASE:
            ctx.interrupt_exc = e
        self.raised.append(e)
        self.fired.append('raise')
        raise e

    def write(self, data):
        self.disk.tick()
        self.calls += 1
        n = len(data)
        raw = data.encode('utf-8') if self.text else bytes(data)
        if self.full:
            e = OSError(28, 'No space left on device')
            self.raised.append(e)
            self.fired.append('full')
            raise e
        for f in self.faults:
            if f[0] == self.calls:
                if f[1] == 'raise':
                    self.disk.append(self.name, raw[:int(len(raw) * f[3])] if len(f) > 3 else b'')
                    self._raise(f[2])
                if f[1] == 'short':
                    k = int(len(raw) * f[2])
                    self.disk.append(self.name, raw[:k])
                    self.full = True
                    self.fired.append('short')
                    return k
        self.disk.append(self.name, raw)
        return n

    def flush(self):
        pass


class SimReader:
    """a file opened for reading; can fail at the n-th call, and can return less than asked for"""

    def __init__(self, data, fail=None, chunk=None, text=False):
        self.data = data
        self.pos = 0
        self.fail = fail
        self.chunk = chunk
        self.text = text
        self.calls = 0
        self.raised = []

    def _tick(self):
        ctx = getattr(TL, 'ctx', None)
        if ctx is not None:
            ctx.point(('io',))
        self.calls += 1
        if self.fail and self.calls == self.fail[0]:
            e = U.make_exc(self.fail[1])
            if ctx is not None and self.fail[1] in U.BASE:
                ctx.interrupt_exc = e
            self.raised.append(e)
            raise e

    def read(self, n=-1):
        self._tick()
        if n is None or n < 0:
            n = len(self.data) - self.pos
        out = self.data[self.pos:self.pos + n]
        self.pos += len(out)
        return out.decode('utf-8') if self.text else out

    def readline(self):
        self._tick()
        i = self.data.find(b'\n', self.pos)
        end = len(self.data) if i < 0 else i + 1
        out = self.data[self.pos:end]
        self.pos = end
        return out
