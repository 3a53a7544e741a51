"""Scripted input streams and recording output devices."""
import io


class Short(object):
    """A stream whose i-th read returns at most script[i] bytes (last entry
    repeats).  mode: 'tell' (position known), 'notell' (no tell), 'oserror'
    (tell raises), 'othererror' (tell raises another error)."""

    def __init__(self, data, script=(1 << 30,), mode='notell', log=None):
        self._d = data
        self._p = 0
        self._s = tuple(script)
        self._i = 0
        self.mode = mode
        self.log = log
        if mode == 'tell':
            self.tell = self._tell

        elif mode == 'oserror':
            def tell():
                raise OSError('Illegal seek')
            self.tell = tell

        elif mode == 'othererror':
            # file-like objects of other libraries
            def tell():
                raise NotImplementedError('tell')
            self.tell = tell

    def _tell(self):
        return self._p

    def read(self, n=-1):
        cap = self._s[min(self._i, len(self._s) - 1)]
        self._i += 1
        if n is None or n < 0:
            n = 1 << 30
        n = min(n, cap)
        out = self._d[self._p:self._p + n]
        self._p += len(out)
        if self.log is not None:
            self.log.append(len(out))
        return out

    def close(self):
        pass


class ShortLines(object):
    """a stream with read and readline, as of an unbuffered socket file: no read
    returns more than cap bytes, lines come whole"""

    def __init__(self, f, cap):
        self.f = f
        self.cap = cap

    def read(self, n=-1):
        return self.f.read(self.cap if n is None or n < 0 else min(n, self.cap))

    def readline(self, n=-1):
        return self.f.readline(-1 if n is None else n)

    def close(self):
        pass


class ShortSeekable(io.RawIOBase):
    """seekable file whose reads are short; for payload streams"""

    def __init__(self, data, cap):
        self._b = io.BytesIO(data)
        self.cap = cap

    def readable(self):
        return True

    def seekable(self):
        return True

    def tell(self):
        return self._b.tell()

    def seek(self, p, w=0):
        return self._b.seek(p, w)

    def read(self, n=-1):
        if n is None or n < 0:
            n = 1 << 30
        return self._b.read(min(n, self.cap))

    def readline(self, n=-1):
        return self._b.readline(n)


class Unseekable(object):
    """payload stream without tell and seek"""

    def __init__(self, data, cap=1 << 30):
        self._b = io.BytesIO(data)
        self.cap = cap

    def read(self, n=-1):
        if n is None or n < 0:
            n = 1 << 30
        return self._b.read(min(n, self.cap))

    def readline(self, n=-1):
        return self._b.readline(n)


class TellNoSeek(Unseekable):
    def tell(self):
        return self._b.tell()

    def seek(self, *a):
        raise OSError('not seekable')


class Device(object):
    """output that logs every write and flush; only what was flushed is durable"""

    def __init__(self):
        self.data = bytearray()
        self.events = []

    def write(self, b):
        self.data += b
        self.events.append(('w', len(b)))
        return len(b)

    def flush(self):
        self.events.append(('f', len(self.data)))

    def tell(self):
        return len(self.data)

    def close(self):
        self.events.append(('c', len(self.data)))

    @property
    def flushed(self):
        f = [n for k, n in self.events if k == 'f']
        return f[-1] if f else 0
