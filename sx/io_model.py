"""Model of io.BytesIO over symbolic contents."""
from __future__ import annotations

import io as _real
import types

from . import values as V


class BytesIO(V.Sym):
    def __init__(self, initial_bytes=b''):
        self._buf = V.SymByteArray(V.as_rope(initial_bytes or b''))
        self._pos = 0
        self._closed = False

    @property
    def __class__(self):
        return _real.BytesIO

    def _live(self):
        if self._closed:
            raise ValueError('I/O operation on closed file.')

    closed = property(lambda self: self._closed)

    def readable(self): return True
    def writable(self): return True
    def seekable(self): return True
    def flush(self): self._live()

    def read(self, n=-1):
        self._live()
        if n is not None and V.decide(n > (1 << 63) - 1):
            raise OverflowError('cannot fit \'int\' into an index-sized integer')
        total, pos = self._buf.length(), self._pos
        if V.decide(pos >= total):
            return b''
        if n is None or V.decide(n < 0):
            end = total
        else:
            end = pos + n
            if V.decide(end > total):
                end = total
        self._pos = end
        return V.SymBytes.of(self._buf[pos:end].segs())

    read1 = read

    def readinto(self, b):
        data = self.read(V.sx_len(b))
        n = V.sx_len(data)
        b[:n] = data
        return n

    readinto1 = readinto

    def readline(self, *a):
        self._live()
        rest = V.SymBytes.of(self._buf[self._pos:].segs())
        i = rest.find(b'\n')
        if V.decide(i == -1):
            return self.read()
        return self.read(i + 1)

    def write(self, b):
        self._live()
        segs = V.as_rope(b)
        if segs is None:
            raise TypeError(f"a bytes-like object is required, not '{type(b).__name__}'")
        n, total = V.rope_len(segs), self._buf.length()
        if not V.is_sym(n) and n == 0:
            return 0
        if V.decide(self._pos > total):
            if V.decide(n == 0):
                return 0
            self._buf.extend(V.SymBytes.of([V.Fill(0, self._pos - total)]))
        end = self._pos + n
        self._buf[self._pos:end] = V.SymBytes.of(segs)
        self._pos = end
        return n

    def writelines(self, lines):
        for line in lines:
            self.write(line)

    def tell(self):
        self._live()
        return self._pos

    def seek(self, off, whence=0):
        self._live()
        whence = V.realize(whence)
        if whence == 0:
            if V.decide(off < 0):
                raise ValueError('negative seek value')
            self._pos = off
        elif whence in (1, 2):
            pos = (self._pos if whence == 1 else self._buf.length()) + off
            self._pos = pos if V.decide(pos >= 0) else 0
        else:
            raise ValueError('invalid whence')
        return self._pos

    def truncate(self, size=None):
        size = self._pos if size is None else size
        del_from = self._buf[size:]
        self._buf = V.SymByteArray(self._buf[:size].segs())
        return size

    def getvalue(self):
        self._live()
        return V.SymBytes.of(self._buf.segs())

    def getbuffer(self):
        self._live()
        return V.SymView(self._buf)

    def close(self):
        self._closed = True

    def __enter__(self):
        self._live()
        return self

    def __exit__(self, *a):
        self.close()

    def __iter__(self):
        return self

    def __next__(self):
        line = self.readline()
        if not line:
            raise StopIteration
        return line


module = types.ModuleType('io')
module.__dict__.update({k: v for k, v in vars(_real).items() if not k.startswith('__')})
module.BytesIO = BytesIO
