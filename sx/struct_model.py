"""Model of the struct module for symbolic values (CPython 3.12, x86-64 Linux).

With concrete arguments the real struct module is called; the model only runs
when a value, a buffer, an offset or a repeat count is symbolic.  Validated
against the real module by `selftest.py`.
"""
from __future__ import annotations

import re
import struct as _real
import types

import z3

from . import values as V

error = _real.error
INTS = {'b': (1, True), 'B': (1, False), 'h': (2, True), 'H': (2, False), 'i': (4, True), 'I': (4, False),
        'l': (4, True), 'L': (4, False), 'q': (8, True), 'Q': (8, False), 'n': (8, True), 'N': (8, False),
        'P': (8, False)}
NATIVE = {**INTS, 'l': (8, True), 'L': (8, False)}
FLOATS = {'e': 2, 'f': 4, 'd': 8}
_item = re.compile(r'\s*(\d*)([a-zA-Z?])\s*')


class Layout:
    """items: (code, offset, count, size of one); total size; value count."""

    def __init__(self, fmt):
        order, body = '@', fmt
        if fmt and fmt[0] in '@=<>!':
            order, body = fmt[0], fmt[1:]
        self.native = order == '@'
        self.order = 'big' if order in '>!' else 'little'
        table = NATIVE if self.native else INTS
        self.items, off, nvals, pos = [], 0, 0, 0
        while pos < len(body):
            m = _item.match(body, pos)
            if not m:
                raise error('bad char in struct format')
            pos = m.end()
            code = m.group(2)
            count = V.decode_number(int(m.group(1))) if m.group(1) else 1
            if count is None:
                raise error('bad repeat count in struct format')
            if code in table and not (code in 'nNP' and not self.native):
                size = table[code][0]
            elif code in FLOATS:
                size = FLOATS[code]
            elif code in 'cspx?':
                size = 1
            else:
                raise error('bad char in struct format')
            if self.native and size > 1:
                off = (off + size - 1) // size * size
            if V.is_sym(count) and not V.decide(count >= 0):
                raise error('bad char in struct format')
            self.items.append((code, off, count, size))
            if code in 'sp':
                nvals = nvals + 1
            elif code != 'x':
                nvals = nvals + count
            off = off + count * size
        self.size, self.nvals = off, nvals
        self.table = table


def symbolic_format(fmt):
    return any(len(d) > 11 for d in re.findall(r'\d+', fmt))


def as_index(v):
    if V.is_sym(v):
        if type(v) in (V.SymInt, V.SymBool):
            return v
        raise error('required argument is not an integer')
    if isinstance(v, int):
        return int(v)
    t = type(v)
    if hasattr(t, '__index__'):
        return t.__index__(v)
    raise error('required argument is not an integer')


def pack_int(v, size, signed, order):
    v = as_index(v)
    lo, hi = (-(1 << (8 * size - 1)), (1 << (8 * size - 1)) - 1) if signed else (0, (1 << (8 * size)) - 1)
    if not (V.decide(v >= lo) and V.decide(v <= hi)):
        raise error('argument out of range')
    return V.int_bytes(v, size, order)


def pack_float(v, code, order, native=False):
    t = type(v)
    if t in (V.SymInt, V.SymBool):
        v = V.realize(v, 'integer packed as a float')
    if t is V.SymFloat:
        if v.code == code:
            bits = v.bits
        elif code == 'd':
            bits = z3.fpToIEEEBV(v.fp())
        else:
            r = z3.fpFPToFP(z3.RNE(), v.fp(), V.FP[code])
            over = z3.And(z3.fpIsInf(r), z3.Not(z3.fpIsInf(v.fp())))
            # packing to a native 'f' converts without an overflow check
            if not (native and code == 'f') and V.path().fork(over):
                raise OverflowError('float too large to pack')
            bits = z3.fpToIEEEBV(r)
        n = FLOATS[code]
        e = z3.simplify(bits)
        out = [V.norm_item(z3.simplify(z3.Extract(8 * i + 7, 8 * i, e))) for i in range(n)]
        return out if order == 'little' else out[::-1]
    if not V.is_sym(v) and not isinstance(v, (int, float)) and hasattr(type(v), '__float__'):
        f = type(v).__float__(v)
        if V.is_sym(f):
            return pack_float(f, code, order, native)
    if V.is_sym(v):
        raise error('required argument is not a float')
    return list(_real.pack(('@' if native else '<' if order == 'little' else '>') + code, v))


def pack_one(code, count, v, lay):
    """Rope segments for one value."""
    if code in lay.table:
        size, signed = lay.table[code]
        return [V.Lit(pack_int(v, size, signed, lay.order))]
    if code in FLOATS:
        return [V.Lit(pack_float(v, code, lay.order, lay.native))]
    if code == '?':
        if type(v) is V.SymBool:
            return [V.Lit([V.int_item(v)])]
        if type(v) is V.SymInt:
            return [V.Lit([V.int_item(V.mk_bool(v.e != 0))])]
        if not V.is_sym(v) and not isinstance(v, (int, float, str, bytes)) and hasattr(type(v), '__bool__'):
            v = type(v).__bool__(v)
            if V.is_sym(v):
                return pack_one(code, count, v, lay)
        return [V.Lit([1 if v else 0])]
    buf = None if isinstance(v, memoryview) else V.as_rope(v)
    if code == 'c':
        if buf is None or isinstance(v, bytearray) or not V.decide(V.rope_len(buf) == 1):
            raise error('char format requires a bytes object of length 1')
        return buf
    if buf is None:
        raise error(f"argument for '{code}' must be a bytes object")
    n = V.rope_len(buf)
    if code == 's':
        if V.decide(n >= count):
            return V.rope_split(buf, count)[0]
        return buf + [V.Fill(0, count - n)]
    # pascal
    if V.decide(count == 0):
        return []
    keep = count - 1
    if V.decide(n < keep):
        keep = n
    data = V.rope_split(buf, keep)[0]
    mark = 255 if V.decide(keep > 255) else keep
    return [V.Lit([V.int_item(mark)])] + data + [V.Fill(0, count - 1 - keep)]


def pack_segs(lay, values, segs=None):
    if type(values) is not tuple:
        values = tuple(values)
    if not V.decide(lay.nvals == len(values)):
        raise error(f'pack expected a different number of items for packing (got {len(values)})')
    segs, pos, it = [] if segs is None else segs, 0, iter(values)
    for code, off, count, size in lay.items:
        if not V.same_int(off, pos):
            segs.append(V.Fill(0, off - pos))
        if code == 'x':
            segs.append(V.Fill(0, count))
        elif code in 'sp':
            segs += pack_one(code, count, next(it), lay)
        else:
            n = count if not V.is_sym(count) else count.__index__()
            for _ in range(n):
                segs += pack_one(code, 1, next(it), lay)
        pos = off + count * size
    return V.rope_norm(segs)


def unpack_one(code, count, segs, lay):
    if code == 's':
        return V.SymBytes.of(segs)
    if code == 'p':
        if V.decide(count == 0):
            return b''
        n = V.item_int(V.rope_byte(segs, 0))
        if V.decide(n >= count):
            n = count - 1
        return V.SymBytes.of(V.rope_split(V.rope_split(segs, 1)[1], n)[0])
    items = [V.rope_byte(segs, i) for i in range(lay.table[code][0] if code in lay.table else FLOATS.get(code, 1))]
    if code == 'c':
        return V.SymBytes.of([V.Lit(items)])
    if code == '?':
        x = items[0]
        return x != 0 if isinstance(x, int) else V.mk_bool(x != 0)
    if code in FLOATS:
        if lay.order == 'little':
            items = items[::-1]
        if all(isinstance(x, int) for x in items):
            return _real.unpack('>' + code, bytes(items))[0]
        return V.SymFloat(code, z3.simplify(z3.Concat(*[V.item_bv(x) for x in items])))
    return V.bytes_int(items, lay.order, lay.table[code][1])


def unpack_segs(lay, segs):
    out = []
    for code, off, count, size in lay.items:
        if code == 'x':
            continue
        rest = V.rope_split(segs, off)[1]
        if code in 'sp':
            out.append(unpack_one(code, count, V.rope_split(rest, count)[0], lay))
        elif V.is_sym(count):
            if len([i for i in lay.items if i[0] != 'x']) == 1:
                return V.SymSeq(count, lambda i: unpack_one(code, 1, V.rope_split(rest, i * size)[1], lay))
            for i in range(count.__index__()):
                out.append(unpack_one(code, 1, V.rope_split(rest, i * size)[1], lay))
        else:
            for i in range(count):
                out.append(unpack_one(code, 1, V.rope_split(rest, i * size)[1], lay))
    return tuple(out)


def _buffer(b):
    segs = V.as_rope(b)
    if segs is None:
        mv = memoryview(b)  # raises TypeError as the real module would
        segs = [V.Lit(bytes(mv))]
    return segs


def _off(x):
    if V.is_sym(x):
        if type(x) not in (V.SymInt, V.SymBool):
            raise TypeError('offset must be an integer')
        return x
    if not isinstance(x, int) and not hasattr(type(x), '__index__'):
        raise TypeError(f"'{type(x).__name__}' object cannot be interpreted as an integer")
    return x if isinstance(x, int) else type(x).__index__(x)


class Struct(_real.Struct):
    def __new__(cls, *args, **kwargs):
        return _real.Struct.__new__(cls, '')

    def __init__(self, format):
        if isinstance(format, bytes):
            format = format.decode('ascii')
        if not isinstance(format, str):
            raise TypeError(f'Struct() argument 1 must be a str or bytes object, not {type(format).__name__}')
        fmt = V.realize(format)
        if symbolic_format(fmt):
            _real.Struct.__init__(self, '')
            self.__dict__['_sx'] = (fmt, None, Layout(fmt))
        else:
            real = _real.Struct(fmt)
            _real.Struct.__init__(self, fmt)
            self.__dict__['_sx'] = (fmt, real, None)

    def _lay(self):
        fmt, real, lay = self.__dict__['_sx']
        if lay is None:
            lay = Layout(fmt)
            if lay.size != real.size:
                raise AssertionError(f'struct model disagrees on {fmt!r}')
            self.__dict__['_sx'] = (fmt, real, lay)
        return lay

    @property
    def format(self):
        return self.__dict__['_sx'][0]

    @property
    def size(self):
        fmt, real, lay = self.__dict__['_sx']
        return real.size if real is not None else lay.size

    def pack(self, *values):
        real = self.__dict__['_sx'][1]
        if real is not None and not any(map(_touched, values)):
            return real.pack(*values)
        return V.SymBytes.of(pack_segs(self._lay(), values))

    def pack_into(self, buffer, offset, *values):
        real = self.__dict__['_sx'][1]
        if not V.is_sym(buffer):
            if real is not None and not V.is_sym(offset) and not any(map(_touched, values)):
                return real.pack_into(buffer, offset, *values)
            data = V.realize(V.SymBytes.of(pack_segs(self._lay(), values)))
            return _real.Struct(f'{len(data)}s').pack_into(buffer, V.realize(offset), data)
        offset = _off(offset)
        lay = self._lay()
        if type(buffer) is V.SymBytes or (type(buffer) is V.SymView and buffer.readonly) or type(buffer) is V.SymText:
            raise TypeError('argument must be read-write bytes-like object')
        if not V.decide(lay.nvals == len(values)):
            raise error('pack_into expected a different number of items')
        n, size = buffer.length(), lay.size
        if V.decide(offset < 0):
            if V.decide(offset + size > 0):
                raise error('no space to pack at negative offset')
            if V.decide(offset + n < 0):
                raise error('offset out of range')
            offset = offset + n
        if not V.decide(n - offset >= size):
            raise error('pack_into requires a larger buffer')
        done = []
        try:
            segs = pack_segs(lay, values, done)
        except Exception:
            # the target is zeroed first, then written value by value
            buffer.write(offset, done + [V.Fill(0, size - V.rope_len(done))])
            raise
        buffer.write(offset, segs)

    def unpack(self, buffer):
        real = self.__dict__['_sx'][1]
        if real is not None and not V.is_sym(buffer):
            return real.unpack(buffer)
        segs = _buffer(buffer)
        lay = self._lay()
        if not V.decide(V.rope_len(segs) == lay.size):
            raise error('unpack requires a buffer of a different size')
        return unpack_segs(lay, segs)

    def unpack_from(self, buffer, offset=0):
        real = self.__dict__['_sx'][1]
        if real is not None and not V.is_sym(buffer) and not V.is_sym(offset):
            return real.unpack_from(buffer, offset)
        segs = _buffer(buffer)
        offset = _off(offset)
        lay = self._lay()
        n, size = V.rope_len(segs), lay.size
        if V.decide(offset < 0):
            if V.decide(offset + size > 0):
                raise error('not enough data to unpack')
            if V.decide(offset + n < 0):
                raise error('offset out of range')
            offset = offset + n
        if not V.decide(n - offset >= size):
            raise error('unpack_from requires a larger buffer')
        return unpack_segs(lay, V.rope_split(segs, offset)[1])

    def iter_unpack(self, buffer):
        n = V.realize(V.sx_len(buffer), 'iter_unpack length')
        size = V.realize(self.size)
        if size == 0:
            raise error('cannot iteratively unpack with a struct of length 0')
        if n % size:
            raise error('iterative unpacking requires a multiple')
        return iter([self.unpack_from(buffer, i) for i in range(0, n, size)])

    def __repr__(self):
        return f'Struct({self.format!r})'


def _touched(v):
    """Not packable by the real module: symbolic, or converts to symbolic."""
    if V.is_sym(v):
        return True
    return not isinstance(v, (int, float, bytes, bytearray, str, type(None)))


def pack(fmt, *v):
    return Struct(fmt).pack(*v)


def pack_into(fmt, buffer, offset, *v):
    return Struct(fmt).pack_into(buffer, offset, *v)


def unpack(fmt, buffer):
    return Struct(fmt).unpack(buffer)


def unpack_from(fmt, buffer, offset=0):
    return Struct(fmt).unpack_from(buffer, offset)


def iter_unpack(fmt, buffer):
    return Struct(fmt).iter_unpack(buffer)


def calcsize(fmt):
    return Struct(fmt).size


module = types.ModuleType('struct')
for _n in ('Struct', 'pack', 'pack_into', 'unpack', 'unpack_from', 'iter_unpack', 'calcsize', 'error'):
    setattr(module, _n, globals()[_n])
