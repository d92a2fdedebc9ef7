"""C20 unicode, C22 .NET strings, C23 terminated strings."""
import io
import math

from . import shapes as S
from .classes import run
from .common import PACKERS, UNPACKERS
from .general import blank

# How a string field is placed in a class.
PLACES = {'alone': '{}', 'between': 'B,{},H', 'tuple': 'T(b;{}),H', 'array': 'A1({}),H', 'struct': 'B,S(B,{}),H',
          'union': 'B,U(5:{}/d),H', 'condition': 'B,C({}),H', 'last': 'H,{}', 'counted': 'AB({}),H', 'sized': 'ABH({}),H'}
LAST = {'alone', 'last'}  # nothing follows


class Placed:
    """A class with one string field in a place, and everything around it."""

    def __init__(self, ctx, place, field, order='', hint=None, tag=''):
        self.ctx, self.place, self.order = ctx, place, order
        self.shape = S.parse(order + PLACES[place].format(field))
        self.b = S.Builder(ctx.lib)
        if hint is not None:  # the given hint instead of field's
            inner = S.Parser(field).field()
            swap(self.shape, type(inner), hint)
        self.cls = self.b.cls(self.shape)

    def around(self):
        """Arbitrary values of the other fields; call once."""
        ctx, p = self.ctx, self.place
        self.a = {'union': 5, 'alone': None, 'array': None, 'counted': None, 'sized': None}.get(p, 0)
        if self.a == 0:
            self.a = ctx.int('a', 0, 255) if p not in ('tuple', 'last') else ctx.int('a', *((-128, 127) if p == 'tuple' else (0, 65535)))
        if p == 'condition':
            ctx.assume(self.a & 1 == 1)
        self.z = None if p in LAST else ctx.int('z', 0, 65535)
        self.p = ctx.int('p', 0, 255) if p == 'struct' else None

    def two(self, v):
        return v.to_bytes(2, 'big' if self.order in ('>', '!') else 'little')

    def pre(self, size):
        """The bytes before the string field, whose own bytes are `size` many."""
        p, a = self.place, self.a
        if p in ('alone', 'array'):
            return b''
        if p == 'counted':
            return b'\x01'
        if p == 'sized':
            return b'\x01' + (b'\0' if self.order in ('', '@') else b'') + self.two(size)
        if p == 'last':
            return self.two(a)
        out = a.to_bytes(1, 'little', signed=p == 'tuple')
        return out + self.p.to_bytes(1, 'little') if p == 'struct' else out

    def whole(self, field):
        """All bytes of an object whose string field has the given bytes."""
        return self.pre(len(field)) + field + (b'' if self.z is None else self.two(self.z))

    def make(self, v):
        p, a, z = self.place, self.a, self.z
        if p == 'alone':
            return self.cls(v)
        if p in ('array', 'counted', 'sized'):
            return self.cls([v], z)
        if p == 'tuple':
            return self.cls((a, v), z)
        if p == 'struct':
            return self.cls(a, self.b.cls(self.shape.fields[1][1].shape)(self.p, v), z)
        return self.cls(a, v) if p == 'last' else self.cls(a, v, z)

    def dig(self, o):
        p = self.place
        if p in ('array', 'counted', 'sized'):
            return o.f0[0]
        if p == 'tuple':
            return o.f0[1]
        if p == 'struct':
            return o.f1.f1
        return o.f0 if p == 'alone' else o.f1


def swap(shape, kind, hint):
    """Replace the (only) field of a kind by one with the given hint."""
    for i, (n, f) in enumerate(shape.fields):
        new = swapped(f, kind, hint)
        shape.fields[i] = (n, new)


class Hinted(S.Field):
    def __init__(self, make):
        self.make = make

    def hint(self, b):
        return self.make

    def pytype(self):
        return str


def swapped(f, kind, hint):
    if type(f) is kind:
        return Hinted(hint)
    if isinstance(f, S.Tup):
        f.fields = [swapped(x, kind, hint) for x in f.fields]
    elif isinstance(f, S.Arr):
        f.item = swapped(f.item, kind, hint)
    elif isinstance(f, S.Nest):
        swap(f.shape, kind, hint)
    elif isinstance(f, S.Lookback):
        f.members = {k: swapped(x, kind, hint) for k, x in f.members.items()}
    elif isinstance(f, S.Cond):
        f.inner = swapped(f.inner, kind, hint)
    return f


BUFFERS = {'bytes': bytes, 'bytearray': bytearray, 'memoryview': memoryview}


def unpack(cls, how, data, off, kind):
    """(object, bytes consumed)"""
    front = bytes(off)
    if how.endswith('read'):
        s = io.BytesIO(front + data)
        s.seek(off)
        if how == 'unpack_read':
            o = blank(cls)
            o.unpack_read(s)
        else:
            o = cls.create_unpack_read(s)
        return o, s.tell() - off
    if how.endswith('from'):
        buf = BUFFERS[kind](front + data)
        if how == 'unpack_from':
            o = blank(cls)
            o.unpack_from(buf, off)
        else:
            o = cls.create_unpack_from(buf, off)
    else:
        buf = BUFFERS[kind](data)
        if how == 'unpack':
            o = blank(cls)
            o.unpack(buf)
        else:
            o = cls.create_unpack(buf)
    return o, cls.serializer.size


def pack(cls, x, how, n):
    """(bytes, size) packed by a method into room for n bytes."""
    if how == 'pack':
        data = x.pack()
    elif how == 'pack_write':
        s = io.BytesIO(b'zz')
        s.seek(2)
        x.pack_write(s)
        data = s.getvalue()[2:]
    else:
        buf = bytearray(b'\xaa' * 2) + bytearray(n) + bytearray(b'\xaa' * 2)
        x.pack_into(buf, 2)
        if bytes(buf[:2]) != b'\xaa\xaa' or bytes(buf[2 + n:]) != b'\xaa\xaa':
            raise AssertionError('writes outside its place')
        data = bytes(buf[2 : 2 + n])
    return data, cls.serializer.size


def expect_packed(ctx, pl, v, want, what):
    """v packs to want (or not at all if None), by every method."""
    x = pl.make(v)
    how = ctx.choose('pack', PACKERS)
    o = ctx.attempt(pack, pl.cls, x, how, 1 if want is None else len(want))
    if want is None:
        ctx.check(not o.ok and isinstance(o.exc, ValueError), f'{how}: {what}: no ValueError: {o!r}' if o.ok or not isinstance(o.exc, ValueError) else '')
        return
    ctx.check(o.ok, f'{how}: {what}: {o!r}' if not o.ok else '')
    ctx.check(ctx.eq(o.value[0], want), f'{how}: {what}: other bytes')
    ctx.check(o.value[1] == len(want), f'{how}: {what}: size is not the number of bytes packed')


def expect_unpacked(ctx, pl, data, v, size, z, what, hows=UNPACKERS, exc=Exception):
    """data unpacks to v (or not at all if None)."""
    how = ctx.choose('unpack', hows)
    kind = ctx.choose('buffer', tuple(BUFFERS)) if not how.endswith('read') else ''
    off = 0 if how in ('unpack', 'create_unpack') else ctx.choose('offset', (0, 5))
    o = ctx.attempt(unpack, pl.cls, how, data, off, kind)
    if v is None:
        ctx.check(not o.ok and isinstance(o.exc, exc), f'{how}: {what}: does not raise {exc.__name__}: {o!r}' if o.ok or not isinstance(o.exc, exc) else '')
        return
    ctx.check(o.ok, f'{how}: {what}: {o!r}' if not o.ok else '')
    obj, n = o.value
    ctx.check(ctx.same(pl.dig(obj), v), f'{how}: {what}: another string')
    ctx.check(n == size, f'{how}: {what}: consumes other than {size} bytes')
    if z is not None:
        ctx.check(getattr(obj, pl.cls.attrs[-1]) == z, f'{how}: {what}: the next field is not read from behind the string')


# ------------------------------------------------------------ C22 .NET strings
def net_mark(n):
    """The documented mark of length n, None if there is none."""
    if n < 128:
        return bytes([n])
    if n <= 0x7FFF:
        return bytes([128 + n % 128, n // 128])
    return None


def net_write(ctx, place, order, top=70000, uni=False):
    pl = Placed(ctx, place, 'u(N|latin-1)' if uni else 'N', order)
    pl.around()
    v = ctx.blob('v', 0, top)
    n = len(v)
    mark = net_mark(n)
    want = None if mark is None else pl.whole(mark + v)
    expect_packed(ctx, pl, v.decode('latin-1') if uni else v, want, '.NET string')


def net_read(ctx, place, order, top=33000):
    pl = Placed(ctx, place, 'N', order)
    pl.around()
    m = ctx.int('mark', 0, 255)
    rest = ctx.blob('rest', 0, top)
    if m >= 128:
        if not len(rest):
            n = None
        else:
            n, head = m - 128 + rest[0] * 128, 1
    else:
        n, head = m, 0
    after = 0 if place in LAST else 2
    if n is None or len(rest) < head + n + after:
        # too little data
        size = 0
        data = pl.pre(0) + bytes([m]) + rest
        if place == 'sized':
            ctx.assume(False)
        return expect_unpacked(ctx, pl, data, None, 0, None, 'too little data behind the mark')
    data = pl.pre(1 + head + n) + bytes([m]) + rest
    z = None
    if after:
        z = int.from_bytes(rest[head + n : head + n + 2], 'big' if order in ('>', '!') else 'little')
    expect_unpacked(ctx, pl, data, rest[head : head + n], len(pl.pre(1 + head + n)) + 1 + head + n + after, z, '.NET string')


# ------------------------------------------------------------ C23 terminated strings
def hexed(t):
    return f't{t:02x}'


def term_write(ctx, place, order, term, top=70000):
    pl = Placed(ctx, place, hexed(term), order)
    pl.around()
    v = ctx.blob('v', 0, top if place != 'sized' else min(top, 65534))
    t = bytes([term])
    expect_packed(ctx, pl, v, pl.whole(v if v[-1:] == t else v + t), 'terminated string')


def long_string(ctx, term, lens, fill):
    """A string without the terminator: `fill` bytes of a fixed pattern, then arbitrary ones."""
    v = ctx.blob('v', *lens, exclude=(term,))
    if fill:
        v = bytes(y for x in range(fill * 2) if (y := x * 7 % 251 + 1) != term)[:fill] + v
    return v


def term_read(ctx, place, order, term, lens, rest=0, uni=False, fill=0):
    """The first terminator is at a position lens[0]..lens[1], whatever follows."""
    pl = Placed(ctx, place, f'u({hexed(term)}|latin-1)' if uni else hexed(term), order)
    pl.around()
    v = long_string(ctx, term, lens, fill)
    data = pl.whole(v + bytes([term]))
    size = len(data)
    more = ctx.blob('more', 0, rest) if rest else b''
    expect_unpacked(ctx, pl, data + more, v.decode('latin-1').rstrip('\0') if uni else v, size, pl.z, 'terminated string')


def term_none(ctx, place, order, term, lens, fill=0):
    pl = Placed(ctx, place, hexed(term), order)
    pl.around()
    v = long_string(ctx, term, lens, fill)
    expect_unpacked(ctx, pl, pl.pre(len(v)) + v, None, 0, None, 'no terminator', exc=ValueError)


def term_again(ctx, place, order, term, lens):
    """A value that already ends with its terminator does not get another."""
    pl = Placed(ctx, place, hexed(term), order)
    pl.around()
    if place == 'sized':
        lens = [lens[0], min(lens[1], 65534)]
    v = ctx.blob('v', *lens, exclude=(term,)) + bytes([term])
    expect_packed(ctx, pl, v, pl.whole(v), 'string with its terminator')


# ------------------------------------------------------------ C20 unicode
def counts(lib, inner):
    """The argument of char[...] for a shape letter."""
    f = S.Parser(inner).field()
    return {S.FixedChar: lambda: f.n, S.Dyn: lambda: getattr(lib, S.NAMES[f.code]), S.Net: lambda: lib.NET,
            S.Term: lambda: bytes([f.t]), S.Consume: lambda: math.inf}[type(f)]()


class Tape:
    """An arbitrary encoding: gives what it is told, and records its calls."""

    def __init__(self):
        self.calls, self.text, self.data = [], None, None

    def encode(self, strng):
        self.calls.append(('encode', strng))
        return self.data

    def decode(self, byts):
        self.calls.append(('decode', byts))
        return self.text


def codec_of(ctx, lib, how, tape):
    """An EncoderDecoder class or instance around the tape."""
    ns = {'Base': lib.EncoderDecoder, 'T': tape}
    deco = {'class': '    @classmethod\n', 'static': '    @staticmethod\n', 'instance': '', 'unhashable instance': '', 'instance of classmethods': '    @classmethod\n', 'sub': '    @classmethod\n'}[how]
    first = '' if how == 'static' else 'cls, '
    run('class Codec(Base):\n'
        f'{deco}    def encode({first}strng):\n        return T.encode(strng)\n'
        f'{deco}    def decode({first}byts):\n        return T.decode(byts)\n'
        'class Sub(Codec):\n    pass\n' +
        ('Codec.__hash__ = None\n' if how.startswith('un') else ''), ns)
    return {'class': ns['Codec'], 'static': ns['Codec'], 'instance': ns['Codec'](), 'instance of classmethods': ns['Codec'](), 'sub': ns['Sub']}[how] \
        if 'instance' not in how else ns['Codec']()


def tape_pack(ctx, place, order, inner, how, top=300):
    """Packing with an arbitrary encoding: the char field of what it returns."""
    lib, tape = ctx.lib, Tape()
    pl = Placed(ctx, place, inner, order, lib.unicode[counts(lib, inner), codec_of(ctx, lib, how, tape)])
    ch = Placed(ctx, place, inner, order)
    pl.around()
    ch.a, ch.z, ch.p = pl.a, pl.z, pl.p
    text = ctx.text('text', ctx.choose('chars', (0, 1, 3)), nul_end=True)
    tape.data = ctx.blob('encoded', 0, top)
    y = ch.make(tape.data)
    c = ctx.attempt(y.pack)
    size = ch.cls.serializer.size if c.ok else 0
    m = ctx.choose('pack', PACKERS)
    u = ctx.attempt(pack, pl.cls, pl.make(text), m, len(c.value) if c.ok else 400)
    ctx.check(u.ok == c.ok, f'{m}: unicode and char of the encoded text: {u!r} / {c!r}' if u.ok != c.ok else '')
    if c.ok:
        ctx.check(ctx.eq(u.value[0], c.value), f'{m}: packs other than the char field of the encoded text')
        ctx.check(u.value[1] == size, f'{m}: other size than the char field')
    ctx.check(len(tape.calls) == 1 and tape.calls[0][0] == 'encode', f'{m}: {len(tape.calls)} codec calls, not one')
    ctx.check(ctx.same(tape.calls[0][1], text), f'{m}: the encoder does not get the whole text')


def tape_unpack(ctx, place, order, inner, how, n):
    """Unpacking with an arbitrary decoding: of what the char field gives."""
    lib, tape = ctx.lib, Tape()
    pl = Placed(ctx, place, inner, order, lib.unicode[counts(lib, inner), codec_of(ctx, lib, how, tape)])
    ch = Placed(ctx, place, inner, order)
    data = ctx.blob('data', 0, n)
    if place == 'union' and len(data):
        ctx.assume(data[0] == 5)
    if place == 'condition' and len(data):
        ctx.assume(data[0] & 1 == 1)
    if place == 'counted' and len(data):
        ctx.assume(data[0] == 1)
    if place == 'sized' and len(data):
        ctx.assume(data[0] == 1)
    tape.text = ctx.text('text', ctx.choose('chars', (0, 1, 3)), nul_end=True)
    m = ctx.choose('unpack', UNPACKERS)
    kind = ctx.choose('buffer', tuple(BUFFERS)) if not m.endswith('read') else ''
    off = 0 if m in ('unpack', 'create_unpack') else 3
    c = ctx.attempt(unpack, ch.cls, m, data, off, kind)
    u = ctx.attempt(unpack, pl.cls, m, data, off, kind)
    ctx.check(u.ok == c.ok, f'{m}: unicode and char on the same bytes: {u!r} / {c!r}' if u.ok != c.ok else '')
    if not c.ok:
        ctx.check(len(tape.calls) <= 1, f'{m}: decodes more than once')
        return
    ctx.check(len(tape.calls) == 1 and tape.calls[0][0] == 'decode', f'{m}: {len(tape.calls)} codec calls, not one')
    ctx.check(ctx.same(tape.calls[0][1], ch.dig(c.value[0])), f'{m}: the decoder does not get what the char field unpacks')
    ctx.check(ctx.same(pl.dig(u.value[0]), tape.text.rstrip('\0')), f'{m}: not the decoded text without trailing NULs')
    ctx.check(u.value[1] == c.value[1], f'{m}: consumes other than the char field')
    if place not in LAST:
        a = pl.cls.attrs[-1]
        ctx.check(getattr(u.value[0], a) == getattr(c.value[0], a), f'{m}: the next field differs')


def raising(ctx, place, inner, n):
    """Errors of the encoder and decoder come through."""
    lib = ctx.lib

    class Refused(Exception):
        pass

    def refuse(*_):
        raise Refused

    tape = Tape()
    tape.encode = tape.decode = refuse
    pl = Placed(ctx, place, inner, '', lib.unicode[counts(lib, inner), codec_of(ctx, lib, 'instance', tape)])
    pl.around()
    x = pl.make(ctx.text('text', 2))
    m = ctx.choose('pack', PACKERS)
    o = ctx.attempt(pack, pl.cls, x, m, 50)
    ctx.check(not o.ok and isinstance(o.exc, Refused), f'{m}: the error of the encoder is lost: {o!r}')
    v = ctx.blob('v', 0, n, exclude=(0,))
    ch = Placed(ctx, place, inner, '')
    ch.a, ch.z, ch.p = pl.a, pl.z, pl.p
    c = ctx.attempt(ch.make(v).pack)
    if c.ok:
        m = ctx.choose('unpack', UNPACKERS)
        o = ctx.attempt(unpack, pl.cls, m, c.value, 0, 'bytes')
        ctx.check(not o.ok and isinstance(o.exc, Refused), f'{m}: the error of the decoder is lost: {o!r}')


def named(lib, inner, codec):
    """unicode[...] for a codec name; '' is the default."""
    if codec == 'null':
        return lib.null_unicode
    return lib.unicode[counts(lib, inner), codec] if codec else lib.unicode[counts(lib, inner)]


def codec_pack(ctx, place, order, inner, codec, chars):
    lib = ctx.lib
    pl = Placed(ctx, place, inner, order, named(lib, inner, codec))
    ch = Placed(ctx, place, inner, order)
    pl.around()
    ch.a, ch.z, ch.p = pl.a, pl.z, pl.p
    text = ctx.text('text', ctx.choose('chars', range(chars + 1)), nul_end=True)
    try:
        data = text.encode(codec if codec not in ('', 'null') else 'utf-8')
    except UnicodeError:
        data = None
    m = ctx.choose('pack', PACKERS)
    if data is None:
        u = ctx.attempt(pack, pl.cls, pl.make(text), m, 60)
        ctx.check(not u.ok and isinstance(u.exc, ValueError), f'{m}: packs what cannot be encoded: {u!r}')
        return
    c = ctx.attempt(ch.make(data).pack)
    u = ctx.attempt(pack, pl.cls, pl.make(text), m, len(c.value) if c.ok else 60)
    ctx.check(u.ok == c.ok, f'{m}: unicode and char of the encoded text: {u!r} / {c!r}' if u.ok != c.ok else '')
    if c.ok:
        ctx.check(ctx.eq(u.value[0], c.value), f'{m}: packs other than the char field of the encoded text')
        ctx.check(u.value[1] == len(c.value), f'{m}: size is not the number of bytes packed')


def codec_unpack(ctx, place, order, inner, codec, n):
    lib = ctx.lib
    pl = Placed(ctx, place, inner, order, named(lib, inner, codec))
    ch = Placed(ctx, place, inner, order)
    data = ctx.blob('data', 0, n)
    for k, want in (('union', 5), ('condition', 1), ('counted', 1), ('sized', 1)):
        if place == k and len(data):
            ctx.assume(data[0] == want)
    m = ctx.choose('unpack', UNPACKERS)
    c = ctx.attempt(unpack, ch.cls, m, data, 0, 'bytes')
    u = ctx.attempt(unpack, pl.cls, m, data, 0, 'bytes')
    if not c.ok:
        # (undecodable bytes before the fault may be reported instead)
        ctx.check(not u.ok, f'{m}: unpacks bytes the char field refuses')
        return
    try:
        want = ch.dig(c.value[0]).decode(codec if codec not in ('', 'null') else 'utf-8')
    except UnicodeError:
        ctx.check(not u.ok and isinstance(u.exc, ValueError), f'{m}: unpacks what cannot be decoded: {u!r}')
        return
    ctx.check(u.ok, f'{m}: {u!r}' if not u.ok else '')
    ctx.check(ctx.same(pl.dig(u.value[0]), want.rstrip('\0')), f'{m}: not the decoded text without trailing NULs')
    ctx.check(u.value[1] == c.value[1], f'{m}: consumes other than the char field')
    if place not in LAST:
        a = pl.cls.attrs[-1]
        ctx.check(getattr(u.value[0], a) == getattr(c.value[0], a), f'{m}: the next field differs')
