"""C18: operations do not depend on what was done before."""
import io

from . import shapes as S
from .common import PACKERS, UNPACKERS, alike, do_pack, do_unpack, values_of
from .general import blank


class Other:
    """The same classes in a freshly imported package."""

    def __init__(self, ctx, b, sh):
        self.a, self.b = b, S.Builder(ctx.fresh_lib())
        self.cls = self.b.cls(sh)

    def remake(self, v):
        """The object of the fresh package that corresponds to v."""
        if isinstance(v, list):
            return [self.remake(x) for x in v]
        if isinstance(v, tuple):
            return tuple(self.remake(x) for x in v)
        for key, (cls, shape) in self.a.made.items():
            if type(v) is cls:
                fresh = self.b.made[key][0]
                return fresh(*[self.remake(getattr(v, n)) for n in cls.attrs])
        return v


FAULT = (OSError, 'stream')


class Broken:
    """A stream whose k-th call to read, write or seek raises."""

    def __init__(self, data, k):
        self.s, self.k = io.BytesIO(data), k

    def _tick(self):
        self.k -= 1
        if self.k < 0:
            raise OSError('broken stream')

    def read(self, n=-1):
        self._tick()
        return self.s.read(n)

    def write(self, b):
        self._tick()
        return self.s.write(b)

    def seek(self, *a):
        self._tick()
        return self.s.seek(*a)

    def tell(self):
        return self.s.tell()


def related(b, sh, kind, other):
    """Another class that uses the same hints."""
    if kind == 'derived':
        ns = {'Base': b.cls(sh), 'lib': b.lib, 'BO': b.order(other)}
        exec('class Derived(Base, byte_order=BO, byte_order_mode=lib.ByteOrderMode.OVERRIDE):\n    extra: lib.uint8', ns)
        return ns['Derived']
    if kind == 'container':
        inner = b.cls(sh)
        ns = {'lib': b.lib, 'T': tuple.__class_getitem__((inner, b.lib.uint8)), 'A': b.lib.array[b.lib.Header[b.lib.uint8], inner], 'BO': b.order(other)}
        exec('class Box(lib.Structured, byte_order=BO):\n    t: T\n    a: A', ns)
        return ns['Box']
    if kind == 'same hints':
        return b.cls(sh, order=other)
    if kind == 'double':
        twice = S.Shape(other, [(f'{n}_{i}', f) for i in (0, 1) for n, f in sh.fields])
        return b.cls(twice)
    raise ValueError(kind)


def first(ctx, b, sh, cls, kind, n, other):
    """The earlier operation; its outcome does not matter."""
    opts = ctx.opts
    if kind.startswith('unpack '):
        how = kind[7:]
        o = ctx.attempt(do_unpack, cls, how, ctx.blob('data1', max(n - 4, 0), n))
    elif kind in PACKERS:
        ctx.opts = {**opts, 'wild': True}
        x = S.make_value(ctx, b, sh, 'one.')
        ctx.opts = opts
        keep = [frozen(v) for v in values_of(x, cls.attrs)]
        o = ctx.attempt(do_pack, x, kind)
        ctx.check(ctx.same([frozen(v) for v in values_of(x, cls.attrs)], keep), 'packing changed the object')
    elif kind == 'small buffer':
        x = S.make_value(ctx, b, sh, 'one.')
        buf = bytearray(ctx.blob('buffer', 0, 12))
        o = ctx.attempt(x.pack_into, buf, ctx.int('offset', 0, 5))
    elif kind == 'broken read':
        o = ctx.attempt(cls.create_unpack_read, Broken(ctx.blob('data1', n, n), ctx.choose('fault', range(5))))
    elif kind == 'broken write':
        x = S.make_value(ctx, b, sh, 'one.')
        o = ctx.attempt(x.pack_write, Broken(b'', ctx.choose('fault', range(4))))
    elif kind == 'order':
        x = S.make_value(ctx, b, sh, 'one.')
        y = x.with_byte_order(b.order(other))
        o = ctx.attempt(y.pack)
        ctx.attempt(y.unpack, ctx.blob('data1', max(n - 4, 0), n))
    else:
        rel = related(b, sh, kind, other)
        data = ctx.blob('data1', max(n - 3, 0), n + 2)
        o = ctx.attempt(rel.create_unpack, data)
        if o.ok:
            ctx.attempt(o.value.pack)
    ctx.note(o.ok)


def frozen(v):
    """A copy in which nothing is shared with v."""
    if isinstance(v, list):
        return ['list'] + [frozen(x) for x in v]
    if isinstance(v, tuple):
        return ['tuple'] + [frozen(x) for x in v]
    attrs = getattr(type(v), 'attrs', None)
    if isinstance(attrs, tuple) and hasattr(type(v), 'serializer'):
        return ['object'] + [frozen(getattr(v, n)) for n in attrs]
    return v


def compare(ctx, o, p, what):
    ctx.check(o.ok == p.ok, f'{what}: {o!r}, but on a fresh interpreter {p!r}' if o.ok != p.ok else '')
    if not o.ok:
        ctx.check(type(o.exc).__name__ == type(p.exc).__name__, f'{what}: {o!r}, but on a fresh interpreter {p!r}')
    return o.ok


def after(ctx, shape, kind, n1, n2, how='create_unpack', other='>', opts=None, twice=False):
    """Any operation after any earlier one gives what it gives on a freshly
    imported package."""
    ctx.opts = {'maxlen': 3, 'items': 1, 'chars': 1, **(opts or {})}
    sh = S.parse(shape)
    b = S.Builder(ctx.lib)
    cls = b.cls(sh)
    first(ctx, b, sh, cls, kind, n1, other)
    fresh = Other(ctx, b, sh)
    if ctx.choose('then', ('unpack', 'pack')) == 'unpack':
        data = ctx.blob('data2', max(n2 - 3, 0), n2)
        u, p = ctx.attempt(do_unpack, cls, how, data), ctx.attempt(do_unpack, fresh.cls, how, data)
        if compare(ctx, u, p, how):
            ctx.check(alike(ctx, u.value, p.value), f'{how}: another object than on a fresh interpreter')
            ctx.check(cls.serializer.size == fresh.cls.serializer.size, f'{how}: another size than on a fresh interpreter')
        return
    x = S.make_value(ctx, b, sh, 'two.')
    y = fresh.remake(x)
    pack = {'create_unpack': 'pack', 'create_unpack_read': 'pack_write'}.get(how, 'pack_into')
    o, p = ctx.attempt(do_pack, x, pack), ctx.attempt(do_pack, y, pack)
    if compare(ctx, o, p, pack):
        ctx.check(ctx.eq(o.value, p.value), f'{pack}: other bytes than on a fresh interpreter')
        ctx.check(cls.serializer.size == fresh.cls.serializer.size, f'{pack}: another size than on a fresh interpreter')


def buffers(ctx, shape, n, how, kind='bytearray'):
    """The input is not modified, and changing it later does not change the
    object (nor does changing one object change another)."""
    ctx.opts = {}
    sh = S.parse(shape)
    b = S.Builder(ctx.lib)
    cls = b.cls(sh)
    data = ctx.blob('data', 0, n)
    later = ctx.int('later', 0, 255)
    if how.endswith('read'):
        stream = io.BytesIO(data)
        u = ctx.attempt(cls.create_unpack_read if how.startswith('create') else blank(cls).unpack_read, stream)
        ctx.check(ctx.eq(stream.getvalue(), data), 'the stream was written to')
        return
    buf = bytearray(data)
    given = memoryview(buf) if kind == 'memoryview' else buf
    u = ctx.attempt(do_unpack_raw, cls, how, given)
    ctx.check(ctx.eq(bytes(buf), data), f'{how} changed its input')
    if not u.ok:
        return
    keep = ctx.attempt(do_unpack_raw, cls, how, bytes(data))
    ctx.check(keep.ok, 'bytes are refused, a bytearray is not')
    for i in range(len(buf)):
        buf[i] = later
    ctx.check(ctx.same(u.value, keep.value), f'{how}: the object changed with the buffer')
    again = do_unpack_raw(cls, how, bytes(data))
    spoil(again)
    ctx.check(ctx.same(u.value, keep.value), 'two unpacked objects share a value')
    third = ctx.attempt(do_unpack_raw, cls, how, bytes(data))
    ctx.check(third.ok and ctx.same(third.value, keep.value), 'changing an unpacked object changes later results')


def do_unpack_raw(cls, how, buf):
    """Without slicing or copying the buffer."""
    if how.startswith('create'):
        return getattr(cls, how)(buf)
    o = blank(cls)
    getattr(o, how)(buf)
    return o


def spoil(o):
    """Changes every list and object reachable from o."""
    if isinstance(o, list):
        for x in o:
            spoil(x)
        o.append('spoilt')
    elif isinstance(o, tuple):
        for x in o:
            spoil(x)
    elif isinstance(getattr(type(o), 'attrs', None), tuple) and hasattr(type(o), 'serializer'):
        for n in type(o).attrs:
            spoil(getattr(o, n))
            setattr(o, n, 'spoilt')


def faulty(ctx, kind, n=6):
    """A decider or condition that raises, then an ordinary operation."""
    ctx.opts = {}
    source = {
        'decider': '    b: Annotated[Union[lib.uint8, lib.uint16], lib.LookbackDecider(look, {1: lib.uint8}, lib.uint16)]',
        'ahead': '    b: Annotated[Union[lib.uint8, lib.uint16], lib.LookaheadDecider(lib.uint8, look, {1: lib.uint8}, lib.uint16)]',
        'condition': '    b: Annotated[lib.uint16, lib.Condition(look, 5)]',
        'factory': '    b: Annotated[Conv, lib.SerializeAs(lib.uint8).with_factory(conv)]',
        'in array': '    b: lib.array[lib.Header[2], Annotated[Union[lib.uint8, lib.uint16], lib.LookbackDecider(look, {1: lib.uint8}, lib.uint16)]]',
        'in tuple': '    b: tuple[Annotated[lib.uint16, lib.Condition(look, 5)], lib.char[lib.uint8]]',
        'codec': '    b: lib.unicode[lib.uint8, Codec]',
    }[kind]

    def build(lib):
        import typing

        def look(o):
            if o.a == 7:
                raise ZeroDivisionError('decider')
            return o.a & 1

        def conv(v):
            if v == 7:
                raise ZeroDivisionError('factory')
            return v

        class Codec(lib.EncoderDecoder if hasattr(lib, 'EncoderDecoder') else object):
            @classmethod
            def encode(cls, text):
                return text.encode('latin-1')

            @classmethod
            def decode(cls, data):
                if len(data) > 0 and data[0] == 7:
                    raise ZeroDivisionError('codec')
                return data.decode('latin-1')

        ns = {'lib': lib, 'Annotated': typing.Annotated, 'Union': typing.Union, 'look': look, 'conv': conv, 'Conv': int, 'Codec': Codec}
        exec('class C(lib.Structured):\n    a: lib.uint8\n' + source + '\n    c: lib.uint16', ns)
        return ns['C']

    cls = build(ctx.lib)
    how = ctx.choose('first', ('create_unpack', 'create_unpack_read', 'unpack_from', 'pack'))
    one = ctx.blob('data1', n, n)
    if how == 'pack':
        u = ctx.attempt(cls.create_unpack, one)
        if u.ok:
            u.value.a = 7
            ctx.attempt(u.value.pack)
    else:
        ctx.attempt(do_unpack, cls, how, one)
    fresh = build(ctx.fresh_lib())
    two = ctx.blob('data2', 0, n)
    for how in ('create_unpack', 'unpack_read'):
        u, p = ctx.attempt(do_unpack, cls, how, two), ctx.attempt(do_unpack, fresh, how, two)
        if compare(ctx, u, p, how):
            ctx.check(alike(ctx, u.value, p.value), f'{how}: another object than on a fresh interpreter')
            o, q = ctx.attempt(u.value.pack), ctx.attempt(p.value.pack)
            if compare(ctx, o, q, 'pack'):
                ctx.check(ctx.eq(o.value, q.value), 'pack: other bytes than on a fresh interpreter')
            ctx.check(cls.serializer.size == fresh.serializer.size, 'another size than on a fresh interpreter')


REUSES = ('pack', 'pack_into', 'pack_write', 'small buffer', 'broken write', 'order', 'order unpack', 'unpack', 'unpack_read', 'text', 'copy')


def reused(ctx, shape, kind, how, n, other='>', opts=None):
    """An object used before, and then given other values, is as a new one."""
    ctx.opts = {'maxlen': 3, 'items': 1, 'chars': 1, **(opts or {})}
    sh = S.parse(shape)
    b = S.Builder(ctx.lib)
    cls = b.cls(sh)
    x = S.make_value(ctx, b, sh, 'one.')
    keep = [frozen(v) for v in values_of(x, cls.attrs)]
    if kind in PACKERS:
        ctx.attempt(do_pack, x, kind)
    elif kind == 'small buffer':
        ctx.attempt(x.pack_into, bytearray(ctx.blob('buffer', 0, 8)), ctx.int('offset', 0, 3))
    elif kind == 'broken write':
        ctx.attempt(x.pack_write, Broken(b'', ctx.choose('fault', range(3))))
    elif kind.startswith('order'):
        y = x.with_byte_order(b.order(other))
        ctx.attempt(y.unpack, ctx.blob('data1', max(n - 4, 0), n)) if kind == 'order unpack' else ctx.attempt(y.pack)
    elif kind.startswith('unpack'):
        ctx.attempt(do_unpack_into, x, kind, ctx.blob('data1', max(n - 4, 0), n))
    elif kind == 'text':
        str(x), repr(x), x == x, x == 5
    else:
        import copy

        y = copy.copy(x)
        ctx.attempt(y.pack)
    if kind not in ('unpack', 'unpack_read'):
        ctx.check(ctx.same([frozen(v) for v in values_of(x, cls.attrs)], keep), f'{kind} changed the object')
    y = S.make_value(ctx, b, sh, 'two.')
    for a in cls.attrs:
        setattr(x, a, getattr(y, a))
    fresh = Other(ctx, b, sh)
    z = fresh.remake(y)
    o, p = ctx.attempt(do_pack, x, how), ctx.attempt(do_pack, z, how)
    if compare(ctx, o, p, how):
        ctx.check(ctx.eq(o.value, p.value), f'{how}: other bytes than those of a new object')
        back = 'unpack_read' if how == 'pack_write' else 'unpack_from' if how == 'pack_into' else 'unpack'
        u = ctx.attempt(do_unpack_into, x, back, p.value)
        ctx.check(u.ok and alike(ctx, x, z), f'{back} into an object used before: {u!r}')


def do_unpack_into(x, how, data):
    if how == 'unpack':
        x.unpack(data)
    elif how == 'unpack_from':
        x.unpack_from(b'\x09' + data, 1)
    else:
        x.unpack_read(io.BytesIO(data))
