"""C25: serializers written by the user against the documented Serializer API."""
from typing import Annotated

from . import shapes as S
from .byteorder import into
from .common import PACKERS, UNPACKERS, do_pack, do_unpack
from .general import blank, setup, some_value

SMALL = {'maxlen': 3, 'items': 2, 'chars': 1}


def pieces(shape):
    """The own fields of a shape that spy."""
    return [f for _, f in shape.fields]


def sees(ctx, shape):
    """prepack and preunpack are called just before, with an object that has
    every attribute serialized before."""
    ctx.opts = SMALL
    sh = S.parse(shape)
    b = S.Builder(ctx.lib)
    b.log = []
    cls = b.cls(sh)
    x, data = some_value(ctx, b, sh)
    for hows, kind in ((PACKERS, 'pack'), (UNPACKERS, 'unpack')):
        for how in hows:
            b.log.clear()
            if kind == 'pack':
                o = ctx.attempt(do_pack, x, how)
                ctx.check(o.ok and ctx.eq(o.value, data), f'{how}: {o!r}' if not o.ok else f'{how} gives other bytes')
            else:
                o = ctx.attempt(do_unpack, cls, how, data)
                ctx.check(o.ok and ctx.same(o.value, x), f'{how}: {o!r}' if not o.ok else f'{how} gives another object')
            for k, seen in b.log:
                ctx.check(k == kind, f'{how} calls pre{k}')
                ctx.check(ctx.all(*[ctx.same(v, getattr(x, n)) for n, v in seen]), f'{how}: pre{kind} sees other values')


def turned(ctx, shape, other):
    """with_byte_order reaches the user's serializers."""
    sh, b, cls = setup(ctx, shape, SMALL)
    x, before = some_value(ctx, b, sh)
    try:
        want = S.encode(ctx, sh, x, other)
    except S.Reject:
        ctx.assume(False)
    y = x.with_byte_order(b.order(other))
    for how in PACKERS:
        o = ctx.attempt(do_pack, y, how)
        ctx.check(o.ok and ctx.eq(o.value, want), f'{how}: {o!r}' if not o.ok else f'{how}: not in the new byte order')
    for how in ('unpack', 'unpack_from', 'unpack_read'):
        z = blank(cls).with_byte_order(b.order(other))
        u = ctx.attempt(into, z, how, want)
        ctx.check(u.ok and ctx.same(z, x), f'{how}: {u!r}' if not u.ok else f'{how}: not in the new byte order')
    o = ctx.attempt(x.pack)
    ctx.check(o.ok and ctx.eq(o.value, before), 'with_byte_order changed how the original object packs')


def pair_serializer(lib, lazy):
    """Two values at once: a byte string and a number, behind their length."""

    class Pair(lib.Serializer):
        num_values, size = 2, 0

        def pack(self, *values):
            a, n = values
            self.size = len(a) + 2
            return bytes([len(a), n]) + a

        def pack_into(self, buffer, offset, *values):
            data = self.pack(*values)
            if offset + len(data) > len(buffer):
                raise ValueError('no room')
            buffer[offset : offset + len(data)] = data

        def pack_write(self, writable, *values):
            writable.write(self.pack(*values))

        def values(self, get):
            head = get(0, 2)
            if len(head) != 2:
                raise ValueError('short')
            a = bytes(get(2, head[0]))
            if len(a) != head[0]:
                raise ValueError('short')
            yield a
            self.size = 2 + len(a)
            yield head[1]

        def give(self, get):
            return self.values(get) if lazy else tuple(self.values(get))

        def unpack(self, buffer):
            return self.give(lambda pos, n: buffer[pos : pos + n])

        def unpack_from(self, buffer, offset=0):
            return self.give(lambda pos, n: buffer[offset + pos : offset + pos + n])

        def unpack_read(self, readable):
            return self.give(lambda pos, n: readable.read(n))

    return Pair()


def pairs(ctx, place, lazy, n):
    """A serializer of two values: as part of a tuple, and under a condition."""
    lib = ctx.lib
    pair = Annotated[tuple, pair_serializer(lib, lazy)]
    maybe = Annotated[tuple, pair_serializer(lib, lazy), lib.Condition(lambda o: o.a & 1 == 1, b'none', 5)]
    t = {
        'tuple': tuple[pair, lib.uint16], 'behind': tuple[lib.uint16, pair], 'between': tuple[lib.uint8, pair, lib.uint8],
        'twice': tuple[pair, pair], 'alone': tuple[pair], 'condition': tuple[lib.uint8, maybe, lib.uint16], 'only': tuple[maybe],
        'array': lib.array[lib.Header[2], tuple[pair]], 'union': Annotated[object, lib.LookbackDecider(lambda o: o.a & 1, {0: tuple[pair]}, lib.uint8)],
    }[place]
    if place == 'union':
        from typing import Union

        t = Annotated[Union[tuple[pair], lib.uint8], lib.LookbackDecider(lambda o: o.a & 1, {0: tuple[pair]}, lib.uint8)]
    ns = {'lib': lib, 't': t, 'BO': lib.ByteOrder.LITTLE_ENDIAN}
    exec('class K(lib.Structured, byte_order=BO):\n    a: lib.uint8\n    b: t\n    c: lib.uint16', ns)
    K = ns['K']
    data = ctx.blob('data', 0, n)
    want = None
    try:
        d = S.Data(ctx, None, data)
        a = d.take(1)[0]

        def number(k):
            return int.from_bytes(d.take(k), 'little')

        def two():
            head = d.take(2)
            return (d.take(head[0]), head[1])

        on = a & 1 == 1
        if place == 'tuple':
            v = two() + (number(2),)
        elif place == 'behind':
            v = (number(2),) + two()
        elif place == 'between':
            v = (number(1),) + two() + (number(1),)
        elif place == 'twice':
            v = two() + two()
        elif place == 'alone':
            v = two()
        elif place == 'condition':
            v = (number(1),) + (two() if on else (b'none', 5)) + (number(2),)
        elif place == 'only':
            v = two() if on else (b'none', 5)
        elif place == 'array':
            v = [two(), two()]
        else:
            v = number(1) if on else two()
        want = (a, v, number(2))
    except S.Reject:
        pass
    for how in UNPACKERS:
        u = ctx.attempt(do_unpack, K, how, b'\x07' + data, 1)
        ctx.check(u.ok == (want is not None), f'{how}: {u!r}' if want is not None else f'{how} succeeds')
        if want is None:
            continue
        o = u.value
        ctx.check(ctx.same([o.a, o.b, o.c], list(want)), f'{how} gives other values')
        ctx.check(K.serializer.size == d.pos, f'{how}: size')
    if want is None:
        return
    x = K(*want)
    for how in PACKERS:
        o = ctx.attempt(do_pack, x, how)
        ctx.check(o.ok and ctx.eq(o.value, data[: d.pos]), f'{how}: {o!r}' if not o.ok else f'{how} gives other bytes')
        ctx.check(K.serializer.size == d.pos, f'{how}: size')


def written(ctx, shape):
    """The documented layout, by every method at once; and back."""
    sh, b, cls = setup(ctx, shape, {'maxlen': 300, 'items': 2, 'chars': 1})
    x, want = some_value(ctx, b, sh)
    n = len(want)
    for how in PACKERS:
        o = ctx.attempt(do_pack, x, how)
        ctx.check(o.ok and ctx.eq(o.value, want), f'{how}: {o!r}' if not o.ok else f'{how} gives other bytes')
        ctx.check(cls.serializer.size == n, f'{how}: size is not the number of bytes packed')
    for how in UNPACKERS:
        for off, tail in ((0, b''), (3, b'' if sh.final else b'\x00\xff')):
            u = ctx.attempt(do_unpack, cls, how, bytes(off) + want + tail, off)
            ctx.check(u.ok and ctx.same(u.value, x), f'{how}: {u!r}' if not u.ok else f'{how} gives another object')
            ctx.check(cls.serializer.size == n, f'{how}: size is not the number of bytes unpacked')
