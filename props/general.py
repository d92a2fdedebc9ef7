"""Harnesses over class shapes: round trip, layout, method agreement, sizes,
embedding, truncation, re-packing (C01-C07, C24)."""
import io

from . import shapes as S


def setup(ctx, shape, opts=None):
    ctx.opts = dict(opts or {})
    sh = S.parse(shape)
    b = S.Builder(ctx.lib)
    return sh, b, b.cls(sh)


def some_value(ctx, b, sh, depth=1, prefix=''):
    """An arbitrary object whose values its hints can represent, and its bytes."""
    x = S.make_value(ctx, b, sh, prefix, depth=depth)
    try:
        return x, S.encode(ctx, sh, x)
    except S.Reject:
        ctx.assume(False)


def blank(cls):
    """An existing instance whose attributes hold unrelated values."""
    return cls(*[None] * len(cls.attrs))


UNPACKERS = ('create_unpack', 'create_unpack_from', 'create_unpack_read', 'unpack', 'unpack_from', 'unpack_read')


def turned(hows, shape):
    """The methods, starting with another one for each shape."""
    k = sum(map(ord, shape)) % len(hows)
    return hows[k:] + hows[:k]


def do_unpack(cls, how, data, off=0):
    """Unpack data (a bytes-like object) at off by method `how`."""
    if how == 'create_unpack':
        return cls.create_unpack(data[off:])
    if how == 'create_unpack_from':
        return cls.create_unpack_from(data, off)
    if how == 'create_unpack_read':
        return cls.create_unpack_read(S.stream(data, off))
    o = blank(cls)
    if how == 'unpack':
        o.unpack(data[off:])
    elif how == 'unpack_from':
        o.unpack_from(data, off)
    else:
        o.unpack_read(S.stream(data, off))
    return o


def round_trip(ctx, shape, opts=None, depth=1):
    sh, b, cls = setup(ctx, shape, opts)
    x, _ = some_value(ctx, b, sh, depth)
    keep = [getattr(x, a) for a in cls.attrs]
    o = ctx.attempt(x.pack)
    ctx.check(o.ok, f'{shape}: representable values do not pack: {o!r}' if not o.ok else '')
    data = o.value
    ctx.check(isinstance(data, bytes), 'pack() does not return bytes')
    n = len(data)
    buf = bytearray(n + 3)
    p = ctx.attempt(x.pack_into, buf, 2)
    ctx.check(p.ok and ctx.eq(buf[2 : 2 + n], data), f'pack_into differs from pack {p!r}' if not p.ok else 'pack_into differs from pack')
    s = io.BytesIO()
    p = ctx.attempt(x.pack_write, s)
    ctx.check(p.ok and ctx.eq(s.getvalue(), data), 'pack_write differs from pack')
    for how in turned(UNPACKERS, shape):
        for off in (0, 3) if how.endswith('from') else (0,):
            u = ctx.attempt(do_unpack, cls, how, bytes(off) + data, off)
            ctx.check(u.ok, f'{how} fails on packed data: {u!r}' if not u.ok else '')
            ctx.check(ctx.same(u.value, x), f'{how} gives a different object')
    ctx.check(ctx.same([getattr(x, a) for a in cls.attrs], keep), 'packing changed the object')


def layout(ctx, shape, opts=None, depth=1):
    sh, b, cls = setup(ctx, shape, opts)
    x, want = some_value(ctx, b, sh, depth)
    o = ctx.attempt(x.pack)
    ctx.check(o.ok, f'does not pack: {o!r}' if not o.ok else '')
    ctx.check(ctx.eq(o.value, want), 'packed bytes are not the documented layout')


def pack_methods(ctx, shape, opts=None, depth=1, view=False, room=90000):
    """C03; values may be unrepresentable (opts wild)."""
    sh, b, cls = setup(ctx, shape, opts)
    x = S.make_value(ctx, b, sh, depth=depth)
    o = ctx.attempt(x.pack)
    if view or ctx.choose('target', ('buffer', 'stream')) == 'buffer':
        into_buffer(ctx, x, o, view, room)
    else:
        into_stream(ctx, x, o)


def into_buffer(ctx, x, o, view, room):
    before = ctx.blob('buffer', 0, room)
    off = ctx.int('offset', 0, room)
    ctx.assume(off <= len(before))
    buf = bytearray(before)
    target = memoryview(buf) if view else buf
    p = ctx.attempt(x.pack_into, target, off)
    if view:
        target.release()
    ctx.check(len(buf) == len(before), 'pack_into changed the length of the buffer')
    if not o.ok:
        ctx.check(not p.ok, 'pack fails but pack_into succeeds')
        ctx.check(ctx.eq(bytes(buf)[:off], before[:off]), 'failing pack_into changed bytes before the offset')
        return
    n = len(o.value)
    if off + n <= len(before):
        ctx.check(p.ok, f'pack_into fails although the data fits: {p!r}' if not p.ok else '')
        ctx.check(ctx.eq(bytes(buf), before[:off] + o.value + before[off + n :]),
                  'pack_into does not write exactly the packed bytes at the offset')
    else:
        ctx.check(not p.ok, 'pack_into succeeds although the data does not fit')
        ctx.check(ctx.eq(bytes(buf)[:off], before[:off]), 'failing pack_into changed bytes before the offset')


def into_stream(ctx, x, o):
    pre = ctx.blob('written', 0, 50)
    pos = ctx.int('position', 0, 50)
    ctx.assume(pos <= len(pre))
    s = S.stream(pre, pos)
    w = ctx.attempt(x.pack_write, s)
    ctx.check(w.ok == o.ok, 'pack and pack_write disagree about failing')
    if o.ok:
        n = len(o.value)
        ctx.check(ctx.eq(s.getvalue(), pre[:pos] + o.value + pre[pos + n :]), 'pack_write does not write exactly the packed bytes')
        ctx.check(s.tell() == pos + n, 'pack_write leaves the stream elsewhere')


def turned_items(ctx, shape, other, opts=None):
    """Objects inside have a byte order of their own (with_byte_order)."""
    sh, b, cls = setup(ctx, shape, opts)
    x = S.make_value(ctx, b, sh)
    order = b.order(other)
    k = ctx.choose('which', (0, 1, 2))

    def turn(v):
        nonlocal k
        if isinstance(v, list):
            return [turn(i) for i in v]
        if isinstance(v, tuple):
            return tuple(turn(i) for i in v)
        if isinstance(getattr(type(v), 'attrs', None), tuple):
            k -= 1
            return v.with_byte_order(order) if k else v
        return v

    for n in cls.attrs:
        setattr(x, n, turn(getattr(x, n)))
    o = ctx.attempt(x.pack)
    ctx.check(o.ok, f'does not pack: {o!r}' if not o.ok else '')
    n = len(o.value)
    ctx.check(x.serializer.size == n, 'size after pack')
    if n > 100:
        ctx.note('long')
        return
    into_buffer(ctx, x, o, False, 120)
    into_stream(ctx, x, o)
    ctx.check(x.serializer.size == n, 'size after pack_write')


def rejected(ctx, shape, opts=None, depth=1):
    """C09: values outside what the hints can represent raise, others pack right."""
    sh, b, cls = setup(ctx, shape, opts)
    x = S.make_value(ctx, b, sh, depth=depth)
    try:
        want = S.encode(ctx, sh, x)
    except S.Reject as e:
        want = None
        ctx.note(str(e))
    for how in ('pack', 'pack_into', 'pack_write'):
        buf = bytearray(150000) if how == 'pack_into' else io.BytesIO()
        if how == 'pack':
            o = ctx.attempt(x.pack)
        elif how == 'pack_into':
            o = ctx.attempt(x.pack_into, buf, 1)
        else:
            o = ctx.attempt(x.pack_write, buf)
        if want is None:
            ctx.check(not o.ok, f'{how} writes a value its type cannot represent')
        else:
            ctx.check(o.ok, f'{how} refuses a representable value: {o!r}' if not o.ok else '')
            got = o.value if how == 'pack' else buf[1 : 1 + len(want)] if how == 'pack_into' else buf.getvalue()
            ctx.check(ctx.eq(got, want), f'{how} alters the value')


def unpack_methods(ctx, shape, n, opts=None, kinds=True):
    """C04: all entry points agree on arbitrary bytes."""
    sh, b, cls = setup(ctx, shape, opts)
    data = ctx.blob('data', 0, n)
    hows = turned(UNPACKERS, shape)
    first = ctx.attempt(do_unpack, cls, hows[0], data)
    for how in hows[1:]:
        u = ctx.attempt(do_unpack, cls, how, data)
        agree(ctx, first, u, f'{hows[0]} and {how}')
    for how in ('create_unpack_from', 'unpack_from', 'create_unpack_read'):
        u = ctx.attempt(do_unpack, cls, how, b'\x01\x80\xff' + data, 3)
        agree(ctx, first, u, f'{hows[0]} and {how} at an offset')
    if kinds:
        for kind in (bytearray, memoryview):
            for how in ('create_unpack', 'create_unpack_from', 'unpack', 'unpack_from'):
                u = ctx.attempt(do_unpack, cls, how, kind(data))
                agree(ctx, first, u, f'{hows[0]} and {how} of {kind.__name__}')


def agree(ctx, a, b, what):
    ctx.check(a.ok == b.ok, f'{what} disagree about failing: {a!r} / {b!r}' if a.ok != b.ok else '')
    if a.ok:
        ctx.check(ctx.same(a.value, b.value), f'{what} give different objects')


def sizes(ctx, shape, opts=None, depth=1):
    """C05 after packing and after unpacking packed data at various places."""
    sh, b, cls = setup(ctx, shape, opts)
    x, data = some_value(ctx, b, sh, depth)
    n = len(data)
    for how in ('pack', 'pack_into', 'pack_write'):
        if how == 'pack':
            o = ctx.attempt(x.pack)
        elif how == 'pack_into':
            o = ctx.attempt(x.pack_into, bytearray(n + 9), 4)
        else:
            o = ctx.attempt(x.pack_write, io.BytesIO())
        ctx.check(o.ok, f'{how} fails: {o!r}' if not o.ok else '')
        ctx.check(cls.serializer.size == n, f'size after {how} is not the number of bytes packed')
        ctx.check(x.serializer.size == n, f'instance size after {how} is not the number of bytes packed')
    tail = b'' if sh.final else b'\x07\x00\x07'
    for how in turned(UNPACKERS, shape):
        for off in (0, 5):
            o = ctx.attempt(do_unpack, cls, how, bytes(off) + data + tail, off)
            ctx.check(o.ok, f'{how} fails: {o!r}' if not o.ok else '')
            ctx.check(cls.serializer.size == n, f'size after {how} is not the number of bytes unpacked')


def sizes_input(ctx, shape, n, opts=None):
    """C05 on arbitrary input, against the reference decoder."""
    sh, b, cls = setup(ctx, shape, opts)
    data = ctx.blob('data', 0, n)
    for how in turned(UNPACKERS, shape):
        u = ctx.attempt(do_unpack, cls, how, b'\x01' + data, 1)
        if u.ok:
            size = cls.serializer.size
            used = reference(ctx, sh, b, data)[1]
            if used is not None:
                ctx.check(size == used, f'size after {how} is not the number of bytes unpacked')


def reference(ctx, sh, b, data):
    """Reference decoding of data: (object, consumed) or (None, None)."""
    try:
        return S.decode(ctx, b, sh, data)
    except S.Reject:
        return None, None


def embedded(ctx, shape, n, opts=None):
    """C06: arbitrary bytes before and after make no difference."""
    sh, b, cls = setup(ctx, shape, opts)
    data = ctx.blob('data', 0, n)
    want, used = reference(ctx, sh, b, data)
    if want is None:
        ctx.note('rejected')
        return
    if not sh.final:
        data = data[:used]
    pre = ctx.blob('before', 0, 5)
    post = b'' if sh.final else ctx.blob('after', 0, 5)
    off = len(pre)
    whole = pre + data + post
    streams_first = len(shape) % 2

    def streams():
        for how in ('create_unpack_read', 'unpack_read'):
            s = S.stream(whole, off)
            o = blank(cls)
            u = ctx.attempt(cls.create_unpack_read if how[0] == 'c' else o.unpack_read, s)
            ctx.check(u.ok, f'{how} of embedded bytes fails: {u!r}' if not u.ok else '')
            ctx.check(ctx.same(u.value if how[0] == 'c' else o, want), f'{how} depends on surrounding bytes')
            ctx.check(s.tell() == off + used, f'{how} does not leave the stream behind the consumed bytes')

    if streams_first:
        streams()
    for how in ('create_unpack_from', 'unpack_from', 'create_unpack'):
        u = ctx.attempt(do_unpack, cls, how, whole, off)
        ctx.check(u.ok, f'{how} of embedded bytes fails: {u!r}' if not u.ok else '')
        ctx.check(ctx.same(u.value, want), f'{how} depends on surrounding bytes or does not decode the bytes')
    if not streams_first:
        streams()


def from_the_end(ctx, shape, n, opts=None):
    """C06: an offset counted from the end of the buffer (as struct takes it) is the same place."""
    sh, b, cls = setup(ctx, shape, opts)
    pre, data = ctx.blob('before', 0, 3), ctx.blob('data', 1, n)
    whole = pre + data
    off, size = len(pre), len(whole)
    for how in turned(('create_unpack_from', 'unpack_from'), shape):
        u, v = ctx.attempt(do_unpack, cls, how, whole, off), ctx.attempt(do_unpack, cls, how, whole, off - size)
        ctx.check(u.ok == v.ok, f'{how} at an offset from the end: {v!r}')
        if u.ok:
            ctx.check(ctx.same(u.value, v.value), f'{how} at an offset from the end gives another object')
    far = ctx.int('far', 1, 9)
    for how in ('create_unpack_from', 'unpack_from'):
        w = ctx.attempt(do_unpack, cls, how, whole, -size - far)
        ctx.check(not w.ok, f'{how} takes an offset before the buffer')


def into_from_the_end(ctx, shape, opts=None):
    """C03: likewise when packing."""
    sh, b, cls = setup(ctx, shape, opts)
    x = S.make_value(ctx, b, sh)
    before = ctx.blob('buffer', 1, 30)
    back = ctx.int('back', 1, 40)
    buf, other = bytearray(before), bytearray(before)
    p = ctx.attempt(x.pack_into, buf, -back)
    if back > len(before):
        ctx.check(not p.ok, 'pack_into takes an offset before the buffer')
        ctx.check(ctx.eq(bytes(buf), before), 'failing pack_into changed the buffer')
        return
    off = len(before) - back
    q = ctx.attempt(x.pack_into, other, off)
    ctx.check(p.ok == q.ok, f'pack_into at an offset from the end: {p!r}')
    ctx.check(ctx.eq(bytes(buf), bytes(other)), 'pack_into at an offset from the end writes elsewhere')
    ctx.check(ctx.eq(bytes(buf)[:off], before[:off]), 'pack_into changed bytes before the offset')


def truncated(ctx, shape, opts=None, depth=1):
    """C07: every proper prefix of packed data is rejected."""
    sh, b, cls = setup(ctx, shape, opts)
    x, data = some_value(ctx, b, sh, depth)
    cut = ctx.int('cut', 0, 100000)
    ctx.assume(cut < len(data))
    short = data[:cut]
    for how in turned(UNPACKERS, shape):
        off = 2 if how.endswith('from') else 0
        u = ctx.attempt(do_unpack, cls, how, bytes(off) + short, off)
        ctx.check(not u.ok, f'{how} accepts a truncated input')


def short_input(ctx, shape, n, opts=None):
    """C07: whatever the reference decoder finds too short is rejected."""
    sh, b, cls = setup(ctx, shape, opts)
    data = ctx.blob('data', 0, n)
    try:
        S.decode(ctx, b, sh, data)
        ctx.note('complete')
        return
    except S.Reject as e:
        if str(e) not in ('short', 'unterminated'):
            ctx.note('other')
            return
    for how in UNPACKERS:
        u = ctx.attempt(do_unpack, cls, how, data)
        ctx.check(not u.ok, f'{how} builds an object from too few bytes')


def repack(ctx, shape, n, opts=None):
    """C24: unpack then pack gives back the consumed bytes, whatever the methods."""
    sh, b, cls = setup(ctx, shape, opts)
    data = ctx.blob('data', 0, n)
    s = S.stream(data)
    u = ctx.attempt(cls.create_unpack_read, s)
    if not u.ok:
        ctx.note('rejected')
        return
    used = s.tell()
    try:
        _, size, canon = S.decode_all(ctx, b, sh, data)
    except S.Reject:
        ctx.note('reference rejects')
        return
    for c in canon:
        ctx.assume(c)
    p = ctx.attempt(u.value.pack)
    ctx.check(p.ok, f'unpacked object does not pack: {p!r}' if not p.ok else '')
    ctx.check(ctx.eq(p.value, data[:used]), 'packing does not reproduce the unpacked bytes')
    for i, how in enumerate(turned(UNPACKERS, shape)):
        u = ctx.attempt(do_unpack, cls, how, b'\x03' + data, 1)
        ctx.check(u.ok, f'{how} fails: {u!r}' if not u.ok else '')
        buf = bytearray(used + 2)
        st = io.BytesIO()
        if i % 3 == 0:
            p = ctx.attempt(u.value.pack_into, buf, 1)
        elif i % 3 == 1:
            p = ctx.attempt(u.value.pack)
        else:
            p = ctx.attempt(u.value.pack_write, st)
        ctx.check(p.ok, f'what {how} gives does not pack: {p!r}' if not p.ok else '')
        got = buf[1 : 1 + used] if i % 3 == 0 else p.value if i % 3 == 1 else st.getvalue()
        ctx.check(ctx.eq(got, data[:used]), f'packing does not reproduce the bytes unpacked by {how}')
