"""C08: byte orders."""
from . import shapes as S
from .common import PACKERS, UNPACKERS, do_pack, do_unpack
from .general import blank, setup, some_value


def declared(ctx, shape, opts=None, depth=1):
    """A class declared with a byte order packs and unpacks in that order."""
    sh, b, cls = setup(ctx, shape, opts)
    x, want = some_value(ctx, b, sh, depth)
    for how in PACKERS:
        o = ctx.attempt(do_pack, x, how)
        ctx.check(o.ok, f'{how} fails: {o!r}' if not o.ok else '')
        ctx.check(ctx.eq(o.value, want), f'{how}: some number is not in the declared byte order')
    for how in ('create_unpack', 'unpack_from', 'create_unpack_read'):
        u = ctx.attempt(do_unpack, cls, how, want)
        ctx.check(u.ok and ctx.same(u.value, x), f'{how}: some number is not read in the declared byte order')


def instance(ctx, shape, other, opts=None):
    """with_byte_order on an object."""
    sh, b, cls = setup(ctx, shape, opts)
    x, before = some_value(ctx, b, sh)
    keep = [getattr(x, a) for a in cls.attrs]
    y = x.with_byte_order(b.order(other))
    try:
        want = S.encode(ctx, sh, x, other)
    except S.Reject:
        ctx.assume(False)
    ctx.check(type(y) is cls, 'with_byte_order gives an object of another class')
    ctx.check(ctx.same([getattr(y, a) for a in cls.attrs], keep), 'with_byte_order changed a value')
    ctx.check(ctx.same([getattr(x, a) for a in cls.attrs], keep), 'with_byte_order changed the original object')
    ctx.check(y.byte_order is b.order(other), 'with_byte_order does not set byte_order')
    twin = b.cls(sh, order=other)(*keep)
    for how in PACKERS:
        o = ctx.attempt(do_pack, y, how)
        ctx.check(o.ok, f'{how} fails after with_byte_order: {o!r}' if not o.ok else '')
        ctx.check(ctx.eq(o.value, want), f'{how} after with_byte_order is not in the new byte order')
        t = ctx.attempt(do_pack, twin, how)
        ctx.check(t.ok and ctx.eq(t.value, want), f'{how} of the class declared with that order differs')
    for how in ('unpack', 'unpack_from', 'unpack_read'):
        z = blank(cls).with_byte_order(b.order(other))
        u = ctx.attempt(into, z, how, want)
        ctx.check(u.ok, f'{how} fails after with_byte_order: {u!r}' if not u.ok else '')
        ctx.check(ctx.same(z, x), f'{how} after with_byte_order is not in the new byte order')
    for last, bytes_ in ((sh.order, before), (other, want)):
        z = ctx.attempt(lambda: y.with_byte_order(b.order(last)))
        ctx.check(z.ok, f'with_byte_order twice fails: {z!r}' if not z.ok else '')
        ctx.check(z.value.byte_order == b.order(last), 'with_byte_order twice does not set byte_order')
        o = ctx.attempt(z.value.pack)
        ctx.check(o.ok and ctx.eq(o.value, bytes_), 'with_byte_order twice does not pack in the last byte order')
    o = ctx.attempt(x.pack)
    ctx.check(o.ok and ctx.eq(o.value, before), 'with_byte_order changed how the original object packs')
    u = ctx.attempt(cls.create_unpack, before)
    ctx.check(u.ok and ctx.same(u.value, x), 'with_byte_order changed how the class unpacks')


def into(z, how, data):
    if how == 'unpack':
        z.unpack(data)
    elif how == 'unpack_from':
        z.unpack_from(b'\x05' + data, 1)
    else:
        z.unpack_read(S.stream(data))


def derived(ctx, shape, other, opts=None):
    """A subclass overriding the byte order governs the inherited fields too."""
    sh, b, base = setup(ctx, shape, opts)
    ns = {'Base': base, 'lib': b.lib, 'BO': b.order(other)}
    exec('class Derived(Base, byte_order=BO, byte_order_mode=lib.ByteOrderMode.OVERRIDE):\n    extra: lib.uint32', ns)
    cls = ns['Derived']
    x, before = some_value(ctx, b, sh)
    keep = [getattr(x, a) for a in base.attrs]
    n = ctx.int('extra', 0, 2**32 - 1)
    flat = S.Shape(other, sh.fields + [('extra', S.Basic('I'))])
    y = cls(*keep, n)
    try:
        want = S.encode(ctx, flat, y)
    except S.Reject:
        ctx.assume(False)
    o = ctx.attempt(y.pack)
    ctx.check(o.ok and ctx.eq(o.value, want), f'the subclass does not pack in its byte order {o!r}' if not o.ok else 'the subclass does not pack in its byte order')
    u = ctx.attempt(cls.create_unpack, want)
    ctx.check(u.ok and ctx.same(u.value, y), 'the subclass does not unpack in its byte order')
    o = ctx.attempt(x.pack)
    ctx.check(o.ok and ctx.eq(o.value, before), 'the subclass changed how the base class packs')
