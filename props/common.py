"""Shared by the harness modules."""
import io

from . import shapes as S
from .general import UNPACKERS, blank, do_unpack


def alike(ctx, a, b):
    """Deep equality with value types, of objects of corresponding classes."""
    fa, fb = getattr(type(a), 'attrs', None), getattr(type(b), 'attrs', None)
    if isinstance(fa, tuple) and isinstance(fb, tuple):
        if fa != fb:
            return False
        return ctx.all(*[alike(ctx, getattr(a, n), getattr(b, n)) for n in fa])
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if isinstance(a, list) != isinstance(b, list) or len(a) != len(b):
            return False
        return ctx.all(*[alike(ctx, x, y) for x, y in zip(a, b)])
    return ctx.same(a, b)


def both_fail_or(ctx, a, b, what):
    """True if both succeeded; checks that both did or both failed."""
    ctx.check(a.ok == b.ok, f'{what}: one fails, the other does not: {a!r} / {b!r}' if a.ok != b.ok else '')
    return a.ok


PACKERS = ('pack', 'pack_into', 'pack_write')


def do_pack(x, how, off=2):
    """The bytes x packs to by method `how`."""
    if how == 'pack':
        return x.pack()
    if how == 'pack_write':
        s = io.BytesIO()
        x.pack_write(s)
        return s.getvalue()
    n = len(x.pack())
    buf = bytearray(n + off + 3)
    x.pack_into(buf, off)
    return bytes(buf)[off : off + n]


def unpack_all(ctx, cls, data, what, hows=UNPACKERS):
    """The outcome of unpacking data, the same for every method."""
    first = None
    for how in hows:
        u = ctx.attempt(do_unpack, cls, how, data)
        if first is None:
            first = u
        elif both_fail_or(ctx, first, u, f'{what}: {hows[0]} and {how}'):
            ctx.check(ctx.same(first.value, u.value), f'{what}: {hows[0]} and {how} give different objects')
    return first


def field_shape(text, i, new):
    """Shape `text` with field number i replaced by field object new (or
    removed if new is None); names stay."""
    sh = S.parse(text)
    fields = [(n, new if k == i else f) for k, (n, f) in enumerate(sh.fields) if k != i or new is not None]
    out = S.Shape(sh.order, fields, f'{text}[{i}]')
    return out


def values_of(o, names):
    return [getattr(o, n) for n in names]
