"""C13: adding and multiplying serializers."""
import io
import struct
import types
from typing import Annotated, Tuple, Union

from . import shapes as S
from .general import blank


class Part:
    """A serializer given by fields of the shape grammar, taken from a class."""

    def __init__(self, b, text, order=''):
        sh = S.parse(order + text)
        self.fields = [f for _, f in sh.fields]
        self.serializer = b.cls(sh).serializer
        self.values = [f for f in self.fields if f.values]


def some_values(ctx, b, fields, prefix, order):
    env = S.Env(ctx, S.Shape(order, []), b.lib, 1)
    opts = ctx.opts
    env.b, env.maxlen, env.items, env.chars, env.termlen = b, opts.get('maxlen', 300), 1, 1, 2
    env.wild, env.counts = False, None
    return [f.value(env, f'{prefix}{i}') for i, f in enumerate(fields) if f.values]


def reference(ctx, fields, values, order):
    try:
        return S.enc_run(S.EncEnv(ctx, None, {}), fields, values, order)
    except S.Reject:
        ctx.assume(False)


def behaves(ctx, s, fields, values, want, what):
    """Serializer s handles exactly these fields, in every method."""
    n = len(want)
    whole = types.SimpleNamespace()
    ctx.check(s.num_values == len(values), f'{what}: num_values is wrong')
    o = ctx.attempt(s.prepack(whole).pack, *values)
    ctx.check(o.ok and ctx.eq(o.value, want), f'{what}: pack: {o!r}' if not o.ok else f'{what}: pack gives other bytes')
    ctx.check(s.size == n, f'{what}: size after pack')
    buf = bytearray(n + 4)
    o = ctx.attempt(s.prepack(whole).pack_into, buf, 3, *values)
    ctx.check(o.ok and ctx.eq(buf, bytes(3) + want + b'\0'), f'{what}: pack_into')
    ctx.check(s.size == n, f'{what}: size after pack_into')
    f = io.BytesIO()
    o = ctx.attempt(s.prepack(whole).pack_write, f, *values)
    ctx.check(o.ok and ctx.eq(f.getvalue(), want), f'{what}: pack_write')
    tail = b'' if fields and fields[-1].final else b'\x01\x00\x07'
    for how in ('unpack', 'unpack_from', 'unpack_from0', 'unpack_read'):
        if how == 'unpack':
            o = ctx.attempt(lambda: tuple(s.preunpack(whole).unpack(want + tail)))
        elif how == 'unpack_from':
            o = ctx.attempt(lambda: tuple(s.preunpack(whole).unpack_from(b'\x09' * 3 + want + tail, 3)))
        elif how == 'unpack_from0':
            o = ctx.attempt(lambda: tuple(s.preunpack(whole).unpack_from(want + tail)))
        else:
            f = io.BytesIO(want + tail)
            o = ctx.attempt(lambda: tuple(s.preunpack(whole).unpack_read(f)))
            ctx.check(f.tell() == n, f'{what}: unpack_read reads too much or too little')
        ctx.check(o.ok, f'{what}: {how} fails: {o!r}' if not o.ok else '')
        ctx.check(ctx.same(o.value, tuple(values)), f'{what}: {how} gives other values')
        ctx.check(s.size == n, f'{what}: size after {how}')


def total(ctx, parts, order='', opts=None, group=None):
    """The sum of serializers of one byte order, in any grouping."""
    ctx.opts = dict(opts or {})
    b = S.Builder(ctx.lib)
    ps = [Part(b, t, order) for t in parts]
    before = [(p.serializer.num_values, getattr(p.serializer, 'format', None)) for p in ps]
    groups = ['left', 'right'] if len(ps) > 2 else ['left']
    if len(ps) == 4:
        groups.append('pairs')
    g = ctx.choose('grouping', groups)
    sers = [p.serializer for p in ps]
    if g == 'left':
        s = sers[0]
        for x in sers[1:]:
            s = s + x
    elif g == 'right':
        s = sers[-1]
        for x in reversed(sers[:-1]):
            s = x + s
    else:
        s = (sers[0] + sers[1]) + (sers[2] + sers[3])
    fields = [f for p in ps for f in p.fields]
    values = some_values(ctx, b, fields, 'v', order)
    behaves(ctx, s, fields, values, reference(ctx, fields, values, order), 'sum')
    for p, was in zip(ps, before):
        ctx.check((p.serializer.num_values, getattr(p.serializer, 'format', None)) == was, 'adding changed an operand')


def single(ctx, part, kind='plain', order=''):
    """The serializer of a single field, on its own."""
    ctx.opts = {'maxlen': 4}
    b = S.Builder(ctx.lib)
    lib = b.lib
    f = S.Parser(part).field()
    h = f.hint(b)
    other = lib.int64 if part != 'q' else lib.uint8
    ns = {'lib': lib, 'BO': b.order(order), 'h': {
        'plain': lambda: h,
        'back': lambda: Annotated[Union[h, other], lib.LookbackDecider(lambda o: 1, {1: h, 2: other})],
        'back default': lambda: Annotated[Union[h, other], lib.LookbackDecider(lambda o: 1, {2: other}, h)],
        'ahead': lambda: Annotated[Union[h, other], lib.LookaheadDecider(lib.uint8, lambda o: 1, {}, h)],
        'condition': lambda: Annotated[h, lib.Condition(lambda o: True, None)],
        'tuple': lambda: Tuple[lib.uint8, h, lib.uint8],
    }[kind]()}
    exec('class C(lib.Structured, byte_order=BO):\n    f0: h', ns)
    if kind == 'tuple':
        f = S.Tup([S.Basic('B'), f, S.Basic('B')])
    values = some_values(ctx, b, [f], 'v', order)
    want = reference(ctx, [f], values, order)
    if kind == 'ahead':
        ctx.assume(len(want) > 0)
    s = ns['C'].serializer
    behaves(ctx, s, [f], values, want, kind)
    for how in ('unpack_from', 'unpack_from0'):
        o = ctx.attempt(lambda: tuple(s.preunpack(None).unpack_from(want, *([0] if how == 'unpack_from' else []))))
        ctx.check(o.ok and ctx.same(o.value, tuple(values)), f'{how} of exactly the bytes of a value: {o!r}')


def with_null(ctx, part, order=''):
    ctx.opts = {}
    b = S.Builder(ctx.lib)
    p = Part(b, part, order)
    null = ctx.lib.NullSerializer()
    s = {'left': lambda: null + p.serializer, 'right': lambda: p.serializer + null,
         'both': lambda: null + (p.serializer + null)}[ctx.choose('side', ('left', 'right', 'both'))]()
    values = some_values(ctx, b, p.fields, 'v', order)
    behaves(ctx, s, p.fields, values, reference(ctx, p.fields, values, order), 'sum with the null serializer')


CODES = {'B': (0, 255), 'b': (-128, 127), 'H': (0, 65535), 'h': (-32768, 32767), 'I': (0, 2**32 - 1),
         'i': (-(2**31), 2**31 - 1), 'Q': (0, 2**64 - 1), 'q': (-(2**63), 2**63 - 1)}


def format_values(ctx, fmt, prefix):
    """Arbitrary values for a struct format."""
    out, count = [], ''
    for c in fmt:
        if c.isdigit():
            count += c
            continue
        n = int(count) if count else 1
        count = ''
        if c in 'sp':
            m = n if c == 's' else max(n - 1, 0)
            out.append(ctx.bytes(f'{prefix}{len(out)}', m))
        elif c != 'x':
            for _ in range(n):
                name = f'{prefix}{len(out)}'
                if c == '?':
                    out.append(ctx.bool(name))
                elif c in 'efd':
                    out.append(ctx.float(name, c))
                elif c == 'c':
                    out.append(ctx.bytes(name, 1))
                else:
                    out.append(ctx.int(name, *CODES[c]))
    return out


def struct_like(ctx, s, fmt, values, what):
    o = ctx.attempt(struct.pack, fmt, *values)
    if not o.ok:
        ctx.assume(False)
    want = o.value
    ctx.check(s.size == len(want), f'{what}: size is not that of {fmt!r}')
    ctx.check(s.num_values == len(values), f'{what}: num_values is not that of {fmt!r}')
    o = ctx.attempt(s.pack, *values)
    ctx.check(o.ok and ctx.eq(o.value, want), f'{what}: does not pack like {fmt!r}')
    for how in ('unpack', 'unpack_from', 'unpack_read'):
        arg = io.BytesIO(want) if how == 'unpack_read' else want
        o = ctx.attempt(lambda: tuple(getattr(s, how)(arg)))
        ctx.check(o.ok, f'{what}: {how} fails: {o!r}' if not o.ok else '')
        ctx.check(ctx.same(o.value, tuple(struct.unpack(fmt, want))), f'{what}: {how} differs from {fmt!r}')


def formats(ctx, fmts, order=''):
    """Sums of StructSerializers with raw formats: the concatenated format."""
    lib = ctx.lib
    bo = getattr(lib.ByteOrder, S.ORDERS[order])
    s = None
    for f in fmts:
        t = lib.StructSerializer(f, bo)
        s = t if s is None else s + t
    values = format_values(ctx, ''.join(fmts), 'v')
    struct_like(ctx, s, order + ''.join(fmts), values, '+'.join(fmts))


def alternating(n, start=0):
    return tuple((S.Wrap, S.Other)[(start + i) % 2] for i in range(n))


def action_formats(ctx, fmts, marks, order=''):
    """Like formats; marks[i] tells whether part i converts its values."""
    lib = ctx.lib
    bo = getattr(lib.ByteOrder, S.ORDERS[order])
    s, wraps = None, []
    for f, m in zip(fmts, marks):
        n = lib.StructSerializer(f, bo).num_values
        w = alternating(n, len(wraps))
        t = lib.StructActionSerializer(f, bo, w) if m else lib.StructSerializer(f, bo)
        wraps += w if m else [None] * n
        s = t if s is None else s + t
    fmt = order + ''.join(fmts)
    values = format_values(ctx, ''.join(fmts), 'v')
    o = ctx.attempt(struct.pack, fmt, *values)
    if not o.ok:
        ctx.assume(False)
    want = o.value
    plain = struct.unpack(fmt, want)
    expect = tuple(w(v) if w else v for v, w in zip(plain, wraps))
    o = ctx.attempt(s.pack, *values)
    ctx.check(o.ok and ctx.eq(o.value, want), f'sum of {fmts} does not pack like {fmt!r}')
    for how in ('unpack', 'unpack_from', 'unpack_read'):
        arg = io.BytesIO(want) if how == 'unpack_read' else want
        o = ctx.attempt(lambda: tuple(getattr(s, how)(arg)))
        ctx.check(o.ok, f'{how} fails: {o!r}' if not o.ok else '')
        ctx.check(ctx.same(o.value, expect), f'{how}: a conversion is not attached to its own value')


def times(ctx, fmt, counts=(0, 1, 2, 3, 5), order='', action=False):
    """s * n is n copies of s added."""
    lib = ctx.lib
    bo = getattr(lib.ByteOrder, S.ORDERS[order])
    n0 = lib.StructSerializer(fmt, bo).num_values
    s = lib.StructActionSerializer(fmt, bo, alternating(n0)) if action else lib.StructSerializer(fmt, bo)
    n = ctx.choose('n', counts)
    if n < 0:
        ctx.check(not ctx.attempt(lambda: s * n).ok, 'a negative count is accepted')
        return
    o = ctx.attempt(lambda: s * n)
    ctx.check(o.ok, f'multiplying fails: {o!r}' if not o.ok else '')
    values = format_values(ctx, fmt * n, 'v')
    if not action or n == 0:
        struct_like(ctx, o.value, order + fmt * n, values, f'{fmt} * {n}')
        if n > 1:
            added = s
            for _ in range(n - 1):
                added = added + s
            struct_like(ctx, added, order + fmt * n, values, f'sum of {n} {fmt}')
        return
    p = ctx.attempt(struct.pack, order + fmt * n, *values)
    if not p.ok:
        ctx.assume(False)
    u = ctx.attempt(lambda: tuple(o.value.unpack(p.value)))
    want = tuple(w(v) for w, v in zip(alternating(n0) * n, struct.unpack(order + fmt * n, p.value)))
    ctx.check(u.ok and ctx.same(u.value, want), 'a product does not convert each value once')


def folded(ctx, fmt, counts=(0, 1, 2, 7, 300), order='', action=False):
    """s @ n is one field of n-fold count, converted as s is."""
    lib = ctx.lib
    bo = getattr(lib.ByteOrder, S.ORDERS[order])
    s = lib.StructActionSerializer(fmt, bo, (S.Wrap,)) if action else lib.StructSerializer(fmt, bo)
    n = ctx.choose('n', counts)
    if n < 0:
        ctx.check(not ctx.attempt(lambda: s @ n).ok, 'a negative count is accepted')
        return
    k = n * int(fmt[:-1] or 1)
    if fmt[-1] == 'p' and k == 0:
        return  # struct itself cannot unpack '0p'
    o = ctx.attempt(lambda: s @ n)
    ctx.check(o.ok, f'fails: {o!r}' if not o.ok else '')
    want = f'{order}{k}{fmt[-1]}'
    values = [ctx.blob('v', 0 if fmt[-1] == 'p' else k, max(k - 1, 0) if fmt[-1] == 'p' else k)] if fmt[-1] != 'x' else []
    if not action:
        struct_like(ctx, o.value, want, values, f'{fmt} @ {n}')
        return
    p = ctx.attempt(struct.pack, want, *values)
    data = p.value
    for how in ('unpack', 'unpack_from', 'unpack_read', 'added'):
        s = o.value
        if how == 'unpack':
            u = ctx.attempt(lambda: tuple(s.unpack(data)))
        elif how == 'unpack_from':
            u = ctx.attempt(lambda: tuple(s.unpack_from(b'\1' + data, 1)))
        elif how == 'unpack_read':
            u = ctx.attempt(lambda: tuple(s.unpack_read(io.BytesIO(data))))
        else:
            u = ctx.attempt(lambda: tuple((lib.StructSerializer('B', bo) + s + lib.StructSerializer('B', bo)).unpack(b'\1' + data + b'\2')))
        want_values = tuple(S.Wrap(v) for v in struct.unpack(want, data))
        want_values = (1, *want_values, 2) if how == 'added' else want_values
        ctx.check(u.ok and ctx.same(u.value, want_values), f'{fmt} @ {n}: {how} does not convert the value once: {u!r}')


def mixed(ctx, first, second, o1, o2):
    """Struct serializers of two byte orders cannot be added."""
    b = S.Builder(ctx.lib)
    p, q = Part(b, first, o1).serializer, Part(b, second, o2).serializer
    r = ctx.attempt(lambda: p + q)
    ctx.note(o1 + o2)
    ctx.check(not r.ok and isinstance(r.exc, ValueError), f'adding {o1 or "default"} and {o2 or "default"}: {r!r}')
