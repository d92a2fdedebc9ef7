"""C21: SerializeAs fields, each with a converter of its own."""
import io
from typing import Annotated, Generic, TypeVar, Union

from . import shapes as S
from .classes import run
from .common import PACKERS, UNPACKERS, do_pack, do_unpack
from .general import blank


class Kit:
    """Converters: numbered custom types and factories that record their calls."""

    def __init__(self):
        self.calls, self.n = [], 0

    def record(self, i, v):
        self.calls.append((i, v))

    def hint(self, lib, base, style):
        """A hint converting with the next converter."""
        i = self.n
        self.n += 1
        kit = self

        class Conv:
            def __init__(self, v):
                kit.record(i, v)
                self.v, self.i = v, i

            def __index__(self):
                return self.v

            def __float__(self):
                return self.v

            def __bool__(self):
                return bool(self.v)

        if style == 'type':
            return Annotated[Conv, lib.SerializeAs(base)]
        if style == 'factory':
            return Annotated[object, lib.SerializeAs(base).with_factory(lambda v: Conv(v))]

        class Maker:
            @classmethod
            def make(cls, v):
                return Conv(v)

        # a factory given for an annotated type that must not be called itself
        return Annotated[Never, lib.SerializeAs(base).with_factory(Maker.make)]


class Never:
    def __init__(self, *_):
        raise AssertionError('the annotated type is called in spite of its factory')


class As(S.As):
    """W field with a converter of its own."""

    def __init__(self, inner, kit, style):
        super().__init__(inner)
        self.kit, self.style, self.made = kit, style, None

    def hint(self, b):
        if self.made is None:
            self.number = self.kit.n
            self.made = self.kit.hint(b.lib, self.inner.hint(b), self.style)
        return self.made


def convert(f, kit, styles):
    """The field with W(..) replaced: (custom, plain)."""
    if type(f) is S.As:
        return As(f.inner, kit, next(styles)), f.inner
    if isinstance(f, S.Tup):
        both = [convert(x, kit, styles) for x in f.fields]
        return S.Tup([x for x, _ in both]), S.Tup([y for _, y in both])
    if isinstance(f, S.Arr):
        x, y = convert(f.item, kit, styles)
        return S.Arr(f.count, f.size, x), S.Arr(f.count, f.size, y)
    if isinstance(f, S.Nest):
        x, y = convert_shape(f.shape, kit, styles)
        return S.Nest(x), S.Nest(y)
    if isinstance(f, S.Lookback):
        ms = {k: convert(m, kit, styles) for k, m in f.members.items()}
        d = (None, None) if f.default is None else convert(f.default, kit, styles)
        return S.Lookback({k: m[0] for k, m in ms.items()}, d[0], f.tag), S.Lookback({k: m[1] for k, m in ms.items()}, d[1], f.tag)
    if isinstance(f, S.Cond):
        x, y = convert(f.inner, kit, styles)
        return S.Cond(x, f.always), S.Cond(y, f.always)
    return f, f


def convert_shape(sh, kit, styles):
    both = [(n, *convert(f, kit, styles)) for n, f in sh.fields]
    return (S.Shape(sh.order, [(n, x) for n, x, _ in both]), S.Shape(sh.order, [(n, y) for n, _, y in both]))


STYLES = ('type', 'factory', 'method')


def build(ctx, shape, style):
    kit = Kit()
    i = [STYLES.index(style)]

    def styles():
        while True:
            yield STYLES[i[0] % 3]
            i[0] += 1

    a, b = convert_shape(S.parse(shape), kit, styles())
    ctx.opts = {'maxlen': 3, 'chars': 1, 'items': 2}
    bx, by = S.Builder(ctx.lib), S.Builder(ctx.lib)
    return kit, a, bx, bx.cls(a), b, by, by.cls(b)


def pair_up(ctx, f, x, y, calls, values=None):
    """Conditions: x is what f makes of the plain y; expected calls collected."""
    if isinstance(f, As):
        if not hasattr(x, 'i'):
            return [False]
        calls.append((x.i, y))
        return [type(x).__name__ == 'Conv', ctx.same(x.v, y)]
    if isinstance(f, S.Tup):
        if not isinstance(x, tuple) or len(x) != len(y):
            return [False]
        fs = [g for g in f.fields if g.values]
        return sum((pair_up(ctx, g, p, q, calls, values) for g, p, q in zip(fs, x, y)), [])
    if isinstance(f, S.Arr):
        if not isinstance(x, list) or len(x) != len(y):
            return [False]
        return sum((pair_up(ctx, f.item, p, q, calls, values) for p, q in zip(x, y)), [])
    if isinstance(f, S.Nest):
        return pair_shape(ctx, f.shape, x, y, calls)
    if isinstance(f, S.Lookback):
        return pair_up(ctx, f.pick(values[f.tag]), x, y, calls, values)
    if isinstance(f, S.Cond):
        if not f.on(values):
            # the default is used as it is (of the plain class's hint it may differ)
            return []
        return pair_up(ctx, f.inner, x, y, calls, values)
    return [ctx.same(x, y)]


def pair_shape(ctx, shape, x, y, calls):
    out, values = [], {}
    for n, f in shape.fields:
        if not f.values:
            continue
        p, q = getattr(x, n), getattr(y, n)
        values[n] = q
        out += pair_up(ctx, f, p, q, calls, values)
    return out


def check_calls(ctx, kit, want, what):
    """Exactly the wanted (converter, value) calls, in any order."""
    ctx.check(len(kit.calls) == len(want), f'{what}: {len(kit.calls)} conversions, not {len(want)}')
    left = list(want)
    for i, v in kit.calls:
        mine = [k for k, (j, w) in enumerate(left) if j == i]
        ctx.check(bool(mine), f'{what}: converter {i} is applied to a value of another field')
        # calls of one converter come in the order of its values
        ctx.check(ctx.same(v, left[mine[0]][1]), f'{what}: converter {i} is applied to another value')
        left.pop(mine[0])


def unpacking(ctx, shape, n, style, how):
    kit, a, bx, X, b, by, Y = build(ctx, shape, style)
    data = ctx.blob('data', 0, n)
    v = ctx.attempt(do_unpack, Y, how, data)
    kit.calls.clear()
    u = ctx.attempt(do_unpack, X, how, data)
    ctx.check(u.ok == v.ok, f'{how}: with custom types {u!r}, without {v!r}' if u.ok != v.ok else '')
    if not u.ok:
        return
    want = []
    conds = pair_shape(ctx, a, u.value, v.value, want)
    ctx.check(ctx.all(*conds), f'{how}: not the values of the plain class, converted where a custom type is declared')
    ctx.check(X.serializer.size == Y.serializer.size, f'{how}: consumes something else')
    check_calls(ctx, kit, want, how)
    check_places(ctx, a, u.value, how)


def check_places(ctx, shape, o, what):
    """Every custom field holds an object of its own converter."""
    for n, f in shape.fields:
        if f.values:
            place(ctx, f, getattr(o, n), what, {m: getattr(o, m) for m, g in shape.fields if g.values})


def place(ctx, f, v, what, values):
    if isinstance(f, As):
        ctx.check(type(v).__name__ == 'Conv' and v.i == f.number, f'{what}: converted by the converter of another field')
    elif isinstance(f, S.Tup):
        for g, x in zip([g for g in f.fields if g.values], v):
            place(ctx, g, x, what, values)
    elif isinstance(f, S.Arr):
        for x in v:
            place(ctx, f.item, x, what, values)
    elif isinstance(f, S.Nest):
        check_places(ctx, f.shape, v, what)
    elif isinstance(f, S.Lookback):
        t = values[f.tag]
        place(ctx, f.pick(t.v if hasattr(t, 'v') else t), v, what, values)
    elif isinstance(f, S.Cond):
        if f.on(values):
            place(ctx, f.inner, v, what, values)


def packing(ctx, shape, style, depth=1):
    """Custom values pack like the plain values they stand for."""
    kit, a, bx, X, b, by, Y = build(ctx, shape, style)
    y = S.make_value(ctx, by, b)
    try:
        data = S.encode(ctx, b, y)
    except S.Reject:
        ctx.assume(False)
    u = ctx.attempt(X.create_unpack, data)
    ctx.check(u.ok, f'{u!r}' if not u.ok else '')
    x = u.value
    kit.calls.clear()
    for how in PACKERS:
        o = ctx.attempt(do_pack, x, how)
        ctx.check(o.ok and ctx.eq(o.value, data), f'{how}: packs other than the basic type {o!r}' if not o.ok else f'{how}: packs other than the basic type')
        ctx.check(not kit.calls, f'{how} converts values')
        ctx.check(X.serializer.size == len(data), f'{how}: size is not the number of bytes packed')
    z = X(*[getattr(x, n) for n in X.attrs])
    ctx.check(not kit.calls, 'the initializer converts values')


def turned(ctx, shape, n, style, order):
    """with_byte_order keeps the conversions."""
    kit, a, bx, X, b, by, Y = build(ctx, shape, style)
    data = ctx.blob('data', 0, n)
    bo = bx.order(order)
    how = ctx.choose('unpack', ('unpack', 'unpack_from', 'unpack_read'))
    x, y = blank(X).with_byte_order(bo), blank(Y).with_byte_order(bo)
    kit.calls.clear()
    v = ctx.attempt(into, y, how, data)
    u = ctx.attempt(into, x, how, data)
    ctx.check(u.ok == v.ok, f'{how}: with custom types {u!r}, without {v!r}' if u.ok != v.ok else '')
    if not u.ok:
        return
    want = []
    conds = pair_shape(ctx, a, x, y, want)
    ctx.check(ctx.all(*conds), f'{how} after with_byte_order: not the values of the plain class, converted where a custom type is declared')
    check_calls(ctx, kit, want, how)
    check_places(ctx, a, x, how)
    if 'W(c' in shape or 'W(p' in shape:
        return  # (the custom type is no byte string)
    o, p = ctx.attempt(x.pack), ctx.attempt(y.pack)
    ctx.check(o.ok == p.ok, f'pack: with custom types {o!r}, without {p!r}' if o.ok != p.ok else '')
    if o.ok:
        ctx.check(ctx.eq(o.value, p.value), 'pack after with_byte_order: other than the basic types')


def into(o, how, data):
    if how == 'unpack':
        o.unpack(data)
    elif how == 'unpack_from':
        o.unpack_from(data)
    else:
        o.unpack_read(io.BytesIO(data))


VIA = {
    'subclass': 'class Base(lib.Structured, byte_order=BO):\n    a: lib.uint8\n    b: C0\nclass K(Base, byte_order=BO):\n    c: C1\n    d: lib.uint16\n',
    'override': 'class Base(lib.Structured, byte_order=BO):\n    a: lib.uint8\n    b: lib.uint8\n    c: C1\n    d: lib.uint16\nclass K(Base, byte_order=BO):\n    b: C0\n',
    'generic': 'class Base(Generic[P, R], lib.Structured, byte_order=BO):\n    a: lib.uint8\n    b: P\n    c: R\n    d: lib.uint16\nclass K(Base[C0, C1], byte_order=BO): pass\n',
    'turned base': 'class Base(lib.Structured, byte_order=OTHER):\n    a: lib.uint8\n    b: C0\n'
                   'class K(Base, byte_order=BO, byte_order_mode=lib.ByteOrderMode.OVERRIDE):\n    c: C1\n    d: lib.uint16\n',
    'twice': 'class First(lib.Structured, byte_order=BO):\n    b: C0\n    c: C0\n    x: C1\nclass K(lib.Structured, byte_order=BO):\n    a: lib.uint8\n    b: C0\n    c: C1\n    d: lib.uint16\n',
}


def via(ctx, kind, base, order, style, how, n):
    """Custom fields reached through inheritance, overriding and generics."""
    lib, kit = ctx.lib, Kit()
    b = S.Builder(lib)
    codes = [S.Parser(c).field() for c in base]
    hints = [kit.hint(lib, f.hint(b), STYLES[(STYLES.index(style) + i) % 3]) for i, f in enumerate(codes)]
    ns = {'lib': lib, 'C0': hints[0], 'C1': hints[1], 'BO': b.order(order), 'OTHER': b.order('<' if order == '>' else '>'), 'Generic': Generic,
          'P': TypeVar('P'), 'R': TypeVar('R')}
    run(VIA[kind], ns)
    K = ns['K']
    flat = S.Shape(order, [('a', S.Basic('B')), ('b', codes[0]), ('c', codes[1]), ('d', S.Basic('H'))])
    Y = b.cls(flat)
    data = ctx.blob('data', 0, n)
    v = ctx.attempt(do_unpack, Y, how, data)
    kit.calls.clear()
    u = ctx.attempt(do_unpack, K, how, data)
    ctx.check(u.ok == v.ok, f'{how}: with custom types {u!r}, without {v!r}' if u.ok != v.ok else '')
    if not u.ok:
        return
    x, y = u.value, v.value
    ctx.check(ctx.same([x.a, x.d], [y.a, y.d]), f'{how}: a field without custom type is converted')
    for i, name in ((0, 'b'), (1, 'c')):
        c = getattr(x, name)
        ctx.check(type(c).__name__ == 'Conv' and c.i == i and ctx.same(c.v, getattr(y, name)), f'{how}: {name} is not converted as declared')
    check_calls(ctx, kit, [(0, y.b), (1, y.c)], how)
    for m in PACKERS if not any('c' in c or 'p' in c for c in base) else ():
        o, p = ctx.attempt(do_pack, x, m), ctx.attempt(do_pack, y, m)
        ctx.check(o.ok == p.ok and (not o.ok or ctx.eq(o.value, p.value)), f'{m}: packs other than the basic type')
