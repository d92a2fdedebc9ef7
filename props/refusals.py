"""C26: hints that cannot be serialized are refused where they are written,
and all others are taken."""
import math
from typing import Annotated, Any, Generic, Optional, TypeVar, Union

from . import shapes as S
from .classes import run


def declare(lib, hint, order='<'):
    """The class with a field of that hint between two others."""
    ns = {'lib': lib, 'H': hint, 'BO': S.Builder(lib).order(order)}
    run('class K(lib.Structured, byte_order=BO):\n    a: lib.uint8\n    x: H\n    z: lib.uint16\n', ns)
    return ns['K']


def refused(ctx, make, bad, what):
    """make() must raise TypeError / ValueError if bad, and nothing otherwise."""
    r = ctx.attempt(make)
    if bad:
        ctx.check(not r.ok, f'{what} is accepted')
        ctx.check(isinstance(r.exc, (TypeError, ValueError)), f'{what} raises {r!r}')
    else:
        ctx.check(r.ok, f'{what} is refused: {r!r}' if not r.ok else '')
    return r


COUNTED = {
    'char': lambda lib, n: lib.char[n],
    'unicode': lambda lib, n: lib.unicode[n],
    'codec': lambda lib, n: lib.unicode[n, 'utf-16-le'],
    'pad': lambda lib, n: lib.pad[n],
    'pascal': lambda lib, n: lib.pascal[n],
    'Header': lambda lib, n: lib.array[lib.Header[n], lib.uint8],
    'items': lambda lib, n: lib.array[lib.Header[n], lib.char[lib.uint8]],
    'sized': lambda lib, n: lib.array[lib.Header[n, lib.uint16], lib.uint8],
    'multiplied': lambda lib, n: Annotated[Any, lib.StructSerializer('s') @ n],
}
AROUND = {
    'field': lambda lib, h: h,
    'annotated': lambda lib, h: Annotated[object, h],
    'tuple': lambda lib, h: tuple[lib.uint8, h],
    'array': lambda lib, h: lib.array[lib.Header[2], tuple[lib.uint8, h]],
    'union': lambda lib, h: Annotated[Union[tuple[lib.uint8, h], lib.uint8], lib.LookbackDecider(lambda o: o.a, {1: tuple[lib.uint8, h]}, lib.uint8)],
    'condition': lambda lib, h: Annotated[tuple[lib.uint8, h], lib.Condition(lambda o: True, ())],
}


def count(ctx, kind, around, most=70000):
    """A declared length: exactly the numbers that are not negative."""
    lib = ctx.lib
    n = ctx.int('n', -most, most)
    if kind == 'pascal':
        ctx.assume(n != 0)  # CPython's struct cannot unpack '0p'
    r = refused(ctx, lambda: declare(lib, AROUND[around](lib, COUNTED[kind](lib, n))), bool(n < 0), f'{kind} of n in {around}')
    if r.ok:
        wanted = ('a', 'z') if kind == 'pad' and around in ('field', 'annotated') else ('a', 'x', 'z')
        ctx.check(r.value.attrs == wanted, f'{kind} of n in {around}: attrs {r.value.attrs}')


def terminator(ctx, kind, around, n):
    """A terminator is one byte, whichever."""
    lib = ctx.lib
    t = ctx.bytes('terminator', n)
    make = {'char': lambda: lib.char[t], 'unicode': lambda: lib.unicode[t], 'codec': lambda: lib.unicode[t, 'latin-1']}[kind]
    refused(ctx, lambda: declare(lib, AROUND[around](lib, make())), n != 1, f'{kind} with a terminator of {n} bytes in {around}')


def unlike(ctx, kind, around, first):
    """A length that is no int is refused, also after one equal to it."""
    lib = ctx.lib
    make = COUNTED[kind]
    f = ctx.float('f', 'd', nan=True)
    if first:
        n = ctx.int('n', 1, 40)
        refused(ctx, lambda: declare(lib, AROUND[around](lib, make(lib, n))), False, f'{kind} of n in {around}')
    # math.inf is what is used for the rest of the buffer
    endless = kind in ('char', 'unicode', 'codec') and bool(f == math.inf)
    refused(ctx, lambda: AROUND['annotated'](lib, make(lib, f)) if endless else declare(lib, AROUND[around](lib, make(lib, f))), not endless, f'{kind} of a float in {around}')


def views(ctx, kind, first):
    """A terminator that is no bytes object is refused, also after one equal to it."""
    lib = ctx.lib
    t, s = ctx.bytes('terminator', 1), ctx.bytes('other', 1)
    make = {'char': lambda t: lib.char[t], 'unicode': lambda t: lib.unicode[t], 'codec': lambda t: lib.unicode[t, 'latin-1']}[kind]
    if first:
        refused(ctx, lambda: declare(lib, make(t)), False, f'{kind} with a terminator')
    refused(ctx, lambda: declare(lib, make(memoryview(s))), True, f'{kind} with a memoryview for a terminator')


class Nothing:
    pass


# names of hints, and whether they are serializable
GOOD = ['uint8', 'int16', 'uint64', 'float32', 'bool8', 'char3', 'charH', 'net', 'term', 'text', 'pascal4', 'tuple', 'array3', 'nested', 'custom', 'factory', 'lookback',
        'lookahead', 'condition', 'again', 'user', 'unhashable']
BAD = ['int', 'str', 'bytes', 'list', 'None', 'class', 'union', 'optional', 'number', 'open tuple', 'bad tuple', 'empty annotated', 'Header', 'any', 'instance', 'float number', 'zero', 'no items']
UNINDEXED = ['char', 'unicode', 'array', 'pad', 'pascal']


def hint(lib, name):
    u8, dec = lib.uint8, lib.LookbackDecider(lambda o: 0, {0: lib.uint8}, lib.uint16)
    if name in UNINDEXED:
        return getattr(lib, name)
    if name == 'nested':
        return declare(lib, lib.uint8)
    if name == 'unhashable':
        return Annotated[bytes, S.own_serializer(lib, 'd', 'B')]
    if name == 'user':
        return Annotated[bytes, S.own_serializer(lib, 'l', 'B')]
    if name in ('uint8', 'uint16', 'uint32', 'uint64', 'int8', 'int16', 'int32', 'int64', 'float16', 'float32', 'float64', 'bool8'):
        return getattr(lib, name)
    return {
        'char3': lambda: lib.char[3], 'charH': lambda: lib.char[lib.uint16], 'net': lambda: lib.char[lib.NET], 'term': lambda: lib.char[b'\n'],
        'text': lambda: lib.unicode[lib.uint8], 'pascal4': lambda: lib.pascal[4], 'tuple': lambda: tuple[u8, lib.char[u8]],
        'array3': lambda: lib.array[lib.Header[u8], lib.uint16], 'custom': lambda: Annotated[Nothing, lib.SerializeAs(u8)],
        'factory': lambda: Annotated[Nothing, lib.SerializeAs(u8).with_factory(lambda v: v)], 'lookback': lambda: Annotated[Union[u8, lib.uint16], dec],
        'lookahead': lambda: Annotated[Union[u8, lib.uint16], lib.LookaheadDecider(u8, lambda o: 0, {0: u8}, lib.uint16)],
        'condition': lambda: Annotated[u8, lib.Condition(lambda o: True, 0)], 'again': lambda: Annotated[int, Annotated[int, u8]],
        'pad': lambda: lib.pad[1], 'two pads': lambda: lib.pad[2],
        'int': lambda: int, 'str': lambda: str, 'bytes': lambda: bytes, 'list': lambda: list[int], 'None': lambda: None, 'class': lambda: Nothing, 'union': lambda: Union[u8, lib.uint16],
        'optional': lambda: Optional[u8], 'number': lambda: 5, 'open tuple': lambda: tuple[u8, ...], 'bad tuple': lambda: tuple[u8, int], 'empty annotated': lambda: Annotated[int, 'note'],
        'Header': lambda: lib.Header[2], 'any': lambda: Any, 'instance': lambda: Nothing(), 'float number': lambda: 2.5, 'zero': lambda: 0, 'no items': lambda: (),
    }[name]()


UINTS = ['uint8', 'uint16', 'uint32', 'uint64']
BASICS = UINTS + ['int8', 'int16', 'int32', 'int64', 'float16', 'float32', 'float64', 'bool8']


def place(lib, name, h):
    """Uses h in the place."""
    u8 = lib.uint8
    return {
        'item': lambda: lib.array[lib.Header[2], h],
        'counted item': lambda: lib.array[lib.Header[u8], h],
        'sized item': lambda: lib.array[lib.Header[2, u8], h],
        'lookback member': lambda: lib.LookbackDecider(lambda o: 0, {0: h}),
        'lookback second': lambda: lib.LookbackDecider(lambda o: 0, {0: u8, 1: h}, u8),
        'lookback default': lambda: lib.LookbackDecider(lambda o: 0, {0: u8}, h),
        'lookahead member': lambda: lib.LookaheadDecider(u8, lambda o: 0, {0: h}),
        'lookahead default': lambda: lib.LookaheadDecider(u8, lambda o: 0, {0: u8}, h),
        'generic base': lambda: generic(lib, h),
        'generic field': lambda: declare(lib, open_generic(lib)[h]),
        'generic item': lambda: declare(lib, lib.array[lib.Header[2], open_generic(lib)[h]]),
        'generic member': lambda: declare(lib, tuple[u8, open_generic(lib)[h]]),
        'read ahead': lambda: lib.LookaheadDecider(h, lambda o: 0, {0: u8}),
        'condition': lambda: declare(lib, Annotated[h, lib.Condition(lambda o: True, 0)]),
        'as': lambda: lib.SerializeAs(h),
        'count': lambda: lib.Header[h],
        'count and size': lambda: lib.Header[h, u8],
        'size': lambda: lib.Header[2, h],
        'size and count': lambda: lib.Header[u8, h],
        'length': lambda: lib.char[h],
        'text length': lambda: lib.unicode[h],
        'header': lambda: lib.array[h, u8],
        'decided': lambda: declare(lib, Annotated[h, lib.LookbackDecider(lambda o: 0, {0: u8}, u8)]),
        'looked at': lambda: declare(lib, Annotated[h, lib.LookaheadDecider(u8, lambda o: 0, {0: u8}, u8)]),
    }[name]()


MEMBERS = ['item', 'counted item', 'sized item', 'lookback member', 'lookback second', 'lookback default', 'lookahead member', 'lookahead default', 'condition']


def taken(where, name):
    """Whether a hint is taken in a place; None: not specified."""
    if where.startswith('generic'):
        return True if name in GOOD or name in BASICS else None
    if where in MEMBERS or where == 'read ahead':
        if name in UNINDEXED or name in BAD:
            # None as a default: no default
            return True if name == 'None' and where.endswith('default') else False
        if name in ('pad', 'two pads'):
            return False if where.startswith('look') else None
        return True
    if where == 'as':
        return {'char3': True, 'pascal4': True, 'pad': False, 'two pads': False, 'custom': None, 'factory': None, 'again': True}.get(name, name in BASICS)
    if where in ('count', 'count and size', 'size', 'size and count'):
        if name in ('number', 'zero'):
            return where.startswith('count')
        if name == 'None' and where in ('size', 'size and count'):
            return None
        return name in UINTS
    if where in ('length', 'text length'):
        return name in UINTS or name in ('number', 'zero')
    if where == 'header':
        return name == 'Header'
    if where in ('decided', 'looked at'):
        # a union of serializable types is taken; what is no union is refused
        if name == 'union':
            return True
        return None if name in ('optional', 'lookback', 'lookahead', 'condition') else False
    raise ValueError(where)


def placed(ctx, where, names):
    lib = ctx.lib
    name = ctx.choose('hint', names)
    want = taken(where, name)
    if want is None:
        return
    h = hint(lib, name)
    if not want and where in ('length', 'text length'):
        # bytes are a terminator, typevars a parameter: neither is in the lists
        pass
    refused(ctx, lambda: place(lib, where, h), not want, f'{name} as {where}')


def unindexed(ctx, around):
    """char, unicode, array, pad, pascal without a length."""
    lib = ctx.lib
    h = getattr(lib, ctx.choose('type', UNINDEXED))
    more = {'generic': lambda: generic(lib, h), 'generic array': lambda: generic(lib, lib.array[lib.Header[1], h]), 'second': lambda: declare(lib, Annotated[object, h]),
            'member': lambda: lib.LookbackDecider(lambda o: 0, {0: h}), 'custom': lambda: lib.SerializeAs(h), 'inherited': lambda: inherited(lib, h)}
    refused(ctx, more.get(around) or (lambda: declare(lib, AROUND[around](lib, h))), True, f'{h.__name__} without a length ({around})')


def generic(lib, arg):
    ns = {'lib': lib, 'T': TypeVar('T'), 'Generic': Generic, 'arg': arg}
    run('class G(Generic[T], lib.Structured):\n    a: lib.uint8\n    x: T\nclass K(G[arg]): pass\n', ns)
    return ns['K']


def open_generic(lib):
    ns = {'lib': lib, 'T': TypeVar('T'), 'Generic': Generic}
    run('class G(Generic[T], lib.Structured):\n    a: lib.uint8\n    x: T\n', ns)
    return ns['G']


def inherited(lib, h):
    ns = {'lib': lib, 'h': h}
    run('class B(lib.Structured):\n    a: lib.uint8\n    x: lib.uint8\nclass K(B):\n    x: h\n', ns)
    return ns['K']


def defaults(ctx, inner, around):
    """A Condition has as many defaults as the hint has values."""
    lib = ctx.lib
    h, values = {'uint8': (lib.uint8, 1), 'char': (lib.char[lib.uint8], 1), 'tuple': (tuple[lib.uint8, lib.uint8], 1), 'array': (lib.array[lib.Header[2], lib.uint8], 1),
                 'pad': (lib.pad[2], 0), 'pair': (Annotated[object, lib.StructSerializer('BH')], 2), 'three': (Annotated[object, lib.StructSerializer('3B')], 3),
                 'nested': (hint(lib, 'nested'), 1), 'custom': (hint(lib, 'custom'), 1), 'union': (hint(lib, 'lookback'), 1), 'twice': (hint(lib, 'condition'), 1)}[inner]
    n = ctx.choose('defaults', range(6))
    c = Annotated[h, lib.Condition(lambda o: True, *[0] * n)]
    if around == 'field' and values > 1:
        around = 'tuple'
    refused(ctx, lambda: declare(lib, AROUND[around](lib, c)), n != values, f'Condition on {inner} with {n} defaults')


def arguments(ctx, kind, n):
    """The number of arguments in brackets."""
    lib = ctx.lib
    args = tuple([lib.uint8, lib.uint16, lib.uint32, lib.uint64][:n])
    if n == 1 and kind != 'array':
        args = args[0]
    if kind == 'Header':
        refused(ctx, lambda: lib.Header[args], n not in (1, 2), f'Header with {n} arguments')
    elif kind == 'array':
        refused(ctx, lambda: lib.array[(lib.Header[2],) + args], n != 1, f'array with {n + 1} arguments')
    elif kind == 'char':
        refused(ctx, lambda: lib.char[args], n != 1, f'char with {n} arguments')
    else:
        refused(ctx, lambda: lib.unicode[(lib.uint8,) + ('utf-8', 'latin-1', 'ascii')[:n]], n > 1, f'unicode with {n + 1} arguments')


def encodings(ctx, around):
    """unicode takes the name of a codec or an EncoderDecoder, nothing else."""
    lib = ctx.lib

    class Codec(lib.EncoderDecoder):
        @classmethod
        def encode(cls, s):
            return s.encode()

        @classmethod
        def decode(cls, b):
            return b.decode()

    class Alike:
        encode = Codec.encode
        decode = Codec.decode

    k = ctx.choose('encoding', range(9))
    e, good = [('utf-8', True), (Codec, True), (Codec(), True), (None, False), (5, False), (Alike, False), (Nothing, False), (b'utf-8', False), (int, False)][k]
    arg = ctx.choose('length', range(3))
    refused(ctx, lambda: declare(lib, AROUND[around](lib, lib.unicode[[lib.uint8, 3, b'\0'][arg], e])), not good, f'unicode with the encoding {e!r}')


def ignored(ctx, name):
    """A hint that is not serializable makes no field; the others stay."""
    lib = ctx.lib
    K = declare(lib, hint(lib, name))
    ctx.check(K.attrs == ('a', 'z'), f'{name}: attrs are {K.attrs}')
    a, z = ctx.int('a', 0, 255), ctx.int('z', 0, 65535)
    o = ctx.attempt(lambda: K(a, z).pack())
    ctx.check(o.ok and ctx.eq(o.value, bytes([a]) + z.to_bytes(2, 'little')), f'{name}: packs something else')


def joined(ctx, first, second, op):
    """Struct serializers of different byte orders cannot be joined."""
    lib = ctx.lib
    b = S.Builder(lib)
    orders = ['', '<', '>', '=', '@', '!']
    p, q = orders[ctx.choose('first order', range(6))], orders[ctx.choose('second order', range(6))]

    def make(kind, order):
        o = b.order(order)
        if kind == 'action':
            return lib.StructActionSerializer('B', o, (int,))
        if kind == 'chain':
            return lib.char[lib.uint8].__metadata__[0] + lib.StructSerializer('H', o)
        return lib.StructSerializer(kind, o)

    x, y = make(first, p), make(second, q)
    bad = p != q
    r = refused(ctx, lambda: x + y, bad, f'{first} of {p!r} + {second} of {q!r}')
    if r.ok:
        ctx.check(r.value.num_values == x.num_values + y.num_values, 'number of values')


def bases(ctx, order):
    """One serializable base at most; others do not matter."""
    lib = ctx.lib
    ns = {'lib': lib, 'BO': S.Builder(lib).order(order)}
    run('class A(lib.Structured, byte_order=BO):\n    a: lib.uint8\nclass B(lib.Structured, byte_order=BO):\n    b: lib.uint8\n'
        'class C(A, byte_order=BO):\n    c: lib.uint8\nclass P: pass\nclass Q: pass\n', ns)
    names = ['A', 'B', 'C', 'P', 'Q', 'lib.Structured']
    x, y = ctx.choose('one', names), ctx.choose('two', names)
    z = ctx.choose('three', ['P', 'B'])
    rows = [n for n in dict.fromkeys((x, y, z))]
    structured = [n for n in rows if n in 'ABC']
    if len(structured) == 0 or 'lib.Structured' in rows:
        return
    try:
        type('Plain', tuple(type(n, (), {}) for n in rows), {})
    except TypeError:
        return
    text = f'class K({", ".join(rows)}, byte_order=BO):\n    k: lib.uint8\n'
    refused(ctx, lambda: run(text, dict(ns)), len(structured) > 1, f'class with the bases {rows}')
