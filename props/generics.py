"""C15: specialized generic classes behave like hand-written ones.

A case is the source of a module that defines C, and the source of the same
class written by hand (F).  Types are written `...` in the shape grammar; the
concrete types put for the type variables are {0}, {1}, ... so that every case
is tried with several of them.
"""
import re
import typing
from typing import Annotated, ClassVar, Generic, Tuple, TypeVar, Union

from . import shapes as S
from .classes import namespace, run
from .common import PACKERS, UNPACKERS, alike, both_fail_or, do_pack, do_unpack, values_of

COMMON = '''
class Item(Generic[T], lib.Structured):
    x: T
class Pair(Generic[T, U], lib.Structured):
    a: T
    b: U
class Three(Generic[T, U, V], lib.Structured):
    p: V
    q: T
    r: U
'''
# name: (source, hand-written source); st is lib.Structured
CASES = {
    'subclass': ('class C(Item[{0}]): pass', 'class F(st):\n    x: {0}'),
    'subclass more': ('class C(Pair[{0}, {1}]):\n    c: {2}', 'class F(st):\n    a: {0}\n    b: {1}\n    c: {2}'),
    'three': ('class C(Three[{0}, {1}, {2}]): pass', 'class F(st):\n    p: {2}\n    q: {0}\n    r: {1}'),
    'hint': ('class C(st):\n    a: Item[{0}]\n    b: {1}', 'class I(st):\n    x: {0}\nclass F(st):\n    a: I\n    b: {1}'),
    'pair hint': ('class C(st):\n    a: Pair[{0}, {1}]\n    b: {2}', 'class I(st):\n    a: {0}\n    b: {1}\nclass F(st):\n    a: I\n    b: {2}'),
    'hints': ('class C(st):\n    p: Pair[{0}, {1}]\n    q: Pair[{1}, {0}]\n    r: Pair[{0}, {1}]',
              'class I(st):\n    a: {0}\n    b: {1}\nclass J(st):\n    a: {1}\n    b: {0}\nclass F(st):\n    p: I\n    q: J\n    r: I'),
    'swap': ('class O(Pair[U, T], Generic[T, U]):\n    c: T\nclass C(O[{0}, {1}]): pass', 'class F(st):\n    a: {1}\n    b: {0}\n    c: {0}'),
    'levels': ('class O(Pair[U, T], Generic[T, U]):\n    c: T\nclass P(O[V, {0}], Generic[V]):\n    d: V\nclass C(P[{1}]): pass',
               'class F(st):\n    a: {0}\n    b: {1}\n    c: {1}\n    d: {1}'),
    'levels swapped': ('class O(Pair[U, T], Generic[T, U]):\n    c: T\nclass P(O[V, W], Generic[W, V]):\n    d: V\nclass C(P[{0}, {1}]): pass',
                       'class F(st):\n    a: {0}\n    b: {1}\n    c: {1}\n    d: {1}'),
    'rotate': ('class O(Three[V, T, U], Generic[T, U, V]): pass\nclass C(O[{0}, {1}, {2}]): pass', 'class F(st):\n    p: {1}\n    q: {2}\n    r: {0}'),
    'rotate twice': ('class O(Three[V, T, U], Generic[T, U, V]): pass\nclass P(O[U, V, T], Generic[U, T, V]):\n    s: U\nclass C(P[{0}, {1}, {2}]): pass',
                     'class F(st):\n    p: {2}\n    q: {1}\n    r: {0}\n    s: {0}'),
    'duplicate': ('class O(Pair[T, T], Generic[T]): pass\nclass C(O[{0}]): pass', 'class F(st):\n    a: {0}\n    b: {0}'),
    'partial': ('class O(Pair[{0}, T], Generic[T]):\n    c: T\nclass C(O[{1}]): pass', 'class F(st):\n    a: {0}\n    b: {1}\n    c: {1}'),
    'implicit': ('class O(Pair[T, {0}]): pass\nclass C(O[{1}]): pass', 'class F(st):\n    a: {1}\n    b: {0}'),
    'implicit two': ('class O(Pair[T, U]):\n    c: T\nclass C(O[{0}, {1}]): pass', 'class F(st):\n    a: {0}\n    b: {1}\n    c: {0}'),
    'middle class': ('class M(Pair[{0}, {1}]):\n    c: {2}\nclass C(M):\n    d: {0}', 'class F(st):\n    a: {0}\n    b: {1}\n    c: {2}\n    d: {0}'),
    'generic of concrete': ('class A(Pair[{0}, {1}]): pass\nclass O(A, Generic[T]):\n    c: T\nclass C(O[{2}]): pass',
                            'class F(st):\n    a: {0}\n    b: {1}\n    c: {2}'),
    'override': ('class C(Pair[{0}, {1}]):\n    a: {2}', 'class F(st):\n    a: {2}\n    b: {1}'),
    'override none': ('class C(Pair[{0}, {1}]):\n    a: None\n    c: {2}', 'class F(st):\n    b: {1}\n    c: {2}'),
    'level override': ('class O(Pair[U, T], Generic[T, U]):\n    b: {2}\nclass C(O[{0}, {1}]): pass', 'class F(st):\n    a: {1}\n    b: {2}'),
    'level override variable': ('class O(Pair[U, T], Generic[T, U]):\n    a: T\nclass C(O[{0}, {1}]): pass', 'class F(st):\n    a: {0}\n    b: {0}'),
    'fixed fields': ('class O(Generic[T], st):\n    n: {1}\n    a: T\n    m: {2}\nclass C(O[{0}]): pass', 'class F(st):\n    n: {1}\n    a: {0}\n    m: {2}'),
    'pads': ('class O(Generic[T], st):\n    _: lib.pad[1]\n    a: T\n    _: lib.pad[2]\n    b: {1}\nclass C(O[{0}]):\n    _: lib.pad[1]\n    d: {1}',
             'class F(st):\n    _: lib.pad[1]\n    a: {0}\n    _: lib.pad[2]\n    b: {1}\n    _: lib.pad[1]\n    d: {1}'),
    'class variable': ('class O(Generic[T], st):\n    k: ClassVar[int] = 3\n    a: T\nclass C(O[{0}]): pass', 'class F(st):\n    a: {0}'),
    'order of bases': ('class O(st, Generic[T]):\n    a: T\nclass C(O[{0}]): pass', 'class F(st):\n    a: {0}'),
    'inside tuple': ('class O(Generic[T], st):\n    a: tuple[T, {1}]\n    b: T\nclass C(O[{0}]): pass', 'class F(st):\n    a: tuple[{0}, {1}]\n    b: {0}'),
    'inside Tuple': ('class O(Generic[T], st):\n    a: Tuple[{1}, T]\nclass C(O[{0}]): pass', 'class F(st):\n    a: tuple[{1}, {0}]'),
    'inside tuples': ('class O(Generic[T, U], st):\n    a: tuple[tuple[T, U], tuple[U, tuple[T]]]\nclass C(O[{0}, {1}]): pass',
                      'class F(st):\n    a: tuple[tuple[{0}, {1}], tuple[{1}, tuple[{0}]]]'),
    'array item': ('class O(Generic[T], st):\n    a: lib.array[lib.Header[2], T]\n    b: {1}\nclass C(O[{0}]): pass',
                   'class F(st):\n    a: lib.array[lib.Header[2], {0}]\n    b: {1}'),
    'array item counted': ('class O(Generic[T], st):\n    a: lib.array[lib.Header[lib.uint8, lib.uint8], T]\n    b: {1}\nclass C(O[{0}]): pass',
                           'class F(st):\n    a: lib.array[lib.Header[lib.uint8, lib.uint8], {0}]\n    b: {1}'),
    'array count': ('class O(Generic[T], st):\n    a: lib.array[lib.Header[T], {1}]\n    b: {1}\nclass C(O[{int}]): pass',
                    'class F(st):\n    a: lib.array[lib.Header[{int}], {1}]\n    b: {1}'),
    'array count and size': ('class O(Generic[T, U], st):\n    a: lib.array[lib.Header[U, T], {1}]\nclass C(O[{int}, {int2}]): pass',
                             'class F(st):\n    a: lib.array[lib.Header[{int2}, {int}], {1}]'),
    'array size': ('class O(Generic[T], st):\n    a: lib.array[lib.Header[2, T], {1}]\nclass C(O[{int}]): pass',
                   'class F(st):\n    a: lib.array[lib.Header[2, {int}], {1}]'),
    'array count and item': ('class O(Generic[T, U], st):\n    a: lib.array[lib.Header[T], U]\nclass C(O[{int}, {1}]): pass',
                             'class F(st):\n    a: lib.array[lib.Header[{int}], {1}]'),
    'array of tuples': ('class O(Generic[T], st):\n    a: lib.array[lib.Header[2], tuple[T, {1}]]\nclass C(O[{0}]): pass',
                        'class F(st):\n    a: lib.array[lib.Header[2], tuple[{0}, {1}]]'),
    'array of arrays': ('class O(Generic[T, U], st):\n    a: lib.array[lib.Header[lib.uint8], lib.array[lib.Header[U], T]]\nclass C(O[{0}, {int}]): pass',
                        'class F(st):\n    a: lib.array[lib.Header[lib.uint8], lib.array[lib.Header[{int}], {0}]]'),
    'array of items': ('class O(Generic[T], st):\n    a: lib.array[lib.Header[2], Item[T]]\nclass C(O[{0}]): pass',
                       'class I(st):\n    x: {0}\nclass F(st):\n    a: lib.array[lib.Header[2], I]'),
    'char': ('class O(Generic[T], st):\n    a: lib.char[T]\n    b: {1}\nclass C(O[{int}]): pass', 'class F(st):\n    a: lib.char[{int}]\n    b: {1}'),
    'unicode': ('class O(Generic[T], st):\n    a: lib.unicode[T]\n    b: {1}\nclass C(O[{int}]): pass', 'class F(st):\n    a: lib.unicode[{int}]\n    b: {1}'),
    'unicode codec': ('class O(Generic[T], st):\n    a: lib.unicode[T, "latin-1"]\nclass C(O[{int}]): pass', 'class F(st):\n    a: lib.unicode[{int}, "latin-1"]'),
    'tuple of char': ('class O(Generic[T, U], st):\n    a: tuple[lib.char[U], T]\nclass C(O[{0}, {int}]): pass', 'class F(st):\n    a: tuple[lib.char[{int}], {0}]'),
    'tuple of array': ('class O(Generic[T], st):\n    a: tuple[lib.array[lib.Header[2], T], T]\nclass C(O[{0}]): pass',
                       'class F(st):\n    a: tuple[lib.array[lib.Header[2], {0}], {0}]'),
    'item of variable': ('class O(Generic[T], st):\n    a: Item[T]\n    b: {1}\nclass C(O[{0}]): pass', 'class I(st):\n    x: {0}\nclass F(st):\n    a: I\n    b: {1}'),
    'item of variable hint': ('class O(Generic[T], st):\n    a: Item[T]\n    b: T\nclass C(st):\n    o: O[{0}]\n    p: O[{1}]',
                              'class I(st):\n    x: {0}\nclass J(st):\n    x: {1}\nclass G(st):\n    a: I\n    b: {0}\nclass H_(st):\n    a: J\n    b: {1}\nclass F(st):\n    o: G\n    p: H_'),
    'pair of variables': ('class O(Generic[T, U], st):\n    a: Pair[U, T]\nclass C(O[{0}, {1}]): pass', 'class I(st):\n    a: {1}\n    b: {0}\nclass F(st):\n    a: I'),
    'pair partly': ('class O(Generic[T], st):\n    a: Pair[{1}, T]\n    b: T\nclass C(O[{0}]): pass', 'class I(st):\n    a: {1}\n    b: {0}\nclass F(st):\n    a: I\n    b: {0}'),
    'nested hints': ('class C(st):\n    o: Pair[Item[{0}], {1}]', 'class I(st):\n    x: {0}\nclass J(st):\n    a: I\n    b: {1}\nclass F(st):\n    o: J'),
    'nested variables': ('class O(Generic[T], st):\n    a: Pair[Item[T], T]\nclass C(O[{0}]): pass',
                         'class I(st):\n    x: {0}\nclass J(st):\n    a: I\n    b: {0}\nclass F(st):\n    a: J'),
    'tuple of item': ('class O(Generic[T], st):\n    a: tuple[Item[T], {1}]\nclass C(O[{0}]): pass', 'class I(st):\n    x: {0}\nclass F(st):\n    a: tuple[I, {1}]'),
    'array of hints': ('class C(st):\n    o: lib.array[lib.Header[lib.uint8], Pair[{0}, {1}]]',
                       'class I(st):\n    a: {0}\n    b: {1}\nclass F(st):\n    o: lib.array[lib.Header[lib.uint8], I]'),
    'hint in tuple': ('class C(st):\n    o: tuple[Item[{0}], Item[{1}]]', 'class I(st):\n    x: {0}\nclass J(st):\n    x: {1}\nclass F(st):\n    o: tuple[I, J]'),
    'hint both ways': ('class O(Generic[T], st):\n    p: Item[T]\n    q: Item[{0}]\n    r: tuple[Item[T], Item[{0}]]\nclass C(O[{0}]): pass',
                       'class I(st):\n    x: {0}\nclass F(st):\n    p: I\n    q: I\n    r: tuple[I, I]'),
    'hint of a level': ('class O(Pair[U, T], Generic[T, U]):\n    c: T\nclass C(st):\n    o: O[{0}, {1}]', 'class I(st):\n    a: {1}\n    b: {0}\n    c: {0}\nclass F(st):\n    o: I'),
    'container argument': ('class C(Item[tuple[{0}, {1}]]): pass', 'class F(st):\n    x: tuple[{0}, {1}]'),
    'array argument': ('class C(Pair[lib.array[lib.Header[lib.uint8], {0}], {1}]): pass', 'class F(st):\n    a: lib.array[lib.Header[lib.uint8], {0}]\n    b: {1}'),
    'tuple for a base': ('class O(Pair[tuple[U, T], T], Generic[T, U]):\n    c: U\nclass C(O[{0}, {1}]): pass', 'class F(st):\n    a: tuple[{1}, {0}]\n    b: {0}\n    c: {1}'),
    'item for a base': ('class O(Pair[Item[U], T], Generic[T, U]):\n    c: U\nclass C(O[{0}, {1}]): pass',
                        'class I(st):\n    x: {1}\nclass F(st):\n    a: I\n    b: {0}\n    c: {1}'),
    'array for a base': ('class O(Pair[lib.array[lib.Header[U], T], T], Generic[T, U]): pass\nclass C(O[{0}, {int}]): pass',
                         'class F(st):\n    a: lib.array[lib.Header[{int}], {0}]\n    b: {0}'),
    'char for a base': ('class O(Pair[lib.char[U], lib.unicode[U]], Generic[U]): pass\nclass P(O[T], Generic[T]):\n    z: T\nclass C(P[{int}]): pass',
                        'class F(st):\n    a: lib.char[{int}]\n    b: lib.unicode[{int}]\n    z: {int}'),
    'argument of base twice': ('class O(Pair[tuple[T, U], U], Generic[T, U]): pass\nclass P(O[V, {2}], Generic[V]): pass\nclass C(P[{0}]): pass',
                               'class F(st):\n    a: tuple[{0}, {2}]\n    b: {2}'),
    'argument of a hint': ('class O(Pair[tuple[T, U], U], Generic[T, U]): pass\nclass C(st):\n    o: O[{0}, {1}]\n    p: O[{1}, {0}]',
                           'class I(st):\n    a: tuple[{0}, {1}]\n    b: {1}\nclass J(st):\n    a: tuple[{1}, {0}]\n    b: {0}\nclass F(st):\n    o: I\n    p: J'),
    'two generic bases': ('class M(Generic[T], st):\n    a: T\n    m: T\nclass O(M[U], Generic[U, T]):\n    a: T\nclass C(O[{0}, {1}]): pass', 'class F(st):\n    a: {1}\n    m: {0}'),
    'argument of item': ('class C(Pair[Item[{0}], {1}]): pass', 'class I(st):\n    x: {0}\nclass F(st):\n    a: I\n    b: {1}'),
    'self': ('class O(Generic[T], st):\n    a: T\n    b: lib.array[lib.Header[lib.uint8], Self]\nclass C(O[{0}]): pass',
             'class F(st):\n    a: {0}\n    b: lib.array[lib.Header[lib.uint8], Self]'),
    'generic base later': ('class O(Generic[T], st):\n    a: T\nclass D(O[{1}]):\n    z: {0}\nclass C(O[{0}]): pass', 'class F(st):\n    a: {0}'),
    'specialized before': ('class D(st):\n    a: Pair[{1}, {0}]\nclass C(Pair[{0}, {1}]): pass', 'class F(st):\n    a: {0}\n    b: {1}'),
    'base after': ('class C(Pair[{0}, {1}]): pass\nclass D(Pair[{1}, {0}]): pass\nclass E(st):\n    x: Pair[{2}, {2}]', 'class F(st):\n    a: {0}\n    b: {1}'),
    'hint after': ('class C(st):\n    p: Item[{0}]\nclass D(st):\n    p: Item[{1}]\nclass E(Item[{2}]): pass', 'class I(st):\n    x: {0}\nclass F(st):\n    p: I'),
}
ORDERED = {  # with byte orders of the generic class
    'ordered base': ('class O(Generic[T, U], st, byte_order=BE):\n    a: T\n    b: U\nclass C(O[{0}, {1}], byte_order=BE):\n    c: {2}',
                     'class F(st, byte_order=BE):\n    a: {0}\n    b: {1}\n    c: {2}'),
    'ordered hint': ('class O(Generic[T], st, byte_order=BE):\n    a: T\nclass C(st, byte_order=LE):\n    o: O[{0}]\n    b: {1}',
                     'class I(st, byte_order=BE):\n    a: {0}\nclass F(st, byte_order=LE):\n    o: I\n    b: {1}'),
    'override order': ('class O(Generic[T], st, byte_order=BE):\n    a: T\nclass N(O[T], Generic[T], byte_order=LE, byte_order_mode=OV):\n    b: T\n'
                       'class C(st):\n    p: N[{0}]\n    q: O[{1}]',
                       'class I(st, byte_order=LE):\n    a: {0}\n    b: {0}\nclass J(st, byte_order=BE):\n    a: {1}\nclass F(st):\n    p: I\n    q: J'),
    'ordered item': ('class O(Generic[T], st, byte_order=BE):\n    a: T\nclass P(Generic[T], st):\n    x: lib.array[lib.Header[2], O[T]]\n    y: T\nclass C(P[{0}]): pass',
                     'class I(st, byte_order=BE):\n    a: {0}\nclass F(st):\n    x: lib.array[lib.Header[2], I]\n    y: {0}'),
}
CASES.update(ORDERED)


def module(b, source, types, future=False, hints=None):
    """Executes source with the types put in; returns its namespace."""
    lib = b.lib
    hints = {} if hints is None else hints
    ns = namespace(lib=lib, st=lib.Structured, Generic=Generic, ClassVar=ClassVar, Annotated=Annotated, Union=Union, Tuple=Tuple,
                   Self=typing.Self, T=TypeVar('T'), U=TypeVar('U'), V=TypeVar('V'), W=TypeVar('W'), H=hints,
                   BE=lib.ByteOrder.BE, LE=lib.ByteOrder.LE, OV=lib.ByteOrderMode.OVERRIDE)

    def put(m):
        k = m.group(1)
        if k not in hints:
            hints[k] = S.Parser(types[k]).field().hint(b)
        return f'H["{k}"]'

    run(('from __future__ import annotations\n' if future else '') + COMMON + re.sub(r'\{(\w+)\}', put, source), ns)
    return ns


def same(ctx, c, f, data, what, pack=True):
    for how in ('create_unpack', 'unpack_from', 'create_unpack_read'):
        u, p = ctx.attempt(do_unpack, c, how, data), ctx.attempt(do_unpack, f, how, data)
        if both_fail_or(ctx, u, p, f'{what} {how}'):
            ctx.check(type(u.value) is c, f'{what} {how}: an object of another class')
            ctx.check(alike(ctx, u.value, p.value), f'{what} {how}: other values than the hand-written class')
            ctx.check(c.serializer.size == f.serializer.size, f'{what} {how}: other size')
    if u.ok:
        nested = [a for a in c.attrs if hasattr(type(getattr(u.value, a)), 'attrs')]
        for i, x in enumerate(nested):
            for y in nested[:i]:
                got = bool(getattr(u.value, x) == getattr(u.value, y))
                ctx.check(got == bool(getattr(p.value, x) == getattr(p.value, y)), f'{what}: {x} and {y} compare otherwise')
        for how in ('pack', 'pack_write'):
            x, y = ctx.attempt(do_pack, u.value, how), ctx.attempt(do_pack, p.value, how)
            if both_fail_or(ctx, x, y, f'{what} {how}'):
                ctx.check(ctx.eq(x.value, y.value), f'{what} {how}: other bytes than the hand-written class')


def case(ctx, name, types, n=8, future=False):
    """C against F: attrs, any input, and the bytes of what was read."""
    ctx.opts = {'maxlen': 300, 'items': 1, 'chars': 1}
    b = S.Builder(ctx.lib)
    source, hand = CASES[name]
    hints = {}
    c = module(b, source, types, future, hints)['C']
    f = module(b, hand, types, False, hints)['F']
    ctx.check(tuple(c.attrs) == tuple(f.attrs), f'attrs are {c.attrs}, not {f.attrs}')
    same(ctx, c, f, ctx.blob('data', 0, n), name)


def values(ctx, name, types, shape):
    """C packs arbitrary values like F (shape describes F for plain cases)."""
    ctx.opts = {'maxlen': 300, 'items': 1, 'chars': 1}
    b = S.Builder(ctx.lib)
    hints = {}
    c = module(b, CASES[name][0], types, False, hints)['C']
    f = module(b, CASES[name][1], types, False, hints)['F']
    fields = [(a, S.Parser(types[t]).field()) for a, t in zip(f.attrs, shape)]
    y = S.make_value(ctx, b, S.Shape('', fields), cls=f)
    x = c(*values_of(y, f.attrs))
    for how in PACKERS:
        u, p = ctx.attempt(do_pack, x, how), ctx.attempt(do_pack, y, how)
        if both_fail_or(ctx, u, p, how):
            ctx.check(ctx.eq(u.value, p.value), f'{how}: other bytes than the hand-written class')


def apart(ctx, first, second, how, n=6):
    """Specializations of one generic class, made in either order, used in
    turn, do not affect each other (nor the generic class)."""
    ctx.opts = {}
    b = S.Builder(ctx.lib)
    types = {'0': first, '1': second}
    make = {'sub': ('class X(Item[{0}]): pass', 'class Y(Item[{1}]): pass'),
            'hint': ('class X(st):\n    x: Item[{0}]', 'class Y(st):\n    x: Item[{1}]'),
            'mix': ('class X(Item[{0}]): pass', 'class Y(st):\n    x: Item[{1}]'),
            'level': ('class O(Pair[T, U], Generic[U, T]): pass\nclass X(O[{0}, {1}]): pass', 'class Y(Pair[{0}, {1}]): pass'),
            'array': ('class X(st):\n    x: lib.array[lib.Header[2], Item[{0}]]', 'class Y(st):\n    x: lib.array[lib.Header[2], Item[{1}]]')}
    a, c = make[how]
    turn = ctx.choose('order', (0, 1))
    ns = module(b, a + '\n' + c if turn else c + '\n' + a, types)
    hand = {'sub': ('class X(st):\n    x: {0}', 'class Y(st):\n    x: {1}'),
            'hint': ('class I(st):\n    x: {0}\nclass X(st):\n    x: I', 'class I(st):\n    x: {1}\nclass Y(st):\n    x: I'),
            'mix': ('class X(st):\n    x: {0}', 'class I(st):\n    x: {1}\nclass Y(st):\n    x: I'),
            'level': ('class X(st):\n    a: {1}\n    b: {0}', 'class Y(st):\n    a: {0}\n    b: {1}'),
            'array': ('class I(st):\n    x: {0}\nclass X(st):\n    x: lib.array[lib.Header[2], I]',
                      'class I(st):\n    x: {1}\nclass Y(st):\n    x: lib.array[lib.Header[2], I]')}[how]
    data = ctx.blob('data', 0, n)
    hints = ns['H']
    same(ctx, ns['X'], module(b, hand[0], types, hints=hints)['X'], data, f'{how}, first')
    same(ctx, ns['Y'], module(b, hand[1], types, hints=hints)['Y'], data, f'{how}, second')
    same(ctx, ns['X'], module(b, hand[0], types, hints=hints)['X'], data, f'{how}, first again')


ALIASES = {  # a hint with variables T, U; the class its hand-written form needs
    'header': ('lib.array[lib.Header[T], lib.uint8]', None), 'item': ('lib.array[lib.Header[2], U]', None),
    'both': ('lib.array[lib.Header[T], U]', None), 'sized': ('lib.array[lib.Header[U, T], lib.uint8]', None),
    'tuple': ('tuple[T, U]', None), 'tuples': ('tuple[tuple[T, U], U]', None), 'char': ('lib.char[T]', None), 'unicode': ('lib.unicode[T]', None),
    'unicode codec': ('lib.unicode[T, "latin-1"]', None), 'array of tuples': ('lib.array[lib.Header[2], tuple[U, T]]', None),
    'array of arrays': ('lib.array[lib.Header[T], lib.array[lib.Header[U], lib.uint8]]', None),
    'generic': ('Item[T]', 'x: T'), 'generics': ('Pair[U, T]', 'a: U\n    b: T'), 'generic of alias': ('Item[tuple[U, T]]', 'x: tuple[U, T]'),
    'array of generics': ('lib.array[lib.Header[2], Pair[T, U]]', 'a: T\n    b: U'),
}


def sharing(ctx, alias, types, n=7, order=0):
    """Classes that specialize one generic class directly, partially, swapped
    and as a hint, in several orders: every one is as written by hand."""
    ctx.opts = {}
    b = S.Builder(ctx.lib)
    hint, inner = ALIASES[alias]
    put = lambda text, t, u: re.sub(r'\bT\b', '{%s}' % t, re.sub(r'\bU\b', '{%s}' % u, text))
    common = f'class P(Generic[T, U], st):\n    a: {hint}\n    b: U\nclass Q(P[V, {{1}}], Generic[V]):\n    c: V\nclass O(P[U, T], Generic[T, U]):\n    c: U\n'
    made = {  # name: (source, T, U, fields behind them)
        'R': ('class R(Q[{0}]): pass', 0, 1, ['c: {0}']), 'X': ('class X(P[{1}, {0}]): pass', 1, 0, []), 'Y': ('class Y(O[{1}, {0}]): pass', 0, 1, ['c: {0}']),
        'Z': ('class Z(st):\n    z: P[{0}, {1}]', 0, 1, None), 'W': ('class W(Q[{1}]): pass', 1, 1, ['c: {1}']), 'N': ('class N(st):\n    z: O[{0}, {1}]', 1, 0, 'c: {1}'),
    }
    names = [list('RXYZWN'), list('XRZNWY'), list('NWZYXR'), list('YWRNXZ')][order]
    hints = {}
    ns = module(b, common + '\n'.join(made[k][0] for k in names), types, hints=hints)
    k = ctx.choose('class', names)
    _, t, u, more = made[k]
    hand, h = '', put(hint, t, u)
    if inner:
        hand = f'class I(st):\n    {put(inner, t, u)}\n'
        h = re.sub(r'(Item|Pair)\[.*\]', 'I' + (']' if h.endswith(']]') and h.startswith('lib') else ''), h)
    body = [f'a: {h}', f'b: {{{u}}}'] + (more if isinstance(more, list) else [more] if more else [])
    plain = '\n    '.join(body)
    hand += f'class F(st):\n    {plain}' if isinstance(more, list) else f'class G(st):\n    {plain}\nclass F(st):\n    z: G'
    f = module(b, hand, types, hints=hints)['F']
    data = ctx.blob('data', 0, n)
    same(ctx, ns[k], f, data, k)


def twins(ctx, how, types, n=5):
    """Different classes of the same name, specialized or used alike."""
    ctx.opts = {}
    b = S.Builder(ctx.lib)
    make = {
        'generic': 'def make(order):\n    class G(Generic[T], st, byte_order=order):\n        x: T\n    return G\nG1, G2 = make(LE), make(BE)\n',
        'argument': 'def make(order):\n    class I(st, byte_order=order):\n        x: {0}\n    return I\nG1, G2 = make(LE), make(BE)\n',
    }[how.split()[0]]
    arg = {'generic': '{}[{{0}}]', 'argument': 'Item[{}]'}[how.split()[0]]
    use = {'hint': 'class {0}(st):\n    g: {1}\n    z: lib.uint8', 'array': 'class {0}(st):\n    g: lib.array[lib.Header[2], {1}]',
           'base': 'class {0}({1}, byte_order={2}): pass' if how.startswith('gen') else 'class {0}({1}): pass', 'tuple': 'class {0}(st):\n    g: tuple[{1}, lib.uint8]'}[how.split()[1]]
    ns = module(b, make + use.format('A', arg.format('G1'), 'LE') + '\n' + use.format('B', arg.format('G2'), 'BE'), types)
    inner = 'class I(st, byte_order=OO):\n    x: {0}\n' + ('class J(st):\n    x: I\n' if how.startswith('arg') else '')
    data = ctx.blob('data', 0, n)
    for name, order in (('A', 'LE'), ('B', 'BE'), ('A', 'LE')):
        f = use.replace('({1}, byte_order={2}): pass', '(st, byte_order=OO):\n    x: {{0}}' if how.startswith('gen') else '').replace('({1}): pass', '(st):\n    x: I')
        f = f.format('F', 'J' if how.startswith('arg') else 'I')
        same(ctx, ns[name], module(b, (inner + f).replace('OO', order), types, hints=ns['H'])['F'], data, f'{how} {name}')


OWN_INIT = {  # what the generic class defines itself; every object gets `made`
    'init': ('init=False', '    def __init__(self, n, x):\n        self.n = n\n        self.x = x\n        self.made = (n, x)\n'),
    'init with more': ('init=False', '    def __init__(self, n, x, extra=5, *rest, last=7):\n        self.n, self.x = n, x\n        self.made = (n, x) if (extra, rest, last) == (5, (), 7) else None\n'),
    'dataclass': ('init=False', '    def __post_init__(self):\n        self.made = (self.n, self.x)\n'),
    'post': ('', '    def __post_init__(self):\n        self.made = (self.n, self.x)\n'),
    'init below': ('init=False', '    def __init__(self, n, x):\n        self.n = n\n        self.x = x\n        self.made = (n, x)\n'),
    'init above': ('', '    def __init__(self, n, x):\n        raise AssertionError("replaced by the generated __init__")\n    def __post_init__(self):\n        self.made = (self.n, self.x)\n'),
}
INIT_PLACES = {
    'hint': ('class C(st):\n    o: G[{0}]\n    z: {1}', 'class C(st):\n    o: I\n    z: {1}'),
    'array': ('class C(st):\n    o: lib.array[lib.Header[2], G[{0}]]\n    z: {1}', 'class C(st):\n    o: lib.array[lib.Header[2], I]\n    z: {1}'),
    'tuple': ('class C(st):\n    o: tuple[G[{0}], {1}]', 'class C(st):\n    o: tuple[I, {1}]'),
    'variable': ('class P(Generic[T], st):\n    o: G[T]\n    z: {1}\nclass C(P[{0}]): pass', 'class C(st):\n    o: I\n    z: {1}'),
    'twice': ('class D(st):\n    o: G[{1}]\nclass C(st):\n    o: G[{0}]\n    z: {1}', 'class C(st):\n    o: I\n    z: {1}'),
    'subclass': ('class J(G[{0}], WITH): pass\nclass C(st):\n    o: J\n    z: {1}', 'class C(st):\n    o: I\n    z: {1}'),
    'hint after': ('class J(G[{0}], WITH): pass\nclass C(st):\n    o: G[{0}]\n    z: {1}', 'class C(st):\n    o: I\n    z: {1}'),
}


def initialized(ctx, style, place, types, n=6):
    """A generic class initializes its objects as one without variables does."""
    ctx.opts = {}
    b = S.Builder(ctx.lib)
    options, body = OWN_INIT[style]
    fields = '    n: lib.uint8\n    x: %s\n'
    comma = ', ' + options if options else ''
    deco = 'from dataclasses import dataclass\n@dataclass\n' if style == 'dataclass' else ''
    top = {'init below': f'class B(Generic[U], st, init=False):\n    n: U\n{body}class G(B[lib.uint8], Generic[T], init=False):\n    x: T\n'}.get(
        style, f'{deco}class G(Generic[T], st{comma}):\n' + fields % 'T' + body)
    source, hand = INIT_PLACES[place]
    made = module(b, top + source.replace(', WITH', comma), types)
    f = module(b, f'{deco}class I(st{comma}):\n' + fields % '{0}' + body + hand, types, hints=made['H'])['C']
    data = ctx.blob('data', 0, n)
    c = made['C']
    same(ctx, c, f, data, place)
    for how in ('create_unpack', 'create_unpack_from', 'create_unpack_read'):
        u = ctx.attempt(do_unpack, c, how, data)
        if not u.ok:
            return
        objects = u.value.o if place == 'array' else [u.value.o[0] if place == 'tuple' else u.value.o]
        for o in objects:
            made = getattr(o, 'made', None)
            ctx.check(made is not None and ctx.same(list(made), [o.n, o.x]), f'{how}: the initializer of the class was not used')
