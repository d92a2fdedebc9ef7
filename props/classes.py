"""C14 (subclassing) and C16 (read-to-the-end fields)."""
import itertools
import sys
import types
import typing
from typing import ClassVar

from . import shapes as S
from .common import PACKERS, UNPACKERS, alike, both_fail_or, do_pack, do_unpack, values_of
from .general import blank

NO_FIELD = {'None': None, 'int': int, 'str': str, 'list': list[int], 'Any': typing.Any}


def flatten(levels):
    """The fields a class with these definitions has, as (name, text); pads
    called `_` get names of their own."""
    fields, n = {}, itertools.count()
    for level in levels:
        for name, text in level:
            if name == '_':
                name = f'_{next(n)}'
            fields[name] = text
    return [(n, t) for n, t in fields.items() if t not in NO_FIELD and not t.startswith('ClassVar')]


def run(source, ns):
    exec(source, ns)


def namespace(**names):
    """The globals of a module, registered so that postponed annotations can
    be evaluated."""
    m = types.ModuleType('sx_case')
    sys.modules['sx_case'] = m
    vars(m).update(names)
    return vars(m)


def define(b, levels, orders, future=False, override=False, mixin=None, defaults=False, first='lib.Structured', generic=False):
    """Executes the class statements; returns the classes."""
    lib, hints, lines = b.lib, [], []
    if future:
        lines.append('from __future__ import annotations')
    ns = namespace(lib=lib, ClassVar=ClassVar, Generic=typing.Generic, T=typing.TypeVar('T'), H=hints, Mixin=type('Mixin', (), {'helper': lambda self: 1}))
    base = first
    for i, level in enumerate(levels):
        ns[f'BO{i}'] = b.order(orders[i])
        mode = ', byte_order_mode=lib.ByteOrderMode.OVERRIDE' if override and i else ''
        variable = None
        if generic and not i:
            variable = next(n for n, t in level if n != '_' and t not in NO_FIELD and not t.startswith('ClassVar'))
            base = f'Generic[T], {base}'
        bases = {'before': f'Mixin, {base}', 'after': f'{base}, Mixin'}.get(mixin if i == len(levels) - 1 else None, base)
        lines.append(f'class C{i}({bases}, byte_order=BO{i}{mode}):')
        for name, text in level:
            if text in NO_FIELD:
                hints.append(NO_FIELD[text])
            elif text.startswith('ClassVar'):
                lines.append(f'    {name}: ClassVar[int] = 7')
                continue
            else:
                hints.append(S.Parser(text).field().hint(b))
            if name == variable:
                given = len(hints) - 1
            lines.append(f'    {name}: ' + ('T' if name == variable else f'H[{len(hints) - 1}]') + (' = 7' if defaults and name != '_' else ''))
        lines.append('    def method(self): return 1')
        base = f'C{i}' if not variable else f'C{i}[H[{given}]]'
    run('\n'.join(lines), ns)
    return [ns[f'C{i}'] for i in range(len(levels))]


def flat_class(b, fields, order):
    sh = S.Shape(order, [(n, S.Parser(t).field()) for n, t in fields])
    return sh, b.cls(sh)


def same_class(ctx, cls, flat, sh, b, n, what='', opts=None, pack=True):
    """cls behaves like the flat class on any input and any values."""
    ctx.check(tuple(cls.attrs) == tuple(flat.attrs), f'{what} attrs are {cls.attrs}, not {flat.attrs}')
    if ctx.choose('way', ('unpack', 'pack')) == 'pack':
        y = S.make_value(ctx, b, sh, cls=flat)
        x = cls(*values_of(y, flat.attrs))
        for how in PACKERS:
            u, p = ctx.attempt(do_pack, x, how), ctx.attempt(do_pack, y, how)
            if both_fail_or(ctx, u, p, f'{what} {how}'):
                ctx.check(ctx.eq(u.value, p.value), f'{what} {how}: other bytes than the flat class')
        return
    data = ctx.blob('data', 0, n)
    for how in UNPACKERS:
        u, p = ctx.attempt(do_unpack, cls, how, data), ctx.attempt(do_unpack, flat, how, data)
        if both_fail_or(ctx, u, p, f'{what} {how}'):
            ctx.check(type(u.value) is cls, f'{what} {how}: an object of another class')
            ctx.check(alike(ctx, values_of(u.value, flat.attrs), values_of(p.value, flat.attrs)),
                      f'{what} {how}: other values than the flat class')
            ctx.check(cls.serializer.size == flat.serializer.size, f'{what} {how}: other size')


def hierarchy(ctx, levels, orders='', n=10, opts=None, **how):
    """The last class behaves like the flat class, every class of the chain
    like its own flat class (also after the later ones were defined)."""
    ctx.opts = dict(opts or {})
    b = S.Builder(ctx.lib)
    levels = [[tuple(f) for f in level] for level in levels]
    orders = [orders] * len(levels) if isinstance(orders, str) else orders
    classes = define(b, levels, orders, **how)
    k = ctx.choose('class', range(len(classes) - 1, 0 if how.get('generic') else -1, -1))
    fields = flatten(levels[: k + 1])
    sh, flat = flat_class(b, fields, orders[k])
    same_class(ctx, classes[k], flat, sh, b, n, f'class {k}:')


def generated(ctx, base, changes, order='', n=9, opts=None, future=False):
    """All subclasses changing one field of base: which field and how are
    chosen by the solver-driven exploration."""
    ctx.opts = dict(opts or {})
    b = S.Builder(ctx.lib)
    base = [tuple(f) for f in base]
    names = [n for n, _ in base if n != '_'] + ['new']
    name = ctx.choose('field', names)
    text = ctx.choose('change', changes)
    if name == 'new' and text in NO_FIELD:
        return
    levels = [base, [(name, text)]]
    if ctx.choose('one more', (False, True)):
        levels[1].append(('more', 'B'))
    classes = define(b, levels, [order] * 2, future=future)
    sh, flat = flat_class(b, flatten(levels), order)
    same_class(ctx, classes[1], flat, sh, b, n)


def orders_refused(ctx, first, second, mode):
    """Subclassing with another byte order."""
    lib = ctx.lib
    b = S.Builder(lib)
    sh = S.parse(first + 'B,H,cH')
    base = b.cls(sh)
    x = S.make_value(ctx, b, sh)
    before = ctx.attempt(x.pack)
    kw = {'byte_order': b.order(second)} if second is not None else {}
    second = second or ''
    if mode:
        kw['byte_order_mode'] = getattr(lib.ByteOrderMode, mode)
    ns = {'Base': base, 'lib': lib, 'kw': kw}
    o = ctx.attempt(run, 'class C(Base, **kw):\n    more: lib.uint16', ns)
    ctx.note([first, second, mode])
    if mode != 'OVERRIDE' and b.order(first) is not b.order(second):
        ctx.check(not o.ok and isinstance(o.exc, ValueError), f'subclass with order {second!r} of a class with {first!r}: {o!r}')
    else:
        ctx.check(o.ok, f'subclass with order {second!r} of a class with {first!r}: {o!r}')
        flat = S.Shape(second, sh.fields + [('more', S.Basic('H'))])
        b.cls(flat)
        y = ns['C'](*values_of(x, base.attrs), ctx.int('more', 0, 65535))
        p = ctx.attempt(y.pack)
        ctx.check(p.ok and ctx.eq(p.value, S.encode(ctx, flat, y)), 'the subclass does not pack in its byte order')
    after = ctx.attempt(x.pack)
    ctx.check(after.ok and ctx.eq(before.value, after.value), 'subclassing changed the base class')


TWO = {
    'direct': 'class C(A, B): pass', 'indirect': 'class M(A): pass\nclass C(M, B): pass',
    'indirect2': 'class M(B):\n    z: lib.uint8\nclass C(A, M): pass', 'mixin': 'class C(A, Mixin, B): pass',
    'generic': 'class C(G[lib.uint8], B): pass', 'generics': 'class C(G[lib.uint8], G2[lib.uint8]): pass',
    'three': 'class D(lib.Structured):\n    w: lib.uint8\nclass C(A, B, D): x: lib.uint8', 'own': 'class C(A, B):\n    c: lib.uint16',
}
ONE = {
    'mixin': 'class C(A, Mixin): pass', 'mixin first': 'class C(Mixin, A): pass', 'sub': 'class M(A): pass\nclass C(M): pass',
    'generic': 'class C(G[lib.uint8]): pass', 'mixin sub': 'class M(Mixin, A): pass\nclass C(M): pass',
}


def two_bases(ctx, n=3):
    """A class with two Structured bases is refused, one with one is not."""
    lib = ctx.lib
    T = typing.TypeVar('T')
    ns = {'lib': lib, 'Mixin': type('Mixin', (), {}), 'Generic': typing.Generic, 'T': T}
    exec('class A(lib.Structured):\n    x: lib.uint8\nclass B(lib.Structured):\n    y: lib.uint8\n'
         'class G(Generic[T], lib.Structured):\n    x: T\nclass G2(Generic[T], lib.Structured):\n    y: T\n', ns)
    if ctx.choose('bases', (2, 1)) == 2:
        key = ctx.choose('how', list(TWO))
        o = ctx.attempt(run, TWO[key], ns)
        ctx.check(not o.ok and isinstance(o.exc, TypeError), f'{key}: two Structured bases accepted or refused otherwise: {o!r}')
        data = ctx.bytes('data', 1)
        ctx.check(ctx.attempt(ns['A'].create_unpack, data).value.x == data[0], 'base class changed')
        return
    key = ctx.choose('how', list(ONE))
    o = ctx.attempt(run, ONE[key], ns)
    ctx.check(o.ok, f'{key}: refused: {o!r}' if not o.ok else '')
    data = ctx.blob('data', 0, n)
    u = ctx.attempt(ns['C'].create_unpack, data)
    ctx.check(u.ok == (len(data) >= 1), f'{key}: does not unpack one byte')
    if u.ok:
        ctx.check(u.value.x == data[0], f'{key}: not its field')


# ------------------------------------------------------------------ C16
ENDS = ['*', 'u(*)', 'T(B;*)', 'T(*)', 'S(B,*)', 'Y(*)', 'V(*)', 'C(*)', 'U(0:B/*)', 'U(0:*/H)', 'U(0:B;1:*)', 'T(B;T(H;*))', 'S(S(B,*))',
        'S(H,u(*))', 'Y(T(B;*))', 'Y(S(*))', 'C(S(B,*))', 'U(0:S(B,*)/B)', 'U(0:T(B;*)/H)', 'U(0:B/u(*))', 'T(H;Y(*))', 'T(B;S(*))',
        'S(B,U(0:H/*))', 'S(B,C(*))', 'u(*|latin-1)', 'L(1:B;2:*)', 'L(1:*/H)', 'L(1:H/*)', 'T(x;B;*)', 'S(x2,*)', 'Y(u(*))', 'T(W(H);*)']
NEXT = ['B', 'x', 'x3', 'cB', 'N', 't00', 'T(B;H)', 'W(H)', 'AB(H)', 'A2(B)', 'S(>H,B)', 'u(cB)', '*', 'u(*)', 'Y(H)', 'Y(x2)', 'C(cB)',
        'U(0:B/H)', 'L(1:B;2:cB)', 'T(B;*)', 'c0', 'x0', 'S()', 'T(x)', 'A0(B)', 'p2', 'd', 'S(*)']
WHERE = ('class', 'subclass', 'tuple', 'nested', 'override', 'generic', 'between', 'array', 'array of tuple')


def refused(ctx, end, where=None):
    """A read-to-the-end field with something behind it."""
    b = S.Builder(ctx.lib)
    lib = b.lib
    where = where or ctx.choose('where', WHERE)
    f = S.parse('B,' + end).fields[1][1]
    if where.startswith('array'):
        head = ctx.choose('header', ('A1', 'A0', 'A3', 'AB', 'ABH', 'A2I', 'AQ'))
        item = end if where == 'array' else f'T(B;{end})'
        attempt = lambda: b.cls(S.parse(f'B,{head}({item})'))
        says = f'{head}({item})'
    else:
        nxt = ctx.choose('next', NEXT)
        g = S.parse('B,' + nxt).fields[1][1]
        says = f'{end} then {nxt} ({where})'
        if where == 'class':
            attempt = lambda: b.cls(S.Shape('', [('f0', S.Basic('B')), ('f1', f), ('f2', g)]))
        elif where == 'between':
            attempt = lambda: b.cls(S.Shape('', [('f0', S.Basic('B')), ('f1', f), ('f2', g), ('f3', S.Basic('B'))]))
        elif where == 'subclass':
            base = b.cls(S.Shape('', [('f0', S.Basic('B')), ('f1', f)]))
            attempt = lambda: run('class C(Base):\n    f2: h', {'Base': base, 'h': g.hint(b)})
        elif where == 'override':
            base = b.cls(S.Shape('', [('f0', S.Basic('B')), ('f1', S.Basic('H')), ('f2', g)]))
            attempt = lambda: run('class C(Base):\n    f1: h', {'Base': base, 'h': f.hint(b)})
        elif where == 'tuple':
            attempt = lambda: b.cls(S.Shape('', [('f0', S.Basic('B')), ('f1', S.Tup([f, g]))]))
        elif where == 'nested':
            inner = S.Nest(S.Shape('', [('f0', S.Basic('B')), ('f1', f)]))
            attempt = lambda: b.cls(S.Shape('', [('f0', S.Basic('B')), ('f1', inner), ('f2', g)]))
        else:
            T = typing.TypeVar('T')
            ns = namespace(lib=lib, T=T, Generic=typing.Generic, h=f.hint(b), g=g.hint(b))
            run('class G(Generic[T], lib.Structured):\n    f0: lib.uint8\n    f1: T\n    f2: g', ns)
            attempt = lambda: run('class C(G[h]): pass', ns)
    ctx.note(says)
    try:
        attempt()
        ctx.check(False, f'{says}: accepted')
    except TypeError:
        ctx.check(True, '')
    except Exception as e:
        ctx.check(False, f'{says}: {type(e).__name__} instead of TypeError')


def accepted(ctx, end, order=''):
    """The same field in last position, in the same contexts."""
    b = S.Builder(ctx.lib)
    lib = b.lib
    where = ctx.choose('where', ('class', 'alone', 'subclass', 'override', 'tuple', 'nested', 'removed', 'generic'))
    sh = S.parse(order + 'B,' + end)
    f = sh.fields[1][1]
    fields = [('f0', S.Basic('B')), ('f1', f)]
    if where in ('class', 'alone'):
        attempt = lambda: b.cls(S.Shape('', fields))
    elif where == 'subclass':
        base = b.cls(S.Shape('', fields[:1]))
        attempt = lambda: run('class C(Base):\n    f1: h', {'Base': base, 'h': f.hint(b)})
    elif where == 'override':
        base = b.cls(S.Shape('', [('f0', S.Basic('B')), ('f1', S.Basic('H'))]))
        attempt = lambda: run('class C(Base):\n    f1: h', {'Base': base, 'h': f.hint(b)})
    elif where == 'tuple':
        attempt = lambda: b.cls(S.Shape('', [('f0', S.Basic('B')), ('f1', S.Tup([S.Basic('B'), f]))]))
    elif where == 'nested':
        attempt = lambda: b.cls(S.Shape('', [('f0', S.Basic('B')), ('f1', S.Nest(S.Shape('', fields)))]))
    elif where == 'removed':
        base = b.cls(S.Shape('', fields))
        attempt = lambda: run('class C(Base):\n    f1: None\n    f2: h', {'Base': base, 'h': f.hint(b)})
    else:
        ns = namespace(lib=lib, T=typing.TypeVar('T'), Generic=typing.Generic, h=f.hint(b))
        run('class G(Generic[T], lib.Structured):\n    f0: lib.uint8\n    f1: T', ns)
        attempt = lambda: run('class C(G[h]): pass', ns)
    ctx.note([end, where])
    o = ctx.attempt(attempt)
    ctx.check(o.ok, f'{end} in last position ({where}): {o!r}')


def reads_all(ctx, shape, n):
    """A final field takes all the remaining bytes, however many."""
    sh = S.parse(shape)
    b = S.Builder(ctx.lib)
    cls = b.cls(sh)
    data = ctx.blob('data', 0, n)
    need = S.min_size(sh)
    for how in UNPACKERS:
        u = ctx.attempt(do_unpack, cls, how, data)
        ctx.check(u.ok == (len(data) >= need), f'{how}: refuses or accepts wrongly')
        if u.ok:
            ctx.check(cls.serializer.size == len(data), f'{how}: does not read everything')
            v = getattr(u.value, cls.attrs[-1])
            while not isinstance(v, bytes):
                v = v[-1] if isinstance(v, (tuple, list)) else getattr(v, type(v).attrs[-1])
            ctx.check(ctx.eq(v, data[need:]), f'{how}: the value is not all the remaining bytes')
            for p in PACKERS:
                o = ctx.attempt(do_pack, u.value, p)
                ctx.check(o.ok and ctx.eq(o.value, data), f'{p}: does not pack exactly the value')
