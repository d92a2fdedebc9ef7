"""C11 unions, C12 conditions, C17 self-nesting."""
import operator
from typing import Annotated, Union

from . import shapes as S
from .common import PACKERS, UNPACKERS, alike, both_fail_or, do_pack, do_unpack, field_shape, unpack_all, values_of
from .general import blank, setup, some_value

SOME = ('create_unpack_read', 'unpack_from', 'create_unpack')


def the(sh, kind):
    for i, (n, f) in enumerate(sh.fields):
        if isinstance(f, kind):
            return i, n, f


def compare_unpack(ctx, b, cls, plain, data, what, extra=None):
    """cls and the class it must behave like, on the same bytes."""
    for how in SOME:
        u = ctx.attempt(do_unpack, cls, how, data)
        p = ctx.attempt(do_unpack, plain, how, data)
        if both_fail_or(ctx, u, p, f'{what} {how}'):
            for n in plain.attrs:
                ctx.check(alike(ctx, getattr(u.value, n), getattr(p.value, n)), f'{what} {how}: {n} differs')
            for n, v in (extra or {}).items():
                ctx.check(ctx.same(getattr(u.value, n), v), f'{what} {how}: {n} is not its default')
            ctx.check(cls.serializer.size == plain.serializer.size, f'{what} {how}: consumes something else')
    return u


def compare_pack(ctx, x, plain, what):
    y = plain(*values_of(x, plain.attrs))
    for how in PACKERS:
        u = ctx.attempt(do_pack, x, how)
        p = ctx.attempt(do_pack, y, how)
        if both_fail_or(ctx, u, p, f'{what} {how}'):
            ctx.check(ctx.eq(u.value, p.value), f'{what} {how}: other bytes')


def lookback(ctx, shape, opts=None):
    """Packing, shape 'B,U(..),..': like the class with the member instead."""
    sh, b, cls = setup(ctx, shape, opts)
    i, name, un = the(sh, S.Lookback)
    x = S.make_value(ctx, b, sh)
    tag = getattr(x, un.tag)
    try:
        m = un.pick(tag)
    except S.Reject:
        ctx.note('unmapped')
        for how in PACKERS:
            o = ctx.attempt(do_pack, x, how)
            ctx.check(not o.ok and isinstance(o.exc, ValueError), f'{how}: unmapped decision does not raise ValueError: {o!r}')
        return
    compare_pack(ctx, x, b.cls(field_shape(shape, i, m)), 'union')


def lookback_input(ctx, shape, n):
    sh, b, cls = setup(ctx, shape)
    i, name, un = the(sh, S.Lookback)
    data = ctx.blob('data', 1, n)
    try:
        m = un.pick(data[0])
    except S.Reject:
        ctx.note('unmapped')
        try:
            S.decode(ctx, b, S.Shape(sh.order, sh.fields[:i]), data)
            readable = True
        except S.Reject:
            readable = False
        for how in UNPACKERS:
            o = ctx.attempt(do_unpack, cls, how, data)
            ctx.check(not o.ok, f'{how}: unmapped decision does not raise')
            if readable:
                ctx.check(isinstance(o.exc, ValueError), f'{how}: unmapped decision raises something else: {o!r}')
        return
    compare_unpack(ctx, b, cls, b.cls(field_shape(shape, i, m)), data, 'union')


KEYS = {
    'c2': (b'AB', b'\x00\xff'), 'H': (258, 65535), 'b': (-1, 3), '?': (True, False), 'cB': (b'', b'xy'),
    'T(B;B)': ((1, 2), (2, 1)), 'u(c2)': ('ab', ''), 'I': (1, 0x01000000), 't00': (b'', b'k'), 'd': (1.5, 0.0),
    'S(B,H)': None, 'B': (0, 255),
}


def lookahead(ctx, read, first, second, default, order='>', n=8):
    """LookaheadDecider over plain members: reads ahead, then behaves like the
    class with the chosen member; packing is decided by the write decider."""
    ctx.opts = {'maxlen': 4, 'items': 1, 'chars': 1}
    b = S.Builder(ctx.lib)
    lib = b.lib
    rf = S.Parser(read).field()
    f1, f2 = S.Parser(first).field(), S.Parser(second).field()
    df = default and S.Parser(default).field()
    k1, k2 = KEYS[read]
    hints = [f.hint(b) for f in (f1, f2) + ((df,) if df else ())] + [lib.int64]
    un = Annotated[Union[tuple(hints)], lib.LookaheadDecider(
        rf.hint(b), lambda o: {0: k1, 1: k2}.get(o.f0, 'neither'), {k1: f1.hint(b), k2: f2.hint(b)}, df and df.hint(b))]
    ns = {'lib': lib, 'un': un, 'BO': b.order(order)}
    exec('class C(lib.Structured, byte_order=BO):\n    f0: lib.uint8\n    f1: un\n    f2: lib.uint16', ns)
    cls = ns['C']
    plain = lambda f: b.cls(S.Shape(order, [('f0', S.Basic('B')), ('f1', f), ('f2', S.Basic('H'))]))
    if ctx.choose('way', ('pack', 'unpack')) == 'pack':
        tag = ctx.int('f0', 0, 255)
        f = f1 if tag == 0 else f2 if tag == 1 else df
        if f is None:
            o = ctx.attempt(cls(tag, 1, 2).pack)
            ctx.check(not o.ok and isinstance(o.exc, ValueError), f'unmapped decision packs or raises something else: {o!r}')
            return
        env = S.Env(ctx, None, lib, 1)
        env.b, env.maxlen, env.items, env.chars, env.termlen, env.wild, env.counts = b, 4, 1, 1, 2, False, None
        x = cls(tag, f.value(env, 'f1'), ctx.int('f2', 0, 65535))
        compare_pack(ctx, x, plain(f), 'look-ahead union')
        return
    data = ctx.blob('data', 1, n)
    d = S.Data(ctx, b, data, 1)
    try:
        v = S.dec_one(d, rf, order)
    except S.Reject:
        for how in UNPACKERS:
            o = ctx.attempt(do_unpack, cls, how, data)
            ctx.check(not o.ok, f'{how}: decides without a value to read')
        return
    f = f1 if v == k1 else f2 if v == k2 else df
    if f is None:
        for how in UNPACKERS:
            o = ctx.attempt(do_unpack, cls, how, data)
            ctx.check(not o.ok and isinstance(o.exc, ValueError), f'{how}: unmapped decision does not raise ValueError: {o!r}')
        return
    compare_unpack(ctx, b, cls, plain(f), data, 'look-ahead union')
    for how in ('unpack', 'create_unpack_from', 'unpack_read'):
        u, p = ctx.attempt(do_unpack, cls, how, data), ctx.attempt(do_unpack, plain(f), how, data)
        if both_fail_or(ctx, u, p, how):
            ctx.check(alike(ctx, [getattr(u.value, k) for k in cls.attrs], [getattr(p.value, k) for k in cls.attrs]), f'{how} differs')


def keyed(ctx, tag, first, second, default, order='<', n=8):
    """LookbackDecider on a tag of any type."""
    ctx.opts = {'maxlen': 4, 'items': 1, 'chars': 1}
    b = S.Builder(ctx.lib)
    lib = b.lib
    tf = S.Parser(tag).field()
    f1, f2 = S.Parser(first).field(), S.Parser(second).field()
    df = default and S.Parser(default).field()
    k1, k2 = KEYS[tag]
    hints = [f.hint(b) for f in (f1, f2) + ((df,) if df else ())] + [lib.int64]
    un = Annotated[Union[tuple(hints)], lib.LookbackDecider(
        operator.attrgetter('f0'), {k1: f1.hint(b), k2: f2.hint(b)}, df and df.hint(b))]
    ns = {'lib': lib, 'un': un, 'tag': tf.hint(b), 'BO': b.order(order)}
    exec('class C(lib.Structured, byte_order=BO):\n    f0: tag\n    f1: un\n    f2: lib.uint16', ns)
    cls = ns['C']
    data = ctx.blob('data', 0, n)
    d = S.Data(ctx, b, data)
    try:
        v = S.dec_one(d, tf, order)
    except S.Reject:
        for how in UNPACKERS:
            ctx.check(not ctx.attempt(do_unpack, cls, how, data).ok, f'{how}: decides without a tag')
        return
    f = f1 if v == k1 else f2 if v == k2 else df
    if f is None:
        for how in UNPACKERS:
            o = ctx.attempt(do_unpack, cls, how, data)
            ctx.check(not o.ok and isinstance(o.exc, ValueError), f'{how}: unmapped decision does not raise ValueError: {o!r}')
        return
    plain = b.cls(S.Shape(order, [('f0', tf), ('f1', f), ('f2', S.Basic('H'))]))
    u = compare_unpack(ctx, b, cls, plain, data, 'union')
    if u.ok:
        compare_pack(ctx, u.value, plain, 'union')


def sees(ctx, shape, order='>', n=None, kind='U'):
    """The decider (or condition) is given exactly the fields before it, with
    their final values."""
    ctx.opts = {'maxlen': 3, 'items': 1, 'chars': 1}
    sh = S.parse(order + shape)
    b = S.Builder(ctx.lib)
    lib = b.lib
    names = [n for n, f in sh.fields if f.values]
    log = []

    def look(o):
        log.append([getattr(o, n) for n in names])
        return len(log) & 0

    if kind == 'U':
        h = Annotated[Union[lib.uint8, lib.uint16], lib.LookbackDecider(look, {0: lib.uint8}, lib.uint16)]
    elif kind == 'A':  # write decider of a look-ahead union
        h = Annotated[Union[lib.uint8, lib.uint16], lib.LookaheadDecider(lib.uint8, look, {0: lib.uint8}, lib.uint8)]
    else:
        h = Annotated[lib.uint8, lib.Condition(lambda o: look(o) == 0, None)]
    ns = {'lib': lib, 'H': [f.hint(b) for _, f in sh.fields], 'h': h, 'BO': b.order(order)}
    lines = ['class C(lib.Structured, byte_order=BO):'] + [f'    {n}: H[{i}]' for i, (n, f) in enumerate(sh.fields)]
    exec('\n'.join(lines + ['    pick: h', '    last: lib.uint16']), ns)
    cls = ns['C']
    sh2 = S.Shape(order, sh.fields + [('pick', S.W1), ('last', S.Basic('H'))])
    b.made[(id(sh2), order, None, 'Structured')] = (cls, sh2)
    x, data = some_value(ctx, b, sh2)
    for how in PACKERS:
        log.clear()
        o = ctx.attempt(do_pack, x, how)
        ctx.check(o.ok, f'{how} fails: {o!r}' if not o.ok else '')
        ctx.check(len(log) > 0, f'{how}: nothing was decided')
        for seen in log if 'Z' not in shape else log[-1:]:
            ctx.check(ctx.same(seen, values_of(x, names)), f'{how}: the decider sees other values')
    if kind == 'A':
        return
    for how in UNPACKERS:
        log.clear()
        o = ctx.attempt(do_unpack, cls, how, data)
        ctx.check(o.ok and ctx.same(o.value, x), f'{how} fails or differs: {o!r}' if not o.ok else f'{how} differs')
        ctx.check(len(log) > 0, f'{how}: nothing was decided')
        ctx.check(ctx.same(log[-1], values_of(o.value, names)), f'{how}: the decider sees other values')


CONDITIONS = {
    'odd': lambda o: o.f0 & 1, 'four': lambda o: o.f0 & 4 == 4, 'more': lambda o: o.f0 > 3, 'self': lambda o: o.f0,
    'two': lambda o: len(o.f0) == 2, 'both': lambda o: o.f0 == 1 and o.f1 == 2, 'text': lambda o: o.f0 == 'ab',
    'attr': lambda o: o.f0.f1 == 3, 'order': lambda o: o.f0[0] < o.f0[1], 'yes': lambda o: [0], 'no': lambda o: '',
    'big': lambda o: o.f0 > 1.5, 'second': lambda o: o.f1 > 7, 'not': lambda o: not o.f0, 'none': lambda o: None,
    'even2': lambda o: o.f0 & 2 == 0, 'two?': lambda o: o.f1 is DEFAULT[1],
}
DEFAULT = {i: f'default {i}' for i in range(9)}


def conditional(ctx, shape, conds, n, order='>', opts=None):
    """shape with conditions {field index: name}: like the class that has just
    the fields whose conditions are true."""
    ctx.opts = dict(opts or {})
    sh = S.parse(order + shape)
    b = S.Builder(ctx.lib)
    lib = b.lib
    conds = {int(k): v for k, v in conds.items()}
    hints = [Annotated[f.hint(b), lib.Condition(CONDITIONS[conds[i]], *([DEFAULT[i]] if f.values else []))] if i in conds else f.hint(b)
             for i, (_, f) in enumerate(sh.fields)]
    ns = {'lib': lib, 'H': hints, 'BO': b.order(order)}
    exec('\n'.join(['class C(lib.Structured, byte_order=BO):'] + [f'    {n}: H[{i}]' for i, (n, f) in enumerate(sh.fields)]), ns)
    cls = ns['C']
    part = lambda idx: b.cls(S.Shape(order, [sh.fields[i] for i in idx]))
    if ctx.choose('way', ('unpack', 'pack')) == 'pack':
        x = S.make_value(ctx, b, S.Shape(order, sh.fields), cls=cls)
        present = []
        for i, (name, f) in enumerate(sh.fields):
            if i in conds and not CONDITIONS[conds[i]](x):
                if f.values:
                    setattr(x, name, None)  # whatever is there is not packed
            else:
                present.append(i)
        compare_pack(ctx, x, part(present), 'conditional')
        return
    data = ctx.blob('data', 0, n)
    present, extra = [], {}
    for i, (name, f) in enumerate(sh.fields):
        if i in conds:
            p = ctx.attempt(part(present).create_unpack, data)
            if not p.ok:
                for how in UNPACKERS:
                    ctx.check(not ctx.attempt(do_unpack, cls, how, data).ok, f'{how} accepts too little data')
                return
            for k, v in extra.items():
                setattr(p.value, k, v)
            if not CONDITIONS[conds[i]](p.value):
                if f.values:
                    extra[name] = DEFAULT[i]
                continue
        present.append(i)
    compare_unpack(ctx, b, cls, part(present), data, 'conditional', extra)


# ------------------------------------------------------------------ C17
def derived(b, sh, cls, order):
    """A subclass with one more field, and its shape."""
    ns = {'Base': cls, 'lib': b.lib, 'BO': b.order(order)}
    exec('class Derived(Base, byte_order=BO):\n    extra: lib.uint16', ns)
    out = S.Shape(order, sh.fields + [('extra', S.Basic('H'))])
    b.made[(id(out), order, None, 'Structured')] = (ns['Derived'], out)
    return ns['Derived'], out


def inner_objects(v, cls, out):
    if type(v) is cls:
        out.append(v)
        for n in cls.attrs:
            inner_objects(getattr(v, n), cls, out)
    elif isinstance(v, (list, tuple)):
        for x in v:
            inner_objects(x, cls, out)
    return out


def nested_self(ctx, shape, depth=2, sub=False, opts=None):
    """Every nested object packs inside its container as it does on its own."""
    sh, b, cls = setup(ctx, shape, opts)
    if sub:
        cls, sh = derived(b, sh, cls, sh.order)
    x, want = some_value(ctx, b, sh, depth)
    for how in PACKERS:
        o = ctx.attempt(do_pack, x, how)
        ctx.check(o.ok, f'{how} fails: {o!r}' if not o.ok else '')
        ctx.check(ctx.eq(o.value, want), f'{how}: nested or enclosing fields are packed differently')
    ctx.check(cls.serializer.size == len(want), 'size after packing')
    for o in inner_objects(x, cls, [])[1:3]:
        p = ctx.attempt(o.pack)
        alone = S.encode(ctx, sh, o)
        ctx.check(p.ok and ctx.eq(p.value, alone), 'a nested object packs differently on its own')
        u = ctx.attempt(cls.create_unpack, alone)
        ctx.check(u.ok and ctx.same(u.value, o), 'a nested object unpacks differently on its own')
    for how in UNPACKERS:
        u = ctx.attempt(do_unpack, cls, how, want)
        ctx.check(u.ok, f'{how} fails: {u!r}' if not u.ok else '')
        ctx.check(ctx.same(u.value, x), f'{how}: nested objects of another class or value')
        ctx.check(cls.serializer.size == len(want), f'size after {how}')


def nested_input(ctx, shape, n, sub=False):
    """Arbitrary input against the reference decoder."""
    sh, b, cls = setup(ctx, shape)
    if sub:
        base, cls_sh = cls, derived(b, sh, cls, sh.order)
        cls, sh = cls_sh
    data = ctx.blob('data', 0, n)
    try:
        want, used = S.decode(ctx, b, sh, data)
    except S.Reject:
        want = None
    for how in UNPACKERS:
        u = ctx.attempt(do_unpack, cls, how, data)
        if want is None:
            ctx.check(not u.ok, f'{how} accepts what the fields do not allow')
        else:
            ctx.check(u.ok, f'{how} fails: {u!r}' if not u.ok else '')
            ctx.check(ctx.same(u.value, want), f'{how}: nested or enclosing values differ')
            ctx.check(cls.serializer.size == used, f'size after {how}')
