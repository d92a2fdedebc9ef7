"""C19: construction, equality, text."""
import dataclasses

from . import shapes as S
from .common import do_unpack, values_of
from .classes import run
from .general import setup

HOOK = '''    def __post_init__(self):
        LOG.append([getattr(self, n, MISSING) for n in NAMES])
'''
MISSING = 'missing'


def hooked(b, sh, log, **kw):
    names = [n for n, f in sh.fields if f.values]
    return b.cls(sh, extra=HOOK, LOG=log, NAMES=names, MISSING=MISSING, **kw), names


def construct(ctx, shape):
    """Every way of giving the arguments."""
    ctx.opts = {'maxlen': 3, 'items': 1, 'chars': 1}
    sh = S.parse(shape)
    b = S.Builder(ctx.lib)
    log = []
    cls, names = hooked(b, sh, log)
    ctx.check(tuple(cls.attrs) == tuple(names), f'attrs are {cls.attrs}, not {names}')
    values = S.make_values(ctx, b, sh)
    k = ctx.choose('positional', range(len(names) + 1))
    turn = ctx.choose('keywords', ('in order', 'reversed'))
    pairs = list(zip(names, values))[k:]
    kw = dict(pairs if turn == 'in order' else reversed(pairs))
    wrong = ctx.choose('wrong', ('no', 'extra', 'unknown', 'twice', 'missing'))
    args = values[:k]
    if wrong == 'extra':
        args = values + [1]
        kw = {}
    elif wrong == 'unknown':
        kw['unknown_name'] = 1
    elif wrong == 'twice':
        if not k:
            return
        kw[names[0]] = values[0]
    elif wrong == 'missing':
        if not names:
            return
        if k < len(names):
            del kw[names[ctx.choose('left out', range(k, len(names)))]]
        else:
            args = args[:-1]
    log.clear()
    o = ctx.attempt(lambda: cls(*args, **kw))
    if wrong != 'no':
        ctx.check(not o.ok and isinstance(o.exc, TypeError), f'wrong arguments ({wrong}): {o!r}')
        ctx.check(not log, f'wrong arguments ({wrong}): __post_init__ runs')
        return
    ctx.check(o.ok, f'refuses its arguments: {o!r}' if not o.ok else '')
    ctx.check(len(log) == 1, f'__post_init__ runs {len(log)} times')
    for n, v, seen in zip(names, values, log[0]):
        ctx.check(getattr(o.value, n) is v, f'{n} is not the argument given')
        ctx.check(seen is v, f'{n} was not set when __post_init__ ran')


def any_object(ctx, shape):
    """Arguments are stored as they are, whatever they are."""
    sh = S.parse(shape)
    b = S.Builder(ctx.lib)
    log = []
    cls, names = hooked(b, sh, log)
    things = [None, [1], {'a': 1}, object(), 'text', b'bytes', 1.5, (1, 2), True, cls]
    values = [things[(i + ctx.choose(f'thing{i}', (0, 1, 2, 3, 4))) % len(things)] for i in range(len(names))]
    x = cls(*values)
    for n, v in zip(names, values):
        ctx.check(getattr(x, n) is v, f'{n} is not the argument given')
    ctx.check(len(log) == 1, '__post_init__ does not run once')


def unpacked(ctx, shape, n):
    """Creating an object by unpacking runs the initializer once, too."""
    ctx.opts = {}
    sh = S.parse(shape)
    b = S.Builder(ctx.lib)
    log = []
    cls, names = hooked(b, sh, log)
    data = ctx.blob('data', 0, n)
    for how in ('create_unpack', 'create_unpack_from', 'create_unpack_read'):
        log.clear()
        u = ctx.attempt(do_unpack, cls, how, data)
        if u.ok:
            ctx.check(len(log) == 1, f'{how}: __post_init__ runs {len(log)} times')
            ctx.check(ctx.same(log[0], values_of(u.value, names)), f'{how}: attributes are set after __post_init__')
        else:
            ctx.check(not log, f'{how} fails but initializes an object')


def equal(ctx, shape, opts=None):
    """==, != of two arbitrary objects."""
    ctx.opts = {'maxlen': 3, 'items': 1, 'chars': 1, **(opts or {})}
    sh = S.parse(shape)
    b = S.Builder(ctx.lib)
    cls = b.cls(sh)
    x = S.make_value(ctx, b, sh, 'x.')
    with_ = ctx.choose('with', ('another', 'copy', 'other class', 'subclass', 'no object'))
    if with_ == 'another':
        y = S.make_value(ctx, b, sh, 'y.')
    elif with_ == 'copy':
        y = cls(*values_of(x, cls.attrs))
        y.not_serialized = 1
        for n in reversed(cls.attrs):
            v = getattr(y, n)
            delattr(y, n)
            setattr(y, n, v)
    elif with_ == 'other class':
        y = b.cls(S.Shape(sh.order, sh.fields))(*values_of(x, cls.attrs))
    elif with_ == 'subclass':
        ns = {'Base': cls, 'BO': b.order(sh.order)}
        run('class Sub(Base, byte_order=BO): pass', ns)
        y = ns['Sub'](*values_of(x, cls.attrs))
    else:
        y = ctx.choose('thing', (None, 5, 'text', values_of(x, cls.attrs), cls))
    if with_ in ('another', 'copy'):
        want = True
        for n in cls.attrs:
            want = want and bool(getattr(x, n) == getattr(y, n))
    else:
        want = False
    for a, c in ((x, y), (y, x)):
        e, ne = ctx.attempt(lambda: a == c), ctx.attempt(lambda: a != c)
        ctx.check(e.ok and ne.ok, f'comparing raises: {e!r} {ne!r}')
        ctx.check(bool(e.value) == want, f'==: {with_}, attributes {"equal" if want else "different"}')
        ctx.check(bool(ne.value) != want, f'!=: {with_}, attributes {"equal" if want else "different"}')


def text(ctx, shape):
    """str() and repr()."""
    ctx.opts = {'maxlen': 3, 'items': 1, 'chars': 1}
    sh = S.parse(shape)
    b = S.Builder(ctx.lib)
    cls = b.cls(sh, name='Shown')
    x = S.make_value(ctx, b, sh, cls=cls)
    more = ctx.choose('changed', ('no', 'value', 'order', 'more'))
    if more == 'value' and cls.attrs:
        setattr(x, cls.attrs[-1], ctx.int('new value', -5, 300))
    elif more == 'order':  # attributes set again, in another order
        for n in reversed(cls.attrs):
            v = getattr(x, n)
            delattr(x, n)
            setattr(x, n, v)
    elif more == 'more':
        x.not_serialized = 'not serialized'
    for f in (str, repr):
        try:  # the text itself is not recorded: symbolic values show as placeholders
            shows = f(x)
        except Exception as e:
            shows = None
        ctx.check(shows is not None, f'{f.__name__} fails')
        at = shows.find('Shown')
        ctx.check(at >= 0, f'{f.__name__} does not show the class name')
        ctx.check('not_serialized' not in shows, f'{f.__name__} shows what is not serialized')
        at += 5
        for n in cls.attrs:
            v = getattr(x, n)
            for shown in (f'{n}={v}', f'{n}={v!r}', f'{n}: {v}', f'{n}: {v!r}'):
                i = shows.find(shown, at)
                if i >= 0:
                    break
            ctx.check(i >= 0, f'{f.__name__} does not show {n} with its value in order')
            at = i + len(shown)


def own_init(ctx, shape, n, kind):
    """init=False: with @dataclass, or an initializer of one's own."""
    ctx.opts = {'maxlen': 3, 'items': 1, 'chars': 1}
    sh = S.parse(shape)
    b = S.Builder(ctx.lib)
    plain = b.cls(sh)
    names = list(plain.attrs)
    ns = {'lib': b.lib, 'H': [f.hint(b) for _, f in sh.fields], 'BO': b.order(sh.order), 'dataclass': dataclasses.dataclass, 'LOG': []}
    lines = ['@dataclass'] if kind == 'dataclass' else []
    lines += ['class C(lib.Structured, init=False, byte_order=BO):'] + [f'    {n}: H[{i}]' for i, (n, f) in enumerate(sh.fields)]
    if not sh.fields:
        lines.append('    pass')
    if kind == 'own':
        lines += [f'    def __init__({", ".join(["self"] + names)}):', '        LOG.append(1)'] + [f'        self.{n} = {n}' for n in names]
    run('\n'.join(lines), ns)
    cls = ns['C']
    ctx.check(tuple(cls.attrs) == tuple(names), 'other attrs')
    x = S.make_value(ctx, b, sh)
    y = cls(*values_of(x, names))
    o, p = ctx.attempt(x.pack), ctx.attempt(y.pack)
    ctx.check(o.ok and p.ok and ctx.eq(o.value, p.value), f'packs differently: {p!r}' if not p.ok else 'packs differently')
    u = ctx.attempt(cls.create_unpack, o.value)
    ctx.check(u.ok and ctx.same(values_of(u.value, names), values_of(x, names)), 'unpacks differently')
    if kind == 'own':
        ctx.check(len(ns['LOG']) == 2, 'the initializer does not run once per object')


WORDS = ['selfish', 'self_', 'cls', 'buffer', 'values', 'readable', 'writable', 'offset', 'name', 'args', 'kwargs', 'size', 'partial_object', '_x', '__x', '_', 'T', 'int', 'type', 'str',
         'lib', 'annotation', '_0_pad_', 'other', 'classes', 'proxy', 'init', 'new', 'obj', 'key', 'X', 'value', 'format', 'order', 'count', 'data', '_attrs', 'attr', 'post_init', 'Self', 'é']


def named(ctx, words, base=False):
    """Whatever the fields are called."""
    lib = ctx.lib
    codes = {'uint8': 'B', 'uint16': 'H', 'char[lib.uint8]': 'cB', 'int8': 'b'}
    hints = list(codes)
    fields = [(w, hints[i % 4]) for i, w in enumerate(words)]
    cut = len(fields) // 2 if base else 0
    body = lambda fs: ''.join(f'    {w}: lib.{h}\n' for w, h in fs) or '    pass\n'
    ns = {'lib': lib, 'LE': lib.ByteOrder.LE, 'LOG': []}
    hook = '    def __post_init__(self):\n        LOG.append(self)\n'
    if base:
        run('class B(lib.Structured, byte_order=LE):\n' + body(fields[:cut]) + 'class K(B, byte_order=LE):\n' + body(fields[cut:]) + hook, ns)
    else:
        run('class K(lib.Structured, byte_order=LE):\n' + body(fields) + hook, ns)
    K = ns['K']
    names = [f'_B{w}' if w.startswith('__') and base and i < cut else f'_K{w}' if w.startswith('__') else w for i, w in enumerate(words)]
    ctx.check(K.attrs == tuple(names), f'attrs are {K.attrs}')
    values = [{'B': lambda i: ctx.int(f'v{i}', 0, 255), 'H': lambda i: ctx.int(f'v{i}', 0, 65535), 'b': lambda i: ctx.int(f'v{i}', -128, 127), 'cB': lambda i: ctx.blob(f'v{i}', 0, 3)}[codes[h]](i)
              for i, (_, h) in enumerate(fields)]
    for make in (lambda: K(*values), lambda: K(**dict(zip(names, values)))):
        o = ctx.attempt(make)
        ctx.check(o.ok, f'{o!r}')
        ctx.check(len(ns['LOG']) == 1 and ns['LOG'][0] is o.value, '__post_init__')
        ns['LOG'].clear()
        for n, v in zip(names, values):
            ctx.check(getattr(o.value, n, MISSING) is v, f'{n} is not the argument given')
    x = o.value
    p = ctx.attempt(x.pack)
    ctx.check(p.ok, f'{p!r}')
    want = b''.join(bytes([len(v)]) + v if h.startswith('char') else S.enc_int(v + 256 * (v < 0) if h == 'int8' else v, 2 if h == 'uint16' else 1, '<') for (_, h), v in zip(fields, values))
    ctx.check(ctx.eq(p.value, want), 'packs to other bytes')
    for how in ('create_unpack', 'create_unpack_from', 'create_unpack_read', 'unpack', 'unpack_from', 'unpack_read'):
        u = ctx.attempt(do_unpack, K, how, want)
        ctx.check(u.ok and ctx.all(*[ctx.same(getattr(u.value, n, MISSING), v) for n, v in zip(names, values)]), f'{how}: {u!r}')
    y = x.with_byte_order(lib.ByteOrder.BE)
    ctx.check(ctx.all(*[ctx.same(getattr(y, n, MISSING), v) for n, v in zip(names, values)]), 'with_byte_order: other values')
    text = str(x)
    at = 0
    for n in names:
        at = text.find(f'{n}=', at)
        ctx.check(at >= 0, f'{n} is not in the text form')
