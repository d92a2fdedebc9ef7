"""Class shapes: a small grammar, the classes it denotes, symbolic values for
them, and a reference encoder and decoder written from the documentation.

Grammar of a shape (text, so that counterexamples are replayable):

    [<|>|=|@|!] field , field , ...
    b B h H i I q Q e f d ?   basic types         x | x3    pad[1], pad[3]
    c3 char[3]   p4 pascal[4]   cB cH cI cQ char[uint*]     N char[NET]
    t00 char[b'\\x00'] (any byte in hex)      * char[math.inf]
    u(c8) u(cB|utf-16-le) u(N) ...            unicode[...]
    T(B;cB;H)   tuple           W(B)          SerializeAs custom type
    A3(H) AB(H) A3B(H) ABH(H)                 array with Header[count, size]
    S(>B,H)     nested Structured class       Z  Self
    U(0:B;1:H/cB)   LookbackDecider on the nearest preceding integer field
    L(1:B;2:cB)     LookaheadDecider on uint8, members are classes (tag, field)
    MH(1:B) Ms(1:B) LookaheadDecider on uint16, char[uint8]; members are tuples
    C(cB)           Condition: nearest preceding integer field is odd
    Y(cB) V(cB)     Condition: always a true / a false value that is no bool
    OtB OgH OlB OfH serializer written by the user: byte string behind a uint*
                    length, in the style t, g, l or f (see Own)
    K               serializer written by the user that chooses another one by
                    the nearest preceding integer field
"""
import io
import math
import operator

NAMES = {'b': 'int8', 'B': 'uint8', 'h': 'int16', 'H': 'uint16', 'i': 'int32', 'I': 'uint32', 'q': 'int64',
         'Q': 'uint64', 'e': 'float16', 'f': 'float32', 'd': 'float64', '?': 'bool8'}
SIZES = {'b': 1, 'B': 1, 'h': 2, 'H': 2, 'i': 4, 'I': 4, 'q': 8, 'Q': 8, 'e': 2, 'f': 4, 'd': 8, '?': 1}
ORDERS = {'<': 'LITTLE_ENDIAN', '>': 'BIG_ENDIAN', '=': 'NATIVE_STANDARD', '@': 'NATIVE_NATIVE', '!': 'NETWORK',
          '': 'DEFAULT'}


class Reject(Exception):
    """The reference model: this cannot be packed / unpacked."""


def endian(order):
    return 'big' if order in ('>', '!') else 'little'


def limits_of(code):
    n = 8 * SIZES[code]
    return (-(1 << (n - 1)), (1 << (n - 1)) - 1) if code.islower() else (0, (1 << n) - 1)


def enc_int(v, size, order):
    return v.to_bytes(size, endian(order))


class Wrap:
    """Custom integer type; counts conversions."""

    attrs = ("v", "converted")

    def __init__(self, v):
        self.v = v
        self.converted = 1
        if isinstance(v, Wrap):
            self.v, self.converted = v.v, v.converted + 1

    def __index__(self):
        return self.v

    def __float__(self):
        return self.v

    def __bool__(self):
        return bool(self.v)

    def __eq__(self, other):
        if type(other) is Wrap:
            return self.v == other.v
        return NotImplemented

    __hash__ = None

    def __repr__(self):
        return f'Wrap({self.v!r})'


class Other(Wrap):
    """Another conversion."""

    def __eq__(self, other):
        if type(other) is Other:
            return self.v == other.v
        return NotImplemented

    __hash__ = None


class Env:
    """What is known while values are made: earlier fields and the context."""

    def __init__(self, ctx, shape, lib, depth):
        self.ctx, self.shape, self.lib, self.depth, self.values = ctx, shape, lib, depth, {}


class Field:
    basic = False  # part of a struct run
    values = 1
    final = False

    def canon1(self, data):
        return []


class Basic(Field):
    basic = True

    def __init__(self, code):
        self.code = code

    def hint(self, b):
        return getattr(b.lib, NAMES[self.code])

    def value(self, env, name):
        if self.code in 'efd':
            return env.ctx.float(name, self.code) if not env.wild else env.ctx.float(name, 'd', nan=True)
        if self.code == '?':
            return env.ctx.bool(name)
        lo, hi = limits_of(self.code)
        more = 1 << 8 * SIZES[self.code] if env.wild else 0
        return env.ctx.int(name, lo - more, hi + more)

    def pieces(self):
        return [(self.code, 1)]

    def enc1(self, ctx, v, order):
        if self.code in 'efd':
            return enc_float(ctx, v, self.code, order)
        if self.code == '?':
            return bytes([1 if v else 0])
        lo, hi = limits_of(self.code)
        if v < lo or v > hi:
            raise Reject('out of range')
        return enc_int(v, SIZES[self.code], order) if lo >= 0 else (v + (1 << 8 * SIZES[self.code]) if v < 0 else v).to_bytes(SIZES[self.code], endian(order))

    def dec1(self, ctx, data, order):
        if self.code in 'efd':
            return ctx_float(ctx, data, self.code, order)
        if self.code == '?':
            return data[0] != 0
        return int.from_bytes(data, endian(order), signed=self.code.islower())

    def canon1(self, data):
        if self.code == '?':
            return [data[0] <= 1]
        if self.code in 'efd':
            # not a NaN, whatever the byte order: exponent not all ones at either end
            hi = {'e': 0x7C, 'f': 0x7F, 'd': 0x7F}[self.code]
            return [data[0] & hi != hi, data[len(data) - 1] & hi != hi]
        return []

    def pytype(self):
        return float if self.code in 'efd' else bool if self.code == '?' else int


def enc_float(ctx, v, code, order):
    import struct

    try:
        # native order: no overflow check for float32
        return struct.pack(order + code if order in ('', '@') else ('>' if endian(order) == 'big' else '<') + code, v)
    except OverflowError:
        raise Reject('out of range') from None


def ctx_float(ctx, data, code, order):
    import struct

    return struct.unpack(('>' if endian(order) == 'big' else '<') + code, data)[0]


class OwnByte(Basic):
    """A uint8 serialized on its own, not as part of a struct run."""

    basic = False

    def enc(self, env, v, order):
        return self.enc1(env.ctx, v, order)

    def dec(self, d, order):
        return d.take(1)[0]


W1 = OwnByte('B')


class Pad(Field):
    basic = True
    values = 0

    def __init__(self, n):
        self.n = n

    def hint(self, b):
        return b.lib.pad[self.n]

    def canon1(self, data):
        return [data[i] == 0 for i in range(self.n)]

    def pieces(self):
        return [('x', self.n)]


class FixedChar(Field):
    basic = True

    def __init__(self, n, pascal=False):
        self.n, self.pascal = n, pascal

    def hint(self, b):
        return b.lib.pascal[self.n] if self.pascal else b.lib.char[self.n]

    def pieces(self):
        return [('p' if self.pascal else 's', self.n)]

    def value(self, env, name):
        if env.wild:
            return env.ctx.blob(name, 0, self.n + 3)
        if self.pascal:
            n = env.ctx.choose(name + '.len', range(max(self.n, 1)))
            return env.ctx.bytes(name, n)
        return env.ctx.bytes(name, self.n)

    def enc1(self, ctx, v, order):
        if not isinstance(v, (bytes, bytearray)):
            raise Reject('not bytes')
        if self.pascal:
            if self.n == 0:
                return b''
            v = v[: self.n - 1]
            return bytes([min(len(v), 255)]) + v + bytes(self.n - 1 - len(v))
        return v[: self.n] + bytes(max(self.n - len(v), 0))

    def canon1(self, data):
        if not self.pascal or not self.n:
            return []
        return [data[0] < self.n] + [(i <= data[0]) | (data[i] == 0) for i in range(1, self.n)]

    def dec1(self, ctx, data, order):
        if self.pascal:
            if self.n == 0:
                return b''
            k = data[0]
            return data[1:] if k >= self.n else data[1 : 1 + k]
        return data

    def pytype(self):
        return bytes


class As(Field):
    """SerializeAs over a basic type."""

    basic = True

    def __init__(self, inner):
        self.inner = inner
        self.type = Wrap if getattr(inner, 'code', None) in ('B', 'h', 'Q', 'd') else Other

    def hint(self, b):
        from typing import Annotated

        return Annotated[self.type, b.lib.SerializeAs(self.inner.hint(b))]

    def pieces(self):
        return self.inner.pieces()

    def canon1(self, data):
        return self.inner.canon1(data)

    def value(self, env, name):
        return self.type(self.inner.value(env, name))

    def enc1(self, ctx, v, order):
        return self.inner.enc1(ctx, v.v, order)

    def dec1(self, ctx, data, order):
        return self.type(self.inner.dec1(ctx, data, order))

    def pytype(self):
        return self.type


class Dyn(Field):
    def __init__(self, code):
        self.code = code

    def hint(self, b):
        return b.lib.char[getattr(b.lib, NAMES[self.code])]

    def value(self, env, name):
        return env.ctx.blob(name, 0, env.maxlen if env.wild else min(env.maxlen, limits_of(self.code)[1]))

    def enc(self, env, v, order):
        n = len(v)
        if n > limits_of(self.code)[1]:
            raise Reject('too long')
        return enc_int(n, SIZES[self.code], order) + v

    def dec(self, d, order):
        return d.take(int.from_bytes(d.take(SIZES[self.code]), endian(order)))

    def pytype(self):
        return bytes


class Net(Field):
    def hint(self, b):
        return b.lib.char[b.lib.NET]

    def value(self, env, name):
        return env.ctx.blob(name, 0, env.maxlen if env.wild else min(env.maxlen, 32767))

    def enc(self, env, v, order):
        n = len(v)
        if n > 0x7FFF:
            raise Reject('too long')
        if n < 128:
            return bytes([n]) + v
        return bytes([128 + n % 128, n // 128]) + v

    def dec(self, d, order):
        n = d.take(1)[0]
        if n >= 128:
            n = n - 128 + d.take(1)[0] * 128
            d.canon.append(n >= 128)
        return d.take(n)

    def pytype(self):
        return bytes


class Term(Field):
    def __init__(self, t):
        self.t = t

    def hint(self, b):
        return b.lib.null_char if self.t == 0 else b.lib.char[bytes([self.t])]

    def value(self, env, name):
        return env.ctx.blob(name, 0, min(env.maxlen, env.termlen), exclude=() if env.wild else (self.t,))

    def enc(self, env, v, order):
        if v[-1:] == bytes([self.t]):
            return v
        return v + bytes([self.t])

    def dec(self, d, order):
        rest = d.rest()
        n = rest.find(bytes([self.t]))
        if n == -1:
            raise Reject('unterminated')
        out = d.take(n)
        d.take(1)
        return out

    def pytype(self):
        return bytes


class Consume(Field):
    final = True

    def hint(self, b):
        return b.lib.char[math.inf]

    def value(self, env, name):
        return env.ctx.blob(name, 0, env.maxlen)

    def enc(self, env, v, order):
        return v

    def dec(self, d, order):
        return d.take(len(d.rest()))

    def pytype(self):
        return bytes


TEXT_MAX = {'latin-1': 255, 'ascii': 127}


class Uni(Field):
    def __init__(self, inner, codec=None):
        self.inner, self.codec = inner, codec
        self.final = inner.final
        self.basic = False

    def hint(self, b):
        arg = {FixedChar: lambda f: f.n, Dyn: lambda f: getattr(b.lib, NAMES[f.code]), Net: lambda f: b.lib.NET,
               Term: lambda f: bytes([f.t]), Consume: lambda f: math.inf}[type(self.inner)](self.inner)
        if isinstance(self.inner, Term) and self.inner.t == 0 and self.codec is None:
            return b.lib.null_unicode
        return b.lib.unicode[arg] if self.codec is None else b.lib.unicode[arg, self.codec]

    def value(self, env, name):
        ctx = env.ctx
        single = isinstance(self.inner, (FixedChar, Term))
        n = ctx.choose(name + '.len', range(env.chars + 1))
        v = ctx.text(name, n, 127 if single else TEXT_MAX.get(self.codec, 0x10FFFF))
        if isinstance(self.inner, Term):
            for c in v:
                ctx.assume(ord(c) != self.inner.t)
        o = v.encode(self.codec or 'utf-8') if not single else v.encode('ascii')
        if isinstance(self.inner, FixedChar):
            ctx.assume(len(o) <= self.inner.n)
        return v

    def enc(self, env, v, order):
        try:
            data = v.encode(self.codec or 'utf-8')
        except UnicodeError:
            raise Reject('encode') from None
        if self.inner.basic:
            return self.inner.enc1(env.ctx, data, order)
        return self.inner.enc(env, data, order)

    def dec(self, d, order):
        data = d.take(self.inner.n) if self.inner.basic else self.inner.dec(d, order)
        try:
            text = data.decode(self.codec or 'utf-8')
            if not self.inner.basic and len(text):
                d.canon.append(ord(text[len(text) - 1]) != 0)
            return text.rstrip('\0')
        except UnicodeError:
            raise Reject('decode') from None

    def pytype(self):
        return str


class Tup(Field):
    def __init__(self, fields):
        self.fields = fields
        self.final = fields[-1].final

    def hint(self, b):
        return tuple.__class_getitem__(tuple(f.hint(b) for f in self.fields))

    def value(self, env, name):
        return tuple(f.value(env, f'{name}.{i}') for i, f in enumerate(self.fields) if f.values)

    def enc(self, env, v, order):
        return enc_run(env, [f for f in self.fields], v, order)

    def dec(self, d, order):
        return tuple(dec_run(d, self.fields, order))

    def pytype(self):
        return tuple


class Arr(Field):
    def __init__(self, count, size, item):
        self.count, self.size, self.item = count, size, item

    def hint(self, b):
        c = self.count if isinstance(self.count, int) else getattr(b.lib, NAMES[self.count])
        h = b.lib.Header[c] if self.size is None else b.lib.Header[c, getattr(b.lib, NAMES[self.size])]
        return b.lib.array[h, self.item.hint(b)]

    def value(self, env, name):
        if isinstance(self.count, int):
            n = self.count if not env.wild else env.ctx.choose(name + '.count', range(self.count + 2))
        elif env.counts:
            n = env.ctx.choose(name + '.count', env.counts)
        else:
            top = 0 if env.depth <= 0 and uses_self(self.item) else env.items
            n = env.ctx.choose(name + '.count', range(top + 1))
        return [self.item.value(env, f'{name}.{i}') for i in range(n)]

    def enc(self, env, v, order):
        n = len(v)
        head = b''
        if isinstance(self.count, int):
            if n != self.count:
                raise Reject('length')
        else:
            if n > limits_of(self.count)[1]:
                raise Reject('too many')
        if self.item.basic:
            body = enc_run(env, [self.item] * n, v, order)
        else:
            body = b''.join([self.item.enc(env, x, order) for x in v])
        codes, vals = [], []
        if not isinstance(self.count, int):
            codes.append(Basic(self.count))
            vals.append(n)
        if self.size is not None:
            if len(body) > limits_of(self.size)[1]:
                raise Reject('too large')
            codes.append(Basic(self.size))
            vals.append(len(body))
        return enc_run(env, codes, vals, order) + body

    def dec(self, d, order):
        codes = ([] if isinstance(self.count, int) else [Basic(self.count)]) + ([] if self.size is None else [Basic(self.size)])
        vals = dec_run(d, codes, order)
        n = self.count if isinstance(self.count, int) else vals[0]
        start = d.pos
        if self.item.basic:
            size = run_size([self.item])
            if not d.has(n * size):
                raise Reject('short')
            items = dec_run(d, [self.item] * operator.index(n), order)
        else:
            items = []
            for _ in range(n):
                items.append(self.item.dec(d, order))
        if self.size is not None and vals[-1] != d.pos - start:
            raise Reject('data size')
        return items

    def pytype(self):
        return list


class Nest(Field):
    def __init__(self, shape):
        self.shape = shape
        self.final = shape.final

    def hint(self, b):
        return b.cls(self.shape)

    def value(self, env, name):
        return make_value(env.ctx, env.b, self.shape, name + '.', env.depth)

    def enc(self, env, v, order):
        return enc_obj(env, self.shape, v)

    def dec(self, d, order):
        return dec_obj(d, self.shape)

    def pytype(self):
        return None


class SelfRef(Field):
    def hint(self, b):
        from typing import Self

        return Self

    def value(self, env, name):
        if env.depth <= 0:
            env.ctx.assume(False)
        return make_value(env.ctx, env.b, env.shape, name + '.', env.depth - 1)

    def enc(self, env, v, order):
        return enc_obj(env, env.shape, v)

    def dec(self, d, order):
        d.depth += 1
        return dec_obj(d, d.shape)

    def pytype(self):
        return None


def uses_self(f):
    if isinstance(f, SelfRef):
        return True
    if isinstance(f, Arr):
        return uses_self(f.item)
    if isinstance(f, Tup):
        return any(uses_self(x) for x in f.fields)
    if isinstance(f, Cond):
        return uses_self(f.inner)
    if isinstance(f, Lookback):
        return any(uses_self(x) for x in f.members.values()) or (f.default is not None and uses_self(f.default))
    return False


class Lookback(Field):
    def __init__(self, members, default, tag=None):
        self.members, self.default, self.tag = members, default, tag
        self.final = any(m.final for m in members.values()) or (default is not None and default.final)

    def hint(self, b):
        from typing import Annotated, Union

        members = {k: m.hint(b) for k, m in self.members.items()}
        default = None if self.default is None else self.default.hint(b)
        hints = list(members.values()) + ([] if default is None else [default])
        if len(hints) == 1:
            hints.append(b.lib.uint8 if not isinstance(self.default or list(self.members.values())[0], Basic) else b.lib.int64)
        tag = self.tag
        return Annotated[Union[tuple(hints)], b.lib.LookbackDecider(operator.attrgetter(tag), members, default)]

    def pick(self, tag):
        for k, m in self.members.items():
            if tag == k:
                return m
        if self.default is None:
            raise Reject('unmapped')
        return self.default

    def value(self, env, name):
        try:
            m = self.pick(env.values[self.tag])
        except Reject:
            if not env.wild:
                env.ctx.assume(False)
            m = list(self.members.values())[0]
        if env.depth <= 0 and uses_self(m):
            env.ctx.assume(False)
        return m.value(env, name)

    def enc(self, env, v, order):
        return enc_one(env, self.pick(env.values[self.tag]), v, order)

    def dec(self, d, order):
        return dec_one(d, self.pick(d.values[-1][self.tag]), order)

    def pytype(self):
        return None


class Lookahead(Field):
    """Members are classes whose first field is the uint8 tag."""

    def __init__(self, members, default=None):
        self.members = {k: Shape('', [('tag', Basic('B')), ('val', f)]) for k, f in members.items()}
        self.default = default and Shape('', [('tag', Basic('B')), ('val', default)])

    def hint(self, b):
        from typing import Annotated, Union

        members = {k: b.cls(s) for k, s in self.members.items()}
        default = self.default and b.cls(self.default)
        hints = list(members.values()) + ([default] if default else []) + [b.lib.uint8]
        name = self.name
        return Annotated[Union[tuple(hints)], b.lib.LookaheadDecider(
            b.lib.uint8, lambda o: getattr(o, name).tag, members, default)]

    def value(self, env, name):
        keys = list(self.members) + ([None] if self.default else [])
        k = env.ctx.choose(name + '.member', keys)
        s = self.members[k] if k is not None else self.default
        o = make_value(env.ctx, env.b, s, name + '.', env.depth)
        if k is None:
            for m in self.members:
                env.ctx.assume(o.tag != m)
        else:
            env.ctx.assume(o.tag == k)
        return o

    def pick(self, tag):
        for k, s in self.members.items():
            if tag == k:
                return s
        if self.default is None:
            raise Reject('unmapped')
        return self.default

    def enc(self, env, v, order):
        return enc_obj(env, self.pick(v.tag), v)

    def dec(self, d, order):
        return dec_obj(d, self.pick(d.peek(1)[0]))

    def pytype(self):
        return None


class Ahead(Field):
    """Members are tuples (tag, field) in the order of the class; the tag is a
    uint16 or a char[uint8]."""

    def __init__(self, tag, members, default=None):
        self.key = {'H': lambda k: k, 's': lambda k: bytes([64 + k]) * k}[tag]
        self.tag = lambda: Basic('H') if tag == 'H' else Dyn('B')
        self.members = {self.key(k): Tup([self.tag(), f]) for k, f in members.items()}
        self.default = default and Tup([self.tag(), default])

    def hint(self, b):
        from typing import Annotated, Union

        members = {k: f.hint(b) for k, f in self.members.items()}
        default = self.default and self.default.hint(b)
        hints = list(members.values()) + ([default] if default else []) + [b.lib.uint8]
        name = self.name
        return Annotated[Union[tuple(hints)], b.lib.LookaheadDecider(
            self.tag().hint(b), lambda o: getattr(o, name)[0], members, default)]

    def value(self, env, name):
        keys = list(self.members) + ([None] if self.default else [])
        k = env.ctx.choose(name + '.member', range(len(keys)))
        if keys[k] is not None:
            return (keys[k], self.members[keys[k]].fields[1].value(env, name + '.1'))
        v = self.default.value(env, name)
        for m in self.members:
            env.ctx.assume(v[0] != m)
        return v

    def pick(self, tag):
        for k, f in self.members.items():
            if tag == k:
                return f
        if self.default is None:
            raise Reject('unmapped')
        return self.default

    def enc(self, env, v, order):
        return self.pick(v[0]).enc(env, v, order)

    def dec(self, d, order):
        pos, canon = d.pos, list(d.canon)
        tag = dec_one(d, self.tag(), order)
        d.pos, d.canon = pos, canon
        return self.pick(tag).dec(d, order)

    def pytype(self):
        return None


class Cond(Field):
    def __init__(self, inner, always=None):
        self.inner, self.tag, self.always = inner, None, always
        self.final = inner.final
        self.values = inner.values

    def hint(self, b):
        from typing import Annotated

        tag, always = self.tag, self.always
        default = [self.default()] if self.values else []
        if always is None:
            return Annotated[self.inner.hint(b), b.lib.Condition(lambda o: getattr(o, tag) & 1 == 1, *default)]
        return Annotated[self.inner.hint(b), b.lib.Condition(lambda o: 'yes' if always else None, *default)]

    def default(self):
        # same Python type as the field where that is possible
        t = self.inner.pytype()
        return {int: 77, float: 1.5, bool: True, bytes: b'dflt', str: 'dflt', list: [], tuple: ()}.get(t, None)

    def on(self, values):
        return values[self.tag] & 1 == 1 if self.always is None else self.always

    def value(self, env, name):
        if not self.on(env.values):
            return self.default()
        if env.depth <= 0 and uses_self(self.inner):
            env.ctx.assume(False)
        return self.inner.value(env, name)

    def enc(self, env, v, order):
        return (enc_one(env, self.inner, v, order) if self.values else bytes(self.inner.n)) if self.on(env.values) else b''

    def dec(self, d, order):
        if not self.values:
            if self.on(d.values[-1]):
                data = d.take(self.inner.n)
                d.canon += [data[i] == 0 for i in range(self.inner.n)]
            return None
        return dec_one(d, self.inner, order) if self.on(d.values[-1]) else self.default()

    def pytype(self):
        return self.inner.pytype()


class Own(Dyn):
    """Like char[uint*], by a serializer written by the user. Styles:
    t: returns tuples, works only right after its prepack / preunpack
    g: returns generators that unpack when iterated
    l: returns iterators, leaves the optional methods to the base class
    d: likewise, and cannot be hashed (it could be a dataclass)
    f: big-endian whatever the order of the class; returns lists
    u, v: works only right after its preunpack (u) or prepack (v), has the other one from the base class
    s: like t; prepack and preunpack tell b.log what they see of the object
    """

    before = ()

    def __init__(self, style, code):
        super().__init__(code)
        self.style = style

    def hint(self, b):
        from typing import Annotated

        return Annotated[bytes, own_serializer(b.lib, self.style, self.code, b, self.before)]

    def enc(self, env, v, order):
        return super().enc(env, v, '>' if self.style == 'f' else order)

    def dec(self, d, order):
        return super().dec(d, '>' if self.style == 'f' else order)


def own_serializer(lib, style, code, b=None, before=()):
    size = SIZES[code]
    asked = {'t': ('pack', 'unpack'), 's': ('pack', 'unpack'), 'u': ('unpack',), 'v': ('pack',)}.get(style, ())

    class Plain(lib.Serializer):
        num_values = 1

        def __init__(self, order=lib.ByteOrder.BIG_ENDIAN):
            self.order, self.size, self.ready = order, 0, None

        def start(self, kind):
            if kind in asked and self.ready != kind:
                raise AssertionError(f'used without pre{kind} just before')
            self.ready = None

        def data(self, v):
            n = len(v)
            if n > limits_of(code)[1]:
                raise ValueError('too long')
            return enc_int(n, size, self.order.value) + v

        def pack(self, *values):
            self.start('pack')
            (v,) = values
            out = self.data(v)
            self.size = len(out)
            return out

        def pack_into(self, buffer, offset, *values):
            self.start('pack')
            (v,) = values
            out = self.data(v)
            if offset < 0 or offset + len(out) > len(buffer):
                raise ValueError('no room')
            buffer[offset : offset + len(out)] = out
            self.size = len(out)

        def pack_write(self, writable, *values):
            self.start('pack')
            (v,) = values
            out = self.data(v)
            self.size = len(out)
            writable.write(out)

        def give(self, get):
            self.start('unpack')
            if style == 'g':
                return self.lazy(get)
            return {'l': iter, 'd': iter, 'f': list}.get(style, tuple)(self.values(get))

        def lazy(self, get):
            yield from self.values(get)

        def values(self, get):
            head = get(0, size)
            if len(head) != size:
                raise ValueError('short')
            n = int.from_bytes(head, endian(self.order.value))
            v = bytes(get(size, n))
            if len(v) != n:
                raise ValueError('short')
            self.size = size + n
            return [v]

        def unpack(self, buffer):
            return self.give(lambda pos, n: buffer[pos : pos + n])

        def unpack_from(self, buffer, offset=0):
            return self.give(lambda pos, n: buffer[offset + pos : offset + pos + n])

        def unpack_read(self, readable):
            return self.give(lambda pos, n: readable.read(n))

    if style == 'f':
        return Plain()

    class Turning(Plain):
        def with_byte_order(self, byte_order):
            return type(self)(byte_order)

    class Packs(Turning):
        def prepack(self, partial_object):
            self.ready = 'pack'
            if style == 's':
                b.log.append(('pack', [(n, getattr(partial_object, n)) for n in before]))
            return self

    class Unpacks(Turning):
        def preunpack(self, partial_object):
            self.ready = 'unpack'
            if style == 's':
                b.log.append(('unpack', [(n, getattr(partial_object, n)) for n in before]))
            return self

    class Both(Packs, Unpacks):
        pass

    class Compares(Turning):
        def __eq__(self, other):
            return type(other) is type(self) and other.order == self.order

        __hash__ = None

    return {'u': Unpacks, 'v': Packs, 't': Both, 's': Both, 'd': Compares}.get(style, Turning)()


def mod4(v):
    for k in range(3):
        if v % 4 == k:
            return k
    return 3


class Choosing(Field):
    """A user's serializer choosing another one from the object: char[tag % 4]."""

    tag = None

    def hint(self, b):
        from typing import Annotated

        lib, tag = b.lib, self.tag

        class Chooser(lib.Serializer):
            num_values, size = 1, 1000

            def choose(self, o):
                return lib.StructSerializer(f'{mod4(getattr(o, tag))}s')

            prepack = preunpack = choose

            def never(self, *args):
                raise AssertionError('used in place of the serializer its prepack / preunpack chose')

            pack = pack_into = pack_write = unpack = unpack_from = unpack_read = never

        return Annotated[bytes, Chooser()]

    def value(self, env, name):
        n = mod4(env.values[self.tag])
        return env.ctx.blob(name, 0, n + 2) if env.wild else env.ctx.bytes(name, n)

    def enc(self, env, v, order):
        return FixedChar(mod4(env.values[self.tag])).enc1(env.ctx, v, order)

    def dec(self, d, order):
        return d.take(mod4(d.values[-1][self.tag]))

    def pytype(self):
        return bytes


# ------------------------------------------------------------ layout model
def run_layout(fields, order):
    """[(offset, code, count)], size: one struct format for consecutive basics."""
    off, out = 0, []
    for f in fields:
        for code, n in f.pieces():
            if code in 'xsp':
                out.append((off, code, n))
                off += n
            else:
                size = SIZES[code]
                if order in ('', '@'):
                    off = (off + size - 1) // size * size
                out.append((off, code, n))
                off += size
    return out, off


def run_size(fields, order=''):
    return run_layout(fields, order)[1]


def enc_basics(env, fields, values, order):
    lay, size = run_layout(fields, order)
    out, pos, it = [], 0, iter(values)
    for f, (off, code, n) in zip(fields, lay):
        out.append(bytes(off - pos))
        if f.values:
            data = f.enc1(env.ctx, next(it), order)
        else:
            data = bytes(n)
        out.append(data)
        pos = off + len(data)
    return b''.join(out)


def enc_one(env, f, v, order):
    return enc_basics(env, [f], [v], order) if f.basic else f.enc(env, v, order)


def enc_run(env, fields, values, order):
    """Maximal runs of basics as one struct, everything else back to back."""
    out, run, vals, it = [], [], [], iter(values)

    def flush():
        if run:
            out.append(enc_basics(env, run, vals, order))
            run.clear()
            vals.clear()

    for f in fields:
        v = next(it) if f.values else None
        if f.basic:
            run.append(f)
            if f.values:
                vals.append(v)
        else:
            flush()
            out.append(f.enc(env, v, order))
    flush()
    return b''.join(out)


class Data:
    """Cursor of the reference decoder."""

    def __init__(self, ctx, b, data, pos=0):
        self.ctx, self.b, self.data, self.pos = ctx, b, data, pos
        self.values, self.shape, self.depth = [], None, 0
        self.canon = []  # conditions under which packing the value gives back these bytes

    def has(self, n):
        return self.pos + n <= len(self.data)

    def peek(self, n):
        if not self.has(n):
            raise Reject('short')
        return self.data[self.pos : self.pos + n]

    def take(self, n):
        out = self.peek(n)
        self.pos = self.pos + n
        return out

    def rest(self):
        return self.data[self.pos :]


def dec_basics(d, fields, order):
    lay, size = run_layout(fields, order)
    data = d.take(size)
    pos = 0
    for f, (off, code, n) in zip(fields, lay):
        d.canon += [data[i] == 0 for i in range(pos, off)]
        width = n if code in 'xsp' else SIZES[code]
        d.canon += f.canon1(data[off : off + width])
        pos = off + width
    return [f.dec1(d.ctx, data[off : off + (n if code in 'xsp' else SIZES[code])], order)
            for f, (off, code, n) in zip(fields, lay) if f.values]


def dec_one(d, f, order):
    return dec_basics(d, [f], order)[0] if f.basic else f.dec(d, order)


def dec_run(d, fields, order, on_value=None):
    out, run = [], []

    def flush():
        if run:
            got = dec_basics(d, run, order)
            out.extend(got)
            run.clear()
            if on_value:
                for v in got:
                    on_value(v)

    for f in fields:
        if f.basic:
            run.append(f)
            continue
        flush()
        v = f.dec(d, order)
        if not f.values:
            continue
        out.append(v)
        if on_value:
            on_value(v)
    flush()
    return out


def dec_obj(d, shape):
    saved = d.shape
    d.shape = shape
    known = {}
    d.values.append(known)
    names = iter([n for n, f in shape.fields if f.values])
    vals = dec_run(d, [f for _, f in shape.fields], shape.order, lambda v: known.__setitem__(next(names), v))
    d.values.pop()
    d.shape = saved
    return d.b.cls(shape)(*vals)


def decode(ctx, b, shape, data, pos=0):
    """Reference unpack: (object, bytes consumed) or Reject."""
    d = Data(ctx, b, data, pos)
    o = dec_obj(d, shape)
    return o, d.pos - pos


def decode_all(ctx, b, shape, data):
    """(object, bytes consumed, canonicality conditions) or Reject."""
    d = Data(ctx, b, data)
    o = dec_obj(d, shape)
    return o, d.pos, d.canon


def min_size(shape):
    """Fewest bytes an object of the shape can occupy."""
    def one(f):
        if f.basic:
            return run_size([f], shape.order)
        if isinstance(f, Dyn):
            return SIZES[f.code]
        if isinstance(f, (Net, Term)):
            return 1
        if isinstance(f, Uni):
            return f.inner.n if f.inner.basic else one(f.inner)
        if isinstance(f, Tup):
            return sum(map(one, f.fields))
        if isinstance(f, Arr):
            head = (0 if isinstance(f.count, int) else SIZES[f.count]) + (SIZES[f.size] if f.size else 0)
            return head + (f.count * one(f.item) if isinstance(f.count, int) else 0)
        if isinstance(f, Nest):
            return min_size(f.shape)
        if isinstance(f, Lookback):
            return min([one(m) for m in f.members.values()] + ([one(f.default)] if f.default else []))
        if isinstance(f, Ahead):
            return min(map(one, [*f.members.values()] + ([f.default] if f.default else [])))
        if isinstance(f, Lookahead):
            return min([min_size(m) for m in f.members.values()] + ([min_size(f.default)] if f.default else []))
        if isinstance(f, Cond):
            return one(f.inner) if f.always else 0
        if isinstance(f, SelfRef):
            return 1
        return 0

    size, run = 0, []
    for _, f in shape.fields:
        if f.basic:
            run.append(f)
        else:
            size += run_size(run, shape.order) + one(f)
            run = []
    return size + run_size(run, shape.order)


class EncEnv:
    def __init__(self, ctx, shape, values):
        self.ctx, self.shape, self.values = ctx, shape, values


def enc_obj(env, shape, obj, order=None):
    names = [n for n, f in shape.fields if f.values]
    values = [getattr(obj, n) for n in names]
    sub = EncEnv(env.ctx, shape, dict(zip(names, values)))
    return enc_run(sub, [f for _, f in shape.fields], values, shape.order if order is None else order)


def encode(ctx, shape, obj, order=None):
    return enc_obj(EncEnv(ctx, shape, {}), shape, obj, order)


# ----------------------------------------------------------- shapes, classes
class Shape:
    def __init__(self, order, fields, text=None):
        self.order, self.fields, self.text = order, fields, text
        self.final = bool(fields) and fields[-1][1].final
        last = None
        self.before = []
        for name, f in fields:
            self._tags(f, last, name)
            if f.values:
                self.before.append(name)
            if isinstance(f, Basic) and f.code in 'bBhHiIqQ':
                last = name

    def _tags(self, f, last, name):
        if isinstance(f, (Lookback, Cond, Choosing)):
            f.tag = last
        if isinstance(f, (Lookahead, Ahead)):
            f.name = name
        if isinstance(f, Own):
            f.before = tuple(self.before)
        for sub in ([f.inner] if isinstance(f, Cond) else [f.item] if isinstance(f, Arr) else
                    f.fields if isinstance(f, Tup) else
                    list(f.members.values()) + ([f.default] if f.default else []) if isinstance(f, Lookback) else []):
            self._tags(sub, last, name)

    def attrs(self):
        return tuple(n for n, f in self.fields if f.values)


class Builder:
    """Builds the classes of shapes against one imported package."""

    def __init__(self, lib):
        self.lib, self.made, self.n = lib, {}, 0

    def order(self, o):
        return getattr(self.lib.ByteOrder, ORDERS[o])

    def cls(self, shape, order=None, name=None, bases='Structured', extra='', **names):
        order = shape.order if order is None else order
        key = (id(shape), order, name, bases)
        if key not in self.made:
            self.n += 1
            ns = {'__name__': 'sxgen', 'Structured': self.lib.Structured, 'ORDER': self.order(order),
                  'H': [f.hint(self) for _, f in shape.fields], **names}
            kw = ', byte_order=ORDER' if order else ''
            lines = [f'class {name or "K%d" % self.n}({bases}{kw}):']
            lines += [f'    {n}: H[{i}]' for i, (n, f) in enumerate(shape.fields)] or ['    pass']
            if extra:
                lines.append(extra)
            exec('\n'.join(lines), ns)
            self.made[key] = (ns[name or 'K%d' % self.n], shape)
        return self.made[key][0]


def make_value(ctx, b, shape, prefix='', depth=1, maxlen=None, items=None, cls=None, termlen=None):
    values = make_values(ctx, b, shape, prefix, depth, maxlen, items, termlen)
    return (cls or b.cls(shape))(*values)


def make_values(ctx, b, shape, prefix='', depth=1, maxlen=None, items=None, termlen=None):
    opts = getattr(ctx, 'opts', {})
    env = Env(ctx, shape, b.lib, depth)
    env.b = b
    env.maxlen = opts.get('maxlen', 70000) if maxlen is None else maxlen
    env.items = opts.get('items', 2) if items is None else items
    env.chars = opts.get('chars', 2)
    env.termlen = opts.get('termlen', 3) if termlen is None else termlen
    env.wild = opts.get('wild', False)
    env.counts = opts.get('counts')
    for name, f in shape.fields:
        if f.values:
            env.values[name] = f.value(env, prefix + name)
    return list(env.values.values())


# ------------------------------------------------------------------- parser
def parse(text):
    order, body = ('', text)
    if text and text[0] in '<>=@!':
        order, body = text[0], text[1:]
    fields, p = [], Parser(body)
    pads = 0
    while p.more():
        f = p.field()
        if not f.values:
            fields.append(('_', f))
        else:
            fields.append((f'f{len(fields)}', f))
        p.skip(',')
    return Shape(order, fields, text)


class Parser:
    def __init__(self, s):
        self.s, self.i = s, 0

    def more(self):
        return self.i < len(self.s)

    def peek(self):
        return self.s[self.i] if self.i < len(self.s) else ''

    def skip(self, c):
        if self.peek() == c:
            self.i += 1
            return True
        return False

    def need(self, c):
        if not self.skip(c):
            raise ValueError(f'expected {c!r} at {self.i} in {self.s!r}')

    def number(self):
        j = self.i
        while self.peek().isdigit():
            self.i += 1
        return int(self.s[j : self.i]) if self.i > j else None

    def inside(self):
        """Text up to the matching close parenthesis."""
        self.need('(')
        depth, j = 1, self.i
        while depth:
            c = self.s[self.i]
            depth += {'(': 1, ')': -1}.get(c, 0)
            self.i += 1
        return self.s[j : self.i - 1]

    def field(self):
        c = self.peek()
        self.i += 1
        if c in NAMES:
            return Basic(c)
        if c == 'x':
            n = self.number()
            return Pad(1 if n is None else n)
        if c == 'c':
            n = self.number()
            if n is not None:
                return FixedChar(n)
            self.i += 1
            return Dyn(self.s[self.i - 1])
        if c == 'p':
            return FixedChar(self.number(), True)
        if c == 'N':
            return Net()
        if c == 'O':
            self.i += 2
            return Own(self.s[self.i - 2], self.s[self.i - 1])
        if c == 'K':
            return Choosing()
        if c == '*':
            return Consume()
        if c == 't':
            self.i += 2
            return Term(int(self.s[self.i - 2 : self.i], 16))
        if c == 'u':
            inner, _, codec = self.inside().partition('|')
            return Uni(Parser(inner).field(), codec or None)
        if c == 'T':
            return Tup(split_fields(self.inside(), ';'))
        if c == 'W':
            return As(Parser(self.inside()).field())
        if c == 'A':
            n = self.number()
            if n is None:
                n = self.peek()
                self.i += 1
            size = None
            if self.peek() != '(':
                size = self.peek()
                self.i += 1
            return Arr(n, size, Parser(self.inside()).field())
        if c == 'S':
            return Nest(parse(self.inside()))
        if c == 'Z':
            return SelfRef()
        if c in 'ULM':
            if c == 'M':
                tag = self.peek()
                self.i += 1
            body = self.inside()
            main, default = split_top(body, '/')[0], (split_top(body, '/') + [None])[1]
            members = {}
            for part in split_top(main, ';'):
                k, v = part.split(':', 1)
                members[int(k)] = Parser(v).field()
            d = default and Parser(default).field()
            return Lookback(members, d) if c == 'U' else Lookahead(members, d) if c == 'L' else Ahead(tag, members, d)
        if c in 'CYV':
            return Cond(Parser(self.inside()).field(), {'C': None, 'Y': True, 'V': False}[c])
        raise ValueError(f'bad field {c!r} in {self.s!r}')


def split_top(s, sep):
    out, depth, cur = [], 0, ''
    for c in s:
        depth += {'(': 1, ')': -1}.get(c, 0)
        if c == sep and depth == 0:
            out.append(cur)
            cur = ''
        else:
            cur += c
    return out + [cur]


def split_fields(s, sep):
    return [Parser(p).field() for p in split_top(s, sep)]


def stream(data, pos=0):
    s = io.BytesIO(data)
    s.seek(pos)
    return s
