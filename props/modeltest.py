"""Validation of the models (struct, io, bytes, int, codecs): the harness only
records outcomes; the runner replays a witness of every path on CPython and
compares the recorded outcomes."""
import io
import struct


def pack(ctx, fmt):
    vals = value_list(ctx, fmt, True)
    ctx.attempt(struct.pack, fmt, *vals)
    buf = bytearray(b'\x55' * 24)
    off = ctx.int('off', -30, 30)
    ctx.attempt(struct.pack_into, fmt, buf, off, *vals)
    ctx.note(bytes(buf))


def value_list(ctx, fmt, wild):
    out, i = [], 0
    body = fmt.lstrip('@=<>!')
    num = ''
    for c in body:
        if c.isdigit():
            num += c
            continue
        n = int(num or 1)
        num = ''
        if c == 'x':
            continue
        for _ in range(1 if c in 'sp' else n):
            name = f'v{i}'
            i += 1
            if c in 'sp':
                out.append(ctx.blob(name, 0, n + 2))
            elif c == 'c':
                out.append(ctx.blob(name, 0, 2))
            elif c == '?':
                out.append(ctx.bool(name))
            elif c in 'efd':
                out.append(ctx.float(name, 'd', nan=False))
            else:
                bits = 8 * struct.calcsize('=' + c) if c not in 'nNP' else 64
                out.append(ctx.int(name, -(1 << bits), 1 << bits))
    return out


def unpack(ctx, fmt, n):
    data = ctx.blob('data', 0, n)
    ctx.attempt(struct.unpack, fmt, data)
    ctx.attempt(struct.unpack_from, fmt, data)
    off = ctx.int('off', -n - 2, n + 2)
    ctx.attempt(struct.unpack_from, fmt, data, off)
    ctx.attempt(struct.unpack_from, fmt, bytearray(data), offset=off)
    ctx.attempt(struct.Struct(fmt).unpack, memoryview(data))
    ctx.attempt(lambda: [list(x) for x in struct.iter_unpack(fmt, data)])
    ctx.note(struct.calcsize(fmt))


def dynamic(ctx, code):
    """Formats with a symbolic repeat count."""
    n = ctx.int('n', -3, 12)
    if code == 'p':
        ctx.assume(n != 0)  # CPython 3.12: SystemError, and a stray write
    data = ctx.blob('data', 0, 10)
    ctx.attempt(struct.calcsize, f'{n}{code}')
    ctx.attempt(struct.unpack_from, f'{n}{code}', data)
    ctx.attempt(struct.unpack, f'<{n}{code}', data)
    if code in 'sp':
        ctx.attempt(struct.pack, f'{n}{code}', data)
        buf = bytearray(20)
        ctx.attempt(struct.pack_into, f'>B{n}{code}', buf, 2, 5, data)
        ctx.note(bytes(buf))


def stream(ctx):
    data = ctx.blob('data', 0, 9)
    s = io.BytesIO(data)
    a = ctx.int('a', -2, 12)
    b = ctx.int('b', -2, 12)
    w = ctx.choose('whence', (0, 1, 2))
    ctx.attempt(s.read, b)
    ctx.attempt(s.seek, a, w)
    ctx.attempt(s.tell)
    ctx.attempt(s.read, 3)
    ctx.attempt(s.write, data)
    ctx.attempt(s.getvalue)
    ctx.attempt(s.tell)
    s.seek(1)
    ctx.attempt(s.read)
    ctx.attempt(s.truncate, 4)
    ctx.attempt(s.getvalue)
    with s.getbuffer() as v:
        ctx.attempt(len, v)
    t = bytearray(4)
    s.seek(1)
    ctx.attempt(s.readinto, t)
    ctx.note(bytes(t))


def slices(ctx):
    data = ctx.blob('data', 0, 8)
    a = ctx.int('a', -10, 10)
    b = ctx.int('b', -10, 10)
    ctx.note(data[a:b])
    ctx.note(data[a:])
    ctx.note(data[:b])
    ctx.attempt(lambda: data[a])
    v = memoryview(data)
    ctx.note(bytes(v[a:b]))
    ctx.attempt(lambda: v[b])
    w = bytearray(data)
    ctx.attempt(lambda: w.__setitem__(slice(a, b), b'xyz'))
    ctx.note(bytes(w))


def search(ctx, needle):
    data = ctx.blob('data', 0, 6)
    needle = bytes.fromhex(needle)
    a = ctx.int('a', -8, 8)
    ctx.note(data.find(needle))
    ctx.note(data.find(needle, a))
    ctx.attempt(data.index, needle)
    ctx.note(needle in data)
    ctx.note(data.endswith(needle))
    ctx.note(data.startswith(needle))
    ctx.note(data.rstrip(needle))
    ctx.note(data.lstrip(needle))
    ctx.note(list(data.partition(needle)))
    ctx.note(data.split(needle, 1))


def ints(ctx):
    a = ctx.int('a', -300, 300)
    b = ctx.int('b', -20, 20)
    for f in (lambda: a + b, lambda: a - b, lambda: a * b, lambda: a // b, lambda: a % b, lambda: a & b,
              lambda: a | b, lambda: a ^ b, lambda: a >> 3, lambda: a << 4, lambda: -a, lambda: abs(a),
              lambda: a == b, lambda: a < b, lambda: bool(a), lambda: list(divmod(a, 128)), lambda: ~a,
              lambda: a.to_bytes(2, 'big'), lambda: a.to_bytes(1, 'little'), lambda: a.to_bytes(2, 'little', signed=True),
              lambda: min(a, b), lambda: max(a, b, 3), lambda: bytes(b), lambda: bytes([a]), lambda: [0] * b,
              lambda: b'ab' * b, lambda: a.bit_length(), lambda: isinstance(a, int), lambda: float(a) == 5.0):
        ctx.attempt(f)


def text(ctx, codec, n):
    t = ctx.text('t', n, nul_end=True)
    ctx.attempt(t.encode, codec)
    ctx.note(t.rstrip('\0'))
    ctx.note(len(t))
    ctx.note('\0' in t)


def decode(ctx, codec, n):
    data = ctx.blob('data', 0, n)
    ctx.attempt(data.decode, codec)
    ctx.attempt(lambda: data.decode(codec).rstrip('\0'))


def methods(ctx):
    data = ctx.blob('data', 0, 4)
    n = ctx.int('n', 0, 7)
    ctx.note(data.ljust(n, b'\0'))
    ctx.note(data + bytes(n))
    ctx.note(b''.join([data, b'-', data]))
    ctx.note(list(data))
    ctx.note(bool(data))
    ctx.note(data == b'ab')
    ctx.note(int.from_bytes(data, 'big'))
    ctx.note(int.from_bytes(data, 'little', signed=True))
    w = bytearray(data)
    w.extend(data)
    w += b'!'
    ctx.note(bytes(w))
    del w[1:n]
    ctx.note(bytes(w))


def floats(ctx, code):
    f = ctx.float('f', code, nan=True)
    ctx.note(f != f)
    for c in 'efd' if f == f else ():  # NaN payloads are not modelled
        for o in '<>@':
            ctx.attempt(struct.pack, o + c, f)
    ctx.note(f == 1.5)
    ctx.note(f < 0)
    ctx.note(bool(f))
