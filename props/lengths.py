"""Declared lengths as symbolic integers: char[n], pad[n], array[Header[n], T],
and serializers multiplied by a symbolic count."""
import io
import struct

from . import shapes as S
from .common import PACKERS, UNPACKERS, do_pack, do_unpack

HINTS = {
    'char': 'lib.char[n]', 'pad': 'lib.pad[n]', 'array': 'lib.array[lib.Header[n], lib.{}]', 'sized': 'lib.array[lib.Header[n, lib.uint32], lib.{}]',
    'tuple': 'tuple[lib.uint8, lib.char[n]]', 'tuple pad': 'tuple[lib.uint8, lib.pad[n], lib.uint8]', 'condition': 'Annotated[lib.char[n], lib.Condition(lambda o: True, None)]',
    'union': 'Annotated[Union[lib.char[n], lib.uint8], lib.LookbackDecider(lambda o: 0, {{0: lib.char[n]}})]',
    'items': 'lib.array[lib.Header[1], lib.char[n]]',
}


def declare(ctx, kind, order, most, least=0, item='uint16'):
    from typing import Annotated, Union

    lib = ctx.lib
    n = ctx.int('n', least, most)
    ns = {'lib': lib, 'n': n, 'BO': S.Builder(lib).order(order), 'Annotated': Annotated, 'Union': Union}
    exec(f'class A(lib.Structured, byte_order=BO):\n    a: lib.uint8\n    x: {HINTS[kind].format(item)}\n    b: lib.uint16\n', ns)
    return ns['A'], n


def gap(kind, order, n):
    """Alignment bytes before the last field."""
    if order not in ('', '@') or kind not in ('char', 'pad'):
        return 0
    return (n + 1) % 2


def layout(ctx, kind, order='<', most=70000, item='uint16', pack=True):
    """Every declared length: the bytes, the values, nothing but that many."""
    A, n = declare(ctx, kind, order, most, item=item)
    big = 'big' if order in ('>', '!') else 'little'
    size = struct.calcsize({'uint8': 'B', 'uint16': 'H', 'uint32': 'I', 'uint64': 'Q'}[item]) if kind in ('array', 'sized') else 1
    a, b = ctx.int('a', 0, 255), ctx.int('b', 0, 65535)
    head, tail = a.to_bytes(1, 'little'), bytes(gap(kind, order, n)) + b.to_bytes(2, big)
    body = ctx.bytes_of('x', n * size)
    mid = body
    if kind == 'sized':
        mid = (n * size).to_bytes(4, big) + body
    elif kind == 'tuple':
        mid = b'\x07' + body
    elif kind == 'tuple pad':
        mid = b'\x07' + body + b'\x08'
    data = head + mid + tail
    for how in UNPACKERS:
        r = ctx.attempt(do_unpack, A, how, data)
        ctx.check(r.ok, f'{how} rejects the {kind} of the declared length: {r!r}' if not r.ok else '')
        o = r.value
        ctx.check(A.serializer.size == len(data), f'{how}: size is not the number of bytes')
        ctx.check(o.a == a and o.b == b, f'{how}: the fields around the {kind} are wrong')
        if kind in ('char', 'condition', 'union'):
            ctx.check(type(o.x) is bytes and ctx.eq(o.x, body), f'{how}: the value of the {kind} is wrong')
        elif kind == 'tuple':
            ctx.check(type(o.x) is tuple and len(o.x) == 2 and o.x[0] == 7 and ctx.eq(o.x[1], body), f'{how}: wrong value')
        elif kind == 'tuple pad':
            ctx.check(type(o.x) is tuple and len(o.x) == 2 and o.x[0] == 7 and o.x[1] == 8, f'{how}: wrong value')
        elif kind == 'items':
            ctx.check(type(o.x) is list and len(o.x) == 1 and ctx.eq(o.x[0], body), f'{how}: wrong value')
        elif kind in ('array', 'sized'):
            ctx.check(type(o.x) is list and len(o.x) == n, f'{how}: number of items')
    if not pack:
        return
    want = data
    if kind == 'pad':
        want = head + bytes(n) + tail
    elif kind == 'tuple pad':
        want = head + b'\x07' + bytes(n) + b'\x08' + tail
    for how in PACKERS:
        r = ctx.attempt(do_pack, o, how)
        ctx.check(r.ok and ctx.eq(r.value, want), f'{how}: {r!r}' if not r.ok else f'{how} gives other bytes')
        ctx.check(A.serializer.size == len(data), f'{how}: size is not the number of bytes')


def short(ctx, kind, order='<', most=70000, item='uint16'):
    """One byte less is refused whatever the declared length."""
    A, n = declare(ctx, kind, order, most, item=item)
    size = struct.calcsize({'uint8': 'B', 'uint16': 'H', 'uint32': 'I'}[item]) if kind in ('array', 'sized') else 1
    need = 1 + n * size + {'sized': 4, 'tuple': 1, 'tuple pad': 2}.get(kind, 0) + gap(kind, order, n) + 2
    data = ctx.bytes_of('data', need - ctx.int('less', 1, 3))
    for how in UNPACKERS:
        r = ctx.attempt(do_unpack, A, how, data)
        ctx.check(not r.ok, f'{how} accepts input that is too short')


def count(ctx, items, order='<', most=70000, item='uint16', sized=False):
    """A list is packed exactly when it has the declared number of items."""
    A, n = declare(ctx, 'sized' if sized else 'array', order, most, item=item)
    x = [ctx.int(f'x{i}', 0, 255) for i in range(items)]
    big = 'big' if order in ('>', '!') else 'little'
    size = struct.calcsize({'uint8': 'B', 'uint16': 'H', 'uint32': 'I'}[item])
    o = A(1, x, 2)
    for how in PACKERS:
        r = ctx.attempt(do_pack, o, how)
        ctx.check(r.ok == (n == items), f'{how} of {items} items in an array of another declared length: {r!r}')
        if r.ok:
            want = b'\x01' + ((items * size).to_bytes(4, big) if sized else b'') + b''.join(v.to_bytes(size, big) for v in x) + (2).to_bytes(2, big)
            ctx.check(ctx.eq(r.value, want), f'{how} gives other bytes')


def repeat(ctx, text, op, order='<', most=70000):
    """serializer * n and serializer @ n for every n, negative ones included."""
    lib = ctx.lib
    import importlib

    ser = importlib.import_module(lib.__name__ + '.serializers')
    n = ctx.int('n', -3, most)
    if text == 'p':
        ctx.assume(n != 0)  # CPython's struct cannot unpack '0p'
    s = ser.StructSerializer(text, S.Builder(lib).order(order))
    one, values = struct.calcsize('<' + text), s.num_values
    r = ctx.attempt(lambda: s * n if op == '*' else s @ n)
    ctx.check(r.ok == (n >= 0), f'{text!r} {op} n: {r!r}')
    if not r.ok:
        ctx.check(type(r.exc) is ValueError, f'a negative count raises {r!r}')
        return
    m = r.value
    one_value = op == '@' and text[-1] in 'sp'
    ctx.check(m.size == n * one, f'{text!r} {op} n: size')
    ctx.check(m.num_values == (1 if one_value else values * n), f'{text!r} {op} n: num_values')
    data = ctx.bytes_of('data', n * one)
    for how in ('unpack', 'unpack_from', 'unpack_read'):
        if how == 'unpack':
            u = ctx.attempt(m.unpack, data)
        elif how == 'unpack_from':
            u = ctx.attempt(m.unpack_from, b'\x05' * 3 + data + b'\x06', 3)
        else:
            u = ctx.attempt(m.unpack_read, S.stream(data))
        ctx.check(u.ok, f'{text!r} {op} n: {how} fails {u!r}' if not u.ok else '')
        ctx.check(len(u.value) == (1 if one_value else values * n), f'{text!r} {op} n: {how} gives another number of values')
        if one_value and text[-1] == 's':
            ctx.check(ctx.eq(u.value[0], data), f'{text!r} {op} n: {how} gives other bytes')
    if one_value and text[-1] == 's':
        for how in ('pack', 'pack_write'):
            f = io.BytesIO()
            p = ctx.attempt(lambda: m.pack(data) if how == 'pack' else m.pack_write(f, data))
            ctx.check(p.ok and ctx.eq(p.value if how == 'pack' else f.getvalue(), data), f'{text!r} {op} n: {how}')
    if text == 'x':
        p = ctx.attempt(m.pack)
        ctx.check(p.ok and ctx.eq(p.value, bytes(n)), f'pads {op} n: {p!r}')
    less = ctx.attempt(m.unpack, data[:n * one - 1] if n else b'')
    ctx.check(less.ok == (n == 0), f'{text!r} {op} n accepts input that is too short')
