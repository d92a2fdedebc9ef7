"""Models of the codecs the harnesses use: utf-8 (-sig), ascii, latin-1,
utf-16/32 (with and without byte order mark) and single-byte code pages.

Each is exact for strict errors; anything else falls back to realizing.
Validated against the real codecs by `selftest.py`.
"""
from __future__ import annotations

import codecs

import z3

from . import values as V


def name_of(encoding):
    return codecs.lookup(encoding).name


MODELLED = ('utf-8', 'ascii', 'iso8859-1', 'utf-16-le', 'utf-16-be', 'utf-32-le', 'utf-32-be')
BOMS = {'utf-16': codecs.BOM_UTF16_LE, 'utf-32': codecs.BOM_UTF32_LE, 'utf-8-sig': codecs.BOM_UTF8}
BODY = {'utf-16': 'utf-16-le', 'utf-32': 'utf-32-le', 'utf-8-sig': 'utf-8'}
_pages = {}


def page(name):
    """The real decoding table of a code page: 256 code points or None."""
    if name not in _pages:
        table = None
        if name.startswith(('cp', 'iso8859-', 'koi8', 'mac')) and name != 'cp65001':
            table = []
            for b in range(256):
                try:
                    c = bytes([b]).decode(name)
                    if len(c) != 1:
                        table = None
                        break
                    table.append(ord(c))
                except UnicodeDecodeError:
                    table.append(None)
            if table and sum(x is None for x in table) > 64:
                table = None  # a multi-byte code page
            if table:
                # only tables that encode back to the same bytes
                for b, c in enumerate(table):
                    try:
                        if c is not None and chr(c).encode(name) != bytes([b]):
                            table = None
                            break
                    except UnicodeEncodeError:
                        table = None
                        break
        _pages[name] = table
    return _pages[name]


def lookup(pairs, x):
    """The second of the pair whose first equals x (which is among them)."""
    if not V.is_sym(x):
        return dict(pairs)[x]
    runs = []  # (first, last, difference)
    for k, v in sorted(pairs):
        if runs and runs[-1][1] + 1 == k and runs[-1][2] == v - k:
            runs[-1][1] = k
        else:
            runs.append([k, k, v - k])
    w = 24
    e = z3.SignExt(w - x.e.size(), x.e) if x.e.size() < w else z3.Extract(w - 1, 0, x.e)
    out = z3.BitVecVal(0, w)
    for a, b, d in reversed(runs):
        out = z3.If(z3.And(e >= a, e <= b), e + z3.BitVecVal(d, w), out)
    vs = [v for _, v in pairs]
    return V.SymInt(out, min(vs), max(vs))


def among(keys, x):
    """Condition: x is one of the keys."""
    if not V.is_sym(x):
        return x in keys
    runs = []
    for k in sorted(keys):
        if runs and runs[-1][1] + 1 == k:
            runs[-1][1] = k
        else:
            runs.append([k, k])
    w = max(x.e.size(), 24)
    e = z3.SignExt(w - x.e.size(), x.e) if x.e.size() < w else x.e
    return V.mk_bool(z3.Or(*[z3.And(e >= a, e <= b) for a, b in runs]))


def encode(text, encoding='utf-8', errors='strict'):
    name = name_of(encoding)
    cps = V.text_cps(text)
    if errors == 'strict' and name in BOMS:
        return V.SymBytes.of([V.Lit(list(BOMS[name]))]) + encode(text, BODY[name])
    table = errors == 'strict' and name not in MODELLED and page(name)
    if errors != 'strict' or name not in MODELLED and not table:
        V.path().stats.note(f'realized: codec {name}')
        return V.realize(text).encode(encoding, errors)
    out = []

    def fail(i):
        raise UnicodeEncodeError(name, '?' * len(cps), i, i + 1, 'cannot encode (symbolic)')

    def b(x):
        out.append(V.int_item(x))

    for i, c in enumerate(cps):
        if table:
            pairs = [(x, k) for k, x in enumerate(table) if x is not None]
            if not V.decide(among([x for x, _ in pairs], c)):
                fail(i)
            b(lookup(pairs, c))
            continue
        if name in ('ascii', 'iso8859-1'):
            if not V.decide(c < (128 if name == 'ascii' else 256)):
                fail(i)
            b(c)
            continue
        if V.decide(c < 0x80) and name == 'utf-8':
            b(c)
            continue
        if V.decide(c < 0x10000):
            if V.decide(c >= 0xD800) and V.decide(c < 0xE000):
                fail(i)
        if name == 'utf-8':
            if V.decide(c < 0x800):
                b(0xC0 | (c >> 6))
                b(0x80 | (c & 0x3F))
            elif V.decide(c < 0x10000):
                b(0xE0 | (c >> 12))
                b(0x80 | ((c >> 6) & 0x3F))
                b(0x80 | (c & 0x3F))
            else:
                b(0xF0 | (c >> 18))
                b(0x80 | ((c >> 12) & 0x3F))
                b(0x80 | ((c >> 6) & 0x3F))
                b(0x80 | (c & 0x3F))
        else:
            order = 'little' if name.endswith('le') else 'big'
            if name.startswith('utf-32'):
                out.extend(V.int_bytes(c, 4, order))
            elif V.decide(c < 0x10000):
                out.extend(V.int_bytes(c, 2, order))
            else:
                c = c - 0x10000
                out.extend(V.int_bytes(0xD800 + (c >> 10), 2, order))
                out.extend(V.int_bytes(0xDC00 + (c & 0x3FF), 2, order))
    return V.SymBytes.of([V.Lit(out)])


def decode(buf, encoding='utf-8', errors='strict'):
    name = name_of(encoding)
    if errors == 'strict' and name in BOMS:
        rope = V.SymBytes.of(V.as_rope(buf))
        for bom, body in {'utf-16': [(codecs.BOM_UTF16_LE, 'utf-16-le'), (codecs.BOM_UTF16_BE, 'utf-16-be')],
                          'utf-32': [(codecs.BOM_UTF32_LE, 'utf-32-le'), (codecs.BOM_UTF32_BE, 'utf-32-be')],
                          'utf-8-sig': [(codecs.BOM_UTF8, 'utf-8')]}[name]:
            if V.decide(V.sx_len(rope) >= len(bom)) and V.decide(rope[: len(bom)] == bom):
                return decode(rope[len(bom):], body)
        return decode(rope, BODY[name])
    table = errors == 'strict' and name not in MODELLED and page(name)
    if errors != 'strict' or name not in MODELLED and not table:
        V.path().stats.note(f'realized: codec {name}')
        return bytes(V.realize(buf)).decode(encoding, errors)
    items = [V.item_int(x) for x in V.rope_items(V.as_rope(buf), 'decode')]
    n = len(items)
    out = []

    def fail(i):
        raise UnicodeDecodeError(name, bytes(n), min(i, n - 1), min(i + 1, n), 'cannot decode (symbolic)')

    i = 0
    while i < n:
        a = items[i]
        if table:
            pairs = [(k, x) for k, x in enumerate(table) if x is not None]
            if len(pairs) < 256 and not V.decide(among([k for k, _ in pairs], a)):
                fail(i)
            out.append(lookup(pairs, a))
            i += 1
            continue
        if name in ('ascii', 'iso8859-1'):
            if name == 'ascii' and not V.decide(a < 128):
                fail(i)
            out.append(a)
            i += 1
        elif name == 'utf-8':
            if V.decide(a < 0x80):
                out.append(a)
                i += 1
                continue
            if V.decide(a < 0xC2) or not V.decide(a < 0xF5):
                fail(i)
            k = 1 if V.decide(a < 0xE0) else 2 if V.decide(a < 0xF0) else 3
            if i + k >= n + 0 and i + k > n - 1:
                fail(i)
            v = a & (0x1F, 0x0F, 0x07)[k - 1]
            for j in range(1, k + 1):
                c = items[i + j]
                if not (V.decide(c >= 0x80) and V.decide(c < 0xC0)):
                    fail(i)
                v = (v << 6) | (c & 0x3F)
            if k == 2:
                if not V.decide(v >= 0x800) or (V.decide(v >= 0xD800) and V.decide(v < 0xE000)):
                    fail(i)
            if k == 3:
                if not V.decide(v >= 0x10000) or not V.decide(v < 0x110000):
                    fail(i)
            out.append(v)
            i += k + 1
        else:
            order = 'little' if name.endswith('le') else 'big'
            w = 4 if name.startswith('utf-32') else 2
            if i + w > n:
                fail(i)
            v = V.bytes_int([V.int_item(x) for x in items[i:i + w]], order, False)
            i += w
            if w == 4:
                if not V.decide(v < 0x110000):
                    fail(i)
                if V.decide(v >= 0xD800) and V.decide(v < 0xE000):
                    fail(i)
                out.append(v)
                continue
            if V.decide(v >= 0xD800) and V.decide(v < 0xE000):
                if not V.decide(v < 0xDC00) or i + 2 > n:
                    fail(i)
                w2 = V.bytes_int([V.int_item(x) for x in items[i:i + 2]], order, False)
                if not (V.decide(w2 >= 0xDC00) and V.decide(w2 < 0xE000)):
                    fail(i)
                i += 2
                v = 0x10000 + ((v & 0x3FF) << 10) + (w2 & 0x3FF)
            out.append(v)
    return V.SymText.of(out)
