"""What each property's check explores: tasks, bounds, assumptions."""
from sx.runner import Task

from . import catalog as K
from . import shapes as S

ASSUMPTIONS = [
    'CPython 3.12 semantics: the instrumented source runs on the real interpreter, only values are symbolic',
    'the struct and io modules, bytes/bytearray/memoryview/str/int/float/bool operations and the codecs ascii, '
    'latin-1, utf-8, utf-16, utf-32 are models (sx/), validated against CPython by selftest.py and by replaying a '
    'witness of every 17th path (and the first of every task) on the unmodified package',
    'x86-64 Linux (little endian, native alignment equals size)',
    'classes range over the shapes of the catalogue; their values and input bytes are symbolic',
]


def general(fn, shapes, task_s=12, **params):
    return [Task('general', fn, {'shape': s, **params}, task_s=task_s) for s in shapes]


def on_input(fn, shapes, extra=6, task_s=12, **params):
    """Harnesses over arbitrary input of up to min_size + extra bytes."""
    out = []
    for s in shapes:
        less = 2 if 'u(' in s else 4 if s.count('A') > 1 else extra
        out.append(Task('general', fn, {'shape': s, 'n': S.min_size(S.parse(s)) + less, **params}, task_s=task_s))
    return out


def select(spec, tier):
    return spec['tasks'](tier == 'thorough')


def plain_final(shapes):
    return [s for s in shapes if not S.parse(s).final]


def nonempty(shapes):
    return [s for s in shapes if S.min_size(S.parse(s)) > 0]


VALUES = ('values: every value of every field within the hint, byte strings up to 70000 bytes (terminated: 3), '
          'text up to 2 code points, arrays up to 2 items (3 in thorough), Self depth 1 (2 in thorough)')
PROPERTIES = {}


def prop(name, bounds, assumptions=()):
    def add(f):
        PROPERTIES[name] = {'tasks': f, 'bounds': bounds, 'assumptions': list(assumptions)}
        return f
    return add


def wide(deep):
    """Shapes for value-driven harnesses, the broad ones first."""
    out = K.unique(K.ordered(K.SAMPLE, '>'), K.alone(), K.ordered(K.between(), '>') if deep else [],
                   K.between(), K.ordered(K.alone(), '<>') if deep else [])
    return out


@prop('C01', [VALUES, 'shapes: every documented hint alone and between other fields, in several byte orders'])
def c01(deep):
    out = general('round_trip', wide(deep), 12 if not deep else 60)
    out += general('round_trip', K.pairs(), 12 if not deep else 60)
    if deep:
        out += general('round_trip', K.SELF + K.ARRAYS, 60, opts={'items': 3}, depth=2)
    return out


@prop('C02', [VALUES, 'shapes: every documented hint alone and between other fields, in several byte orders', 'declared lengths n of char, pad, static arrays: every n up to 70000 (up to 10 where items are packed)'])
def c02(deep):
    out = lengths('layout', 12 if not deep else 60, deep) + general('layout', wide(deep), 12 if not deep else 60)
    out += general('layout', K.pairs(), 12 if not deep else 60)
    if deep:
        out += general('layout', K.SELF + K.ARRAYS, 60, opts={'items': 3}, depth=2)
    return out


def lengths(fn, t, deep):
    out = []
    for k in ('char', 'pad', 'array', 'sized', 'tuple', 'tuple pad', 'condition', 'union', 'items'):
        for o in ('<', '@', '>', '', '=', '!') if deep else ('<', '@') if k in ('char', 'pad') else ('>',):
            for item in ('uint8', 'uint16', 'uint32') if deep and k in ('array', 'sized') else ('uint16',):
                kw = {'kind': k, 'order': o, 'item': item}
                if fn == 'layout':
                    if k == 'array':
                        out.append(Task('lengths', fn, {**kw, 'pack': False}, task_s=t))
                    if k in ('array', 'sized'):
                        kw['most'] = 10
                elif k == 'sized':
                    kw['most'] = 20
                out.append(Task('lengths', fn, kw, task_s=t))
    return out


@prop('C05', [VALUES, 'inputs: arbitrary bytes up to the least size of the shape plus 6'])
def c05(deep):
    out = K.interleave(general('sizes', wide(deep), 12 if not deep else 60),
                       on_input('sizes_input', K.alone(), 6, 12 if not deep else 60))
    return out


WILD = ('values: any integer up to twice the range, any double for any float type, byte strings of any length up to '
        '70000, fixed arrays of the wrong length, union tags that are not mapped')


@prop('C03', [VALUES, WILD, 'buffers up to 90000 bytes of arbitrary content, every offset up to their end; '
              'bytearray and memoryview targets; streams of up to 50 bytes at every position'])
def c03(deep):
    if not deep:
        small = {'maxlen': 300, 'items': 1, 'chars': 1}
        odd = [x for x in ('B', 'h,H', 'c3', 'cB', 'N', 't00', 'AB(H)', 'A2(H)', 'ABB(cB)', 'W(B)', 'B,U(0:B/H)', '*')]
        return K.interleave(general('pack_methods', K.ordered(K.SAMPLE, '>'), 8, opts=small, room=400),
                            general('pack_methods', K.unique(odd, K.ordered(odd, '>')), 8, opts={'wild': True, **small}, room=400),
                            general('pack_methods', K.alone(), 8, opts=small, room=400),
                            general('pack_methods', ['B,H,c3,I', 'cH', 'N', 't41', 'AB(H)', 'ABB(cB)', 'S(B,cB)', '*', 'B,U(0:B/cB)'], 8,
                                    view=True, opts=small, room=400),
                            general('into_from_the_end', K.ordered(K.SAMPLE, '>'), 8, opts=small),
                            turned(8))
    t, sh = 60, wide(deep)
    wild = general('pack_methods', [s for s in sh if 'u(' not in s], t, opts={'wild': True})
    tame = general('pack_methods', [s for s in sh if 'u(' in s], t)
    view = general('pack_methods', K.alone(), t, view=True)
    return K.interleave(tame, wild, view, turned(t), general('into_from_the_end', sh, t))


def turned(t):
    return [Task('general', 'turned_items', {'shape': s, 'other': '<>'[i % 2], 'opts': {'maxlen': 3, 'items': 2, 'chars': 1}}, task_s=t) for i, s in enumerate((
        'S(cB),B', 'S(H,cB),cB', 'AB(S(cB)),H', 'A2(S(N,H)),B', 'ABB(S(cB)),B', 'T(S(cB);B),cB', 'B,U(0:S(cB)/B),H', 'B,C(S(H,cB)),H', 'S(S(cB),H),B',
        'B,AB(Z),cB', 'B,C(Z),cB', 'L(1:B;2:cB),B', 'S(B,H,q),S(c3),cB'))]


@prop('C04', ['inputs: arbitrary bytes up to the least size of the shape plus 6; bytes, bytearray, memoryview; '
              'offsets 0 and 3'])
def c04(deep):
    t = 12 if not deep else 60
    return on_input('unpack_methods', wide(deep), 6 if not deep else 9, t)


@prop('C06', ['inputs: arbitrary bytes up to the least size of the shape plus 6, up to 5 arbitrary bytes before and after'])
def c06(deep):
    t = 12 if not deep else 60
    return K.interleave(on_input('embedded', wide(deep), 5 if not deep else 8, t), on_input('from_the_end', K.SAMPLE if not deep else wide(deep), 3 if not deep else 6, t))


@prop('C07', [VALUES, 'every proper prefix of the packed form; and arbitrary inputs up to the least size of the shape plus 3',
              'declared lengths n of char, pad, static arrays: every n up to 70000 (arrays with a size field: 20)'])
def c07(deep):
    t = 12 if not deep else 60
    sh = nonempty(plain_final(wide(deep)))
    endless = [T('text', 'term_none', t, place=pl, order='', term=x, lens=list(e)) for e in EDGES for pl, x in (('between', 0), ('tuple', 0x41), ('counted', 0xff))]
    return lengths('short', t, deep) + K.interleave(endless, general('truncated', sh, t), on_input('short_input', sh, 3 if not deep else 6, t))


@prop('C09', [WILD, 'arrays with 255 to 257 items for uint8 counts, 65535 and 65536 items for uint16',
              'lists of 0 to 3 items against every declared length up to 70000'])
def c09(deep):
    t = 12 if not deep else 60
    out = general('rejected', [s for s in wide(deep) if 'u(' not in s], t, opts={'wild': True})
    big = [general('rejected', ['AB(B)', 'B,AB(H),H', 'AB(c2)', 'AB(W(B))'], 25, opts={'counts': [255, 256, 257], 'maxlen': 2}),
           general('rejected', ['ABH(B)', 'ABB(B)', 'ABB(H)', '>A2B(cB)', 'ABB(S(c2))'], 25, opts={'counts': [127, 128, 255, 256], 'maxlen': 300}),
           general('rejected', ['ABB(cB)', 'B,A2B(cH)', 'A2B(N)'], 25, opts={'wild': True, 'items': 2, 'maxlen': 300}),
           general('rejected', ['u(cB|latin-1)', 'u(c3|ascii)'], 25, opts={'chars': 3})]
    if deep:
        big += [general('rejected', ['AH(B)'], 300, opts={'counts': [65535, 65536]})]
    counts = [Task('lengths', 'count', {'items': i, 'sized': z, 'order': o, 'item': item}, task_s=t) for i in range(4) for z in (False, True)
              for o, item in ((('<', 'uint16'),) if not deep else (('<', 'uint16'), ('>', 'uint32'), ('@', 'uint8'), ('', 'uint16')))]
    return counts + sum(big, []) + out


@prop('C24', ['inputs: arbitrary bytes up to the least size of the shape plus 6'])
def c24(deep):
    t = 12 if not deep else 60
    return on_input('repack', wide(deep), 6 if not deep else 9, t)


def each(module, fn, shapes, task_s=12, **params):
    return [Task(module, fn, {'shape': s, **params}, task_s=task_s) for s in shapes]


def inputs(module, fn, shapes, extra=5, task_s=12, **params):
    return [Task(module, fn, {'shape': s, 'n': S.min_size(S.parse(s)) + (2 if 'u(' in s else extra), **params}, task_s=task_s)
            for s in shapes]


ENDIAN = ['B,H,c3,I', 'b,cH,q', 'cI,H', 'cQ,h', 'u(cH),I', 'T(B;cH;H)', 'T(H;I)', 'W(h),H', 'AB(H),I', 'AH(I)', 'A2(q)',
          'AIH(H),H', 'A3H(H)', 'AHI(cH),H', 'AH(T(H;cH))', 'AH(S(>H,B)),H', 'AB(W(I))', 'B,U(0:H;1:I/cH),H', 'B,C(H),I',
          'B,C(cH),H', 'B,C(AH(H))', 'L(1:H;2:cH),I', 'MH(1:H;258:cH/I),H', 'Ms(0:H;1:I),H', 'Y(I),H', 'Y(cI)', 'S(>H,I),H', 'S(<H,cH),I', 'd,f,e', 'N,H', 't00,H',
          'p4,H', '?,I,Q', 'H,*', 'x2,H', 'AHH(AHH(H)),H', 'A2(C(H))', 'AH(U(0:H/I))', 'T(C(H);T(H;cI))', 'H,u(cB|latin-1),I']
ENDIAN_FIT = [s.replace('A2(C(H))', 'B,A2(C(H))').replace('AH(U', 'B,AH(U').replace('T(C(H)', 'B,T(C(H)') for s in ENDIAN]


@prop('C08', [VALUES, 'shapes: each kind of number, in every byte order; with_byte_order and overriding subclasses between '
              'all pairs of distinct orders of the listed shapes'])
def c08(deep):
    t = 12 if not deep else 60
    small = {'maxlen': 300, 'items': 1, 'chars': 1}
    if not deep:
        decl = [o + s for i, s in enumerate(ENDIAN_FIT) for o in ('>', ('<', '=', '!', '@', '')[i % 5])]
        pair = [(('<' if i % 3 else '!@'[i % 2]) + s, '>' if i % 3 else '<=='[i % 3]) for i, s in enumerate(ENDIAN_FIT)]
        inst = [Task('byteorder', 'instance', {'shape': s, 'other': o, 'opts': small}, task_s=t) for s, o in pair]
        der = [Task('byteorder', 'derived', {'shape': s, 'other': o, 'opts': small}, task_s=t) for s, o in pair
               if not S.parse(s).final]
        more = []
        for k, (a, o) in enumerate([('>', '<'), ('', '>'), ('=', '>'), ('@', '>'), ('<', '!'), ('>', '@'), ('!', '<'), ('>', '')]):
            more += [Task('byteorder', fn, {'shape': a + s, 'other': o, 'opts': small}, task_s=t) for i, s in enumerate(ENDIAN_FIT)
                     for fn in ('instance', 'derived') if fn == 'instance' or not S.parse(s).final]
        return K.interleave(each('byteorder', 'declared', decl, t, opts=small), inst, der) + more
    orders = ['<', '>', '=', '@', '!', '']
    decl = [o + s for o in orders for s in K.unique(ENDIAN_FIT, K.alone())]
    inst = [Task('byteorder', 'instance', {'shape': a + s, 'other': o}, task_s=t) for a in orders for o in orders
            for s in ENDIAN_FIT]
    der = [Task('byteorder', 'derived', {'shape': a + s, 'other': o}, task_s=t) for a in orders for o in orders
           for s in ENDIAN_FIT if not S.parse(s).final]
    return K.interleave(each('byteorder', 'declared', decl, t), inst, der)


HEADS = ['AB(H)', 'B,AB(H),H', '>AB(I),B', 'A3(H)', 'A0(B)', 'A2B(H)', '>A2H(H),H', 'ABB(H)', 'ABH(H),I', '>AHB(cB)',
         'ABB(cB),H', 'ABH(N)', 'A2B(t00)', 'ABI(T(B;cB))', '>ABQ(S(>H,cB))', 'A2B(S(B,cB))', 'ABB(AB(H))', 'ABB(ABB(B))',
         'B,ABB(U(0:B/cB))', 'B,ABH(C(cB))', 'ABB(W(H))', 'ABB(c3)', 'ABB(u(cB))', 'ABB(d)', 'ABB(?)', 'AIQ(q)', 'ABB(T(H;B))',
         'ABB(Z),H', 'B,ABH(U(0:H/Z))', 'cB,ABB(H),cB', 'B,I,AHH(H)', '@B,AIH(H)', '=AHI(T(B;H))', '!AHB(H)',
         'ABB(p4)', 'A3H(AB(H))', 'AB(A2B(cB))', 'ABB(S()),B', 'ABB(T(x;B;cB))']
SIZED = [s for s in HEADS if any(f.size for _, f in S.parse(s).fields if isinstance(f, S.Arr))]


@prop('C10', [VALUES, 'stored data sizes: any number; inputs: arbitrary bytes up to the least size of the shape plus 5',
              'arrays with up to 300 items for one-byte items'])
def c10(deep):
    t = 12 if not deep else 90
    o = {'maxlen': 300, 'items': 2, 'chars': 1}
    big = [Task('arrays', 'written', {'shape': s, 'opts': {'counts': c, 'maxlen': 3}}, task_s=t) for s, c in (
        ('AB(B)', [255]), ('ABB(B)', [255]), ('>AHH(B)', [256, 300]), ('ABB(H)', [127]), ('AHB(c2)', [127]))]
    out = K.interleave(each('arrays', 'written', HEADS, t, opts=o), each('arrays', 'stored_size', SIZED, t, opts=o),
                       inputs('arrays', 'read', HEADS, 5 if not deep else 8, t)) + big
    if deep:
        out += each('arrays', 'written', K.ordered(HEADS_PLAIN, '<>'), t, opts={'items': 3})
        out += each('arrays', 'stored_size', SIZED, t, opts={'items': 3})
    return out


HEADS_PLAIN = [s for s in HEADS if s[0] not in '<>=@!']


UNIONS = ['B,U(0:B;1:H/cB),H', 'B,U(0:B;1:H),I', 'B,U(3:cB;7:N/t00),H', 'B,U(0:T(B;cB);1:S(>H)),B', 'B,U(0:AB(H);1:A2(B)/I),H',
          'B,d,U(0:c3;1:p4/B),H', 'B,cB,U(0:W(H);1:?/d),B', 'B,U(0:S(B,cB);1:T(H;H)/B)', 'B,U(0:u(cB);1:c2/H),H',
          'B,U(0:Y(H);1:AB(cB)/B),B', 'B,U(0:cH;1:cI/cQ),B', 'B,x3,U(0:H;1:B),H', 'B,U(0:*;1:B/H)', 'B,AB(H),U(0:B/H),cB',
          'B,U(0:q;1:e/f),B', 'B,U(0:ABB(B);1:ABH(cB)/B),H', 'B,U(200:B;255:H/I),B', 'B,T(B;B),U(0:H/S()),B']


@prop('C11', [VALUES, 'decider results: every tag value, mapped, defaulted and unmapped; tags of 11 types, look-ahead reads '
              'of 11 types; inputs: arbitrary bytes up to 8-10'])
def c11(deep):
    t = 12 if not deep else 90
    o = {'maxlen': 300, 'items': 1, 'chars': 1}
    back = each('tagged', 'lookback', [x + s for s in UNIONS for x in ('<>' if deep else '<')] + ['>' + s for s in UNIONS[:6]], t, opts=o)
    binp = inputs('tagged', 'lookback_input', ['>' + s for s in UNIONS] + ['<' + s for s in UNIONS[:6 if not deep else 99]], 5 if not deep else 7, t)
    ahead, keys, sees = [], [], []
    reads = ['B', 'H', 'c2', 'cB', 'T(B;B)', 'u(c2)', 't00', 'b', '?', 'I', 'd']
    mem = [('H', 'cB', None), ('T(B;cB)', 'B', 'I'), ('c3', 'AB(H)', None), ('S(>H,B)', 'N', 'B'), ('cH', 'W(B)', 'cB'), ('t00', 'q', None)]
    for i, r in enumerate(reads):
        for j in range(2 if not deep else 6):
            m = mem[(i + j) % 6]
            for order in ('>' if (i + j) % 2 else '<') if not deep else '<>':
                ahead.append(Task('tagged', 'lookahead', dict(zip(('read', 'first', 'second', 'default'), (r, *m)), order=order,
                                                              n=9 if not deep else 12), task_s=t))
                keys.append(Task('tagged', 'keyed', dict(zip(('tag', 'first', 'second', 'default'), (r, *m)), order=order,
                                                         n=9 if not deep else 12), task_s=t))
    for k in ('U', 'A'):
        sees += each('tagged', 'sees', SEEN, t, kind=k)
    return K.interleave(back, binp, ahead, keys, sees)


SEEN = ['B,H', 'B,cB,H', 'cH', 'N,t00', 'u(cB),B', 'T(B;cB),x2', 'W(H),B', 'AB(H),I', 'A2(c2)', 'S(>H,cB)', 'B,U(0:B/cB)', 'B,C(H),B',
        'd,?', 'ABB(cB),c3', 'B,AB(C(H))', 'x3,p4', 'L(1:B;2:cB)',
        'B,C(Z)', 'B,C(Z),H', 'B,U(0:H/Z)', 'B,AB(Z)']
CONDS = [  # shape, {field index: condition}
    ('B,H,I', {1: 'odd'}), ('B,cB,H', {1: 'odd'}), ('B,H,cB', {2: 'four'}), ('B,x3,H', {1: 'odd'}), ('B,H', {1: 'self'}),
    ('cB,H,B', {1: 'two'}), ('B,B,H', {2: 'both'}), ('B,AB(H),I', {1: 'odd'}), ('B,T(B;cB),H', {1: 'more'}), ('B,S(>H,cB),H', {1: 'odd'}),
    ('B,H,cB,I', {1: 'odd', 2: 'four'}), ('B,H,H,H', {1: 'odd', 3: 'four'}), ('B,u(cB),H', {1: 'odd'}), ('B,N', {1: 'more'}),
    ('B,t00,H', {1: 'odd'}), ('S(B,H),cB,H', {1: 'attr'}), ('T(B;B),I,H', {1: 'order'}), ('d,H', {1: 'big'}), ('?,H,cB', {1: 'self', 2: 'not'}),
    ('B,W(H),B', {1: 'odd'}), ('B,H,B', {1: 'yes'}), ('B,H,B', {1: 'no'}), ('B,cB,B', {1: 'none'}), ('B,U(0:B/cB),H', {1: 'odd'}),
    ('B,*', {1: 'odd'}), ('u(cB),H', {1: 'text'}), ('B,ABB(cB),H', {1: 'odd'}), ('B,c3,p4,H', {1: 'odd', 2: 'even2'}),
    ('B,Y(H),H', {1: 'odd'}), ('B,T(x;B;H),I', {1: 'odd'}), ('B,x,H,x2', {1: 'odd', 3: 'four'}), ('B,H,q,d', {1: 'odd', 2: 'four', 3: 'even2'}),
    ('B,L(1:B;2:cB),H', {1: 'odd'}), ('B,H,cB', {1: 'odd', 2: 'two?'}), ('B,A2(T(B;H)),B', {1: 'odd'}),
    ('B,x2', {1: 'odd'}), ('x2,B,H', {2: 'second'}), ('B,Q', {1: 'more'}), ('B,H,I,Q', {1: 'odd', 2: 'four'}),
    ('B,x,Q,B', {1: 'odd', 2: 'even2'}), ('B,cB,AB(H),t00', {1: 'odd', 2: 'odd', 3: 'odd'})]


@prop('C12', [VALUES, 'conditions over earlier integers, strings, tuples, nested objects, text, and always-true/false ones; '
              'inputs: arbitrary bytes up to the least size of the shape plus 3'])
def c12(deep):
    t = 12 if not deep else 90
    out = []
    for i, (s, c) in enumerate(CONDS):
        for order in ('<>=' if deep else '>' if i % 2 else '<'):
            n = S.min_size(S.parse(s)) + (3 if not deep else 5)
            out.append(Task('tagged', 'conditional', {'shape': s, 'conds': c, 'n': n, 'order': order,
                                                      'opts': {'maxlen': 300, 'items': 1, 'chars': 1}}, task_s=t))
    out += each('tagged', 'sees', SEEN, t, kind='C')
    out += inputs('arrays', 'read', ['>B,' + k + ',H' for k in K.TAGGED if 'C(' in k] + ['T(C(H);B)'][:0], 4, t)
    return out


SELVES = ['B,AB(Z)', 'B,C(Z)', 'B,U(0:H/Z)', 'B,AB(U(0:H/Z)),H', 'B,T(U(0:H/Z);H)', 'AB(T(B;Z)),H', 'B,AB(Z),C(H)', 'B,ABH(Z),U(0:B/H)',
          'B,C(AB(Z)),cB', 'B,A2(U(0:H/Z)),U(0:B/cB)', 'B,U(0:cB/Z),C(cB),H', 'B,C(Z),C(H)', 'B,C(Z),U(0:B/H)', 'B,C(T(B;Z)),I',
          'B,U(0:B/T(Z;H)),H', 'B,U(0:B;1:Z/AB(Z)),cB', 'cB,AB(Z),H', 'B,N,ABB(Z),t00', 'B,C(Z),AB(H)', 'B,H,AB(Z),T(B;cB)',
          'B,C(Z),L(1:B;2:cB)', 'B,C(Z),u(cB)', 'x2,B,C(Z),x']


@prop('C17', [VALUES, 'Self through unions, arrays, tuples, conditions, depth 2 (3 in thorough); and in subclasses with one more field; '
              'inputs: arbitrary bytes up to the least size of the shape plus 5'])
def c17(deep):
    t = 12 if not deep else 120
    o = {'maxlen': 300, 'items': 1 if not deep else 2, 'chars': 1}
    out = []
    for sub in (False, True):
        out.append([Task('tagged', 'nested_self', {'shape': ('>' if i % 2 else '<') + s, 'depth': 2 if not deep else 3, 'sub': sub, 'opts': o}, task_s=t)
                    for i, s in enumerate(SELVES)])
        out.append([Task('tagged', 'nested_input', {'shape': ('<' if i % 2 else '>') + s, 'n': S.min_size(S.parse(s)) + (5 if not deep else 8), 'sub': sub}, task_s=t)
                    for i, s in enumerate(SELVES)])
    return K.interleave(*out)


PARTS = ['B', 'H,c3', 'I,x2', 'cB', 'N', 't00', 'T(B;H)', 'W(H)', 'W(B),H', 'AB(H)', 'A2(H)', 'ABB(cB)', 'S(>H,B)', 'u(cB)', 'x3',
         'p4,?', 'T(B;cB)', 'd', 'cB,t00', 'B,cB', 'cB,H', 'q,B', 'W(B),W(H)', 'c0', 'A2(W(B))', 'T(x;B)']
LAST = ['*', 'B,*', 'u(*)']
FORMATS = [['B', 'H'], ['2s', 'B'], ['3x', 'I'], ['B', 'x'], ['', 'B'], ['H', ''], ['2B', '3H', 'q'], ['4p', 's'], ['c', '2c', 'B'], ['1s', '1s'],
           ['0s', 'B', '0s'], ['?', '2?'], ['e', 'f', 'd'], ['x', 'x', 'B'], ['b', 'b', 'b', 'b'], ['B', '3B', '10B'], ['Bx', 'xH'], ['5s2x', '2H3s'],
           ['h', 'hh', '2h'], ['10s', '12s'], ['0B', 'H'], ['BH', '1H'], ['sB', 'B'], ['2p', '2p'], ['2x', '3x', 'B'], ['B', 'I', 'B', 'Q']]


@prop('C13', ['serializers of the listed kinds added two, three and four at a time in every grouping, in every byte order; raw struct '
              'formats; products with 0 to 5; @ with 0, 1, 2, 7, 300; single formats times every n from -3 to 70000 (several codes: 20); ' + VALUES])
def c13(deep):
    t = 12 if not deep else 60
    o = {'maxlen': 300}
    T = lambda fn, **kw: Task('algebra', fn, kw, task_s=t)
    orders = ['<', '>', '=', '!', '@', '']
    two = [T('total', parts=[a, b], order=orders[(i + j) % 6], opts=o) for i, a in enumerate(PARTS) for j, b in enumerate(PARTS)
           if deep or (i * 7 + j) % 5 == 0]
    two += [T('total', parts=[a, b], order='@', opts=o) for a in ('B', 'c3', 'cB', 'W(B)') for b in ('H', 'Q', 'd', 'W(H)', 'AB(H)')]
    three = [T('total', parts=[PARTS[i], PARTS[(i * 5 + k) % 26], PARTS[(i * 3 + 2 * k) % 26]], order=orders[(i + k) % 6], opts=o)
             for k in range(1, 2 if not deep else 9) for i in range(len(PARTS))]
    three += [T('total', parts=[a, b, x], order='<', opts=o) for (a, b), x in zip([('B', 'H'), ('W(B)', 'H'), ('cB', 'B')], LAST)]
    four = [T('total', parts=[PARTS[i], PARTS[(i + k) % 26], PARTS[(2 * i + k) % 26], PARTS[(3 * i + 1) % 26]], order=orders[i % 6], opts=o)
            for k in ((3,) if not deep else (1, 3, 5, 7)) for i in range(0, 26, 2 if not deep else 1)]
    fm = [T('formats', fmts=f, order=x) for i, f in enumerate(FORMATS) for x in (orders if deep else (orders[i % 6], '@'))]
    marks = [[True, False, True, False], [False, True, False, True], [True, True, False, False], [False, False, True, True]]
    am = [T('action_formats', fmts=f, marks=m[: len(f)], order=orders[i % 6]) for i, f in enumerate(FORMATS)
          if not set(''.join(f)) & set('scp?efd') for m in marks[: 2 if not deep else 4]]
    tm = [T('times', fmt=f, order=orders[i % 6], action=a, counts=[-1, 0, 1, 2, 3, 5]) for i, f in enumerate(
        ['B', 'H', '2s', 'x', 'BH', '3x', '2B', 'cB', 'd', '?', '4p', 'xB', 'Bx', '0s', '', 'hq', '10s', '1s', 's', 'sB'])
        for a in ((False, True) if not set(f) & set('scp?efd') and f.strip('0123456789x') else (False,))]
    fo = [T('folded', fmt=f, order=orders[i % 6], counts=[-1, 0, 1, 2, 7, 300]) for i, f in enumerate(['s', '1s', '2s', '10s', 'p', '3p', 'x', '2x', '0s'])]
    fo += [T('folded', fmt=f, order=orders[i % 6], counts=[-1, 0, 1, 2, 7], action=True) for i, f in enumerate(['s', '2s', 'p', '3p'])]
    mx = [T('mixed', first=a, second=b, o1=x, o2=y) for a, b in (('B', 'H'), ('W(H)', 'B'), ('c3', 'W(B)'), ('x2', 'I'))
          for x in orders for y in orders if x != y]
    nul = [T('with_null', part=p, order=orders[i % 6]) for i, p in enumerate(PARTS + LAST)]
    rep = [Task('lengths', 'repeat', {'text': f, 'op': '*', 'order': orders[i % 6]}, task_s=t) for i, f in enumerate('xHbQf?')]
    rep += [Task('lengths', 'repeat', {'text': f, 'op': '*', 'order': orders[i % 4], 'most': 20}, task_s=t)
            for i, f in enumerate(('s', '3s', '2H', 'HB', 'Hx', '3x'))]
    rep += [Task('lengths', 'repeat', {'text': f, 'op': '@', 'order': orders[i % 6]}, task_s=t) for i, f in enumerate('spxHB')]
    kinds = ['plain', 'back', 'ahead', 'condition', 'tuple', 'back default']
    one = [T('single', part=p, kind=k, order=orders[(i + j) % 6]) for j, k in enumerate(kinds)
           for i, p in enumerate([p for p in PARTS + ['*', 'u(*)'] if len(S.parse(p).fields) == 1]) if (p != 'x3' or j == 0) and (p, k) != ('c0', 'ahead') and ('*' not in p or k != 'tuple')]
    return K.interleave(two, three, four, fm, am, tm, fo, nul, mx, rep, one)


BASE3 = [('a', 'B'), ('b', 'H'), ('c', 'cB')]
CHANGES = ['None', 'int', 'ClassVar', 'I', 'cH', 'T(B;H)', 'AB(H)', 'x2', 'W(H)', 'N', 'S(>H,B)', 't00', 'c3', 'Any', 'list', 'str', 'Y(H)',
           'u(cB)', 'A2(c2)', 'p3', '?', 'd']
LEVELS = [
    [[('a', 'B'), ('b', 'H')], [('b', 'cB'), ('c', 'I')]],
    [[('a', 'B'), ('b', 'H')], [('a', 'None'), ('c', 'I')]],
    [[('a', 'B'), ('b', 'H'), ('c', 'B')], [('b', 'None')], [('a', 'H'), ('d', 'B')]],
    [[('_', 'x'), ('a', 'B'), ('_', 'x2')], [('_', 'x3'), ('b', 'H'), ('_', 'x')]],
    [[('_', 'x2'), ('a', 'B')], [('a', 'H')], [('_', 'x'), ('b', 'cB'), ('a', 'I')]],
    [[('a', 'B'), ('p', 'x3'), ('b', 'H')], [('p', 'H'), ('b', 'x2')]],
    [[('a', 'B'), ('k', 'ClassVar'), ('b', 'H')], [('k', 'B'), ('m', 'ClassVar')]],
    [[('a', 'B'), ('k', 'int'), ('b', 'H')], [('k', 'cB'), ('b', 'str')]],
    [[('a', 'B')], [('b', 'H')], [('c', 'cB')], [('d', 'T(B;H)')]],
    [[], [('a', 'B')], [], [('b', 'H')]],
    [[('a', 'S(>H,B)'), ('b', 'AB(H)')], [('a', 'AB(B)'), ('c', 'S(B)')]],
    [[('a', 'cB'), ('b', 'W(B)')], [('b', 'W(H)'), ('c', 'Y(H)'), ('a', 't00')]],
    [[('z', 'B'), ('a', 'H')], [('b', 'B'), ('a', 'B'), ('z', 'H')]],
    [[('a', 'B'), ('b', 'H'), ('c', 'I')], [('a', 'None'), ('b', 'None'), ('c', 'None')], [('d', 'H')]],
    [[('a', 'B'), ('b', 'H')], [('b', 'ClassVar')], [('c', 'B')]],
    [[('a', 'B'), ('_', 'x0'), ('b', 'H'), ('_', 'x0')], [('_', 'x0'), ('c', 'Q')]],
    [[('a', 'B'), ('_', 'Y(x2)'), ('b', 'H')], [('_', 'x'), ('c', 'N')]],
    [[('a', 'T(B;cB)'), ('b', 'u(cB)')], [('a', 'u(cB)'), ('b', 'T(x;B)')]],
    [[('a', 'H'), ('b', 'B'), ('c', '*')], [('a', 'B'), ('c', 'B')], [('d', '*')]],
    [[('a', 'B'), ('b', 'Q')], [('a', 'Q'), ('b', 'B')], [('a', 'B'), ('b', 'Q'), ('c', 'H')]],
    [[('_', 'x'), ('_', 'x2'), ('_', 'x3')], [('_', 'x'), ('a', 'B')]],
    [[('_priv', 'B'), ('__', 'H'), ('A', 'B')], [('_x', 'H'), ('_priv', 'H')]],
    [[('a', 'B'), ('a', 'H'), ('b', 'B')], [('b', 'H'), ('b', 'cB')]],
    [[('a', 'B'), ('b', 'Any'), ('c', 'list')], [('b', 'B'), ('c', 'B'), ('a', 'Any')]],
]


@prop('C14', ['hierarchies of up to four levels; every single-field change out of 22 to a base of three fields; the byte orders; '
              'inputs: arbitrary bytes up to 9-14; ' + VALUES])
def c14(deep):
    t = 15 if not deep else 90
    o = {'maxlen': 300, 'items': 1, 'chars': 1}
    T = lambda fn, **kw: Task('classes', fn, kw, task_s=t)
    n = 9 if not deep else 14
    hier = []
    for i, lv in enumerate(LEVELS):
        ways = [{}, {'future': True}] + ([{'mixin': 'before'}, {'mixin': 'after'}, {'defaults': True}] if deep else [
            [{'mixin': 'before'}, {'mixin': 'after'}, {'defaults': True}][i % 3]])
        for j, w in enumerate(ways):
            hier.append(T('hierarchy', levels=lv, orders='@<>=!'[(i + j) % 5] if not deep or j else '@', n=n, opts=o, **w))
        if len(lv) > 1 and any(a != '_' and x[0] not in 'CAi*' for a, x in lv[0]):
            hier.append(T('hierarchy', levels=lv, orders='@<>=!'[i % 5], n=n, opts=o, generic=True))
        hier.append(T('hierarchy', levels=lv, orders=['<>', '>!<', '=@>', '@<'][i % 4][:1] and [('<>!=@>'[(i + k) % 6]) for k in range(len(lv))],
                      override=True, n=n, opts=o))
    gen = [T('generated', base=BASE3, changes=CHANGES[i : i + 4], order='@<>'[i // 4 % 3], n=n, opts=o, future=f)
           for i in range(0, len(CHANGES), 4) for f in (False, True)]
    gen += [T('generated', base=[('_', 'x2'), ('a', 'H'), ('_', 'x'), ('b', 'T(B;H)'), ('c', 'AB(H)')], changes=['None', 'I', 'cB', 'x2'], order='=', n=n, opts=o)]
    orders = ['<', '>', '=', '!', '@', '']
    ref = [T('orders_refused', first=a, second=c, mode=m) for a in orders for c in orders for m in ('STRICT', 'OVERRIDE')]
    ref += [T('orders_refused', first=a, second=None, mode=None) for a in orders]
    return K.interleave([T('two_bases')], hier, gen, ref)


@prop('C16', ['32 read-to-the-end forms, each before 28 kinds of field in 7 places and as an array item; each in last position in 8 places; '
              'inputs up to 70000 bytes for plain ones, the least size plus 6 for others'])
def c16(deep):
    from . import classes as L
    t = 15 if not deep else 90
    T = lambda fn, **kw: Task('classes', fn, kw, task_s=t)
    ref = [T('refused', end=e, where=w) for e in L.ENDS for w in L.WHERE
           if not (w != 'class' and ('U(' in e or 'C(' in e) and w in ('generic',))]
    acc = [T('accepted', end=e) for e in L.ENDS if not e.startswith(('U', 'C'))]
    acc += [T('accepted', end=e) for e in L.ENDS if e.startswith(('U', 'C'))]
    every = [T('reads_all', shape=s, n=70000) for s in ('B,*', '*', 'H,T(B;*)', 'B,S(>H,*)', 'Y(*)', 'q,*', 'B,T(B;T(H;*))', 'c3,Y(S(B,*))')]
    data = inputs('arrays', 'read', ['B,' + e for e in L.ENDS], 6 if not deep else 9, t)
    vals = general('layout', ['B,' + e for e in L.ENDS], t, opts={'maxlen': 300, 'items': 1, 'chars': 2})
    return K.interleave(ref, acc, every, data, vals)


TRIPLES = [('H', 'B', 'cB'), ('cB', 'I', 'B'), ('T(B;H)', 'c3', 'h'), ('AB(H)', 'B', 'N'), ('S(>H,B)', 'cB', 'W(H)'), ('u(cB|latin-1)', 'q', 't00'),
           ('W(B)', 'H', '?'), ('?', 'T(B;cB)', 'd'), ('N', 't41', 'p3'), ('B', 'I', 'H'), ('c2', 'AB(B)', 'b'), ('t00', 'H', 'u(cH|ascii)')]


@prop('C15', ['71 ways of specializing, each with several of 12 triples of types; inputs: arbitrary bytes up to 8 (thorough: 11); values '
              'as in C01 for the direct ways'])
def c15(deep):
    from . import generics as G
    t = 15 if not deep else 60
    out = []
    for i, name in enumerate(G.CASES):
        for j in range(1 if not deep else 12):
            a, b, c = TRIPLES[(i + j * 5) % 12] if not deep else TRIPLES[(i + j) % 12]
            # (a huge count of strings takes minutes to refuse)
            ty = {'0': a, '1': b, '2': c, 'int': 'B' if {a[0], b[0]} & set('cp') else 'BHI'[(i + j) % 3], 'int2': 'HB'[j % 2] if b[0] not in 'cp' else 'B'}
            out.append((j, Task('generics', 'case', {'name': name, 'types': ty, 'n': 7 if not deep else 11}, task_s=t)))
            if name != 'self' and (j == 0 or deep):
                out.append((2, Task('generics', 'case', {'name': name, 'types': ty, 'n': 5 if not deep else 6, 'future': True}, task_s=t)))
    out = [x for _, x in sorted(out, key=lambda x: x[0])]
    vals = [Task('generics', 'values', {'name': n, 'types': dict(zip('012', tr)), 'shape': s}, task_s=t)
            for n, s in (('subclass more', '012'), ('three', '201'), ('swap', '100'), ('rotate', '120'), ('levels', '0111'), ('override', '21'),
                         ('implicit', '10'), ('rotate twice', '2100')) for tr in TRIPLES[: 3 if not deep else 12]]
    ap = [Task('generics', 'apart', {'first': a, 'second': b, 'how': h, 'n': 5 if not deep else 9}, task_s=t) for i, (a, b, _) in enumerate(TRIPLES)
          for j, h in enumerate(('sub', 'hint', 'mix', 'level', 'array')) if deep or (i + j) % 2]
    ints = [('B', 'H'), ('H', 'B'), ('I', 'B'), ('H', 'Q')]
    sh = [Task('generics', 'sharing', {'alias': a, 'types': dict(zip('01', ints[(i + k) % 4])), 'n': 7 if not deep else 10, 'order': (i + k) % 4}, task_s=t)
          for k in range(1 if not deep else 4) for i, a in enumerate(G.ALIASES)]
    from .generics import INIT_PLACES, OWN_INIT

    own = [Task('generics', 'initialized', {'style': st, 'place': p, 'types': {'0': x, '1': 'B'}, 'n': 10 if not deep else 14}, task_s=t)
           for x in (['H'] if not deep else ['H', 'cH', 'AB(H)', 'T(H;B)']) for st in OWN_INIT for p in INIT_PLACES]
    return K.interleave(out, vals, ap, sh, twins(t, deep), own)


def twins(t, deep):
    return [Task('generics', 'twins', {'how': f'{a} {u}', 'types': {'0': x}, 'n': 5 if not deep else 9}, task_s=t)
            for x in (['H'] if not deep else ['H', 'cH', 'AH(H)', 'T(H;I)', 'd']) for u in ('hint', 'array', 'base', 'tuple') for a in ('generic', 'argument')]


USED = ['B,H,c3,I', 'B,cB,H', 'N,H', 'B,t00,B', 'B,T(B;cB),H', 'B,AB(H),H', 'A2(c2),B', 'ABB(cB),B', 'A2H(S(>H,B)),B', 'S(<H,cB),I',
        'B,U(0:B;1:H/cB),H', 'B,C(H),I', 'B,C(T(B;cB)),H', 'L(1:B;2:cB),H', 'Ms(0:H;1:B;2:cB),H', 'MH(1:B;258:cB/H),B', 'B,C(Z),H', 'B,AB(Z),C(H)', 'B,U(0:H/Z),cB', 'B,AB(U(0:B/H)),B',
        'B,T(U(0:B/H);C(cB)),B', 'W(H),B', 'u(cB|latin-1),H', 'B,*', 'B,AB(S(B,C(H))),B', 'B,C(AB(Z)),H', 'Y(cB),B', 'B,U(0:S(B,cB)/AB(B)),H',
        'B,U(0:B;1:H),I', 'AB(T(B;cB)),H', 'B,C(x3),H', '?,d,B', 'B,u(N|ascii),B', 'AB(AB(B)),B', 'B,S(B,U(0:B/H)),U(0:H/B)', 'B,cB,cH,N']
EARLIER = ['unpack create_unpack', 'pack', 'unpack create_unpack_read', 'pack_write', 'unpack unpack_from', 'pack_into', 'small buffer', 'broken read',
           'broken write', 'order', 'derived', 'container', 'same hints', 'double', 'unpack unpack', 'unpack create_unpack_from', 'unpack unpack_read']


@prop('C18', ['histories of one earlier operation (17 kinds: succeeding or failing, on the same class, a subclass, a container, another class '
              'with the same hints, with a stream failing at any call) then one operation of every kind, against a freshly imported package; '
              'objects used before in 11 ways, then given other values; '
              'inputs: arbitrary bytes up to the least size of the shape plus 3; values up to 3 bytes, 1 item'])
def c18(deep):
    t = 6 if not deep else 60
    hist = []
    for i, s in enumerate(USED):
        m = S.min_size(S.parse(s))
        for j, e in enumerate(EARLIER):
            if e in ('derived', 'container', 'double') and S.parse(s).final:
                continue
            if e == 'double' and set('UCL') & set(s):
                continue
            if not deep and (i + j) % 6:
                continue
            n1 = m + 1 + (m if e == 'double' else 2 if e == 'container' else 0)
            for how in ([UNPACK3[(i + j // 4) % 3]] if not deep else UNPACK3):
                hist.append((j, Task('history', 'after', {'shape': s if (i + j) % 2 else '>' + s, 'kind': e, 'n1': n1, 'n2': m + (1 if not deep else 4), 'how': how,
                                                          'other': '<' if not (i + j) % 2 else '>'}, task_s=t)))
    hist = [x for _, x in sorted(hist, key=lambda x: x[0])]
    bufs = [Task('history', 'buffers', {'shape': s, 'n': S.min_size(S.parse(s)) + 4, 'how': h, 'kind': k}, task_s=t)
            for i, s in enumerate(K.unique(USED, K.STRINGS, K.FINAL, ['B,C(*)', 'B,U(0:B/*)', 'A2(t00)', 'AB(N)', 'p4,c3', 'T(N;*)', 'B,C(S(B,*))']))
            for j, (h, k) in enumerate([('create_unpack', 'bytearray'), ('create_unpack_from', 'memoryview'), ('unpack', 'memoryview'), ('unpack_from', 'bytearray'),
                                        ('create_unpack', 'memoryview'), ('create_unpack_read', ''), ('unpack_read', '')]) if deep or (i + j) % 3 == 0]
    bad = [Task('history', 'faulty', {'kind': k, 'n': 6}, task_s=t) for k in ('decider', 'ahead', 'condition', 'factory', 'in array', 'in tuple', 'codec')]
    from .history import REUSES

    again = [(j, Task('history', 'reused', {'shape': s if (i + j) % 2 else '>' + s, 'kind': k, 'how': h, 'n': S.min_size(S.parse(s)) + 2,
                                            'other': '<' if not (i + j) % 2 else '>'}, task_s=t))
             for i, s in enumerate(USED) for j, k in enumerate(REUSES) for m, h in enumerate(('pack', 'pack_into', 'pack_write')) if deep or (i + j) % 4 == 0 and (i + j // 4) % 3 == m]
    again = [x for _, x in sorted(again, key=lambda x: x[0])]
    return K.interleave(hist, bufs, bad, twins(t, deep), again)


UNPACK3 = ['create_unpack', 'unpack_from', 'create_unpack_read']


OBJECTS = ['B,H,c3', 'B', '', 'cB,H', 'x2,B,x,H', 'B,T(B;cB),H', 'B,AB(H),N', 'S(>H,B),t00', 'B,U(0:B;1:H/cB),H', 'B,C(H),I', 'W(H),B', 'u(cB|latin-1),?', 'B,x,C(Z)',
           'B,AB(Z)', 'B,AB(S(B,cB))', 'd,f', 'B,*', 'T(T(B;H);W(B)),q', 'L(1:B;2:cB),B', 'p4,A2(c2)', 'B,H,I,Q,b,h,i,q', '?,e,B']


@prop('C19', ['objects of the listed classes: up to 8 attributes; every number of positional arguments, keywords in two orders, every left-out argument; '
              '41 kinds of field names; pairs of arbitrary objects with values up to 3 bytes, 1 item'])
def c19(deep):
    t = 10 if not deep else 60
    eq = each('objects', 'equal', OBJECTS, t)
    if deep:
        eq += each('objects', 'equal', K.alone(), t) + each('objects', 'equal', OBJECTS, t, opts={'items': 2, 'maxlen': 5})
    from .objects import WORDS

    words = [Task('objects', 'named', {'words': WORDS[i : i + 4], 'base': z}, task_s=t) for z in (False, True) for i in range(0, len(WORDS), 4)]
    if deep:
        words += [Task('objects', 'named', {'words': [*reversed(WORDS[i : i + 7])], 'base': z}, task_s=t) for z in (False, True) for i in range(0, len(WORDS), 3)]
    return K.interleave(words, each('objects', 'construct', OBJECTS, t), eq, each('objects', 'text', OBJECTS, t),
                        inputs('objects', 'unpacked', [s for s in OBJECTS if 'Z' not in s], 2, t), each('objects', 'any_object', OBJECTS, t),
                        inputs('objects', 'own_init', [s for s in OBJECTS if not set('xZ') & set(s)], 2, t, kind='dataclass'),
                        inputs('objects', 'own_init', [s for s in OBJECTS if 'Z' not in s], 2, t, kind='own'))


STRINGS = ['c0', 'c1', 'c5', 'cB', 'cH', 'cI', 'cQ', 'N', 't00', 't41', '*']
ALL_PLACES = ('alone', 'between', 'tuple', 'array', 'struct', 'union', 'condition', 'last', 'counted', 'sized')
CODECS = ['', 'utf-8', 'ascii', 'latin-1', 'utf-16-le', 'utf-16-be', 'utf-32-le', 'utf-32-be', 'utf-16', 'utf-32', 'utf-8-sig', 'cp1252', 'cp437', 'iso8859-15', 'koi8-r', 'cp037']


def T(module, fn, task_s, **params):
    return Task(module, fn, params, task_s=task_s)


def around(inner):
    return ('alone', 'last') if inner == '*' else ALL_PLACES


@prop('C20', ['arbitrary encodings (any bytes for any text, up to 300 bytes, 3 code points), and codecs utf-8, ascii, latin-1, utf-16, utf-32, utf-8-sig and '
              'single-byte code pages on texts of up to 2 (thorough: 4) code points and inputs of up to 7 (thorough: 12) bytes; every length form in 10 places'])
def c20(deep):
    t = 8 if not deep else 60
    hows = ('class', 'instance', 'static', 'sub', 'unhashable instance')
    tp, tu, cp, cu, ra = [], [], [], [], []
    for i, f in enumerate(STRINGS):
        for j, pl in enumerate(around(f)):
            k = i + j
            o = '><'[k % 2] if j % 3 else ''
            if deep or k % 2 == 0:
                tp.append(T('text', 'tape_pack', t, place=pl, order=o, inner=f, how=hows[k // 2 % 5]))
            if deep or k % 2 == 1:
                tu.append(T('text', 'tape_unpack', t, place=pl, order=o, inner=f, how=hows[k // 2 % 5], n=11 if f != 'cQ' else 14))
            for c, codec in enumerate(CODECS):
                if not deep and (c + 3 * j + 5 * i) % 29:
                    continue
                cp.append(T('text', 'codec_pack', t, place=pl, order=o, inner=f, codec=codec, chars=2 if not deep else 4))
                cu.append(T('text', 'codec_unpack', t, place=pl, order=o, inner=f, codec=codec, n=7 + (6 if f == 'cQ' else 2 if f == 'cI' else 0) + (0 if not deep else 5)))
            if deep or k % 4 == 0:
                ra.append(T('text', 'raising', t, place=pl, inner=f, n=4))
    nul = [T('text', 'codec_unpack', t, place='between', order='', inner='t00', codec='null', n=7),
           T('text', 'codec_pack', t, place='between', order='', inner='t00', codec='null', chars=2)]
    return nul + K.interleave(tp, tu, cp, cu, ra)


@prop('C22', ['lengths 0 to 70000, every content; reading: every mark, up to 33000 bytes following; 10 places, every byte order and entry point'])
def c22(deep):
    t = 15 if not deep else 120
    w, r, u = [], [], []
    for i, pl in enumerate(ALL_PLACES):
        for o in ('', '<', '>', '=', '!') if deep else ('', '>') if i < 3 else '<>'[i % 2]:
            w.append(T('text', 'net_write', t, place=pl, order=o))
            r.append(T('text', 'net_read', t, place=pl, order=o))
    u = [T('text', 'net_write', t, place=pl, order='>', top=3, uni=True) for pl in ALL_PLACES]
    return K.interleave(w, r, u)


EDGES = [(0, 3), (254, 257), (510, 514), (30, 33), (767, 769), (127, 128), (1023, 1025), (255, 256)]


@prop('C23', ['terminated strings of 0 to 3, 30 to 33, 127 to 128, 254 to 257, 510 to 514, 767 to 769, 1023 to 1025 bytes, and 2046 to 8192 (thorough: to 65536) with a fixed start (writing: 0 to 70000), every content, up to 300 arbitrary bytes behind them; '
              'terminators 00, 01, 0a, 20, 41, 7f, 80, c3, fe, ff (thorough: all 256); 10 places, every entry point'])
def c23(deep):
    t = 12 if not deep else 60
    terms = [0, 0x41, 0xff, 0x0a, 0x80, 1, 0x20, 0x7f, 0xc3, 0xfe]
    rd, no, wr, ag, un = [], [], [], [], []
    for i, pl in enumerate(ALL_PLACES):
        for j, e in enumerate(EDGES):
            rd.append((j, T('text', 'term_read', t, place=pl, order='>' * (i % 2), term=terms[(i + j) % 10], lens=list(e), rest=300)))
            if deep or (i + j) % 2 == 0:
                no.append((j, T('text', 'term_none', t, place=pl, order='>' * (i % 2), term=terms[(i + j) % 10], lens=list(e))))
        wr.append(T('text', 'term_write', t, place=pl, order='<' * (i % 2), term=terms[i % 10]))
        ag.append(T('text', 'term_again', t, place=pl, order='', term=terms[(i + 3) % 10], lens=[0, 70000]))
        un.append(T('text', 'term_read', t, place=pl, order='', term=terms[(i + 5) % 10], lens=[0, 3], rest=3, uni=True))
    rd, no = ([x for _, x in sorted(y, key=lambda x: x[0])] for y in (rd, no))
    far = [T('text', 'term_read', t, place=pl, order='', term=x, lens=[0, 2], rest=1, fill=f) for pl, x, f in (
        ('between', 0, 4094), ('struct', 0xff, 8190), ('tuple', 0x41, 2046))]
    far += [T('text', 'term_none', t, place='between', order='', term=0, lens=[0, 2], fill=4094)]
    rd += far
    every = []
    if deep:
        every += [T('text', fn, 150, place='between', order='', term=x, lens=[0, 2], fill=f)
                  for x in (0, 0x80) for f in (1022, 2046, 4094, 8190, 16382, 32766, 65534) for fn in ('term_read', 'term_none')]
        for term in range(256):
            every += [T('text', 'term_read', t, place='between', order='', term=term, lens=[0, 3], rest=3),
                      T('text', 'term_write', t, place='between', order='', term=term)]
    return K.interleave(rd, no, wr, ag, un) + every


CUSTOMS = ['W(B)', 'B,W(B)', 'W(B),B', 'W(B),W(B)', 'B,W(B),B,W(B),B', 'W(H),B,W(B)', 'B,W(H),H', 'H,W(H),W(H),H', 'W(d),d', 'W(?),?,B', 'W(q),q', 'x,W(B),x2,W(H)', 'c3,W(c3),c3',
           'W(c3),W(c3)', 'p3,W(p3),B', 'B,cB,W(B),B', 'W(B),cB,W(B)', 'W(B),t00,B', 'T(W(B);B),B', 'T(B;W(B)),W(B)', 'B,T(W(H);W(B);H)', 'T(W(B);cB;W(B)),B', 'T(T(W(B);B);W(B)),B',
           'A2(W(B)),B', 'A3(W(H)),W(H)', 'AB(W(B)),B', 'AB(W(c2)),W(B)', 'ABH(W(H)),B', 'A2B(W(H)),B', 'A0(W(B)),W(B)', 'AB(T(W(B);B)),W(B)', 'A2(T(B;W(B);cB)),B', 'A1(W(B)),W(B),B',
           'S(W(B),B),W(B)', 'W(B),S(>W(H),B,W(H)),B', 'AB(S(W(B),H)),B', 'B,U(0:W(B);1:B/W(H)),B', 'B,U(0:T(W(B);B)/AB(W(B))),W(B)', 'B,C(W(B)),W(B)', 'B,C(T(W(B);B)),B', 'B,C(AB(W(B))),B',
           'Y(W(H)),W(B)', 'W(B),*', 'T(W(B);*)', 'W(f),W(e)', 'B,B,W(B),W(B),B,B', 'W(B),AB(B),W(B)', 'A2(A2(W(B))),B', 'A2(T(W(B);W(B))),W(B)', 'AB(AB(W(B))),B', 'x3,W(B)', 'W(B),x']
CUSTOM_HOWS = ('create_unpack', 'unpack_from', 'create_unpack_read', 'unpack', 'create_unpack_from', 'unpack_read')


@prop('C21', ['52 arrangements of up to 6 basic and custom fields, every custom field with a converter of its own (type, factory, bound method); '
              'inputs: arbitrary bytes up to the least size plus 4 (thorough: 7); every byte order'])
def c21(deep):
    t = 8 if not deep else 60
    un, pa, tu = [], [], []
    for i, s in enumerate(CUSTOMS):
        n = S.min_size(S.parse(s)) + (4 if not deep else 7)
        st = ('type', 'factory', 'method')[i % 3]
        for j, how in enumerate(CUSTOM_HOWS):
            if deep or (i + j) % 2 == 0:
                un.append((j, T('custom', 'unpacking', t, shape='><='[j % 3] * ((i + j) // 2 % 2) + s, n=n, style=st, how=how)))
        if 'W(c' not in s and 'W(p' not in s:
            pa.append(T('custom', 'packing', t, shape='>' * (i % 2) + s, style=st))
        if not S.parse(s).final:
            tu.append(T('custom', 'turned', t, shape='<' * (i % 2) + s, n=n, style=st, order='>'))
    un = [x for _, x in sorted(un, key=lambda x: x[0])]
    vi = [T('custom', 'via', t, kind=k, base=bs, order='><'[(i + j) % 2], style=('type', 'factory', 'method')[(i + j) % 3], how=CUSTOM_HOWS[(2 * i + j) % 6 if not deep else h], n=n)
          for i, k in enumerate(('subclass', 'override', 'generic', 'turned base', 'twice')) for j, (bs, n) in enumerate(((('B', 'B'), 6), (('H', 'H'), 8), (('B', 'c2'), 6), (('d', 'f'), 16)))
          for h in range(1 if not deep else 6)]
    return K.interleave(un, pa, tu, vi)
@prop('C25', ['68 arrangements of serializers written by the user, in 7 styles, with themselves and with the built-in ones; values up to 300 bytes; '
              'inputs: arbitrary bytes up to the least size of the shape plus 6 (thorough: 9); every byte order'])
def c25(deep):
    t = 10 if not deep else 60
    small = {'maxlen': 3, 'items': 2, 'chars': 1}
    sh = K.unique(K.USER, K.ordered(K.USER, '>') if deep else K.ordered(K.USER[::3], '>'), K.ordered(K.USER, '<@=!') if deep else [])
    out = [general('written', sh, t), on_input('embedded', sh, 6 if not deep else 9, t), on_input('unpack_methods', sh, 4 if not deep else 7, t, kinds=False),
           on_input('short_input', [s for s in sh if not S.parse(s).final], 3 if not deep else 5, t), on_input('repack', sh, 4 if not deep else 7, t),
           general('pack_methods', sh, t, opts=small, room=60), general('pack_methods', sh, t, opts={'wild': True, **small}, room=60)]
    for x in out[0]:
        x.module = 'user'
    out.append([Task('user', 'sees', {'shape': s.replace('Ot', 'Os').replace('Og', 'Os')}, task_s=t) for s in sh if 'Ot' in s and 'Z' not in s and 'L(' not in s])
    out.append([Task('user', 'turned', {'shape': s, 'other': '<>'[s[0] != '>']}, task_s=t) for s in sh if 'S(' not in s and 'L(' not in s])
    out.append([Task('user', 'pairs', {'place': p, 'lazy': z, 'n': 9 if p in ('twice', 'array') else 7}, task_s=t)
                for p in ('tuple', 'behind', 'between', 'twice', 'alone', 'condition', 'only', 'array', 'union') for z in (False, True)])
    return K.interleave(*out)


@prop('C26', ['declared lengths: every integer from -70000 to 70000, 9 kinds in 6 places; terminators of 0 to 3 arbitrary bytes; 20 places for a hint times 40 hints; '
              '0 to 5 defaults of a Condition; encodings; byte orders of joined serializers; base classes'])
def c26(deep):
    from . import refusals as R

    t = 12 if not deep else 60

    def T(fn, **kw):
        return Task('refusals', fn, kw, task_s=t)

    hints = [h for h in dict.fromkeys(R.GOOD + R.BASICS + R.BAD + R.UNINDEXED + ['two pads'])]
    groups = [hints[i : i + 8] for i in range(0, len(hints), 8)]
    where = R.MEMBERS + ['read ahead', 'generic base', 'generic field', 'generic item', 'generic member', 'as', 'count', 'count and size', 'size', 'size and count', 'length', 'text length', 'header', 'decided', 'looked at']
    return K.interleave(
        [T('count', kind=k, around=a) for k in R.COUNTED for a in R.AROUND if deep or a in ('field', 'tuple') or k in ('char', 'Header')],
        [T('terminator', kind=k, around=a, n=n) for k in ('char', 'unicode', 'codec') for n in range(4) for a in (R.AROUND if deep else ('field', 'tuple'))],
        [T('unlike', kind=k, around=a, first=f) for f in (True, False) for k in R.COUNTED for a in (R.AROUND if deep else ('field', 'tuple'))],
        [T('views', kind=k, first=f) for k in ('char', 'unicode', 'codec') for f in (True, False)],
        [T('placed', where=w, names=g) for w in where for g in groups if any(R.taken(w, n) is not None for n in g)],
        [T('unindexed', around=a) for a in [*R.AROUND, 'generic', 'generic array', 'second', 'member', 'custom', 'inherited']],
        [T('defaults', inner=i, around=a) for i in ('uint8', 'char', 'tuple', 'array', 'pad', 'pair', 'three', 'nested', 'custom', 'union', 'twice') for a in ('field', 'tuple', 'array')],
        [T('arguments', kind=k, n=n) for k in ('Header', 'array', 'char', 'unicode') for n in range(5)],
        [T('encodings', around=a) for a in ('field', 'tuple', 'union')],
        [T('ignored', name=n) for n in R.BAD if n not in ('number', 'instance', 'float number', 'None', 'Header', 'zero', 'no items')],
        [T('joined', first=a, second=c, op='+') for a in ('B', 'H', '3s', 'action', 'chain') for c in ('B', 'I', 'x', 'action')],
        [T('bases', order=o) for o in '<>'])
