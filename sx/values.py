"""Proxy values: Python objects whose content is a z3 term.

SymInt / SymBool / SymFloat / SymText / SymBytes / SymByteArray / SymView /
SymSeq behave like int / bool / float / str / bytes / bytearray / memoryview /
tuple.  Operations are exact; comparisons yield SymBool, and taking the truth
value of one forks the path (sx.core).  Operations nobody modelled fall back to
*realizing* the operand: one feasible value is chosen, which is recorded as
reduced coverage, never silently.
"""
from __future__ import annotations

import z3

from . import core


class Sym:
    __slots__ = ()


def is_sym(x):
    return issubclass(type(x), Sym)


def path():
    p = core.CUR
    if p is None:
        raise RuntimeError('symbolic value used outside a path')
    return p


# ---------------------------------------------------------------- integers
def width_for(lo, hi):
    return max(hi.bit_length(), (~lo if lo < 0 else lo).bit_length()) + 1


def ext(e, w):
    s = e.size()
    if s == w:
        return e
    if s < w:
        return z3.SignExt(w - s, e)
    return z3.Extract(w - 1, 0, e)


def mk_int(e, lo, hi):
    """SymInt (or a plain int when determined) for signed term e in [lo, hi]."""
    if lo == hi:
        return lo
    e = z3.simplify(ext(e, width_for(lo, hi)))
    if z3.is_bv_value(e):
        return e.as_signed_long()
    return SymInt(e, lo, hi)


_memo = {}


def memo(key, keep, make):
    """make(), computed once per task for the same operand terms (z3 terms are
    hash-consed; `keep` holds them so that their ids stay theirs)."""
    hit = _memo.get(key)
    if hit is None:
        if len(_memo) > 300000:
            _memo.clear()
        hit = _memo[key] = (make(), keep)
    return hit[0]


def mk_bool(c):
    c = z3.simplify(c)
    if z3.is_true(c):
        return True
    if z3.is_false(c):
        return False
    return SymBool(c)


_consts = {}


def const(x):
    c = _consts.get(x)
    if c is None:
        c = z3.BitVecVal(x, width_for(x, x))
        if len(_consts) < 5000:
            _consts[x] = c
    return c


def parts(x):
    """(term, lo, hi) of an integer-like operand, or None."""
    t = type(x)
    if t is SymInt:
        return x.e, x.lo, x.hi
    if t is SymBool:
        return z3.If(x.c, z3.BitVecVal(1, 2), z3.BitVecVal(0, 2)), 0, 1
    if isinstance(x, int):
        x = int(x)
        return const(x), x, x
    return None


# Sums are kept as affine forms over atoms (k, ((id, coef, term, lo, hi), ...)):
# Python integers do not wrap, so equal parts cancel exactly.
def lin_of(x):
    t = type(x)
    if t is SymInt:
        lin = x.lin
        if lin is None:
            e = x._e
            lin = x.lin = (0, ((e.get_id(), 1, e, x.lo, x.hi),))
        return lin
    if t is SymBool:
        e, lo, hi = parts(x)
        return 0, ((e.get_id(), 1, e, lo, hi),)
    if isinstance(x, int):
        return int(x), ()
    return None


def lin_add(a, b, sign):
    """a + sign * b"""
    k = a[0] + sign * b[0]
    if not b[1]:
        return k, a[1]
    d = {t[0]: t for t in a[1]}
    for i, c, e, lo, hi in b[1]:
        old = d.get(i)
        if old is None:
            d[i] = (i, sign * c, e, lo, hi)
        else:
            c2 = old[1] + sign * c
            if c2:
                d[i] = (i, c2, e, max(lo, old[3]), min(hi, old[4]))
            else:
                del d[i]
    return k, tuple(sorted(d.values(), key=_first))


def _first(t):
    return t[0]


def lin_range(lin):
    lo = hi = lin[0]
    for _, c, _, l, h in lin[1]:
        if c > 0:
            lo += c * l
            hi += c * h
        else:
            lo += c * h
            hi += c * l
    return lo, hi


def lin_key(lin):
    return lin[0], tuple((t[0], t[1]) for t in lin[1])


def lin_int(lin, lo, hi):
    """The integer of an affine form known to lie in [lo, hi]."""
    l, h = lin_range(lin)
    lo, hi = max(lo, l), min(hi, h)
    if not lin[1]:
        return lin[0]
    if lo == hi:
        return lo
    if lin[0] == 0 and len(lin[1]) == 1 and lin[1][0][1] == 1:
        return SymInt(lin[1][0][2], lo, hi)
    return SymInt(None, lo, hi, lin)


def lin_sum(terms, k, w):
    out = None
    for _, c, e, _, _ in terms:
        t = ext(e, w)
        if c != 1:
            t = t * z3.BitVecVal(c, w)
        out = t if out is None else out + t
    if out is None:
        return z3.BitVecVal(k, w)
    return out if k == 0 else out + z3.BitVecVal(k, w)


def lin_term(lin, lo, hi):
    w = max([width_for(lo, hi)] + [t[2].size() for t in lin[1]])
    return memo(('lin', w, lin_key(lin)), lin, lambda: z3.simplify(lin_sum(lin[1], lin[0], w)))


def _cmp(name):
    flip = {'__gt__': '__lt__', '__ge__': '__le__'}.get(name)

    def op(self, other):
        a, b = lin_of(self), lin_of(other)
        if b is None:
            if type(other) is SymFloat or isinstance(other, float):
                return getattr(_int_to_float(self), name)(other)
            return NotImplemented
        if flip:
            a, b = b, a
        d = lin_add(a, b, -1)
        lo, hi = lin_range(d)
        x, y = (other, self) if flip else (self, other)
        lo = max(lo, _low(x) - _high(y))
        hi = min(hi, _high(x) - _low(y))
        kind = flip or name
        if kind == '__eq__' or kind == '__ne__':
            if lo > 0 or hi < 0 or self.never and type(other) is int and other in self.never:
                return kind == '__ne__'
            if lo == hi == 0:
                return kind == '__eq__'
        elif kind == '__lt__':
            if hi < 0:
                return True
            if lo >= 0:
                return False
        else:
            if hi <= 0:
                return True
            if lo > 0:
                return False
        return memo((kind, lin_key(d)), d, lambda: compare(kind, d))

    def compare(kind, d):
        """d kind 0, with the negative part moved to the other side"""
        k, terms = d
        left = [t for t in terms if t[1] > 0]
        right = [(i, -c, e, lo, hi) for i, c, e, lo, hi in terms if c < 0]
        lk, rk = (k, 0) if (k > 0) == bool(left) and left and right else (0, -k) if left else (k, 0)
        if left and right and k < 0:
            lk, rk = 0, -k
        (l1, h1), (l2, h2) = lin_range((lk, left)), lin_range((rk, right))
        w = max([width_for(min(l1, l2), max(h1, h2))] + [t[2].size() for t in terms])
        p, q = lin_sum(left, lk, w), lin_sum(right, rk, w)
        return mk_bool(p == q if kind == '__eq__' else p != q if kind == '__ne__' else p < q if kind == '__lt__' else p <= q)

    op.__name__ = name
    return op


def _low(x):
    return x.lo if type(x) is SymInt else 0 if type(x) is SymBool else int(x)


def _high(x):
    return x.hi if type(x) is SymInt else 1 if type(x) is SymBool else int(x)


def _arith(name):
    def calc(a, b):
        (ea, la, ha), (eb, lb, hb) = a, b
        return memo((name, ea.get_id(), eb.get_id(), la, ha, lb, hb), (ea, eb), lambda: compute(a, b))

    def compute(a, b):
        (ea, la, ha), (eb, lb, hb) = a, b
        if name == 'add':
            lo, hi = la + lb, ha + hb
        elif name == 'sub':
            lo, hi = la - hb, ha - lb
        elif name == 'mul':
            c = [la * lb, la * hb, ha * lb, ha * hb]
            lo, hi = min(c), max(c)
        elif name in ('and', 'or', 'xor'):
            w = max(ea.size(), eb.size())
            if name == 'and' and (la >= 0 or lb >= 0):
                lo = 0
                hi = min([h for l, h in ((la, ha), (lb, hb)) if l >= 0])
            elif la >= 0 and lb >= 0:
                lo, hi = 0, (1 << max(ha.bit_length(), hb.bit_length())) - 1
                if name == 'or':
                    lo = max(la, lb)
            else:
                lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
        w = max(width_for(lo, hi), ea.size(), eb.size())
        ea, eb = ext(ea, w), ext(eb, w)
        e = {
            'add': lambda: ea + eb, 'sub': lambda: ea - eb, 'mul': lambda: ea * eb,
            'and': lambda: ea & eb, 'or': lambda: ea | eb, 'xor': lambda: ea ^ eb,
        }[name]()
        return mk_int(e, lo, hi)

    def linear(x, y):
        if name == 'mul':
            if is_sym(x) and is_sym(y):
                return None
            x, c = (x, int(y)) if is_sym(x) else (y, int(x))
            if c == 0:
                return 0
            k, terms = lin_of(x)
            lin = (k * c, tuple((i, c * d, e, lo, hi) for i, d, e, lo, hi in terms))
            ends = (_low(x) * c, _high(x) * c)
            return lin_int(lin, min(ends), max(ends))
        lin = lin_add(lin_of(x), lin_of(y), 1 if name == 'add' else -1)
        if len(lin[1]) > 12:
            return None
        if name == 'add':
            return lin_int(lin, _low(x) + _low(y), _high(x) + _high(y))
        return lin_int(lin, _low(x) - _high(y), _high(x) - _low(y))

    def op(self, other):
        if name in ('add', 'sub', 'mul') and lin_of(other) is not None:
            r = linear(self, other)
            if r is not None:
                return r
        b = parts(other)
        if b is None:
            if isinstance(other, float) or type(other) is SymFloat:
                return getattr(realize(self), f'__{name}__')(realize(other))
            return NotImplemented
        if name in ('and', 'or', 'xor') and _boolish(self) and _boolish(other):
            x, y = _boolterm(self), _boolterm(other)
            return mk_bool({'and': z3.And, 'or': z3.Or, 'xor': z3.Xor}[name](x, y))
        return calc(parts(self), b)

    def rop(self, other):
        if name in ('add', 'sub', 'mul') and lin_of(other) is not None:
            r = linear(other, self)
            if r is not None:
                return r
        b = parts(other)
        if b is None:
            if isinstance(other, float):
                return getattr(other, f'__{name}__')(realize(self))
            return NotImplemented
        if name in ('and', 'or', 'xor') and _boolish(self) and _boolish(other):
            return op(self, other)
        return calc(b, parts(self))

    return op, rop


def _boolish(x):
    return type(x) is SymBool or isinstance(x, bool)


def _boolterm(x):
    return x.c if type(x) is SymBool else z3.BoolVal(x)


def floordiv(a, b):
    """Floor division for a positive constant divisor."""
    (ea, la, ha) = parts(a)
    w = max(ea.size(), width_for(0, b)) + 1
    ea = ext(ea, w)
    bb = z3.BitVecVal(b, w)
    if la >= 0:
        e = z3.UDiv(ea, bb)
    else:
        e = z3.If(ea >= 0, z3.UDiv(ea, bb), -(z3.UDiv(-ea + bb - 1, bb)))
    return mk_int(e, la // b, ha // b)


def int_to_bits(x, w):
    """The low w bits of an integer as a term."""
    p = parts(x)
    return ext(p[0], w) if p[0].size() != w else p[0]


class SymInt(Sym):
    __slots__ = ('_e', 'lo', 'hi', 'lin', 'never')

    def __init__(self, e, lo, hi, lin=None, never=()):
        self._e, self.lo, self.hi, self.lin, self.never = e, lo, hi, lin, never

    @property
    def e(self):
        if self._e is None:
            self._e = lin_term(self.lin, self.lo, self.hi)
        return self._e

    @property
    def __class__(self):
        return int

    for _n in ('eq', 'ne', 'lt', 'le', 'gt', 'ge'):
        locals()[f'__{_n}__'] = _cmp(f'__{_n}__')
    for _n in ('add', 'sub', 'mul', 'and', 'or', 'xor'):
        locals()[f'__{_n}__'], locals()[f'__r{_n}__'] = _arith(_n)
    del _n

    def __hash__(self):
        return hash(self.__index__())

    def __bool__(self):
        return decide(self != 0)

    def __index__(self):
        return path().concretize(self.e, self.lo, self.hi, 'integer used as an index')

    __int__ = __index__

    def __float__(self):
        return float(realize(self))

    def __trunc__(self):
        return self

    __floor__ = __ceil__ = __pos__ = __trunc__

    def __neg__(self):
        return 0 - self

    def __invert__(self):
        return -1 - self

    def __abs__(self):
        if self.lo >= 0:
            return self
        return -self if bool(self < 0) else self

    def __lshift__(self, k):
        if type(k) is SymInt:
            k = k.__index__()
        if not isinstance(k, int):
            return NotImplemented
        if k < 0:
            raise ValueError('negative shift count')
        return self * (1 << k)

    def __rshift__(self, k):
        if type(k) is SymInt:
            k = k.__index__()
        if not isinstance(k, int):
            return NotImplemented
        if k < 0:
            raise ValueError('negative shift count')
        k2 = min(k, self.e.size() - 1)
        return memo(('>>', k, self.e.get_id(), self.lo, self.hi), self.e,
                    lambda: mk_int(self.e >> k2, self.lo >> k, self.hi >> k))

    def __rlshift__(self, a):
        return a << self.__index__()

    def __rrshift__(self, a):
        return a >> self.__index__()

    def __floordiv__(self, b):
        if type(b) is SymInt:
            b = realize(b)
        if not isinstance(b, int):
            return NotImplemented
        if b == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
        if b < 0:
            return (-self) // (-b)
        return floordiv(self, b)

    def __mod__(self, b):
        if type(b) is SymInt:
            b = realize(b)
        if not isinstance(b, int):
            return NotImplemented
        if b == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
        r = self - (self // b) * b
        if b > 0 and type(r) is SymInt:
            return SymInt(r._e, max(r.lo, 0), min(r.hi, b - 1), r.lin)
        return r

    def __divmod__(self, b):
        return self // b, self % b

    def __rfloordiv__(self, a):
        return a // realize(self)

    def __rmod__(self, a):
        return a % realize(self)

    def __rdivmod__(self, a):
        return divmod(a, realize(self))

    def __truediv__(self, b):
        return realize(self) / realize(b)

    def __rtruediv__(self, a):
        return a / realize(self)

    def __pow__(self, b, m=None):
        return pow(realize(self), realize(b), m)

    def __rpow__(self, a):
        return pow(a, self.__index__())

    def bit_length(self):
        return realize(self).bit_length()

    def bit_count(self):
        return realize(self).bit_count()

    def to_bytes(self, length=1, byteorder='big', *, signed=False):
        length = realize(length)
        lo, hi = (-(1 << (8 * length - 1)), (1 << (8 * length - 1)) - 1) if signed else (0, (1 << (8 * length)) - 1)
        if not bool((self >= lo) & (self <= hi)):
            raise OverflowError('int too big to convert')
        return SymBytes.of([Lit(int_bytes(self, length, byteorder))])

    def conjugate(self):
        return self

    real = property(lambda self: self)
    imag = property(lambda self: 0)
    numerator = property(lambda self: self)
    denominator = property(lambda self: 1)

    def is_integer(self):
        return True

    def __repr__(self):
        return format_placeholder(self)

    __str__ = __repr__

    def __format__(self, spec):
        if spec in ('', 'd'):
            return format_placeholder(self)
        return format(realize(self), spec)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


class SymBool(Sym):
    __slots__ = ('c',)

    def __init__(self, c):
        self.c = c

    @property
    def __class__(self):
        return bool

    for _n in ('lt', 'le', 'gt', 'ge'):
        locals()[f'__{_n}__'] = _cmp(f'__{_n}__')
    for _n in ('add', 'sub', 'mul', 'and', 'or', 'xor'):
        locals()[f'__{_n}__'], locals()[f'__r{_n}__'] = _arith(_n)
    _int_eq, _int_ne = _cmp('__eq__'), _cmp('__ne__')
    del _n

    def __eq__(self, other):
        if _boolish(other):
            return mk_bool(self.c == _boolterm(other))
        return self._int_eq(other)

    def __ne__(self, other):
        if _boolish(other):
            return mk_bool(self.c != _boolterm(other))
        return self._int_ne(other)

    def __bool__(self):
        return path().fork(self.c)

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __float__(self):
        return float(bool(self))

    def __hash__(self):
        return hash(bool(self))

    def __invert__(self):
        return ~int(self)

    def __neg__(self):
        return -int(self)

    def __repr__(self):
        return repr(bool(self))

    __str__ = __repr__

    def __format__(self, spec):
        return format(bool(self), spec)


# ---------------------------------------------------- formatted integers
# The decimal text of a symbolic integer is a big literal that stands for it:
# numbers are read in balanced base 2**40, digit 0 is a constant and digit i+1
# the coefficient of placeholder i, so sums computed on the text's int() value
# still decode exactly.
BASE_BITS = 40


def format_placeholder(x):
    p = path()
    key = (x.e.get_id(), x.lo, x.hi)  # x is kept below
    i = p.placeholders.get(key)
    if i is None:
        i = p.placeholders[key] = len(p.placeholder_ids)
        p.placeholder_ids.append(x)
    return str(1 << (BASE_BITS * (i + 1)))


def opaque_text(x, kind):
    """Text that stands for the repr() or str() of a float, bytes or text:
    private-use characters around a number, the same for the same value."""
    p = path()
    key = (kind, x.bits.get_id(), x.code) if type(x) is SymFloat else (kind, id(x))
    if key not in p.placeholders:
        p.placeholders[key] = len(p.placeholder_ids)
        p.placeholder_ids.append(x)
    return f'\ue000{kind}{p.placeholders[key]}\ue001'


def decode_number(n):
    """The value of an integer literal that may contain placeholders."""
    if -(1 << (BASE_BITS - 1)) <= n < (1 << (BASE_BITS - 1)):
        return n
    ids = path().placeholder_ids
    total, i = None, 0
    while n:
        d = n & ((1 << BASE_BITS) - 1)
        n >>= BASE_BITS
        if d >= 1 << (BASE_BITS - 1):
            d -= 1 << BASE_BITS
            n += 1
        if i == 0:
            total = d
        elif d:
            if i - 1 >= len(ids):
                return None
            total = total + ids[i - 1] * d
        i += 1
    return total


# ------------------------------------------------------------------ floats
FP = {'e': z3.FPSort(5, 11), 'f': z3.Float32(), 'd': z3.Float64()}
FPSIZE = {'e': 2, 'f': 4, 'd': 8}


def _int_to_float(x):
    e = parts(x)[0]
    return SymFloat('d', z3.fpToIEEEBV(z3.fpSignedToFP(z3.RNE(), e, FP['d'])))


class SymFloat(Sym):
    """A float known as the IEEE bits of one of the struct float formats."""

    __slots__ = ('code', 'bits')

    def __init__(self, code, bits):
        self.code, self.bits = code, bits

    @property
    def __class__(self):
        return float

    def fp(self):
        v = z3.fpBVToFP(self.bits, FP[self.code])
        if self.code != 'd':
            v = z3.fpFPToFP(z3.RNE(), v, FP['d'])
        return v

    def isnan(self):
        e, m = {'e': (5, 10), 'f': (8, 23), 'd': (11, 52)}[self.code]
        return z3.And(
            z3.Extract(m + e - 1, m, self.bits) == (1 << e) - 1,
            z3.Extract(m - 1, 0, self.bits) != 0,
        )

    def iszero(self):
        w = self.bits.size()
        return z3.Extract(w - 2, 0, self.bits) == 0

    def _other(self, o):
        if type(o) is SymFloat:
            return o
        if type(o) in (SymInt, SymBool):
            return _int_to_float(o)
        if isinstance(o, (int, float)):
            import struct

            return SymFloat('d', z3.BitVecVal(int.from_bytes(struct.pack('>d', o), 'big'), 64))
        return None

    def __eq__(self, o):
        o = self._other(o)
        if o is None:
            return NotImplemented
        if o.code == self.code:  # avoid floating-point theory
            return mk_bool(z3.And(
                z3.Not(self.isnan()), z3.Not(o.isnan()),
                z3.Or(self.bits == o.bits, z3.And(self.iszero(), o.iszero())),
            ))
        return mk_bool(z3.fpEQ(self.fp(), o.fp()))

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return (not r) if isinstance(r, bool) and type(r) is bool else mk_bool(z3.Not(r.c))

    def _rel(self, o, f):
        o = self._other(o)
        if o is None:
            return NotImplemented
        return mk_bool(f(self.fp(), o.fp()))

    def __lt__(self, o): return self._rel(o, z3.fpLT)
    def __le__(self, o): return self._rel(o, z3.fpLEQ)
    def __gt__(self, o): return self._rel(o, z3.fpGT)
    def __ge__(self, o): return self._rel(o, z3.fpGEQ)

    def __bool__(self):
        return path().fork(z3.Not(self.iszero()))

    def __float__(self):
        return realize(self)

    def __int__(self):
        return int(realize(self))

    def __hash__(self):
        return hash(realize(self))

    def __repr__(self):
        return opaque_text(self, 'r')

    __str__ = __repr__

    def __format__(self, spec):
        return format(realize(self), spec) if spec else opaque_text(self, 'r')

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return getattr(realize(self), name)

    for _n in ('add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'pow'):
        exec(f'def __{_n}__(self, o): return realize(self).__{_n}__(realize(o))\n'
             f'def __r{_n}__(self, o): return realize(self).__r{_n}__(realize(o))')
    del _n

    def __neg__(self):
        w = self.bits.size()
        return SymFloat(self.code, self.bits ^ (1 << (w - 1)))

    def __abs__(self):
        w = self.bits.size()
        return SymFloat(self.code, self.bits & ((1 << (w - 1)) - 1))


# ------------------------------------------------------------------- ropes
class Lit:
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = tuple(items)

    @property
    def ln(self):
        return len(self.items)


class Blob:
    __slots__ = ('name', 'arr', 'off', 'ln', 'excl')

    def __init__(self, name, arr, off, ln, excl=frozenset()):
        self.name, self.arr, self.off, self.ln, self.excl = name, arr, off, ln, excl

    def at(self, i):
        idx = self.off + i
        t = idx.e if type(idx) is SymInt else const(idx)
        e = memo(('at', self.arr.get_id(), t.get_id()), (self.arr, t),
                 lambda: z3.simplify(z3.Select(self.arr, int_to_bits(idx, 32))))
        if self.excl and z3.is_bv(e) and not z3.is_bv_value(e):
            p = path()
            key = e.get_id()
            if key not in p.true_facts:
                p.true_facts.add(key)
                p.keep.append(e)
                for x in self.excl:
                    p.fact(e != x)
                p.never[key] = self.excl
        return e


def allowed(excl):
    """Stands for an excluded byte value."""
    return next(c for c in range(65, 256) if c not in excl)


class Fill:
    __slots__ = ('byte', 'ln')

    def __init__(self, byte, ln):
        self.byte, self.ln = byte, ln


def item_bv(x):
    return z3.BitVecVal(x, 8) if isinstance(x, int) else x


def norm_item(x):
    """int or BV8 term -> int where known."""
    if isinstance(x, int):
        return x
    if z3.is_bv_value(x):
        return x.as_long()
    return x


def item_int(x):
    """int or BV8 term -> int or SymInt."""
    if isinstance(x, int):
        return x
    v = mk_int(z3.ZeroExt(1, x), 0, 255)
    never = path().never
    if never and type(v) is SymInt and (n := never.get(x.get_id())):
        return SymInt(v._e, v.lo, v.hi, v.lin, n)
    return v


def int_item(v):
    """int/SymInt in range(256) -> rope item (range is checked)."""
    if type(v) in (SymInt, SymBool):
        if type(v) is SymBool:
            return norm_item(z3.simplify(z3.If(v.c, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))))
        if not bool((v >= 0) & (v <= 255)):
            raise ValueError('byte must be in range(0, 256)')
        return norm_item(z3.simplify(int_to_bits(v, 8)))
    if not isinstance(v, int):
        import operator

        v = operator.index(v)
    if not 0 <= v <= 255:
        raise ValueError('byte must be in range(0, 256)')
    return int(v)


def int_bytes(v, n, order):
    """The n bytes of (v mod 256**n) as rope items."""
    if not is_sym(v):
        return list((int(v) % (1 << (8 * n))).to_bytes(n, order))
    e = int_to_bits(v, 8 * n) if n else None
    out = [norm_item(z3.simplify(z3.Extract(8 * i + 7, 8 * i, e))) for i in range(n)]
    return out if order == 'little' else out[::-1]


def bytes_int(items, order, signed):
    """Rope items -> int or SymInt."""
    n = len(items)
    if all(isinstance(x, int) for x in items):
        return int.from_bytes(bytes(items), order, signed=signed)
    key = ('int', order, signed, *[x if isinstance(x, int) else (x.get_id(),) for x in items])
    return memo(key, items, lambda: _bytes_int(items, order, signed))


def _bytes_int(items, order, signed):
    n = len(items)
    items = [item_bv(x) for x in items]
    if order == 'little':
        items = items[::-1]
    e = z3.Concat(*items) if n > 1 else items[0]
    if signed:
        return mk_int(e, -(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1)
    return mk_int(z3.ZeroExt(1, e), 0, (1 << (8 * n)) - 1)


def same_int(a, b):
    """Structurally the same integer."""
    if type(a) is SymInt and type(b) is SymInt:
        return a is b or lin_key(lin_of(a)) == lin_key(lin_of(b))
    if is_sym(a) or is_sym(b):
        return False
    return a == b


def rope_len(segs):
    n = 0
    for s in segs:
        n = n + s.ln
    return n


def rope_norm(segs):
    out = []
    for s in segs:
        if not is_sym(s.ln):
            if s.ln == 0:
                continue
            if type(s) is Fill and s.ln <= 64:
                s = Lit([s.byte] * s.ln)
            elif type(s) is Blob and s.ln <= 16:
                s = Lit([norm_item(s.at(i)) for i in range(s.ln)])
        if out and type(s) is Lit and type(out[-1]) is Lit:
            out[-1] = Lit(out[-1].items + s.items)
        elif (
            out and type(s) is Blob and type(out[-1]) is Blob and s.name == out[-1].name
            and same_int(s.off, out[-1].off + out[-1].ln)
        ):
            p = out[-1]
            out[-1] = Blob(p.name, p.arr, p.off, p.ln + s.ln, p.excl & s.excl)
        elif out and type(s) is Fill and type(out[-1]) is Fill and s.byte is out[-1].byte:
            out[-1] = Fill(s.byte, out[-1].ln + s.ln)
        else:
            out.append(s)
    return out


def decide(c):
    return c if c is True or c is False else bool(c)


def rope_split(segs, pos):
    """Split at 0 <= pos <= len."""
    if not is_sym(pos) and pos == 0:
        return [], list(segs)
    acc = 0
    for i, s in enumerate(segs):
        nxt = acc + s.ln
        if same_int(pos, nxt):
            return list(segs[: i + 1]), list(segs[i + 1 :])
        if decide(pos >= nxt):
            acc = nxt
            continue
        k = pos - acc
        if type(s) is Lit:
            if is_sym(k):
                k = k.__index__()
            a, b = Lit(s.items[:k]), Lit(s.items[k:])
        elif type(s) is Blob:
            a = Blob(s.name, s.arr, s.off, k, s.excl)
            b = Blob(s.name, s.arr, s.off + k, s.ln - k, s.excl)
        else:
            a, b = Fill(s.byte, k), Fill(s.byte, s.ln - k)
        return [*segs[:i], a], [b, *segs[i + 1 :]]
    return list(segs), []


def rope_byte(segs, i):
    """Item at 0 <= i < len (an int or BV8 term)."""
    acc = 0
    for n, s in enumerate(segs):
        nxt = acc + s.ln
        if n + 1 < len(segs) and not decide(i < nxt):
            acc = nxt
            continue
        k = i - acc
        if type(s) is Blob:
            return norm_item(s.at(k))
        if type(s) is Fill:
            return norm_item(s.byte)
        if not is_sym(k):
            return s.items[k]
        e = item_bv(s.items[-1])
        for j in range(s.ln - 2, -1, -1):
            e = z3.If(int_to_bits(k, 40) == j, item_bv(s.items[j]), e)
        return norm_item(z3.simplify(e))
    raise IndexError('index out of range')


def rope_items(segs, why):
    """All items, with symbolic lengths enumerated."""
    out = []
    for s in segs:
        n = s.ln
        if is_sym(n):
            n = n.__index__()
        if type(s) is Lit:
            out.extend(s.items)
        elif type(s) is Fill:
            out.extend([norm_item(s.byte)] * n)
        else:
            out.extend(norm_item(s.at(i)) for i in range(n))
    return out


def _byte_at_term(segs, idx):
    """Term for the byte at (symbolic, in range) 40-bit index, without forking."""
    acc = 0
    conds = []
    for s in segs:
        nxt = acc + s.ln
        if type(s) is Lit:
            e = item_bv(s.items[-1]) if s.items else z3.BitVecVal(0, 8)
            base = int_to_bits(acc, 40)
            for j in range(s.ln - 2, -1, -1):
                e = z3.If(idx - base == j, item_bv(s.items[j]), e)
        elif type(s) is Fill:
            e = item_bv(s.byte)
        else:
            o = int_to_bits(s.off, 40) + idx - int_to_bits(acc, 40)
            e = z3.Select(s.arr, z3.Extract(31, 0, o))
            if s.excl:
                # the reading that ctx.input_values and ctx.concrete use
                e = z3.If(z3.Or(*[e == x for x in s.excl]), z3.BitVecVal(allowed(s.excl), 8), e)
        conds.append((idx < int_to_bits(nxt, 40), e))
        acc = nxt
    if not conds:
        return z3.BitVecVal(0, 8)
    e = conds[-1][1]
    for c, x in reversed(conds[:-1]):
        e = z3.If(c, x, e)
    return e


def rope_eq_term(a, b, for_check):
    """z3 Bool (or Python bool) for equality of two ropes.

    With for_check the term may use one fresh index: it is implied by equality,
    and its negation is satisfiable exactly when the ropes differ.  Without it
    the term is exact, or None when that is out of reach.
    """
    a, b = rope_norm(a), rope_norm(b)
    conj = []
    a, b = list(a), list(b)
    while a and b:
        x, y = a[0], b[0]
        if sure(x.ln == 0):
            del a[0]
            continue
        if sure(y.ln == 0):
            del b[0]
            continue
        if same_int(x.ln, y.ln):
            n = x.ln
        elif sure(x.ln <= y.ln):
            n = x.ln
        elif sure(y.ln <= x.ln):
            n = y.ln
        else:
            break
        if is_sym(n) and (type(x) is Lit or type(y) is Lit):
            break
        (x, x2), (y, y2) = seg_split(x, n), seg_split(y, n)
        r = seg_eq(x, y, n, for_check)
        if r is False:
            return False
        if r is None:
            return None
        if r is not True:
            conj.append(r)
        a[0:1], b[0:1] = x2, y2
    if not a and not b:
        return _and(conj)
    return _general(conj, a, b, for_check)


def sure(c):
    """Whether the condition holds for every value on this path."""
    if c is True or c is False:
        return c
    return path().implied(c.c)


def seg_split(s, n):
    """First n bytes of a segment, and the rest as a list; n <= its length."""
    if same_int(n, s.ln):
        return s, []
    if type(s) is Lit:
        return Lit(s.items[:n]), [Lit(s.items[n:])] if s.ln > n else []
    if type(s) is Fill:
        return Fill(s.byte, n), [Fill(s.byte, s.ln - n)]
    return Blob(s.name, s.arr, s.off, n, s.excl), [Blob(s.name, s.arr, s.off + n, s.ln - n, s.excl)]


def seg_eq(x, y, n, for_check):
    """Equality of two segments of the same length n (None: out of reach)."""
    if type(x) is Blob and type(y) is Blob and x.name == y.name and (same_int(x.off, y.off) or sure(x.off == y.off)):
        return True
    if type(x) is Fill and type(y) is Fill:
        return _and([item_bv(x.byte) == item_bv(y.byte)])
    if not is_sym(n) and (n <= 64 or type(x) is not Blob and type(y) is not Blob):
        if type(x) is Lit and type(y) is Lit and x.items == y.items and all(isinstance(i, int) for i in x.items):
            return True
        conj = []
        for i in range(n):
            p, q = seg_item(x, i), seg_item(y, i)
            if isinstance(p, int) and isinstance(q, int):
                if p != q:
                    return False
            elif not (not isinstance(p, int) and not isinstance(q, int) and p.eq(q)):
                conj.append(item_bv(p) == item_bv(q))
        return _and(conj)
    return _general([], [x], [y], for_check)


def seg_item(s, i):
    return s.items[i] if type(s) is Lit else norm_item(s.byte) if type(s) is Fill else norm_item(s.at(i))


def _and(conj):
    if not conj:
        return True
    c = z3.simplify(z3.And(*conj))
    return True if z3.is_true(c) else False if z3.is_false(c) else c


def _general(conj, a, b, for_check):
    la, lb = rope_len(a), rope_len(b)
    if not is_sym(la) and not is_sym(lb) and la != lb:
        return False
    eq = la == lb
    conj = list(conj)
    if eq is False:
        return False
    if eq is not True:
        conj.append(eq.c)
    bound = min(x if not is_sym(x) else x.hi for x in (la, lb))
    if bound <= 48:
        for i in range(bound):
            idx = z3.BitVecVal(i, 40)
            body = _byte_at_term(a, idx) == _byte_at_term(b, idx)
            if is_sym(la):
                body = z3.Implies(idx < int_to_bits(la, 40), body)
            elif is_sym(lb):
                body = z3.Implies(idx < int_to_bits(lb, 40), body)
            conj.append(body)
        return _and(conj)
    idx = z3.BitVec(path().fresh('idx'), 40)
    body = z3.Implies(
        z3.And(idx >= 0, idx < int_to_bits(la, 40)),
        _byte_at_term(a, idx) == _byte_at_term(b, idx),
    )
    if for_check:
        conj.append(body)
        return _and(conj)
    return None


def as_rope(x):
    """Segments of any bytes-like value, or None."""
    t = type(x)
    if issubclass(t, SymBuf):
        return x.segs()
    if isinstance(x, (bytes, bytearray)):
        return [Lit(x)] if len(x) else []
    if isinstance(x, memoryview):
        x = bytes(x)
        return [Lit(x)] if x else []
    return None


def sx_len(x):
    t = type(x)
    if issubclass(t, SymBuf) or t in (SymSeq, SymText):
        return x.length()
    return len(x)


class SymBuf(Sym):
    """Shared behaviour of the bytes-like proxies."""

    __slots__ = ()

    def segs(self):
        raise NotImplementedError

    def length(self):
        return rope_len(self.segs())

    def __len__(self):
        n = self.length()
        return n if not is_sym(n) else n.__index__()

    def __bool__(self):
        n = self.length()
        return bool(n != 0) if is_sym(n) else n != 0

    def _like(self, segs):
        return SymBytes.of(segs)

    def _bounds(self, s):
        n = self.length()
        step = s.step
        if step is not None and step != 1:
            return None

        def clamp(v, default):
            if v is None:
                return default
            if not is_sym(v):
                if not isinstance(v, int):
                    if not hasattr(type(v), '__index__'):
                        raise TypeError('slice indices must be integers or None or have an __index__ method')
                    v = type(v).__index__(v)
            if decide(v < 0):
                v = v + n
                if decide(v < 0):
                    return 0
            if decide(v > n):
                return n
            return v

        a, b = clamp(s.start, 0), clamp(s.stop, n)
        if not same_int(a, b) and decide(b < a):
            b = a
        return a, b

    def _index(self, i):
        n = self.length()
        if not is_sym(i) and not isinstance(i, int):
            if not hasattr(type(i), '__index__'):
                raise TypeError('byte indices must be integers or slices')
            i = type(i).__index__(i)
        if decide(i < 0):
            i = i + n
        if not decide(mk_and(i >= 0, i < n)):
            raise IndexError('index out of range')
        return i

    def __getitem__(self, i):
        if isinstance(i, slice):
            ab = self._bounds(i)
            if ab is None:
                items = rope_items(self.segs(), 'extended slice')
                return self._like([Lit(items[slice(realize(i.start), realize(i.stop), realize(i.step))])])
            left, _ = rope_split(self.segs(), ab[1])
            _, mid = rope_split(left, ab[0])
            return self._like(mid)
        i = self._index(i)
        return item_int(rope_byte(self.segs(), i))

    def __iter__(self):
        i = 0
        while decide(i < self.length()):
            yield self[i]
            i += 1
            if i > path().limits.loop * 64:
                path().bound('iterating a long byte string')

    def __reversed__(self):
        return iter([item_int(x) for x in reversed(rope_items(self.segs(), 'reversed'))])

    def __add__(self, other):
        o = as_rope(other)
        if o is None:
            return NotImplemented
        return self._like(rope_norm(self.segs() + o))

    def __radd__(self, other):
        o = as_rope(other)
        if o is None:
            return NotImplemented
        res = rope_norm(o + self.segs())
        return SymByteArray(res) if type(other) is bytearray else SymBytes.of(res)

    def __mul__(self, n):
        if type(n) is SymInt:
            segs = rope_norm(self.segs())
            if len(segs) == 1 and type(segs[0]) is Lit and segs[0].ln == 1:
                if decide(n <= 0):
                    return self._like([])
                return self._like([Fill(segs[0].items[0], n)])
            n = n.__index__()
        return self._like(rope_norm(list(self.segs()) * n))

    __rmul__ = __mul__

    def __eq__(self, other):
        o = as_rope(other)
        if o is None:
            return NotImplemented
        t = rope_eq_term(self.segs(), o, False)
        if t is None:
            p = path()
            p.stats.note('realized: comparison of long byte strings')
            return realize(self) == realize(other)
        return t if isinstance(t, bool) else mk_bool(t)

    def __ne__(self, other):
        r = self.__eq__(other)
        if r is NotImplemented:
            return r
        return (not r) if type(r) is bool else mk_bool(z3.Not(r.c))

    def __lt__(self, o): return realize(self) < realize(o)
    def __le__(self, o): return realize(self) <= realize(o)
    def __gt__(self, o): return realize(self) > realize(o)
    def __ge__(self, o): return realize(self) >= realize(o)

    def __hash__(self):
        return hash(bytes(realize(self)))

    def __contains__(self, x):
        if is_sym(x) and not issubclass(type(x), SymBuf) or isinstance(x, int) and not is_sym(x):
            return any(bool(b == x) for b in self)
        return decide(self.find(x) != -1)

    def find(self, sub, start=None, end=None):
        n = self.length()
        s = slice(start, end)
        a, b = self._bounds(s)
        if isinstance(sub, int):
            pat = [int_item(sub)]
        else:
            pat = rope_items(as_rope(sub), 'find')
        if not pat:
            return a
        segs = self.segs()
        i = a
        steps = 0
        while True:
            if not decide(i + len(pat) <= b):
                return -1
            # skip a whole segment known not to contain the byte
            if len(pat) == 1 and isinstance(pat[0], int):
                acc = 0
                for sg in segs:
                    nxt = acc + sg.ln
                    if type(sg) is Blob and pat[0] in sg.excl and decide(i < nxt) and decide(i >= acc):
                        i = nxt
                        break
                    acc = nxt
                else:
                    acc = None
                if acc is not None:
                    continue
            hit = True
            for k, pb in enumerate(pat):
                if not decide(item_int(rope_byte(segs, i + k)) == item_int(pb)):
                    hit = False
                    break
            if hit:
                return i
            i = i + 1
            steps += 1
            if steps > path().limits.loop * 64:
                path().bound('searching a long byte string')

    def index(self, sub, *a):
        r = self.find(sub, *a)
        if decide(r == -1):
            raise ValueError('subsection not found')
        return r

    def rfind(self, sub, start=None, end=None):
        items = rope_items(self[slice(start, end)].segs() if start is not None or end is not None else self.segs(), 'rfind')
        if isinstance(sub, int):
            sub = bytes([sub])
        pat = rope_items(as_rope(sub), 'rfind')
        for i in range(len(items) - len(pat), -1, -1):
            if all(decide(item_int(items[i + k]) == item_int(p)) for k, p in enumerate(pat)):
                return i + (start or 0)
        return -1

    def count(self, sub, *a):
        return realize(self).count(realize(sub), *a)

    def partition(self, sep):
        i = self.find(sep)
        if decide(i == -1):
            return (self._like(self.segs()), self._like([]), self._like([]))
        return self[:i], sep, self[i + sx_len(sep):]

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            return realize(self).split(None, maxsplit)
        out, rest = [], self
        while maxsplit != 0:
            i = rest.find(sep) if issubclass(type(rest), Sym) else rest.find(sep)
            if decide(i == -1):
                break
            out.append(rest[:i])
            rest = rest[i + sx_len(sep):]
            maxsplit -= 1
        return out + [rest]

    def startswith(self, prefix, *a):
        if a or isinstance(prefix, tuple):
            return realize(self).startswith(realize(prefix), *realize(a))
        n = sx_len(prefix)
        if not decide(self.length() >= n):
            return False
        return decide(_hi(self[:n]) == prefix)

    def endswith(self, suffix, *a):
        if a or isinstance(suffix, tuple):
            return realize(self).endswith(realize(suffix), *realize(a))
        n = sx_len(suffix)
        if not decide(self.length() >= n):
            return False
        return decide(self[self.length() - n:] == suffix)

    def _strip(self, chars, left, right):
        chars = b' \t\n\r\x0b\x0c' if chars is None else chars
        pats = rope_items(as_rope(chars), 'strip')
        a, b = 0, self.length()
        inset = lambda x: any(decide(item_int(x) == item_int(p)) for p in pats)
        while left and decide(a < b) and inset(rope_byte(self.segs(), a)):
            a += 1
        while right and decide(a < b) and inset(rope_byte(self.segs(), b - 1)):
            b = b - 1
        return self[a:b]

    def rstrip(self, chars=None): return self._strip(chars, False, True)
    def lstrip(self, chars=None): return self._strip(chars, True, False)
    def strip(self, chars=None): return self._strip(chars, True, True)

    def removesuffix(self, suffix):
        if self.endswith(suffix):
            return self[: self.length() - sx_len(suffix)]
        return self._like(self.segs())

    def removeprefix(self, prefix):
        if self.startswith(prefix):
            return self[sx_len(prefix):]
        return self._like(self.segs())

    def _just(self, width, fill, left):
        n = self.length()
        if decide(n >= width):
            return self._like(self.segs())
        pad = [Fill(rope_items(as_rope(fill), 'just')[0], width - n)]
        return self._like(rope_norm(self.segs() + pad if left else pad + self.segs()))

    def ljust(self, width, fill=b' '): return self._just(width, fill, True)
    def rjust(self, width, fill=b' '): return self._just(width, fill, False)

    def join(self, seq):
        out, first = [], True
        for x in seq:
            if not first:
                out += self.segs()
            first = False
            r = as_rope(x)
            if r is None:
                raise TypeError('sequence item: expected a bytes-like object')
            out += r
        return self._like(rope_norm(out))

    def decode(self, encoding='utf-8', errors='strict'):
        from . import codecs_model

        return codecs_model.decode(self, encoding, errors)

    def __repr__(self):
        return opaque_text(self, 'r')

    def __str__(self):
        return opaque_text(self, 'r')

    def __format__(self, spec):
        return format(realize(self), spec) if spec else opaque_text(self, 'r')

    def __bytes__(self):
        return bytes(realize(self))

    def __buffer__(self, flags):
        return memoryview(realize(self))

    def __copy__(self):
        return self._like(self.segs())


def _hi(x):
    return x


def mk_and(a, b):
    if a is False or b is False:
        return False
    if a is True:
        return b
    if b is True:
        return a
    return mk_bool(z3.And(a.c, b.c))


class SymBytes(SymBuf):
    __slots__ = ('_segs',)

    def __init__(self, segs):
        self._segs = segs

    @staticmethod
    def of(segs):
        """bytes when everything is known, a SymBytes otherwise."""
        segs = rope_norm(segs)
        if not segs:
            return b''
        if len(segs) == 1 and type(segs[0]) is Lit and all(isinstance(x, int) for x in segs[0].items):
            return bytes(segs[0].items)
        return SymBytes(segs)

    @property
    def __class__(self):
        return bytes

    def segs(self):
        return list(self._segs)

    def __getattr__(self, name):
        if name.startswith('__') or not hasattr(bytes, name):
            raise AttributeError(f"'bytes' object has no attribute '{name}'")
        path().stats.note(f'realized: bytes.{name}')
        return getattr(bytes(realize(self)), name)


class SymByteArray(SymBuf):
    __slots__ = ('_segs', 'exports', '_n')

    def __init__(self, segs):
        self._segs = rope_norm(segs)
        self.exports = 0
        self._n = None

    def length(self):
        if self._n is None:
            self._n = rope_len(self._segs)
        return self._n

    @property
    def __class__(self):
        return bytearray

    def segs(self):
        return list(self._segs)

    def _like(self, segs):
        return SymByteArray(segs)

    __hash__ = None

    def __setitem__(self, i, value):
        if isinstance(i, slice):
            ab = self._bounds(i)
            if ab is None:
                raise NotImplementedError('extended slice assignment')
            new = as_rope(value)
            if new is None:
                if isinstance(value, (str, int)):
                    raise TypeError("can assign only bytes, buffers, or iterables of ints in range(0, 256)")
                new = [Lit([int_item(v) for v in value])]
            left, right = rope_split(self._segs, ab[1])
            left, mid = rope_split(left, ab[0])
            if self.exports and not decide(rope_len(mid) == rope_len(new)):
                raise BufferError('Existing exports of data: object cannot be re-sized')
            self._segs = rope_norm(left + new + right)
            if not same_int(rope_len(mid), rope_len(new)):
                self._n = None
            return
        i = self._index(i)
        self.write(i, [Lit([int_item(value)])])

    def write(self, pos, segs):
        """Overwrite in place (the caller has checked the bounds)."""
        n = rope_len(segs)
        self.length()
        left, right = rope_split(self._segs, pos)
        _, right = rope_split(right, n)
        self._segs = rope_norm(left + list(segs) + right)

    def __delitem__(self, i):
        if isinstance(i, slice):
            self[i] = b''
        else:
            i = self._index(i)
            self[i:i + 1] = b''

    def __iadd__(self, other):
        o = as_rope(other)
        if o is None:
            raise TypeError("can't concat to bytearray")
        self._n = None
        self._segs = rope_norm(self._segs + o)
        return self

    def extend(self, other):
        o = as_rope(other)
        if o is None:
            o = [Lit([int_item(v) for v in other])]
        self._n = None
        self._segs = rope_norm(self._segs + o)

    def append(self, v):
        self._n = None
        self._segs = rope_norm(self._segs + [Lit([int_item(v)])])

    def clear(self):
        self._n = None
        self._segs = []

    def copy(self):
        return SymByteArray(self._segs)

    def __getattr__(self, name):
        if name.startswith('__') or not hasattr(bytearray, name):
            raise AttributeError(f"'bytearray' object has no attribute '{name}'")
        path().stats.note(f'realized: bytearray.{name}')
        return getattr(bytearray(realize(self)), name)


class SymView(SymBuf):
    """memoryview of format 'B'."""

    __slots__ = ('base', 'start', 'ln', 'readonly')

    def __init__(self, base, start=0, ln=None, readonly=None):
        self.base, self.start = base, start
        self.ln = base.length() if ln is None else ln
        self.readonly = type(base) is not SymByteArray if readonly is None else readonly
        if type(base) is SymByteArray:
            base.exports += 1

    @property
    def __class__(self):
        return memoryview

    def segs(self):
        _, right = rope_split(self.base.segs(), self.start)
        mid, _ = rope_split(right, self.ln)
        return mid

    def length(self):
        return self.ln

    nbytes = property(lambda self: self.ln)
    itemsize = property(lambda self: 1)
    format = property(lambda self: 'B')
    ndim = property(lambda self: 1)
    shape = property(lambda self: (self.ln,))
    contiguous = c_contiguous = property(lambda self: True)
    obj = property(lambda self: self.base)

    def __getitem__(self, i):
        if isinstance(i, slice):
            ab = self._bounds(i)
            if ab is None:
                return SymView(SymBytes(super().__getitem__(i).segs()))
            return SymView(self.base, self.start + ab[0], ab[1] - ab[0], self.readonly)
        return super().__getitem__(i)

    def __setitem__(self, i, value):
        if self.readonly:
            raise TypeError('cannot modify read-only memory')
        if isinstance(i, slice):
            ab = self._bounds(i)
            new = as_rope(value)
            if new is None:
                raise TypeError('a bytes-like object is required')
            if not decide(rope_len(new) == ab[1] - ab[0]):
                raise ValueError('memoryview assignment: lvalue and rvalue have different structures')
            self.base.write(self.start + ab[0], new)
            return
        i = self._index(i)
        self.base.write(self.start + i, [Lit([int_item(value)])])

    def write(self, pos, segs):
        self.base.write(self.start + pos, segs)

    def tobytes(self, order=None):
        return SymBytes.of(self.segs())

    def tolist(self):
        return list(self)

    def release(self):
        if type(self.base) is SymByteArray:
            self.base.exports = max(0, self.base.exports - 1)

    def toreadonly(self):
        return SymView(self.base, self.start, self.ln, True)

    def cast(self, fmt, *a):
        if fmt in ('B', 'c', 'b') and fmt == 'B':
            return self
        path().stats.note('realized: memoryview.cast')
        return memoryview(bytes(realize(self))).cast(fmt, *a)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.release()

    def __add__(self, other):
        return NotImplemented

    def __radd__(self, other):
        if isinstance(other, (bytes, bytearray)):
            return super().__radd__(other)
        return NotImplemented

    def __mul__(self, n):
        return NotImplemented

    __rmul__ = __mul__

    def hex(self, *a):
        return bytes(realize(self)).hex(*a)

    def __getattribute__(self, name):
        if name in _NOT_VIEW:
            raise AttributeError(f"'memoryview' object has no attribute '{name}'")
        return object.__getattribute__(self, name)


_NOT_VIEW = frozenset(
    n for n in ('decode find index rfind count startswith endswith rstrip lstrip strip join split partition '
                'ljust rjust removesuffix removeprefix').split()
    if not hasattr(memoryview, n)
)


class SymSeq(Sym):
    """tuple/list of symbolic length; items are produced on demand."""

    __slots__ = ('n', 'getter', 'kind')

    def __init__(self, n, getter, kind=tuple):
        self.n, self.getter, self.kind = n, getter, kind

    @property
    def __class__(self):
        return self.kind

    def length(self):
        return self.n

    def __len__(self):
        return self.n if not is_sym(self.n) else self.n.__index__()

    def __bool__(self):
        return decide(self.n != 0)

    def __iter__(self):
        n = self.__len__()
        return iter([self.getter(i) for i in range(n)])

    def __getitem__(self, i):
        return self.kind(self)[i]

    def __eq__(self, other):
        return self.kind(self) == other

    def __add__(self, other):
        return self.kind(self) + other

    def append(self, v):
        if self.kind is not list:
            raise AttributeError("'tuple' object has no attribute 'append'")
        old, n = self.getter, self.n
        self.n = n + 1
        self.getter = lambda i: v if decide(i == n) else old(i)

    __hash__ = None


# -------------------------------------------------------------------- text
def cp_int(x):
    return x


class SymText(Sym):
    """str whose code points may be symbolic (fixed length)."""

    __slots__ = ('cps',)

    def __init__(self, cps):
        self.cps = tuple(cps)

    @staticmethod
    def of(cps):
        cps = tuple(cps)
        if all(not is_sym(c) for c in cps):
            return ''.join(map(chr, cps))
        return SymText(cps)

    @property
    def __class__(self):
        return str

    def length(self):
        return len(self.cps)

    def __len__(self):
        return len(self.cps)

    def __bool__(self):
        return bool(self.cps)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return SymText.of(self.cps[slice(realize(i.start), realize(i.stop), realize(i.step))])
        return SymText.of([self.cps[realize(i)]])

    def __iter__(self):
        return (SymText.of([c]) for c in self.cps)

    def __add__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return SymText.of(self.cps + text_cps(o))

    def __radd__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return SymText.of(text_cps(o) + self.cps)

    def __mul__(self, n):
        return SymText.of(self.cps * realize(n))

    def eq_term(self, o):
        o = text_cps(o)
        if len(o) != len(self.cps):
            return False
        conj = []
        for a, b in zip(self.cps, o):
            r = a == b
            if r is False:
                return False
            if r is not True:
                conj.append(r.c)
        return _and(conj)

    def __eq__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        t = self.eq_term(o)
        return t if isinstance(t, bool) else mk_bool(t)

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return (not r) if type(r) is bool else mk_bool(z3.Not(r.c))

    def __hash__(self):
        return hash(realize(self))

    def __contains__(self, o):
        return self.find(o) != -1

    def find(self, sub, start=0, end=None):
        pat = text_cps(sub)
        end = len(self.cps) if end is None else end
        for i in range(start, end - len(pat) + 1):
            if all(decide(self.cps[i + k] == p) for k, p in enumerate(pat)):
                return i
        return -1

    def index(self, sub, *a):
        r = self.find(sub, *a)
        if r == -1:
            raise ValueError('substring not found')
        return r

    def _strip(self, chars, left, right):
        if chars is None:
            return getattr(realize(self), 'strip' if left and right else 'lstrip' if left else 'rstrip')()
        pats = text_cps(chars)
        a, b = 0, len(self.cps)
        inset = lambda c: any(decide(c == p) for p in pats)
        while left and a < b and inset(self.cps[a]):
            a += 1
        while right and a < b and inset(self.cps[b - 1]):
            b -= 1
        return SymText.of(self.cps[a:b])

    def rstrip(self, chars=None): return self._strip(chars, False, True)
    def lstrip(self, chars=None): return self._strip(chars, True, False)
    def strip(self, chars=None): return self._strip(chars, True, True)

    def partition(self, sep):
        i = self.find(sep)
        if i == -1:
            return SymText.of(self.cps), '', ''
        return SymText.of(self.cps[:i]), sep, SymText.of(self.cps[i + len(sep):])

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            return realize(self).split(None, maxsplit)
        out, rest = [], self
        while maxsplit != 0:
            i = rest.find(sep)
            if i == -1:
                break
            out.append(rest[:i])
            rest = rest[i + len(sep):]
            maxsplit -= 1
        return out + [rest]

    def startswith(self, p, *a):
        if a or isinstance(p, tuple):
            return realize(self).startswith(realize(p), *a)
        n = len(p)
        return n <= len(self.cps) and decide(self[:n] == p)

    def endswith(self, p, *a):
        if a or isinstance(p, tuple):
            return realize(self).endswith(realize(p), *a)
        n = len(p)
        return n <= len(self.cps) and (n == 0 or decide(self[-n:] == p))

    def removesuffix(self, p):
        return self[: len(self.cps) - len(p)] if p and self.endswith(p) else self

    def encode(self, encoding='utf-8', errors='strict'):
        from . import codecs_model

        return codecs_model.encode(self, encoding, errors)

    def __repr__(self):
        return opaque_text(self, 'r')

    def __str__(self):
        return realize(self)

    def __format__(self, spec):
        return format(realize(self), spec) if spec else opaque_text(self, 's')

    def __getattr__(self, name):
        if name.startswith('__') or not hasattr(str, name):
            raise AttributeError(f"'str' object has no attribute '{name}'")
        path().stats.note(f'realized: str.{name}')
        return getattr(realize(self), name)

    def __lt__(self, o): return realize(self) < realize(o)
    def __le__(self, o): return realize(self) <= realize(o)
    def __gt__(self, o): return realize(self) > realize(o)
    def __ge__(self, o): return realize(self) >= realize(o)


def text_cps(x):
    if type(x) is SymText:
        return x.cps
    return tuple(map(ord, x))


# --------------------------------------------------------------- realizing
def realize(x, why='unmodelled operation'):
    """A concrete object: one feasible value is picked for every unknown."""
    t = type(x)
    if t is SymInt:
        return path().realize_one(x.e, why)
    if t is SymBool:
        return bool(path().fork(x.c))
    if t is SymFloat:
        import struct

        v = path().realize_one(x.bits, why) & ((1 << x.bits.size()) - 1)
        return struct.unpack('>' + x.code, v.to_bytes(FPSIZE[x.code], 'big'))[0]
    if t is SymText:
        return ''.join(chr(realize(c, why)) for c in x.cps)
    if issubclass(t, SymBuf):
        out = []
        for s in x.segs():
            n = realize(s.ln, why)
            if type(s) is Lit:
                items = s.items
            elif type(s) is Fill:
                items = [s.byte] * n
            else:
                items = [norm_item(s.at(i)) for i in range(n)]
            for b in items:
                out.append(b if isinstance(b, int) else path().realize_one(b, why) & 0xFF)
        b = bytes(out)
        if t is SymByteArray:
            return bytearray(b)
        return memoryview(b) if t is SymView else b
    if t is SymSeq:
        return x.kind(x)
    if t is tuple:
        return tuple(realize(v, why) for v in x)
    if t is list:
        return [realize(v, why) for v in x]
    if t is dict:
        return {realize(k, why): realize(v, why) for k, v in x.items()}
    return x


def has_sym(x, depth=3):
    t = type(x)
    if issubclass(t, Sym):
        return True
    if depth and t in (tuple, list):
        return any(has_sym(v, depth - 1) for v in x)
    if depth and t is dict:
        return any(has_sym(v, depth - 1) for v in x.values())
    return False
