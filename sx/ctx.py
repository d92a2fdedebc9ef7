"""What a harness sees: inputs, assumptions, obligations.

The same harness runs symbolically (SymCtx) and on plain values (ConcreteCtx,
used to replay counterexamples and to validate path witnesses).
"""
from __future__ import annotations

import struct
import sys

import z3

from . import core, loader
from . import models as M
from . import values as V


class Outcome:
    """Result of ctx.attempt: .ok, .value or .exc."""

    def __init__(self, ok, value=None, exc=None):
        self.ok, self.value, self.exc = ok, value, exc

    def __repr__(self):
        return f'ok({self.value!r})' if self.ok else f'{type(self.exc).__name__}({self.exc})'


class Bad(Exception):
    """A check failed in a concrete run."""


def obs(x, depth=4):
    """Observable form of a value (recorded for witness validation)."""
    if V.is_sym(x) or x is None or isinstance(x, (bool, int, float, str, bytes)):
        return x
    if isinstance(x, (bytearray, memoryview)):
        return bytes(x)
    if isinstance(x, (list, tuple)) and depth:
        return [obs(v, depth - 1) for v in x]
    attrs = getattr(type(x), 'attrs', None)
    if isinstance(attrs, tuple) and depth:
        return [type(x).__name__] + [obs(getattr(x, a, '<unset>'), depth - 1) for a in attrs]
    return type(x).__name__


class BaseCtx:
    symbolic = False

    def __init__(self):
        self.trace = []
        self._lib = None

    @property
    def lib(self):
        if self._lib is None:
            self._lib = loader.fresh()
        return self._lib

    def fresh_lib(self):
        """The package imported anew: a freshly started interpreter's state."""
        self._lib = None
        return self.lib

    def attempt(self, f, *args, **kw):
        try:
            v = f(*args, **kw)
            o = Outcome(True, v)
        except Exception as e:
            o = Outcome(False, exc=e)
        self.trace.append(('ok', obs(o.value)) if o.ok else ('exc', type(o.exc).__name__))
        return o

    def note(self, x):
        self.trace.append(('note', obs(x)))

    # -- equality ----------------------------------------------------------
    def eq(self, a, b):
        """Deep equality as a condition (types are compared by same())."""
        return self._eq(a, b, False)

    def same(self, a, b):
        """Deep equality including value types."""
        return self._eq(a, b, True)

    def _eq(self, a, b, types):
        ta, tb = M.sym_type(a), M.sym_type(b)
        if types and ta is not tb:
            return False
        if not types and isinstance(a, (bool, int)) != isinstance(b, (bool, int)) and not isinstance(a, float) and not isinstance(b, float):
            return False
        if issubclass(ta, (list, tuple)) and issubclass(tb, (list, tuple)):
            if not types and issubclass(ta, list) != issubclass(tb, list):
                return False
            a, b = ta(a) if V.is_sym(a) else a, tb(b) if V.is_sym(b) else b
            if len(a) != len(b):
                return False
            return self.all(*[self._eq(x, y, types) for x, y in zip(a, b)])
        if issubclass(ta, (bytes, bytearray, memoryview)) and issubclass(tb, (bytes, bytearray, memoryview)):
            return self._bytes_eq(a, b)
        if ta is float and tb is float:
            return self._float_same(a, b)
        attrs = getattr(ta, 'attrs', None)
        if isinstance(attrs, tuple):
            if ta is not tb:
                return False
            return self.all(*[
                self._eq(getattr(a, n, _MISSING), getattr(b, n, _MISSING), types) for n in attrs
            ])
        r = a == b
        if r is NotImplemented:
            return False
        return r

    def all(self, *conds):
        raise NotImplementedError

    def any(self, *conds):
        raise NotImplementedError


_MISSING = type('Missing', (), {})()


class SymCtx(BaseCtx):
    symbolic = True

    def __init__(self, path):
        super().__init__()
        self.path = path
        self.reads = {}

    # -- inputs ------------------------------------------------------------
    def _input(self, name, kind, *data):
        if name in self.path.inputs:
            raise AssertionError(f'duplicate input {name}')
        self.path.inputs[name] = (kind, *data)

    def choose(self, name, options):
        options = list(options)
        if len(options) == 1:
            self._input(name, 'const', 0)
            return options[0]
        w = V.width_for(0, len(options))
        e = z3.BitVec(name, w)
        self.path.add(z3.And(e >= 0, e < len(options)))
        self._input(name, 'int', e)
        return options[self.path.concretize(e, 0, len(options) - 1, name)]

    def int(self, name, lo, hi):
        if lo == hi:
            self._input(name, 'const', lo)
            return lo
        w = V.width_for(lo, hi)
        e = z3.BitVec(name, w)
        self._input(name, 'int', e)
        if lo != -(1 << (w - 1)) or hi != (1 << (w - 1)) - 1:
            self.path.add(z3.And(e >= lo, e <= hi))
        return V.SymInt(e, lo, hi)

    def bool(self, name):
        e = z3.Bool(name)
        self._input(name, 'bool', e)
        return V.SymBool(e)

    def bytes(self, name, n, exclude=()):
        """n arbitrary bytes (n concrete)."""
        items = [z3.BitVec(f'{name}[{i}]', 8) for i in range(n)]
        self._input(name, 'bytes', items)
        for i in items:
            for x in exclude:
                self.path.add(i != x)
        return V.SymBytes.of([V.Lit(items)])

    def blob(self, name, lo, hi, exclude=()):
        """Arbitrary bytes of arbitrary length lo..hi."""
        if lo == hi and hi <= 24:
            return self.bytes(name, lo, exclude)
        arr = z3.Array(name, z3.BitVecSort(32), z3.BitVecSort(8))
        if lo == hi:
            n = lo
        else:
            w = V.width_for(lo, hi)
            e = z3.BitVec(name + '.len', w)
            self.path.add(z3.And(e >= lo, e <= hi))
            n = V.SymInt(e, lo, hi)
        self._input(name, 'blob', arr, n, tuple(exclude))
        return V.SymBytes.of([V.Blob(name, arr, 0, n, frozenset(exclude))])

    def bytes_of(self, name, n):
        """n arbitrary bytes, n symbolic."""
        arr = z3.Array(name, z3.BitVecSort(32), z3.BitVecSort(8))
        self._input(name, 'blob', arr, n, ())
        return V.SymBytes.of([V.Blob(name, arr, 0, n, frozenset())])

    def float(self, name, code, nan=False):
        e = z3.BitVec(name, 8 * V.FPSIZE[code])
        self._input(name, 'float', e, code)
        f = V.SymFloat(code, e)
        if not nan:
            self.path.add(z3.Not(f.isnan()))
        return f

    def text(self, name, n, hi=0x10FFFF, nul_end=False):
        """n arbitrary code points (no surrogates), not ending in NUL."""
        cps = []
        for i in range(n):
            e = z3.BitVec(f'{name}[{i}]', 22)
            self.path.add(z3.And(e >= 0, e <= hi, z3.Or(e < 0xD800, e > 0xDFFF)))
            cps.append(V.SymInt(e, 0, hi))
        if cps and not nul_end:
            self.path.add(cps[-1].e != 0)
        self._input(name, 'text', [c.e for c in cps])
        return V.SymText.of(cps)

    # -- conditions --------------------------------------------------------
    def _term(self, c):
        if c is True or c is False:
            return z3.BoolVal(c)
        if type(c) is V.SymBool:
            return c.c
        if isinstance(c, z3.BoolRef):
            return c
        return z3.BoolVal(bool(c))

    def _wrap(self, t):
        return V.mk_bool(t)

    def all(self, *conds):
        ts = []
        for c in conds:
            if c is False:
                return False
            if c is not True:
                ts.append(self._term(c))
        return True if not ts else self._wrap(z3.And(*ts))

    def any(self, *conds):
        ts = []
        for c in conds:
            if c is True:
                return True
            if c is not False:
                ts.append(self._term(c))
        return False if not ts else self._wrap(z3.Or(*ts))

    def no(self, c):
        return (not c) if c is True or c is False else self._wrap(z3.Not(self._term(c)))

    def implies(self, a, b):
        return self.any(self.no(a), b)

    def _bytes_eq(self, a, b):
        t = V.rope_eq_term(V.as_rope(a), V.as_rope(b), True)
        return t if isinstance(t, bool) else V.SymBool(t)

    def _float_same(self, a, b):
        if V.is_sym(a) and V.is_sym(b) and a.code == b.code:
            return V.mk_bool(a.bits == b.bits)
        if not V.is_sym(a) and not V.is_sym(b):
            return struct.pack('>d', a) == struct.pack('>d', b)
        if not V.is_sym(a):
            a, b = b, a
        b = a._other(b)
        return V.mk_bool(z3.Or(z3.And(a.isnan(), b.isnan()), z3.fpEQ(a.fp(), b.fp())))

    def assume(self, c):
        self.path.assume(c if c is True or c is False else self._term(c))

    def check(self, c, msg):
        if V.is_sym(c) or isinstance(c, z3.BoolRef):
            self.path.check(self._term(c), msg)
        else:
            self.path.check(bool(c), msg)

    def fail(self, msg):
        self.path.check(False, msg)

    # -- model -------------------------------------------------------------
    def input_values(self, model):
        out = {}
        ev = lambda e: model.eval(e, model_completion=True)
        for name, (kind, *d) in self.path.inputs.items():
            if kind == 'const':
                out[name] = d[0]
            elif kind == 'int':
                out[name] = ev(d[0]).as_signed_long()
            elif kind == 'bool':
                out[name] = z3.is_true(ev(d[0]))
            elif kind == 'bytes':
                out[name] = {'hex': bytes(ev(e).as_long() for e in d[0]).hex()}
            elif kind == 'blob':
                arr, n, excl = d
                n = ev(n.e).as_signed_long() if V.is_sym(n) else n
                alt = V.allowed(excl)
                data = array_bytes(model, arr, n)
                out[name] = {'hex': bytes(alt if b in excl else b for b in data).hex()}
            elif kind == 'float':
                out[name] = {'bits': ev(d[0]).as_long(), 'code': d[1]}
            elif kind == 'text':
                out[name] = {'cps': [ev(e).as_long() for e in d[0]]}
        return out

    def trace_values(self, model):
        return [(k, concrete(model, v)) for k, v in self.trace]


def array_bytes(model, arr, n):
    """First n bytes of the model's array, without n solver evaluations."""
    v = model.eval(arr, model_completion=True)
    stores = {}
    while z3.is_app(v) and v.decl().kind() == z3.Z3_OP_STORE:
        k = v.arg(1).as_long()
        stores.setdefault(k, v.arg(2).as_long())
        v = v.arg(0)
    if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_CONST_ARRAY:
        out = bytearray([v.arg(0).as_long()]) * n
        for k, b in stores.items():
            if k < n:
                out[k] = b
        return bytes(out)
    return bytes(
        model.eval(z3.Select(arr, z3.BitVecVal(i, 32)), model_completion=True).as_long() for i in range(n)
    )


def concrete(model, x):
    t = type(x)
    ev = lambda e: model.eval(e, model_completion=True)
    if t is V.SymInt:
        return ev(x.e).as_signed_long()
    if t is V.SymBool:
        return z3.is_true(ev(x.c))
    if t is V.SymFloat:
        return struct.unpack('>' + x.code, ev(x.bits).as_long().to_bytes(V.FPSIZE[x.code], 'big'))[0]
    if t is V.SymText:
        return ''.join(chr(concrete(model, c)) for c in x.cps)
    if issubclass(t, V.SymBuf):
        out = []
        for s in x.segs():
            n = concrete(model, s.ln)
            if type(s) is V.Lit:
                items = s.items
            elif type(s) is V.Fill:
                items = [s.byte] * n
            else:
                base = concrete(model, s.off)
                data = array_bytes(model, s.arr, base + n)[base:]
                alt = V.allowed(s.excl)
                items = [alt if b in s.excl else b for b in data]
            out += [b if isinstance(b, int) else ev(b).as_long() for b in items]
        return bytes(out)
    if t is V.SymSeq:
        return [concrete(model, x.getter(i)) for i in range(concrete(model, x.n))]
    if isinstance(x, (list, tuple)):
        return [concrete(model, v) for v in x]
    return x


class ConcreteCtx(BaseCtx):
    def __init__(self, inputs, lib_loader=None):
        super().__init__()
        self.inputs = inputs
        if lib_loader:
            self._loader = lib_loader
        self.checks = 0

    def _get(self, name):
        if name not in self.inputs:
            raise MissingInput(name)
        return self.inputs[name]

    def choose(self, name, options):
        return list(options)[self._get(name)]

    def int(self, name, lo, hi):
        return self._get(name)

    def bool(self, name):
        return bool(self._get(name))

    def bytes(self, name, n, exclude=()):
        return bytes.fromhex(self._get(name)['hex'])

    def blob(self, name, lo, hi, exclude=()):
        return bytes.fromhex(self._get(name)['hex'])

    def bytes_of(self, name, n):
        return bytes.fromhex(self._get(name)['hex'])

    def float(self, name, code, nan=False):
        v = self._get(name)
        return struct.unpack('>' + code, v['bits'].to_bytes(V.FPSIZE[code], 'big'))[0]

    def text(self, name, n, hi=0x10FFFF, nul_end=False):
        return ''.join(map(chr, self._get(name)['cps']))

    def all(self, *conds):
        return all(conds)

    def any(self, *conds):
        return any(conds)

    def no(self, c):
        return not c

    def implies(self, a, b):
        return (not a) or b

    def _bytes_eq(self, a, b):
        return bytes(a) == bytes(b)

    def _float_same(self, a, b):
        return struct.pack('>d', a) == struct.pack('>d', b) or (a != a and b != b)

    def assume(self, c):
        if not c:
            raise AssumptionFailed()

    def check(self, c, msg):
        self.checks += 1
        if not c:
            raise Bad(msg)

    def fail(self, msg):
        raise Bad(msg)


class MissingInput(Exception):
    pass


class AssumptionFailed(Exception):
    pass
