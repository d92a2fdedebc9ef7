"""Hooks the instrumented source calls, and models of built-in callables."""
from __future__ import annotations

import builtins
import functools
import io
import itertools
import math
import operator
import struct
import sys
import types

import z3

from . import core, io_model, struct_model
from . import values as V

SHIMS = {'struct': struct_model.module, 'io': io_model.module}
TYPE_OF = {
    V.SymInt: int, V.SymBool: bool, V.SymFloat: float, V.SymText: str, V.SymBytes: bytes,
    V.SymByteArray: bytearray, V.SymView: memoryview, io_model.BytesIO: io.BytesIO,
}


# ------------------------------------------------------------------ helpers
def sym_type(*a, **k):
    if len(a) == 1 and not k:
        t = type(a[0])
        if issubclass(t, V.Sym):
            return a[0].kind if t is V.SymSeq else TYPE_OF.get(t, t)
        return t
    return type(*a, **k)


def sym_range(*args):
    if not any(V.is_sym(a) for a in args):
        return range(*args)
    start, stop, step = (0, args[0], 1) if len(args) == 1 else (*args, 1)[:3]
    step = V.realize(step)

    def gen():
        i, n = start, 0
        while V.decide(i < stop) if step > 0 else V.decide(i > stop):
            yield i
            i = i + step
            n += 1
            if n >= V.path().limits.loop:
                if step > 0 and V.is_sym(few := stop - start <= 2000 * step):
                    V.path().small.append(few.c)
                V.path().bound(f'loop bound {V.path().limits.loop} (range)')

    return gen()


class SymRepeat:
    def __init__(self, obj, n):
        self.obj, self.n = obj, n

    def __iter__(self):
        for _ in sym_range(self.n):
            yield self.obj


def sym_repeat(obj, *times, **kw):
    n = times[0] if times else kw.get('times')
    if type(n) is V.SymInt:
        return SymRepeat(obj, n)
    return itertools.repeat(obj, *times, **kw)


_NO = object()


def sym_reduce(f, it, initial=_NO):
    if type(it) is SymRepeat and isinstance(it.obj, str):
        r = summarize(f, it.obj, it.n, initial)
        if r is not _NO:
            return r
    it = iter(it)
    acc = initial
    if acc is _NO:
        for acc in it:
            break
        else:
            raise TypeError('reduce() of empty iterable with no initial value')
    for x in it:
        acc = sx_call(f, acc, x)
    return acc


def summarize(f, s, n, initial):
    """reduce(f, repeat(s, n)) for symbolic n, by induction on the repetitions.

    f is run on a text whose count is a fresh placeholder k (any k >= 2): if
    f(text(k), s) is text(k + 1), the n-fold reduction is text(n).
    """
    p = V.path()
    if initial is not _NO or not V.decide(n >= 2):
        return _NO
    two = sx_call(f, s, s)
    if not isinstance(two, str) or not two.startswith('2'):
        return _NO
    tail = two[1:]
    if tail[:1].isdigit():
        return _NO
    k = V.SymInt(z3.BitVec(p.fresh('k'), 40), 2, (1 << 38))
    p.add(z3.And(k.e >= 2, k.e < (1 << 38)))
    text = V.format_placeholder(k)
    nxt = sx_call(f, text + tail, s)
    if nxt != str(int(text) + 1) + tail:
        return _NO
    if V.is_sym(few := n <= 2000):
        p.small.append(few.c)
    p.stats.note('summarized: reduce over a symbolic number of repeats (induction on the real function)')
    return V.format_placeholder(n) + tail


def sym_bytes(x=b'', *a, **k):
    if a or k:
        if isinstance(x, str):
            return (x if not V.is_sym(x) else x).encode(*a, **k)
        return bytes(x, *a, **k)
    t = type(x)
    if t is V.SymInt:
        if V.decide(x < 0):
            raise ValueError('negative count')
        return V.SymBytes.of([V.Fill(0, x)])
    r = V.as_rope(x)
    if r is not None:
        return V.SymBytes.of(r)
    if isinstance(x, (int, str)) or hasattr(type(x), '__bytes__'):
        return bytes(x)
    if hasattr(type(x), '__iter__'):
        return V.SymBytes.of([V.Lit([V.int_item(v) for v in x])])
    return bytes(x)


def sym_bytearray(x=b'', *a, **k):
    if type(x) is not V.SymInt and isinstance(x, int):
        if x < 0:
            raise ValueError('negative count')
        return V.SymByteArray([V.Fill(0, x)])
    return V.SymByteArray(V.as_rope(sym_bytes(x, *a, **k)))


def sym_memoryview(x):
    if type(x) is V.SymView:
        return V.SymView(x.base, x.start, x.ln, x.readonly)
    if V.is_sym(x):
        return V.SymView(x)
    return memoryview(x)


def sym_int(x=0, *a, **k):
    t = type(x)
    if t is V.SymInt and not a and not k:
        return x
    if t is V.SymBool:
        return V.mk_int(z3.If(x.c, z3.BitVecVal(1, 2), z3.BitVecVal(0, 2)), 0, 1)
    if not V.is_sym(x) and not isinstance(x, (int, float, str, bytes)) and not a:
        for m in ('__int__', '__index__'):
            if hasattr(type(x), m):
                r = getattr(type(x), m)(x)
                if V.is_sym(r):
                    return r
                break
    return int(V.realize(x), *V.realize(a), **k)


def sym_index(x):
    if V.is_sym(x):
        if type(x) in (V.SymInt, V.SymBool):
            return x
        raise TypeError('object cannot be interpreted as an integer')
    if not isinstance(x, int) and hasattr(type(x), '__index__'):
        return type(x).__index__(x)
    return operator.index(x)


def sym_bool(x=False):
    if type(x) is V.SymBool:
        return x
    if type(x) is V.SymInt:
        return V.mk_bool(x.e != 0)
    return bool(x)


def sym_float(x=0.0):
    return x if type(x) is V.SymFloat else float(V.realize(x))


def sym_str(x='', *a, **k):
    if type(x) is V.SymText:
        return x
    if issubclass(type(x), V.SymBuf) and (a or k):
        return x.decode(*a, **k) if type(x) is not V.SymView else sym_bytes(x).decode(*a, **k)
    return str(x, *a, **k)


def sym_ord(x):
    if type(x) is V.SymText:
        if len(x.cps) != 1:
            raise TypeError('ord() expected a character')
        return x.cps[0]
    if issubclass(type(x), V.SymBuf):
        if not V.decide(x.length() == 1):
            raise TypeError('ord() expected a character')
        return x[0]
    return ord(x)


def sym_chr(x):
    return V.SymText.of([x]) if V.is_sym(x) else chr(x)


def sym_minmax(f, rel):
    def m(*args, **k):
        if k:
            return f(*args, **k)
        items = list(args[0]) if len(args) == 1 else list(args)
        if not any(V.is_sym(i) for i in items):
            return f(items)
        best = items[0]
        for x in items[1:]:
            if V.decide(rel(x, best)):
                best = x
        return best

    return m


def sym_from_bytes(b, byteorder='big', *, signed=False):
    r = V.as_rope(b)
    if r is None:
        return int.from_bytes(b, byteorder, signed=signed)
    items = V.rope_items(r, 'int.from_bytes')
    if byteorder == 'native' or not items:
        return 0
    return V.bytes_int(items, byteorder, signed)


def sym_sum(it, start=0):
    for x in it:
        start = start + x
    return start


def sym_pow(a, b, *m):
    return pow(V.realize(a), V.realize(b), *V.realize(m))


def sym_join(sep, it):
    items = list(it)
    if isinstance(sep, str):
        if type(sep) is V.SymText or any(type(x) is V.SymText for x in items):
            out = []
            for i, x in enumerate(items):
                if i:
                    out.extend(V.text_cps(sep))
                out.extend(V.text_cps(x))
            return V.SymText.of(out)
        return sep.join(items)
    if V.is_sym(sep) or any(V.is_sym(x) for x in items):
        s = V.SymBytes(V.as_rope(sep))
        r = s.join(items)
        return V.SymByteArray(V.as_rope(r)) if isinstance(sep, bytearray) else r
    return sep.join(items)


def dict_lookup(d, key, default=_NO):
    """Lookup whose key is or contains something symbolic."""
    for k in list(d):
        r = same_key(k, key)
        if V.decide(r):
            return d[k]
    if default is _NO:
        raise KeyError(key)
    return default


def same_key(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        return all(V.decide(same_key(x, y)) for x, y in zip(a, b))
    r = a == b
    return False if r is NotImplemented else r


def sym_isinf(x):
    return math.isinf(x) if not V.is_sym(x) else float_is(x, 'inf')


def float_is(x, what):
    if type(x) is not V.SymFloat:
        return False
    if what == 'nan':
        return V.mk_bool(x.isnan())
    return V.mk_bool(z3.fpIsInf(x.fp()))


def sym_len(x):
    t = type(x)
    if issubclass(t, V.Sym):
        return V.sx_len(x)
    if isinstance(x, (list, tuple, dict, str, bytes, bytearray, set, frozenset, range)):
        return len(x)
    m = getattr(t, '__len__', None)
    if isinstance(m, types.FunctionType):
        r = m(x)
        if V.is_sym(r):
            return r
    return len(x)


def sym_list(x=()):
    if type(x) is V.SymSeq:
        return V.SymSeq(x.n, x.getter, list)
    return list(x)


def sym_tuple(x=()):
    if type(x) is V.SymSeq:
        return V.SymSeq(x.n, x.getter, tuple)
    return tuple(x)


def sym_isinstance(x, t):
    return isinstance(x, t)


def hookable(f):
    """A callable to hand to C code (map, filter, ...) that keeps the hooks."""
    if isinstance(f, (types.FunctionType, types.MethodType)) or f is None:
        return f
    return lambda *a, **k: sx_call(f, *a, **k)


def sym_map(f, *its):
    return map(hookable(f), *its)


def sym_filter(f, it):
    return filter(hookable(f), it)


def sym_round(x, *a):
    return x if type(x) is V.SymInt and not a else round(V.realize(x), *a)


def sym_hex_like(f):
    return lambda x: f(V.realize(x))


def sym_calls(f):
    def call(*a, **k):
        return f(*a, **k)

    return call


def sym_eq_args(f):
    return f


MODEL = {
    builtins.len: sym_len, builtins.type: sym_type, builtins.range: sym_range, builtins.bytes: sym_bytes,
    builtins.bytearray: sym_bytearray, builtins.memoryview: sym_memoryview, builtins.int: sym_int,
    builtins.bool: sym_bool, builtins.float: sym_float, builtins.str: sym_str, builtins.ord: sym_ord,
    builtins.chr: sym_chr, builtins.min: sym_minmax(min, operator.lt), builtins.max: sym_minmax(max, operator.gt),
    builtins.sum: sym_sum, builtins.pow: sym_pow, builtins.list: sym_list, builtins.tuple: sym_tuple,
    builtins.map: sym_map, builtins.filter: sym_filter, builtins.round: sym_round,
    functools.reduce: sym_reduce, itertools.repeat: sym_repeat, operator.index: sym_index,
    operator.length_hint: sym_len, math.isinf: sym_isinf, math.isnan: lambda x: float_is(x, 'nan') if V.is_sym(x) else math.isnan(x),
    math.ceil: lambda x: x if type(x) is V.SymInt else math.ceil(V.realize(x)),
    math.floor: lambda x: x if type(x) is V.SymInt else math.floor(V.realize(x)),
    io.BytesIO: io_model.BytesIO,
    struct.pack: struct_model.pack, struct.unpack: struct_model.unpack, struct.pack_into: struct_model.pack_into,
    struct.unpack_from: struct_model.unpack_from, struct.calcsize: struct_model.calcsize,
    struct.iter_unpack: struct_model.iter_unpack,
    sys._getframe: lambda depth=0: sys._getframe(depth + 2),  # skip the hook's own frames
}

PASS = {
    isinstance, issubclass, getattr, setattr, hasattr, delattr, callable, id, iter, next, zip, enumerate, reversed,
    any, all, dict, set, frozenset, repr, print, sorted, slice, super, object, property, staticmethod, classmethod,
    abs, divmod, vars, dir, hash, format, operator.eq, operator.ne, operator.lt, operator.le, operator.gt,
    operator.ge, operator.add, operator.sub, operator.mul, operator.and_, operator.or_, operator.xor,
    operator.not_, operator.truth, operator.getitem, operator.is_, operator.is_not, operator.neg, operator.lshift,
    operator.rshift, operator.floordiv, operator.mod, operator.contains, operator.iadd, operator.concat,
}
CONTAINER = (list, dict, set, tuple, frozenset)


def sx_call(f, *args, **kwargs):
    t = type(f)
    if t is types.FunctionType:
        return f(*args, **kwargs)
    if t is types.MethodType:
        if type(f.__func__) is functools._lru_cache_wrapper:
            return sx_call(f.__func__, f.__self__, *args, **kwargs)
        return f(*args, **kwargs)
    try:
        m = MODEL.get(f)
    except TypeError:
        m = None
    if m is not None:
        return m(*args, **kwargs)
    if t is functools.partial:
        return sx_call(f.func, *f.args, *args, **{**f.keywords, **kwargs})
    if t is types.BuiltinMethodType:
        return builtin_call(f, args, kwargs)
    if t is types.MethodDescriptorType or t is types.ClassMethodDescriptorType:
        return descriptor_call(f, args, kwargs)
    if t is operator.itemgetter and args:
        keys = f.__reduce__()[1]
        got = [sx_getitem(args[0], k) for k in keys]
        return got[0] if len(got) == 1 else tuple(got)
    if t is functools._lru_cache_wrapper:
        return cached_call(f, args, kwargs)
    return f(*args, **kwargs)


# what functions with a cache gave for arguments of one type; shared by all paths
_results = {}
_loading = {}  # calls made while modules were loaded


def cached_call(f, args, kwargs):
    """functools.cache: on every path, what was called before on that path."""
    params = f.cache_parameters()
    p = core.CUR
    if p is None:  # while a module is loaded
        result = f(*args, **kwargs)
        _loading.setdefault(f, []).append((args, kwargs, result))
        return result
    if params['maxsize'] is not None:
        if not V.has_sym((args, kwargs)):
            return f(*args, **kwargs)
        p.stats.note('a function with a bounded cache is called with a symbolic argument')
        return f.__wrapped__(*args, **kwargs)
    typed = params['typed']
    if f not in p.caches:
        p.caches[f] = ([((a, tuple(k.items())), False, r) for a, k, r in _loading.get(f, ())],
                       {functools._make_key(a, k, typed): r for a, k, r in _loading.get(f, ())})
    calls, by_key = p.caches[f]
    key = (args, tuple(kwargs.items()))
    known = not V.has_sym(key)
    if known:
        fast = functools._make_key(args, kwargs, typed)
        if fast in by_key:
            return by_key[fast]
    for earlier, symbolic, result in calls:
        if (symbolic or not known) and cache_hit(earlier, key, typed):
            return result
    if known:
        exact = (f, exact_key(key))
        if exact not in _results:
            _results[exact] = f.__wrapped__(*args, **kwargs)
        result = by_key[fast] = _results[exact]
    else:
        if len(calls) > 60:
            p.stats.note('a cached function: more than 60 earlier calls')
            del calls[0]
        result = f.__wrapped__(*args, **kwargs)
    calls.append((key, not known, result))
    return result


def exact_key(x):
    return tuple(exact_key(v) for v in x) if type(x) is tuple else (type(x), x)


def cache_hit(a, b, typed):
    """Whether the arguments of two calls count as equal."""
    (a, ak), (b, bk) = a, b
    if len(a) != len(b) or [k for k, _ in ak] != [k for k, _ in bk]:
        return False
    a, b = a + tuple(v for _, v in ak), b + tuple(v for _, v in bk)
    if typed and any(x.__class__ is not y.__class__ for x, y in zip(a, b)):
        return False
    pairs = list(zip(a, b))
    # what is certain first, to split as little as possible
    pairs.sort(key=V.has_sym)
    return all(same_cached(x, y) for x, y in pairs)


def same_cached(x, y):
    if type(x) is tuple and type(y) is tuple:
        return len(x) == len(y) and all(same_cached(v, w) for v, w in sorted(zip(x, y), key=V.has_sym))
    if V.is_sym(x) or V.is_sym(y):
        numbers = (int, float)
        if isinstance(x, numbers) != isinstance(y, numbers):
            return False
        if not isinstance(x, numbers) and x.__class__ is not y.__class__ and {x.__class__, y.__class__} != {bytes, memoryview}:
            return False
        return bool(V.decide(same_key(x, y)))
    return x is y or hash(x) == hash(y) and bool(x == y)


def builtin_call(f, args, kwargs):
    owner, name = f.__self__, f.__name__
    if isinstance(owner, types.ModuleType) or owner is None:
        if f in PASS or not (V.has_sym(args) or V.has_sym(kwargs)):
            return f(*args, **kwargs)
        if getattr(owner, '__name__', '') in ('itertools', '_operator', 'operator', '_collections', '_weakref', '_functools'):
            return f(*args, **kwargs)
        V.path().stats.note(f'realized: {getattr(owner, "__name__", "")}.{name}')
        return f(*V.realize(args), **V.realize(kwargs))
    if isinstance(owner, type):
        if name == 'from_bytes' and issubclass(owner, int):
            r = sym_from_bytes(*args, **kwargs)
            return r if owner is int else owner(r)
        if name == 'fromkeys' or name == '__new__':
            return f(*args, **kwargs)
        if V.has_sym(args):
            return f(*V.realize(args), **V.realize(kwargs))
        return f(*args, **kwargs)
    if V.is_sym(owner):
        return f(*args, **kwargs)
    if name == 'join' and isinstance(owner, (str, bytes, bytearray)):
        return sym_join(owner, args[0])
    if isinstance(owner, dict) and name in ('get', 'pop', '__getitem__', '__contains__', 'setdefault') and args and has_sym_key(args[0]):
        if name == 'get':
            return dict_lookup(owner, args[0], args[1] if len(args) > 1 else None)
        if name == '__getitem__':
            return sx_getitem(owner, args[0])
        if name == '__contains__':
            return sx_contains(owner, args[0])
        for k in list(owner):
            if V.decide(same_key(k, args[0])):
                return getattr(owner, name)(k, *args[1:])
        return getattr(owner, name)(V.realize(args[0]), *args[1:])
    if isinstance(owner, CONTAINER) or isinstance(owner, types.GeneratorType):
        return f(*args, **kwargs)
    if isinstance(owner, (bytes, bytearray, memoryview)) and (V.has_sym(args) or V.has_sym(kwargs)):
        s = wrap_buffer(owner)
        return getattr(s, name)(*args, **kwargs)
    if isinstance(owner, str) and (V.has_sym(args) or V.has_sym(kwargs)):
        if name in ('format', 'format_map', '__format__', '__mod__'):
            return f(*args, **kwargs)
        if name in ('__eq__', '__ne__', 'startswith', 'endswith', 'find', 'index') and type(args[0]) is V.SymText:
            return getattr(V.SymText(V.text_cps(owner)), name)(*args, **kwargs)
    if isinstance(owner, io.IOBase) and V.has_sym(args):
        V.path().stats.note(f'realized: argument of {sym_type(owner).__name__}.{name}')
        return f(*V.realize(args), **V.realize(kwargs))
    return f(*args, **kwargs)


def wrap_buffer(x):
    if isinstance(x, bytearray):
        return V.SymByteArray(V.as_rope(x))
    if isinstance(x, memoryview):
        return V.SymView(V.SymBytes(V.as_rope(x)))
    return V.SymBytes(V.as_rope(x))


def descriptor_call(f, args, kwargs):
    """Unbound method of a builtin type: str.encode(x), bytes.decode(x), ..."""
    cls, name = f.__objclass__, f.__name__
    if args and V.is_sym(args[0]):
        if not issubclass(sym_type(args[0]), cls):
            raise TypeError(f"descriptor '{name}' for '{cls.__name__}' objects doesn't apply to a "
                            f"'{sym_type(args[0]).__name__}' object")
        return sx_call(getattr(args[0], name), *args[1:], **kwargs)
    if args and cls in (str, bytes, bytearray, dict, memoryview) and isinstance(args[0], cls) and V.has_sym(args[1:]):
        return sx_call(getattr(args[0], name), *args[1:], **kwargs)
    return f(*args, **kwargs)


def has_sym_key(k):
    if isinstance(k, tuple):
        return any(has_sym_key(x) for x in k)
    if V.is_sym(k):
        return True
    m = getattr(type(k), '__sx_key__', None)
    return m is not None


def sx_getitem(obj, i):
    t = type(obj)
    if isinstance(obj, dict) and has_sym_key(i):
        try:
            return dict_lookup(obj, i)
        except KeyError:
            if hasattr(t, '__missing__'):
                return t.__missing__(obj, i)
            raise
    if V.is_sym(obj):
        return obj[i]
    if t in (bytes, bytearray, memoryview):
        if type(i) is slice and (V.is_sym(i.start) or V.is_sym(i.stop) or V.is_sym(i.step)) or V.is_sym(i):
            return wrap_buffer(obj)[i]
    elif t in (list, tuple) and type(i) is V.SymInt:
        if not V.decide(V.mk_and(i >= -len(obj), i < len(obj))):
            raise IndexError(f'{t.__name__} index out of range')
        return obj[i.__index__()]
    return obj[i]


def sx_slice(a, b, c):
    return slice(a, b, c)


def sx_contains(container, item):
    t = type(container)
    if isinstance(container, (tuple, list)):
        for x in container:
            if x is item or V.decide(sx_truth(x == item)):
                return True
        return False
    if isinstance(container, (dict, set, frozenset)) and has_sym_key(item):
        for x in list(container):
            if V.decide(same_key(x, item)):
                return True
        return False
    if isinstance(container, range) and V.is_sym(item):
        return any(V.decide(x == item) for x in container)
    if t in (bytes, bytearray) and V.is_sym(item):
        return item_in(wrap_buffer(container), item)
    if issubclass(t, V.SymBuf):
        return item_in(container, item)
    if isinstance(container, str) and type(item) is V.SymText and t is not V.SymText:
        return V.SymText(V.text_cps(container)).find(item) != -1
    return item in container


def item_in(buf, item):
    return buf.__contains__(item)


def sx_truth(x):
    return False if x is NotImplemented else (x if type(x) is V.SymBool else bool(x))


_real_import = builtins.__import__


def sx_import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0 and name in SHIMS:
        return SHIMS[name]
    return _real_import(name, globals, locals, fromlist, level)


_builtins = None


def instrumented_builtins():
    global _builtins
    if _builtins is None:
        d = dict(vars(builtins))
        d['__sx_call__'] = sx_call
        d['__sx_getitem__'] = sx_getitem
        d['__sx_slice__'] = sx_slice
        d['__sx_contains__'] = sx_contains
        d['__import__'] = sx_import
        _builtins = d
    return _builtins
