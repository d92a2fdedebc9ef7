"""C10: array headers."""
from . import shapes as S
from .common import PACKERS, UNPACKERS, do_pack, do_unpack
from .general import setup, some_value


def the_array(sh):
    for i, (n, f) in enumerate(sh.fields):
        if isinstance(f, S.Arr):
            return i, n, f
    raise ValueError('no array')


def written(ctx, shape, opts=None, depth=1):
    """Count, byte length and items, found in the packed bytes."""
    sh, b, cls = setup(ctx, shape, opts)
    x, want = some_value(ctx, b, sh, depth)
    i, name, arr = the_array(sh)
    items = getattr(x, name)
    for how in PACKERS:
        o = ctx.attempt(do_pack, x, how)
        ctx.check(o.ok, f'{how} fails: {o!r}' if not o.ok else '')
        data = o.value
        # everything before the array
        env = S.EncEnv(ctx, sh, {n: getattr(x, n) for n in cls.attrs})
        before = [f for _, f in sh.fields[:i]]
        pos = len(S.enc_run(env, before, [getattr(x, n) for n, f in sh.fields[:i] if f.values], sh.order))
        head = [] if isinstance(arr.count, int) else [arr.count]
        head += [] if arr.size is None else [arr.size]
        lay, size = S.run_layout([S.Basic(c) for c in head], sh.order)
        body = data[pos + size :]
        nums = [int.from_bytes(data[pos + off : pos + off + S.SIZES[c]], S.endian(sh.order)) for off, c, _ in lay]
        enc = [S.enc_one(env, arr.item, v, sh.order) for v in items] if not arr.item.basic else [
            S.enc_basics(env, [arr.item] * len(items), items, sh.order)]
        true = b''.join(enc)
        ctx.check(ctx.eq(body[: len(true)], true), f'{how}: the items are not written one after another')
        if not isinstance(arr.count, int):
            ctx.check(nums[0] == len(items), f'{how}: the count is not the number of items')
        else:
            ctx.check(len(items) == arr.count, f'{how}: wrong number of items accepted')
        if arr.size is not None:
            ctx.check(nums[-1] == len(true), f'{how}: the data size is not the size of the items')
        ctx.check(ctx.eq(data, want), f'{how}: not count, size, items')


def stored_size(ctx, shape, opts=None, depth=1):
    """Unpacking with any number in the data size field."""
    sh, b, cls = setup(ctx, shape, opts)
    i, name, arr = the_array(sh)
    x, data = some_value(ctx, b, sh, depth)
    env = S.EncEnv(ctx, sh, {n: getattr(x, n) for n in cls.attrs})
    pos = len(S.enc_run(env, [f for _, f in sh.fields[:i]], [getattr(x, n) for n, f in sh.fields[:i] if f.values], sh.order))
    head = ([] if isinstance(arr.count, int) else [arr.count]) + [arr.size]
    lay, _ = S.run_layout([S.Basic(c) for c in head], sh.order)
    off, code, _ = lay[-1]
    pos, size = pos + off, S.SIZES[code]
    true = int.from_bytes(data[pos : pos + size], S.endian(sh.order))
    stored = ctx.int('stored', 0, (1 << 8 * size) - 1)
    data = data[:pos] + stored.to_bytes(size, S.endian(sh.order)) + data[pos + size :]
    # room for items that a wrong size could claim
    tail = b'' if sh.final else ctx.blob('tail', 0, 300)
    for how in UNPACKERS:
        u = ctx.attempt(do_unpack, cls, how, data + tail)
        if stored == true:
            ctx.check(u.ok, f'{how} refuses the right data size: {u!r}' if not u.ok else '')
            ctx.check(ctx.same(u.value, x), f'{how} gives a different object')
        else:
            ctx.check(not u.ok and isinstance(u.exc, ValueError), f'{how} accepts a wrong data size or raises something else')


def read(ctx, shape, n, opts=None):
    """Arbitrary input against the reference decoder."""
    sh, b, cls = setup(ctx, shape, opts)
    data = ctx.blob('data', 0, n)
    try:
        want, used = S.decode(ctx, b, sh, data)
        why = None
    except S.Reject as e:
        want, why = None, str(e)
    for how in UNPACKERS:
        u = ctx.attempt(do_unpack, cls, how, data)
        if want is not None:
            ctx.check(u.ok, f'{how} refuses a well-formed array: {u!r}' if not u.ok else '')
            ctx.check(ctx.same(u.value, want), f'{how}: not exactly the items counted')
        elif why == 'data size':
            ctx.check(not u.ok and isinstance(u.exc, ValueError), f'{how}: a wrong data size does not raise ValueError')
        else:
            ctx.check(not u.ok, f'{how} accepts what is not an array ({why})')
