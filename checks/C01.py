"""Ragged arrays behave like nested lists under construction, conversion, indexing, slicing, concatenation, axis removal, filtering and padding."""
import pickle
from hlp import *
from explore import Harness

QUICK_S = 60
DT = [torch.int32, torch.float32, torch.float64]


def indexes(ctx, p, n, lo, hi, choose=True):
    """Symbolic or chosen positions."""
    return [ctx.int(f'{p}{i}', lo, hi) for i in range(n)]


def t32(x):
    return wr(x, torch.int32, (len(x),))


OPS = {}


def op(*axes):
    def d(f):
        for a in axes:
            OPS.setdefault(a, {})[f.__name__] = f
        return f
    return d


@op(2, 3, 4)
def build_(ctx, x, r, n, dt):
    how = ctx.choose('how', ['size', 'both', 'ids'])
    same(ctx, mk(x, n, dt, how), x, n, f'constructed from {how}', dt)
    same(ctx, r, x, n, 'constructed from row splits', dt)


@op(2, 3)
def clone(ctx, x, r, n, dt):
    c = r.clone()
    same(ctx, c, x, n, 'clone', dt)
    if c.numel():
        c.values[0] = 9
    same(ctx, r, x, n, 'original after the clone is changed', dt)
    same(ctx, r.to('cpu'), x, n, 'to(cpu)', dt)


@op(2, 3)
def to(ctx, x, r, n, dt):
    d2 = ctx.choose('to', DT)
    if d2 is torch.int32 and dt is not torch.int32:
        return
    same(ctx, r.to(d2), x, n, 'to(dtype)', d2)


@op(2, 3)
def pickled(ctx, x, r, n, dt):
    c = k2.RaggedTensor.__new__(k2.RaggedTensor)
    c.__setstate__(r.__getstate__())
    same(ctx, c, x, n, 'after pickling', dt)


@op(2)
def getitem(ctx, x, r, n, dt):
    for i in range(len(x)):
        v = r[i]
        ctx.check(eq(rd(v), x[i]), 'r[i]: content')
        ctx.check(v.dtype == dt, 'r[i]: dtype')


@op(3, 4)
def getitem_(ctx, x, r, n, dt):
    for i in range(len(x)):
        same(ctx, r[i], x[i], n - 1, 'r[i]', dt)
        s = r.shape[i]
        shape_ok(ctx, s, x[i], n - 1, 'shape[i]')


@op(2, 3, 4)
def slices(ctx, x, r, n, dt):
    b, e = int(ctx.int('b', -len(x), len(x))), int(ctx.int('e', -len(x), len(x)))
    if len(range(*slice(b, e).indices(len(x)))) or b <= e:
        bb, ee, _ = slice(b, e).indices(len(x))
        if bb <= ee:
            same(ctx, r[b:e], x[b:e], n, 'slice', dt)
    same(ctx, r[:], x, n, 'full slice', dt)


@op(2, 3, 4)
def arange(ctx, x, r, n, dt):
    axis = ctx.choose('axis', list(range(n - 1)))
    y = x
    for _ in range(axis):
        y = join(y)
    b = int(ctx.int('b', 0, len(y)))
    e = int(ctx.int('e', b, len(y)))
    same(ctx, r.arange(axis, b, e), y[b:e], n - axis, 'arange', dt)


@op(2, 3, 4)
def take(ctx, x, r, n, dt):
    """Rows picked by a tensor; -1 gives an empty row where that is allowed."""
    axis = ctx.choose('axis', list(range(n)))
    k = int(ctx.int('k', 0, 2 if n < 3 or ctx.params.get('cols') == 2 else 1))
    tot = len(x) if axis == 0 else sum(layers(x, n)[0][axis - 1])
    if axis == 0:
        lo = -1
        if not len(x) and k:
            lo = -1
        ix = [int(ctx.int(f'i{j}', lo, len(x) - 1)) if len(x) else -1 for j in range(k)]
        pos = shape_of(x, n)
        want = [x[i] if i >= 0 else [] for i in ix]
        wpos = [pos[i] if i >= 0 else [] for i in ix]
    else:
        # a non-decreasing selection that stays in order within each row
        keep = [bool(ctx.bool(f'i{j}')) for j in range(tot)]
        if tot > 4:
            raise Discard()
        ix = [j for j in range(tot) if keep[j]]
        it = iter(keep)
        def sel(y, k):
            if k == 0:
                return [z for z in y if next(it)]
            return [sel(z, k - 1) for z in y]
        want = sel(x, axis)
        it = iter(keep)
        wpos = sel(shape_of(x, n), axis)
    flat = layers(wpos, n)[1]
    a, v = r.index(t32(ix), axis, need_value_indexes=True)
    same(ctx, a, want, n, 'index(tensor)', dt)
    ctx.check(eq(rd(v), flat), 'index(tensor): value indexes')
    a, v = r.index(t32(ix), axis)
    ctx.check(v is None, 'index(tensor): no value indexes unless asked')
    s, v = r.shape.index(axis, t32(ix))
    shape_ok(ctx, s, want, n, 'shape.index')
    ctx.check(eq(rd(v), flat), 'shape.index: value indexes')
    if axis == 0:
        same(ctx, r[t32(ix)], want, n, 'r[tensor]', dt)


@op(2, 3)
def take_ragged(ctx, x, r, n, dt):
    """r.index(ragged): sublists replaced by the rows they name."""
    if not len(x):
        raise Discard()
    m = int(ctx.int('m', 0, 2 if n < 3 or ctx.params.get('cols') == 2 else 1))
    ix = [[int(ctx.int(f'i{j}_{k}', 0, len(x) - 1)) for k in range(int(ctx.int(f'm{j}', 0, 2)))] for j in range(m)]
    same(ctx, r.index(mk(ix, 2)), [[x[i] for i in y] for y in ix], n + 1, 'index(ragged)', dt)


@op(2, 3)
def values_of(ctx, x, r, n, dt):
    """A flat tensor indexed by a ragged one, and -1 filled with the default."""
    ls, flat = layers(x, n)
    if dt is not torch.int32:
        raise Discard()
    src = [ctx.int(f's{i}', -9, 9) for i in range(4)]
    ix = depth_map(x, n, lambda v: v + 1)       # -1..3
    ri = mk(ix, n)
    kind = ctx.choose('kind', [torch.int32, torch.float32])
    dv = ctx.choose('default', [None, 7])
    o = k2.ragged.index(wr(src, kind, (4,)), ri, default_value=dv)

    def pick(i):
        res = SI(dv or 0)
        for k, s in enumerate(src):
            res = ite(i == k, s, res)
        return res
    same(ctx, o, depth_map(ix, n, pick), n, 'index(values, ragged)', kind)


@op(3, 4)
def remove_axis(ctx, x, r, n, dt):
    axis = ctx.choose('axis', list(range(n)))
    if axis == n - 1:
        s = r.shape.remove_axis(axis)
        def cut(y, k):
            return [cut(z, k - 1) if k > 1 else 0 for z in y]
        shape_ok(ctx, s, cut(x, n - 1), n - 1, 'shape.remove_axis(last)')
        return
    y = join(x) if axis == 0 else depth_map(x, axis - 1, lambda l: [join(z) for z in l])
    same(ctx, r.remove_axis(axis), y, n - 1, 'remove_axis', dt)
    shape_ok(ctx, r.shape.remove_axis(axis), y, n - 1, 'shape.remove_axis')


@op(3, 4)
def layer(ctx, x, r, n, dt):
    ls, _ = layers(x, n)
    for i in range(n - 1):
        shape_ok(ctx, r.shape.get_layer(i), [[0] * k for k in ls[i]], 2, 'get_layer')


@op(2, 3)
def remove_leq(ctx, x, r, n, dt):
    c = ctx.choose('cut', [-1, 0, 2])
    keep = depth_map(x, n - 1, lambda l: [v for v in l if v > c])
    same(ctx, r.remove_values_leq(c), keep, n, 'remove_values_leq', dt)


@op(2, 3)
def remove_eq(ctx, x, r, n, dt):
    c = ctx.choose('cut', [-2, 0, 1])
    keep = depth_map(x, n - 1, lambda l: [v for v in l if v != c])
    same(ctx, r.remove_values_eq(c), keep, n, 'remove_values_eq', dt)


@op(2, 3)
def equality(ctx, x, r, n, dt):
    """Equal exactly when structure and content agree."""
    y = depth_map(x, n - 1, lambda l: list(l))
    how = ctx.choose('change', ['none', 'value', 'structure'])
    if how == 'value':
        ls, flat = layers(x, n)
        if not flat:
            raise Discard()
        d = ctx.int('d', -1, 1)
        k = int(ctx.int('pos', 0, len(flat) - 1))
        it = iter(range(len(flat)))
        y = depth_map(x, n, lambda v: v + d if next(it) == k else v)
    elif how == 'structure':
        if n == 2:
            y = y + [[]]
        else:
            y = y[:-1] + [y[-1] + [[]]] if y else y + [[]]
    q = mk(y, n, dt)
    want = eq(x, y)
    ctx.check(SB(r == q) == want, '==')
    ctx.check(SB(r != q) == ~want, '!=')
    ctx.check((r.shape == q.shape) == (how != 'structure'), 'shape ==')
    ctx.check((r.shape != q.shape) == (how == 'structure'), 'shape !=')


@op(2)
def pad(ctx, x, r, n, dt):
    mode = ctx.choose('mode', ['constant', 'replicate'])
    left = ctx.choose('left', [False, True])
    if not layers(x, 2)[1]:
        raise Discard()
    w = max(len(y) for y in x)
    p = 7
    want = []
    for y in x:
        f = p if mode == 'constant' or not y else y[0] if left else y[-1]
        want.append([f] * (w - len(y)) + y if left else y + [f] * (w - len(y)))
    o = r.pad(mode, p, left)
    ctx.check(tuple(o.shape) == (len(x), w) and o.dtype == dt, 'pad: shape and dtype')
    ctx.check(eq(rd(o), want), 'pad: content')


@op(2, 3, 4)
def tolist(ctx, x, r, n, dt):
    ls, flat = layers(x, n)
    for v in flat[2:]:
        ctx.assume(v == 1)
    ctx.check(eq(r.tolist(), x), 'tolist')


@op(2, 3)
def fromlist(ctx, x, r, n, dt):
    """Construction from lists and from a string."""
    ls, flat = layers(x, n)
    if n == 3 and not (x and all(x)):
        raise Discard()
    for v in flat[2:]:
        ctx.assume(v == 1)
    y = depth_map(x, n, lambda v: int(v) if dt is torch.int32 else float(v))
    if not flat and n == 3 and not any(y):
        raise Discard()
    same(ctx, k2.RaggedTensor(y, dtype=dt), y, n, 'from a list', dt)
    same(ctx, k2.RaggedTensor(str(y).replace(',', ' '), dtype=dt), y, n, 'from a string', dt)
    c = k2.RaggedTensor(str(y), dtype=dt)
    same(ctx, c, y, n, 'from a string with commas', dt)
    s = str(c)
    body = s[s.index('(') + 1:s.rindex(', dtype')]
    same(ctx, k2.RaggedTensor(body, dtype=dt), y, n, 'string of a ragged tensor read back', dt)
    same(ctx, k2.RaggedTensor(c.to_str_simple()[13:].rsplit(', dtype', 1)[0], dtype=dt), y, n, 'simple string read back', dt)
    sh = str(c.shape)
    ctx.check(k2.RaggedShape(sh) == c.shape, 'string of a shape read back')


def _run(ctx, axes, sizes, dts):
    name = ctx.choose('op', [k for k in OPS[axes] if not ctx.params.get('ops') or k in ctx.params['ops']])
    dt = ctx.choose('dtype', dts)
    x = nest(ctx, '', sizes, dt)
    r = mk(x, axes, dt)
    OPS[axes][name](ctx, x, r, axes, dt)
    if name != 'clone':
        ctx.check(eq(out_ragged(r), x), f'{name}: the input is unchanged')


def axes2(ctx):
    """Up to 2 (3) rows of up to 2 values of int32, empty rows and no rows included; each operation in turn."""
    _run(ctx, 2, [(0, ctx.params['rows']), (0, 2)], DT[:1])


def axes2_float(ctx):
    """Up to 2 rows of up to 1 value of float32 or float64 (2 values); each operation in turn."""
    _run(ctx, 2, [(0, 2), (0, ctx.params['cols'])], DT[1:])


def axes3(ctx):
    """Up to 2 rows of up to 2 rows of up to 2 values; each operation in turn."""
    _run(ctx, 3, [(0, 2), (0, 2), (0, ctx.params['cols'])], DT[:1])


def axes4(ctx):
    """Four axes: 1 or 2 by up to 2 by 1 by up to 2; each operation in turn."""
    _run(ctx, 4, [(1, 2), (0, 2), (0, 1), (0, 2)] if ctx.params['big'] else [(1, 2), (0, 2), (1, 1), (0, 1)], DT[:1])


def cat(ctx):
    """Two or three ragged tensors with up to 2 rows of up to 2 values (3 axes: 1 or 2 rows of up to 2 of up to 1), joined on axis 0 or 1."""
    n = ctx.choose('axes', [2, 3])
    axis = ctx.choose('axis', [0, 1])
    k = ctx.choose('k', [1, 2, 3])
    dt = ctx.choose('dtype', DT[:2])
    rows = int(ctx.int('rows', 0, 2)) if axis == 1 else None
    xs = []
    for i in range(k):
        a = (rows, rows) if axis == 1 else (0, 2)
        xs.append(nest(ctx, f'{i}', [a, (0, 2 if k < 3 else 1)] if n == 2 else [a, (0, 1), (0, 1)], dt))
    o = k2.ragged.cat([mk(x, n, dt) for x in xs], axis=axis)
    if axis == 0:
        want = [y for x in xs for y in x]
    else:
        want = [join(x[j] for x in xs) for j in range(rows)]
    same(ctx, o, want, n, f'cat on axis {axis}', dt)


def cat_deep(ctx):
    """Two operands of four axes (one row, or two, of up to 2 by up to 2 by up to 1, or 2; three axes: as many rows of up to 2 of up to 2), joined on axis 0 or 1."""
    n = ctx.choose('axes', [4, 3])
    axis = ctx.choose('axis', [1, 0])
    rows = ctx.params['rows']
    sizes = [(rows, rows), (0, 2), (0, 2), (0, ctx.params['deep'])] if n == 4 else [(rows, rows), (0, 2), (0, 2)]
    xs = [nest(ctx, f'{i}', sizes, torch.int32) for i in range(2)]
    o = k2.ragged.cat([mk(x, n, torch.int32) for x in xs], axis=axis)
    want = xs[0] + xs[1] if axis == 0 else [a + b for a, b in zip(*xs)]
    same(ctx, o, want, n, f'cat on axis {axis}', torch.int32)


def dense(ctx):
    """2-D and 3-D tensors with dimensions 0..2, and regular shapes."""
    n = ctx.choose('axes', [2, 3])
    dims = [int(ctx.int(f'd{i}', 0 if i else 1, 2)) for i in range(n)]
    dt = ctx.choose('dtype', DT)
    cnt = iter(range(99))

    def rec(k):
        if k == n:
            j = next(cnt)
            return ctx.int(f'v{j}', -3, 3) if dt is torch.int32 else ctx.flt(f'v{j}', -3, 3)
        return [rec(k + 1) for _ in range(dims[k])]
    x = rec(0)
    t = wr(x, dt, tuple(dims))
    if ctx.choose('transposed', [False, True]):
        t = t.transpose(n - 2, n - 1).contiguous().transpose(n - 2, n - 1)
    same(ctx, k2.RaggedTensor(t), x, n, 'from a dense tensor', dt)
    if n == 2:
        shape_ok(ctx, k2.RaggedShape.regular_ragged_shape(*dims), x, 2, 'regular shape')


HARNESSES = [
    Harness(axes2, params=dict(rows=2), weight=2), Harness(axes2_float, params=dict(cols=1)),
    Harness(axes3, params=dict(cols=1), weight=2), Harness(axes4, params=dict(big=False)), Harness(cat), Harness(dense),
    Harness(cat_deep, params=dict(rows=1, deep=1)), Harness(cat_deep, 'cat_deep2', params=dict(rows=2, deep=2, thorough_only=True)),
    Harness(axes2, 'axes2_3', params=dict(rows=3, thorough_only=True)),
    Harness(axes2_float, 'axes2_float2', params=dict(cols=2, thorough_only=True)),
    Harness(axes3, 'axes3_2', params=dict(cols=2, thorough_only=True)),
    Harness(axes4, 'axes4_big', params=dict(big=True, thorough_only=True)),
]
