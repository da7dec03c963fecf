"""Reductions, sorting, unique, addition and normalisation over the sublists of a ragged tensor."""
from hlp import *
from explore import Harness

QUICK_S = 70
LOWEST = {torch.int32: -2 ** 31, torch.float32: torch.finfo(torch.float32).min, torch.float64: torch.finfo(torch.float64).min}
HIGHEST = {torch.int32: 2 ** 31 - 1, torch.float32: torch.finfo(torch.float32).max, torch.float64: torch.finfo(torch.float64).max}


def rows_of(x, n):
    """The sublists of the last axis."""
    for _ in range(n - 2):
        x = [y for l in x for y in l]
    return x


def val(ctx, name, dt):
    return ctx.int(name, -2, 2) if dt is torch.int32 else ctx.flt(name, -2, 2, 1)


def red_sum(ctx, x, r, n, dt):
    if dt is torch.int32:
        raise Discard()
    i = ctx.choose('init', [None, 0.5])
    o = rd(r.sum() if i is None else r.sum(initial_value=i))
    ctx.check(eq(o, [ssum(l, SF(0)) + (i or 0) for l in rows_of(x, n)]), 'sum of every sublist')


def red_max(ctx, x, r, n, dt, k='max'):
    i = ctx.choose('init', [False, True])
    v = val(ctx, 'initv', dt) if i else None
    iv = (v.v if v.i == 0 else (int(v) if dt is torch.int32 else float(v))) if i else None
    f = r.max if k == 'max' else r.min
    o = rd(f(initial_value=iv) if i else f())
    for p, l in zip(o, rows_of(x, n)):
        base = iv if i else (LOWEST if k == 'max' else HIGHEST)[dt]
        e = (SF if dt is not torch.int32 else SI)(base)
        for y in l:
            e = ite((y > e) if k == 'max' else (y < e), y, e)
        ctx.check(p == e, f'{k} of every sublist')
    ctx.check(len(o) == len(rows_of(x, n)), f'{k}: one value per sublist')


def red_min(ctx, x, r, n, dt):
    red_max(ctx, x, r, n, dt, 'min')


def red_argmax(ctx, x, r, n, dt):
    i = ctx.choose('init', [False, True])
    v = val(ctx, 'initv', dt) if i else None
    iv = (int(v) if dt is torch.int32 else float(v)) if i else None
    o = rd(r.argmax(initial_value=iv) if i else r.argmax())
    rows = rows_of(x, n)
    ctx.check(len(o) == len(rows), 'argmax: one index per sublist')
    b = 0
    for p, l in zip(o, rows):
        k = int(p)
        if k < 0:
            ctx.check(k == -1, 'argmax: -1')
            ctx.check(len(l) == 0 or (SB(i) & all_(y < iv for y in l) if i else SB(False)), 'argmax is -1 only for empty sublists or small values')
        else:
            ctx.check(b <= k < b + len(l), 'argmax: index inside the sublist')
            if b <= k < b + len(l):
                m = l[k - b]
                ctx.check(all_(y <= m for y in l), 'argmax: the largest value')
                if i:
                    ctx.check(m >= iv, 'argmax: at least the initial value')
        b += len(l)


def sort_(ctx, x, r, n, dt):
    desc = ctx.choose('desc', [False, True])
    need = ctx.choose('need', [False, True])
    m = r.sort_(descending=desc, need_new2old_indexes=need)
    o = out_ragged(r)
    rows, orows = rows_of(x, n), rows_of(o, n)
    ctx.check([len(l) for l in rows] == [len(l) for l in orows], 'sort_: shape kept')
    for l in orows:
        for p, q in zip(l, l[1:]):
            ctx.check(p >= q if desc else p <= q, 'sort_: order')
    flat = [v for l in rows for v in l]
    for l, q in zip(rows, orows):
        for y in l:
            ctx.check(ssum([ite(z == y, SI(1), SI(0)) for z in l]) == ssum([ite(z == y, SI(1), SI(0)) for z in q]), 'sort_: same values')
    if not need:
        ctx.check(m is None, 'sort_: no index map unless asked')
        return
    m = ints(rd(m))
    b = 0
    for l, q in zip(rows, orows):
        ctx.check(sorted(m[b:b + len(l)]) == list(range(b, b + len(l))), 'sort_: index map permutes the sublist')
        if sorted(m[b:b + len(l)]) == list(range(b, b + len(l))):
            for j, y in enumerate(q):
                ctx.check(y == flat[m[b + j]], 'sort_: index map gives the value')
        b += len(l)


def add(ctx, x, r, n, dt):
    rows = rows_of(x, n)
    v = [val(ctx, f'av{i}', dt) for i in range(len(rows))]
    al = ctx.choose('alpha', [1, -1, 2])
    o = r.add(wr(v, dt, (len(v),)), al)
    it = iter(v)
    def f(y, k):
        if k == 0:
            a = next(it)
            return [z + a * al for z in y]
        return [f(z, k - 1) for z in y]
    same(ctx, o, f(x, n - 1), n, 'add', dt)
    ctx.check(eq(out_ragged(r), x), 'add: input unchanged')


def unique(ctx, x, r, n, dt):
    if dt is not torch.int32:
        raise Discard()
    rep = ctx.choose('rep', [False, True])
    idx = ctx.choose('idx', [False, True])
    a, nr, m = r.unique(need_num_repeats=rep, need_new2old_indexes=idx)
    ctx.check((nr is None) == (not rep) and (m is None) == (not idx), 'unique: optional results')
    ctx.check(a.num_axes == n, 'unique: number of axes')
    o = out_ragged(a)
    g, og = ([x], [o]) if n == 2 else (x, o)
    for _ in range(n - 3):
        ctx.check(len(g) == len(og), 'unique: outer lists kept')
        ctx.check([len(l) for l in g] == [len(l) for l in og], 'unique: outer lists kept')
        g, og = [y for l in g for y in l], [y for l in og for y in l]
    ctx.check(len(g) == len(og), 'unique: outer lists kept')
    shape_ok(ctx, a.shape, o, n, 'unique')

    def seq(p, q):
        return eq(p, q)
    for l, q in zip(g, og):
        for p in l:
            ctx.check(any_(seq(p, z) for z in q), 'unique: no sequence is lost')
        for j, z in enumerate(q):
            ctx.check(any_(seq(p, z) for p in l), 'unique: only input sequences')
            for w in q[:j]:
                ctx.check(~seq(z, w), 'unique: no repeats')
    if rep:
        ctx.check(nr.num_axes == 2, 'unique: num_repeats has two axes')
        c = out_ragged(nr)
        ctx.check([len(t) for t in c] == [len(q) for q in og], 'unique: shape of num_repeats')
        for l, q, t in zip(g, og, c):
            for z, k in zip(q, t):
                ctx.check(k == ssum([ite(seq(p, z), SI(1), SI(0)) for p in l], SI(0)), 'unique: number of repeats')
    if idx:
        m = ints(rd(m))
        flat = [p for l in g for p in l]
        of = [p for l in og for p in l]
        ctx.check(len(m) == len(of), 'unique: length of the index map')
        b = k = 0
        for l, q in zip(g, og):
            for z in q:
                if k < len(m):
                    ctx.check(b <= m[k] < b + len(l), 'unique: index map stays in its list')
                    if b <= m[k] < b + len(l):
                        ctx.check(seq(flat[m[k]], z), 'unique: index map gives the sequence')
                k += 1
            b += len(l)


OPS = [red_sum, red_max, red_min, red_argmax, sort_, add, unique]


def _run(ctx, axes, sizes, dts):
    dt = ctx.choose('dt', dts)
    x = nest(ctx, 'x', sizes, dt)
    f = ctx.choose('op', [o for o in OPS if not ctx.params.get('ops') or o.__name__ in ctx.params['ops']])
    f(ctx, x, mk(x, axes, dt), axes, dt)


def axes2(ctx):
    """Up to 3 sublists of up to 3 values (int32), every operation; values -2..2."""
    _run(ctx, 2, [(0, 3), (0, ctx.params['k'])], [torch.int32])


def axes2_float(ctx):
    """Up to 2 sublists of up to 3 values (float32, float64), every operation; values -2..2 in steps of 1/2."""
    _run(ctx, 2, [(0, 2), (0, 3)], [torch.float32, torch.float64])


def axes3(ctx):
    """3 axes: up to 2 lists of up to 2 sublists of up to 2 values (int32), every operation; values -2..2."""
    _run(ctx, 3, [(0, 2), (0, 2), (0, 2)], [torch.int32])


def axes4(ctx):
    """4 axes: 1 to 2 by 1 to 2 by 0 to 1 by 0 to 1 (int32 and float32)."""
    _run(ctx, 4, [(1, 2), (1, 2), (0, 1), (0, 1)], [torch.int32, torch.float32])


def unique2(ctx):
    """unique() of 3 (4) sublists of up to 2 values; values 0..1."""
    n = ctx.choose('n', ctx.params['ns'])
    x = [[ctx.int(f'v{i}_{j}', 0, 1) for j in range(ctx.choose(f'k{i}', [0, 1, 2]))] for i in range(n)]
    unique(ctx, x, mk(x, 2), 2, torch.int32)


def unique3(ctx):
    """unique() with 3 axes: 2 to 3 lists of up to 2 sublists of up to 1 to 2 values; values 0..1."""
    x = [[[ctx.int(f'v{h}{i}{j}', 0, 1) for j in range(ctx.choose(f'k{h}{i}', [0, 1, 2] if h == 1 else [1]))] for i in range(ctx.choose(f'n{h}', [0, 1, 2] if h < 2 else [0, 1]))]
         for h in range(ctx.choose('n', [2, 3]))]
    unique(ctx, x, mk(x, 3), 3, torch.int32)


def _lg(ctx, p, n, fin):
    """Log values; with fin False an entry may be -inf."""
    return [SF(NEG) if not fin and ctx.choose(f'{p}z{i}', [False, True]) else ctx.real(f'{p}{i}') for i in range(n)]


def logs(ctx):
    """logsumexp and normalize(use_log=True) in exact real arithmetic: up to 3 sublists of up to 3 values in [-1, 1], some -inf."""
    dt = ctx.choose('dt', [torch.float32, torch.float64])
    axes = ctx.choose('axes', [2, 3])
    sizes = [ctx.choose(f'k{i}', [0, 1, 3] if i != 1 else [0, 2]) for i in range(3)]
    x = [_lg(ctx, f'x{i}_', k, i != 1) for i, k in enumerate(sizes)]
    rows = x
    if axes == 3:
        x = [x[:2], [], x[2:]]
    r = mk(x, axes, dt)
    if ctx.choose('op', ['lse', 'norm']) == 'lse':
        i = ctx.choose('init', [None, 0.5])
        o = rd(r.logsumexp() if i is None else r.logsumexp(initial_value=i))
        ctx.check(len(o) == len(rows), 'logsumexp: one value per sublist')
        for p, l in zip(o, rows):
            ctx.check(close(p, lse(l + ([SF(i)] if i is not None else []))), 'logsumexp of every sublist')
    else:
        o = r.normalize(use_log=True)
        shape_ok(ctx, o.shape, x, axes, 'normalize')
        ctx.check(o.dtype == dt, 'normalize: dtype')
        q = rows_of(out_ragged(o), axes)
        for p, l in zip(q, rows):
            t = lse(l)
            for u, v in zip(p, l):
                ctx.check(close(u, v - t) if t.i or t.v != NEG else SB(True), 'normalize in the log domain')


def normalize(ctx):
    """normalize(use_log=False) in exact real arithmetic: up to 3 sublists of up to 3 positive values."""
    dt = ctx.choose('dt', [torch.float32, torch.float64])
    axes = ctx.choose('axes', [2, 3])
    x = [[ctx.pos(f'x{i}_{j}') for j in range(ctx.choose(f'k{i}', [0, 1, 3]))] for i in range(3)]
    rows = x
    if axes == 3:
        x = [x[:2], [], x[2:]]
    o = mk(x, axes, dt).normalize(use_log=False)
    shape_ok(ctx, o.shape, x, axes, 'normalize')
    for p, l in zip(rows_of(out_ragged(o), axes), rows):
        t = ssum(l, SF(0))
        for u, v in zip(p, l):
            # the code adds a small number to the sum
            ctx.check((u * t * 0.999 <= v) & (v <= u * t * 1.001), 'normalize')


HARNESSES = [Harness(axes2, params=dict(k=2, ops=['red_sum', 'red_max', 'red_min', 'red_argmax', 'sort_', 'add'])), Harness(axes2, 'axes2_wide', params=dict(k=4, thorough_only=True)), Harness(axes2_float), Harness(axes3, params=dict(ops=['red_sum', 'red_max', 'red_min', 'red_argmax', 'sort_', 'add'])), Harness(unique3), Harness(axes4), Harness(unique2, params=dict(ns=[1, 2, 3])), Harness(unique2, 'unique4', params=dict(ns=[4], thorough_only=True)),
             Harness(logs, domain='exp'), Harness(normalize, domain='exp')]
