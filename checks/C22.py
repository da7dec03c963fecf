"""Swoosh activations."""
import math, struct
from hlp import *
from explore import Harness, Discard
from sym import fexp

KIND = {'l': (4.0, 0.035), 'r': (1.0, 0.313261687)}


def f32(c):
    return struct.unpack('<f', struct.pack('<f', c))[0]


def xs(ctx, n, lo, hi):
    return [ctx.real(f'x{i}', lo, hi) for i in range(n)]


def value(x, kind):
    shift, off = KIND[kind]
    return lse([SF(0), x - shift]) - x * 0.08 - f32(off)


def slope(x, kind):
    return SF(0.92) - SF(1) / (fexp(x - KIND[kind][0]) + 1)


LAYOUTS = {'flat': (2,), 'none': (0,), 'one': (1,), 'column': (2, 1), 'row': (1, 2), 'cube': (1, 2, 1), 'scalar': ()}


def data(ctx, v, lay, dt, how):
    shape = LAYOUTS[lay]
    if how == 'plain' or not v:
        return wr(v, dt, shape)
    if how == 'stride':  # every other element of a larger tensor
        return wr([y for x in v for y in (x, SF(7))], dt, (2 * len(v),))[::2].reshape(-1) if len(shape) == 1 else wr([y for x in v for y in (x, SF(7))], dt, (len(v), 2))[:, :1].reshape(shape)
    if how == 'odd':  # counts as contiguous, with strides of its own
        return wr(v, dt, (1, len(v))).t() if lay == 'column' else wr(v, dt, (len(v), 1)).t() if lay == 'row' else wr(v, dt, shape)


def forward(ctx):
    """swoosh_l(), swoosh_r() without gradient, the _forward and _forward_and_deriv functions: 7 shapes up to 2 elements, contiguous or not, float and
    double, any x in -8..8: value and derivative."""
    kind = ctx.choose('kind', ['l', 'r'])
    fn = ctx.choose('fn', ['plain', 'forward', 'deriv'])
    lay, how = ctx.choose('layout', list(LAYOUTS)), ctx.choose('how', ['plain', 'stride', 'odd'])
    n = math.prod(LAYOUTS[lay])
    x = xs(ctx, n, -8, 8)
    dt = ctx.choose('dtype', [torch.float32, torch.float64])
    t = data(ctx, x, lay, dt, how)
    d = None
    if fn == 'plain':
        y = getattr(k2, f'swoosh_{kind}')(t)
    elif fn == 'forward':
        y = getattr(k2, f'swoosh_{kind}_forward')(t)
    else:
        y, d = getattr(k2, f'swoosh_{kind}_forward_and_deriv')(t)
    ctx.check(y.shape == t.shape, 'swoosh: shape')
    for a, b in zip(rd(y.reshape(-1)), x):
        ctx.check(close(a, value(b, kind)), 'swoosh: value')
    if d is not None:
        for a, b in zip(rd(d.reshape(-1)), x):
            ctx.check(close(a, slope(b, kind)), 'swoosh: derivative')


def gradient(ctx):
    """swoosh_l() and swoosh_r() with gradient: 7 shapes up to 2 elements, any x in parts of -8..8, dropout 0 and 1/2, any positive gradient of the result,
    in three layouts: the value is that of the function, or 0 or twice that with dropout; the gradient is within the documented 8 bits of the derivative."""
    kind = ctx.choose('kind', ['l', 'r'])
    lay, how = ctx.choose('layout', list(LAYOUTS)), ctx.choose('how', ['plain', 'stride', 'odd'])
    ghow = ctx.choose('ghow', ['plain', 'stride', 'odd', 'expand'])
    p = ctx.choose('dropout', [0.0, 0.5])
    lo, hi = ctx.choose('range', [(-8, 8)])
    n = math.prod(LAYOUTS[lay])
    x = xs(ctx, n, lo, hi)
    t = data(ctx, x, lay, ctx.choose('dtype', [torch.float32, torch.float64]), how).detach().requires_grad_(True)
    torch.manual_seed(ctx.choose('seed', [1, 2]) if p else 1)
    y = getattr(k2, f'swoosh_{kind}')(t, dropout_prob=p)
    ctx.check(y.shape == t.shape, 'swoosh: shape')
    vs = rd(y.detach().reshape(-1))
    kept = []
    for a, b in zip(vs, x):
        drop = p > 0 and a.i == 0 and a.v == 0
        kept.append(not drop)
        if not drop:
            ctx.check(close(a, value(b, kind) * (2 if p else 1)), 'swoosh: value')
    g = [ctx.pos('g', 0.5, 4)] * n if ghow == 'expand' else [ctx.pos(f'g{i}', 0.5, 4) for i in range(n)]
    gt = wr(g[:1], torch.float32, (1,)).expand(LAYOUTS[lay]) if ghow == 'expand' and n and LAYOUTS[lay] else data(ctx, g, lay, torch.float32, ghow if ghow != 'expand' else 'plain')
    y.backward(gt)
    ctx.check(t.grad.shape == t.shape, 'swoosh: shape of the gradient')
    tol = 1.006 / 255 / (1 - p)
    for a, b, w, k in zip(rd(t.grad.reshape(-1)), x, g, kept):
        e = a - (slope(b, kind) * (1 / (1 - p)) * w if k else SF(0))
        ctx.check((e <= w * tol) & (e >= w * -tol), 'swoosh: gradient')


HARNESSES = [Harness(forward, domain='exp'), Harness(gradient, domain='exp')]
QUICK_S = 40
THOROUGH_S = 200
