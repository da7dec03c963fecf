"""The RNN-T losses."""
from hlp import *
from explore import Harness, Discard
from sym import flog, fexp
from C10 import ninf, add, ratio


def alignments(t0, t1, s0, s1, kind):
    """All ways from (s0, t0) to (s1, t1): lists of ('x' or 'y', s, t). An x step reads px[s][t], a y step py[s][t]."""
    if (s0, t0) == (s1, t1):
        return [[]]
    r = []
    if s0 < s1 and (kind == 'regular' or t0 < t1):
        r += [[('x', s0, t0)] + p for p in alignments(t0 + (kind != 'regular'), t1, s0 + 1, s1, kind)]
    if t0 < t1:
        r += [[('y', s0, t0)] + p for p in alignments(t0 + 1, t1, s0, s1, kind)]
    return r


def pxy(ctx, B, S, T, kind, p='', inf=False):
    T1 = T + (kind == 'regular')
    px = [[[SF(NEG) if inf and t == T else ctx.real(f'{p}x{b}{s}{t}', -1, 1) for t in range(T1)] for s in range(S)] for b in range(B)]
    py = [[[ctx.real(f'{p}y{b}{s}{t}', -1, 1) for t in range(T)] for s in range(S + 1)] for b in range(B)]
    return px, py


def ten(x, shape, dt=torch.float32):
    def flat(y):
        return [v for z in y for v in flat(z)] if isinstance(y, list) else [y]
    return wr(flat(x), dt, shape)


def total(px, py, box, kind, via=None):
    """The log of the sum over the alignments (that use a step)."""
    s0, t0, s1, t1 = box
    ws = []
    for p in alignments(t0, t1, s0, s1, kind):
        if via is not None and via not in p:
            continue
        ws.append(add(*[(px if k == 'x' else py)[s][t] for k, s, t in p], SF(0)))
    return lse(ws)


BOXES = {  # S, T, boundaries
    'none': (2, 2, None), 'full': (2, 2, [[0, 0, 2, 2]]), 'short': (2, 3, [[0, 0, 1, 2]]), 'inner': (2, 3, [[1, 1, 2, 3]]),
    'two': (1, 2, [[0, 0, 1, 2], [0, 0, 0, 1]]), 'empty': (1, 1, [[0, 0, 0, 0]]), 'wide': (1, 3, None), 'high': (2, 1, None), 'nosym': (0, 2, None), 'point': (1, 2, [[1, 1, 1, 1]]),
    'pair': (2, 2, [[0, 0, 2, 2], [1, 0, 2, 1]]), 'batch': (1, 1, 2),
}


def setup(ctx):
    name = ctx.choose('box', ctx.params['boxes'])
    kind = ctx.choose('kind', ctx.params['kinds'])
    S, T, bd = BOXES[name]
    B = bd if isinstance(bd, int) else len(bd) if bd else 1
    boxes = bd if isinstance(bd, list) else [[0, 0, S, T]] * B
    bt = torch.tensor(bd, dtype=torch.int64) if isinstance(bd, list) else None
    if kind != 'regular' and any(b[2] - b[0] > b[3] - b[1] for b in boxes):
        raise Discard()
    return kind, S, T, B, boxes, bt


def recursion(ctx):
    """mutual_information_recursion for up to 2 sequences, S <= 2, T <= 3 (12 shapes and boundaries), regular and modified, float and
    double, real scores in -1..1, the last column finite or -infinity: the value is the sum over all alignments, the gradient the share of
    the alignments that use the step, scaled by the incoming gradient."""
    kind, S, T, B, boxes, bt = setup(ctx)
    inf = kind == 'regular' and ctx.choose('inf', [False, True])
    px, py = pxy(ctx, B, S, T, kind, inf=inf)
    dt = ctx.choose('dt', [torch.float32, torch.float64])
    T1 = T + (kind == 'regular')
    X, Y = ten(px, (B, S, T1), dt).requires_grad_(True), ten(py, (B, S + 1, T), dt).requires_grad_(True)
    occ = ctx.choose('occ', [False, True])
    r = k2.mutual_information_recursion(X, Y, bt, return_grad=occ)
    if occ:
        r, (gx, gy) = r
    vals = rd(r)
    ctx.check(len(vals) == B, 'recursion: length')
    ok = True
    for b in range(B):
        e = total(px[b], py[b], boxes[b], kind)
        ctx.check(close(vals[b], e), 'recursion: value')
        ok = ok and not ninf(e)
    if not ok:
        return
    co = [[2.0, -0.5][b] for b in range(B)]
    (r * torch.tensor(co, dtype=dt)).sum().backward()
    for which, n, g, og, m in (('x', S, X.grad, gx if occ else None, T1), ('y', S + 1, Y.grad, gy if occ else None, T)):
        g, og = rd(g), rd(og) if og is not None else None
        for b in range(B):
            for s in range(n):
                for t in range(m):
                    box = boxes[b]
                    share = ratio(total(px[b], py[b], box, kind, (which, s, t)), total(px[b], py[b], box, kind))
                    ctx.check(close(g[b][s][t], share * co[b]), f'recursion: gradient of p{which}')
                    if og is not None:
                        ctx.check(close(og[b][s][t], share), f'recursion: occupation of p{which}')


def joint(ctx):
    """joint_mutual_information_recursion() of 1 to 3 parts for 1 or 2 sequences (9 layouts with 1 to 6 alignments), real scores in -1..1: each
    part is the expected sum of its own scores along an alignment, the first one also has what is missing to the log of the sum over all
    alignments of all scores; the gradients are the shares of the alignments that use a step."""
    N = ctx.choose('parts', [2, 1, 3])
    kind, B, S, T, boxes = ctx.choose('layout', [('modified', 1, 2, 2, None), ('regular', 1, 0, 2, None), ('regular', 2, 1, 2, [[0, 0, 0, 2], [1, 1, 1, 2]]),
                                                ('modified', 2, 2, 2, [[0, 0, 1, 1], [0, 0, 2, 2]]), ('modified', 1, 2, 3, [[1, 1, 2, 2]]),
                                                ('regular', 1, 1, 1, None), ('modified', 1, 1, 2, None), ('regular', 2, 1, 2, [[0, 0, 1, 2], [0, 1, 1, 2]]), ('regular', 1, 2, 2, None)])
    if ctx.params.get('more') != (N * len(alignments(0, T, 0, S, kind)) > 6):
        raise Discard()
    bt = torch.tensor(boxes, dtype=torch.int64) if boxes else None
    boxes = boxes or [[0, 0, S, T]] * B
    T1 = T + (kind == 'regular')
    parts = [pxy(ctx, B, S, T, kind, p=f'{i}') for i in range(N)]
    X = [ten(px, (B, S, T1)).requires_grad_(True) for px, _ in parts]
    Y = [ten(py, (B, S + 1, T)).requires_grad_(True) for _, py in parts]
    r = k2.joint_mutual_information_recursion(X, Y, bt)
    v = rd(r)
    ctx.check(tuple(r.shape) == (N, B), 'joint: shape')
    co = [[1.0, -0.5], [2.0, 0.25], [-1.0, 4.0]]
    (r * torch.tensor([c[:B] for c in co[:N]])).sum().backward()
    for b in range(B):
        px, py = [[[add(*[parts[i][j][b][s][t] for i in range(N)], SF(0)) for t in range(m)] for s in range(n)] for j, n, m in ((0, S, T1), (1, S + 1, T))]
        tot = total(px, py, boxes[b], kind)
        share = {}
        for which, n, m in (('x', S, T1), ('y', S + 1, T)):
            for s in range(n):
                for t in range(m):
                    share[which, s, t] = ratio(total(px, py, boxes[b], kind, (which, s, t)), tot)
        rest = tot
        for i in reversed(range(N)):
            e = ssum([share[k] * parts[i][k[0] == 'y'][b][k[1]][k[2]] for k in share], SF(0))
            if i:
                rest = rest - e
            ctx.check(close(v[i][b], e if i else rest), 'joint: value')
            for which, g, n, m in (('x', X[i].grad, S, T1), ('y', Y[i].grad, S + 1, T)):
                if n * m:
                    g = rd(g)
                    for s in range(n):
                        for t in range(m):
                            ctx.check(close(g[b][s][t], share[which, s, t] * co[i][b]), 'joint: gradient')


# ------------------------------------------------------------ losses
def emissions(kind, syms, blank, box):
    """All alignments of a sequence as lists of (frame, position, symbol)."""
    s0, t0, s1, t1 = box
    res = []
    for p in alignments(t0, t1, s0, s1, kind):
        if any(k == 'x' and t >= t1 for k, s, t in p):
            continue
        r = []
        for k, s, t in p:
            if k == 'y':
                r.append((t, s, blank, False))
            else:
                r.append((t, s, syms[s], True))
                if kind == 'constrained':
                    r.append((t, s + 1, blank, False))
        res.append(r)
    return res


def logp(row, c):
    return row[c] - lse(row)


def hat(row, c):
    """Blank is a sigmoid of its own, the other symbols share the rest."""
    q = flog(fexp(row[0]) + 1)
    return row[0] - q if c == 0 else row[c] - lse(row[1:]) - q


def loss(ctx, out, red, als, L, pen, off, lp, msg):
    """Values; returns per sequence the weights of the alignments."""
    tot, ws = [], []
    for b, A_ in enumerate(als):
        w = []
        for e in A_:
            r = SF(0)
            for t, s, c, x in e:
                r = r + lp(L(b, t, s), c)
                if x and pen:
                    r = r + (off[b] - t) * pen
            w.append(r)
        ws.append(w)
        tot.append(lse(w))
    if red == 'none':
        v = rd(out)
        ctx.check(len(v) == len(tot), f'{msg}: length')
        for x, y in zip(v, tot):
            ctx.check(close(-x if not ninf(y) else -x, y), f'{msg}: value')
    else:
        n = len(tot) if red == 'mean' else 1
        # n * loss = -sum, compared as products
        ctx.check(close(ssum([rd(out)] * n), -ssum(tot)), f'{msg}: value')
    return ws, tot


def counts(als, ws, tot):
    """Expected number of each emission."""
    n = []
    for A_, w, z in zip(als, ws, tot):
        d = {}
        for e, v in zip(A_, w):
            q = ratio(v, z)
            for t, s, c, x in e:
                d[t, s, c] = d[t, s, c] + q if (t, s, c) in d else q
        n.append(d)
    return n


def dlogit(d, row, t, s, c, lp=logp):
    """Derivative of the log-probability with respect to a logit of (t, s)."""
    m = ssum([v for (u, z, _), v in d.items() if (u, z) == (t, s)], SF(0))
    if lp is hat:
        nb = ssum([v for (u, z, k), v in d.items() if (u, z) == (t, s) and k], SF(0))
        sg = fexp(row[0] - flog(fexp(row[0]) + 1))
        if c == 0:
            return d.get((t, s, 0), SF(0)) - m * sg
        return d.get((t, s, c), SF(0)) - nb * fexp(row[c] - lse(row[1:]))
    return d.get((t, s, c), SF(0)) - m * fexp(row[c] - lse(row))


KINDS = ['regular', 'modified', 'constrained']
LOSS = {  # S, T, boundaries, symbols
    'a': (1, 2, None, [[1]]), 'b': (1, 2, [[0, 0, 1, 1], [0, 0, 1, 2]], [[1], [0]]), 'c': (2, 2, None, [[1, 1]]), 'd': (2, 2, [[0, 0, 1, 2]], [[0, 1]]),
    'e': (0, 2, None, [[]]), 'f': (1, 1, None, [[1], [1]]), 'g': (2, 2, [[0, 0, 2, 2]], [[1, 0]]), 'h': (1, 3, [[0, 0, 1, 2]], [[1]]), 'i': (2, 1, None, [[1, 1]]),
}


def lsetup(ctx):
    S, T, bd, syms = LOSS[ctx.choose('case', ctx.params['cases'])]
    kind = ctx.choose('kind', KINDS)
    B = len(syms)
    boxes = bd or [[0, 0, S, T]] * B
    if kind != 'regular' and (any(b[2] - b[0] > b[3] - b[1] for b in boxes)):
        raise Discard()
    blank = ctx.choose('blank', [0, 1]) if ctx.params.get('blank', True) else 0
    bt = torch.tensor(bd, dtype=torch.int64) if bd else None
    st = torch.tensor(syms, dtype=torch.int64).reshape(B, S)
    red = ctx.choose('red', ['none', 'sum', 'mean'] if B > 1 else ['none', 'mean'])
    pen = ctx.choose('pen', [0.0, 0.5]) if red == 'none' else 0.5
    off = [((b[3] if bd else T) - 1) / 2 for b in boxes]
    return S, T, B, boxes, bt, kind, blank, syms, st, red, pen, off


def finish(out, red, B):
    co = [2.0, -0.5][:B] if red == 'none' else [1.0 / (B if red == 'mean' else 1)] * B
    (out * torch.tensor(co)).sum().backward() if red == 'none' else out.backward()
    return co


def full(ctx):
    """rnnt_loss: up to 2 sequences, S <= 2 symbols, T <= 3 frames, vocabulary 2, blank 0 or 1, symbols that repeat or equal the blank, with and
    without boundaries, the 3 kinds, delay penalties 0 and 0.5, the 3 reductions, real logits in -1..1: the loss is minus the log of the sum over
    all alignments of the product of the softmax probabilities; the gradient of every logit."""
    S, T, B, boxes, bt, kind, blank, syms, st, red, pen, off = lsetup(ctx)
    C = 2
    x = [[[[ctx.real(f'l{b}{t}{s}{c}', -1, 1) for c in range(C)] for s in range(S + 1)] for t in range(T)] for b in range(B)]
    lg = ten(x, (B, T, S + 1, C)).requires_grad_(True)
    out = k2.rnnt_loss(lg, st, blank, boundary=bt, rnnt_type=kind, delay_penalty=pen, reduction=red)
    als = [emissions(kind, syms[b], blank, boxes[b]) for b in range(B)]
    ws, tot = loss(ctx, out, red, als, lambda b, t, s: x[b][t][s], pen, off, logp, 'rnnt_loss')
    if any(ninf(v) for v in tot) or not ctx.choose('grad', [True, False]):
        return
    co = finish(out, red, B)
    g = rd(lg.grad)
    n = counts(als, ws, tot)
    for b in range(B):
        for t in range(T):
            for s in range(S + 1):
                for c in range(C):
                    ctx.check(close(g[b][t][s][c], dlogit(n[b], x[b][t][s], t, s, c) * -co[b]), 'rnnt_loss: gradient')


def occupations(ctx, gx, gy, S, T, B, boxes, kind, ws, tot, msg):
    gx, gy = rd(gx), rd(gy)
    for b in range(B):
        nx, ny = {}, {}
        for p, v in zip([p for p in alignments(boxes[b][1], boxes[b][3], boxes[b][0], boxes[b][2], kind) if not any(k == 'x' and t >= boxes[b][3] for k, s, t in p)], ws[b]):
            q = ratio(v, tot[b])
            for k, s, t in p:
                d = nx if k == 'x' else ny
                d[s, t] = d[s, t] + q if (s, t) in d else q
        for s in range(S + 1):
            for t in range(T):
                ctx.check(close(gy[b][s][t], ny.get((s, t), SF(0))), f'{msg}: occupation of blanks')
                if s < S:
                    ctx.check(close(gx[b][s][t], nx.get((s, t), SF(0))), f'{msg}: occupation of symbols')


def simple(ctx):
    """rnnt_loss_simple: as for rnnt_loss with logits am + lm, and the gradients of am and lm and the occupations."""
    S, T, B, boxes, bt, kind, blank, syms, st, red, pen, off = lsetup(ctx)
    C = 2
    am = [[[ctx.real(f'a{b}{t}{c}', -1, 1) for c in range(C)] for t in range(T)] for b in range(B)]
    lm = [[[ctx.real(f'l{b}{s}{c}', -1, 1) for c in range(C)] for s in range(S + 1)] for b in range(B)]
    at, lt = ten(am, (B, T, C)).requires_grad_(True), ten(lm, (B, S + 1, C)).requires_grad_(True)
    occ = red == 'none' and ctx.choose('occ', [False, True])
    out = k2.rnnt_loss_simple(lt, at, st, blank, boundary=bt, rnnt_type=kind, delay_penalty=pen, reduction=red, return_grad=occ)
    if occ:
        out, (gx, gy) = out
    als = [emissions(kind, syms[b], blank, boxes[b]) for b in range(B)]
    row = lambda b, t, s: [u + v for u, v in zip(am[b][t], lm[b][s])]
    ws, tot = loss(ctx, out, red, als, row, pen, off, logp, 'rnnt_loss_simple')
    if any(ninf(v) for v in tot):
        return
    if occ:
        occupations(ctx, gx, gy, S, T, B, boxes, kind, ws, tot, 'rnnt_loss_simple')
        return
    co = finish(out, red, B)
    ga, gl = rd(at.grad), rd(lt.grad)
    n = counts(als, ws, tot)
    for b in range(B):
        d = {(t, s, c): dlogit(n[b], row(b, t, s), t, s, c) * -co[b] for t in range(T) for s in range(S + 1) for c in range(C)}
        for c in range(C):
            for t in range(T):
                ctx.check(close(ga[b][t][c], ssum([d[t, s, c] for s in range(S + 1)])), 'rnnt_loss_simple: gradient of am')
            for s in range(S + 1):
                ctx.check(close(gl[b][s][c], ssum([d[t, s, c] for t in range(T)])), 'rnnt_loss_simple: gradient of lm')


def smoothed(ctx):
    """rnnt_loss_smoothed: as for rnnt_loss_simple, with the log-probabilities mixed from the joint one, that of lm alone, and that of am with the
    average prediction of lm, scales 0, 1/4, 1/2 and 1 (those that are not whole where there is one alignment); the occupations."""
    S, T, B, boxes, bt, kind, blank, syms, st, red, pen, off = lsetup(ctx)
    C = 2
    als = [emissions(kind, syms[b], blank, boxes[b]) for b in range(B)]
    one = all(len(x) <= 1 for x in als)
    ls, as_ = ctx.choose('scales', ([(0.25, 0.5), (0.5, 0.25)] if one else []) + [(0.0, 0.0), (1.0, 0.0), (0.0, 1.0)])
    am = [[[ctx.real(f'a{b}{t}{c}', -1, 1) for c in range(C)] for t in range(T)] for b in range(B)]
    lm = [[[ctx.real(f'l{b}{s}{c}', -1, 1) for c in range(C)] for s in range(S + 1)] for b in range(B)]
    at, lt = ten(am, (B, T, C)), ten(lm, (B, S + 1, C))
    occ = red == 'none' and ctx.choose('occ', [False, True])
    out = k2.rnnt_loss_smoothed(lt, at, st, blank, lm_only_scale=ls, am_only_scale=as_, boundary=bt, rnnt_type=kind, delay_penalty=pen, reduction=red, return_grad=occ)
    if occ:
        out, (gx, gy) = out
    uni = [lse([logp(lm[b][s], c) for b in range(B) for s in range(S + 1)]) - flog(SF(B * (S + 1))) for c in range(C)]

    def mix(L, c):
        b, t, s = L
        r = SF(0)
        if 1 - ls - as_:
            r = r + logp([u + v for u, v in zip(am[b][t], lm[b][s])], c) * (1 - ls - as_)
        if ls:
            r = r + logp(lm[b][s], c) * ls
        if as_:
            r = r + logp([u + v for u, v in zip(am[b][t], uni)], c) * as_
        return r
    ws, tot = loss(ctx, out, red, als, lambda *a: a, pen, off, mix, 'rnnt_loss_smoothed')
    if occ and not any(ninf(v) for v in tot):
        occupations(ctx, gx, gy, S, T, B, boxes, kind, ws, tot, 'rnnt_loss_smoothed')


PRUNE = {  # S, T, boundaries, symbols, ranges
    'a': (1, 2, None, [[1]], 1, [[0, 1]]), 'b': (2, 2, None, [[1, 1]], 2, [[0, 1]]), 'c': (2, 3, [[0, 0, 2, 3]], [[1, 0]], 2, [[0, 0, 1]]), 'd': (2, 2, None, [[1, 0]], 3, [[0, 0]]),
    'e': (2, 2, [[0, 0, 1, 2], [0, 0, 2, 2]], [[1, 0], [0, 1]], 2, [[0, 0], [0, 1]]), 'f': (2, 3, [[0, 0, 2, 2]], [[1, 1]], 2, [[0, 1, 1]]), 'g': (3, 2, None, [[1, 1, 0]], 3, [[0, 1]]),
}


def pruned(ctx):
    """rnnt_loss_pruned: up to 2 sequences, S <= 3, T <= 3, vocabulary 2 or 3, 7 ranges of 1 to 3 positions, the 3 kinds, plain and HAT
    normalisation, real logits: the sum over the alignments that stay inside the ranges; the gradient of every logit."""
    S, T, bd, syms, R, beg = PRUNE[ctx.choose('case', list(PRUNE))]
    kind = ctx.choose('kind', KINDS)
    h = ctx.choose('hat', [False, True])
    C = 3 if h else 2
    B = len(syms)
    boxes = bd or [[0, 0, S, T]] * B
    if kind != 'regular' and (T < S or any(b[2] > b[3] for b in boxes)):
        raise Discard()
    red = ctx.choose('red', ['none', 'mean'])
    pen = ctx.choose('pen', [0.0, 0.5])
    off = [((b[3] if bd else T) - 1) / 2 for b in boxes]
    x = [[[[ctx.real(f'l{b}{t}{s}{c}', -1, 1) for c in range(C)] for s in range(R)] for t in range(T)] for b in range(B)]
    lg = ten(x, (B, T, R, C)).requires_grad_(True)
    rg = torch.tensor([[[v + i for i in range(R)] for v in r] for r in beg], dtype=torch.int64)
    out = k2.rnnt_loss_pruned(lg, torch.tensor(syms, dtype=torch.int64), rg, 0, boundary=torch.tensor(bd, dtype=torch.int64) if bd else None,
                              rnnt_type=kind, delay_penalty=pen, reduction=red, use_hat_loss=h)
    als = [[e for e in emissions(kind, syms[b], 0, boxes[b]) if all(beg[b][t] <= s < beg[b][t] + R for t, s, _, _ in e)] for b in range(B)]
    row = lambda b, t, s: x[b][t][s - beg[b][t]]
    lp = hat if h else logp
    if h and any(0 in s for s in syms):
        raise Discard()
    ws, tot = loss(ctx, out, red, als, row, pen, off, lp, 'rnnt_loss_pruned')
    if any(ninf(v) for v in tot):
        return
    co = finish(out, red, B)
    g = rd(lg.grad)
    n = counts(als, ws, tot)
    for b in range(B):
        for t in range(T):
            for i in range(R):
                for c in range(C):
                    s = beg[b][t] + i
                    ctx.check(close(g[b][t][i][c], dlogit(n[b], x[b][t][i], t, s, c, lp) * -co[b]), 'rnnt_loss_pruned: gradient')


# ------------------------------------------------------------ pruning
def ranges(ctx):
    """get_rnnt_prune_ranges: 1 or 2 sequences, S <= 3, T <= 4, s_range 1 to 3, any boundaries from 0, regular and modified, occupations 0..3 in
    quarters: the ranges start at 0, never go back, skip nothing, end with the last symbol, stay inside the symbols and leave an alignment; where
    the best windows already obey this, they are chosen."""
    kind = ctx.choose('kind', ['regular', 'modified'])
    S, T, B, R = ctx.choose('shape', ctx.params['shapes'])
    T1 = T + (kind == 'regular')
    if kind == 'regular' and R < 2 or kind != 'regular' and T < S:
        raise Discard()
    box = [[0, 0, S, T]] + [[0, 0, int(ctx.int(f's{b}', 0, S)), int(ctx.int(f't{b}', 1, T))] for b in range(1, B)]
    if kind != 'regular' and any(b[2] > b[3] for b in box):
        raise Discard()
    px = [[[ctx.flt(f'x{b}{s}{t}', 0, 2) for t in range(T1)] for s in range(S)] for b in range(B)]
    py = [[[ctx.flt(f'y{b}{s}{t}', 0, 2) for t in range(T)] for s in range(S + 1)] for b in range(B)]
    r = k2.get_rnnt_prune_ranges(ten(px, (B, S, T1)), ten(py, (B, S + 1, T)), torch.tensor(box, dtype=torch.int64), R)
    R2 = R
    if kind == 'regular':
        R2 = max([R] + [-(-b[2] // b[3]) + 1 for b in box])
    R2 = min(R2, S + 1)
    ctx.check(list(r.shape) == [B, T, R2], 'ranges: shape')
    r = rd(r)
    for b in range(B):
        v = r[b]
        n, m = box[b][3], box[b][2]
        for t in range(T):
            ctx.check(all_(v[t][i] == v[t][0] + i for i in range(R2)), 'ranges: consecutive')
            ctx.check((v[t][0] >= 0) & (v[t][R2 - 1] <= S), 'ranges: inside the symbols')
            if t:
                ctx.check((v[t][0] >= v[t - 1][0]) & (v[t][0] - v[t - 1][0] < (R2 if kind == 'regular' else 2)), 'ranges: no gaps')
        ctx.check(v[0][0] == 0, 'ranges: start')
        ok = (v[n - 1][0] + (R2 - 1) >= m) if kind == 'regular' else (v[n - 1][0] + R2 >= m)
        ctx.check(ok, 'ranges: end')
        beg = [int(v[t][0]) for t in range(T)]
        boxb = [0, 0, m, n]
        als = [e for e in emissions(kind, [1] * S, 0, boxb) if all(beg[t] <= s < beg[t] + R2 for t, s, _, _ in e)]
        ctx.check(len(als) > 0, 'ranges: an alignment survives')
        # the windows with the largest sums
        q = [[ssum([py[b][s + i][t] for i in range(R2)]) - (px[b][s - 1][t] if s else SF(0)) for s in range(S + 2 - R2)] for t in range(n - 1)]
        want = []
        for t in range(n - 1):
            k = 0
            for s in range(1, len(q[t])):
                k = s if bool(q[t][s] > q[t][k]) else k
            want.append(k)
        want.append(max(m - R2 + 1, 0))
        step = R2 - 1 if kind == 'regular' else 1
        if want[0] == 0 and all(0 <= want[t + 1] - want[t] <= step for t in range(n - 1)):
            ctx.check(beg[:n] == want, 'ranges: best windows')


def prune(ctx):
    """do_rnnt_pruning: rows of am are repeated and rows of lm are picked by any ranges, with their gradients."""
    B, T, S, R, C = ctx.choose('shape', [(1, 2, 2, 2, 2), (2, 1, 1, 2, 1), (1, 3, 3, 2, 1), (2, 2, 1, 1, 2)])
    rg = [[(lambda s: [s + i for i in range(R)])(int(ctx.int(f'r{b}{t}', 0, S + 1 - R))) for t in range(T)] for b in range(B)]
    am = [[[ctx.flt(f'a{b}{t}{c}', -2, 2) for c in range(C)] for t in range(T)] for b in range(B)]
    lm = [[[ctx.flt(f'l{b}{s}{c}', -2, 2) for c in range(C)] for s in range(S + 1)] for b in range(B)]
    A_, L = ten(am, (B, T, C)).requires_grad_(True), ten(lm, (B, S + 1, C)).requires_grad_(True)
    x, y = k2.do_rnnt_pruning(A_, L, torch.tensor(rg, dtype=torch.int64))
    ctx.check(list(x.shape) == [B, T, R, C] and list(y.shape) == [B, T, R, C], 'pruning: shape')
    u, v = rd(x), rd(y)
    co = [[[[ctx.flt(f'c{b}{t}{i}{c}', -1, 1) for c in range(C)] for i in range(R)] for t in range(T)] for b in range(B)]
    ct = ten(co, (B, T, R, C))
    for b in range(B):
        for t in range(T):
            for i in range(R):
                for c in range(C):
                    ctx.check((u[b][t][i][c] == am[b][t][c]) & (v[b][t][i][c] == lm[b][rg[b][t][i]][c]), 'pruning: value')
    ((x + y) * ct).sum().backward()
    ga, gl = rd(A_.grad), rd(L.grad)
    for b in range(B):
        for c in range(C):
            for t in range(T):
                ctx.check(ga[b][t][c] == ssum([co[b][t][i][c] for i in range(R)]), 'pruning: gradient of am')
            for s in range(S + 1):
                ctx.check(gl[b][s][c] == ssum([co[b][t][i][c] for t in range(T) for i in range(R) if rg[b][t][i] == s], SF(0)), 'pruning: gradient of lm')


def lattice(ctx):
    """pruned_ranges_to_lattice(): 1 or 2 sequences, 1 to 3 frames, some shorter, ranges of 1 to 3 symbols that move on as they may, 1 to 3 symbols and
    3 tokens, symbolic, float and double: the paths are the alignments inside the ranges, with labels and scores, and the map leads to the logits."""
    B, T, R, S = ctx.choose('sizes', ctx.params['sizes'])
    dt = ctx.choose('dtype', [torch.float32, torch.float64])
    C = 3
    fr = [T if b == 0 else int(ctx.int(f'f{b}', 1, T)) for b in range(B)]
    low = []
    for b in range(B):
        r = [SI(0)]
        for t in range(1, T):
            r.append(r[-1] + ctx.int(f'd{b}{t}', 0, R - 1))
        ctx.assume(r[-1] == S - R + 1 if b == 0 else r[-1] <= S - R + 1)
        low.append(r)
    sy = [[ctx.int(f's{b}{i}', 1, C - 1) for i in range(S)] for b in range(B)]
    lg = [[[[ctx.flt(f'l{b}{t}{i}{c}', -4, 4) for c in range(C)] for i in range(R)] for t in range(T)] for b in range(B)]
    arcs, amap = k2.pruned_ranges_to_lattice(ten([[[x + i for i in range(R)] for x in r] for r in low], (B, T, R), torch.int32), torch.tensor(fr, dtype=torch.int32),
                                             ten(sy, (B, S), torch.int64), ten(lg, (B, T, R, C), dt))
    f = k2.Fsa(arcs)
    flat = [v for x in lg for y in x for z in y for v in z]
    m = [int(v) for v in rd(amap)]
    ctx.check(len(m) == f.num_arcs and f.shape[0] == B, 'lattice: sizes')
    k = 0
    for b, a in enumerate(out_vec(f)):
        for x in a.arcs:
            ctx.check(-1 <= m[k] < len(flat) and x['score'] == (SF(0) if m[k] < 0 else flat[m[k]]), 'lattice: map')
            k += 1
        lo, n = [int(x) for x in low[b]], fr[b]

        def rest(t, s):
            if t == n - 1 and s == lo[t] + R - 1:
                return [([SI(-1)], SF(0))]
            r = []
            if s < lo[t] + R - 1:
                r += [([sy[b][s]] + ls, sc + pick_(lg[b][t][s - lo[t]], sy[b][s])) for ls, sc in rest(t, s + 1)]
            if t < n - 1 and s >= lo[t + 1]:
                r += [([SI(0)] + ls, sc + lg[b][t][s - lo[t]][0]) for ls, sc in rest(t + 1, s)]
            return r

        def paths(s):
            if s == a.n - 1:
                return [([], SF(0))]
            return [([x['label']] + ls, x['score'] + sc) for x in a.arcs if int(x['src']) == s for ls, sc in paths(int(x['dst']))]
        key = lambda p: [0 if int(l) == 0 else 1 for l in p[0]]
        want, got = sorted(rest(0, 0), key=key), sorted(paths(0), key=key)
        ctx.check(len(want) == len(got), 'lattice: number of paths')
        for (l, s), (u, v) in zip(want, got):
            ctx.check(eq(l, u) & (s == v), 'lattice: labels and score of a path')


def pick_(xs, i):
    r = xs[-1]
    for k, x in enumerate(xs[:-1]):
        r = ite(i == k, x, r)
    return r


HARNESSES = [Harness(joint, params=dict(more=False), domain='exp'), Harness(joint, 'joint_more', params=dict(more=True, thorough_only=True), domain='exp'), Harness(recursion, params=dict(boxes=list(BOXES), kinds=['regular', 'modified']), domain='exp'),
             Harness(full, params=dict(cases=list(LOSS)), domain='exp'), Harness(simple, params=dict(cases=list('abdefg')), domain='exp'),
             Harness(simple, 'simple_more', params=dict(cases=list('chi'), thorough_only=True), domain='exp'),
             Harness(smoothed, params=dict(cases=list('aefgbd')), domain='exp'), Harness(pruned, domain='exp'), Harness(prune),
             Harness(lattice, params=dict(sizes=[(1, 1, 2, 1), (1, 2, 2, 1), (1, 3, 2, 2), (1, 3, 1, 0), (2, 2, 2, 2), (1, 3, 3, 3), (2, 3, 2, 2), (1, 2, 3, 4)])),
             Harness(ranges, params=dict(shapes=[(1, 2, 1, 2), (2, 2, 1, 2), (2, 3, 1, 2), (3, 2, 1, 2), (2, 3, 1, 1), (2, 2, 2, 2), (3, 3, 1, 2), (1, 2, 2, 3), (3, 1, 1, 2), (3, 4, 1, 2), (3, 3, 1, 3), (3, 4, 1, 1), (2, 3, 2, 2), (4, 3, 1, 3)]))]
QUICK_S = 70
THOROUGH_S = 600
