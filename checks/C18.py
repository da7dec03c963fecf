"""CTC losses and decoding of lattices."""
import itertools
from hlp import *
from explore import Harness, Discard
from C10 import ninf, add, ratio


def collapse(p):
    return [v for i, v in enumerate(p) if v and (not i or p[i - 1] != v)]


def spell(p, modified):
    """The symbols an alignment stands for, in all ways: lists of the frames at which a symbol starts."""
    if not modified:
        return [[i for i, v in enumerate(p) if v and (not i or p[i - 1] != v)]]
    # runs may be split anywhere
    r = [[]]
    for i, v in enumerate(p):
        if not v:
            continue
        if i and p[i - 1] == v:
            r = r + [x + [i] for x in r]
        else:
            r = [x + [i] for x in r]
    return r


def alignments(sym, T, C, modified):
    """(labels, frames at which the symbols start)"""
    res = []
    for p in itertools.product(range(C), repeat=T):
        for st in spell(p, modified):
            if [p[i] for i in st] == sym:
                res.append((p, st))
    return res


# frames of the rows, per sequence: (frames, symbols)
CASES = {
    'a': [(2, [1])], 'b': [(3, [1, 1])], 'c': [(2, [1, 1])], 'd': [(2, []), (1, [1])], 'e': [(2, [1, 2]), (2, [2])], 'f': [(3, [1])], 'g': [(3, [2, 1])], 'h': [(1, [1]), (2, [1]), (1, [2])],
    'i': [(4, [1, 1])], 'j': [(3, [2, 2])], 'k': [(3, [1]), (3, []), (2, [1])],
}


def ctc(ctx):
    """ctc_loss() of ctc_graph() (also modified) for 1 to 3 sequences of up to 4 frames and up to 2 symbols out of 2, repeated ones included,
    in 11 layouts, delay penalties 0 and 0.5, the 3 reductions, float and double, real scores within 1 of 0 or within 0.125 of numbers that order
    the alignments: minus the log of the sum over all
    alignments, infinite where there are none, and the derivative for every score."""
    case = CASES[ctx.choose('case', ctx.params['cases'])]
    mod = ctx.choose('modified', [False, True])
    C = max([2] + [v + 1 for _, s in case for v in s])
    B, T = len(case), max(n for n, _ in case)
    red = ctx.choose('red', ['none', 'sum', 'mean'] if B > 1 else ['none', 'mean'])
    pen = ctx.choose('pen', [0.0, 0.5])
    dbl = ctx.choose('double', [True, False]) if not pen else True
    if ctx.params['free']:
        lo = [[0] * C for t in range(T)]
        w = 1
    else:
        # apart enough to tell which of two alignments is better
        sg, w = ctx.choose('sign', [1, -1]), 0.125
        lo = [[sg * c * C ** t for c in range(C)] for t in range(T)]
    x = [[[ctx.real(f'x{b}{t}{c}', lo[t][c] - w, lo[t][c] + w) for c in range(C)] for t in range(T)] for b in range(B)]
    lp = wr([v for r in x for s in r for v in s], torch.float32, (B * T * C,)).reshape(B, T, C).requires_grad_(True)
    # the segments sorted by length, as DenseFsaVec asks for
    order = sorted(range(B), key=lambda i: -case[i][0])
    d = k2.DenseFsaVec(lp, torch.tensor([[i, 0, case[i][0]] for i in order], dtype=torch.int32))
    g = k2.ctc_graph([case[i][1] for i in order], modified=mod)
    tl = torch.tensor([max(1, len(case[i][1])) for i in order])
    if red == 'sum':
        loss = k2.CtcLoss(100, reduction=red, use_double_scores=dbl)(g, d, delay_penalty=pen, target_lengths=tl)
    else:
        loss = k2.ctc_loss(g, d, output_beam=100, delay_penalty=pen, reduction=red, use_double_scores=dbl, target_lengths=tl)
    ws = []
    for i in order:
        n, s = case[i]
        w = []
        for p, st in alignments(s, n, C, mod):
            w.append((p, ssum([x[i][t][v] for t, v in enumerate(p)] + ([SF(pen * (n // 2 - t)) for t in st] if pen else []))))
        ws.append(w)
    tot = [lse([v for _, v in w]) for w in ws]
    lens = [int(v) for v in tl]
    if red == 'none':
        r = rd(loss)
        ctx.check(len(r) == B, 'ctc_loss: length')
        for u, v in zip(r, tot):
            ctx.check(close(-u, v), 'ctc_loss: value')
        co = [[2.0, -0.5, 1.0][i] for i in range(B)]
    else:
        e = SF(0)
        co = [1.0 / (B * lens[i]) if red == 'mean' else 1.0 for i in range(B)]
        if any(ninf(v) for v in tot):
            ctx.check(close(rd(loss), SF(-NEG)), 'ctc_loss: no alignment')
        else:
            m = 2 * B if red == 'mean' else 1
            ctx.check(close(ssum([rd(loss)] * m), -ssum([tot[i] for i in range(B) for _ in range(m // (B * lens[i]) if red == 'mean' else 1)])), 'ctc_loss: value')
    if any(ninf(v) for v in tot):
        return
    ((loss * torch.tensor(co)).sum() if red == 'none' else loss).backward()
    gr = rd(lp.grad)
    for j, i in enumerate(order):
        for t in range(T):
            for c in range(C):
                q = lse([v for p, v in ws[j] if t < len(p) and p[t] == c])
                ctx.check(close(gr[i][t][c], SF(0) if ninf(q) else ratio(q, tot[j]) * -co[j]), 'ctc_loss: gradient')


def decode(ctx):
    """get_lattice() with the topology of up to 2 symbols, for 1 or 2 recordings of up to 3 frames, then one_best_decoding() and
    get_aux_labels(): integer scores -1..1, wide and narrow beams, lengths beyond the frames as subsampling
    allows: a best label sequence, its score and the symbols it collapses to."""
    C, mod, lens = ctx.choose('case', ctx.params['cases'])
    B, T = len(lens), max(lens)
    x = [[[ctx.flt(f'x{b}{t}{c}', -1, 1) for c in range(C)] for t in range(T)] for b in range(B)]
    lp = wr([v for r in x for s in r for v in s], torch.float32, (B * T * C,)).reshape(B, T, C)
    sb, ob = ctx.choose('beams', [(20, 8), (20, 1.5)])
    sub = ctx.choose('subsampling', [1, 3])
    given = [n + (2 - i % 2 if n == T and sub == 3 else 0) for i, n in enumerate(lens)]
    lat = k2.get_lattice(lp, torch.tensor(given, dtype=torch.int32), k2.ctc_topo(C - 1, modified=mod), sb, ob, *([0, 9] if sub == 3 else []), **(dict(subsampling_factor=3) if sub == 3 else {}))
    best = k2.one_best_decoding(lat, ctx.choose('double', [True, False]))
    out = out_vec(best)
    aux = k2.get_aux_labels(best)
    sc = rd(best.get_tot_scores(False, False))
    ctx.check(len(out) == B and len(aux) == B, 'decode: number of paths')
    for i in range(B):
        n = lens[i]
        l = [int(v['label']) for v in out[i].arcs]
        ctx.check(len(l) == n + 1 and l[-1] == -1 and all(0 <= v < C for v in l[:-1]), 'decode: labels')
        want = ssum([smax(x[i][t]) for t in range(n)])
        ctx.check(sc[i] == want, 'decode: total score')
        ctx.check(ssum([x[i][t][l[t]] for t in range(n)]) == want, 'decode: a best sequence')
        au = [int(v) for v in aux[i]]
        if mod:
            ctx.check(au in [[l[k] for k in st] for st in spell(l[:-1], True)], 'decode: symbols')
        else:
            ctx.check(au == collapse(l[:-1]), 'decode: symbols')


def words(ctx):
    """get_aux_labels() of 1 to 3 best paths of up to 3 arcs, recordings without a path among them: plain or ragged symbols (up to 2 for an
    arc), each -1..2: the symbols above 0, in order; the paths keep theirs."""
    S = ctx.choose('arcs', [[2], [0], [3, 1], [1, 0, 2], [2, 2]])
    As = [A(n + 1, [{'src': SI(k), 'dst': SI(k + 1), 'label': SI(-1 if k == n - 1 else 1), 'score': SF(0)} for k in range(n)]) if n else A(0, []) for n in S]
    f = build_vec(As)
    m = sum(S)
    if ctx.choose('ragged', [False, True]):
        pat = ctx.choose('sizes', [[1, 1, 1, 1], [0, 2, 1, 0], [2, 0, 0, 1]])[:m]
        v = [[ctx.int(f'w{i}{j}', -1, 2) for j in range(k)] for i, k in enumerate(pat)]
        f.aux_labels = mk(v, 2)
    else:
        v = [[ctx.int(f'w{i}', -1, 2)] for i in range(m)]
        f.aux_labels = wr([x for r in v for x in r], torch.int32, (m,))
    got = k2.get_aux_labels(f)
    off, want = 0, []
    for n in S:
        want.append([x for r in v[off:off + n] for x in r if x > 0])
        off += n
    ctx.check([len(r) for r in got] == [len(r) for r in want], 'get_aux_labels: number of words')
    for x, y in zip([x for r in got for x in r], [x for r in want for x in r]):
        ctx.check(x == y, 'get_aux_labels: words')
    now = rd(f.aux_labels.values if isinstance(f.aux_labels, k2.RaggedTensor) else f.aux_labels)
    ctx.check(len(now) == sum(len(r) for r in v), 'get_aux_labels: the paths are left as they were')
    for x, y in zip(now, [x for r in v for x in r]):
        ctx.check(x == y, 'get_aux_labels: the paths are left as they were')


HARNESSES = [Harness(words), Harness(ctc, params=dict(cases=list(CASES), free=False), domain='exp'), Harness(ctc, 'ctc_free', params=dict(cases=list('acd'), free=True), domain='exp'),
             Harness(ctc, 'ctc_free3', params=dict(cases=list('bef'), free=True, thorough_only=True), domain='exp'),
             Harness(decode, 'decode3', params=dict(cases=[(3, False, [2]), (2, False, [3]), (2, True, [3]), (2, False, [3, 1])], thorough_only=True)),
             Harness(decode, params=dict(cases=[(2, False, [2]), (2, True, [2]), (3, False, [1]), (2, True, [1, 2]), (2, False, [1, 2])]))]
QUICK_S = 60
THOROUGH_S = 600
