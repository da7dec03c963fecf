"""RNN-T decoding."""
from hlp import *
from explore import Harness, Discard
from C09 import add
from C12 import NEG, isneg

# (states, arcs (src, dst, label or None)): None is a symbolic label 0..2, the others are fixed
G = {
    'one': (2, [(0, 0, 1), (0, 1, -1)]),
    'loop': (2, [(0, 0, None), (0, 0, 2), (0, 1, -1)]),
    'triv': (2, [(0, 0, 1), (0, 0, 2), (0, 1, -1)]),
    'chain': (3, [(0, 1, None), (1, 1, 1), (1, 2, -1)]),
    'eps': (3, [(0, 1, 0), (0, 0, 1), (1, 1, 2), (1, 2, -1)]),
    'split': (4, [(0, 1, 1), (0, 2, None), (1, 2, 2), (2, 3, -1)]),
    'start': (3, [(0, 2, -1), (0, 1, None), (1, 2, -1)]),
    'none': (3, [(0, 0, None), (1, 2, -1)]),
    'final2': (2, [(0, 0, 1), (0, 1, -1), (0, 1, -1)]),
}
V = 3


def graph(ctx, p, g, lo=-1, hi=1):
    n, t = G[g]
    return A(n, [{'src': SI(s), 'dst': SI(d), 'label': SI(ctx.choose(f'{p}l{i}', [1, 2, 0]) if l is None else l), 'score': ctx.flt(f'{p}s{i}', lo, hi)}
                 for i, (s, d, l) in enumerate(t)])


class Joiner:
    """Log-probs for each sequence, frame and context."""
    def __init__(self, ctx, lo=-2, hi=0):
        self.ctx, self.lo, self.hi, self.x = ctx, lo, hi, {}

    def row(self, q, t, c):
        if (q, t, c) not in self.x:
            self.x[q, t, c] = [self.ctx.flt(f'p{q}_{t}_{c}_{v}', self.lo, self.hi) for v in range(V)]
        return self.x[q, t, c]


def moves(a, key, hist):
    """(next key, graph arc or -1, label) of a state."""
    c, s = key
    if s == a.n - 1:
        return []
    r = [((c, s), -1, 0)]
    for k, y in enumerate(a.arcs):
        if int(y['src']) == s:
            l = int(y['label'])
            d = c if l in (0, -1) else c % V ** (hist - 1) * V + l
            r.append(((d, int(y['dst'])), k, l))
    return r


def weight(a, row, k, l):
    w = row[0 if l == -1 else l]
    return w if k < 0 else a.arcs[k]['score'] + w


def trellis(a, J, q, n, hist):
    """Per frame: the scores of the states, and the arcs (from, graph arc) -> (to, weight)."""
    al, arcs = [{(0, 0): SF(0)}], []
    for t in range(n):
        nxt, e = {}, {}
        for key, v in al[t].items():
            for d, k, l in moves(a, key, hist):
                w = weight(a, J.row(q, t, key[0]), k, l)
                e[key, k] = (d, w)
                nxt.setdefault(d, []).append(v + w)
        al.append({d: smax(v) for d, v in nxt.items()})
        arcs.append(e)
    return al, arcs


def lattice(ctx, a, J, q, n, hist, b, beam, ms, mc, partial, ctxs, msg):
    """b is the lattice of the sequence q after n frames."""
    wide = beam > 50 and ms > 50 and mc > 50
    if not b.n:
        ctx.fail(f'{msg}: no states')
        return None
    key, got, fin, order = {0: (0, (0, 0))}, [{} for _ in range(n)], {}, []
    for y in b.arcs:
        s, d, k = int(y['src']), int(y['dst']), int(y['tag']) - 1
        ctx.check(s in key and 0 <= d < b.n, f'{msg}: states are reached in order')
        if s not in key:
            return None
        t, (c, g) = key[s]
        y['frame'] = t
        if t == n - 1:
            ctx.check((y['label'] == -1) & (y['score'] == 0) & SB(k == -1) & SB(d == b.n - 1), f'{msg}: last frame')
            fin[c, g] = fin.get((c, g), 0) + 1
            continue
        mv = [(e, l) for e, kk, l in moves(a, (c, g), hist) if kk == k]
        ctx.check(len(mv) == 1 and (s, k) not in got[t], f'{msg}: arc of the graph')
        if len(mv) != 1 or (s, k) in got[t]:
            return None
        e, l = mv[0]
        ctx.check((y['label'] == max(l, 0)) & (y['score'] == weight(a, J.row(q, t, c), k, l)), f'{msg}: label and score')
        ctx.check(key.setdefault(d, (t + 1, e)) == (t + 1, e), f'{msg}: state')
        y['row'] = (q, t, c)
        got[t][s, k] = y
    last = b.n - 1
    ctx.check(last not in key or b.n == 1, f'{msg}: final state')
    ctx.check(sorted(key) == list(range(len(key))) and b.n == len(key) + (b.n > 1) and len(set(key.values())) == len(key), f'{msg}: one state for each frame, context and state of the graph')
    for t in range(n):
        # states are grouped by context, as reported by get_contexts()
        mine = [key[s][1] for s in sorted(key) if key[s][0] == t]
        ctx.check(mine == sorted(mine), f'{msg}: order')
        ctx.check(sorted(set(c for c, _ in mine)) == ctxs[t], f'{msg}: contexts')
        ctx.check((len(mine) <= ms or t == 0) and (len(ctxs[t]) <= mc or t == 0), f'{msg}: limits')
    al, arcs = trellis(a, J, q, n, hist)
    inv = {v: s for s, v in key.items()}
    anyfinal = any(k >= 0 and int(a.arcs[k]['label']) == -1 for _, k in arcs[n - 1])
    want = {}
    for (kk, k) in arcs[n - 1]:
        if (k >= 0 and int(a.arcs[k]['label']) == -1) or (partial and not anyfinal):
            want[kk] = want.get(kk, 0) + 1
    if wide:
        for t in range(n - 1):
            ctx.check(len(got[t]) == len(arcs[t]) and all((inv.get((t, kk), -1), k) in got[t] for kk, k in arcs[t]), f'{msg}: all arcs')
        ctx.check(fin == want, f'{msg}: final arcs')
        return key
    if not (partial and anyfinal):
        for kk, m in fin.items():
            ctx.check(m <= want.get(kk, 0), f'{msg}: final arcs of the graph')
    # frame by frame: the arcs that leave the states kept
    here = {0: SF(0)}
    for t in range(n):
        cand, e = {}, {}
        prev = smax(list(here.values()))
        for s, v in here.items():
            for x, k, l in moves(a, key[s][1], hist):
                w = v + weight(a, J.row(q, t, key[s][1][0]), k, l)
                # arcs with a label have to be within the beam of the states before, too
                if beam < 50 and k >= 0 and l:
                    w = ite((v + a.arcs[k]['score'] if l == -1 else w) >= prev - beam, w, SF(-1e6))
                cand.setdefault(x, []).append(w)
                e[s, k] = (x, w, l)
        if not cand:
            break
        best = smax([w for v in cand.values() for w in v])
        cand = {x: smax(v) for x, v in cand.items()}
        ctxb = {}
        for x, v in cand.items():
            ctxb.setdefault(x[0], []).append(v)
        ctxb = {c: smax(v) for c, v in ctxb.items()}

        def must(x, w):
            cs = [w > -1e5, cand[x] > best - beam] if beam < 50 else []
            if ms < 50:
                cs.append(isum([ite(u >= cand[x], SI(1), SI(0)) for z, u in cand.items() if z != x]) < ms)
            if mc < 50:
                cs.append(isum([ite(u >= ctxb[x[0]], SI(1), SI(0)) for z, u in ctxb.items() if z != x[0]]) < mc)
                # the states counted before contexts are may take its best state
                if ms < 50:
                    cs.append(cand[x] == ctxb[x[0]])
            return all_(cs)
        if t < n - 1:
            nxt = {}
            for (s, k), (x, w, l) in e.items():
                there = (s, k) in got[t]
                if not there:
                    ctx.check(~must(x, w), f'{msg}: arcs within the limits')
                else:
                    ctx.check((w > -1e5) & (cand[x] >= best - beam), f'{msg}: arcs within the beam')
                    nxt.setdefault(int(got[t][s, k]['dst']), []).append(w)
            here = {s: smax(v) for s, v in nxt.items()}
        else:
            for (s, k), (x, w, l) in e.items():
                if (l == -1 or (partial and not anyfinal)) and not fin.get(key[s][1]):
                    ctx.check(~must(x, w), f'{msg}: final arcs within the limits')
    return key


def isum(xs):
    r = SI(0)
    for x in xs:
        r = r + x
    return r


def steps(ctx, J, S, seq, hist, nf, seen, rec=None):
    """Advances by some frames; checks the contexts."""
    for _ in range(nf):
        shape, cx = S.get_contexts()
        sp = [int(v) for v in rd(shape.row_splits(1))]
        rows = [[int(v) for v in r] for r in rd(cx)]
        ctx.check(shape.num_axes == 2 and len(sp) == len(seq) + 1 and sp[-1] == len(rows), 'contexts: shape')
        ctx.check(all(len(r) == hist and all(0 <= v < V for v in r) for r in rows), 'contexts: symbols')
        cs = []
        for r in rows:
            c = 0
            for v in r:
                c = c * V + v
            cs.append(c)
        lp = []
        for i, q in enumerate(seq):
            mine = cs[sp[i]:sp[i + 1]]
            ctx.check(len(set(mine)) == len(mine), 'contexts: distinct')
            t = len(seen[q])
            seen[q].append(sorted(mine))
            lp += [J.row(q, t, c) for c in mine]
        x = wr([v for r in lp for v in r], torch.float32, (len(lp), V))
        if rec is not None:
            rec.append((x, shape, sp, [(q, len(seen[q]) - 1, c) for i, q in enumerate(seq) for c in cs[sp[i]:sp[i + 1]]]))
        S.advance(x)


def attrs(f, i, n):
    f.tag = torch.arange(1, n + 1, dtype=torch.int32)
    if i == 0:
        f.ia_filler = 7
        f.ia = torch.arange(10, 10 + n, dtype=torch.int32)
        f.zr = k2.RaggedTensor([[k + 1] * (k % 3) for k in range(n)], dtype=torch.int32) if n else k2.RaggedTensor(torch.zeros((0, 0), dtype=torch.int32))
    else:
        f.fb_filler = -2.5
        f.fb = torch.arange(n, dtype=torch.float32) * 0.5


def check_attr(ctx, o, outs, n0, n1, msg):
    """Attributes of the streams; fillers elsewhere."""
    ia, zr, fb = getattr(o, 'ia', None), getattr(o, 'zr', None), getattr(o, 'fb', None)
    ctx.check(ia is not None and zr is not None and (fb is not None) == (len(outs) > 1), f'{msg}: attributes')
    ia, zr = rd(ia), out_ragged(zr)
    fb = rd(fb) if fb is not None else None
    m = sum(len(b.arcs) for b in outs)
    ctx.check(len(ia) == m and len(zr) == m, f'{msg}: length of the attributes')
    j = 0
    for i, b in enumerate(outs):
        for y in b.arcs:
            k = int(y['tag']) - 1
            ctx.check(ia[j] == (10 + k if i == 0 and k >= 0 else 7), f'{msg}: integer attribute')
            ctx.check([int(v) for v in zr[j]] == ([k + 1] * (k % 3) if i == 0 and k >= 0 else []), f'{msg}: ragged attribute')
            if fb is not None:
                ctx.check(fb[j] == (k * 0.5 if i == 1 and k >= 0 else -2.5), f'{msg}: float attribute')
            j += 1


def decode(ctx):
    """Up to 2 streams with 9 graphs up to 4 states, 2 symbols, up to 3 frames, histories of 1 and 2 symbols, integer log-probs -2..0 for every
    frame and context, graph scores -1..1, fixed and symbolic labels; wide and narrow beams (1.5), limits on states and contexts."""
    case = ctx.choose('case', ctx.params['cases'])
    gs, hist, plan, want = case
    beam, ms, mc = ctx.choose('limits', ctx.params['limits'])
    partial = ctx.choose('partial', [False, True])
    J = Joiner(ctx)
    As = [graph(ctx, f'a{i}', g) for i, g in enumerate(gs)]
    fs = [build(a) for a in As]
    for i, f in enumerate(fs):
        attrs(f, i, len(As[i].arcs))
    ss = [k2.RnntDecodingStream(f) for f in fs]
    cfg = k2.RnntDecodingConfig(V, hist, beam, ms, mc)
    seen = {q: [] for q in range(len(gs))}
    S, seq, rec = None, None, []
    for seq, nf in plan:
        S = k2.RnntDecodingStreams([ss[q] for q in seq], cfg)
        steps(ctx, J, S, seq, hist, nf, seen, rec)
        S.terminate_and_flush_to_streams()
    grad = ctx.params.get('grad')
    if grad:
        lp = torch.cat([r[0] for r in rec]).requires_grad_(True)
        t2s, s2c, n = [0], [0], 0
        for x, shape, sp, _ in rec:
            t2s.append(t2s[-1] + len(sp) - 1)
            s2c += [v + n for v in sp[1:]]
            n = s2c[-1]
        t2s = k2.ragged.create_ragged_shape2(row_splits=torch.tensor(t2s, dtype=torch.int32))
        s2c = k2.ragged.create_ragged_shape2(row_splits=torch.tensor(s2c, dtype=torch.int32))
        shape3 = t2s.compose(s2c)
    for nfs in want:
        if grad:
            o = S.format_output(nfs, partial, lp, shape3)
        else:
            o = S.format_output(nfs, partial)
        outs = out_vec(o)
        ctx.check(len(outs) == len(seq), 'decode: number of lattices')
        for i, q in enumerate(seq):
            lattice(ctx, As[q], J, q, nfs[i], hist, outs[i], beam, ms, mc, partial, seen[q], f'decode {q}')
        if list(seq) == list(range(len(seq))):
            check_attr(ctx, o, outs, 0, 0, 'decode')
    if grad:
        flat = [y for b in outs for y in b.arcs]
        co = [ctx.flt(f'g{i}', -2, 2) for i in range(len(flat))]
        (o.scores * wr(co, torch.float32, (len(flat),))).sum().backward()
        ref = {}
        for v, y in zip(co, flat):
            if 'row' in y:
                ref[y['row'], int(y['label'])] = ref.get((y['row'], int(y['label'])), SF(0)) + v
        names = [z for r in rec for z in r[3]]
        gr = rd(lp.grad)
        for nm, row in zip(names, gr):
            for v in range(V):
                ctx.check(row[v] == ref.get((nm, v), SF(0)), 'decode: gradient of the log-probs')


W = (100.0, 100, 100)
CASES = [(['triv'], 1, [((0,), 3)], [[3]]), (['triv'], 2, [((0,), 3)], [[3]]), (['chain'], 2, [((0,), 3)], [[3], [2]]), (['eps'], 2, [((0,), 3)], [[3]]),
         (['split'], 2, [((0,), 2), ((0,), 1)], [[3], [1]]), (['start', 'one'], 1, [((0, 1), 2)], [[2, 1], [1, 2]]),
         (['none', 'chain'], 2, [((0, 1), 1), ((1,), 1), ((0,), 1), ((0, 1), 1)], [[3, 3]]), (['final2'], 1, [((0,), 2)], [[2]]),
         (['loop', 'one'], 1, [((1, 0), 1), ((0, 1), 1)], [[2, 2]]), (['eps', 'start'], 1, [((0,), 1), ((0, 1), 1), ((1,), 1)], [[2]]),
         (['none', 'eps'], 1, [((0, 1), 2)], [[2, 2]])]
NARROW = [(['triv'], 1, [((0,), 2)], [[2]]), (['triv'], 2, [((0,), 3)], [[3]]), (['chain'], 2, [((0,), 3)], [[3]]), (['eps'], 1, [((0,), 3)], [[3]]),
          (['one', 'start'], 1, [((0, 1), 2)], [[2, 2]]), (['split'], 1, [((0,), 3)], [[3]]), (['one', 'loop'], 2, [((0, 1), 2), ((0, 1), 1)], [[3, 2]])]
SMALL = [(['triv'], 1, [((0,), 2)], [[2]]), (['chain'], 2, [((0,), 2)], [[2]]), (['eps'], 1, [((0,), 2)], [[2]]), (['split'], 1, [((0,), 2)], [[2]]),
         (['one', 'start'], 1, [((0, 1), 1), ((1,), 1)], [[2]]), (['start', 'one'], 2, [((0, 1), 2)], [[2, 2]])]
HARNESSES = [Harness(decode, params=dict(cases=CASES, limits=[W])),
             Harness(decode, 'beam', params=dict(cases=SMALL, limits=[(1.5, 100, 100)])),
             Harness(decode, 'beam3', params=dict(cases=NARROW, limits=[(1.5, 100, 100)], thorough_only=True)),
             Harness(decode, 'limits', params=dict(cases=SMALL, limits=[(100.0, 2, 100), (100.0, 100, 1), (1.5, 2, 2)])),
             Harness(decode, 'limits3', params=dict(thorough_only=True, cases=NARROW, limits=[(100.0, 2, 100), (100.0, 100, 1), (1.5, 2, 2), (100.0, 1, 1)])),
             Harness(decode, 'grad', params=dict(cases=[c for c in CASES if len(c[2]) == 1 and len(c[3]) == 1] + [(['start', 'one'], 1, [((0, 1), 2)], [[1, 2]])], limits=[W, (1.5, 2, 100)], grad=True))]
QUICK_S = 60
THOROUGH_S = 600
