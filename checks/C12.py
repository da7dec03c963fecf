"""Dense FSAs and their intersection with decoding graphs."""
from hlp import *
from explore import Harness, Discard
from C09 import add

# decoding graphs: (states, [(src, dst, label)]); label -1 to the final state
G = {
    'chain': (4, [(0, 1, 0), (1, 1, 0), (1, 2, 1), (2, 3, -1)]),
    'loop': (2, [(0, 0, 0), (0, 0, 1), (0, 1, -1)]),
    'split': (4, [(0, 1, 0), (0, 2, 0), (1, 1, 1), (1, 3, -1), (2, 1, 0), (2, 3, -1)]),
    'dead': (4, [(0, 0, 1), (0, 1, 0), (0, 3, -1), (1, 1, 0), (2, 3, -1)]),
    'dup': (3, [(0, 1, 1), (0, 1, 1), (1, 0, 0), (1, 2, -1)]),
    'one': (3, [(0, 1, 1), (1, 2, -1)]),
    'final2': (2, [(0, 0, 0), (0, 1, -1), (0, 1, -1)]),
    'none': (2, [(0, 0, 0)]),
    'start': (3, [(0, 1, 0), (1, 0, 1), (1, 1, 0), (1, 2, -1)]),
    'big': (5, [(0, 1, 0), (0, 2, 1), (1, 2, 0), (1, 3, 1), (2, 1, 1), (2, 2, 0), (2, 4, -1), (3, 3, 0), (3, 4, -1)]),
}
E = (0, [])


def graph(ctx, p, g, lo=-1, hi=1):
    n, t = g if isinstance(g, tuple) else G[g]
    return A(n, [{'src': SI(s), 'dst': SI(d), 'label': SI(l), 'score': ctx.flt(f'{p}w{i}', lo, hi)} for i, (s, d, l) in enumerate(t)])


def logits(ctx, N, T, C, lo=-1, hi=1, p='b'):
    return [[[ctx.flt(f'{p}{n}{t}{c}', lo, hi) for c in range(C)] for t in range(T)] for n in range(N)]


def tens(x, N, T, C):
    return wr([v for a in x for b in a for v in b], torch.float32, (N * T * C,)).reshape(N, T, C)


NI = SF(NEG)


def rows(x, seg, T):
    """The score rows of a segment: column 0 is for the final symbol."""
    n, s, d = seg
    e = min(s + d, T)
    return [[NI] + list(x[n][t]) for t in range(s, e)] + [[SF(0)] + [NI] * len(x[0][0] if x[0] else [0])]


def trellis(a, r):
    """Arcs (t, k) with their scores; forward and backward scores of the states (t, s)."""
    T = len(r) - 1
    arcs = {}
    for t in range(T + 1):
        for k, x in enumerate(a.arcs):
            l = int(x['label'])
            if (l == -1) == (t == T):
                arcs[t, k] = x['score'] + r[t][l + 1]
    return arcs


def bmax(xs):
    """As smax, by cases."""
    r = NI
    for x in xs:
        if not isneg(x) and (isneg(r) or bool(x > r)):
            r = x
    return r


def forward(a, arcs, T, mx=smax):
    al = [[NI] * a.n for _ in range(T + 2)]
    if a.n:
        al[0][0] = SF(0)
    for t in range(T + 1):
        for s in range(a.n):
            al[t + 1][s] = mx([NI] + [add(al[t][int(a.arcs[k]['src'])], w) for (u, k), w in arcs.items() if u == t and int(a.arcs[k]['dst']) == s])
    return al


def backward(a, arcs, T, mx=smax):
    be = [[NI] * a.n for _ in range(T + 2)]
    if a.n:
        be[T + 1][a.n - 1] = SF(0)
    for t in reversed(range(T + 1)):
        for s in range(a.n):
            be[t][s] = mx([NI] + [add(be[t + 1][int(a.arcs[k]['dst'])], w) for (u, k), w in arcs.items() if u == t and int(a.arcs[k]['src']) == s])
    return be


def isneg(x):
    return not x.i and x.v == NEG


def through(a, arcs, T, mx=smax):
    """For each arc, the best score of a path through it; and the total."""
    al, be = forward(a, arcs, T, mx), backward(a, arcs, T, mx)
    th = {(t, k): add(al[t][int(a.arcs[k]['src'])], w, be[t + 1][int(a.arcs[k]['dst'])]) for (t, k), w in arcs.items()}
    return th, (be[0][0] if a.n else NI)


def read(ctx, g, base, a, b, arcs, row0, msg):
    """The arcs (t, k) of one FSA of the result b; checks that it is a part of the trellis."""
    got, states = {}, {}
    for x in b.arcs:
        t, k, q = int(x['frame']), int(x['tag']) - 1 - base, int(x['seqframe'])
        ctx.check((t, k) in arcs, f'{msg}: arc of the graph')
        if (t, k) not in arcs:
            continue
        ctx.check((t, k) not in got, f'{msg}: arc twice')
        ctx.check(q == row0 + t, f'{msg}: sequence and frame index')
        y = a.arcs[k]
        for s, st in ((int(x['src']), (t, int(y['src']))), (int(x['dst']), (t + 1, int(y['dst'])))):
            ctx.check(states.setdefault(s, st) == st, f'{msg}: state')
            ctx.check(0 <= s < b.n, f'{msg}: state index')
        ctx.check(x['label'] == y['label'], f'{msg}: label')
        ctx.check(x['score'] == arcs[t, k], f'{msg}: score')
        got[t, k] = x
    ctx.check(len(set(states.values())) == len(states), f'{msg}: one state for each frame and state')
    ctx.check(len(states) == b.n or not b.arcs and b.n in (0, 2), f'{msg}: number of states')
    if b.arcs:
        ctx.check(states[0] == (0, 0) if 0 in states else False, f'{msg}: start state')
        ctx.check(max(states) == b.n - 1 and all(int(x['dst']) < b.n - 1 or int(x['label']) == -1 for x in b.arcs), f'{msg}: final state')
    return got


def setup(ctx, segs, gs, N, T, C, lo=-1, hi=1):
    As = [graph(ctx, f'a{i}', g, lo, hi) for i, g in enumerate(gs)]
    x = logits(ctx, N, T, C, lo, hi)
    f = build_vec(As)
    n = sum(len(a.arcs) for a in As)
    sa = f.scores.detach().clone().requires_grad_(True)
    f.scores = sa
    add_attrs(f, n)
    lp = tens(x, N, T, C).requires_grad_(True)
    d = k2.DenseFsaVec(lp, torch.tensor(segs, dtype=torch.int32).reshape(-1, 3), allow_truncate=ctx.params.get('trunc', 0))
    return As, f, sa, x, lp, d


def grads(ctx, g, o, As, amap, segs, sa, lp, T, C, msg):
    """Every arc of the result: one of a, one of the network output, unless it is final."""
    m = sum(len(b.arcs) for b in o)
    if not m:
        return
    c = [ctx.flt(f'c{i}', -2, 2) for i in range(m)]
    g.scores.backward(wr(c, torch.float32, (m,)))
    ra, rb = [SF(0)] * sa.numel(), [SF(0)] * lp.numel()
    base = [0]
    for a in As:
        base.append(base[-1] + len(a.arcs))
    i = 0
    for j, b in enumerate(o):
        n, s, _ = segs[amap[j]]
        for y in b.arcs:
            k, t, l = int(y['tag']) - 1, int(y['frame']), int(y['label'])
            if k >= 0:
                ra[k] = ra[k] + c[i]
            if l >= 0:
                rb[(n * T + s + t) * C + l] = rb[(n * T + s + t) * C + l] + c[i]
            i += 1
    ga = rd(sa.grad) if sa.grad is not None else [SF(0)] * sa.numel()
    gb = rd(lp.grad.reshape(-1)) if lp.grad is not None else [SF(0)] * lp.numel()
    for x, y in zip(ga, ra):
        ctx.check(x == y, f'{msg}: gradient of the graph')
    for x, y in zip(gb, rb):
        ctx.check(x == y, f'{msg}: gradient of the network output')


def dense(ctx):
    """1 to 3 graphs (out of 10 structures up to 5 states, 9 arcs, one without states), 1 to 3 segments up to 3 frames (0 frames, overlapping,
    truncated), 2 symbols, integer scores -1..1, output beams 1.5 and 100, with and without a map from graphs to segments; gradients."""
    gs, segs, N, T, amap = ctx.choose('case', ctx.params['cases'])
    beam = ctx.choose('beam', ctx.params.get('beams', [1.5, 100.0]))
    C = 2
    As, f, sa, x, lp, d = setup(ctx, segs, gs, N, T, C)
    g = k2.intersect_dense(f, d, beam, a_to_b_map=None if amap is None else torch.tensor(amap, dtype=torch.int32),
                           seqframe_idx_name='seqframe', frame_idx_name='frame')
    am = amap or list(range(len(gs)))
    o = out_vec(g)
    msg = 'dense'
    ctx.check(len(o) == len(gs), f'{msg}: number of FSAs')
    base, row0 = 0, [0]
    for s in segs:
        row0.append(row0[-1] + len(rows(x, s, T)))
    for j, (a, b) in enumerate(zip(As, o)):
        r = rows(x, segs[am[j]], T)
        arcs = trellis(a, r)
        got = read(ctx, g, base, a, b, arcs, row0[am[j]], msg)
        th, tot = through(a, arcs, len(r) - 1)
        for q, v in th.items():
            keep = SB(False) if isneg(v) else (v > tot - beam)
            ctx.check(keep == (q in got), f'{msg}: exactly the arcs within the beam')
        base += len(a.arcs)
    flat = [y for b in o for y in b.arcs]
    check_attrs(ctx, flat, g, [int(y['tag']) - 1 for y in flat], msg)
    grads(ctx, g, o, As, am, segs, sa, lp, T, C, msg)


DENSE = [
    (['chain'], [[0, 0, 2]], 1, 2, None), (['loop'], [[0, 0, 2]], 1, 2, None), (['split'], [[0, 0, 2]], 1, 2, None),
    (['dead'], [[0, 0, 2]], 1, 2, None), (['dup', E], [[0, 0, 3], [0, 0, 1]], 1, 3, None), (['one', 'one'], [[0, 0, 1], [0, 1, 1]], 1, 2, None),
    (['final2', 'none'], [[0, 0, 1], [0, 1, 0]], 1, 2, None), (['start', 'one'], [[1, 0, 2], [0, 1, 1]], 2, 2, None),
    (['one', 'loop', 'one'], [[0, 1, 1], [1, 0, 1]], 2, 2, [0, 0, 1]), ([E, 'one'], [[0, 0, 2], [0, 1, 1]], 1, 2, [0, 1]),
    (['loop'], [[1, 0, 2], [0, 0, 1]], 2, 2, [1]), (['none'], [[0, 0, 2]], 1, 2, None),
]
DENSE2 = DENSE + [(['big'], [[0, 0, 2]], 1, 2, None), (['loop', 'chain'], [[0, 0, 3], [0, 0, 2]], 1, 3, None), (['big', 'dup'], [[0, 0, 3], [1, 1, 1]], 2, 3, [0, 1])]



def limits(ctx):
    """As dense, with a limit on the states or arcs that forces smaller beams: what remains is what some smaller beam keeps."""
    gs, segs, N, T, amap = ctx.choose('case', [DENSE2[1], DENSE2[2], DENSE2[4], DENSE2[7]])
    ms, ma = ctx.choose('limit', [(4, 100), (3, 100), (100, 6), (100, 3)])
    beam = 8.0
    tie = ctx.choose('tie', [False, True])
    if tie:
        # limits that the best paths alone exceed: it ends all the same
        if ms > 4 or gs != ['loop']:
            raise Discard()
        ms = 1
    As, f, sa, x, lp, d = setup(ctx, segs, gs, N, T, 2, 0 if tie else -1, 0 if tie else 1)
    ns, na = SI(0), SI(0)
    for j, a in enumerate(As):
        n = len(rows(x, segs[j], T)) - 1
        arcs = trellis(a, rows(x, segs[j], T))
        al, be = forward(a, arcs, n), backward(a, arcs, n)
        for t in range(n + 2):
            for s in range(a.n):
                v = add(al[t][s], be[t][s])
                if not isneg(v):
                    h = ite(v == be[0][0], SI(1), SI(0))
                    ns, na = ns + h, na + h * SI(sum(int(y['src']) == s for y in a.arcs))
    if not tie:
        # the states of the best paths are within the limits (what counts are the arcs that leave these states)
        ctx.assume((ns <= ms) & (na <= ma))
    g = k2.intersect_dense(f, d, beam, max_states=ms, max_arcs=ma, seqframe_idx_name='seqframe', frame_idx_name='frame')
    o = out_vec(g)
    msg = 'limits'
    base, row0, inn, out, ns, na = 0, 0, [], [], 0, 0
    for j, (a, b) in enumerate(zip(As, o)):
        r = rows(x, segs[j], T)
        arcs = trellis(a, r)
        got = read(ctx, g, base, a, b, arcs, row0, msg)
        th, tot = through(a, arcs, len(r) - 1)
        for q, v in th.items():
            if not isneg(v):
                (inn if q in got else out).append(tot - v)
            else:
                ctx.check(q not in got, f'{msg}: only arcs of paths')
        base += len(a.arcs)
        row0 += len(r)
        ns += b.n - 1 if b.arcs else 0
        na += len(b.arcs)
    ctx.check(ns <= ms and na <= ma, f'{msg}: limits')
    for v in inn:
        ctx.check(v < beam, f'{msg}: beam')
        ctx.check(all_(v < u for u in out), f'{msg}: the best arcs stay')


def paths(a, arcs, T):
    """All complete paths [(t, k), ...]."""
    res, cur = [], [([], 0)] if a.n else []
    for t in range(T + 1):
        cur = [(p + [(t, k)], int(a.arcs[k]['dst'])) for p, s in cur for (u, k) in arcs if u == t and int(a.arcs[k]['src']) == s]
    return [p for p, s in cur if s == a.n - 1]


def pruned(ctx):
    """1 to 3 segments, with their own graphs or a shared one (10 structures up to 5 states and 9 arcs), up to 3 frames, 2 symbols, integer scores -1..1;
    search and output beams 1.5 and 100, at least 0 or 5 active states, at most 10 or 2.  With small search beams: every arc of a path that never falls behind by
    more than the beam; gradients."""
    gs, segs, N, T, _ = ctx.choose('case', ctx.params['cases'])
    sbeam, obeam, mina, maxa = ctx.choose('beams', ctx.params['beams'])
    C = 2
    shared = len(gs) == 1
    As, f, sa, x, lp, d = setup(ctx, segs, gs, N, T, C)
    g = k2.intersect_dense_pruned(f, d, sbeam, obeam, mina, maxa, seqframe_idx_name='seqframe', frame_idx_name='frame')
    o = out_vec(g)
    msg = 'pruned'
    ctx.check(len(o) == len(segs), f'{msg}: number of FSAs')
    base, row0 = 0, 0
    for j, b in enumerate(o):
        a = As[0] if shared else As[j]
        r = rows(x, segs[j], T)
        n = len(r) - 1
        arcs = trellis(a, r)
        got = read(ctx, g, 0 if shared else base, a, b, arcs, row0, msg)
        th, tot = through(a, arcs, n)
        if sbeam > 50:
            for q, v in th.items():
                keep = SB(False) if isneg(v) else (v >= tot - obeam)
                ctx.check(keep == (q in got), f'{msg}: exactly the arcs within the beam')
        else:
            al = forward(a, arcs, n)
            best = [smax(al[t]) for t in range(n + 1)]
            kth, ktot = through(a, {q: arcs[q] for q in got}, n)
            for q in got:
                ctx.check(False if isneg(kth[q]) else kth[q] >= ktot - obeam, f'{msg}: arcs of good paths')
            for p in paths(a, arcs, n):
                run, ok = SF(0), []
                for t, k in p[:-1]:
                    run = run + arcs[t, k]
                    ok.append(run > best[t + 1] - sbeam)
                run = run + arcs[p[-1]]
                if maxa > 5:
                    ctx.check(implies(all_(ok + [run >= tot - obeam]), SB(all(q in got for q in p))), f'{msg}: paths within the beams')
        base += len(a.arcs)
        row0 += len(r)
    flat = [y for b in o for y in b.arcs]
    check_attrs(ctx, flat, g, [int(y['tag']) - 1 for y in flat], msg)
    grads(ctx, g, o, As, list(range(len(segs))), segs, sa, lp, T, C, msg)


PRUNED = [c for c in DENSE if c[4] is None] + [
    (['dup', 'one'], [[0, 0, 3], [0, 1, 1]], 1, 3, None),
    (['loop'], [[0, 0, 1], [1, 0, 2]], 2, 2, None), (['chain'], [[0, 0, 0], [0, 0, 2]], 1, 2, None), (['start'], [[0, 0, 2], [0, 1, 1], [0, 0, 1]], 1, 2, None),
    ([E, 'one'], [[0, 0, 1], [0, 1, 1]], 1, 2, None)]
PRUNED2 = PRUNED + [(['big'], [[0, 0, 2]], 1, 2, None), (['loop', 'chain'], [[0, 0, 2], [0, 0, 3]], 1, 3, None), (['big'], [[0, 0, 3], [1, 1, 1]], 2, 3, None)]
BEAMS = [(100.0, 100.0, 0, 10), (100.0, 1.5, 0, 100), (1.5, 100.0, 0, 10), (1.5, 1.5, 0, 10), (1.5, 100.0, 5, 10), (1.5, 100.0, 0, 2)]


def long(ctx):
    """Searches over 21 to 42 frames, which are pruned piece by piece on the way (every 20 frames, over 30): 4 graphs, 1 or 2 segments of different length; graph
    scores and most frames are fixed, one score (near the end, or in the middle) is an integer -3..3; output beams 1.5,
    3.5 and 100.  Every arc of a path within the beam stays; what stays is within the beam of the best path to some state 6 frames later, at the end exactly."""
    gs, lens, at = ctx.choose('case', ctx.params['cases'])
    sbeam, obeam, mina, maxa = ctx.choose('beams', [(1000.0, 3.5, 0, 100), (1000.0, 1.5, 0, 100), (1000.0, 100.0, 0, 100)])
    N, T, C = len(lens), max(lens), 2
    As = []
    for i, g in enumerate(gs):
        n, t = G[g]
        As.append(A(n, [{'src': SI(s), 'dst': SI(d), 'label': SI(l), 'score': SF((3 * k + i) % 4 - 1)} for k, (s, d, l) in enumerate(t)]))
    x = [[[SF((5 * t + 2 * c + 3 * t * c + n) % 4 - 2) for c in range(C)] for t in range(T)] for n in range(N)]
    for n, t, c in at:
        x[n][t][c] = ctx.flt(f'b{n}_{t}_{c}', -3, 3)
    f = build_vec(As)
    sa = f.scores.detach().clone().requires_grad_(True)
    f.scores = sa
    add_attrs(f, sum(len(a.arcs) for a in As))
    lp = tens(x, N, T, C).requires_grad_(True)
    segs = [[n, 0, lens[n]] for n in range(N)]
    d = k2.DenseFsaVec(lp, torch.tensor(segs, dtype=torch.int32))
    g = k2.intersect_dense_pruned(f, d, sbeam, obeam, mina, maxa, seqframe_idx_name='seqframe', frame_idx_name='frame')
    o = out_vec(g)
    msg = 'long'
    ctx.check(len(o) == N, f'{msg}: number of FSAs')
    base, row0 = 0, 0
    for j, b in enumerate(o):
        a = As[0] if len(gs) == 1 else As[j]
        r = rows(x, segs[j], T)
        n = len(r) - 1
        arcs = trellis(a, r)
        got = read(ctx, g, 0 if len(gs) == 1 else base, a, b, arcs, row0, msg)
        th, tot = through(a, arcs, n, bmax)
        for q, v in th.items():
            keep = SB(False) if isneg(v) else (v >= tot - obeam)
            if q[0] > n - 8 or q not in got:
                ctx.check(keep == (q in got), f'{msg}: the arcs within the beam')
        al = forward(a, arcs, n, bmax)
        for t in range(n - 7):
            be = {(t + 6, s): -v for s, v in enumerate(al[t + 6]) if not isneg(v)}
            for u in reversed(range(t, t + 6)):
                way = {k: add(be.get((u + 1, int(y['dst'])), NI), arcs[u, k]) for k, y in enumerate(a.arcs) if (u, k) in arcs}
                for s in range(a.n):
                    be[u, s] = bmax([NI] + [v for k, v in way.items() if int(a.arcs[k]['src']) == s])
            for k, v in way.items():
                if (t, k) in got:
                    v = add(al[t][int(a.arcs[k]['src'])], v)
                    ctx.check(False if isneg(v) else v >= -obeam, f'{msg}: arcs of good paths to later states')
        base += len(a.arcs)
        row0 += len(r)
    flat = [y for b in o for y in b.arcs]
    check_attrs(ctx, flat, g, [int(y['tag']) - 1 for y in flat], msg)


LONG = [(['split'], [22], [(0, 20, 0)]), (['start'], [24, 22], [(1, 20, 0)]), (['dead', 'chain'], [23, 21], [(1, 19, 0)]), (['big'], [31], [(0, 29, 1)]),
        (['split', 'loop'], [25, 42], [(1, 39, 0)]), (['loop'], [21], [(0, 10, 0)])]


def partial(ctx):
    """allow_partial: where no final state is active after the last frame, the states that are active count as final."""
    gs, segs, N, T, _ = ctx.choose('case', [(['chain'], [[0, 0, 1]], 1, 2, None), (['none'], [[0, 0, 2]], 1, 2, None), (['none', 'loop'], [[0, 0, 1], [0, 1, 1]], 1, 2, None),
                                            (['chain'], [[0, 0, 1], [0, 0, 2]], 1, 2, None), (['one', 'chain'], [[0, 0, 1], [0, 0, 1]], 1, 2, None), (['dead', 'start'], [[0, 0, 1], [0, 0, 2]], 1, 2, None)])
    obeam = ctx.choose('beam', [1.5, 100.0])
    C = 2
    shared = len(gs) == 1
    As, f, sa, x, lp, d = setup(ctx, segs, gs, N, T, C)
    g = k2.intersect_dense_pruned(f, d, 100.0, obeam, 0, 100, seqframe_idx_name='seqframe', frame_idx_name='frame', allow_partial=True)
    o = out_vec(g)
    msg = 'partial'
    row0 = 0
    for j, b in enumerate(o):
        a = As[0] if shared else As[j]
        base = 0 if shared else sum(len(y.arcs) for y in As[:j])
        r = rows(x, segs[j], T)
        n = len(r) - 1
        arcs = trellis(a, r)
        al = forward(a, arcs, n)
        if any(not isneg(al[n][int(y['src'])]) for y in a.arcs if int(y['label']) == -1):
            got = read(ctx, g, base, a, b, arcs, row0, msg)
        else:
            # every arc on the last frame is final and free of charge on the network's side
            a2 = A(a.n, list(a.arcs))
            for k, y in enumerate(a.arcs):
                del_ = (n, k)
                arcs.pop(del_, None)
            extra = []
            for k, y in enumerate(a.arcs):
                a2.arcs.append({**y, 'dst': SI(a.n - 1), 'label': SI(-1)})
                arcs[n, len(a2.arcs) - 1] = y['score']
            th, tot = through(a2, arcs, n)
            got, states = {}, {}
            for y in b.arcs:
                t, k = int(y['frame']), int(y['tag']) - 1 - base
                if t < n:
                    ctx.check((t, k) in arcs and y['score'] == arcs[t, k], f'{msg}: score')
                    ctx.check(y['label'] == a.arcs[k]['label'], f'{msg}: label')
                    got[t, k] = y
                    ends = ((int(y['src']), (t, int(a.arcs[k]['src']))), (int(y['dst']), (t + 1, int(a.arcs[k]['dst']))))
                    for s, st in ends:
                        ctx.check(states.setdefault(s, st) == st, f'{msg}: state')
                else:
                    ctx.check(t == n and int(y['tag']) == 0 and int(y['label']) == -1 and int(y['dst']) == b.n - 1, f'{msg}: final arc')
                    extra.append(y)
            want = [(q, v) for q, v in th.items() if q[0] == n]
            for q, v in th.items():
                if q[0] < n:
                    ctx.check((SB(False) if isneg(v) else v >= tot - obeam) == (q in got), f'{msg}: exactly the arcs within the beam')
            # the final arcs, in the order of states and arcs
            left = list(extra)
            inv = {st: s for s, st in states.items()}
            if n == 0:
                inv[0, 0] = 0
            num = SI(0)
            for (t, k), v in want:
                keep = SB(False) if isneg(v) else v >= tot - obeam
                num = num + ite(keep, SI(1), SI(0))
                if keep:
                    i = next((i for i, y in enumerate(left) if int(y['src']) == inv.get((n, int(a2.arcs[k]['src'])))), None)
                    ctx.check(i is not None, f'{msg}: final arc present')
                    if i is not None:
                        ctx.check(left.pop(i)['score'] == arcs[t, k], f'{msg}: score of a final arc')
            ctx.check(not left and num == len(extra), f'{msg}: number of final arcs')
        row0 += len(r)
    grads(ctx, g, o, As, list(range(len(segs))), segs, sa, lp, T, C, msg)


def construct(ctx):
    """DenseFsaVec: rows, durations, conversion to an FsaVec; 1 or 2 sequences of up to 3 frames, 2 symbols, up to 3 segments with any start and duration, truncation 0 to 2."""
    N, T = ctx.choose('N', [1, 2]), ctx.choose('T', [1, 2, 3])
    n = ctx.choose('n', ctx.params['n'])
    trunc = ctx.choose('trunc', [0, 1, 2])
    segs = [[int(ctx.int(f'n{i}', 0, N - 1)), int(ctx.int(f's{i}', 0, T - 1)), int(ctx.int(f'd{i}', 0, T + 1))] for i in range(n)]
    x = logits(ctx, N, T, 2, -4, 4)
    bad = any(s + d > T + trunc for _, s, d in segs)
    try:
        v = k2.DenseFsaVec(tens(x, N, T, 2), torch.tensor(segs, dtype=torch.int32), allow_truncate=trunc)
    except AssertionError:
        ctx.check(bad, 'construct: refused')
        return
    ctx.check(not bad, 'construct: accepted')
    R = [rows(x, s, T) for s in segs]
    sc = rd(v.scores)
    flat = [y for r in R for y in r]
    ctx.check(len(sc) == len(flat) and v.dim0() == n, 'construct: rows')
    for p, q in zip(sc, flat):
        ctx.check(len(p) == len(q) and all_(a == b for a, b in zip(p, q)), 'construct: scores')
    ctx.check([int(y) for y in rd(v.duration)] == [len(r) - 1 for r in R], 'construct: duration')
    w = v.to('cpu')
    ctx.check([int(y) for y in rd(w.duration)] == [len(r) - 1 for r in R], 'construct: duration of a copy')
    for y in (v, w):
        f = k2.convert_dense_to_fsa_vec(y)
        for r, a in zip(R, out_vec(f)):
            m = len(r) - 1
            ctx.check(a.n == m + 2 and len(a.arcs) == 2 * m + 1, 'convert: size')
            for i, z in enumerate(a.arcs):
                t, c = i // 2, i % 2 + 1
                if t == m:
                    c = 0
                ctx.check((z['src'] == t) & (z['dst'] == t + 1) & (z['label'] == c - 1), 'convert: arc')
                ctx.check(z['score'] == r[t][c], 'convert: score')


HARNESSES = [Harness(dense, params=dict(cases=DENSE)), Harness(dense, 'dense2', params=dict(cases=DENSE2[len(DENSE):])), Harness(limits),
             Harness(pruned, params=dict(cases=PRUNED, beams=BEAMS)), Harness(pruned, 'pruned2', params=dict(cases=PRUNED2[len(PRUNED):], beams=BEAMS)),
             Harness(long, params=dict(cases=LONG)), Harness(partial), Harness(construct, params=dict(n=[1, 2])), Harness(construct, 'construct3', params=dict(n=[3], thorough_only=True))]
QUICK_S = 70
