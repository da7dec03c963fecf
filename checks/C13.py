"""Decoding in chunks."""
from hlp import *
from explore import Harness, Discard
from C09 import add
from C12 import G, graph, logits, tens, rows, trellis, forward, through, isneg, paths


def unroll(b, msg, ctx):
    """Frame of every arc: the depth of its source state."""
    depth = {0: 0}
    for y in b.arcs:
        s, d = int(y['src']), int(y['dst'])
        ctx.check(s in depth, f'{msg}: every state is reached')
        t = depth.get(s, 0)
        ctx.check(depth.setdefault(d, t + 1) == t + 1, f'{msg}: one frame per arc')
        y['frame'], y['seqframe'] = SI(t), SI(t)


def lattice(ctx, a, r, b, obeam, sbeam, partial, msg):
    """b is a lattice of the graph a and the score rows r: it has all arcs of paths within the output beam, and only arcs of paths within
    the output beam of the best one to some state that is active after the last frame."""
    n = len(r) - 1
    unroll(b, msg, ctx)
    arcs = trellis(a, r)
    al = forward(a, arcs, n)
    alive = any(not isneg(al[n][int(y['src'])]) for y in a.arcs if int(y['label']) == -1)
    if alive and partial and sbeam < 50 and any(int(y['tag']) == 0 for y in b.arcs):
        # the search beam may have pruned all that is final
        best = [smax(al[t]) for t in range(n + 1)]
        for p in paths(a, arcs, n):
            run = [ssum([arcs[q] for q in p[:t + 1]]) for t in range(n)]
            ctx.check(~all_(v > m - sbeam for v, m in zip(run, best[1:])), f'{msg}: a final state within the search beam')
        alive = False
    if not alive:
        # nothing final is active: every arc ends the path, without a score of the network
        arcs = {q: w for q, w in arcs.items() if q[0] < n}
        if partial:
            a = A(a.n, a.arcs + [{**y, 'dst': SI(a.n - 1), 'label': SI(-1)} for y in a.arcs])
            for k, y in enumerate(a.arcs):
                arcs[n, k] = y['score']
            arcs = {(t, k): w for (t, k), w in arcs.items() if (k >= len(a.arcs) // 2) == (t == n)}
        forced = partial
    else:
        forced = False
    al = forward(a, arcs, n)
    got, states, ends = {}, {0: (0, 0)}, []
    for y in b.arcs:
        t, k = int(y['frame']), int(y['tag']) - 1
        ctx.check(0 <= int(y['src']) < b.n and 0 <= int(y['dst']) < b.n, f'{msg}: state index')
        if forced and t == n:
            ctx.check(k == -1 and int(y['label']) == -1 and int(y['dst']) == b.n - 1, f'{msg}: partial final arc')
            ends.append(y)
            continue
        ctx.check((t, k) in arcs and (t, k) not in got, f'{msg}: arc of the graph')
        if (t, k) not in arcs or (t, k) in got:
            continue
        ctx.check((y['score'] == arcs[t, k]) & (y['label'] == a.arcs[k]['label']), f'{msg}: label and score')
        ctx.check((int(y['label']) == -1) == (int(y['dst']) == b.n - 1), f'{msg}: final state')
        got[t, k] = y
        for s, st in ((int(y['src']), (t, int(a.arcs[k]['src']))), (int(y['dst']), (t + 1, int(a.arcs[k]['dst'])))):
            ctx.check(states.setdefault(s, st) == st, f'{msg}: state')
    ctx.check(len(set(states.values())) == len(states), f'{msg}: one state for each frame and state')
    # only arcs within the beam of the best path to some active state
    back = {n: {s: {s: SF(0)} for s in range(a.n)}}
    for t in reversed(range(n)):
        back[t] = {}
        for s in range(a.n):
            back[t][s] = {}
            for e in range(a.n):
                w = [add(w, back[t + 1][int(a.arcs[k]['dst'])].get(e, SF(NEG))) for (u, k), w in arcs.items() if u == t and int(a.arcs[k]['src']) == s]
                w = [v for v in w if not isneg(v)]
                if w:
                    back[t][s][e] = smax(w)
    for (t, k) in got:
        if t < n and sbeam > 50:
            f = add(al[t][int(a.arcs[k]['src'])], arcs[t, k])
            ctx.check(any_([add(f, v) >= al[n][e] - obeam for e, v in back[t + 1][int(a.arcs[k]['dst'])].items() if not isneg(f)]), f'{msg}: arcs of good paths')
    # all arcs within the beam
    th, tot = through(a, arcs, n)
    if isneg(tot):
        return
    best = [smax(al[t]) for t in range(n + 1)]
    inv = {st: s for s, st in states.items()}
    have = {}
    for y in ends:
        have.setdefault(int(y['src']), []).append(y['score'])

    def there(t, k):
        if forced and t == n:
            # the arcs that leave a state are all final
            s = int(a.arcs[k]['src'])
            want = [arcs[n, i] for i in range(len(a.arcs) // 2, len(a.arcs)) if int(a.arcs[i]['src']) == s]
            x = have.get(inv.get((n, s)), [])
            return len(x) == len(want) and all_(u == v for u, v in zip(x, want))
        return SB((t, k) in got)
    if sbeam > 50:
        for (t, k), v in th.items():
            if not isneg(v):
                ctx.check(implies(v >= tot - obeam, there(t, k)), f'{msg}: all arcs within the beam')
    else:
        for p in paths(a, arcs, n):
            run, ok = SF(0), []
            for t, k in p[:-1]:
                run = run + arcs[t, k]
                ok.append(run > best[t + 1] - sbeam)
            run = run + arcs[p[-1]]
            ctx.check(implies(all_(ok + [run >= tot - obeam]), all_(there(t, k) for t, k in p)), f'{msg}: paths within the beams')


def online(ctx):
    """A graph (8 structures up to 5 states, 9 arcs), 1 or 2 streams, up to 3 sequences that arrive in 2 or 3 chunks of 1 or 2 frames, in any order, new
    ones beside old ones, 2 symbols, integer scores -1..1, search beams 1.5 and 100, output beams 1.5 and 100, with and without partial results; after
    every chunk the lattice of each sequence is that of all its frames."""
    g, plan = ctx.choose('case', ctx.params['cases'])
    sbeam, obeam = ctx.choose('beams', ctx.params['beams'])
    part = ctx.choose('partial', [True, False])
    C = 2
    a = graph(ctx, 'a', g)
    f = build_vec([a])
    sa = f.scores.detach().clone().requires_grad_(True)
    f.scores = sa
    add_attrs(f, len(a.arcs))
    x = k2.OnlineDenseIntersecter(f, len(plan[0]), sbeam, obeam, 0, 100, allow_partial=part)
    ctx.check(x.num_streams == len(plan[0]), 'online: streams')
    state, seen = {}, {}
    for c, call in enumerate(plan):
        T = max(n for _, n in call)
        y = logits(ctx, len(call), T, C, p=f'x{c}')
        d = k2.DenseFsaVec(tens(y, len(call), T, C), torch.tensor([[i, 0, n] for i, (_, n) in enumerate(call)], dtype=torch.int32))
        # None and an empty state are both a new sequence
        st = [state[q] if q in state else None if q % 2 else k2.DecodeStateInfo() for q, _ in call] if len(call) > 1 else [state.get(q) for q, _ in call]
        o, st = x.decode(d, st)
        ctx.check(len(st) == len(call), 'online: number of states')
        out = out_vec(o)
        ctx.check(len(out) == len(call), 'online: number of lattices')
        for i, (q, n) in enumerate(call):
            state[q] = st[i]
            seen[q] = seen.get(q, []) + [y[i][t] for t in range(n)]
            r = [[SF(NEG)] + v for v in seen[q]] + [[SF(0)] + [SF(NEG)] * C]
            lattice(ctx, a, r, out[i], obeam, sbeam, part, f'call {c} sequence {q}')
        flat = [z for b in out for z in b.arcs]
        check_attrs(ctx, flat, o, [int(z['tag']) - 1 for z in flat], 'online')
        if len(flat) and c == len(plan) - 1:
            co = [ctx.flt(f'c{i}', -2, 2) for i in range(len(flat))]
            o.scores.backward(wr(co, torch.float32, (len(flat),)))
            ra = [SF(0)] * len(a.arcs)
            for v, z in zip(co, flat):
                k = int(z['tag']) - 1
                if k >= 0:
                    ra[k] = ra[k] + v
            for u, v in zip(rd(sa.grad) if sa.grad is not None else [SF(0)] * len(ra), ra):
                ctx.check(u == v, 'online: gradient of the graph')


def limits(ctx):
    """Limits on the number of active states, which narrow or widen the beam from frame to frame: 2 graphs, 3 frames of one sequence alone or
    beside another one, integer scores -1..1, search beams 1.5 and 0.8, up to 1, 2 or 3 active states and at least 0 to 2: in chunks of 1 and 2 frames the lattice is
    the one of all frames at once."""
    g = ctx.choose('g', ctx.params['graphs'])
    C, T = 2, 3
    a = graph(ctx, 'a', g, *ctx.params.get('range', (0, 0)))
    f = build_vec([a])
    f.tag = torch.arange(1, len(a.arcs) + 1, dtype=torch.int32)
    sb, lo, hi = ctx.choose('limits', [(1.5, 0, 1), (0.8, 2, 3), (1.5, 1, 2)])
    part = ctx.choose('partial', [False, True])
    two = ctx.choose('beside', [False, True])
    x = logits(ctx, 1, T, C)[0]
    z = [[SF(0), SF(-1)], [SF(-1), SF(0)], [SF(0), SF(0)]]

    def run(cuts):
        dec = k2.OnlineDenseIntersecter(f, 2 if two else 1, sb, 1000.0, lo, hi, allow_partial=part)
        st, b = [None] * (2 if two else 1), 0
        for n in cuts:
            v = [x[b:b + n]] + ([z[b:b + n]] if two else [])
            d = k2.DenseFsaVec(tens(v, len(v), n, C), torch.tensor([[i, 0, n] for i in range(len(v))], dtype=torch.int32))
            o, st = dec.decode(d, st)
            b += n
        return out_vec(o)
    one, more = run([T]), run(ctx.choose('cuts', [[1, 2], [2, 1], [1, 1, 1]]))
    ctx.check(len(one) == len(more), 'limits: number of lattices')
    for p, q in zip(one, more):
        ctx.check(p.n == q.n and len(p.arcs) == len(q.arcs), 'limits: states and arcs')
        for u, v in zip(p.arcs, q.arcs):
            ctx.check(all_([u[k] == v[k] for k in ('src', 'dst', 'label', 'score', 'tag')]), 'limits: arcs')


P = {
    'one': [[(0, 1)], [(0, 1)]], 'two-one': [[(0, 2)], [(0, 1)]], 'three': [[(0, 1)], [(0, 1)], [(0, 1)]],
    'pair': [[(0, 1), (1, 1)], [(1, 1), (0, 1)]], 'new': [[(0, 1), (1, 1)], [(2, 1), (0, 1)]], 'back': [[(0, 1), (1, 1)], [(2, 1), (1, 1)], [(0, 1), (2, 1)]],
    'short': [[(0, 1), (1, 1)], [(0, 2), (1, 1)]], 'replace': [[(0, 2)], [(1, 1)], [(0, 1)]], 
}
CASES = [(g, P[p]) for g, p in (('loop', 'one'), ('chain', 'one'), ('split', 'two-one'), ('dead', 'one'), ('start', 'three'), ('one', 'pair'), ('none', 'one'),
                                ('chain', 'new'), ('loop', 'replace'), ('dup', 'two-one'), ('final2', 'back'))]
HARNESSES = [Harness(online, params=dict(cases=CASES, beams=[(100.0, 100.0), (100.0, 1.5), (1.5, 100.0)])),
             Harness(online, 'more', params=dict(cases=[(g, P[p]) for g, p in (('start', 'pair'), ('loop', 'new'), ('one', 'back'), ('split', 'three'), ('big', 'one'))],
                                                 beams=[(100.0, 1.5), (1.5, 1.5)])),
             Harness(online, 'lengths', params=dict(cases=[(g, P['short']) for g in ('chain', 'loop', 'start')], beams=[(100.0, 100.0), (100.0, 1.5)])),
             Harness(limits, params=dict(graphs=['start', 'big'])), Harness(limits, 'limits2', params=dict(graphs=['start', 'split', 'dup'], range=(-1, 1), thorough_only=True))]
QUICK_S = 60
