"""Forward, backward, total and arc scores, best paths and their gradients in the tropical semiring."""
from hlp import *
from explore import Harness, Discard

# acyclic and sorted: states without arcs, without a way in or out, parallel arcs
T = [(3, [(0, 1), (0, 2), (1, 2)]), (4, [(0, 1), (0, 2), (1, 3), (2, 3)]), (4, [(0, 1), (0, 1), (1, 2), (2, 3)]), (2, [(0, 1), (0, 1), (0, 1)]),
     (4, [(0, 3), (1, 2), (1, 3)]), (4, [(0, 1), (0, 2), (2, 3)]), (5, [(0, 1), (0, 2), (1, 2), (1, 4), (2, 4)]), (3, [(0, 1)]), (3, [(1, 2)]),
     (5, [(0, 1), (0, 2), (0, 3), (1, 4), (2, 4), (3, 4)]), (5, [(0, 2), (0, 1), (1, 3), (1, 4), (2, 3), (3, 4)])]
E = (0, [])


def fwd(a):
    al = [SF(NEG)] * a.n
    if a.n:
        al[0] = SF(0)
    for s in range(a.n):
        al[s] = smax([al[s]] + [add(pick(al, x['src']), x['score']) for x in a.arcs if int(x['dst']) == s])
    return al


def bwd(a):
    be = [SF(NEG)] * a.n
    if a.n:
        be[-1] = SF(0)
    for s in reversed(range(a.n - 1)):
        be[s] = smax([SF(NEG)] + [add(pick(be, x['dst']), x['score']) for x in a.arcs if int(x['src']) == s])
    return be


def add(*v):
    """A sum where -inf wins."""
    return SF(NEG) if any(not x.i and x.v == NEG for x in v) else ssum(list(v))


def eqn(ctx, r, e, msg):
    """Equal, or both -inf."""
    ctx.check(len(r) == len(e), f'{msg}: length')
    for x, y in zip(r, e):
        ctx.check(x == y, msg)


def arc_posts(a):
    f, b = fwd(a), bwd(a)
    return [add(f[int(x['src'])], x['score'], b[int(x['dst'])], SF(0) - f[-1]) for x in a.arcs]


def with_scores(a, v):
    return A(a.n, [{**x, 'score': y} for x, y in zip(a.arcs, v)])


def members(ctx, S, lo=-2, hi=2, n=None):
    """A batch: FSA i is one of the structures S[i]."""
    n = n or ctx.choose('n', [1, 2, 3][:len(S)])
    return [topo_vars(ctx, f'{i}', S[i], labels=(1, 1), score=(lo, hi)) for i in range(n)]


def best(ctx, f, As, dbl, msg):
    """The best paths: of each FSA, consecutive arcs whose scores add up to the best score."""
    g = k2.shortest_path(f, dbl)
    o = out_vec(g)
    ctx.check(len(o) == len(As), f'{msg}: number of FSAs')
    base = 0
    flat = [x for a in As for x in a.arcs]
    for a, b in zip(As, o):
        w = fwd(a)[-1] if a.n else SF(NEG)
        if not w.i and w.v == NEG:
            ctx.check(not b.arcs, f'{msg}: no path, no arcs')
        else:
            am = [int(x['tag']) - 1 for x in b.arcs]
            check_attrs(ctx, b.arcs, g, am, msg)
            ctx.check(all(base <= m < base + len(a.arcs) for m in am) and bool(am), f'{msg}: arcs of the same FSA')
            p = [flat[m] for m in am]
            ctx.check(b.n == len(p) + 1 and all(int(x['src']) == i and int(x['dst']) == i + 1 for i, x in enumerate(b.arcs)), f'{msg}: linear')
            ctx.check(int(p[0]['src']) == 0 and int(p[-1]['dst']) == a.n - 1 and all(int(x['dst']) == int(y['src']) for x, y in zip(p, p[1:])), f'{msg}: a path')
            for x, y in zip(b.arcs, p):
                ctx.check((x['label'] == y['label']) & (x['score'] == y['score']), f'{msg}: labels and scores')
            ctx.check(ssum([x['score'] for x in p]) == w, f'{msg}: best weight')
        base += len(a.arcs)


def scores(ctx):
    """A batch of 1 to 3 FSAs out of up to 11 structures (up to 5 states and 6 arcs, dead states, no path, no arcs), integer scores -2..2:
    forward, backward, total and arc scores in float and double, best paths."""
    As = members(ctx, ctx.params['S'])
    n = sum(len(a.arcs) for a in As)
    if not n:
        raise Discard()
    f = build_vec(As)
    add_attrs(f, n)
    dbl = ctx.choose('double', [False, True])
    eqn(ctx, rd(f.get_forward_scores(dbl, False)), [v for a in As for v in fwd(a)], 'forward scores')
    eqn(ctx, rd(f.get_backward_scores(dbl, False)), [v for a in As for v in bwd(a)], 'backward scores')
    eqn(ctx, rd(f.get_tot_scores(dbl, False)), [(fwd(a)[-1] if a.n else SF(NEG)) for a in As], 'total scores')
    if all(a.n and (fwd(a)[-1].i or fwd(a)[-1].v != NEG) for a in As):
        eqn(ctx, rd(f.get_arc_post(dbl, False)), [v for a in As for v in arc_posts(a)], 'arc scores')
    best(ctx, f, As, dbl, 'shortest_path')


def anyshape(ctx):
    """Any acyclic sorted FSA with 4 states and 3 (4) arcs between any states, alone or after another FSA, integer scores -1..1."""
    n = ctx.choose('n', ctx.params['arcs'])
    a = arcs_vars(ctx, '', 4, n, labels=(1, 1), acyclic=True, score=(-1, 1))
    for x in a.arcs:  # one path per structure
        x['src'], x['dst'] = SI(int(x['src'])), SI(int(x['dst']))
    As = [a]
    if ctx.choose('first', [False, True]):
        As = [A(2, [{'src': SI(0), 'dst': SI(1), 'label': SI(-1), 'score': ctx.flt('z', -1, 1)}])] + As
    f = build_vec(As)
    add_attrs(f, f.num_arcs)
    eqn(ctx, rd(f.get_forward_scores(False, False)), [v for a in As for v in fwd(a)], 'forward scores')
    eqn(ctx, rd(f.get_backward_scores(True, False)), [v for a in As for v in bwd(a)], 'backward scores')
    eqn(ctx, rd(f.get_tot_scores(True, False)), [fwd(a)[-1] for a in As], 'total scores')
    best(ctx, f, As, True, 'shortest_path')
    for o, a in zip(out_vec(f), As):
        ctx.check(len(o.arcs) == len(a.arcs), 'input unchanged')


def graded(ctx):
    """The gradients of total, best path, forward, backward and arc scores of any acyclic sorted FSA with 4 states and 3 (4) arcs between
    any states, integer scores -1..1, as in grads."""
    a = arcs_vars(ctx, '', 4, ctx.choose('n', ctx.params['arcs']), labels=(1, 1), acyclic=True, score=(-1, 1))
    for x in a.arcs:
        x['src'], x['dst'] = SI(int(x['src'])), SI(int(x['dst']))
    grads(ctx, [a])


def grads(ctx, As=None):
    """The gradient of the total score, of the best path's scores, of forward and backward scores and of arc scores of a batch of 1 to 2
    FSAs out of 6 structures: a subgradient (for every other assignment of scores) resp. homogeneous."""
    which = ctx.choose('which', ['tot', 'path', 'fwd', 'bwd', 'post'])
    w = ctx.params.get('w', 2)
    As = As or members(ctx, ctx.params['S'], -w, w)
    n = sum(len(a.arcs) for a in As)
    f = build_vec(As)
    f.requires_grad_(True)
    dbl = ctx.choose('double', [False, True])
    sc = [x['score'] for a in As for x in a.arcs]
    other = [ctx.flt(f'o{i}', -w, w) for i in range(n)]
    it = iter(other)
    Bs = [with_scores(a, [next(it) for _ in a.arcs]) for a in As]
    if which in ('tot', 'path'):
        if any(not fwd(a)[-1].i and fwd(a)[-1].v == NEG for a in As):
            raise Discard()
        if which == 'tot':
            out = f.get_tot_scores(dbl, False)
            co = [1 + i for i in range(len(As))]
            fun = [fwd(a)[-1] for a in As], [fwd(a)[-1] for a in Bs]
        else:
            out = k2.shortest_path(f, dbl).scores
            co = [1] * out.numel()
            fun = [fwd(a)[-1] for a in As], [fwd(a)[-1] for a in Bs]
    else:
        out = {'fwd': f.get_forward_scores, 'bwd': f.get_backward_scores, 'post': f.get_arc_post}[which](dbl, False)
        g = {'fwd': fwd, 'bwd': bwd, 'post': arc_posts}[which]
        if which == 'post' and any(not fwd(a)[-1].i and fwd(a)[-1].v == NEG for a in As):
            raise Discard()
        fun = [v for a in As for v in g(a)], [v for a in Bs for v in g(a)]
        ks = [i for i, v in enumerate(fun[0]) if v.i or v.v != NEG]
        if not ks:
            raise Discard()
        k = ctx.choose('k', range(len(ks) - 1)) if len(ks) > 2 else 0
        co = [0] * len(fun[0])  # of two states or arcs at a time
        co[ks[k]], co[ks[-1]] = 1, 2
    if which == 'path':
        out.sum().backward()
    else:
        out.backward(torch.tensor(co, dtype=out.dtype))
    gr = rd(f.grad)
    ctx.check(len(gr) == n, 'gradient: length')
    if which == 'path':
        co = [1] * len(As)
    v1 = ssum([c * v for c, v in zip(co, fun[0]) if c] or [SF(0)])
    v2 = ssum([c * v for c, v in zip(co, fun[1]) if c] or [SF(0)])
    gi = [round(2 * float(x)) / 2 for x in gr]  # halves: the forward and the backward pass may break ties differently
    ctx.check(all_(x == k for x, k in zip(gr, gi)), 'gradient: counts of arcs')
    ctx.check(ssum([SF(0)] + [k * s for k, s in zip(gi, sc)]) == v1, f'gradient of {which}: value')
    if which != 'post':
        ctx.check(v2 >= v1 + ssum([SF(0)] + [k * (y - x) for k, x, y in zip(gi, sc, other)]), f'gradient of {which}: slope')
    else:
        # scores that differ from ties: the gradient is that of the piece
        ties = [u == v for a in As for u, v in pairs(a)]
        d = [ctx.flt(f'e{i}', -1, 1) for i in range(n)]
        it = iter(d)
        Cs = [A(a.n, [{**x, 'score': 8 * x['score'] + next(it)} for x in a.arcs]) for a in As]
        v3 = ssum([SF(0)] + [c * v for c, v in zip(co, [v for a in Cs for v in arc_posts(a)]) if c])
        ctx.check(implies(~any_(ties), v3 == 8 * v1 + ssum([SF(0)] + [k * x for k, x in zip(gi, d)])), 'gradient of arc scores')


def pairs(a):
    """Pairs of weights of partial paths with the same ends."""
    ways = {}

    def rec(s0, s, w):
        ways.setdefault((s0, s), []).append(w)
        for x in a.arcs:
            if int(x['src']) == s:
                rec(s0, int(x['dst']), w + x['score'])
    for s in range(a.n):
        rec(s, s, SF(0))
    return [(v[i], v[j]) for v in ways.values() for i in range(len(v)) for j in range(i)]


HARNESSES = [Harness(scores, params=dict(S=[T])), Harness(scores, 'batch', params=dict(S=[[T[0], E, T[7], (2, [])], [T[1], T[4], E], [T[3], T[8]]])),
             Harness(anyshape, params=dict(arcs=[3, 2])),
             Harness(grads, params=dict(S=[[T[0], T[1], T[3], T[4], T[5], T[6]]])),
             Harness(grads, 'grads_batch', params=dict(S=[[T[0]], [T[5], T[3]]], w=1)),
             Harness(anyshape, 'anyshape4', params=dict(arcs=[4])),
             Harness(graded, params=dict(arcs=[3], w=1)), Harness(graded, 'graded4', params=dict(arcs=[4], w=1, thorough_only=True)),
             Harness(grads, 'grads_more', params=dict(S=[T[7:]]))]
QUICK_S = 60
