"""Forward, backward, total scores, posteriors and their gradients in the log semiring, in exact real arithmetic."""
from hlp import *
from explore import Harness, Discard

# acyclic and sorted: diamonds, parallel arcs, dead ends, states that are not reached, several final arcs
T = [(3, [(0, 1), (0, 2), (1, 2)]), (4, [(0, 1), (0, 2), (1, 3), (2, 3)]), (4, [(0, 1), (0, 1), (1, 2), (2, 3)]), (2, [(0, 1), (0, 1), (0, 1)]),
     (4, [(0, 1), (0, 2), (2, 3)]), (4, [(0, 3), (1, 2), (2, 3)]), (4, [(0, 1), (0, 2), (1, 2), (1, 3), (2, 3)]), (5, [(0, 2), (0, 1), (1, 3), (1, 4), (2, 3), (3, 4)]),
     (4, [(0, 3), (0, 1), (1, 2), (2, 3)]), (4, [(0, 2), (0, 1), (1, 3), (1, 2), (2, 3)])]
E = (0, [])
DEAD = (3, [(0, 1)])


def logarcs(ctx, p, t, w=1):
    n, t = t
    return A(n, [{'src': SI(s), 'dst': SI(d), 'label': SI(-1 if d == n - 1 else 1), 'score': ctx.real(f'{p}w{i}', -w, w)} for i, (s, d) in enumerate(t)])


def members(ctx, S):
    n = ctx.choose('n', [1, 2, 3][:len(S)]) if not ctx.params.get('all') else len(S)
    return [logarcs(ctx, f'{i}', ctx.choose(f't{i}', S[i])) for i in range(n)]


def ways(a, s, t, via=None, skip=None):
    """The weights of the paths from s to t (through an arc)."""
    if s == t:
        r = [] if via is not None else [[]]
    else:
        r = []
    for k, x in enumerate(a.arcs):
        if int(x['src']) == s and int(x['dst']) <= t:
            for q in ways(a, int(x['dst']), t):
                if via is None or k == via or via in q:
                    r.append([k] + q)
    return r


def Z(a, s, t, via=None):
    """log of the sum over the paths from s to t."""
    return lse([ssum([a.arcs[k]['score'] for k in q], SF(0)) for q in ways(a, s, t, via)])


def ninf(x):
    return not x.i and x.v == NEG


def add(*v):
    return SF(NEG) if any(ninf(x) for x in v) else ssum(list(v))


def eqn(ctx, r, e, msg):
    ctx.check(len(r) == len(e), f'{msg}: length')
    for x, y in zip(r, e):
        ctx.check(close(x, y), msg)


def ratio(x, y):
    """exp(x - y), 0 for x = -inf"""
    return SF(0) if ninf(x) else fexp(x - y)


def alive(a):
    return bool(a.n) and bool(ways(a, 0, a.n - 1))


def scores(ctx):
    """A batch of 1 to 3 FSAs out of up to 8 structures (up to 5 states and 6 arcs; dead ends, parallel arcs, no path, no arcs), real
    scores in -1..1: forward, backward, total scores and arc posteriors in float and double are the sums over all paths."""
    As = members(ctx, ctx.params['S'])
    if not sum(len(a.arcs) for a in As):
        raise Discard()
    f = build_vec(As)
    dbl = ctx.choose('double', [False, True])
    eqn(ctx, rd(f.get_forward_scores(dbl, True)), [Z(a, 0, s) for a in As for s in range(a.n)], 'forward scores')
    eqn(ctx, rd(f.get_backward_scores(dbl, True)), [Z(a, s, a.n - 1) for a in As for s in range(a.n)], 'backward scores')
    eqn(ctx, rd(f.get_tot_scores(dbl, True)), [Z(a, 0, a.n - 1) if a.n else SF(NEG) for a in As], 'total scores')
    if all(alive(a) for a in As):
        # the posterior of an arc: the share of the paths through it
        eqn(ctx, rd(f.get_arc_post(dbl, True)), [add(Z(a, 0, a.n - 1, k), -Z(a, 0, a.n - 1)) for a in As for k in range(len(a.arcs))], 'arc posteriors')


def d_fwd(a, s, k):
    return ratio(Z(a, 0, s, k), Z(a, 0, s))


def d_bwd(a, s, k):
    return ratio(Z(a, s, a.n - 1, k), Z(a, s, a.n - 1))


def graded(ctx):
    """Any acyclic sorted FSA with 4 states and 3 or 4 arcs between any states: the derivatives of each forward or backward score or arc
    posterior with respect to every arc score."""
    a = arcs_vars(ctx, '', 4, ctx.choose('n', ctx.params['arcs']), labels=(1, 1), acyclic=True, sym_scores=False)
    for i, x in enumerate(a.arcs):
        x['src'], x['dst'] = SI(int(x['src'])), SI(int(x['dst']))
        x['score'] = ctx.real(f'w{i}', -1, 1)
    grads(ctx, [a])


def grads(ctx, As=None):
    """The derivatives of total, forward and backward scores and arc posteriors of a batch with respect to every arc score: weighted
    sums with the factors 1, -2, 0.5, ... of up to 3 outputs."""
    which = ctx.choose('which', ctx.params['which'])
    As = As or members(ctx, ctx.params['S'])
    f = build_vec(As)
    f.requires_grad_(True)
    dbl = ctx.choose('double', [False, True])
    ids = [(a, s) for a in As for s in range(a.n)]
    arcs = [(a, k) for a in As for k in range(len(a.arcs))]
    if which == 'tot':
        out = f.get_tot_scores(dbl, True)
        terms = [(a, a.n - 1) for a in As]
        der = lambda o, a, k: d_fwd(a, o[1], k)
        ok = [alive(a) for a in As]
        if not all(ok):
            raise Discard()
    elif which in ('fwd', 'bwd'):
        out = (f.get_forward_scores if which == 'fwd' else f.get_backward_scores)(dbl, True)
        terms = ids
        der = lambda o, a, k: (d_fwd if which == 'fwd' else d_bwd)(a, o[1], k)
        ok = [bool(ways(a, 0, s) if which == 'fwd' else ways(a, s, a.n - 1)) for a, s in ids]
    else:
        out = f.get_arc_post(dbl, True)
        terms = arcs
        if not all(alive(a) for a in As):
            raise Discard()

        def der(o, a, k):
            x = a.arcs[o[1]]
            r = SF(1 if o[1] == k else 0) - ratio(Z(a, 0, a.n - 1, k), Z(a, 0, a.n - 1))
            return r + d_fwd(a, int(x['src']), k) + d_bwd(a, int(x['dst']), k)
        ok = [bool(ways(a, 0, a.n - 1, k)) for a, k in arcs]
    good = [i for i, b in enumerate(ok) if b]
    if not good:
        raise Discard()
    co = [0.0] * len(terms)
    k = ctx.choose('k', range(len(good))) if which != 'tot' else 0
    co[good[k]] = 1.0
    if which == 'tot':
        co = [[1.0, -2.0, 0.5][i] for i in range(len(terms))]
    elif k:
        co[good[k - 1]] = -2.0
    out.backward(torch.tensor(co, dtype=out.dtype))
    gr = rd(f.grad)
    ctx.check(len(gr) == len(arcs), f'gradient of {which} scores: length')
    for g, (a, k) in zip(gr, arcs):
        e = ssum([c * der(o, a, k) for c, o in zip(co, terms) if c and o[0] is a], SF(0))
        ctx.check(close(g, e), f'gradient of {which} scores')


def twice(ctx):
    """Scores that are set again, and scores cached before: forward, backward, total scores and posteriors are those of the new scores,
    in both semirings; 2 structures."""
    a = logarcs(ctx, 'a', ctx.choose('t', [T[0], T[1]]))
    b = logarcs(ctx, 'b', (a.n, [(int(x['src']), int(x['dst'])) for x in a.arcs]))
    f = build_vec([a, a])
    dbl = ctx.choose('double', [False, True])
    first = ctx.choose('first', ['tot', 'fwd', 'bwd', 'post', 'none'])
    get = {'tot': f.get_tot_scores, 'fwd': f.get_forward_scores, 'bwd': f.get_backward_scores, 'post': f.get_arc_post}
    if first in get:
        get[first](ctx.choose('double1', [False, True]), ctx.choose('log1', [False, True]))
    f.scores = wr([x['score'] for x in a.arcs + b.arcs], torch.float32, (2 * len(a.arcs),))
    ab = [a, b]
    if ctx.choose('half', [False, True]):
        # the scores as a differentiable function of others
        s = f.scores.clone().requires_grad_(True)
        f.scores = s + s
        ab = [A(x.n, [{**y, 'score': y['score'] + y['score']} for y in x.arcs]) for x in ab]
        f.get_tot_scores(dbl, True).sum().backward()
        for g, (x, k) in zip(rd(s.grad), [(x, k) for x in ab for k in range(len(x.arcs))]):
            ctx.check(close(g, 2 * d_fwd(x, x.n - 1, k)), 'gradient through the scores')
    eqn(ctx, rd(f.get_tot_scores(dbl, True)), [Z(x, 0, x.n - 1) for x in ab], 'total scores of new scores')
    eqn(ctx, rd(f.get_forward_scores(dbl, True)), [Z(x, 0, s) for x in ab for s in range(x.n)], 'forward scores of new scores')
    eqn(ctx, rd(f.get_arc_post(dbl, True)), [add(Z(x, 0, x.n - 1, k), -Z(x, 0, x.n - 1)) for x in ab for k in range(len(x.arcs))], 'posteriors of new scores')
    m = [smax([ssum([x.arcs[k]['score'] for k in q], SF(0)) for q in ways(x, 0, x.n - 1)]) for x in ab]
    eqn(ctx, rd(f.get_tot_scores(dbl, False)), m, 'best scores of new scores')


def anyshape(ctx):
    """Any acyclic sorted FSA with 4 states and 3 to 5 arcs between any states, real scores: total scores, posteriors, and the gradient
    of the total score."""
    a = arcs_vars(ctx, '', 4, ctx.choose('n', ctx.params['arcs']), labels=(1, 1), acyclic=True, sym_scores=False)
    for i, x in enumerate(a.arcs):
        x['src'], x['dst'] = SI(int(x['src'])), SI(int(x['dst']))
        x['score'] = ctx.real(f'w{i}', -1, 1)
    f = build_vec([a])
    f.requires_grad_(True)
    z = Z(a, 0, 3)
    o = f.get_tot_scores(True, True)
    eqn(ctx, rd(o), [z], 'total score')
    if not alive(a):
        return
    post = [add(Z(a, 0, 3, k), -z) for k in range(len(a.arcs))]
    eqn(ctx, rd(f.get_arc_post(True, True)), post, 'posteriors')
    o.backward(torch.tensor([2.0], dtype=torch.float64))
    for g, q in zip(rd(f.grad), post):
        ctx.check(close(g, 2 * (SF(0) if ninf(q) else fexp(q))), 'gradient of the total score')


def stale(ctx):
    """The diamond 0 -> 1, 0 -> 2, 1 -> 2 with real scores: the gradient of a total score that is asked for after other scores have been set."""
    a = logarcs(ctx, 'a', T[0])
    f = build_vec([a])
    x = wr([y['score'] for y in a.arcs], torch.float32, (3,)).requires_grad_(True)
    f.scores = x * 1
    z = f.get_tot_scores(True, True)
    f.scores = torch.tensor([0.5, -0.5, 0.25])
    z.sum().backward()
    ctx.check(all_(close(g, ratio(Z(a, 0, 2, k), Z(a, 0, 2))) for k, g in enumerate(rd(x.grad))), 'get_tot_scores(): gradient asked for after other scores were set')


HARNESSES = [Harness(stale, domain='exp'), Harness(scores, params=dict(S=[T]), domain='exp'),
             Harness(scores, 'batch', params=dict(S=[[T[0], E, DEAD], [T[1], T[4], E], [T[3], DEAD]]), domain='exp'),
             Harness(grads, params=dict(S=[[T[0], T[1], T[3], T[4], T[5], T[2]]], which=['tot', 'fwd', 'bwd']), domain='exp'),
             Harness(grads, 'grads_post', params=dict(S=[[T[0], T[1], T[3], T[4]]], which=['post']), domain='exp'),
             Harness(grads, 'grads_batch', params=dict(S=[[T[0]], [T[4], T[3]]], which=['tot', 'fwd', 'bwd', 'post'], all=True), domain='exp'),
             Harness(twice, domain='exp'), Harness(anyshape, params=dict(arcs=[3, 4]), domain='exp'),
             Harness(anyshape, 'anyshape5', params=dict(arcs=[5]), domain='exp'),
             Harness(graded, params=dict(arcs=[3, 4], which=['post', 'fwd', 'bwd']), domain='exp'),
             Harness(graded, 'graded5', params=dict(arcs=[5], which=['post', 'fwd', 'bwd'], thorough_only=True), domain='exp'),
             Harness(grads, 'grads_more', params=dict(S=[T[6:]], which=['tot', 'fwd', 'bwd', 'post']), domain='exp')]
QUICK_S = 60
