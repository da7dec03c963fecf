"""Automatic differentiation through the operations on FSAs."""
from hlp import *
from explore import Harness, Discard
from C05 import sort_assume, eps_ok

T = [(4, [(0, 1), (0, 2), (1, 2), (1, 3), (2, 3)]), (3, [(0, 1), (0, 1), (0, 2), (1, 2)]), (4, [(0, 2), (1, 3), (2, 1), (2, 2)]), (3, [(0, 1), (1, 1), (1, 2)]), (2, [(0, 1), (0, 1)]), (0, []), (4, [(0, 1), (0, 3), (2, 3)])]

SINGLE = {
    'connect': k2.connect, 'reverse': k2.reverse, 'arc_sort': k2.arc_sort, 'add_epsilon_self_loops': k2.add_epsilon_self_loops,
    'remove_epsilon_self_loops': k2.remove_epsilon_self_loops, 'remove_epsilon': k2.remove_epsilon,
    'remove_epsilon_and_add_self_loops': k2.remove_epsilon_and_add_self_loops, 'closure': k2.closure, 'invert': k2.invert,
    'top_sort': lambda f: k2.top_sort(k2.connect(f)), 'clone': lambda f: f.clone(), 'to': lambda f: f.to('cpu'),
    'vec': lambda f: k2.create_fsa_vec([f, f]), 'member': lambda f: k2.create_fsa_vec([f, f])[1],
    'convert': lambda f: f.convert_attr_to_ragged_(name='other'), 'rename': lambda f: f.rename_tensor_attribute_('other', 'another'),
    'self': lambda f: k2.intersect(f, f, treat_epsilons_specially=False),
}
BATCH = {
    'connect': k2.connect, 'reverse': k2.reverse, 'arc_sort': k2.arc_sort, 'add_epsilon_self_loops': k2.add_epsilon_self_loops,
    'remove_epsilon_self_loops': k2.remove_epsilon_self_loops, 'remove_epsilon': k2.remove_epsilon,
    'remove_epsilon_and_add_self_loops': k2.remove_epsilon_and_add_self_loops, 'invert': k2.invert,
    'union': k2.union, 'last': lambda f: f[f.shape[0] - 1], 'index': lambda f: k2.index_fsa(f, torch.tensor([f.shape[0] - 1, 0, 0], dtype=torch.int32)),
    'cat': lambda f: k2.cat([f, f]), 'path': lambda f: k2.shortest_path(k2.top_sort(k2.connect(f)), True),
}


def leaf(ctx, p, n, lo=-2, hi=2):
    x = wr([ctx.flt(f'{p}{i}', lo, hi) for i in range(n)], torch.float32, (n,))
    return x.requires_grad_(True)


def prep(ctx, f, a, p='', tag='tag', fa='fa'):
    """Scores and a float attribute that depend on leaves, and an integer attribute that names the arc."""
    n = len(a)
    s, q = (wr([x['score'] for x in a], torch.float32, (n,))).requires_grad_(True), leaf(ctx, f'{p}q', n)
    f.scores = s * 2
    setattr(f, fa, q + q)
    setattr(f, tag, torch.arange(1, n + 1, dtype=torch.int32))
    for x in a:
        x['score'] = 2 * x['score']
    return s, q


def sources(f, name):
    """For each arc of the result, the source arcs with multiplicity."""
    t = getattr(f, name)
    t = out_ragged(t) if isinstance(t, k2.RaggedTensor) else [[x] for x in rd(t)]
    return [[int(v) - 1 for v in r if v != 0] for r in t]


def check(ctx, g, src, scores, msg, fa='fa', leaves=None):
    """Values and gradients: each output arc is the sum of its source arcs."""
    n = len(src)
    vs, vf = rd(g.scores), rd(getattr(g, fa))
    ctx.check(len(vs) == n and len(vf) == n, f'{msg}: sizes')
    if not n:
        return
    c = [ctx.flt(f'c{i}', -2, 2) for i in range(n)]
    e = [ctx.flt(f'e{i}', -2, 2) for i in range(n)]
    ct, et = (wr(x, torch.float32, (n,)) for x in (c, e))
    q = [[v * 2 for v in rd(l[1].detach())] for l in leaves]
    for i, m in enumerate(src):
        ctx.check(vs[i] == ssum([scores[k][j] for k in range(len(leaves)) for j in m[k]], SF(0)), f'{msg}: scores')
        ctx.check(vf[i] == ssum([q[k][j] for k in range(len(leaves)) for j in m[k]], SF(0)), f'{msg}: float attribute')
    ((g.scores * ct).sum() + (getattr(g, fa) * et).sum()).backward()
    for k, (s, l) in enumerate(leaves):
        for x, co, what in ((s, c, 'scores'), (l, e, 'float attribute')):
            gr = rd(x.grad) if x.grad is not None else [SF(0)] * x.numel()
            for j in range(x.numel()):
                ref = ssum([co[i] * (2 * m[k].count(j)) for i, m in enumerate(src) if j in m[k]], SF(0))
                ctx.check(gr[j] == ref, f'{msg}: gradient of the {what}')


def pre(ctx, f, op):
    """What an operation asks of its input."""
    if op in ('remove_epsilon', 'remove_epsilon_and_add_self_loops'):
        l, s = rd(f.labels), rd(f.scores.detach())
        for x, y in zip(l, s):
            ctx.assume((x != 0) | (y <= 0))
    if op == 'self':
        f = k2.arc_sort(f)
    if op == 'convert':
        f.other = torch.arange(f.num_arcs, dtype=torch.int32)
    if op == 'rename':
        f.other = f.fa * 2
    return f


def single(ctx):
    """One of 17 operations, or two in a row, on one FSA out of 4 structures up to 4 states and 5 arcs; labels 0..1."""
    op = ctx.choose('op', ctx.params['ops'])
    op2 = ctx.choose('op2', ctx.params['ops2'])
    a = topo_vars(ctx, '', ctx.params['T'], labels=(0, 1), score=(-2, 1), aux=(0, 1) if 'invert' in (op, op2) else None)
    f = build(a)
    lv = prep(ctx, f, a.arcs)
    if op == 'closure' and any(int(x['dst']) == 0 for x in a.arcs):
        raise Discard()
    msg = op
    f = pre(ctx, f, op)
    if op == 'self':
        del f.tag  # an integer attribute cannot be in both
        g, i, j = k2.intersect(f, f, treat_epsilons_specially=False, ret_arc_maps=True)
        am = [int(v) for v in rd(k2.arc_sort(build(a), ret_arc_map=True)[1])]
        src = [[am[x], am[y]] for x, y in zip(ints(rd(i)), ints(rd(j)))]
    else:
        g = SINGLE[op](f)
        if op2:
            if op2 == 'closure' and isinstance(g.tag, k2.RaggedTensor) or len(g.shape) == 3 and op2 in ('closure', 'vec', 'member') or not g.num_arcs or (op, op2) in (('closure', 'top_sort'), ('convert', 'closure')):
                raise Discard()
            g = SINGLE[op2](pre(ctx, g, op2))
            msg = f'{op}, {op2}'
        src = sources(g, 'tag')
    check(ctx, g, [[m] for m in src], [[x['score'] for x in a.arcs]], msg, leaves=[lv])


def batch(ctx):
    """One of 13 operations on a batch of 2 or 3 FSAs, also empty ones."""
    op = ctx.choose('op', list(BATCH))
    n = ctx.choose('n', [2, 3])
    S = [[T[0], T[4]], [T[5], T[1]], [T[6], T[4]]]
    if op == 'union':
        S[1] = S[1][1:]
    As = [topo_vars(ctx, f'{i}', S[i][:1] if i != 1 and op.startswith('remove') else S[i], labels=(0, 1) if op != 'path' else (1, 1), score=(-1, 1), aux=(0, 1) if op == 'invert' else None) for i in range(n)]
    f = build_vec(As)
    arcs = [x for a in As for x in a.arcs]
    lv = prep(ctx, f, arcs)
    f = pre(ctx, f, op)
    g = BATCH[op](f)
    check(ctx, g, [[m] for m in sources(g, 'tag')], [[x['score'] for x in arcs]], op, leaves=[lv])


def binary(ctx):
    """intersect() with and without special epsilons, intersect_device() and compose() of two FSAs out of 4 structures; the gradient of
    both inputs; an attribute in both is added."""
    op = ctx.choose('op', ['intersect', 'intersect_noeps', 'device', 'compose'])
    Tb = [T[4], (3, [(0, 1), (0, 1), (1, 2)])]
    Ta = [(3, [(0, 0), (0, 1), (1, 2)]), (3, [(0, 1), (0, 2), (1, 2)])]
    a = topo_vars(ctx, 'a', Ta, labels=(0, 1), score=(-1, 0), aux=(0, 1) if op == 'compose' else None)
    b = topo_vars(ctx, 'b', Tb, labels=(0, 1), score=(-1, 0))
    sort_assume(ctx, a)
    sort_assume(ctx, b)
    f, g = (build if op != 'device' else lambda x: build_vec([x]))(a), (build if op != 'device' else lambda x: build_vec([x]))(b)
    lf, lg = prep(ctx, f, a.arcs, 'a', 'ta'), prep(ctx, g, b.arcs, 'b', 'tb')
    if op == 'compose':
        h = k2.compose(f, g)
    elif op == 'device':
        h = k2.intersect_device(f, g, torch.zeros(1, dtype=torch.int32), sorted_match_a=ctx.choose('sorted', [False, True]))
    else:
        h = k2.intersect(f, g, treat_epsilons_specially=op == 'intersect')
    post = ctx.choose('then', ['', 'connect', 'remove_epsilon'])
    if post and h.num_arcs and not (post == 'remove_epsilon' and op == 'compose'):
        h = SINGLE[post](pre(ctx, h, post))
    src = [list(x) for x in zip(sources(h, 'ta'), sources(h, 'tb'))]
    check(ctx, h, src, [[x['score'] for x in y.arcs] for y in (a, b)], op, leaves=[lf, lg])


def det(ctx):
    """determinize() of an FSA out of 2 structures: a float attribute is summed along the arcs and its gradient follows."""
    a = topo_vars(ctx, '', [(4, [(0, 1), (0, 1), (1, 3), (1, 2), (2, 3)]), (4, [(0, 1), (0, 2), (1, 3), (2, 3), (2, 3)])], labels=(1, 2), score=(-1, 1))
    f = build(a)
    f.tag = torch.arange(1, len(a.arcs) + 1, dtype=torch.int32)
    q = leaf(ctx, 'q', len(a.arcs))
    f.fa = q * 2
    g = k2.determinize(f)
    src = sources(g, 'tag')
    e = [ctx.flt(f'e{i}', -2, 2) for i in range(len(src))]
    (g.fa * wr(e, torch.float32, (len(e),))).sum().backward()
    for i, (m, v) in enumerate(zip(src, rd(g.fa))):
        ctx.check(v == ssum([2 * rd(q.detach())[j] for j in m], SF(0)), 'determinize: float attribute')
    for j, v in enumerate(rd(q.grad)):
        ctx.check(v == ssum([e[i] * (2 * m.count(j)) for i, m in enumerate(src)], SF(0)), 'determinize: gradient of the float attribute')


CHAIN = ['connect', 'remove_epsilon', 'reverse', 'add_epsilon_self_loops', 'arc_sort', 'member', 'remove_epsilon_and_add_self_loops']
HARNESSES = [Harness(single, params=dict(ops=list(SINGLE), ops2=[''], T=T[:4])), Harness(batch), Harness(binary), Harness(det),
             Harness(single, 'chain', params=dict(ops=CHAIN, ops2=CHAIN, T=T[1:2])),
             Harness(single, 'chain_all', params=dict(ops=list(SINGLE)[:-1], ops2=list(SINGLE)[:-1], T=T[:4], thorough_only=True))]
QUICK_S = 60
