"""Intersection and composition."""
import itertools
from hlp import *
from explore import Harness

T = [(3, [(0, 0), (0, 1), (1, 1), (1, 2)]), (2, [(0, 1), (0, 1)]), (4, [(0, 1), (0, 2), (1, 3), (2, 3)]),
     (3, [(0, 1), (0, 1), (0, 2), (1, 2)]), (3, [(0, 1), (1, 0), (1, 2)]), (4, [(0, 1), (0, 1), (1, 3), (1, 2)]), (2, []), (0, [])]


def count(a, w):
    """Number of paths reading w and then a final arc, label 0 being an ordinary symbol."""
    if a.n == 0:
        return SI(0)
    al = [SI(1)] + [SI(0)] * (a.n - 1)
    for c in list(w) + [-1]:
        new = [SI(0)] * a.n
        for x in a.arcs:
            s, d = int(x['src']), int(x['dst'])
            new[d] = new[d] + ite(x['label'] == c, al[s], SI(0))
        al = new
    return al[a.n - 1]


def sort_assume(ctx, a):
    """Restricts a to arc-sorted FSAs (the concrete states stay as they are)."""
    for x, y in zip(a.arcs, a.arcs[1:]):
        if int(x['src']) == int(y['src']):
            if int(x['dst']) == a.n - 1 and int(y['dst']) != a.n - 1:
                ctx.assume(False)
            if int(y['dst']) != a.n - 1:
                ctx.assume(x['label'] <= y['label'])
                if int(x['dst']) > int(y['dst']):
                    ctx.assume(x['label'] != y['label'])


def eps_ok(ctx, As):
    for a in As:
        for x in a.arcs:
            ctx.assume((x['label'] != 0) | (x['score'] <= 0))


def mark(f, n, p):
    setattr(f, f't{p}', torch.arange(1, n + 1, dtype=torch.int32))
    setattr(f, f'f{p}', torch.arange(1, n + 1, dtype=torch.float32) * 0.5)
    setattr(f, f'r{p}', k2.RaggedTensor([[i + 1] * (i % 3) for i in range(n)], dtype=torch.int32))
    setattr(f, f'n{p}', torch.arange(1, n + 1, dtype=torch.int32))
    setattr(f, f'n{p}_filler', -5 if p == 'a' else -7)
    f.both = torch.arange(1, n + 1, dtype=torch.float32) * (1 if p == 'a' else 16)
    f.both_filler = 0.25
    f.plain = p
    setattr(f, f'p{p}', p)


def arcs_ok(ctx, out, o, am, bm, src, msg, attrs=True):
    """Arc maps, scores, labels and attributes of an intersection."""
    am, bm = ints(rd(am)), ints(rd(bm))
    ctx.check(len(am) == len(o) and len(bm) == len(o), f'{msg}: length of the arc maps')
    for x, i, j in zip(o, am, bm):
        ctx.check(-1 <= i < len(src[0]) and -1 <= j < len(src[1]) and (i >= 0 or j >= 0), f'{msg}: arc map range')
        a = src[0][i] if i >= 0 else {'label': SI(0), 'score': SF(0)}
        b = src[1][j] if j >= 0 else {'label': SI(0), 'score': SF(0)}
        ctx.check((x['label'] == a['label']) & (x['label'] == b['label']), f'{msg}: label of an arc')
        ctx.check(x['score'] == a['score'] + b['score'], f'{msg}: score of an arc')
        if not attrs:
            continue
        for p, k in (('a', i), ('b', j)):
            ctx.check(x[f't{p}'] == k + 1, f'{msg}: int attribute')
            ctx.check(x[f'f{p}'] == 0.5 * (k + 1), f'{msg}: float attribute')
            ctx.check(x[f'n{p}'] == (k + 1 if k >= 0 else -5 if p == 'a' else -7), f'{msg}: int attribute with a filler')
            r = x[f'r{p}']
            ctx.check(len(r) == (k % 3 if k >= 0 else 0) and all_(v == k + 1 for v in r), f'{msg}: ragged attribute')
        ctx.check(x['both'] == (i + 1 if i >= 0 else 0.25) + (16 * (j + 1) if j >= 0 else 0.25), f'{msg}: attribute of both')
    if attrs:
        ctx.check(out.plain == 'a' and out.pa == 'a' and out.pb == 'b', f'{msg}: plain attributes')


def inter(ctx):
    """Two FSAs out of 8 structures up to 4 states and 4 arcs (cycles, no arcs, no states), labels 0..2, arc-sorted, with
    epsilons as epsilons or as ordinary symbols; strings up to length 2."""
    eps = ctx.params['eps']
    A0, B0 = topo_vars(ctx, 'a', T[:6], score=(-2, 1)), topo_vars(ctx, 'b', T, score=(-2, 1))
    sort_assume(ctx, A0)
    sort_assume(ctx, B0)
    eps_ok(ctx, [A0, B0])
    w = wt_strings(ctx, ctx.params['L'], (1 if eps else 0, 2))
    f, g = (build(x) if x.arcs else build_vec([x])[0] for x in (A0, B0))
    attrs = bool(B0.arcs)
    if attrs:
        mark(f, len(A0.arcs), 'a')
        mark(g, len(B0.arcs), 'b')
    h, am, bm = k2.intersect(f, g, treat_epsilons_specially=eps, ret_arc_maps=True)
    ctx.check(len(h.shape) == 2, 'intersect: two FSAs give an FSA')
    o = out_fsa(h)
    if o.arcs:
        well_formed(ctx, o, 'intersect')
    arcs_ok(ctx, h, o.arcs, am, bm, (A0.arcs, B0.arcs), 'intersect', attrs)
    same_language(ctx, lambda s: weight(A0, s, eps) + weight(B0, s, eps), o, w, eps, 'intersect: weight')
    if not eps:
        for n in range(len(w) + 1):
            ctx.check(count(o, w[:n]) == count(A0, w[:n]) * count(B0, w[:n]), 'intersect: number of paths')


def inter_vec(ctx):
    """Batches: 2 by 2, 1 by 2, 2 by 1 FSAs, or a single FSA on one side, each out of 3 to 4 structures (also empty ones)."""
    eps = ctx.choose('eps', [True, False])
    na, nb = ctx.choose('n', [(2, 2), (1, 2), (2, 1), (0, 2), (2, 0)])
    Ta, Tb = [T[1], T[3], T[7]], [T[1], T[7], T[4], T[6]]
    As = [topo_vars(ctx, f'a{i}', Ta if i else Ta[:2], score=(-2, 1)) for i in range(max(na, 1))]
    Bs = [topo_vars(ctx, f'b{i}', Tb if i == 0 and nb else Tb[::2], score=(-2, 1)) for i in range(max(nb, 1))]
    for x in As + Bs:
        sort_assume(ctx, x)
    eps_ok(ctx, As + Bs)
    w = wt_strings(ctx, 1, (0, 2))
    if eps:
        ctx.assume(w[0] >= 1)
    f = build_vec(As) if na else build(As[0])
    g = build_vec(Bs) if nb else build(Bs[0]) if Bs[0].arcs else build_vec(Bs)[0]
    src = ([x for a in As for x in a.arcs], [x for b in Bs for x in b.arcs])
    attrs = all(src)
    if attrs:
        mark(f, len(src[0]), 'a')
        mark(g, len(src[1]), 'b')
    h, am, bm = k2.intersect(f, g, treat_epsilons_specially=eps, ret_arc_maps=True)
    o = out_vec(h)
    ctx.check(len(o) == max(na, nb), 'intersect: number of FSAs')
    arcs_ok(ctx, h, [x for y in o for x in y.arcs], am, bm, src, 'intersect', attrs)
    for i, y in enumerate(o):
        a, b = As[i if na > 1 else 0], Bs[i if nb > 1 else 0]
        same_language(ctx, lambda s: weight(a, s, eps) + weight(b, s, eps), y, w, eps, 'intersect: weight')
        if not eps:
            for n in range(len(w) + 1):
                ctx.check(count(y, w[:n]) == count(a, w[:n]) * count(b, w[:n]), 'intersect: number of paths')


def device(ctx):
    """intersect_device() with 2 FSAs a and 1 to 3 FSAs b, any b_to_a_map, with or without sorted_match_a (a then sorted);
    structures up to 4 states and 4 arcs, labels 0..2; strings up to length 2."""
    sm = ctx.choose('sorted', [False, True])
    nb = ctx.params['nb']
    Ta = [T[0], T[3], T[5], T[1], T[7], T[6]]
    As = [topo_vars(ctx, 'a0', Ta[:3] + Ta[5:], score=(-2, 1)), topo_vars(ctx, 'a1', Ta[3:5], score=(-2, 1))]
    Bs = [topo_vars(ctx, f'b{i}', [T[4], T[3], T[7], T[2]] if i == 0 else [T[1], T[7]], score=(-2, 1)) for i in range(nb)]
    if sm:
        for x in As:
            sort_assume(ctx, x)
    mp = [int(ctx.int(f'm{i}', 0, 1)) for i in range(nb)]
    w = wt_strings(ctx, ctx.params['L'], (0, 2))
    f, g = build_vec(As), build_vec(Bs)
    src = ([x for a in As for x in a.arcs], [x for b in Bs for x in b.arcs])
    attrs = all(src)
    if attrs:
        mark(f, len(src[0]), 'a')
        mark(g, len(src[1]), 'b')
    h, am, bm = k2.intersect_device(f, g, torch.tensor(mp, dtype=torch.int32), sorted_match_a=sm, ret_arc_maps=True)
    o = out_vec(h)
    ctx.check(len(o) == nb, 'intersect_device: number of FSAs')
    arcs_ok(ctx, h, [x for y in o for x in y.arcs], am, bm, src, 'intersect_device', attrs)
    for y, b, m in zip(o, Bs, mp):
        if y.arcs:
            well_formed(ctx, y, 'intersect_device')
        same_language(ctx, lambda s: weight(As[m], s, False) + weight(b, s, False), y, w, False, 'intersect_device: weight')
        for n in range(len(w) + 1):
            ctx.check(count(y, w[:n]) == count(As[m], w[:n]) * count(b, w[:n]), 'intersect_device: number of paths')


def raw(a, xs, ys):
    """Best weight of a path with exactly these pairs of labels, 0 being an ordinary symbol."""
    if a.n == 0:
        return SF(NEG)
    al = [SF(0)] + [SF(NEG)] * (a.n - 1)
    for p, q in zip(xs, ys):
        al = step(a, al, lambda x: (x['label'] == p) & (x['aux_labels'] == q))
    return step(a, al, lambda x: x['label'] == -1)[a.n - 1]


TX = [(3, [(0, 1), (0, 1), (0, 2), (1, 2)]), (4, [(0, 1), (0, 2), (1, 2), (2, 3)]), (2, [(0, 1)]), (3, [(0, 1), (1, 2)]), (4, [(0, 1), (1, 2), (1, 3), (2, 3)])]


def comp(ctx):
    """compose() of a transducer and a transducer or acceptor out of 5 acyclic structures up to 4 states and 4 arcs, labels
    0..2, with or without special epsilons and inner labels; all pairs of strings up to length 2 by 2."""
    eps = ctx.params['eps']
    bt = ctx.params['bt']
    A0 = topo_vars(ctx, 'a', ctx.params.get('ta', TX), score=(-2, 1), aux=(0, 2))
    B0 = topo_vars(ctx, 'b', ctx.params.get('tb', TX), score=(-2, 1), aux=(0, 2) if bt else None)
    sort_assume(ctx, B0)
    L = ctx.params['L']
    lo = 1 if eps else 0
    w, z = wt_strings(ctx, L, (lo, 2)), wt_strings(ctx, L, (lo, 2), 'z')
    f, g = build(A0), build(B0)
    f.ta = torch.arange(1, len(A0.arcs) + 1, dtype=torch.int32)
    g.tb = torch.arange(1, len(B0.arcs) + 1, dtype=torch.int32)
    inner = 'inner' if bt and ctx.choose('inner', [False, True]) else None
    h = k2.compose(f, g, treat_epsilons_specially=eps, inner_labels=inner)
    ctx.check(len(h.shape) == 2, 'compose: two FSAs give an FSA')
    o = out_fsa(h)
    for x in o.arcs:
        i, j = int(x['ta']) - 1, int(x['tb']) - 1
        mid = A0.arcs[i]['aux_labels'] if i >= 0 else SI(0)
        midb = B0.arcs[j]['label'] if j >= 0 else SI(0)
        ctx.check(mid == midb, 'compose: matched labels')
        ctx.check(x['label'] == (A0.arcs[i]['label'] if i >= 0 else 0), 'compose: label of an arc')
        aux = mid if not bt else B0.arcs[j]['aux_labels'] if j >= 0 else SI(0)
        ctx.check(x['aux_labels'] == aux, 'compose: auxiliary label of an arc')
        if inner:
            ctx.check(x['inner'] == mid, 'compose: inner label of an arc')
        ctx.check(x['score'] == (A0.arcs[i]['score'] if i >= 0 else SF(0)) + (B0.arcs[j]['score'] if j >= 0 else SF(0)), 'compose: score of an arc')
    if o.arcs:
        well_formed(ctx, o, 'compose')
    for x in B0.arcs:
        x.setdefault('aux_labels', x['label'])
    if not eps:
        for n in range(L + 1):
            ref = smax([raw(A0, w[:n], y) + raw(B0, y, z[:n]) for y in itertools.product(range(3), repeat=n)])
            ctx.check(raw(o, w[:n], z[:n]) == ref, 'compose: weight')
        return
    mid = [[SI(v) for v in y] for n in range(3) for y in itertools.product((1, 2), repeat=n)]
    for n in range(L + 1):
        ra = [relation(A0, w[:n], y, rounds=4) for y in mid]
        for m in range(L + 1):
            ref = smax([p + relation(B0, y, z[:m], rounds=4) for p, y in zip(ra, mid)])
            ctx.check(relation(o, w[:n], z[:m], rounds=7) == ref, f'compose: weight ({n}, {m})')


def same_name(ctx):
    """An integer attribute that both FSAs have is refused, and inputs that are not arc-sorted are refused."""
    A0, B0 = topo_vars(ctx, 'a', T[1:2]), topo_vars(ctx, 'b', T[3:4])
    sort_assume(ctx, A0)
    f, g = build(A0), build(B0)
    if ctx.choose('attr', [False, True]):
        sort_assume(ctx, B0)
        f.x = torch.tensor([1, 2], dtype=torch.int32)
        g.x = torch.tensor([1, 2, 3, 4], dtype=torch.int32)
        try:
            h = k2.intersect(f, g)
        except AttributeError:
            return
        ctx.check(not hasattr(h, 'x'), 'intersect: an integer attribute of both is not kept')
    else:
        ok = (B0.arcs[0]['label'] <= B0.arcs[1]['label'])
        try:
            k2.intersect(f, g)
            ctx.check(ok, 'intersect: an input that is not arc-sorted is refused')
        except AssertionError:
            ctx.check(~ok, 'intersect: an arc-sorted input is accepted')


SA, SB_ = [TX[0], TX[3], TX[2]], [TX[3], TX[0]]
HARNESSES = [Harness(inter, params=dict(eps=True, L=2)), Harness(inter, 'inter_noeps', params=dict(eps=False, L=2)),
             Harness(inter_vec), Harness(device, params=dict(nb=1, L=2)), Harness(device, 'device2', params=dict(nb=2, L=1)),
             Harness(comp, params=dict(eps=True, bt=False, L=1, ta=SA, tb=SB_)),
             Harness(comp, 'comp_t', params=dict(eps=True, bt=True, L=1, ta=SA[:2], tb=SB_[:1])),
             Harness(comp, 'comp_noeps', params=dict(eps=False, bt=True, L=1)), Harness(same_name),
             Harness(inter, 'inter3', params=dict(eps=True, L=3, thorough_only=True)),
             Harness(device, 'device3', params=dict(nb=3, L=2, thorough_only=True)),
             Harness(comp, 'comp_all', params=dict(eps=True, bt=False, L=1, thorough_only=True)),
             Harness(comp, 'comp_t2', params=dict(eps=True, bt=True, L=2, thorough_only=True)),
             Harness(comp, 'comp_noeps2', params=dict(eps=False, bt=True, L=2, thorough_only=True))]
QUICK_S = 75
