"""Union, closure, reversal and inversion."""
from hlp import *
from explore import Harness

T = [(2, [(0, 1)]), (3, [(0, 1), (0, 2), (1, 2)]), (3, [(0, 0), (0, 1), (1, 0), (1, 2)]), (3, [(1, 2)]), (2, [])]


def union(ctx):
    """Three FSAs out of 5 structures (an initial state without arcs and no arcs at all included); labels 0..2 with 0 an
    ordinary epsilon arc of the inputs; strings up to length 2."""
    As = [topo_vars(ctx, f'{i}', T if i < 2 else T[:3], labels=(1, 2)) for i in range(ctx.params['k'])]
    w = wt_strings(ctx, 2, (1, 2))
    f = build_vec(As, attrs=True)
    g = k2.union(f)
    o = out_fsa(g)
    src = [x for a in As for x in a.arcs]
    m = [int(x['tag']) - 1 for x in o.arcs]
    well_formed(ctx, o, 'union')
    check_attrs(ctx, o.arcs, g, m, 'union')
    ctx.check(sorted(v for v in m if v >= 0) == list(range(len(src))), 'union: every arc appears once')
    for x, k in zip(o.arcs, m):
        if k < 0:
            ctx.check((x['label'] == 0) & (x['score'] == 0), 'union: added arcs are free epsilon arcs')
        else:
            ctx.check((x['label'] == src[k]['label']) & (x['score'] == src[k]['score']), 'union: label and score of a copied arc')
    same_language(ctx, lambda s: smax([weight(a, s) for a in As]), o, w, True, 'union: language')


def _closure(ctx, a, tens):
    f = build(a) if a.arcs else build_vec([a])[0]
    if a.arcs:
        add_attrs(f, len(a.arcs), ragged=False)
    g = k2.closure(f)
    o = out_fsa(g)
    well_formed(ctx, o, 'closure')
    if a.arcs:
        m = [int(x['tag']) - 1 for x in o.arcs]
        ctx.check(sorted(m) == [-1] + list(range(len(a.arcs))), 'closure: every arc appears once, one is new')
        check_attrs(ctx, o.arcs, g, m, 'closure')
        for x, k in zip(o.arcs, m):
            if k < 0:
                ctx.check((x['src'] == 0) & (x['label'] == -1) & (x['score'] == 0), 'closure: the new arc')
                if 'aux_labels' in x:
                    ctx.check(x['aux_labels'] == -1, 'closure: auxiliary label of the new final arc')
            else:
                y = a.arcs[k]
                ctx.check((x['score'] == y['score']) & (x['src'] == y['src']), 'closure: score of a copied arc')
                ctx.check(x['label'] == ite(y['label'] == -1, SI(0), y['label']), 'closure: label of a copied arc')
                if 'aux_labels' in x:
                    ctx.check(x['aux_labels'] == ite(y['label'] == -1, SI(0), y['aux_labels']), 'closure: auxiliary label of a copied arc')
    return o


def closure(ctx):
    """Any FSA with 3 states and 3 arcs, none entering the initial state, labels 1..2, with auxiliary labels; strings up to length 2."""
    a = arcs_vars(ctx, '', ctx.params['n'], ctx.params['m'], labels=(1, 2), aux=(0, 3))
    # see closure_start
    ctx.assume(all_(x['dst'] != 0 for x in a.arcs))
    # otherwise repeating the empty string would gain without bound
    ctx.assume(weight(a, []) <= 0)
    w = wt_strings(ctx, 2, (1, 2))
    o = _closure(ctx, a, True)

    def ref(s):
        best = [SF(0)] + [SF(NEG)] * len(s)
        for j in range(1, len(s) + 1):
            best[j] = smax([best[i] + weight(a, s[i:j]) for i in range(j)])
        return best[-1]
    same_language(ctx, ref, o, w, True, 'closure: language')


def closure_topo(ctx):
    """One of 6 structures up to 4 states and 5 arcs, also without arcs, with auxiliary labels."""
    a = topo_vars(ctx, '', T + [(4, [(0, 1), (1, 3), (1, 2), (2, 0), (2, 3)])], labels=(0, 2), aux=(0, 3))
    ctx.check(_closure(ctx, a, True).n == a.n, 'closure: number of states')


def closure_start(ctx):
    """The FSA 0 -1-> 1 -2-> 0, 1 -> final, whose initial state is entered by an arc: the string 1 2 is not in the closure."""
    a = A(3, [{'src': SI(x), 'dst': SI(y), 'label': SI(l), 'score': SF(0)} for x, y, l in ((0, 1, 1), (1, 0, 2), (1, 2, -1))])
    o = out_fsa(k2.closure(build(a)))
    ctx.check(weight(o, [SI(1), SI(2)]) == NEG, 'closure: accepts 1 2 for 0 -1-> 1 -2-> 0, 1 -> final')
    ctx.check(weight(o, [SI(1), SI(2), SI(1)]) == 0, 'closure: 1 2 1 is accepted')


def reverse(ctx):
    """Any FSA with 3 states and 3 arcs, labels 1..2; strings up to length 2."""
    a = arcs_vars(ctx, '', ctx.params['n'], ctx.params['m'], labels=(1, 2))
    w = wt_strings(ctx, 2, (1, 2))
    g = k2.reverse(build(a, attrs=True))
    o = out_fsa(g)
    m = [int(x['tag']) - 1 for x in o.arcs]
    ctx.check(sorted(m) == [-1] + list(range(len(a.arcs))), 'reverse: every arc appears once, one is new')
    well_formed(ctx, o, 'reverse')
    check_attrs(ctx, o.arcs, g, m, 'reverse')
    same_language(ctx, lambda s: weight(a, s[::-1]), o, w, True, 'reverse: language')


TR = [(3, [(0, 0), (0, 1), (1, 0), (1, 2)]), (4, [(0, 1), (0, 2), (1, 2), (2, 1), (2, 3)]), (0, []), (2, [(0, 1), (0, 1)]), (2, []), (4, [(0, 3), (1, 2), (2, 3)])]


def reverse_vec(ctx):
    """Three FSAs out of 6 structures up to 4 states and 5 arcs, some empty; labels 0..1 (0..2) with epsilon; strings up to length 2."""
    hi = ctx.params['hi']
    As = [topo_vars(ctx, f'{i}', TR if i == 1 else [TR[2], TR[3], TR[5]] if i else TR[:3], labels=(0, hi), score=(-2, 1)) for i in range(3)]
    for a in As:
        for x in a.arcs:
            ctx.assume((x['label'] != 0) | (x['score'] <= 0))
    w = wt_strings(ctx, 2, (1, hi))
    g = k2.reverse(build_vec(As, attrs=True))
    o = out_vec(g)
    ctx.check(len(o) == 3, 'reverse: number of FSAs')
    k = 0
    for a, b in zip(As, o):
        m = [int(x['tag']) - 1 for x in b.arcs]
        ctx.check(all(v < 0 or k <= v < k + len(a.arcs) for v in m), 'reverse: arcs stay in their FSA')
        ctx.check(sorted(v for v in m if v >= 0) == list(range(k, k + len(a.arcs))), 'reverse: every arc appears once')
        k += len(a.arcs)
        well_formed(ctx, b, 'reverse')
        same_language(ctx, lambda s: weight(a, s[::-1]), b, w, True, 'reverse: language')


TI = [(3, [(0, 1), (0, 2), (1, 2)]), (3, [(0, 0), (0, 1), (1, 0), (1, 2)]), (2, [(0, 1), (0, 1)])]


def invert(ctx):
    """One of 3 structures up to 3 states and 4 arcs, labels and auxiliary labels 0..2 (also as a method, in place or not)."""
    a = topo_vars(ctx, '', TI, labels=(0, 2), aux=(0, 2))
    f = build(a, attrs=True)
    how = ctx.choose('how', ['function', 'map', 'method', 'inplace'])
    if how == 'map':
        g, am = k2.invert(f, ret_arc_map=True)
        ctx.check(ints(rd(am)) == list(range(len(a.arcs))), 'invert: arc map')
    else:
        g = {'function': lambda: k2.invert(f), 'method': f.invert, 'inplace': lambda: f.clone().invert_()}[how]()
    o = out_fsa(g)
    ctx.check(len(o.arcs) == len(a.arcs), 'invert: arc count')
    for x, y in zip(o.arcs, a.arcs):
        ctx.check((x['src'] == y['src']) & (x['dst'] == y['dst']) & (x['score'] == y['score']), 'invert: arcs kept')
        ctx.check((x['label'] == y['aux_labels']) & (x['aux_labels'] == y['label']), 'invert: labels swapped')
    check_attrs(ctx, o.arcs, g, list(range(len(a.arcs))), 'invert')
    p = g.properties
    ctx.check(SB((p & k2.fsa_properties.EPSILON_FREE) != 0) == all_(y['aux_labels'] != 0 for y in a.arcs), 'invert: properties are those of the new labels')
    for x, y in zip(out_fsa(f).arcs, a.arcs):
        ctx.check((x['label'] == y['label']) & (x['aux_labels'] == y['aux_labels']), 'invert: input unchanged')


def invert_ragged(ctx):
    """One of 3 structures up to 4 arcs (with a cycle only of labels 1..2) whose auxiliary labels are sequences of length 0 to 2; all pairs of strings up to length 2 by 2."""
    a = topo_vars(ctx, '', TI, labels=(0, 2))
    rows = []
    for i, x in enumerate(a.arcs):
        n = ctx.choose(f'n{i}', [0, 1, 2] if x['dst'].v != a.n - 1 else [1, 2])
        r = [ctx.int(f'r{i}_{j}', 1, 2) for j in range(n)]
        if x['dst'].v == a.n - 1:
            r = r[:-1] + [SI(-1)]
        rows.append(r)
        x['aux'] = r
        ctx.assume((x['label'] != 0) | SB(len(a.arcs) < 4))
    f = build(a)
    sp = [0]
    for r in rows:
        sp.append(sp[-1] + len(r))
    f.aux_labels = k2.RaggedTensor(k2.ragged.create_ragged_shape2(row_splits=torch.tensor(sp, dtype=torch.int32), cached_tot_size=sp[-1]),
                                   wr([v for r in rows for v in r], torch.int32, (sp[-1],)))
    f.tag = torch.arange(1, len(a.arcs) + 1, dtype=torch.int32)
    vec = ctx.choose('vec', [False, True])
    if vec:
        f = k2.create_fsa_vec([f])
    g, am = k2.invert(f, ret_arc_map=True)
    o = out_vec(g)[0] if vec else out_fsa(g)
    well_formed(ctx, o, 'invert')
    for x, m in zip(o.arcs, ints(rd(am))):
        ctx.check(x['score'] == (a.arcs[m]['score'] if m >= 0 else 0), 'invert: score of a mapped arc')
        ctx.check(x['tag'] == m + 1, 'invert: attribute of a mapped arc')
    w = wt_strings(ctx, 2, (1, 2))
    v = wt_strings(ctx, 2, (1, 2), 'y')
    for i, j in ctx.params['pairs']:
        ctx.check(relation(a, w[:i], v[:j], aux='aux', rounds=max(i + 1, 2)) == relation(o, v[:j], w[:i], rounds=2 * max(i + 1, 2)), f'invert: relation ({i}, {j})')


HARNESSES = [Harness(union, params=dict(k=2)), Harness(union, 'union3', params=dict(k=3)),
             Harness(closure, params=dict(n=3, m=3)), Harness(closure_topo), Harness(closure_start),
             Harness(reverse, params=dict(n=3, m=3)), Harness(reverse_vec, params=dict(hi=1)), Harness(reverse_vec, 'reverse_vec2', params=dict(hi=2, thorough_only=True)), Harness(invert),
             Harness(invert_ragged, params=dict(pairs=[(0, 0), (1, 0), (1, 1), (0, 1), (1, 2)]))]
