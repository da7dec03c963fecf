"""Arc sorting, topological sorting and connecting."""
from hlp import *
from explore import Harness

P = k2.fsa_properties


def perm(ctx, m, n, msg):
    ctx.check(sorted(m) == list(range(n)), f'{msg}: arc map is a permutation')


def sorted_arcs(ctx, arcs, msg):
    for x, y in zip(arcs, arcs[1:]):
        same = x['src'] == y['src']
        ctx.check(implies(same, (y['label'] == -1) | (x['label'] != -1) & (x['label'] <= y['label'])), f'{msg}: labels of a state sorted')
        ctx.check(implies(same & (x['label'] == y['label']), x['dst'] <= y['dst']), f'{msg}: destinations sorted for equal labels')


def arcsort(ctx):
    """One FSA with 3 states and 4 arcs: any sources, destinations, labels 0..2, scores, or already sorted."""
    a = arcs_vars(ctx, '', ctx.params['n'], ctx.params['m'])
    f = build(a, attrs=True)
    before = out_fsa(f)
    g, m = k2.arc_sort(f, ret_arc_map=True)
    o, m = out_fsa(g), ints(rd(m))
    perm(ctx, m, len(a.arcs), 'arc_sort')
    well_formed(ctx, o, 'arc_sort')
    sorted_arcs(ctx, o.arcs, 'arc_sort')
    check_maps(ctx, a.arcs, o.arcs, m, 'arc_sort', ('src', 'dst', 'label', 'score'))
    check_attrs(ctx, o.arcs, g, m, 'arc_sort')
    ctx.check(g.properties & P.ARC_SORTED != 0, 'arc_sort: the result has the sorted property')
    after = out_fsa(f)
    for x, y in zip(before.arcs, after.arcs):
        ctx.check((x['src'] == y['src']) & (x['dst'] == y['dst']) & (x['label'] == y['label']) & (x['score'] == y['score']), 'arc_sort: input unchanged')


T3 = [(3, [(0, 1), (0, 1), (0, 2), (1, 2)]), (3, [(0, 0), (0, 1), (1, 0), (1, 2)]), (0, []), (2, [(0, 1)]), (2, [])]


def arcsort_vec(ctx):
    """An FsaVec of 3 FSAs, each one of 5 structures with up to 3 states and 4 arcs, some empty."""
    As = [topo_vars(ctx, f'{i}', T3 if i != 1 else T3[1:]) for i in range(3)]
    f = build_vec(As, attrs=True)
    g, m = k2.arc_sort(f, ret_arc_map=True)
    o, m = out_vec(g), ints(rd(m))
    src = [x for a in As for x in a.arcs]
    ctx.check(len(o) == 3, 'arc_sort: number of FSAs')
    ctx.check([b.n for b in o] == [a.n for a in As] and [len(b.arcs) for b in o] == [len(a.arcs) for a in As], 'arc_sort: shape')
    perm(ctx, m, len(src), 'arc_sort')
    flat = [x for b in o for x in b.arcs]
    k = 0
    for a, b in zip(As, o):
        sorted_arcs(ctx, b.arcs, 'arc_sort')
        ctx.check(all(k <= v < k + len(a.arcs) for v in m[k:k + len(a.arcs)]), 'arc_sort: arcs stay in their FSA')
        k += len(a.arcs)
    check_maps(ctx, src, flat, m, 'arc_sort', ('src', 'dst', 'label', 'score'))
    if flat:
        check_attrs(ctx, flat, g, m, 'arc_sort')


def topsort(ctx):
    """One FSA with 4 or 5 states and 4 arcs: any acyclic structure without arcs into state 0, in any state order; strings up to length 3."""
    a = arcs_vars(ctx, '', ctx.params['n'], ctx.params['m'], labels=(0, 1))
    acyclic_perm(ctx, '', a)
    w = wt_strings(ctx, a.n - 2, (0, 1))
    f = build(a, attrs=True)
    g = k2.top_sort(f)
    o = out_fsa(g)
    m = [int(x['tag']) - 1 for x in o.arcs]
    ctx.check(len(set(m)) == len(m), 'top_sort: no arc is used twice')
    for x in o.arcs:
        ctx.check(x['src'] < x['dst'], 'top_sort: every arc goes forward')
    well_formed(ctx, o, 'top_sort')
    check_maps(ctx, a.arcs, o.arcs, m, 'top_sort')
    check_attrs(ctx, o.arcs, g, m, 'top_sort')
    ctx.check(g.properties & P.TOPSORTED != 0 and g.properties & P.TOPSORTED_AND_ACYCLIC != 0, 'top_sort: properties')
    same_language(ctx, a, o, w, False, 'top_sort: language')


TA = [(4, [(0, 2), (1, 3), (2, 1), (2, 3)]), (4, [(0, 1), (0, 2), (1, 3), (2, 1)]), (3, [(0, 1), (0, 0), (1, 1), (1, 2)]),
      (2, [(0, 1), (0, 1)]), (5, [(0, 3), (1, 4), (2, 1), (3, 2), (3, 4)])]


def topsort_vec(ctx):
    """Two FSAs of 5 acyclic structures (up to 5 states, 5 arcs, self-loops allowed) in either order."""
    As = [topo_vars(ctx, f'{i}', [TA[0], TA[4], TA[2], TA[3], TA[1]]) for i in range(2)]
    f = build_vec(As, attrs=True)
    o = out_vec(k2.top_sort(f))
    ctx.check(len(o) == 2, 'top_sort: number of FSAs')
    src = [x for a in As for x in a.arcs]
    w = wt_strings(ctx, 4, (0, 2))
    for a, b in zip(As, o):
        for x in b.arcs:
            ctx.check(x['src'] <= x['dst'], 'top_sort: every arc goes forward')
        check_maps(ctx, src, b.arcs, [int(x['tag']) - 1 for x in b.arcs], 'top_sort')
        same_language(ctx, a, b, w, False, 'top_sort: language')


def conn(ctx):
    """One FSA with 4 states and 4 arcs of any structure, cycles and useless states included; strings up to length 3."""
    a = arcs_vars(ctx, '', ctx.params['n'], ctx.params['m'], labels=(0, 1))
    w = wt_strings(ctx, a.n - 1, (0, 1))
    f = build(a, attrs=True)
    g = k2.connect(f)
    o = out_fsa(g)
    m = [int(x['tag']) - 1 for x in o.arcs]
    ctx.check(len(set(m)) == len(m), 'connect: no arc is used twice')
    check_maps(ctx, a.arcs, o.arcs, m, 'connect')
    check_attrs(ctx, o.arcs, g, m, 'connect')
    if o.n:
        well_formed(ctx, o, 'connect')
        ctx.check(all_(reach(o, 0)) & all_(reach(o, o.n - 1, True)), 'connect: every state is on a successful path')
    same_language(ctx, a, o, w, False, 'connect: language')


TC = [(4, [(0, 1), (0, 3), (2, 3), (2, 1)]), (4, [(0, 2), (1, 3), (2, 0), (2, 3)]), (3, [(0, 1), (1, 0)]), (0, []),
      (2, [(0, 1)]), (2, [(0, 0)]), (3, [(1, 2)])]


def conn_vec(ctx):
    """Three FSAs out of 7 structures (empty, useless states, no successful path, cycles)."""
    As = [topo_vars(ctx, f'{i}', TC if i == 1 else TC[:4] if i else TC[3:]) for i in range(3)]
    g = k2.connect(build_vec(As, attrs=True))
    o = out_vec(g)
    ctx.check(len(o) == 3, 'connect: number of FSAs')
    src = [x for a in As for x in a.arcs]
    w = wt_strings(ctx, 3, (0, 2))
    k = 0
    for a, b in zip(As, o):
        m = [int(x['tag']) - 1 for x in b.arcs]
        ctx.check(all(k <= v < k + len(a.arcs) for v in m) and len(set(m)) == len(m), 'connect: arcs stay in their FSA')
        k += len(a.arcs)
        check_maps(ctx, src, b.arcs, m, 'connect')
        if b.n:
            ctx.check(all_(reach(b, 0)) & all_(reach(b, b.n - 1, True)), 'connect: every state is on a successful path')
        same_language(ctx, a, b, w, False, 'connect: language')


HARNESSES = [Harness(arcsort, params=dict(n=3, m=3)), Harness(arcsort, 'arcsort4', params=dict(n=3, m=4, thorough_only=True)),
             Harness(arcsort_vec),
             Harness(topsort, params=dict(n=4, m=3)), Harness(topsort, 'topsort5', params=dict(n=5, m=4)), Harness(topsort_vec),
             Harness(conn, params=dict(n=4, m=3)), Harness(conn, 'conn4', params=dict(n=4, m=4)), Harness(conn_vec)]
