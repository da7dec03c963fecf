"""Epsilon removal and epsilon self-loops."""
from hlp import *
from explore import Harness
from C07 import derivs, mark

P = k2.fsa_properties
# acyclic and sorted: the host algorithm
T = [(3, [(0, 1), (0, 2), (1, 2)]), (4, [(0, 1), (1, 2), (2, 3)]), (4, [(0, 1), (0, 2), (1, 2), (1, 3), (2, 3)]), (3, [(0, 1), (0, 1), (1, 2)]),
     (2, [(0, 1)]), (0, []), (5, [(0, 1), (0, 2), (1, 3), (2, 3), (3, 4)]), (5, [(0, 1), (1, 2), (2, 3), (3, 4)])]
# cycles or not sorted: the device algorithm
U = [(3, [(0, 0), (0, 1), (1, 2)]), (4, [(0, 2), (1, 3), (2, 1)]), (3, [(0, 1), (1, 0), (1, 2)]), (4, [(0, 1), (1, 1), (1, 2), (2, 1), (2, 3)]),
     (4, [(0, 1), (0, 2), (1, 2), (2, 1), (2, 3)]), (4, [(0, 1), (1, 2), (1, 3), (2, 0), (2, 3)])]


def eps_arcs(ctx, a):
    for x in a.arcs:
        ctx.assume((x['label'] != 0) | (x['score'] <= 0))


def rm_ok(ctx, a, o, w, msg, base=0, loops=False, attrs=True, fill=False):
    if o.arcs:
        well_formed(ctx, o, msg)
    for x in o.arcs:
        lp = int(x['src']) == int(x['dst'])
        ctx.check(x['label'] != 0 if not (loops and lp) else True, f'{msg}: no epsilon left')
    if loops:
        for s in range(o.n - 1):
            c = [x for x in o.arcs if int(x['src']) == s and int(x['dst']) == s and x['label'] == 0]  # forks
            ctx.check(len(c) == 1 and c[0]['score'] == 0, f'{msg}: one free epsilon self-loop per state')
    same_language(ctx, a, o, w, True, f'{msg}: weight')
    if not attrs:
        return
    ds = derivs(ctx, a.arcs, o, msg, base, fill=fill)
    if ds is None:
        return
    for d, x in zip(ds, o.arcs):
        if not d:
            ctx.check(SB(loops) & (x['label'] == 0), f'{msg}: only added loops have no source arc')
            continue
        labs = [a.arcs[v]['label'] for v in d]
        ctx.check(ssum([SF(0)]) == 0 and sum_(l != 0 for l in labs) == 1, f'{msg}: one label per arc')
        ctx.check(any_(l == x['label'] for l in labs), f'{msg}: label of the source arcs')
        if int(x['src']) == 0:
            ctx.check(a.arcs[d[0]]['src'] == 0, f'{msg}: paths from the start state')
        if int(x['dst']) == o.n - 1:
            ctx.check(a.arcs[d[-1]]['dst'] == a.n - 1, f'{msg}: paths to the final state')
        for e, y in zip(ds, o.arcs):
            if e and int(x['dst']) == int(y['src']):
                ctx.check(a.arcs[d[-1]]['dst'] == a.arcs[e[0]]['src'], f'{msg}: the source arcs along a path are a path')


def sum_(it):
    r = SI(0)
    for c in it:
        r = r + ite(c, SI(1), SI(0))
    return r


def rm(ctx):
    """remove_epsilon() and remove_epsilon_and_add_self_loops() of one FSA out of the structures (up to 5 states and 5 arcs;
    acyclic for the host algorithm, with cycles or unsorted for the device algorithm), labels 0..2, auxiliary labels 0..1; strings up to length 2;
    fillers removed from the attributes, or kept."""
    a = topo_vars(ctx, '', ctx.params['T'], labels=(0, ctx.params['hi']), score=(-2, 1), aux=(0, 1) if ctx.params.get('aux') else None)
    eps_arcs(ctx, a)
    w = wt_strings(ctx, ctx.params['L'], (1, ctx.params['hi']))
    f = build(a)
    mark(f, len(a.arcs))
    loops = ctx.params['loops']
    if loops and all(x['label'] != 0 for x in a.arcs):
        g = k2.remove_epsilon_and_add_self_loops(f)
        o = out_fsa(g)
        same_language(ctx, a, o, w, True, 'remove_epsilon_and_add_self_loops: weight')
        ctx.check(len(o.arcs) == len(a.arcs) + a.n - 1, 'remove_epsilon_and_add_self_loops: number of arcs')
        return
    fill = bool(ctx.params.get('fill'))
    g = k2.remove_epsilon_and_add_self_loops(f, remove_filler=not fill) if loops else k2.remove_epsilon(f)
    o = out_fsa(g)
    if loops:
        for x in o.arcs:
            x['two'] = [v for v in x['two']]
    rm_ok(ctx, a, o, w, 'remove_epsilon_and_add_self_loops' if loops else 'remove_epsilon', loops=loops, fill=fill)
    ctx.check(g.plain == 'p', 'remove_epsilon: plain attribute')
    if not loops:
        ctx.check(g.properties & P.EPSILON_FREE != 0, 'remove_epsilon: properties')


def rm_vec(ctx):
    """The same for a batch of 2 or 3 FSAs out of 5 structures (also empty), all acyclic and sorted or not."""
    dev = ctx.params['dev']
    S = [[U[0], T[5], U[2]], [U[1], T[4]], [T[0]]] if dev else [[T[0], T[5], T[1]], [T[3], T[4]], [T[1]]]
    n = ctx.choose('n', [2, 3])
    As = [topo_vars(ctx, f'{i}', S[i], labels=(0, 1), score=(-2, 1)) for i in range(n)]
    for a in As:
        eps_arcs(ctx, a)
    w = wt_strings(ctx, 2, (1, 1))
    f = build_vec(As)
    mark(f, sum(len(a.arcs) for a in As))
    g = k2.remove_epsilon(f)
    o = out_vec(g)
    ctx.check(len(o) == n, 'remove_epsilon: number of FSAs')
    base = 0
    for a, b in zip(As, o):
        rm_ok(ctx, a, b, w, 'remove_epsilon', base)
        base += len(a.arcs)


def loops(ctx):
    """add_epsilon_self_loops() and remove_epsilon_self_loops() of an FSA or a batch of 1 to 3 FSAs out of 7 structures
    (also empty or without arcs), labels 0..1."""
    S = [(3, [(0, 0), (0, 1), (0, 0), (1, 1), (1, 2)]), T[5], T[0], (2, []), (2, [(0, 0), (0, 1)])]
    n = ctx.choose('n', [0, 1, 2, 3])
    As = [topo_vars(ctx, f'{i}', S if i == 0 and n else S[:4] if i == 1 else [S[0], S[2], S[4]], labels=(0, 1)) for i in range(max(n, 1))]
    src = [x for a in As for x in a.arcs]
    if n == 0:
        f = build(As[0])
    else:
        f = build_vec(As)
    attrs = bool(src)
    if attrs:
        add_attrs(f, len(src))
    add = ctx.choose('add', [True, False])
    rd_ = (lambda g: [out_fsa(g)]) if n == 0 else out_vec
    if add:
        g, am = k2.add_epsilon_self_loops(f, ret_arc_map=True)
        am = ints(rd(am))
    else:
        g = k2.remove_epsilon_self_loops(f)
    o = rd_(g)
    ctx.check(len(o) == len(As) and [b.n for b in o] == [a.n for a in As], 'self-loops: states unchanged')
    flat = [x for b in o for x in b.arcs]
    if not add:
        if attrs:
            am = [int(x['tag']) - 1 for x in flat]
        else:
            ctx.check(not flat, 'self-loops: arcs')
            return
    ctx.check(len(am) == len(flat), 'self-loops: arc map length')
    if attrs:
        check_attrs(ctx, flat, g, am, 'self-loops')
    for x, m in zip(flat, am):
        if m >= 0:
            y = src[m]
            ctx.check((x['src'] == y['src']) & (x['dst'] == y['dst']) & (x['label'] == y['label']) & (x['score'] == y['score']), 'self-loops: a kept arc')
        else:
            ctx.check((x['src'] == x['dst']) & (x['label'] == 0) & (x['score'] == 0) & SB(add), 'self-loops: a new arc')
    kept = [m for m in am if m >= 0]
    base = i = 0
    for a, b in zip(As, o):
        m = am[i:i + len(b.arcs)]
        i += len(b.arcs)
        ctx.check(all(v < 0 or base <= v < base + len(a.arcs) for v in m), 'self-loops: arcs stay in their FSA')
        if add:
            new = [int(x['src']) for x, v in zip(b.arcs, m) if v < 0]
            ctx.check(sorted(new) == list(range(max(a.n - 1, 0))), 'self-loops: one new loop for each state but the last')
            for x, y in zip(b.arcs, b.arcs[1:]):
                ctx.check(x['src'] <= y['src'], 'self-loops: arcs grouped by source state')
        base += len(a.arcs)
    if add:
        ctx.check(sorted(kept) == list(range(len(src))), 'self-loops: every arc is kept')
    else:
        ctx.check(kept == sorted(set(kept)), 'self-loops: arcs in order')
        for k, y in enumerate(src):
            loop = (y['src'] == y['dst']) & (y['label'] == 0)
            ctx.check(loop == SB(k not in kept), 'self-loops: exactly the epsilon self-loops are removed')


HARNESSES = [Harness(rm, 'host', params=dict(T=T[:5] + T[6:], hi=1, L=2, loops=False)),
             Harness(rm, 'host_aux', params=dict(T=T[:2] + T[3:5], hi=1, L=1, loops=False, aux=True)),
             Harness(rm, 'host_loops', params=dict(T=T[:5], hi=1, L=1, loops=True)),
             Harness(rm, 'fillers', params=dict(T=[T[0], T[1], U[0]], hi=1, L=1, loops=True, aux=True, fill=True)),
             Harness(rm, 'device', params=dict(T=U, hi=1, L=2, loops=False)),
             Harness(rm, 'device_loops', params=dict(T=U[:3], hi=1, L=1, loops=True)),
             Harness(rm_vec, params=dict(dev=False)), Harness(rm_vec, 'device_vec', params=dict(dev=True)),
             Harness(loops),
             Harness(rm, 'host2', params=dict(T=T[:5] + T[6:], hi=2, L=3, loops=False, aux=True, thorough_only=True)),
             Harness(rm, 'device2', params=dict(T=U, hi=2, L=3, loops=False, aux=True, thorough_only=True))]
QUICK_S = 60
