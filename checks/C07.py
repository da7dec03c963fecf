"""Determinization."""
from hlp import *
from explore import Harness

P = k2.fsa_properties
WP = k2.DeterminizeWeightPushingType if hasattr(k2, 'DeterminizeWeightPushingType') else _k2.DeterminizeWeightPushingType
TYPES = [WP.kNoWeightPushing, WP.kTropicalWeightPushing, WP.kLogWeightPushing]
T = [(3, [(0, 1), (0, 1), (1, 2)]), (4, [(0, 1), (0, 2), (1, 3), (2, 3)]), (4, [(0, 1), (0, 2), (1, 2), (2, 3)]),
     (3, [(0, 0), (0, 1), (1, 2)]), (2, [(0, 1), (0, 1)]), (4, [(0, 1), (0, 2), (1, 2), (1, 2), (2, 3)]), (0, []),
     (5, [(0, 1), (0, 2), (1, 3), (2, 3), (2, 3), (3, 4)]), (3, [(0, 1), (0, 2), (0, 1), (1, 1), (1, 2)]),
     (5, [(0, 1), (0, 2), (1, 4), (2, 3), (3, 4)])]


def deterministic(ctx, o, msg):
    for i, x in enumerate(o.arcs):
        for y in o.arcs[:i]:
            if int(x['src']) == int(y['src']):
                ctx.check(x['label'] != y['label'], f'{msg}: one arc per label and state')


def mark(f, n):
    f.tag = torch.arange(1, n + 1, dtype=torch.int32)
    f.fa = torch.arange(1, n + 1, dtype=torch.float32) * 0.5
    f.rag = k2.RaggedTensor([[i + 1] * (i % 3) for i in range(n)], dtype=torch.int32)
    f.two = torch.arange(1, n + 1, dtype=torch.int32) % 3
    f.two_filler = 2
    f.plain = 'p'


def derivs(ctx, src, out, msg, base=0, scores=True, fill=False):
    """The attributes give the source arcs of each arc of out: check them; returns the lists of arc numbers."""
    res = []
    for x in out.arcs:
        d = [int(v) - 1 - base for v in x['tag']]
        ctx.check(all(0 <= v < len(src) for v in d), f'{msg}: source arcs in range')
        if not all(0 <= v < len(src) for v in d):
            return None
        ctx.check(x['fa'] == sum(0.5 * (v + base + 1) for v in d), f'{msg}: float attribute is the sum')
        r = [v + base + 1 for v in d for _ in range((v + base) % 3)]
        ctx.check(len(r) == len(x['rag']) and all_(a == b for a, b in zip(x['rag'], r)), f'{msg}: ragged attribute')
        r = [(v + base + 1) % 3 for v in d if fill or (v + base + 1) % 3 != 2]
        ctx.check(len(r) == len(x['two']) and all_(a == b for a, b in zip(x['two'], r)), f'{msg}: int attribute without fillers')
        if 'aux_labels' in x:
            r = [src[v]['aux_labels'] for v in d]
            r = [v for v in r if fill or not (v == 0) and not (v == -1)]  # forks
            ctx.check(len(r) == len(x['aux_labels']) and all_(a == b for a, b in zip(x['aux_labels'], r)), f'{msg}: auxiliary labels')
        for p, q in zip(d, d[1:]):
            ctx.check(src[p]['dst'] == src[q]['src'], f'{msg}: source arcs are consecutive')
        if scores:
            ctx.check(x['score'] == ssum([src[v]['score'] for v in d]) if d else x['score'] == 0, f'{msg}: score is the sum of the source arcs')
        res.append(d)
    return res


def paths(o, n):
    """All accepting paths with up to n arcs, as lists of arc indexes."""
    res = []

    def rec(s, p):
        if s == o.n - 1:
            res.append(p)
            return
        if len(p) == n:
            return
        for i, x in enumerate(o.arcs):
            if int(x['src']) == s:
                rec(int(x['dst']), p + [i])
    if o.n:
        rec(0, [])
    return res


def det_ok(ctx, a, o, f, typ, w, msg, base=0, attrs=True):
    deterministic(ctx, o, msg)
    if o.arcs:
        well_formed(ctx, o, msg)
    same_language(ctx, a, o, w, False, f'{msg}: weight')
    if not attrs:
        return
    ds = derivs(ctx, a.arcs, o, msg, base, scores=typ == TYPES[0])
    if ds is None:
        return
    for p in paths(o, 4):
        d = [v for i in p for v in ds[i]]
        ok = bool(d) and int(a.arcs[d[0]]['src']) == 0 and int(a.arcs[d[-1]]['dst']) == a.n - 1
        ok = ok and len(d) == len(p) and all(int(a.arcs[x]['dst']) == int(a.arcs[y]['src']) for x, y in zip(d, d[1:]))
        ctx.check(ok, f'{msg}: the source arcs along a path are a path')
        if ok:
            ctx.check(all_(o.arcs[i]['label'] == a.arcs[v]['label'] for i, v in zip(p, d)), f'{msg}: labels of the source path')
            ctx.check(ssum([o.arcs[i]['score'] for i in p]) == ssum([a.arcs[v]['score'] for v in d]), f'{msg}: weight of the source path')


def det(ctx):
    """One FSA out of 9 connected structures up to 5 states and 6 arcs (a cycle, duplicated labels), labels 1..2, with
    auxiliary labels 0..2, no or tropical weight pushing; strings up to length 2 (3)."""
    typ = TYPES[ctx.choose('type', [0, 1])]
    a = topo_vars(ctx, '', [t for t in T if t[0]], labels=(1, 2), score=(-2, 1), aux=(0, 2) if ctx.params.get('aux') else None)
    w = wt_strings(ctx, ctx.params['L'], (1, 2))
    f = build(a)
    mark(f, len(a.arcs))
    before = out_fsa(f)
    g = k2.determinize(f, typ)
    if g is f:
        ctx.check(f.properties & P.ARC_SORTED_AND_DETERMINISTIC != 0, 'determinize: input returned only if it is deterministic')
        deterministic(ctx, a, 'determinize')
        return
    det_ok(ctx, a, out_fsa(g), g, typ, w, 'determinize')
    ctx.check(g.plain == 'p', 'determinize: plain attribute')
    for x, y in zip(out_fsa(f).arcs, a.arcs):
        ctx.check((x['label'] == y['label']) & (x['score'] == y['score']), 'determinize: input unchanged')


def det_vec(ctx):
    """A batch of 1 to 3 FSAs out of 5 structures (also empty)."""
    n = ctx.choose('n', [2, 1, 3])
    As = [topo_vars(ctx, f'{i}', [T[0], T[6], T[1]] if i == 0 else [T[4], T[0]] if i == 1 else [T[2]], labels=(0, 1), score=(-2, 1)) for i in range(n)]
    w = wt_strings(ctx, 2, (0, 1))
    f = build_vec(As)
    src = [x for a in As for x in a.arcs]
    mark(f, len(src))
    if len(src) == 0:
        return
    g = k2.determinize(f)
    if g is f:
        for a in As:
            deterministic(ctx, a, 'determinize')
        return
    o = out_vec(g)
    ctx.check(len(o) == n, 'determinize: number of FSAs')
    base = 0
    for a, b in zip(As, o):
        det_ok(ctx, a, b, g, TYPES[0], w, 'determinize', base)
        base += len(a.arcs)


def det_log(ctx):
    """The same with log-semiring weight pushing, over the reals: 4 structures up to 4 states and 4 arcs; strings up to length 2."""
    n, t = ctx.choose('topo', [T[0], T[1], T[2], T[4]])
    arcs = []
    for i, (s, d) in enumerate(t):
        lab = ctx.int(f'l{i}', 1, 2) if d != n - 1 else SI(-1)
        arcs.append({'src': SI(s), 'dst': SI(d), 'label': lab, 'score': ctx.real(f'w{i}', -1, 1)})
    a = A(n, arcs)
    f = build(a)
    g = k2.determinize(f, TYPES[2])
    if g is f:
        return
    o = out_fsa(g)
    deterministic(ctx, o, 'determinize')
    for p in paths(o, 4):
        labs = [int(o.arcs[i]['label']) for i in p]
        cand = [q for q in paths(a, 4) if len(q) == len(p) and all(int(a.arcs[v]['label']) == l for v, l in zip(q, labs))]
        ctx.check(bool(cand), 'determinize: accepted strings')
        if cand:
            ctx.check(close(ssum([o.arcs[i]['score'] for i in p]), smax([ssum([a.arcs[v]['score'] for v in q]) for q in cand])), 'determinize: weight')
    n_out = len(paths(o, 4))
    strs = {tuple(int(a.arcs[v]['label']) for v in q) for q in paths(a, 4)}
    ctx.check(n_out == len(strs), 'determinize: number of strings')


HARNESSES = [Harness(det, params=dict(L=2)), Harness(det, 'det_aux', params=dict(L=1, aux=True)), Harness(det_vec),
             Harness(det_log, domain='exp'), Harness(det, 'det3', params=dict(L=3, aux=True, thorough_only=True))]
QUICK_S = 60
