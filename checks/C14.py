"""Graphs made from symbols: linear FSAs, CTC topologies and graphs, Levenshtein graphs and alignments."""
from hlp import *
from explore import Harness


def cnt(c):
    return ite(c, SI(1), SI(0))


def near(a, b):
    d = sf(a) - sf(b)
    return (d <= 1e-3) & (d >= -1e-3)


def isum(it):
    r = SI(0)
    for x in it:
        r = r + x
    return r


def num(a, x, y=None):
    """Number of paths that read x (0 is a symbol like any other) and write y (0 is epsilon), or anything."""
    J = len(y) + 1 if y is not None else 1
    cur = {(0, 0): SI(1)}
    for c in list(x) + [-1]:
        nxt = {}
        for k in a.arcs:
            on = k['label'] == c
            for j in range(J):
                v = cur.get((int(k['src']), j))
                if v is None:
                    continue
                d = int(k['dst'])
                if y is None:
                    nxt.setdefault((d, 0), []).append(ite(on, v, SI(0)))
                    continue
                o = k['aux_labels']
                nxt.setdefault((d, j), []).append(ite(on & ((o == 0) | (o == -1)), v, SI(0)))
                if j < len(y):
                    nxt.setdefault((d, j + 1), []).append(ite(on & (o == y[j]), v, SI(0)))
        cur = {k: isum(v) for k, v in nxt.items()}
    return cur.get((a.n - 1, J - 1), SI(0))


def ways(w, s, modified):
    """Number of ways to cut w into blanks and runs of one symbol so that the runs spell s.  Unless modified, a run is as long as it can be."""
    J = len(s) + 1
    cur = [SI(1)] + [SI(0)] * (J - 1)
    for i, c in enumerate(w):
        prev = w[i - 1] if i else SI(0)
        nxt = []
        for j in range(J):
            v = ite(c == 0, cur[j], SI(0))
            go = ite((c != 0) & (c == prev), cur[j], SI(0))           # goes on with a run
            st = (c != 0) & (SB(True) if modified else c != prev)
            beg = ite(st & (c == s[j - 1]), cur[j - 1], SI(0)) if j else SI(0)
            nxt.append(v + go + beg)
        cur = nxt
    return cur[-1]


def plain(ctx, f, msg):
    for x in rd(f.scores):
        ctx.check(x == 0, f'{msg}: scores are 0')


def chain(ctx, b, s, msg):
    """b is the linear FSA of s."""
    ctx.check(b.n == len(s) + 2 and len(b.arcs) == len(s) + 1, f'{msg}: size')
    for i, (x, l) in enumerate(zip(b.arcs, list(s) + [-1])):
        ctx.check((x['src'] == i) & (x['dst'] == i + 1) & (x['label'] == l) & (x['score'] == 0), f'{msg}: arcs')


def linear(ctx):
    """linear_fsa() and linear_fst() of a list, a list of lists or a ragged tensor: up to 3 sequences of up to 3 symbols 0..2 (symbolic in the
    ragged form), also empty ones."""
    form = ctx.choose('form', ['list', 'lists', 'ragged', 'fst', 'fsts'])
    if form in ('list', 'fst'):
        s = ctx.choose('s', [[], [1], [0, 2], [5, 5, 7], [3, 0, 1]])
        if form == 'list':
            chain(ctx, out_fsa(k2.linear_fsa(s)), s, 'linear_fsa')
        else:
            y = [v * 2 + 1 for v in s]
            f = k2.linear_fst(s, y)
            b = out_fsa(f)
            chain(ctx, b, s, 'linear_fst')
            ctx.check(eq([x['aux_labels'] for x in b.arcs], y + [-1]), 'linear_fst: aux labels')
        return
    if form == 'ragged':
        s = nest(ctx, 'a', [(0, 3), (0, 3)], lo=0, hi=2)
        f = k2.linear_fsa(mk(s, 2))
    else:
        s = ctx.choose('s', [[[1, 2], [3]], [[], [1, 0, 2]], [[4]], [[], []], [[1], [], [2, 2]]])
        y = [[v + 10 for v in z] for z in s]
        f = k2.linear_fsa(s) if form == 'lists' else k2.linear_fst(s, y)
        if form == 'fsts':
            ctx.check(eq(rd(f.aux_labels), join([z + [-1] for z in y])), 'linear_fst: aux labels')
    o = out_vec(f)
    ctx.check(len(o) == len(s), 'linear_fsa: number of FSAs')
    for b, z in zip(o, s):
        chain(ctx, b, z, 'linear_fsa')


def loops(ctx):
    """linear_fsa_with_self_loops() and linear_fst_with_self_loops() of an FSA or a batch of 1 or 2: up to 3 arcs before the final one, labels 0..2,
    auxiliary labels 0..2, scores -2..2, and the gradient."""
    vec = ctx.choose('vec', [False, True])
    fst = ctx.choose('fst', [False, True])
    n = ctx.choose('n', [1, 2]) if vec else 1
    As = []
    for i in range(n):
        m = ctx.choose(f'm{i}', [3, 0, 1, 2])
        As.append(arcs_vars(ctx, f'{i}', m + 2, m + 1, topo=[(k, k + 1) for k in range(m + 1)], aux=(0, 2), score=(-2, 2)))
    f = build_vec(As) if vec else build(As[0])
    sc = f.scores.detach().clone().requires_grad_(True)
    f.scores = sc
    g = (k2.linear_fst_with_self_loops if fst else k2.linear_fsa_with_self_loops)(f)
    o = out_vec(g) if vec else [out_fsa(g)]
    ctx.check(len(o) == n, 'self-loops: number of FSAs')
    msg = 'linear_fst_with_self_loops' if fst else 'linear_fsa_with_self_loops'
    groups = []
    for a, b in zip(As, o):
        # arcs of the input that share an arc: epsilons and the arc after them
        grp, cur = [], []
        for k, x in enumerate(a.arcs):
            cur.append(k)
            if not bool(x['label'] == 0):
                grp.append(cur)
                cur = []
        ctx.check(b.n == len(grp) + 1 and len(b.arcs) == 2 * len(grp), f'{msg}: size')
        if len(b.arcs) != 2 * len(grp):
            return
        rest = []
        for s in range(len(grp)):
            two = [x for x in b.arcs if int(x['src']) == s]
            lp = [x for x in two if int(x['dst']) == s]
            go = [x for x in two if int(x['dst']) == s + 1]
            ctx.check(len(lp) == len(go) == 1, f'{msg}: a loop and an arc per state')
            if not (len(lp) == len(go) == 1):
                return
            ctx.check((lp[0]['label'] == 0) & (lp[0]['score'] == 0), f'{msg}: the loop')
            if fst:
                ctx.check(len(lp[0]['aux_labels']) == 0, f'{msg}: the loop writes nothing')
            x, src = go[0], [a.arcs[k] for k in grp[s]]
            ctx.check(x['label'] == src[-1]['label'], f'{msg}: labels in order')
            ctx.check(x['score'] == (ssum([y['score'] for y in src]) if fst else 0), f'{msg}: scores')
            if fst:
                w = [y['aux_labels'] for y in src if bool(y['aux_labels'] > 0)]
                ctx.check(eq(x['aux_labels'], w), f'{msg}: auxiliary labels')
        groups.append(grp)
    if fst:
        m = len(rd(g.scores))
        c = [ctx.flt(f'c{i}', -2, 2) for i in range(m)]
        g.scores.backward(wr(c, torch.float32, (m,)))
        want, i = [], 0
        for a, b, grp in zip(As, o, groups):
            where = {int(x['src']): c[i + j] for j, x in enumerate(b.arcs) if int(x['dst']) != int(x['src'])}
            want += [where[s] for s, q in enumerate(grp) for _ in q]
            i += len(b.arcs)
        ctx.check(eq(rd(sc.grad), want), f'{msg}: gradient')


def topo(ctx):
    """ctc_topo() and trivial_graph() of 1 to 3 tokens: every input of up to 4 symbols (0 is the blank) and every output of up to 3."""
    m = ctx.choose('max', [1, 2, 3])
    kind = ctx.choose('kind', ['standard', 'modified', 'trivial'])
    w = [ctx.int(f'w{i}', 0, m) for i in range(4 if m < 3 else 3)]
    y = [ctx.int(f'y{i}', 1, m) for i in range(3)]
    f = k2.trivial_graph(m) if kind == 'trivial' else k2.ctc_topo(m, modified=kind == 'modified')
    a = out_fsa(f)
    well_formed(ctx, a, kind)
    plain(ctx, f, kind)
    for i in range(len(w) + 1):
        if kind == 'trivial':
            ctx.check(num(a, w[:i]) == cnt(all_(c != 0 for c in w[:i])), 'trivial_graph: every string of tokens once')
            for j in range(len(y) + 1):
                ctx.check(num(a, w[:i], y[:j]) == (cnt(all_((c == d) & (c != 0) for c, d in zip(w, y[:j]))) if i == j else 0), 'trivial_graph: writes what it reads')
            continue
        for j in range(len(y) + 1):
            ctx.check(num(a, w[:i], y[:j]) == ways(w[:i], y[:j], kind == 'modified'), f'ctc_topo {kind}: alignments of {i} frames and {j} tokens')
    ctx.check(all_((x['aux_labels'] == -1) == (x['label'] == -1) for x in a.arcs), f'{kind}: final auxiliary labels')


def ctc(ctx):
    """ctc_graph() of 1 to 3 sequences of up to 3 symbols 1..2: every input of up to 5 frames, 0 being the blank."""
    mod = ctx.choose('modified', [False, True])
    s = nest(ctx, 's', [(0, ctx.params['n']), (0, ctx.params['len'])], lo=1, hi=2)
    T = ctx.params['T']
    f = k2.ctc_graph(mk(s, 2), modified=mod)
    o = out_vec(f)
    ctx.check(len(o) == len(s), 'ctc_graph: number of graphs')
    plain(ctx, f, 'ctc_graph')
    for q, (b, z) in enumerate(zip(o, s)):
        w = [ctx.int(f'w{q}{i}', 0, 2) for i in range(T)]
        well_formed(ctx, b, 'ctc_graph')
        ctx.check(all_((x['aux_labels'] == -1) == (x['label'] == -1) for x in b.arcs), 'ctc_graph: final auxiliary labels')
        for i in range(T + 1):
            n = ways(w[:i], z, mod)
            ctx.check(num(b, w[:i]) == n, f'ctc_graph: alignments of {i} frames')
            ctx.check(num(b, w[:i], z) == n, f'ctc_graph: every path writes the symbols')


def lev_graph(ctx):
    """levenshtein_graph() of up to 3 sequences of up to 3 symbols 1..3, ins_del_score -0.5, -0.501 and -2."""
    s = nest(ctx, 's', [(0, 3), (0, 3)], lo=1, hi=3)
    sc = ctx.choose('score', [-0.501, -0.5, -2.0])
    f = k2.levenshtein_graph(mk(s, 2), sc)
    o = out_vec(f)
    ctx.check(len(o) == len(s), 'levenshtein_graph: number of graphs')
    name = '__ins_del_score_offset_internal_attr_'
    for b, z in zip(o, s):
        ctx.check(b.n == len(z) + 2 and len(b.arcs) == 3 * len(z) + 2, 'levenshtein_graph: size')
        well_formed(ctx, b, 'levenshtein_graph')
        for x in b.arcs:
            i, d = int(x['src']), int(x['dst'])
            ctx.check(d in (i, i + 1), 'levenshtein_graph: arcs')
            if d == i:
                ctx.check((x['label'] == 0) & (x['aux_labels'] == 0) & near(x['score'], sc) & near(x[name], sc + 0.5), 'levenshtein_graph: loop')
            elif i == len(z):
                ctx.check((x['label'] == -1) & (x['aux_labels'] == -1) & (x['score'] == 0) & (x[name] == 0), 'levenshtein_graph: final arc')
            else:
                ctx.check((x['aux_labels'] == z[i]) & (x[name] == 0), 'levenshtein_graph: symbol')
                ctx.check(any_([(x['label'] == 0) & (x['score'] == -0.5), (x['label'] == z[i]) & (x['score'] == 0)]), 'levenshtein_graph: blank or symbol')
        for i in range(b.n - 1):
            lab = [bool(x['label'] == 0) for x in b.arcs if int(x['src']) == i and int(x['dst']) == i + 1]
            ctx.check(sorted(lab) == ([False, True] if i < len(z) else [False]), 'levenshtein_graph: one of each')


def dist(r, h):
    """Levenshtein distance."""
    row = [SI(j) for j in range(len(h) + 1)]
    for i, x in enumerate(r):
        new = [SI(i + 1)]
        for j, y in enumerate(h):
            v = row[j] + ite(x == y, SI(0), SI(1))
            for u in (row[j + 1] + 1, new[j] + 1):
                v = ite(u < v, u, v)
            new.append(v)
        row = new
    return row[-1]


def align(ctx):
    """levenshtein_alignment() of 1 or 2 hypotheses and 1 or 2 references of up to 3 symbols 1..3 (bounded per case), every map."""
    R, H = ctx.choose('sizes', ctx.params['sizes'])
    mp = ctx.choose('map', [[0] * len(H), [len(R) - 1 - i % len(R) for i in range(len(H))]] if len(R) > 1 else [[0] * len(H)])
    r = [[ctx.int(f'r{i}{j}', 1, 3) for j in range(n)] for i, n in enumerate(R)]
    h = [[ctx.int(f'h{i}{j}', 1, 3) for j in range(n)] for i, n in enumerate(H)]
    srt = ctx.choose('sorted', [True, False])
    fr, fh = k2.levenshtein_graph(mk(r, 2)), k2.levenshtein_graph(mk(h, 2))
    if srt:
        fr = k2.arc_sort(fr)
    before = out_vec(fr), out_vec(fh)
    g = k2.levenshtein_alignment(fr, fh, torch.tensor(mp, dtype=torch.int32), sorted_match_ref=srt)
    for x, y in zip(before, (out_vec(fr), out_vec(fh))):
        ctx.check(all(set(u) == set(v) and all_(u[k] == v[k] for k in u) for a, b in zip(x, y) for u, v in zip(a.arcs, b.arcs)), 'alignment: the inputs stay as they are')
    o = out_vec(g)
    ctx.check(len(o) == len(H), 'alignment: number of FSAs')
    tot = rd(g.get_tot_scores(False, False))
    for b, m, z, t in zip(o, mp, h, tot):
        d = dist(r[m], z)
        ctx.check(near(t, -d), 'alignment: total score is minus the distance')
        ctx.check(all(int(x['src']) == i and int(x['dst']) == i + 1 for i, x in enumerate(b.arcs)), 'alignment: one path')
        for key, s in (('ref_labels', r[m]), ('hyp_labels', z)):
            v = [x[key] for x in b.arcs]
            v = [y for y in v if bool(y != 0)]
            ctx.check(eq(v, s + [-1]), f'alignment: {key}')
        for x in b.arcs:
            same = x['ref_labels'] == x['hyp_labels']
            ctx.check(ite(same, (x['label'] == x['ref_labels']) & near(x['score'], 0), (x['label'] == 0) & near(x['score'], -1)), 'alignment: label and cost of an arc')
        ctx.check(isum(cnt(x['ref_labels'] != x['hyp_labels']) for x in b.arcs) == d, 'alignment: number of errors')


HARNESSES = [Harness(linear), Harness(loops), Harness(topo), Harness(ctc, params=dict(n=2, len=3, T=4)),
             Harness(lev_graph), Harness(align, params=dict(sizes=[([2], [2]), ([1, 2], [2, 0]), ([0], [1, 2]), ([2, 1], [1]), ([3], [2])]))]
QUICK_S = 60
