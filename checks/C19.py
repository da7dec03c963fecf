"""Paths sampled from lattices, n-best lists and what is made of them."""
from hlp import *
from explore import Harness, Discard
from sym import fexp
from C10 import T, E, DEAD, logarcs, ways, Z, ninf, alive, ratio
from C14 import dist


def all_paths(a):
    return [q for q in ways(a, 0, a.n - 1)] if a.n else []


def posterior(a, q):
    return ratio(ssum([a.arcs[k]['score'] for k in q], SF(0)), Z(a, 0, a.n - 1))


CHAIN = (5, [(0, 1), (1, 2), (1, 2), (2, 3), (2, 3), (3, 4)])
BLIND = (5, [(0, 1), (0, 2), (1, 4), (2, 3), (2, 4)])     # state 3 leads nowhere
LATS = [[CHAIN], [BLIND], [T[0]], [T[1]], [T[3]], [T[5]], [T[8]], [T[0], E, T[3]], [DEAD, T[4]], [T[2], DEAD]]


def sample(ctx):
    """random_paths(): 1 to 3 FSAs out of 9 structures up to 5 states (dead ends, parallel arcs, no path, no states), 1 to 4 paths (6 in a chain of 4), float and
    double, real scores in -1..1: each path is a complete path, in order, and each possible path, and all up to it, are drawn as often as their
    share says, within one."""
    S = ctx.choose('lats', ctx.params['lats'])
    As = [logarcs(ctx, f'{i}', t) for i, t in enumerate(S)]
    f = build_vec(As)
    N = ctx.choose('paths', ctx.params['paths']) if S != [CHAIN] else ctx.choose('paths', [6])
    r = out_ragged(k2.random_paths(f, ctx.choose('double', [False, True]), N))
    ctx.check(len(r) == len(As), 'random_paths: number of FSAs')
    off = 0
    for a, ps in zip(As, r):
        ok = all_paths(a)
        ctx.check(len(ps) == (N if ok else 0), 'random_paths: number of paths')
        ps = [[int(v) - off for v in p] for p in ps]
        for p in ps:
            ctx.check(p in ok, 'random_paths: a path from the start to the final state')
        ctx.check(ps == sorted(ps), 'random_paths: order')
        if len(ps) and all(p in ok for p in ps):
            m, s = 0, SF(0)
            for q in sorted(ok):     # arithmetic coding: the shares of the paths, one after another
                k, t = ps.count(q), posterior(a, q) * N
                m, s = m + k, s + t
                ctx.check((t >= k - 1) & (t <= k + 1) & (s >= m - 1) & (s <= m + 1), 'random_paths: share of a path')
        off += len(a.arcs)


def post(ctx):
    """prune_on_arc_post(): 1 or 2 FSAs out of 6 structures, all with a path, real scores in -1..1, thresholds 3/16, 9/32 and 9/16: the arcs whose
    share of the paths reaches the threshold (exactly at it may fall either way) are kept, with their attributes."""
    S = ctx.choose('lats', [[T[0]], [T[1]], [T[3]], [T[8]], [T[2], T[0]], [T[4]]])
    th = ctx.choose('threshold', [0.1875, 0.28125, 0.5625])
    As = [logarcs(ctx, f'{i}', t) for i, t in enumerate(S)]
    f = build_vec(As)
    n = sum(len(a.arcs) for a in As)
    f.tag = torch.arange(1, n + 1, dtype=torch.int32)
    g = k2.prune_on_arc_post(f, th, ctx.choose('double', [False, True]))
    out = out_vec(g)
    ctx.check(len(out) == len(As), 'prune_on_arc_post: number of FSAs')
    off = 0
    for a, b in zip(As, out):
        kept = [int(x['tag']) - 1 - off for x in b.arcs]
        ctx.check(b.n == a.n and kept == sorted(set(kept)) and all(0 <= k < len(a.arcs) for k in kept), 'prune_on_arc_post: arcs in order')
        for k, x in enumerate(a.arcs):
            z = Z(a, 0, a.n - 1, k)
            p = SF(0) if ninf(z) else ratio(z, Z(a, 0, a.n - 1))
            ctx.check(p >= th - 2 ** -12 if k in kept else p < th + 2 ** -12, 'prune_on_arc_post: posterior')
        for k, y in zip(kept, b.arcs):
            x = a.arcs[k]
            ctx.check((y['src'] == x['src']) & (y['dst'] == x['dst']) & (y['label'] == x['label']) & close(y['score'], x['score']), 'prune_on_arc_post: arc')
        off += len(a.arcs)


# lattices with words: (states, [(src, dst, label, word or words)])
W = {
    'par': (3, [(0, 1, 1, 1), (0, 1, 2, 2), (1, 2, -1, -1)]),
    'same': (4, [(0, 1, 1, 1), (0, 2, 2, 0), (1, 3, -1, -1), (2, 3, -1, -1)]),
    'dup': (4, [(0, 1, 1, 1), (0, 1, 2, 1), (1, 2, 1, 0), (1, 2, 3, 2), (2, 3, -1, -1)]),
    'eps': (4, [(0, 1, 1, 0), (0, 2, 2, 1), (1, 2, 1, 1), (2, 3, -1, -1)]),
    'line': (3, [(0, 1, 2, 1), (1, 2, -1, -1)]),
}


def wordlat(ctx, p, w):
    n, t = W[w]
    a = A(n, [{'src': SI(s), 'dst': SI(d), 'label': SI(l), 'score': ctx.real(f'{p}w{i}', -1, 1)} for i, (s, d, l, _) in enumerate(t)])
    return a, [x for *_, x in t]


def setup(ctx, names, ragged):
    As, ws = zip(*[wordlat(ctx, f'{i}', w) for i, w in enumerate(names)])
    f = build_vec(list(As))
    flat = [x for w in ws for x in w]
    f.aux_labels = k2.RaggedTensor([[x] if x > 0 else [x] if x < 0 else [] for x in flat], dtype=torch.int32) if ragged else torch.tensor(flat, dtype=torch.int32)
    return As, ws, f


def sampled(ctx, As, ws, N, scale):
    """What a lattice sampled N times gives is left open here; the words of all its paths."""
    res = []
    for a, w in zip(As, ws):
        res.append({tuple(q): tuple(w[k] for k in q if w[k] > 0) for q in all_paths(a)})
    return res


def nbest(ctx):
    """Nbest.from_lattice() of 1 or 2 lattices out of 5 with up to 4 paths, words that repeat, plain and ragged; 1 to 3 paths, scales 1 and 2:
    paths of the lattice with different words, their labels, words, scores and gradients; the lattice keeps its scores."""
    names = ctx.choose('lats', ctx.params['lats'])
    ragged = ctx.choose('ragged', [False, True])
    As, ws, f = setup(ctx, names, ragged)
    n = sum(len(a.arcs) for a in As)
    x = wr([y['score'] for a in As for y in a.arcs], torch.float32, (n,)).requires_grad_(True)
    f.scores = x * 1
    N, scale = ctx.choose('paths', [1, 2, 3]), ctx.choose('scale', [1.0, 2.0])
    nb = k2.Nbest.from_lattice(f, N, ctx.choose('double', [True, False]), scale)
    for u, v in zip(rd(f.scores), [y['score'] for a in As for y in a.arcs]):
        ctx.check(close(u, v), 'nbest: scores of the lattice')
    sp = [int(v) for v in rd(nb.shape.row_splits(1))]
    kept = [[int(v) for v in p] for p in out_ragged(nb.kept_path)]
    out = out_vec(nb.fsa)
    ctx.check(len(sp) == len(As) + 1 and sp[-1] == len(out) == len(kept), 'nbest: shape')
    off, words = 0, sampled(ctx, As, ws, N, scale)
    aux = nb.fsa.aux_labels
    aux = out_ragged(aux) if isinstance(aux, k2.RaggedTensor) else [[v] for v in rd(aux)]
    pos, used = 0, {}
    for i, a in enumerate(As):
        mine = kept[sp[i]:sp[i + 1]]
        ctx.check(1 <= len(mine) <= N, 'nbest: number of paths')
        qs = [tuple(k - off for k in p) for p in mine]
        ctx.check(all(q in words[i] for q in qs), 'nbest: complete paths')
        if not all(q in words[i] for q in qs):
            return
        ctx.check(len(set(words[i][q] for q in qs)) == len(qs), 'nbest: different words')
        for q, b in zip(qs, out[sp[i]:sp[i + 1]]):
            ctx.check(b.n == len(q) + 1 and len(b.arcs) == len(q), 'nbest: linear')
            for j, (k, y) in enumerate(zip(q, b.arcs)):
                ctx.check((y['src'] == j) & (y['dst'] == j + 1) & (y['label'] == a.arcs[k]['label']) & close(y['score'], a.arcs[k]['score']), 'nbest: arcs')
                ctx.check([int(v) for v in aux[pos] if int(v) != 0] == [v for v in [ws[i][k]] if v], 'nbest: words')
                used[pos] = k + off
                pos += 1
        off += len(a.arcs)
    co = [[1.0, -2.0, 0.5, 3.0][j % 4] for j in range(pos)]
    (nb.fsa.scores * torch.tensor(co)).sum().backward()
    for k, v in enumerate(rd(x.grad)):
        ctx.check(close(v, SF(sum(c for j, c in enumerate(co) if used[j] == k))), 'nbest: gradient')
    tot = out_ragged(nb.total_scores())
    ctx.check([len(v) for v in tot] == [sp[i + 1] - sp[i] for i in range(len(As))], 'nbest: total scores')
    for u, b in zip([v for t in tot for v in t], out):
        ctx.check(close(u, ssum([y['score'] for y in b.arcs])), 'nbest: total scores')


def edit(r, h):
    d = list(range(len(h) + 1))
    for i, x in enumerate(r):
        n = [i + 1]
        for j, y in enumerate(h):
            n.append(min(d[j] + (x != y), d[j + 1] + 1, n[j] + 1))
        d = n
    return d[-1]


def mwer(ctx):
    """mwer_loss() of 1 or 2 lattices out of 5, references of up to 2 words, 1 to 3 paths, temperatures 1 and 0.5, the 3 reductions: the expected
    number of word errors among the paths that were sampled, and its derivative for every score."""
    names = ctx.choose('lats', ctx.params['lats'])
    As, ws, f = setup(ctx, names, ctx.choose('ragged', [False, True]) if ctx.params.get('ragged') else False)
    n = sum(len(a.arcs) for a in As)
    x = wr([y['score'] for a in As for y in a.arcs], torch.float32, (n,)).requires_grad_(True)
    f.scores = x * 1
    refs = ctx.choose('refs', [[[1, 2], [1]], [[2], []]])[:len(As)]
    N, red, temp = ctx.choose('paths', [1, 3]), ctx.choose('red', ['sum', 'mean', 'none']), ctx.choose('temp', [1.0, 0.5])
    nb = k2.Nbest.from_lattice(f, N, True, 1.0)
    kept = [[int(v) for v in p] for p in out_ragged(nb.kept_path)]
    sp = [int(v) for v in rd(nb.shape.row_splits(1))]
    if temp == 1.0:
        loss = k2.MWERLoss(temperature=temp, reduction=red)(f, k2.RaggedTensor(refs, dtype=torch.int32), nbest_scale=1.0, num_paths=N)
    else:
        loss = k2.mwer_loss(f, refs, nbest_scale=1.0, num_paths=N, temperature=temp, reduction=red)
    off, want, sc = 0, [], [y['score'] for a in As for y in a.arcs]
    flatw = [v for w in ws for v in w]
    m = int(1 / temp)
    info = []
    for i in range(len(As)):
        ps = kept[sp[i]:sp[i + 1]]
        lg = [ssum([sc[k] for k in p] * m) for p in ps]
        z = lse(lg)
        pr = [ratio(v, z) for v in lg]
        er = [edit(refs[i], [flatw[k] for k in p if flatw[k] > 0]) for p in ps]
        info.append((ps, pr, er))
        want += [u * e for u, e in zip(pr, er)]
    if red == 'none':
        r = out_ragged(loss)
        ctx.check([len(v) for v in r] == [sp[i + 1] - sp[i] for i in range(len(As))], 'mwer: shape')
        r = [v for t in r for v in t]
        for u, v in zip(r, want):
            ctx.check(close(u, v), 'mwer: error of a path')
        co = [[1.0, -2.0, 0.5, 3.0][j % 4] for j in range(len(want))]
        (loss.values * torch.tensor(co)).sum().backward()
    else:
        k = len(want) if red == 'mean' else 1
        co = [1.0 / k] * len(want)
        ctx.check(close(rd(loss) * k, ssum(want)), 'mwer: loss')
        loss.backward()
    g = rd(x.grad)
    j = 0
    ref = [SF(0)] * n
    for ps, pr, er in info:
        c = co[j:j + len(ps)]
        j += len(ps)
        mean = ssum([u * (e * v) for u, e, v in zip(pr, er, c)])
        for p, u, e, v in zip(ps, pr, er, c):
            for k in p:
                ref[k] = ref[k] + u * (SF(e * v) - mean) * m
    for u, v in zip(g, ref):
        ctx.check(close(u, v), 'mwer: gradient')


def topk(ctx):
    """Nbest.top_k() for k = 1..3 of 1 to 3 lists of 1 to 3 linear FSAs, integer scores -2..2: the best ones in order, the last one repeated."""
    sizes = ctx.choose('sizes', [[1], [3], [2, 1], [1, 3], [2, 1, 1]])
    k = ctx.choose('k', [1, 2, 3])
    m = sum(sizes)
    lens = [[1, 2, 1][(i + ctx.params.get('rot', 0)) % 3] for i in range(m)]
    f = k2.linear_fsa([[i + 1] * n for i, n in enumerate(lens)])
    s = [[ctx.flt(f's{i}{j}', -2, 2) for j in range(n)] for i, n in enumerate(lens)]
    fl = [v for t in s for v in t + [SF(0)]]
    f.scores = wr(fl, torch.float32, (len(fl),))
    f.tag = torch.arange(len(fl), dtype=torch.int32)
    sp = [sum(sizes[:i]) for i in range(len(sizes) + 1)]
    nb = k2.Nbest(f, k2.ragged.create_ragged_shape2(row_splits=torch.tensor(sp, dtype=torch.int32), cached_tot_size=m))
    g = nb.top_k(k)
    out = out_vec(g.fsa)
    ctx.check([int(v) for v in rd(g.shape.row_splits(1))] == [k * i for i in range(len(sizes) + 1)] and len(out) == k * len(sizes), 'top_k: shape')
    tot = [ssum(v) for v in s]
    for i in range(len(sizes)):
        ids = [int(b.arcs[0]['label']) - 1 for b in out[i * k:i * k + k]]
        grp = list(range(sp[i], sp[i + 1]))
        ctx.check(all(j in grp for j in ids), 'top_k: member')
        ctx.check(len(set(ids)) == min(k, len(grp)), 'top_k: distinct')
        for p, q in zip(ids, ids[1:]):
            ctx.check(tot[p] >= tot[q], 'top_k: order')
        for j in grp:
            if j not in ids:
                ctx.check(tot[j] <= tot[ids[-1]], 'top_k: the best')
        if len(grp) < k:
            ctx.check(all(v == ids[len(grp) - 1] for v in ids[len(grp):]), 'top_k: repeated')
        for j, b in zip(ids, out[i * k:i * k + k]):
            ctx.check(len(b.arcs) == lens[j] + 1 and all_(y['score'] == z for y, z in zip(b.arcs, s[j] + [SF(0)])), 'top_k: arcs')


def rescore(ctx):
    """Nbest.intersect() of 1 or 2 lists of 1 or 2 linear FSAs (1 or 2 symbols out of 2) with lattices out of 4 structures, integer scores -1..1: each
    list member's best path in its lattice; and levenshtein graphs of the words."""
    sizes = ctx.choose('sizes', [[1], [2], [1, 1]])
    m = sum(sizes)
    L = [[ctx.int(f'l{i}{j}', 1, 2) for j in range(1 + i % 2)] for i in range(m)]
    f = k2.linear_fsa([[int(v) for v in t] for t in L])
    s = [[ctx.flt(f's{i}{j}', -1, 1) for j in range(len(t) + 1)] for i, t in enumerate(L)]
    fl = [v for t in s for v in t]
    f.scores = wr(fl, torch.float32, (len(fl),))
    sp = [sum(sizes[:i]) for i in range(len(sizes) + 1)]
    nb = k2.Nbest(f, k2.ragged.create_ragged_shape2(row_splits=torch.tensor(sp, dtype=torch.int32), cached_tot_size=m))
    TT = [(3, [(0, 1), (0, 1), (1, 2)]), (4, [(0, 1), (0, 2), (1, 2), (2, 3)]), (3, [(0, 0), (0, 1), (1, 1), (1, 2)])]
    As = [topo_vars(ctx, f'a{i}', TT[:2] if i else TT, labels=(0, 2), score=(-1, 0)) for i in range(len(sizes))]
    for a in As:
        for x in a.arcs:
            if int(x['src']) == int(x['dst']):
                ctx.assume(x['label'] != 0)
    lats = build_vec(As)
    r = nb.intersect(lats)
    ctx.check([int(v) for v in rd(r.shape.row_splits(1))] == sp, 'intersect: shape')
    out = out_vec(r.fsa)
    ctx.check(len(out) == m, 'intersect: number of paths')
    for i in range(len(sizes)):
        for j in range(sp[i], sp[i + 1]):
            w = weight(As[i], [SI(int(v)) for v in L[j]])
            best = w + ssum(s[j])
            b = out[j]
            if not b.arcs:
                ctx.check(w == SF(NEG), 'intersect: no path')
                continue
            ctx.check(ssum([y['score'] for y in b.arcs]) == best, 'intersect: best score')
            ctx.check(eq([y['label'] for y in b.arcs], [int(v) for v in L[j]] + [-1]), 'intersect: labels')


# language models over the words 1 and 2, deterministic, with a free loop for words that are not there: (states, [(src, dst, word)])
LM = {'one': (2, [(0, 0, 0), (0, 0, 1), (0, 0, 2), (0, 1, -1)]), 'two': (3, [(0, 0, 0), (0, 1, 1), (0, 0, 2), (0, 2, -1), (1, 1, 0), (1, 1, 1), (1, 0, 2), (1, 2, -1)]),
      'need': (3, [(0, 0, 0), (0, 1, 1), (1, 1, 0), (1, 0, 2), (1, 2, -1)])}


def lm_score(t, s, words):
    """The weight the model gives to some words, None where it accepts none."""
    at, r = 0, SF(0)
    for w in [v for v in words if v > 0] + [-1]:
        k = [i for i, x in enumerate(t) if x[0] == at and x[2] == w]
        if not k:
            return None
        at, r = t[k[0]][1], r + s[k[0]]
    return r


def lattice(ctx):
    """whole_lattice_rescoring() of 1 or 2 lattices out of 5 with words, plain and ragged, by 3 language models, integer scores -2..2, those of the first
    model included: each path whose words the model accepts, once, with the score of the new model in place of the first one's, labels and words."""
    names = ctx.choose('lats', [['par'], ['same'], ['dup'], ['eps'], ['line', 'same'], ['eps', 'par']])
    ragged = ctx.choose('ragged', [False, True])
    n, t = LM[ctx.choose('lm', list(LM))]
    gs = [SF(0) if x[2] == 0 else ctx.flt(f'g{i}', -2, 2) for i, x in enumerate(t)]
    G = k2.arc_sort(build_vec([A(n, [{'src': SI(a), 'dst': SI(b), 'label': SI(w), 'score': s} for (a, b, w), s in zip(t, gs)])]))
    As, ws = [], []
    for i, w in enumerate(names):
        m, u = W[w]
        As.append(A(m, [{'src': SI(a), 'dst': SI(b), 'label': SI(l), 'score': ctx.flt(f's{i}{j}', -2, 2)} for j, (a, b, l, _) in enumerate(u)]))
        ws.append([x for *_, x in u])
    f = build_vec(As)
    flat = [x for w in ws for x in w]
    f.aux_labels = k2.RaggedTensor([[x] if x else [] for x in flat], dtype=torch.int32) if ragged else torch.tensor(flat, dtype=torch.int32)
    lm = [ctx.flt(f'm{i}', -1, 1) if i % 2 else SF(0) for i in range(len(flat))]
    f.lm_scores = wr(lm, torch.float32, (len(flat),))
    f.tag = torch.arange(1, len(flat) + 1, dtype=torch.int32)
    for _ in range(2):
        out = out_vec(k2.nbest.whole_lattice_rescoring(f, G))
        ctx.check(len(out) == len(As), 'rescoring: number of lattices')
        ctx.check(hasattr(f, 'lm_scores') and all_(feq(u, y['score']) for u, y in zip(rd(f.scores), [y for a in As for y in a.arcs])), 'rescoring: the lattice it was given')
        off = 0
        for a, w, b in zip(As, ws, out):
            got = [[b.arcs[k] for k in q] for q in (ways(b, 0, b.n - 1) if b.n else [])]
            want = {tuple(q): lm_score(t, gs, [w[k] for k in q]) for q in all_paths(a)}
            tags = [tuple(int(y['tag']) - 1 - off for y in q if int(y['tag']) > 0) for q in got]
            ctx.check(sorted(tags) == sorted(q for q, v in want.items() if v is not None), 'rescoring: paths')
            for q, r in zip(tags, got):
                if want.get(q) is None:
                    continue
                ctx.check(feq(ssum([y['score'] for y in r]), want[q] + ssum([a.arcs[k]['score'] - lm[k + off] for k in q])), 'rescoring: score of a path')
                ctx.check([int(y['label']) for y in r if int(y['label'])] == [int(a.arcs[k]['label']) for k in q if int(a.arcs[k]['label'])], 'rescoring: labels')
                aux = [y['aux_labels'] for y in r]
                aux = [int(v) for y in aux for v in (y if isinstance(y, list) else [y])]
                ctx.check([v for v in aux if v > 0] == [w[k] for k in q if w[k] > 0], 'rescoring: words')
            off += len(a.arcs)


def tokens(ctx):
    """generate_nbest_list() of 1 or 2 lattices out of 5, 1 to 4 paths, real scores in -1..1, twice: the different token sequences of the paths that
    random_paths() draws, as linear FSAs; the lattice keeps its attributes."""
    names = ctx.choose('lats', ctx.params['lats'])
    As, ws, f = setup(ctx, names, False)
    del f.aux_labels
    f.phones = torch.tensor([x for w in ws for x in w], dtype=torch.int32)
    N = ctx.choose('paths', [1, 2, 4])
    drawn = out_ragged(k2.random_paths(f, True, N))
    for _ in range(2):
        nb = k2.nbest.generate_nbest_list(f, N)
        ctx.check(not hasattr(f, 'tokens'), 'token list: attributes of the lattice')
        sp = [int(v) for v in rd(nb.shape.row_splits(1))]
        out = out_vec(nb.fsa)
        ctx.check(len(sp) == len(As) + 1 and sp[-1] == len(out), 'token list: shape')
        off = 0
        for i, (a, w, ps) in enumerate(zip(As, ws, drawn)):
            want = set(tuple(w[int(k) - off] for k in p if w[int(k) - off] > 0) for p in ps)
            mine = out[sp[i]:sp[i + 1]]
            got = [tuple(int(y['label']) for y in b.arcs[:-1]) for b in mine]
            ctx.check(sorted(got) == sorted(want), 'token list: sequences')
            for b in mine:
                ctx.check(b.n == len(b.arcs) + 1 and int(b.arcs[-1]['label']) == -1 and all(int(y['src']) == j and int(y['dst']) == j + 1 for j, y in enumerate(b.arcs)), 'token list: linear')
            off += len(a.arcs)


HARNESSES = [Harness(sample, params=dict(lats=LATS, paths=[1, 2, 3, 4]), domain='exp'), Harness(post, domain='exp'),
             Harness(nbest, params=dict(lats=[['par'], ['same'], ['dup'], ['eps'], ['par', 'line'], ['line', 'same']]), domain='exp'),
             Harness(mwer, params=dict(lats=[['par'], ['same'], ['dup'], ['par', 'line'], ['line', 'same']]), domain='exp'), Harness(topk), Harness(rescore), Harness(lattice),
             Harness(tokens, params=dict(lats=[['par'], ['same'], ['dup'], ['eps'], ['par', 'line'], ['line', 'same']]), domain='exp')]
QUICK_S = 70
THOROUGH_S = 600
