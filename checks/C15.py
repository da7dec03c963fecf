"""Selecting, joining, expanding and replacing; index operations."""
from hlp import *
from explore import Harness, Discard

DT = {'i32': torch.int32, 'i64': torch.int64, 'f32': torch.float32, 'f64': torch.float64}


def vals(ctx, p, n, dt):
    return [ctx.int(f'{p}{i}', -3, 3) if dt in (torch.int32, torch.int64) else ctx.flt(f'{p}{i}', -3, 3) for i in range(n)]


def layout(v, dt, rows, cols, how):
    """A tensor with these values: contiguous, every other column, or transposed."""
    shape = (rows, cols) if cols else (rows,)
    if how == 'plain':
        return wr(v, dt, shape)
    if how == 'stride':
        pad = [x for y in v for x in (y, SI(9) if dt in (torch.int32, torch.int64) else SF(9))]
        t = wr(pad, dt, (rows, 2 * cols) if cols else (2 * rows,))
        return t[:, ::2] if cols else t[::2]
    if how == 'rows':
        pad = [x for r in range(rows) for x in v[r * cols:(r + 1) * cols] * 2]
        return wr(pad, dt, (2 * rows, cols))[::2]
    if how == 'expand':  # v is constant
        return wr(v[:1], dt, (1,)).expand(shape)
    return wr([v[r * cols + c] for c in range(cols) for r in range(rows)], dt, (cols, rows)).t()


def select(ctx):
    """index_select() of 1-D and 2-D tensors of 4 types with up to 3 rows and 2 columns, contiguous or strided; up to 3 indexes, symbolic;
    the default value and the gradient."""
    dt = DT[ctx.choose('dtype', list(DT))]
    cols = ctx.choose('cols', [0, 1, 2])
    rows = ctx.choose('rows', [0, 1, 3])
    how = ctx.choose('how', ['plain', 'rows' if cols else 'stride'])
    n = ctx.choose('n', [0, 1, 3])
    v = vals(ctx, 'v', rows * max(cols, 1), dt)
    ix = [ctx.int(f'i{i}', -1, rows - 1) for i in range(n)]
    src = layout(v, dt, rows, cols, how)
    grad = dt in (torch.float32, torch.float64)
    if grad:
        src = src.detach().requires_grad_(True)
    d = ctx.choose('default', [0, 7]) if not cols else 0
    a = k2.index_select(src, wr(ix, torch.int32, (n,)), d)
    ctx.check(a.dtype == dt and tuple(a.shape) == ((n, cols) if cols else (n,)), 'index_select: type and shape')
    c = max(cols, 1)
    got = rd(a.detach().reshape(-1))
    for i, k in enumerate(ix):
        for j in range(c):
            ref = (SF if grad else SI)(d)
            for r in range(rows):
                ref = ite(k == r, v[r * c + j], ref)
            ctx.check(got[i * c + j] == ref, 'index_select: values')
    if grad and n * c:
        how = ctx.choose('ghow', ['plain', 'stride', 'expand'] + (['t'] if cols > 1 else []))
        g = vals(ctx, 'g', 1, dt) * (n * c) if how == 'expand' else vals(ctx, 'g', n * c, dt)
        a.backward(layout(g, dt, n, cols, how))
        gr = rd(src.grad.reshape(-1)) if rows else []
        for r in range(rows):
            for j in range(c):
                ctx.check(gr[r * c + j] == ssum([ite(k == r, g[i * c + j], SF(0)) for i, k in enumerate(ix)]), 'index_select: gradient')


def add(ctx):
    """index_add() into 1-D and 2-D tensors of 3 types with up to 3 rows and 2 columns, contiguous or strided; up to 3 indexes, symbolic."""
    dt = DT[ctx.choose('dtype', ['i32', 'f32', 'f64'])]
    cols, rows, n = ctx.choose('cols', [0, 2]), ctx.choose('rows', [1, 3]), ctx.choose('n', [0, 1, 3])
    c = max(cols, 1)
    v, w = vals(ctx, 'v', n * c, dt), vals(ctx, 'w', rows * c, dt)
    ix = [ctx.int(f'i{i}', -1, rows - 1) for i in range(n)]
    dst = layout(w, dt, rows, cols, ctx.choose('dst', ['plain', 'stride']))
    k2.index_add(wr(ix, torch.int32, (n,)), layout(v, dt, n, cols, ctx.choose('src', ['plain', 'stride'])), dst)
    got = rd(dst.reshape(-1))
    zero = SI(0) if dt == torch.int32 else SF(0)
    for r in range(rows):
        for j in range(c):
            ref = w[r * c + j]
            for i, k in enumerate(ix):
                ref = ref + ite(k == r, v[i * c + j], zero)
            ctx.check(got[r * c + j] == ref, 'index_add: values')


def ragged(ctx):
    """ragged.index_and_sum() with its gradient, simple_ragged_index_select() and compose_arc_maps(): up to 3 lists of up to 2 indexes, symbolic."""
    op = ctx.choose('op', ['sum', 'simple', 'maps'])
    m = ctx.choose('m', [1, 3])
    if op == 'maps':
        n = ctx.choose('n', [0, 3])
        p, q = [ctx.int(f'p{i}', -1, 5) for i in range(m)], [ctx.int(f'q{i}', -1, m - 1) for i in range(n)]
        got = rd(k2.compose_arc_maps(wr(p, torch.int32, (m,)), wr(q, torch.int32, (n,))))
        for g, k in zip(got, q):
            ref = SI(-1)
            for i, x in enumerate(p):
                ref = ite(k == i, x, ref)
            ctx.check(g == ref, 'compose_arc_maps')
        ctx.check(len(got) == n, 'compose_arc_maps: length')
        return
    ix = nest(ctx, 'x', [(0, 3), (0, 2)], lo=-1 if op == 'sum' else 0, hi=m - 1)
    rix = mk(ix, 2)
    if op == 'simple':
        dt = DT[ctx.choose('dtype', ['i32', 'f32'])]
        u = vals(ctx, 'u', m, dt)
        v = u
        zero = SI(0) if dt == torch.int32 else SF(0)
        for z in ix:  # at most one of each list is not zero
            nz = [any_((k == i) & (x != 0) for i, x in enumerate(v)) for k in z]
            for i in range(len(nz)):
                for j in range(i):
                    ctx.assume(~(nz[i] & nz[j]))
        got = rd(k2.simple_ragged_index_select(layout(v, dt, m, 0, ctx.choose('how', ['plain', 'stride'])), rix))
        for g, z in zip(got, ix):
            ref = zero
            for k in z:
                for i, x in enumerate(v):
                    ref = ite((k == i) & (x != 0), x, ref)
            ctx.check(g == ref, 'simple_ragged_index_select')
        ctx.check(len(got) == len(ix), 'simple_ragged_index_select: length')
        return
    v = vals(ctx, 'v', m, torch.float32)
    src = layout(v, torch.float32, m, 0, 'plain').detach().requires_grad_(True)
    a = k2.ragged.index_and_sum(src, rix)
    got = rd(a.detach())
    ctx.check(len(got) == len(ix), 'index_and_sum: length')
    for g, z in zip(got, ix):
        ctx.check(g == ssum([ite(k == i, x, SF(0)) for k in z for i, x in enumerate(v)], SF(0)), 'index_and_sum: values')
    if ix:
        how = ctx.choose('ghow', ['plain', 'stride', 'expand'])
        g = vals(ctx, 'g', 1, torch.float32) * len(ix) if how == 'expand' else vals(ctx, 'g', len(ix), torch.float32)
        a.backward(layout(g, torch.float32, len(ix), 0, how))
        for i, x in enumerate(rd(src.grad)):
            ctx.check(x == ssum([ite(k == i, c, SF(0)) for c, z in zip(g, ix) for k in z], SF(0)), 'index_and_sum: gradient')


B = [(3, [(0, 1), (0, 2), (1, 2)]), (0, []), (2, [(0, 1)]), (3, [(0, 0), (0, 1), (1, 2)]), (2, [])]


def copies(ctx, o, g, As, idx, msg):
    """The batch g consists of these members of As, in this order, with the attributes of add_attrs."""
    base, b = [], 0
    for a in As:
        base.append(b)
        b += len(a.arcs)
    ctx.check(len(o) == len(idx), f'{msg}: number of FSAs')
    flat, am = [], []
    for k, b in zip(idx, o):
        a = As[k]
        ctx.check(b.n == a.n and len(b.arcs) == len(a.arcs), f'{msg}: size')
        for x, y in zip(b.arcs, a.arcs):
            ctx.check((x['src'] == y['src']) & (x['dst'] == y['dst']) & (x['label'] == y['label']) & (x['score'] == y['score']), f'{msg}: arcs')
        flat += b.arcs
        am += [base[k] + i for i in range(len(a.arcs))]
    check_attrs(ctx, flat, g, am, msg)


def members(ctx):
    """index_fsa(), cat() and create_fsa_vec() of batches of up to 3 FSAs out of 5 structures, also empty; every index tensor of up to 3 entries."""
    op = ctx.choose('op', ['index', 'cat', 'vec', 'slice'])
    n = ctx.choose('n', [1, 2, 3])
    As = [topo_vars(ctx, f'{i}', B if i < 2 else B[:2], labels=(0, 2)) for i in range(n)]
    tot = sum(len(a.arcs) for a in As)
    if op == 'vec':
        As = [a for a in As if a.arcs]
        if not As:
            return
        tot = sum(len(a.arcs) for a in As)
        fs = [build(a) for a in As]
        b = 0
        for f, a in zip(fs, As):
            m = len(a.arcs)
            f.tag = torch.arange(b + 1, b + m + 1, dtype=torch.int32)
            f.fa = torch.arange(b + 1, b + m + 1, dtype=torch.float32) * 0.25
            f.rag = k2.RaggedTensor([[i + 1] * (i % 3) for i in range(b, b + m)], dtype=torch.int32)
            f.neg = torch.arange(b + 1, b + m + 1, dtype=torch.int32)
            f.neg_filler, f.plain = -5, 'p'
            b += m
        g = k2.create_fsa_vec(fs)
        copies(ctx, out_vec(g), g, As, list(range(len(As))), 'create_fsa_vec')
        return
    if not tot:
        return
    if op == 'cat':
        cut = ctx.choose('cut', list(range(n + 1)))
        fs, b = [], 0
        for part in (As[:cut], As[cut:]):
            if not part:
                continue
            f, m = build_vec(part), sum(len(a.arcs) for a in part)
            f.tag = torch.arange(b + 1, b + m + 1, dtype=torch.int32)
            f.fa = torch.arange(b + 1, b + m + 1, dtype=torch.float32) * 0.25
            f.rag = k2.RaggedTensor([[i + 1] * (i % 3) for i in range(b, b + m)], dtype=torch.int32) if m else k2.RaggedTensor('[ ]', dtype=torch.int32)
            f.neg = torch.arange(b + 1, b + m + 1, dtype=torch.int32)
            f.neg_filler, f.plain = -5, 'p'
            b += m
            fs.append(f)
        g = k2.cat(fs)
        copies(ctx, out_vec(g), g, As, list(range(n)), 'cat')
        return
    f = build_vec(As)
    add_attrs(f, tot)
    if op == 'slice':
        k = ctx.choose('k', list(range(n)))
        if not As[k].arcs:
            return
        g = f[k]
        copies(ctx, [out_fsa(g)], g, As, [k], 'member of a batch')
        return
    m = ctx.choose('m', [1, 3, 0])
    ix = [ctx.int(f'i{i}', 0, n - 1) for i in range(m)]
    g = k2.index_fsa(f, wr(ix, torch.int32, (m,)))
    copies(ctx, out_vec(g), g, As, ints(ix), 'index_fsa')


def expand(ctx):
    """expand_ragged_attributes() of an FSA or a batch of up to 4 states and 5 arcs in all, with 1 or 2 ragged attributes of up to 3 values per arc,
    one or both expanded; a final -1 is there or not; the gradient of the scores."""
    if ctx.choose('vec', [False, True]):
        As = [topo_vars(ctx, '0', [(3, [(0, 1), (1, 2)]), (2, [(0, 1), (0, 1)])], labels=(0, 2)), topo_vars(ctx, '1', [(0, [])]), topo_vars(ctx, '2', [(2, [(0, 1)]), (3, [(0, 0), (0, 1), (1, 2)])], labels=(0, 2))]
        f, vec = build_vec(As), True
    else:
        As = [topo_vars(ctx, '0', [(3, [(0, 1), (1, 2)]), (3, [(0, 0), (0, 1), (0, 2), (1, 2)]), (4, [(0, 2), (1, 3), (2, 1), (2, 3)])], labels=(0, 2))]
        f, vec = build(As[0]), False
    src = [x for a in As for x in a.arcs]
    n = len(src)
    final = [bool(x['label'] == -1) for x in src]
    add_attrs(f, n, ragged=False)
    sc = f.scores.detach().clone().requires_grad_(True)
    f.scores = sc
    two = ctx.choose('two', [False, True])
    only = two and ctx.choose('only', [False, True])
    R = {}
    for r, name in enumerate(['aux_labels', 'other'][:1 + two]):
        L = []
        k = ctx.choose(f'pat{r}', ctx.params['patterns'])
        end = ctx.choose(f'end{r}', [False, True])
        for i in range(n):
            m = k[i % len(k)]
            v = [ctx.int(f'r{r}{i}{j}', 1, 2) for j in range(m)]
            if final[i] and end:
                v = v + [SI(-1)]
            L.append(v)
        R[name] = L
        setattr(f, name, mk(L, 2))
    names = [x for x in R if not (only and x == 'other')]
    g, am = k2.expand_ragged_attributes(f, ret_arc_map=True, ragged_attribute_names=names if only else None)
    am = ints(rd(am))
    o = out_vec(g) if vec else [out_fsa(g)]
    flat = [x for b in o for x in b.arcs]
    ctx.check(len(am) == len(flat), 'expand: arc map length')
    ctx.check(len(o) == len(As), 'expand: number of FSAs')
    for x, m in zip(flat, am):
        ctx.check(x['tag'] == m + 1 and x['fa'] == 0.25 * (m + 1) and x['neg'] == (m + 1 if m >= 0 else -5), 'expand: attributes')
        if only:
            ctx.check(eq(x['other'], R['other'][m] if m >= 0 else []), 'expand: the other ragged attribute')
    ctx.check(g.plain == 'p', 'expand: plain attribute')
    i = b0 = 0
    for a, b in zip(As, o):
        m = am[i:i + len(b.arcs)]
        i += len(b.arcs)
        if b.n or a.n:
            well_formed(ctx, b, 'expand')
        ctx.check(sorted(v for v in m if v >= 0) == list(range(b0, b0 + len(a.arcs))), 'expand: every arc once')
        if a.n == 0:
            ctx.check(b.n == 0, 'expand: empty')
            continue
        # follow the chains
        out = {}
        for y, v in zip(b.arcs, m):
            out.setdefault(int(y['src']), []).append((y, v))
        st, todo, used = {0: 0}, [0], 0
        reached = 0
        while todo:
            s = todo.pop()
            reached += 1
            mine = [k for k, x in enumerate(a.arcs) if int(x['src']) == s]
            got = {v - b0: y for y, v in out.get(st[s], [])}
            ctx.check(sorted(got) == mine and len(got) == len(out.get(st[s], [])), 'expand: arcs that leave a state')
            if sorted(got) != mine:
                return
            for k in mine:
                x, ch = a.arcs[k], [got[k]]
                want = max([1] + [len(R[q][b0 + k]) + (final[b0 + k] and not (R[q][b0 + k] and R[q][b0 + k][-1] is not None and bool(R[q][b0 + k][-1] == -1)) and len(R[q][b0 + k]) > 0) for q in names])
                while len(ch) < want:
                    nx = out.get(int(ch[-1]['dst']), [])
                    ctx.check(len(nx) == 1 and nx[0][1] == -1, 'expand: a chain of new states')
                    if not (len(nx) == 1 and nx[0][1] == -1):
                        return
                    ch.append(nx[0][0])
                used += len(ch)
                ctx.check(ch[0]['score'] == x['score'] and all_(y['score'] == 0 for y in ch[1:]), 'expand: scores')
                lab = [SI(0)] * (len(ch) - 1) + [x['label']] if final[b0 + k] else [x['label']] + [SI(0)] * (len(ch) - 1)
                ctx.check(eq([y['label'] for y in ch], lab), 'expand: labels')
                for q in names:
                    w = [v for v in R[q][b0 + k] if not (final[b0 + k] and bool(v == -1))]
                    w = w + [SI(0)] * (len(ch) - len(w))
                    if final[b0 + k]:
                        w[-1] = SI(-1)
                    ctx.check(eq([y[q] for y in ch], w), f'expand: values')
                d, e = int(x['dst']), int(ch[-1]['dst'])
                if d not in st:
                    st[d] = e
                    todo.append(d)
                ctx.check(st[d] == e, 'expand: destination')
        if reached == a.n:
            ctx.check(used == len(b.arcs), 'expand: no other arcs')
            ctx.check(b.n == a.n + len(b.arcs) - len(a.arcs), 'expand: number of states')
        b0 += len(a.arcs)
    c = [ctx.flt(f'c{i}', -2, 2) for i in range(len(flat))]
    g.scores.backward(wr(c, torch.float32, (len(flat),)))
    for k, v in enumerate(rd(sc.grad)):
        ctx.check(v == c[am.index(k)], 'expand: gradient')


def replace(ctx):
    """replace_fsa(): an index FSA or batch of up to 4 states and 4 arcs, labels 0..3, a batch of 1 to 3 FSAs, also empty, symbols from 1 or 2."""
    n = ctx.choose('n', [2, 1, 3])
    S = [[(3, [(0, 1), (1, 2)]), (2, [(0, 1)])], [(0, []), (3, [(0, 0), (0, 1), (0, 2), (1, 2)])], [(2, [(0, 1)])]]
    src = [topo_vars(ctx, f's{i}', S[i], labels=(0, 3)) for i in range(n)]
    I = [(3, [(0, 1), (1, 2)]), (3, [(0, 0), (0, 1), (0, 1), (1, 2)]), (4, [(0, 1), (0, 2), (1, 3), (2, 1)])]
    vec = ctx.choose('vec', [False, True])
    ind = [topo_vars(ctx, f'i{k}', t, labels=(0, 3)) for k, t in enumerate([I[:2], [(0, [])], I[:1]] if vec else [I])]
    beg = ctx.choose('begin', [1, 2])
    fs, fi = build_vec(src), build_vec(ind) if vec else build(ind[0])
    sa, ia = [x for a in src for x in a.arcs], [x for a in ind for x in a.arcs]
    for f, L, p in ((fs, sa, 's'), (fi, ia, 'i')):
        setattr(f, p + 'tag', torch.arange(1, len(L) + 1, dtype=torch.int32))
        setattr(f, p + 'rag', k2.RaggedTensor([[i + 1] * (i % 3) for i in range(len(L))], dtype=torch.int32))
        f.fa = torch.arange(1, len(L) + 1, dtype=torch.float32) * 0.25
        f.scores = f.scores.detach().clone().requires_grad_(True)
    ls, li = fs.scores, fi.scores
    g, mi, ms = k2.replace_fsa(fs, fi, beg, ret_arc_map=True)
    mi, ms = ints(rd(mi)), ints(rd(ms))
    o = out_vec(g) if vec else [out_fsa(g)]
    flat = [x for b in o for x in b.arcs]
    ctx.check(len(mi) == len(ms) == len(flat) and len(o) == len(ind), 'replace: sizes')
    for x, i, s in zip(flat, mi, ms):
        ctx.check((i >= 0) != (s >= 0), 'replace: an arc has one source')
        ctx.check(x['itag'] == i + 1 and x['stag'] == s + 1, 'replace: int attributes')
        ctx.check(x['fa'] == 0.25 * (max(i, s) + 1), 'replace: float attribute')
        ctx.check(eq(x['irag'], [i + 1] * (i % 3) if i >= 0 else []) & eq(x['srag'], [s + 1] * (s % 3) if s >= 0 else []), 'replace: ragged attributes')
        y = ia[i] if i >= 0 else sa[s]
        ctx.check(x['score'] == y['score'], 'replace: scores')
    sb = [0]
    for a in src:
        sb.append(sb[-1] + len(a.arcs))
    p = ib = 0
    for a, b in zip(ind, o):
        m1, m2 = mi[p:p + len(b.arcs)], ms[p:p + len(b.arcs)]
        p += len(b.arcs)
        sub = []
        for y in a.arcs:
            k = next((j for j in range(n) if bool(y['label'] == beg + j)), None)
            sub.append(k)
        ctx.check(b.n == a.n + sum(max(src[k].n - 1, 0) for k in sub if k is not None), 'replace: number of states')
        ctx.check(len(b.arcs) == len(a.arcs) + sum(len(src[k].arcs) for k in sub if k is not None), 'replace: number of arcs')
        if b.arcs:
            well_formed(ctx, b, 'replace')
        if not a.n:
            continue
        out = {}
        for y, i, s in zip(b.arcs, m1, m2):
            out.setdefault(int(y['src']), {})[(0, i - ib) if i >= 0 else (1, s)] = y
        where, todo = {('i', 0): 0}, [('i', 0)]

        def go(node, st):
            if node in where:
                ctx.check(where[node] == st, 'replace: destination')
            else:
                where[node] = st
                todo.append(node)
        while todo:
            q = todo.pop()
            got = out.get(where[q], {})
            if q[0] == 'i':
                want = {(0, k): k for k, y in enumerate(a.arcs) if int(y['src']) == q[1]}
            else:
                want = {(1, sb[sub[q[1]]] + j): j for j, y in enumerate(src[sub[q[1]]].arcs) if int(y['src']) == q[2]}
            ctx.check(set(got) == set(want), 'replace: arcs that leave a state')
            if set(got) != set(want):
                return
            for key, k in want.items():
                y = got[key]
                d = int(y['dst'])
                if q[0] == 'i':
                    x = a.arcs[k]
                    if sub[k] is None:
                        ctx.check(y['label'] == x['label'], 'replace: label of a kept arc')
                        go(('i', int(x['dst'])), d)
                    else:
                        ctx.check(y['label'] == 0, 'replace: epsilon to the inserted FSA')
                        go(('s', k, 0) if src[sub[k]].n else ('i', int(x['dst'])), d)
                else:
                    x = src[sub[q[1]]].arcs[k]
                    end = int(x['dst']) == src[sub[q[1]]].n - 1
                    ctx.check(y['label'] == (SI(0) if end else x['label']), 'replace: label of an inserted arc')
                    go(('i', int(a.arcs[q[1]]['dst'])) if end else ('s', q[1], int(x['dst'])), d)
        ctx.check(len(set(where.values())) == len(where), 'replace: one state each')
        ib += len(a.arcs)
    c = [ctx.flt(f'c{i}', -2, 2) for i in range(len(flat))]
    g.scores.backward(wr(c, torch.float32, (len(flat),)))
    for l, m in ((li, mi), (ls, ms)):
        for k, v in enumerate(rd(l.grad)):
            ctx.check(v == ssum([c[j] for j, x in enumerate(m) if x == k], SF(0)), 'replace: gradient')


HARNESSES = [Harness(select), Harness(add), Harness(ragged), Harness(members),
             Harness(expand, params=dict(patterns=[(1,), (0, 2), (2, 1, 0), (3, 0, 1)])), Harness(replace)]
QUICK_S = 60
