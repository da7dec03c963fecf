"""k2-specific input builders and oracles for the harnesses."""
import torch
import k2
import _k2

import sym
from sym import SB, SF, SI, si, sf, sb, ite, all_, any_, implies, smax, ssum, close, fexp, flog, lse, rd, wr, NEG
from explore import Discard


class A:
    """An automaton read back as symbolic arcs: (src, dst, label, score, aux...)."""

    def __init__(self, n, arcs):
        self.n = n          # number of states (concrete)
        self.arcs = arcs    # list of dicts


def cint(x):
    """Concretises (forks)."""
    return int(x)


def out_fsa(fsa):
    """A k2 FSA (2 axes) as an A; fields of tensor attributes are attached by name."""
    arcs = rd(fsa.arcs.values()[:, :3])
    sc = rd(fsa.scores)
    n = fsa.arcs.dim0()
    attrs = {}
    for name, v in fsa.named_tensor_attr(include_scores=False):
        if isinstance(v, torch.Tensor):
            attrs[name] = rd(v)
        else:
            attrs[name] = out_ragged(v)
    res = []
    for i, (a, s) in enumerate(zip(arcs, sc)):
        d = {'src': a[0], 'dst': a[1], 'label': a[2], 'score': s}
        for k, v in attrs.items():
            d[k] = v[i]
        res.append(d)
    return A(n, res)


def out_vec(fsa):
    """An FsaVec as a list of A with state numbers local to each FSA."""
    arcs = rd(fsa.arcs.values()[:, :3])
    sc = rd(fsa.scores)
    attrs = {}
    for name, v in fsa.named_tensor_attr(include_scores=False):
        attrs[name] = rd(v) if isinstance(v, torch.Tensor) else out_ragged(v)
    s1 = [int(x) for x in rd(fsa.arcs.shape().row_splits(1))]
    s2 = [int(x) for x in rd(fsa.arcs.shape().row_splits(2))]
    res = []
    for f in range(len(s1) - 1):
        lo, hi = s2[s1[f]], s2[s1[f + 1]]
        L = []
        for i in range(lo, hi):
            d = {'src': arcs[i][0], 'dst': arcs[i][1], 'label': arcs[i][2], 'score': sc[i]}
            for k, v in attrs.items():
                d[k] = v[i]
            L.append(d)
        res.append(A(s1[f + 1] - s1[f], L))
    return res


def out_ragged(r):
    """A RaggedTensor as nested lists of symbolic scalars."""
    vals = rd(r.values)
    n = r.num_axes
    splits = [[int(x) for x in rd(r.shape.row_splits(i))] for i in range(1, n)]
    cur = vals
    for sp in reversed(splits):
        cur = [cur[sp[i]:sp[i + 1]] for i in range(len(sp) - 1)]
    return cur


# ---------------------------------------------------------------- building
def arcs_vars(ctx, p, n_states, n_arcs, labels=(0, 2), topo=None, dst=None, acyclic=False, score=(-4, 4), counts=None,
              aux=None, sym_scores=True, need_final=True):
    """Arcs over states 0..n_states-1 (the last is final).  topo: list of (src, dst) for a
    fixed structure; otherwise src and dst are symbolic.  A label is -1 exactly on arcs to
    the final state."""
    F = n_states - 1
    arcs = []
    prev = SI(0)
    for i in range(n_arcs if topo is None else len(topo)):
        if topo is None:
            s = ctx.int(f'{p}s{i}', 0, F - 1)
            if i:
                ctx.assume(prev <= s)
            prev = s
            d = ctx.int(f'{p}d{i}', 0, F)
            if acyclic:
                ctx.assume(d > s)
        else:
            s, d = (SI(x) for x in topo[i])
        lab = ctx.int(f'{p}l{i}', labels[0], labels[1])
        lab = ite(d == F, SI(-1), lab)
        sc = ctx.flt(f'{p}w{i}', *score) if sym_scores else SF(0)
        a = {'src': s, 'dst': d, 'label': lab, 'score': sc}
        if aux is not None:
            x = ctx.int(f'{p}x{i}', aux[0], aux[1])
            a['aux_labels'] = ite(d == F, SI(-1), x)
        arcs.append(a)
    if need_final:
        ctx.assume(any_(a['dst'] == F for a in arcs))
    return A(n_states, arcs)


def build(a, requires_grad=False, attrs=False):
    """A -> k2.Fsa through the real constructor (from a tensor)."""
    t = wr([[x['src'], x['dst'], x['label'], SI(0)] for x in a.arcs], torch.int32, (len(a.arcs), 4))
    f = k2.Fsa(t)
    f.scores = wr([x['score'] for x in a.arcs], torch.float32, (len(a.arcs),))
    if a.arcs and 'aux_labels' in a.arcs[0]:
        f.aux_labels = wr([x['aux_labels'] for x in a.arcs], torch.int32, (len(a.arcs),))
    if attrs:
        add_attrs(f, len(a.arcs))
    if requires_grad:
        f.requires_grad_(True)
    return f


def topo_vars(ctx, p, topos, labels=(0, 2), score=(-4, 4), aux=None, sym_scores=True):
    """One of several fixed structures [(n_states, [(src, dst), ...]), ...] with symbolic labels and scores."""
    n, t = ctx.choose(f'{p}topo', topos) if len(topos) > 1 else topos[0]
    return arcs_vars(ctx, p, n, len(t), labels, topo=t, score=score, aux=aux, sym_scores=sym_scores, need_final=False)


def build_vec(As, attrs=False):
    """List of A -> FsaVec, through the constructor from a 1-D tensor; any A may be empty."""
    s1, s12, arcs, sc = [0], [0], [], []
    for a in As:
        s1.append(s1[-1] + a.n)
        s12.append(s12[-1] + len(a.arcs))
        for x in a.arcs:
            arcs += [x['src'], x['dst'], x['label'], SI(0)]
            sc.append(x['score'])
    ints = [SI(len(As)), SI(0)] + [SI(x) for x in s1] + [SI(x) for x in s12] + arcs
    f = k2.Fsa(wr(ints, torch.int32, (len(ints),)))
    if sc:
        f.scores = wr(sc, torch.float32, (len(sc),))
    arcs = [x for a in As for x in a.arcs]
    if arcs and 'aux_labels' in arcs[0]:
        f.aux_labels = wr([x['aux_labels'] for x in arcs], torch.int32, (len(arcs),))
    if attrs:
        add_attrs(f, len(arcs))
    return f


def add_attrs(f, n, ragged=True):
    """An int, a float and a ragged attribute that identify the arc, and a plain one."""
    f.tag = torch.arange(1, n + 1, dtype=torch.int32)
    f.fa = torch.arange(1, n + 1, dtype=torch.float32) * 0.25
    if ragged:
        f.rag = k2.RaggedTensor([[i + 1] * (i % 3) for i in range(n)], dtype=torch.int32)
    f.neg = torch.arange(1, n + 1, dtype=torch.int32)
    f.neg_filler = -5
    f.plain = 'p'


def check_attrs(ctx, out_arcs, fsa, amap, msg):
    """Attributes of add_attrs follow a tensor arc map; filler where it is -1."""
    ctx.check(getattr(fsa, 'plain', None) == 'p', f'{msg}: plain attribute')
    for x, m in zip(out_arcs, amap):
        ctx.check(x['tag'] == m + 1, f'{msg}: int attribute')
        ctx.check(x['fa'] == 0.25 * (m + 1), f'{msg}: float attribute')
        ctx.check(x['neg'] == (m + 1 if m >= 0 else -5), f'{msg}: int attribute with a filler')
        if 'rag' not in x:
            continue
        r = x['rag']
        ctx.check(len(r) == (m % 3 if m >= 0 else 0) and all_(v == m + 1 for v in r), f'{msg}: ragged attribute')


def check_maps(ctx, src, out, amap, msg, key=('label', 'score')):
    """Every output arc carries the label and score of the arc it maps to."""
    ctx.check(len(amap) == len(out), f'{msg}: arc map length')
    for x, m in zip(out, amap):
        ctx.check(0 <= m < len(src), f'{msg}: arc map range')
        if 0 <= m < len(src):
            for k in key:
                ctx.check(x[k] == src[m][k], f'{msg}: {k} of a mapped arc')


def ints(x):
    """A list of symbolic integers, concretised."""
    return [int(v) for v in x]


def acyclic_perm(ctx, p, a):
    """Restricts a to acyclic structures that need not be sorted (self-loops excluded)."""
    import itertools
    mid = list(range(1, a.n - 1))
    perms = list(itertools.permutations(mid))
    pm = ctx.choose(f'{p}perm', perms)
    rank = {0: 0, a.n - 1: a.n - 1, **{s: i + 1 for i, s in enumerate(pm)}}

    def rk(x):
        r = SI(0)
        for s, v in rank.items():
            r = ite(x == s, SI(v), r)
        return r
    for x in a.arcs:
        ctx.assume(rk(x['src']) < rk(x['dst']))


def reach(a, start, back=False):
    """For each state, whether it is reachable from start (or reaches it)."""
    r = [SB(i == start) for i in range(a.n)]
    for _ in range(a.n):
        nr = list(r)
        for x in a.arcs:
            s, d = (x['dst'], x['src']) if back else (x['src'], x['dst'])
            on = any_((s == i) & r[i] for i in range(a.n))
            for j in range(a.n):
                nr[j] = nr[j] | (on & (d == j))
        r = nr
    return r


# ----------------------------------------------------------------- oracles
def wt_strings(ctx, L, alphabet, p='q'):
    """A symbolic string of length <= L: variables for each position."""
    return [ctx.int(f'{p}{i}', alphabet[0], alphabet[1]) for i in range(L)]


def pick(vec, idx):
    """vec[idx] for a symbolic idx."""
    if not isinstance(idx, SI) or not idx.i:
        v = idx.v if isinstance(idx, SI) else idx
        return vec[v] if 0 <= v < len(vec) else SF(NEG)
    r = SF(NEG)
    for k, x in enumerate(vec):
        r = ite(idx == k, x, r)
    return r


def step(a, alpha, match):
    """One arc: new[d] = max over arcs with match(arc) of alpha[src] + score."""
    new = [[] for _ in range(a.n)]
    for x in a.arcs:
        m = match(x)
        if not m.i and not m.v:
            continue
        v = pick(alpha, x['src'])
        if not v.i and v.v == NEG:
            continue
        v = ite(m, v + x['score'], SF(NEG))
        d = x['dst']
        if d.i:
            for k in range(a.n):
                new[k].append(ite(d == k, v, SF(NEG)))
        elif 0 <= d.v < a.n:
            new[d.v].append(v)
    return [smax(v) for v in new]


def eclose(a, alpha, key='label', rounds=None):
    """Closes alpha under epsilon arcs (no epsilon cycle gains weight)."""
    for _ in range(rounds if rounds is not None else a.n - 1):
        st = step(a, alpha, lambda x: x[key] == 0)
        alpha = [smax([p, q]) for p, q in zip(alpha, st)]
    return alpha


def weight(a, w, eps=True, key='label'):
    """Best weight of accepting the label string w (without the final -1): max over paths,
    -inf if there is none.  eps: label 0 is epsilon."""
    if a.n == 0:
        return SF(NEG)
    alpha = [SF(0)] + [SF(NEG)] * (a.n - 1)
    if eps:
        alpha = eclose(a, alpha, key)
    for c in w:
        alpha = step(a, alpha, lambda x: (x[key] == c))
        if eps:
            alpha = eclose(a, alpha, key)
    alpha = step(a, alpha, lambda x: x[key] == -1)
    return alpha[a.n - 1]


def feq(a, b):
    """Equality of scores, where both may be -inf."""
    return sf(a) == sf(b)


def same_language(ctx, f, g, w, eps, msg, wf=None):
    """f and g (A's, or weight functions) agree on every prefix of w."""
    for n in range(len(w) + 1):
        x = f(w[:n]) if callable(f) else weight(f, w[:n], eps)
        y = g(w[:n]) if callable(g) else weight(g, w[:n], eps)
        ctx.check(feq(x, y), f'{msg} (string length {n})')


def relation(a, x, y, eps=True, rounds=None, aux='aux_labels'):
    """Best weight over paths that read x and write y (label 0 and auxiliary label 0 are epsilon,
    -1 ends): the auxiliary labels of an arc may be a list.  A mapping cell (i, j) -> weight."""
    I, J = len(x) + 1, len(y) + 1
    al = [[[SF(NEG)] * J for _ in range(I)] for _ in range(a.n)]
    if a.n == 0:
        return SF(NEG)
    al[0][0][0] = SF(0)
    cur = {(0, 0, 0): SF(0)}
    best = SF(NEG)
    ends = []
    for _ in range(rounds or a.n - 1 + 0):
        nxt = {}
        for (s, i, j), v in cur.items():
            for k in a.arcs:
                on = k['src'] == s
                if not on.i and not on.v:
                    continue
                w = v + k['score']
                out = k[aux] if isinstance(k[aux], list) else [k[aux]]
                fin = k['label'] == -1
                for di in (0, 1):
                    if i + di > len(x):
                        continue
                    c = on & (((k['label'] == 0) | fin) if di == 0 else (k['label'] == x[i]))
                    if not c.i and not c.v:
                        continue
                    # consume the output labels
                    opts = [(c, j)]
                    for o in out:
                        no = []
                        for cc, jj in opts:
                            e = cc & ((o == 0) | (o == -1))
                            if e.i or e.v:
                                no.append((e, jj))
                            if jj < len(y):
                                e = cc & (o == y[jj])
                                if e.i or e.v:
                                    no.append((e, jj + 1))
                        opts = no
                    for cc, jj in opts:
                        val = ite(cc, w, SF(NEG))
                        if i + di == len(x) and jj == len(y):
                            ends.append(ite(cc & fin, w, SF(NEG)))
                        dd = [k['dst'].v] if not k['dst'].i else range(a.n)
                        for d in dd:
                            if d == a.n - 1:
                                continue
                            t = val if not k['dst'].i else ite(k['dst'] == d, val, SF(NEG))
                            nxt.setdefault((d, i + di, jj), []).append(t)
        cur = {k: smax(v) for k, v in nxt.items()}
    return smax(ends)


def well_formed(ctx, a, msg):
    """Structural validity of one FSA: arcs grouped by source, -1 exactly on final arcs."""
    for i, x in enumerate(a.arcs):
        ctx.check((x['src'] >= 0) & (x['src'] < a.n - 1) & (x['dst'] >= 0) & (x['dst'] < a.n), f'{msg}: state range')
        ctx.check((x['dst'] == a.n - 1) == (x['label'] == -1), f'{msg}: -1 exactly on final arcs')
        if i:
            ctx.check(a.arcs[i - 1]['src'] <= x['src'], f'{msg}: arcs grouped by source state')


def vec(x):
    return [v for v in x]


# ------------------------------------------------------------ nested lists
def nest(ctx, p, sizes, dt=torch.int32, lo=-2, hi=2):
    """A nested list: sizes are (lo, hi) per axis; the structure is chosen and the values are symbolic."""
    cnt = [0]

    def rec(k):
        n = int(ctx.int(f'{p}n{cnt[0]}', *sizes[k]))
        cnt[0] += 1
        if k == len(sizes) - 1:
            r = []
            for _ in range(n):
                r.append(ctx.int(f'{p}v{cnt[0]}', lo, hi) if dt is torch.int32 else ctx.flt(f'{p}v{cnt[0]}', lo, hi, 1))
                cnt[0] += 1
            return r
        return [rec(k + 1) for _ in range(n)]
    return rec(0)


def layers(x, axes):
    """Sizes of the sublists per axis, and the flat values."""
    cur, out = [x], []
    for _ in range(axes - 1):
        cur = [y for l in cur for y in l]
        out.append([len(y) for y in cur])
    return out, [v for l in cur for v in l]


def mk(x, axes, dt=torch.int32, how='splits'):
    """A ragged tensor with the content x."""
    ls, flat = layers(x, axes)
    shape = None
    for sz in ls:
        sp, ids = [0], []
        for i, n in enumerate(sz):
            sp.append(sp[-1] + n)
            ids += [i] * n
        sp, ids = torch.tensor(sp, dtype=torch.int32), torch.tensor(ids, dtype=torch.int32)
        if how == 'splits':
            s = k2.ragged.create_ragged_shape2(row_splits=sp)
        elif how == 'size':
            s = k2.ragged.create_ragged_shape2(row_splits=sp, cached_tot_size=sum(sz))
        elif how == 'both':
            s = k2.ragged.create_ragged_shape2(row_splits=sp, row_ids=ids, cached_tot_size=sum(sz))
        else:
            s = k2.ragged.create_ragged_shape2(row_ids=ids, cached_tot_size=sum(sz)) if sz and sz[-1] else k2.ragged.create_ragged_shape2(row_splits=sp)
        shape = s if shape is None else shape.compose(s)
    return k2.RaggedTensor(shape, wr(flat, dt, (len(flat),)))


def eq(a, b):
    if isinstance(a, list) != isinstance(b, list):
        return SB(False)
    if isinstance(a, list):
        return all_([SB(len(a) == len(b))] + [eq(x, y) for x, y in zip(a, b)])
    return a == b


def shape_ok(ctx, s, x, axes, msg):
    """The shape object describes the structure of x."""
    ls, flat = layers(x, axes)
    ctx.check(s.num_axes == axes, f'{msg}: number of axes')
    ctx.check(s.dim0 == len(x), f'{msg}: dim0')
    ts = [len(x)] + [sum(z) for z in ls]
    ctx.check(list(s.tot_sizes()) == ts, f'{msg}: total sizes')
    ctx.check(s.numel() == ts[-1], f'{msg}: numel')
    for i, sz in enumerate(ls):
        sp, ids = [0], []
        for j, n in enumerate(sz):
            sp.append(sp[-1] + n)
            ids += [j] * n
        ctx.check(eq(rd(s.row_splits(i + 1)), sp), f'{msg}: row splits {i + 1}')
        ctx.check(eq(rd(s.row_ids(i + 1)), ids), f'{msg}: row ids {i + 1}')
        ctx.check(s.tot_size(i + 1) == ts[i + 1], f'{msg}: total size {i + 1}')
        ctx.check(s.max_size(i + 1) == max(sz, default=0), f'{msg}: maximum size {i + 1}')


def same(ctx, r, x, axes, msg, dt=None):
    """The ragged tensor r has the content x."""
    if r.num_axes != axes:
        ctx.fail(f'{msg}: number of axes')
        return
    shape_ok(ctx, r.shape, x, axes, msg)
    ctx.check(r.dim0 == len(x) and r.num_axes == axes and r.numel() == len(layers(x, axes)[1]), f'{msg}: sizes')
    ctx.check(eq(out_ragged(r), x), f'{msg}: content')
    if dt is not None:
        ctx.check(r.dtype == dt, f'{msg}: dtype')


def join(x):
    return [v for y in x for v in y]


def depth_map(x, k, f):
    """f applied to every sublist at depth k."""
    return f(x) if k == 0 else [depth_map(y, k - 1, f) for y in x]


def shape_of(x, axes):
    """x with the values replaced by their position."""
    it = iter(range(10 ** 6))
    def rec(y, k):
        return [rec(z, k - 1) if k > 1 else next(it) for z in y]
    return rec(x, axes)
