"""Operations leave their operands as they are, repeat their result, and share no memory with it."""
import _k2
from hlp import *
from explore import Harness, Discard
from C11 import SINGLE, BATCH, T
from C05 import sort_assume
import C12


def snap(x):
    """All that can be seen of an object, as nested lists of symbolic scalars."""
    if isinstance(x, torch.Tensor):
        return [str(x.dtype), list(x.shape), bool(x.requires_grad), rd(x.detach().reshape(-1)) if x.numel() else []]
    if isinstance(x, k2.RaggedTensor):
        return [str(x.dtype), x.num_axes, [[int(v) for v in rd(x.shape.row_splits(i))] for i in range(1, x.num_axes)], rd(x.values) if x.numel() else []]
    if isinstance(x, k2.DenseFsaVec):
        return [snap(x.scores), snap(x.dense_fsa_vec.shape().row_splits(1))]
    if isinstance(x, k2.RaggedShape):
        return [[int(v) for v in rd(x.row_splits(i))] for i in range(1, x.num_axes)]
    if isinstance(x, k2.Fsa):
        a = x.arcs
        n = a.num_axes()
        raw = a.values()
        r = [n, [[int(v) for v in rd(a.shape().row_splits(i))] for i in range(1, n)], snap(raw[:, :3]), snap(_k2.as_float(raw[:, 3])), snap(x.labels), int(x.properties)]
        r += [sorted(k for k, _ in x.named_tensor_attr()), sorted(k for k, _ in x.named_non_tensor_attr() if k != 'labels_version')]
        r += [snap(v) for k, v in sorted(x.named_tensor_attr(), key=lambda t: t[0])]
        return r + [v for k, v in sorted(x.named_non_tensor_attr()) if k != 'labels_version' and isinstance(v, (int, float, str, type(None)))]
    if isinstance(x, (list, tuple)):
        return [snap(v) for v in x]
    return x


def equal(ctx, x, y, msg):
    if isinstance(x, list):
        ctx.check(isinstance(y, list) and len(x) == len(y), msg)
        if isinstance(y, list) and len(x) == len(y):
            sc = [(a, b) for a, b in zip(x, y) if isinstance(a, (SI, SF))]
            if sc:
                ctx.check(all_((a == b) if isinstance(a, SI) else feq(a, b) for a, b in sc), msg)
            for a, b in zip(x, y):
                if not isinstance(a, (SI, SF)):
                    equal(ctx, a, b, msg)
    elif isinstance(x, (SI, SF)):
        ctx.check(x == y, msg)
    else:
        ctx.check(x == y, msg)


def pure(ctx, op, args, msg, write=True):
    before = snap(args)
    g = op(*args)
    one = snap(g)
    equal(ctx, before, snap(args), f'{msg}: operands')
    h = op(*args)
    equal(ctx, one, snap(h), f'{msg}: the same result again')
    equal(ctx, one, snap(g), f'{msg}: the first result, after the second call')
    equal(ctx, before, snap(args), f'{msg}: operands after the second call')
    if write:
        for r in (g if isinstance(g, tuple) else (g,)):
            if isinstance(r, k2.Fsa) and not any(r is a for a in args) and r is not h and r.num_arcs:
                r.scores = torch.full((r.num_arcs,), 7.0)
                r.labels = torch.tensor([-1 if int(v) == -1 else 5 for v in rd(r.labels)], dtype=torch.int32)
        equal(ctx, before, snap(args), f'{msg}: operands after the result was changed')
        equal(ctx, one, snap(h), f'{msg}: second result after the first was changed')


def deco(ctx, f, n, p=''):
    """A plain, a ragged, a float and a non-tensor attribute; scores that need gradients."""
    f.fa = torch.tensor([0.5 * i for i in range(n)])
    f.tag = torch.arange(1, n + 1, dtype=torch.int32)
    f.rag = k2.RaggedTensor([[i] * (i % 3) for i in range(n)], dtype=torch.int32)
    f.note = 'text'
    if ctx.choose(f'{p}grad', [False, True]):
        f.requires_grad_(True)


PLAIN = {k: v for k, v in SINGLE.items() if k not in ('convert', 'rename', 'member', 'to', 'closure')}
PLAIN.update({
    'closure': k2.closure, 'openfst': lambda f: k2.to_str(f, openfst=True), 'str': lambda f: k2.to_str_simple(f), 'dict': lambda f: k2.to_tensor(f),
    'determinize': k2.determinize, 'equal': lambda f: k2.is_rand_equivalent(f, f, log_semiring=False, npath=2), 'epsilon_map': lambda f: k2.add_epsilon_self_loops(f, ret_arc_map=True),
    'arc_sort_map': lambda f: k2.arc_sort(f, ret_arc_map=True), 'detach': lambda f: f.detach(), 'expand': k2.expand_ragged_attributes,
    'union': lambda f: k2.union(k2.create_fsa_vec([f])), 'replace': lambda f: k2.replace_fsa(k2.create_fsa_vec([f]), f, 1),
})
SHARE = {'detach', 'dict'}


def unary(ctx):
    """27 operations on an FSA out of 3 structures up to 4 states and 5 arcs, labels 0..2, with plain, ragged, float and other attributes."""
    op = ctx.choose('op', ctx.params['ops'])
    a = topo_vars(ctx, '', T[4:5] + T[6:7] if op in ('closure', 'determinize', 'equal', 'replace', 'openfst', 'str') else T[:2] + T[3:4], labels=(0, 2) if op not in ('determinize', 'closure') else (1, 2), score=(-2, 0), aux=(0, 1) if op == 'invert' else None)
    f = build(a)
    deco(ctx, f, len(a.arcs))
    if op == 'closure':
        del f.rag
    if op == 'determinize' and f.requires_grad:
        raise Discard()
    if op in ('self', 'replace'):
        del f.tag, f.rag
    if op == 'self':
        sort_assume(ctx, a)
    pure(ctx, PLAIN[op], [f], op, write=op not in SHARE)


VEC = dict(BATCH)
VEC.pop('last')
VEC.update({
    'tot': lambda f: f.get_tot_scores(True, False), 'post': lambda f: k2.top_sort(f).get_arc_post(True, False), 'fwd': lambda f: f.get_forward_scores(False, False), 'bwd': lambda f: f.get_backward_scores(False, False),
    'top_sort': k2.top_sort, 'list': lambda f: tuple(f[i] for i in range(f.shape[0])), 'cat3': lambda f: k2.cat([f, f, f]), 'vec': lambda f: k2.create_fsa_vec([f[0], f[1]]),
    'shortest': lambda f: k2.shortest_path(f, False), 'tensor': lambda f: f.arcs.values(), 'levenshtein': lambda f: k2.levenshtein_graph([[1, 2], [2]]),
    'index2': lambda f: k2.index_fsa(f, torch.tensor([1], dtype=torch.int32)),
})


def batch(ctx):
    """22 operations on a batch of 2 or 3 FSAs with attributes, also empty ones."""
    op = ctx.choose('op', list(VEC))
    n = ctx.choose('n', [2, 3])
    S = [[T[0], T[4]], [T[5], T[1]], [T[6], T[4]]]
    if op == 'union':
        S[1] = S[1][1:]
    As = [topo_vars(ctx, f'{i}', S[i], labels=(0, 1) if op not in ('path', 'shortest') else (1, 1), score=(-1, 0), aux=(0, 1) if op == 'invert' else None) for i in range(n)]
    f = build_vec(As)
    deco(ctx, f, sum(len(a.arcs) for a in As))
    pure(ctx, VEC[op], [f], op, write=op not in ('list', 'tensor'))


def binary(ctx):
    """intersect(), intersect_device(), compose(), create_fsa_vec(), replace_fsa() and cat() of two FSAs out of 4 structures with attributes."""
    op = ctx.choose('op', ['intersect', 'intersect_noeps', 'device', 'device_sorted', 'compose', 'vec', 'replace', 'cat'])
    a = topo_vars(ctx, 'a', [(3, [(0, 0), (0, 1), (1, 2)]), (3, [(0, 1), (0, 2), (1, 2)])], labels=(0, 1), score=(-1, 0), aux=(0, 1) if op == 'compose' else None)
    b = topo_vars(ctx, 'b', [T[4], (3, [(0, 1), (0, 1), (1, 2)])], labels=(0, 1), score=(-1, 0))
    sort_assume(ctx, a)
    sort_assume(ctx, b)
    mk = build if op not in ('device', 'device_sorted', 'cat') else lambda x: build_vec([x])
    f, g = mk(a), mk(b)
    deco(ctx, f, len(a.arcs), 'a')
    if op in ('vec', 'cat'):
        deco(ctx, g, len(b.arcs), 'b')
    else:
        g.other = torch.arange(1, len(b.arcs) + 1, dtype=torch.int32)
        g.fa = torch.tensor([0.25 * i for i in range(len(b.arcs))])
    m = torch.zeros(1, dtype=torch.int32)
    ops = {'intersect': k2.intersect, 'intersect_noeps': lambda x, y: k2.intersect(x, y, treat_epsilons_specially=False), 'compose': k2.compose,
           'device': lambda x, y: k2.intersect_device(x, y, m), 'device_sorted': lambda x, y: k2.intersect_device(x, y, m, sorted_match_a=True, ret_arc_maps=True),
           'vec': lambda x, y: k2.create_fsa_vec([x, y]), 'cat': lambda x, y: k2.cat([x, y]), 'replace': lambda x, y: k2.replace_fsa(k2.create_fsa_vec([x]), y, 1)}
    if op == 'replace':
        # what both have is not joined here
        del g.fa
    pure(ctx, ops[op], [f, g], op)


def dense(ctx):
    """intersect_dense() and intersect_dense_pruned() of graphs out of 3 with 1 or 2 sequences of up to 2 frames; get_lattice()."""
    op = ctx.choose('op', ['dense', 'pruned', 'lattice', 'frame'])
    gr = C12.graph(ctx, 'g', ctx.choose('g', ['loop', 'chain', 'split']))
    f = build(gr)
    deco(ctx, f, len(gr.arcs))
    x = C12.tens(C12.logits(ctx, 2, 2, 2), 2, 2, 2)
    if ctx.choose('dgrad', [False, True]):
        x = x.detach().requires_grad_(True)
    seg = torch.tensor(ctx.choose('seg', [[[0, 0, 2], [1, 0, 1]], [[1, 0, 2]]]), dtype=torch.int32)
    d = k2.DenseFsaVec(x, seg)
    if op == 'lattice':
        pure(ctx, lambda f, x: k2.get_lattice(x, torch.tensor([2, 1]), f), [f, x], op)
    elif op == 'pruned':
        pure(ctx, lambda f, d: k2.intersect_dense_pruned(f, d, 4.5, 3.5, 1, 100), [f, d], op)
    elif op == 'frame':
        pure(ctx, lambda f, d: k2.intersect_dense_pruned(f, d, 4.5, 3.5, 1, 100, seqframe_idx_name='sf', frame_idx_name='fr'), [f, d], op)
    else:
        v = k2.create_fsa_vec([f] * len(seg))
        pure(ctx, lambda v, d: k2.intersect_dense(v, d, 3.5), [v, d], op)


RAG = {
    'sum': lambda r: r.sum(), 'max': lambda r: r.max(), 'min': lambda r: r.min(), 'argmax': lambda r: r.argmax(), 'add': lambda r: r.add(torch.ones(r.tot_size(r.num_axes - 2), dtype=r.dtype), 2),
    'remove': lambda r: r.remove_values_eq(1), 'leq': lambda r: r.remove_values_leq(0), 'axis': lambda r: r.remove_axis(0), 'arange': lambda r: r.arange(0, 0, 1),
    'pad': lambda r: r.pad(mode='constant', padding_value=9), 'clone': lambda r: r.clone(), 'cat': lambda r: k2.ragged.cat([r, r], 0), 'stack': lambda r: k2.ragged.cat([r, r], 1), 'index': lambda r: r.index(torch.tensor([1, 0], dtype=torch.int32), 0),
    'list': lambda r: r.tolist(), 'getitem': lambda r: r[0], 'slice': lambda r: r[0:1], 'unique': lambda r: r.unique(need_num_repeats=True, need_new2old_indexes=True), 'str': lambda r: str(r),
    'float': lambda r: r.to(torch.float64), 'shape': lambda r: r.shape.max_size(r.num_axes - 1), 'flatten': lambda r: r.shape.compose(k2.RaggedTensor([[1]] * r.numel()).shape),
}

def ragged(ctx):
    """22 operations of RaggedTensor on 2 or 3 axes, 3 layouts with empty rows."""
    op = ctx.choose('op', list(RAG))
    sizes = ctx.choose('sizes', [[2, 0, 1], [0, 3], [[1, 2], [], [0]]])
    n = 3 if isinstance(sizes[0], list) else 2
    if op in ('unique', 'pad') and n == 3 or op == 'axis' and n == 2:
        raise Discard()
    c = iter(range(9))
    row = lambda m: [ctx.int(f'v{next(c)}', 0, 2) for _ in range(m)]
    x = [row(m) if n == 2 else [row(k) for k in m] for m in sizes]
    r = mk(x, n)
    pure(ctx, RAG[op], [r], op)


def query(f, q):
    return {'tot': lambda: f.get_tot_scores(True, False), 'totf': lambda: f.get_tot_scores(False, False), 'fwd': lambda: f.get_forward_scores(True, False), 'bwd': lambda: f.get_backward_scores(True, False), 'post': lambda: f.get_arc_post(False, False),
            'best': lambda: k2.shortest_path(f, True), 'entering': lambda: f._get_entering_arcs(True), 'props': lambda: int(f.properties), 'sort': lambda: k2.arc_sort(f), 'connect': lambda: k2.connect(f), 'rmeps': lambda: k2.remove_epsilon(f),
            'batches': lambda: f._get_state_batches(), 'top': lambda: k2.top_sort(f), 'dests': lambda: f._get_dest_states()}[q]()


def history(ctx):
    """Up to 2 steps on a batch of 2 FSAs (3 structures) - queries, new scores, new labels, clone, detach, another batch - and then one of 14 queries:
    the answer is that for an FSA made anew from the same arcs."""
    Q = ['tot', 'totf', 'fwd', 'bwd', 'post', 'best', 'entering', 'props', 'sort', 'connect', 'rmeps', 'batches', 'top', 'dests']
    a = topo_vars(ctx, 'a', [T[0], (4, [(0, 1), (0, 2), (1, 3), (2, 3)])], labels=(0, 1), score=(-1, 0))
    b = topo_vars(ctx, 'b', [T[4]], labels=(0, 1), score=(-1, 0))
    f = build_vec([a, b])
    arcs = a.arcs + b.arcs
    n = len(arcs)
    for i in range(ctx.params['steps']):
        st = ctx.choose(f'step{i}', ['none', 'tot', 'post', 'best', 'bwd', 'scores', 'labels', 'clone', 'detach', 'index', 'sort', 'both'])
        if st in ('tot', 'post', 'best', 'bwd'):
            query(f, st)
        elif st == 'both':
            query(f, 'totf'), query(f, 'fwd'), query(f, 'entering')
        elif st == 'scores':
            f.scores = wr([ctx.flt(f's{i}{j}', -1, 0) for j in range(n)], torch.float32, (n,))
        elif st == 'labels':
            f.labels = wr([SI(-1) if int(v) == -1 else ctx.int(f'n{i}{j}', 0, 1) for j, v in enumerate(rd(f.labels))], torch.int32, (n,))
        elif st == 'clone':
            f = f.clone()
        elif st == 'detach':
            f = f.detach()
        elif st == 'index':
            f = k2.index_fsa(f, torch.tensor([1, 0], dtype=torch.int32))
        elif st == 'sort':
            f = k2.arc_sort(f)
    q = ctx.choose('q', Q)
    fresh = build_vec([A(x.n, [{k: y[k] for k in ('src', 'dst', 'label', 'score')} for y in x.arcs]) for x in out_vec(f)])
    equal(ctx, snap(query(fresh, q)), snap(query(f, q)), f'{q} after other steps')


def query_log(f, q):
    return {'tot': lambda: f.get_tot_scores(True, True), 'totf': lambda: f.get_tot_scores(False, True), 'fwd': lambda: f.get_forward_scores(True, True), 'bwd': lambda: f.get_backward_scores(True, True),
            'post': lambda: f.get_arc_post(True, True), 'cdf': lambda: f._get_arc_cdf(True, True), 'paths': lambda: k2.random_paths(f, True, 2), 'prune': lambda: k2.prune_on_arc_post(f, 0.28125, True)}[q]()


def history_log(ctx):
    """Up to 2 steps in the log semiring on a batch of 1 or 2 FSAs (2 structures, real scores in -1..1) - total scores, posteriors, sampled paths, a
    pruned copy, a gradient, new scores, clone, detach, another batch - and then one of 8 queries: the answer is that for an FSA made anew."""
    from C10 import logarcs, T as TL
    S = ctx.choose('lats', ctx.params['lats'])
    f = build_vec([logarcs(ctx, f'{i}', TL[t]) for i, t in enumerate(S)])
    n = f.num_arcs
    for i in range(ctx.params['steps']):
        st = ctx.choose(f'step{i}', ['none', 'tot', 'post', 'paths', 'prune', 'bwd', 'grad', 'scores', 'clone', 'detach', 'index', 'add'])
        if st in ('tot', 'post', 'paths', 'prune', 'bwd'):
            query_log(f, st)
        elif st == 'grad':
            f.requires_grad_(True)
            f.get_tot_scores(True, True).sum().backward()
        elif st == 'scores':
            f.scores = wr([ctx.real(f's{i}{j}', -1, 1) for j in range(n)], torch.float32, (n,))
        elif st == 'add':
            f.scores = f.scores.detach() * 2
        elif st == 'clone':
            f = f.clone()
        elif st == 'detach':
            f = f.detach()
        elif st == 'index':
            f = k2.index_fsa(f, torch.tensor(list(range(len(S)))[::-1], dtype=torch.int32))
    q = ctx.choose('q', ['tot', 'totf', 'fwd', 'bwd', 'post', 'cdf', 'paths', 'prune'])
    fresh = build_vec([A(x.n, [{k: y[k] for k in ('src', 'dst', 'label', 'score')} for y in x.arcs]) for x in out_vec(f)])
    if f.scores.requires_grad:
        fresh.requires_grad_(True)
    equal(ctx, snap(query_log(fresh, q)), snap(query_log(f, q)), f'{q} after other steps')


def real(ctx, p, *shape):
    n = 1
    for d in shape:
        n *= d
    t = wr([ctx.real(f'{p}{i}', -1, 1) for i in range(n)], torch.float32, (n,)).reshape(*shape)
    return t.detach().requires_grad_(True) if ctx.choose(f'{p}grad', [True, False]) else t


def losses(ctx):
    """The transducer and CTC losses, sampling, lists and posteriors in the log semiring: inputs and results of two calls, with the gradient of
    the first taken between them."""
    op = ctx.choose('op', ['recursion', 'rnnt', 'simple', 'pruned', 'prune', 'ctc', 'paths', 'prunepost', 'nbest', 'mwer', 'post', 'tot'])
    kw = {}
    if op == 'recursion':
        args = [real(ctx, 'x', 2, 1, 3), real(ctx, 'y', 2, 2, 2), torch.tensor([[0, 0, 1, 2], [0, 0, 1, 1]])]
        run = lambda x, y, b: k2.mutual_information_recursion(x, y, b, return_grad=True)
    elif op == 'rnnt':
        args = [real(ctx, 'l', 1, 2, 2, 2), torch.tensor([[1]]), torch.tensor([[0, 0, 1, 2]])]
        run = lambda l, s, b: k2.rnnt_loss(l, s, 0, b)
    elif op == 'simple':
        args = [real(ctx, 'a', 1, 2, 2), real(ctx, 'l', 1, 2, 2), torch.tensor([[1]]), torch.tensor([[0, 0, 1, 2]])]
        run = lambda a, l, s, b: k2.rnnt_loss_simple(l, a, s, 0, b, return_grad=True)
    elif op in ('pruned', 'prune'):
        r = torch.tensor([[[0, 1], [0, 1]]])
        if op == 'pruned':
            args = [real(ctx, 'l', 1, 2, 2, 2), torch.tensor([[1]]), r, torch.tensor([[0, 0, 1, 2]])]
            run = lambda l, s, r, b: k2.rnnt_loss_pruned(l, s, r, 0, b)
        else:
            args = [real(ctx, 'a', 1, 2, 2), real(ctx, 'l', 1, 2, 2), r]
            run = lambda a, l, r: k2.do_rnnt_pruning(a, l, r)
    elif op == 'ctc':
        x = real(ctx, 'l', 1, 2, 2)
        args = [k2.ctc_graph([[1]]), k2.DenseFsaVec(x, torch.tensor([[0, 0, 2]], dtype=torch.int32)), torch.tensor([1])]
        run = lambda g, d, n: k2.ctc_loss(g, d, reduction='none', target_lengths=n, output_beam=20.0)
    else:
        from C10 import logarcs, T as TL
        As = [logarcs(ctx, f'{i}', t) for i, t in enumerate([TL[0], TL[3]])]
        f = build_vec(As)
        n = sum(len(a.arcs) for a in As)
        f.aux_labels = torch.tensor([i + 1 if int(v) != -1 else -1 for i, v in enumerate(rd(f.labels))], dtype=torch.int32)
        if ctx.choose('grad', [True, False]):
            f.requires_grad_(True)
        args = [f]
        run = {'paths': lambda f: k2.random_paths(f, True, 2), 'prunepost': lambda f: k2.prune_on_arc_post(f, 0.28125, True), 'post': lambda f: f.get_arc_post(True, True),
               'tot': lambda f: f.get_tot_scores(True, True), 'nbest': lambda f: k2.Nbest.from_lattice(f, 2, True, 2.0).fsa, 'mwer': lambda f: k2.mwer_loss(f, [[1], [2]], 1.0, 2)}[op]
    before = snap(args)
    g = run(*args)
    one = snap(g)
    equal(ctx, before, snap(args), f'{op}: operands')
    t = g
    while isinstance(t, tuple):
        t = t[0]
    if isinstance(t, k2.Fsa):
        t = t.scores
    if isinstance(t, torch.Tensor) and t.requires_grad:
        t.sum().backward()
    equal(ctx, before, snap(args), f'{op}: operands after the gradient')
    equal(ctx, one, snap(run(*args)), f'{op}: the same result again')
    equal(ctx, one, snap(g), f'{op}: the first result, after the second call')
    equal(ctx, before, snap(args), f'{op}: operands after the second call')


HARNESSES = [Harness(unary, params=dict(ops=list(PLAIN))), Harness(batch), Harness(binary), Harness(dense), Harness(ragged), Harness(losses, domain='exp'), Harness(history, params=dict(steps=2)), Harness(history_log, params=dict(steps=2, lats=[[3]]), domain='exp'), Harness(history_log, 'history_log2', params=dict(steps=2, lats=[[0, 3], [4]], thorough_only=True), domain='exp'), Harness(history, 'history3', params=dict(steps=3, thorough_only=True))]
QUICK_S = 60
THOROUGH_S = 400
