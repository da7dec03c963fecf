"""Construction, properties, attributes and conversions of an FSA."""
from hlp import *
from explore import Harness, Discard
import _k2

P = k2.fsa_properties


def ucmp(l):
    """Labels compare as unsigned."""
    return ite(l < 0, SI(1000) + l, l)


def bits(a):
    """The documented properties of one valid FSA, as formulas."""
    F = a.n - 1
    r = {P.NONEMPTY: SB(len(a.arcs) > 0)}
    r[P.TOPSORTED] = all_(x['dst'] >= x['src'] for x in a.arcs)
    r[P.TOPSORTED_AND_ACYCLIC] = all_(x['dst'] > x['src'] for x in a.arcs)
    r[P.EPSILON_FREE] = all_(x['label'] != 0 for x in a.arcs)
    so, de = [], []
    for x, y in zip(a.arcs, a.arcs[1:]):
        same_ = x['src'] == y['src']
        u, v = ucmp(x['label']), ucmp(y['label'])
        so.append(implies(same_, (u < v) | ((u == v) & (x['dst'] <= y['dst']))))
        de.append(implies(same_, u < v))
    r[P.ARC_SORTED], r[P.ARC_SORTED_AND_DETERMINISTIC] = all_(so), all_(de)
    acc, co = [], []
    for s in range(a.n):
        if s > 0:
            acc.append(any_((x['dst'] == s) & (x['src'] != s) for x in a.arcs))
        if s < F:
            co.append(any_((x['src'] == s) & (x['dst'] != s) for x in a.arcs))
    r[P.ACCESSIBLE], r[P.COACCESSIBLE] = all_(acc), all_(co)
    return r


def check_bits(ctx, props, As, msg):
    r = [bits(a) for a in As]
    ctx.check(props & P.VALID != 0, f'{msg}: VALID')
    for k in r[0]:
        if k in (P.ACCESSIBLE, P.COACCESSIBLE) and any(not a.arcs for a in As):
            continue
        exp = all_(x[k] for x in r)
        ctx.check(exp == (props & k != 0), f'{msg}: property {k}')


def same_arcs(ctx, o, a, msg):
    ctx.check(o.n == a.n and len(o.arcs) == len(a.arcs), f'{msg}: size')
    for x, y in zip(o.arcs, a.arcs):
        for k in ('src', 'dst', 'label', 'score', 'aux_labels'):
            if k in y:
                ctx.check(eq(x[k], y[k]), f'{msg}: {k}')


def raw(ctx):
    """Any tensor of up to 3 arcs: states 0..2 (destinations -1..3), labels -2..1: accepted exactly if it describes an FSA, and then
    with its documented properties."""
    n = ctx.choose('n', [1, 2, 3])
    arcs = [{'src': ctx.int(f's{i}', 0, 2), 'dst': ctx.int(f'd{i}', -1, 3), 'label': ctx.int(f'l{i}', -2, 1), 'score': ctx.flt(f'w{i}', -2, 2, 1)}
            for i in range(n)]
    for i, x in enumerate(arcs):
        if i >= 2:
            ctx.assume((x['label'] != -2) & (x['dst'] >= 0))
    t = wr([[x['src'], x['dst'], x['label'], SI(0)] for x in arcs], torch.int32, (n, 4))
    F = [x['dst'] for x in arcs if x['label'] == -1]  # forks
    good = bool(F) and all(f == F[0] for f in F) and F[0] >= 1  # forks
    good = good and all(x['src'] < F[0] for x in arcs) and all(x['src'] <= y['src'] for x, y in zip(arcs, arcs[1:]))
    good = good and all((x['label'] >= -1) & (x['dst'] >= 0) & (x['dst'] <= F[0]) & ((x['dst'] == F[0]) == (x['label'] == -1)) for x in arcs)
    over = bool(F) and any(x['src'] >= F[0] for x in arcs)
    if over and not good:
        raise Discard()  # arcs leaving the final state are outside the documented format
    try:
        f = k2.Fsa(t)
        ok = True
    except (ValueError, RuntimeError):
        ok = False
    ctx.check(ok == good, f'Fsa(): accepted={ok} valid={good}')
    if not ok or not good:
        return
    a = A(int(F[0]) + 1, arcs)
    f.scores = wr([x['score'] for x in arcs], torch.float32, (n,))
    same_arcs(ctx, out_fsa(f), a, 'Fsa()')
    check_bits(ctx, f.properties, [a], 'Fsa()')


def props(ctx):
    """Any valid FSA of up to 4 states and 4 (5) arcs, labels 0..2: every property of the FSA."""
    n = ctx.choose('n', ctx.params['sizes'])
    a = arcs_vars(ctx, '', n[0], n[1], labels=(0, 2), sym_scores=False)
    f = build(a)
    check_bits(ctx, f.properties, [a], 'properties')
    names = {P.VALID: 'Valid', P.NONEMPTY: 'Nonempty', P.TOPSORTED: 'TopSorted', P.TOPSORTED_AND_ACYCLIC: 'TopSortedAndAcyclic',
             P.ARC_SORTED: 'ArcSorted', P.ARC_SORTED_AND_DETERMINISTIC: 'ArcSortedAndDeterministic', P.EPSILON_FREE: 'EpsilonFree',
             P.ACCESSIBLE: 'MaybeAccessible', P.COACCESSIBLE: 'MaybeCoaccessible'}
    got = set(f.properties_str.strip('"').split('|'))
    ctx.check(got == {v for k, v in names.items() if f.properties & k}, 'properties_str')
    ctx.check(P.to_str(f.properties) == f.properties_str, 'fsa_properties.to_str')


def props_vec(ctx):
    """A batch of 2 or 3 FSAs: each without states, without arcs, or with up to 3 states and 2 arcs; the properties are those that
    all members have, and indexing gives each member back with its arcs and attributes."""
    n = ctx.choose('n', [2, 3])
    As = []
    for i in range(n):
        k = ctx.choose(f'k{i}', [(3, 2), (2, 1), (0, 0), (2, 0)] if i < 2 else [(3, 2)])
        As.append(arcs_vars(ctx, f'{i}', k[0], k[1], labels=(0, 1), need_final=False) if k[0] else A(0, []))
    total = sum(len(a.arcs) for a in As)
    if not total:
        raise Discard()
    f = build_vec(As)
    add_attrs(f, total)
    check_bits(ctx, f.properties, As, 'properties of a batch')
    for o, a in zip(out_vec(f), As):
        same_arcs(ctx, o, a, 'FsaVec')
    ctx.check(f.shape == (n, None, None), 'shape of a batch')
    ctx.check(f.num_arcs == total, 'num_arcs')
    base = 0
    for i, a in enumerate(As):
        g = f[i]
        o = out_fsa(g)
        same_arcs(ctx, o, a, 'index')
        check_attrs(ctx, o.arcs, g, list(range(base, base + len(a.arcs))), 'index')
        if a.arcs:
            check_bits(ctx, g.properties, [a], 'properties of a member')
        ctx.check(g.shape == (a.n, None), 'shape of a member')
        base += len(a.arcs)
    t = k2.to_tensor(f)
    g = k2.Fsa(t)
    for o, a in zip(out_vec(g), As):
        same_arcs(ctx, o, a, 'tensor of a batch read back')
    ctx.check(g.properties == f.properties, 'tensor of a batch read back: properties')


def labels(ctx):
    """labels set on an FSA or a batch of 2 out of 3 structures, any values -1..2: -1 and 0 are exchanged where the final state
    demands it, anything else at a final arc is refused, and the properties follow; a change in place is noticed."""
    S = [(3, [(0, 1), (0, 2), (1, 2)]), (3, [(0, 0), (0, 1), (1, 2)]), (2, [(0, 1)])]
    vec = ctx.choose('vec', [False, True])
    As = [topo_vars(ctx, f'{i}', S, labels=(0, 1)) for i in range(2 if vec else 1)]
    f = build_vec(As) if vec else build(As[0])
    src = [(a, x) for a in As for x in a.arcs]
    v = [ctx.int(f'v{i}', -1, 1 if vec else 2) for i in range(len(src))]
    bad = any((int(x['dst']) == a.n - 1) and y > 0 for (a, x), y in zip(src, v))
    try:
        f.labels = wr(v, torch.int32, (len(v),))
        ctx.check(not bad, 'labels: a positive label on a final arc is refused')
    except RuntimeError:
        ctx.check(bad, 'labels: accepted values')
    if bad:
        return
    it = iter(v)
    exp = []
    for a in As:
        L = []
        for x in a.arcs:
            y = next(it)
            L.append({**x, 'label': SI(-1) if int(x['dst']) == a.n - 1 else ite(y == -1, SI(0), y)})
        exp.append(A(a.n, L))
    for o, a in zip(out_vec(f) if vec else [out_fsa(f)], exp):
        same_arcs(ctx, o, a, 'labels')
    ctx.check(eq(rd(f.labels), [x['label'] for a in exp for x in a.arcs]), 'labels: read back')
    check_bits(ctx, f.properties, exp, 'labels')
    g = f.labels
    g[0] = 0
    try:
        f.properties
        ctx.fail('labels: a change in place is noticed')
    except RuntimeError:
        pass


def copies(ctx):
    """clone(), detach(), to_tensor(), as_dict() and from_dict(), renaming, deleting and converting attributes of an FSA or batch of 2 out of 4 structures
    with auxiliary labels, scores and attributes of each kind."""
    S = [(3, [(0, 1), (0, 2), (1, 2)]), (3, [(0, 0), (0, 1), (1, 2)]), (2, [(0, 1)]), (4, [(0, 1), (0, 2), (2, 3)])]
    vec = ctx.choose('vec', [False, True])
    As = [topo_vars(ctx, f'{i}', S, labels=(0, 1), aux=(0, 2)) for i in range(2 if vec else 1)]
    f = build_vec(As) if vec else build(As[0])
    n = sum(len(a.arcs) for a in As)
    add_attrs(f, n)

    def ok(g, exp, msg, attrs=True):
        L = out_vec(g) if vec else [out_fsa(g)]
        base = 0
        for o, a in zip(L, exp):
            same_arcs(ctx, o, a, msg)
            if attrs:
                check_attrs(ctx, o.arcs, g, list(range(base, base + len(a.arcs))), msg)
            base += len(a.arcs)
        check_bits(ctx, g.properties, exp, msg)

    op = ctx.choose('op', ['clone', 'detach', 'tensor', 'dict', 'rename', 'del', 'ragged', 'ragged0', 'setscore', 'labels'])
    if op in ('clone', 'detach'):
        f.requires_grad_(True)
        g = getattr(f, op)()
        ok(g, As, op)
        ctx.check(g.requires_grad == (op == 'clone'), f'{op}: requires_grad')
        if op == 'clone':  # independent
            g.scores = torch.zeros(n)
            g.labels = torch.zeros(n, dtype=torch.int32)
            g.tag[0] = 7
            g.plain = 'q'
            ok(f, As, 'clone: the original')
    elif op == 'tensor':
        t = k2.to_tensor(f)
        g = k2.Fsa(t, aux_labels=f.aux_labels)
        ok(g, As, 'to_tensor() read back', attrs=False)
        ctx.check(g.properties == f.properties, 'to_tensor() read back: properties')
        ctx.check(eq(rd(f.arcs_as_tensor()), rd(t)), 'arcs_as_tensor()')
        ctx.check(k2.properties_to_str(f.properties) == f.properties_str, 'properties_to_str()')
    elif op == 'dict':
        f.plain = 'p'
        g = k2.Fsa.from_dict(f.as_dict())
        ok(g, As, 'from_dict()')
        ctx.check(g.plain == 'p' and g.get_filler('neg') == f.get_filler('neg'), 'from_dict(): other attributes')
        ok(f, As, 'as_dict(): the original')
    elif op == 'rename':
        f.rename_tensor_attribute_('tag', 'other')
        ctx.check(not hasattr(f, 'tag') and eq(rd(f.other), list(range(1, n + 1))), 'rename')
        f.rename_tensor_attribute_('neg', 'other')
        ctx.check(not hasattr(f, 'neg') and not hasattr(f, 'neg_filler') and f.get_filler('other') == -5, 'rename: filler')
        f.rename_tensor_attribute_('other', 'neg')
        f.tag = f.neg.clone()
        ok(f, As, 'rename')
        f.rename_tensor_attribute_('labels', 'lab')
        ctx.check(eq(rd(f.lab), [x['label'] for a in As for x in a.arcs]), 'rename of labels')
        ok(f, As, 'rename of labels')
    elif op == 'del':
        del f.aux_labels
        del f.plain
        ctx.check(not hasattr(f, 'aux_labels') and not hasattr(f, 'plain'), 'deleted attributes')
        try:
            del f.plain
            ctx.fail('deleting an unknown attribute')
        except AttributeError:
            pass
        for bad in (torch.zeros(n + 1), k2.RaggedTensor([[1]] * (n + 1))):
            try:
                f.wrong = bad
                ctx.fail('an attribute with the wrong size is accepted')
            except AssertionError:
                pass
    elif op in ('ragged', 'ragged0'):
        f.convert_attr_to_ragged_('aux_labels', remove_eps=op == 'ragged')
        aux = [x['aux_labels'] for a in As for x in a.arcs]
        exp = [[v] if op == 'ragged0' or not (v == 0) else [] for v in aux]
        same(ctx, f.aux_labels, exp, 2, 'convert_attr_to_ragged_')
    elif op == 'setscore':
        v = [ctx.flt(f'n{i}', -2, 2, 1) for i in range(n)]
        f.scores = wr(v, torch.float32, (n,))
        it = iter(v)
        exp = [A(a.n, [{**x, 'score': next(it)} for x in a.arcs]) for a in As]
        ok(f, exp, 'scores')
        ok(k2.Fsa(k2.to_tensor(f), aux_labels=f.aux_labels), exp, 'scores in the tensor', attrs=False)
    elif op == 'labels':
        f.labels = f.labels.clone()
        ok(f, As, 'labels set to themselves')


def tot(ctx):
    """Cached scores follow a new assignment: total scores of an acyclic FSA of 3 structures before and after scores are set, and of
    its clone."""
    S = [(3, [(0, 1), (0, 2), (1, 2)]), (4, [(0, 1), (0, 2), (1, 3), (2, 3)]), (2, [(0, 1), (0, 1)])]
    a = topo_vars(ctx, '', S, labels=(1, 1), score=(-2, 2))
    f = build_vec([a])

    def best(a):
        al = [SF(0)] + [SF(NEG)] * (a.n - 1)
        for s in range(a.n - 1):
            for x in a.arcs:
                if int(x['src']) == s:
                    d = int(x['dst'])
                    al[d] = smax([al[d], al[s] + x['score']])
        return al[-1]
    dbl = ctx.choose('double', [False, True])
    ctx.check(rd(f.get_tot_scores(dbl, False))[0] == best(a), 'total score')
    c = f.clone()
    v = [ctx.flt(f'n{i}', -2, 2, 1) for i in range(len(a.arcs))]
    f.scores = wr(v, torch.float32, (len(v),))
    b = A(a.n, [{**x, 'score': y} for x, y in zip(a.arcs, v)])
    ctx.check(rd(f.get_tot_scores(dbl, False))[0] == best(b), 'total score after setting the scores')
    ctx.check(rd(f.get_arc_post(dbl, False))[0] <= 0, 'arc posterior')
    ctx.check(rd(c.get_tot_scores(dbl, False))[0] == best(a), 'total score of the clone')
    p = k2.shortest_path(f, dbl)
    ctx.check(rd(p.get_tot_scores(dbl, False))[0] == best(b), 'best path after setting the scores')


def text(ctx):
    """Strings written and read back (k2 and OpenFst format) for 5 structures: labels 0..1, auxiliary labels 0..1, scores -1..1,
    ragged labels, any number of label columns."""
    S = [(3, [(0, 1), (1, 2)]), (2, [(0, 1), (0, 1)]), (4, [(0, 1), (0, 3)]), (3, [(0, 0), (0, 2)]), (2, [(0, 1)])]
    a = topo_vars(ctx, '', S, labels=(0, 1), score=(-1, 1), aux=(0, 1))
    f = build(a)
    n = len(a.arcs)
    kind = ctx.choose('kind', ['acceptor', 'aux', 'two', 'ragged', 'both'])
    if kind == 'acceptor':
        del f.aux_labels
    if kind == 'two':
        f.aux_labels2 = torch.arange(n, dtype=torch.int32) - 1
    if kind in ('ragged', 'both'):
        f.rag = k2.RaggedTensor([[i + 1] * (i % 3) for i in range(n)], dtype=torch.int32)
        f.rag2 = k2.RaggedTensor([[3, i][:2 - i % 2] for i in range(n)], dtype=torch.int32)
    if kind == 'ragged':
        del f.aux_labels
    kw = {'acceptor': dict(acceptor=True), 'aux': dict(acceptor=False), 'two': dict(num_aux_labels=2),
          'ragged': dict(ragged_label_names=['rag', 'rag2']), 'both': dict(aux_label_names=['aux_labels'], ragged_label_names=['rag', 'rag2'])}[kind]
    s = k2.to_str(f)
    if kind in ('acceptor', 'aux'):
        ctx.check(k2.to_str_simple(f) == s, 'simple string')
    if ctx.choose('spaces', [False, True]):
        s = '\n' + '\n\n'.join('  ' + l.replace(' ', '  \t') + ' ' for l in s.split('\n'))
    g = k2.Fsa.from_str(s, **kw)
    exp = A(a.n, [dict(x) for x in a.arcs])
    if kind in ('acceptor', 'ragged'):
        for x in exp.arcs:
            x.pop('aux_labels')
    same_arcs(ctx, out_fsa(g), exp, 'read back')
    o = out_fsa(g).arcs
    for i, x in enumerate(o):
        if kind == 'two':
            ctx.check(x['aux_labels2'] == i - 1, 'read back: second auxiliary label')
        if kind in ('ragged', 'both'):
            ctx.check(eq(x['rag'], [i + 1] * (i % 3)) & eq(x['rag2'], [3, i][:2 - i % 2]), 'read back: ragged labels')
    ctx.check(g.properties == f.properties, 'read back: properties')
    if kind in ('acceptor', 'aux'):  # OpenFst: final states carry the weight of the final arc
        ctx.assume(all_(x['label'] != -1 or x['score'] == 0 for x in a.arcs) if kind == 'aux' else SB(True))
        h = k2.Fsa.from_openfst(k2.to_str_simple(f, openfst=True), **kw)
        w = wt_strings(ctx, 2, (0, 1))
        # the final state of f is not mentioned in this format; the states keep their numbers
        same_language(ctx, a, out_fsa(h), w, False, 'OpenFst format read back')


def openfst(ctx):
    """OpenFst text of 3 states with up to 2 arcs and up to 2 (with 2 arcs 1) weighted final states, in any order: the language is that of the text, starting in
    the first state mentioned; with one arc at most, also with auxiliary labels, without costs and with other labels than 0."""
    n = ctx.choose('n', [1, 2, 0])
    aux, given = ctx.choose('style', [(False, True), (False, False), (True, True), (True, False)] if n < 2 else [(False, True)])
    arcs = [(int(ctx.int(f's{i}', 0, 2)), int(ctx.int(f'd{i}', 0, 2)), int(ctx.int(f'l{i}', 0, 2 if n < 2 or ctx.params['big'] else 0))) for i in range(n)]
    fin = [(int(ctx.int(f'f{i}', 0, 2)), ctx.choose(f'c{i}', ['', '0.5', '-1', 'Inf'])) for i in range(ctx.choose('m', [1, 0] if (n == 2 or aux or not given) and not ctx.params['big'] else [1, 2, 0] if n else [1, 2]))]
    cost = [0.5 * (i + 1) if given else None for i in range(n)]
    lines = [' '.join(str(v) for v in (s, d, l, i + 4 if aux else None, cost[i]) if v is not None) for i, (s, d, l) in enumerate(arcs)]
    fl = [f'{s} {c}'.strip() for s, c in fin]
    first = ctx.choose('first', [0, 1]) if fl and lines else 0
    if not any(c != 'Inf' for _, c in fin):
        raise Discard()
    text = '\n'.join(fl[:first] + lines + fl[first:]) + '\n'
    f = k2.Fsa.from_openfst(text, acceptor=not aux)
    start = int(text.split()[0])
    top = max([v for s, d, _ in arcs for v in (s, d)] + [s for s, _ in fin])
    sw = {0: start, start: 0}
    m = lambda s: sw.get(s, s)
    L = [{'src': SI(m(s)), 'dst': SI(m(d)), 'label': SI(l), 'score': SF(-(cost[i] or 0)), 'aux_labels': SI(i + 4)} for i, (s, d, l) in enumerate(arcs)]
    L += [{'src': SI(m(s)), 'dst': SI(top + 1), 'label': SI(-1), 'score': SF(-float(c or 0)), 'aux_labels': SI(-1)} for s, c in fin if c != 'Inf']
    e = A(top + 2, L)
    o = out_fsa(f)
    if aux:
        key = lambda x: (int(x['src']), int(x['dst']), int(x['label']), int(x['aux_labels']))
        ctx.check(sorted(map(key, o.arcs)) == sorted(map(key, L)), 'OpenFst text: auxiliary labels')
    w = wt_strings(ctx, 2, (0, 2))
    same_language(ctx, e, o, w, False, 'OpenFst text')
    if o.arcs:
        well_formed(ctx, o, 'OpenFst text')


def lines(ctx):
    """Text in k2's format with 1 or 2 arcs (states 0..2, labels -1..1), with or without scores and auxiliary labels, and no final state or any of 0..3: accepted exactly
    if it describes an FSA, and then with its arcs."""
    n = ctx.choose('n', [1, 2])
    arcs = [{'src': ctx.int(f's{i}', 0, 2), 'dst': ctx.int(f'd{i}', 0, 2), 'label': ctx.int(f'l{i}', -1, 1), 'score': SF(0)} for i in range(n)]
    aux = ctx.choose('aux', [False, True])
    fin = ctx.int('fin', -1, 3)
    given = ctx.choose('score', [False, True])
    for i, x in enumerate(arcs):
        if given:
            x['score'] = SF(-0.5 - i)
        if aux:
            x['aux_labels'] = ite(x['label'] == -1, SI(-1), SI(i + 5))
    good = fin >= 1 and all((x['dst'] <= fin) & (x['src'] < fin) & ((x['dst'] == fin) == (x['label'] == -1)) for x in arcs)  # forks
    good = good and all(x['src'] <= y['src'] for x, y in zip(arcs, arcs[1:]))
    good = good and any(x['dst'] == fin for x in arcs)
    if not good and fin >= 0 and any(x['src'] >= fin for x in arcs):
        raise Discard()  # arcs leaving the final state are outside the documented format
    if fin >= 1 and not any((x['dst'] == fin) | (x['label'] == -1) for x in arcs):
        raise Discard()  # no final arc
    rows = [[int(x['src']), int(x['dst']), int(x['label'])] + ([int(x['aux_labels'])] if aux else []) + ([-0.5 - i] if given else []) for i, x in enumerate(arcs)]
    text = '\n'.join([' '.join(map(str, r)) for r in rows] + ([str(int(fin))] if fin >= 0 else [])) + '\n'
    try:
        f, ok = k2.Fsa.from_str(text, acceptor=not aux), True
    except ValueError:
        ok = False
    ctx.check(ok == bool(good), f'text: accepted={ok} valid={bool(good)}')
    if ok and good:
        same_arcs(ctx, out_fsa(f), A(int(fin) + 1, arcs), 'text')


def stochastic(ctx):
    """set_scores_stochastic_() over the reals: 4 structures, also states without arcs, FSA or batch of 2: the probabilities of the arcs leaving a state sum to one and
    keep their ratios."""
    S = [(3, [(0, 1), (0, 2), (1, 2)]), (4, [(0, 1), (0, 3), (2, 3), (2, 3)]), (2, [(0, 1)]), (3, [(0, 0), (0, 1), (0, 2)])]
    vec = ctx.choose('vec', [False, True])
    ts = [ctx.choose(f't{i}', S) for i in range(2 if vec else 1)]
    As = [A(n, [{'src': SI(s), 'dst': SI(d), 'label': SI(-1 if d == n - 1 else 1), 'score': SF(0)} for s, d in t]) for n, t in ts]
    f = build_vec(As) if vec else build(As[0])
    n = f.num_arcs
    v = [ctx.real(f'v{i}', -1, 1) for i in range(n)]
    f.set_scores_stochastic_(wr(v, torch.float32, (n,)))
    r = rd(f.scores)
    i = 0
    for a in As:
        for s in range(a.n):
            idx = [i + k for k, x in enumerate(a.arcs) if int(x['src']) == s]
            if idx:
                z = lse([v[k] for k in idx])
                for k in idx:
                    ctx.check(close(r[k] + z, v[k]), 'set_scores_stochastic_')
        i += len(a.arcs)
    raw_ = rd(_k2.as_float(f.arcs.values()[:, -1].contiguous()))
    for x, y in zip(raw_, r):
        ctx.check(x == y, 'set_scores_stochastic_: scores in the arcs')


HARNESSES = [Harness(raw), Harness(props, params=dict(sizes=[(3, 3), (2, 2), (4, 3)])), Harness(props_vec), Harness(labels), Harness(copies),
             Harness(tot), Harness(text), Harness(openfst, params=dict(big=False)), Harness(openfst, 'openfst2', params=dict(big=True, thorough_only=True)), Harness(lines), Harness(stochastic, domain='exp'),
             Harness(props, 'props4', params=dict(sizes=[(4, 4), (3, 5)], thorough_only=True))]
QUICK_S = 70
