"""Statistics of the best matching n-grams."""
from hlp import *
from explore import Harness, Discard


def common(text, i, j, end):
    """How many tokens agree going back from positions i and j; the end of sentence symbol precedes the first position."""
    n = 0
    while True:
        a = text[i - n] if i >= n else end if i - n == -1 else None
        b = text[j - n] if j >= n else end if j - n == -1 else None
        if a is None or b is None or a != b:
            return n
        n += 1


def stats(ctx):
    """get_best_matching_stats(): the collections of params, up to 3 sentences and 6 positions, tokens symbolic out of 2 or 3 (1 ends a sentence
    or not), sentences or single words as keys, positive scores of keys and queries free in exact real arithmetic, maximal orders 2 and 3, and an
    alphabet that needs 32-bit indexes: order, number, mean and variance for every query position."""
    colls = ctx.choose('shape', ctx.params['shapes'])
    axes3 = len(colls) > 1 or ctx.choose('axes', [2, 3]) == 3
    V, big, order = ctx.choose('words', ctx.params['words']), ctx.choose('big', ctx.params['big']), ctx.choose('order', [2, 3])
    n = sum(sum(c) for c in colls)
    toks = [ctx.int(f't{i}', 1, V) for i in range(n)]
    x, keys, k = [], [], 0
    for ci, c in enumerate(colls):
        x.append([])
        for si, m in enumerate(c):
            x[-1].append(toks[k:k + m])
            kind = ctx.choose(f'k{ci}{si}', ['key', 'query', 'first'] if m > 1 else ['key', 'query'])
            keys += [int(kind == 'key' or (kind == 'first' and j == 0)) for j in range(m)]
            k += m
    sc = [ctx.pos(f's{i}') for i in range(n)]
    r = mk(x if axes3 else x[0], 3 if axes3 else 2)
    mean, var, cnt, order_out = k2.get_best_matching_stats(r, wr(sc, torch.float32, (n,)), torch.tensor(keys, dtype=torch.int32), 1, 0,
                                                          40000 if big else V + 1, order)
    mean, var, cnt, order_out = rd(mean), rd(var), rd(cnt), rd(order_out)
    ctx.check(len(mean) == len(var) == len(cnt) == len(order_out) == n, 'get_best_matching_stats: lengths')
    tv = [int(t) for t in toks]
    b = 0
    for c in colls:
        e = b + sum(c)
        text, ks = tv[b:e], [j for j in range(e - b) if keys[b + j]]
        begin = [j for m in c for j in range(m)]
        for i in range(e - b):
            if keys[b + i]:
                continue
            L = max([common(text, i, j, 1) for j in ks], default=0)
            S = [j for j in ks if common(text, i, j, 1) >= L]
            ctx.check(order_out[b + i] == (0 if L == 0 else order if L > begin[i] else min(L, order)), 'get_best_matching_stats: order')
            ctx.check(cnt[b + i] == (len(S) if L else 0), 'get_best_matching_stats: number of matches')
            m = ssum([sc[b + j] for j in S], SF(0)) * (1 / len(S)) if S else SF(0)
            ctx.check(close(mean[b + i], m), 'get_best_matching_stats: mean')
            v = ssum([(sc[b + j] - m) * (sc[b + j] - m) for j in S], SF(0)) * (1 / len(S)) if len(S) > 1 else SF(0)
            ctx.check(close(var[b + i], v), 'get_best_matching_stats: variance')
        b = e


SHAPES = [[[2, 2]], [[1, 1]], [[3, 1]], [[2], [2]], [[0, 2]], [[4]], [[1, 1, 2]], [[3, 2]], [[1, 2], [], [2]]]
HARNESSES = [Harness(stats, params=dict(shapes=SHAPES, words=[2, 3], big=[False]), domain='exp'),
             Harness(stats, 'wide', params=dict(shapes=[[[2, 1]]], words=[2], big=[True]), domain='exp'),
             Harness(stats, 'long', params=dict(shapes=[[[3, 3]], [[2, 2, 2]], [[4, 3]], [[6]]], words=[2], big=[False]), domain='exp')]
QUICK_S = 60
THOROUGH_S = 600
