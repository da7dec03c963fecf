"""Symbol tables: histories of additions, merging, comparing, writing and reading, with symbolic ids and symbols."""
import locale
import os
import shutil
import tempfile
from hlp import *
from explore import Harness, Discard

EPS = '<eps>'


class Id(int):
    """An id whose value is a symbolic integer; every comparison is decided by the solver. All hash alike, so that a dict compares them."""
    def __new__(cls, s):
        r = int.__new__(cls, s.v)
        r.s = s
        return r

    def of(self, o):
        return o.s if isinstance(o, Id) else SI(int(o)) if isinstance(o, int) else None

    def cmp(self, o, f):
        o = self.of(o)
        return NotImplemented if o is None else bool(f(self.s, o))

    def __eq__(self, o): return self.of(o) is not None and self.cmp(o, lambda a, b: a == b)
    def __ne__(self, o): return not self == o
    def __lt__(self, o): return self.cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self.cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self.cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self.cmp(o, lambda a, b: a >= b)
    def __hash__(self): return hash(0)
    def __add__(self, o): return Id(self.s + self.of(o))
    __radd__ = __add__
    def __sub__(self, o): return Id(self.s - self.of(o))
    def __int__(self): return int(self.s)
    __index__ = __int__
    def __bool__(self): return self != 0
    def __str__(self): return str(int(self.s))
    __repr__ = __str__
    def __format__(self, f): return str(self)


class Name(str):
    """A symbol out of <eps>, a, b, ...: its position is a symbolic integer."""
    def __new__(cls, s):
        r = str.__new__(cls, name(s.v))
        r.s = s
        return r

    def cmp(self, o, f):
        if isinstance(o, Name):
            return bool(f(self.s, o.s))
        return bool(f(self.s, SI(pos(o)))) if isinstance(o, str) else NotImplemented

    def __eq__(self, o): return isinstance(o, str) and self.cmp(o, lambda a, b: a == b)
    def __ne__(self, o): return not self == o
    def __lt__(self, o): return self.cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self.cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self.cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self.cmp(o, lambda a, b: a >= b)
    def __hash__(self): return hash(EPS)
    def __str__(self): return name(int(self.s))
    __repr__ = __str__
    def __format__(self, f): return str(self)


def name(i):
    return EPS if i == 0 else chr(96 + i)


def pos(o):
    return 0 if o == EPS else ord(o[0]) - 96 if len(o) == 1 else 99


def mkid(v):
    return Id(v) if v.i else v.v


def mksym(v):
    return Name(v) if v.i else name(v.v)


def entries(ctx, p, n):
    """n entries with different ids and symbols, besides epsilon."""
    r = []
    for i in range(n):
        a, s = ctx.int(f'{p}i{i}', 1, 9), ctx.int(f'{p}s{i}', 1, 5)
        for b, t in r:
            ctx.assume((a != b) & (s != t))
        r.append((a, s))
    return r


def table(ent, sym=False):
    """The table with these entries, epsilon included as an id of the same kind."""
    sym = sym or any(a.i for a, _ in ent)
    z = (Id(SI(0)), Name(SI(0))) if sym else (0, EPS)
    m = [z] + [(mkid(a), mksym(s)) for a, s in ent]
    return k2.SymbolTable(_id2sym={a: s for a, s in m}, _sym2id={s: a for a, s in m}), m


def attempt(f, *errors):
    try:
        return f(), None
    except errors as e:
        return None, type(e)


def holds(ctx, t, m, msg, absent=()):
    """The table is exactly the mapping m."""
    ctx.check(len(t) == len(m), f'{msg}: size')
    for a, s in m:
        ctx.check(a in t and s in t, f'{msg}: contains')
        ctx.check(attempt(lambda: t[a] == s, KeyError)[0] is True and attempt(lambda: t.get(s) == a, KeyError)[0] is True, f'{msg}: lookup')
    ids, syms = t.ids, t.symbols
    ctx.check(len(ids) == len(m) and all(x < y for x, y in zip(ids, ids[1:])) and all(any(x == a for a, _ in m) for x in ids), f'{msg}: ids')
    ctx.check(len(syms) == len(m) and all(x < y for x, y in zip(syms, syms[1:])) and all(any(x == s for _, s in m) for x in syms), f'{msg}: symbols')
    for v in absent:
        if not any(v == a for a, _ in m) and not any(v == s for _, s in m):
            ctx.check(v not in t and attempt(lambda: t[v], KeyError)[1] is KeyError, f'{msg}: absent')


def history(ctx):
    """A table with 0 to 2 entries besides epsilon and 1 to 3 additions, each with or without an id; ids 0..9 and 6 symbols, all symbolic."""
    q = ctx.int('q', 0, 9)
    t, m = table(entries(ctx, 'e', ctx.choose('n', [0, 1, 2])), bool(q.i))
    k = ctx.choose('k', [1, 2, 3])
    for j in range(k):
        v = ctx.int(f'a{j}', 0, 5)
        s = mksym(v)
        i = mkid(ctx.int(f'b{j}', 0, 9)) if ctx.choose(f'given{j}', [False, True]) else None
        old = [a for a, u in m if u == s]
        taken = i is not None and any(i == a for a, _ in m)
        r, e = attempt(lambda: t.add(s) if i is None else t.add(s, i), ValueError)
        if old:
            ctx.check(e is None and r == old[0], 'add: a symbol that is there')
        elif taken:
            ctx.check(e is ValueError, 'add: an id that is taken')
        else:
            ctx.check(e is None and (r == i if i is not None else not any(r == a for a, _ in m)), 'add: the id')
            if e is None:
                m = m + [(r, s)]
    holds(ctx, t, m, 'history', [mkid(q), mksym(ctx.int('r', 0, 5))])


def fresh(ctx):
    """Up to 4 (5) different new symbols added to an empty table, each with or without an id; ids 0..6, symbolic."""
    k = ctx.choose('k', ctx.params['k'])
    ids = [ctx.int(f'b{j}', 0, 6) for j in range(k)]
    given = [ctx.choose(f'given{j}', [True, False]) for j in range(k)]
    t, m = table([], any(a.i for a in ids))
    for j in range(k):
        s = mksym(SI(j + 1)) if ids[j].i else name(j + 1)
        i = mkid(ids[j]) if given[j] else None
        taken = i is not None and any(i == a for a, _ in m)
        r, e = attempt(lambda: t.add(s) if i is None else t.add(s, i), ValueError)
        ctx.check((e is ValueError) == taken, 'fresh: refused')
        if e is None:
            ctx.check(r == i if i is not None else not any(r == a for a, _ in m), 'fresh: the id')
            m = m + [(r, s)]
    holds(ctx, t, m, 'fresh')


def merge(ctx):
    """merge() of two tables with 0 to 2 entries each: refused exactly if an id or a symbol would stand for two; the tables stay as they are."""
    n = ctx.choose('n', [(0, 1), (1, 1), (1, 2), (2, 1), (2, 2)])
    (t, m), (u, o) = table(entries(ctx, 'x', n[0])), table(entries(ctx, 'y', n[1]))
    bad = any((a == b) != (s == v) for a, s in m for b, v in o)
    r, e = attempt(lambda: t.merge(u), AssertionError)
    ctx.check((e is AssertionError) == bad, 'merge: refused')
    holds(ctx, t, m, 'merge: first')
    holds(ctx, u, o, 'merge: second')
    if bad or e:
        return
    w = m + [(b, v) for b, v in o if not any(a == b for a, _ in m)]
    holds(ctx, r, w, 'merge')
    s = mksym(SI(6))
    i = r.add(s)
    ctx.check(not any(i == a for a, _ in w) and i > 0, 'merge: a new symbol')
    holds(ctx, r, w + [(i, s)], 'merge: with a new symbol')
    holds(ctx, t, m, 'merge: first, later')
    holds(ctx, u, o, 'merge: second, later')


def equal(ctx):
    """Comparison of two tables with 0 to 2 entries each: equal exactly if they map the same ids to the same symbols."""
    n = ctx.choose('n', [(0, 1), (1, 1), (1, 2), (2, 2)])
    (t, m), (u, o) = table(entries(ctx, 'x', n[0])), table(entries(ctx, 'y', n[1]))
    same = len(m) == len(o) and all(any(a == b and s == v for b, v in o) for a, s in m)
    r, e = attempt(lambda: t == u, KeyError)
    ctx.check(e is None and r == same, 'equal')
    r, e = attempt(lambda: u == t, KeyError)
    ctx.check(e is None and r == same, 'equal: the other way')


def word(i):
    return '\u00e9' if i == 4 else name(i)


def text(ctx):
    """Tables with 0 to 3 entries, ids 0..3 and 5 symbols (epsilon among them), written to a string and a file and read back; and lines with ids and symbols that may repeat; epsilon under another id; files in the C locale, with a symbol outside ASCII."""
    how = ctx.choose('how', ['str', 'file', 'lines'])
    n = ctx.choose('n', [0, 1, 2, 3])
    ent = [(int(ctx.int(f'i{j}', 0, 3)), word(int(ctx.int(f's{j}', 0, 4)))) for j in range(n)]
    clash = len(set(a for a, _ in ent)) < n or len(set(s for _, s in ent)) < n
    clash = clash or (any(s == EPS for _, s in ent) and not any(a == 0 for a, _ in ent))   # epsilon would have two ids
    lines = '\n'.join(f'{s} \t{a}\n' for a, s in ent)
    t, e = attempt(lambda: k2.SymbolTable.from_str(lines), AssertionError)
    ctx.check((e is None) == (not clash), 'text: repeated ids and symbols')
    if e or clash:
        return
    m = ent if any(a == 0 for a, _ in ent) else [(0, EPS)] + ent
    holds(ctx, t, m, 'text', [4, 'zz'])
    if how == 'str':
        holds(ctx, k2.SymbolTable.from_str(t.to_str()), m, 'text: read back')
    if how == 'file':
        d = tempfile.mkdtemp()
        try:
            loc = locale.setlocale(locale.LC_CTYPE)
            locale.setlocale(locale.LC_CTYPE, 'C')   # whatever the locale, from_file() reads utf-8
            try:
                e = attempt(lambda: t.to_file(os.path.join(d, 'syms')), UnicodeError)[1]
            finally:
                locale.setlocale(locale.LC_CTYPE, loc)
            ctx.check(e is None, 'file: written')
            holds(ctx, k2.SymbolTable.from_file(os.path.join(d, 'syms')), m, 'file: read back')
        finally:
            shutil.rmtree(d)


HARNESSES = [Harness(history), Harness(fresh, params=dict(k=[1, 2, 3, 4])), Harness(fresh, 'fresh5', params=dict(k=[5], thorough_only=True)), Harness(merge), Harness(equal), Harness(text)]
QUICK_S = 40
THOROUGH_S = 200
