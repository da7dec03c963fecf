"""The log semiring: a score x is represented by e^x, over exact real arithmetic.

A floating point value is a list of guarded alternatives.  Each is
  ('L', r)  the number log(r)      or      ('P', r)  the number r
where r is a rational function of the variables E_i = e^(x_i) and of numbers
K_c = e^c for constants c that occur in the code.  r is kept as a coefficient and a
product of powers of variables and primitive polynomials, so that
x + log1p(exp(y - x)) comes out as log(e^x + e^y) whichever of x, y was larger.
"""
import math
import struct
from fractions import Fraction

import smt
from smt import z3, Unsupported, OP, NAME, b_and, b_or, b_not, b_ite, zb
import sym

LIMIT_TERMS = 3000
LIMIT_ALTS = 64


class Poly:
    """Sum of monomials with at least two terms, integer coefficients without common factor."""
    __slots__ = ('t', 'h')

    def __init__(self, terms):
        self.t = terms          # tuple of (monomial, int), sorted
        self.h = hash(terms)

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.h == o.h and self.t == o.t


def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for v, e in b:
        d[v] = d.get(v, 0) + e
    return tuple(sorted(d.items()))


def pmul(a, b):
    if len(a) > len(b):
        a, b = b, a
    if len(a) * len(b) > 400000:
        raise Unsupported('polynomial too large')
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = mono_mul(m, n)
            r[k] = r.get(k, 0) + c * d
    r = {k: v for k, v in r.items() if v}
    if len(r) > LIMIT_TERMS:
        raise Unsupported('polynomial too large')
    return r


class R:
    """coef * prod(factor ** exponent); factors are variables (int) or Poly."""
    __slots__ = ('c', 'f')

    def __init__(self, c, f):
        self.c, self.f = c, f

    def key(self):
        return (self.c, frozenset(self.f.items()))


ZERO = R(Fraction(0), {})
ONE = R(Fraction(1), {})


def rmul(a, b):
    c = a.c * b.c
    if not c:
        return ZERO
    f = dict(a.f)
    for k, e in b.f.items():
        n = f.get(k, 0) + e
        if not isinstance(n, int) and n.denominator == 1:
            n = int(n)
            if not isinstance(k, int) and len(k.t) == 1:
                c, n = c * Fraction(k.t[0][1]) ** n, 0
        if n:
            f[k] = n
        else:
            f.pop(k, None)
    return R(c, f)


def rpow(a, n):
    if n == int(n):
        n = int(n)
        c, f = a.c ** n, {}
    else:
        # only below a logarithm; a number is a constant polynomial there
        if a.c <= 0:
            raise Unsupported('power of a number')
        c, f = Fraction(1), {}
        for v, e in ((a.c.numerator, n), (a.c.denominator, -n)):
            if v != 1:
                f[Poly((((), v),))] = e
    for k, e in a.f.items():
        e = f.pop(k, 0) + e * n
        if e == int(e):
            e = int(e)
            if not isinstance(k, int) and len(k.t) == 1:
                c, e = c * Fraction(k.t[0][1]) ** e, 0
        if e:
            f[k] = e
    return R(c, f)


def rat(v):
    """A float that is a rounded simple fraction is that fraction."""
    f = Fraction(v)
    if f.denominator > 64:
        g = f.limit_denominator(25)
        if abs(g - f) <= abs(f) * Fraction(1, 1 << 23):
            return g
    return f


def fractional(a):
    d = 1
    for e in a.f.values():
        if not isinstance(e, int):
            d = d * e.denominator // math.gcd(d, e.denominator)
    return d


def rsqrt(a):
    """The square root, where it is a rational function too."""
    f = {k: e // 2 for k, e in a.f.items() if e // 2}
    odd = [k for k, e in a.f.items() if e % 2]
    if not odd:
        p = {(): a.c}
    else:
        p = expand(a.c, {k: 1 for k in odd})

    def root(c):
        c = Fraction(c)
        if c <= 0:
            raise Unsupported('square root')
        n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if n * n != c.numerator or d * d != c.denominator:
            raise Unsupported('square root')
        return Fraction(n, d)

    def order(m, vs):
        d = dict(m)
        return tuple(d.get(v, 0) for v in vs)
    vs = sorted({v for m in p for v, e in m})
    rest, q = dict(p), {}
    lead = None
    for _ in range(200):
        if not rest:
            break
        m = max(rest, key=lambda m: order(m, vs))
        if lead is None:
            if any(e % 2 for v, e in m):
                raise Unsupported('square root')
            t, c = tuple((v, e // 2) for v, e in m), root(rest[m])
            lead = (t, c)
        else:
            d = dict(m)
            for v, e in lead[0]:
                d[v] = d.get(v, 0) - e
            if any(e < 0 for e in d.values()):
                raise Unsupported('square root')
            t, c = tuple(sorted((v, e) for v, e in d.items() if e)), Fraction(rest[m]) / (2 * lead[1])
        # rest -= (q + t)^2 - q^2
        for k, v in pmul(q, {t: 2 * c}).items() if q else ():
            rest[k] = rest.get(k, 0) - v
        k = mono_mul(t, t)
        rest[k] = rest.get(k, 0) - c * c
        rest = {k: v for k, v in rest.items() if v}
        q[t] = c
    if rest:
        raise Unsupported('square root')
    return rmul(R(Fraction(1), f), from_poly(q))


def expand(r, f):
    """coef * prod of nonnegative powers, as a dict of monomials."""
    p = {(): r}
    mono = []
    for k, e in f.items():
        if isinstance(k, int):
            mono.append((k, e))
    if mono:
        p = {tuple(sorted(mono)): r}
    for k, e in f.items():
        if not isinstance(k, int):
            q = dict(k.t)
            for _ in range(e):
                p = pmul(p, q)
    return p


def from_poly(p):
    """dict of monomials -> R."""
    if not p:
        return ZERO
    if len(p) == 1:
        (m, c), = p.items()
        return R(Fraction(c), dict(m))
    # common monomial
    it = iter(p)
    common = dict(next(it))
    for m in it:
        d = dict(m)
        common = {v: min(e, d.get(v, 0)) for v, e in common.items()}
        common = {v: e for v, e in common.items() if e}
        if not common:
            break
    den = 1
    for c in p.values():
        den = den * Fraction(c).denominator // math.gcd(den, Fraction(c).denominator)
    ints = {m: int(c * den) for m, c in p.items()}
    g = 0
    for c in ints.values():
        g = math.gcd(g, c)
    terms = []
    for m, c in ints.items():
        if common:
            m = tuple((v, e - common.get(v, 0)) for v, e in m if e - common.get(v, 0))
        terms.append((m, c // g))
    terms.sort()
    if terms[0][1] < 0:
        g = -g
        terms = [(m, -c) for m, c in terms]
    f = dict(common)
    f[Poly(tuple(terms))] = 1
    return R(Fraction(g, den), f)


def common_of(a, b):
    com = {}
    for k in set(a.f) | set(b.f):
        e = min(a.f.get(k, 0), b.f.get(k, 0))
        if e:
            com[k] = e
    return com


def rest(a, com):
    f = dict(a.f)
    for k, e in com.items():
        n = f.get(k, 0) - e
        if n:
            f[k] = n
        else:
            f.pop(k, None)
    return f


def radd(a, b, sign=1):
    if not a.c:
        return R(b.c * sign, b.f)
    if not b.c:
        return a
    com = common_of(a, b)
    p = expand(a.c, rest(a, com))
    for m, c in expand(b.c * sign, rest(b, com)).items():
        v = p.get(m, 0) + c
        if v:
            p[m] = v
        else:
            del p[m]
    return rmul(R(Fraction(1), com), from_poly(p))


def diff(a, b):
    """(common factor, a/common - b/common) with the difference an R."""
    if not a.c or not b.c:
        return radd(a, b, -1)
    return radd(a, b, -1)


class V:
    """Alternatives: list of (guard frozenset of (gid, bool), kind, payload).
    kinds: L / P with an R; 'pi' +inf (as L with r=inf), 'nan'."""
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = alts


def iv_mul(a, b):
    p = (a[0] * b[0], a[0] * b[1], a[1] * b[0], a[1] * b[1])
    return min(p), max(p)


class ExpConv(smt.Conv):
    domain = 'exp'

    def __init__(self, variables):
        super().__init__(variables)
        self.consts = {}      # c -> pseudo variable index (negative)
        self.kval = {}
        self.guards = {}      # z3 ast id -> (gid, formula)
        self.gform = []
        self.zmono = {}
        self.zpoly = {}
        self.atoms = {}       # node id of a bool -> list of z3 difference polynomials
        self.cur = None
        self.ivc = {}
        self.needk = set()
        self.trunc = {}       # pseudo variable -> (number, width)
        self.truncz = {}      # z3 ast id -> (ast, pseudo variable)
        self.logv = {}        # pseudo variable -> range of the logarithm it stands for
        self.logk = {}        # factor -> pseudo variable

    # ---- variables
    def zvar(self, idx):
        v = self.zvars.get(idx)
        if v is None:
            if idx in self.trunc or idx in self.logv:
                v = z3.Real(f'Q{-idx}')
            elif idx < 0:
                v = z3.Real(f'K{-idx}')
            elif self.vars[idx][1] in 'ep':
                v = z3.Real(f'e{idx}_{self.vars[idx][0]}')
            else:
                return super().zvar(idx)
            self.zvars[idx] = v
        return v

    def vrange(self, idx):
        """Float interval of a factor variable."""
        if idx in self.trunc:
            return 0.0, float(2 ** self.trunc[idx][1])
        if idx in self.logv:
            return self.logv[idx]
        if idx < 0:
            c = self.kval[idx]
            e = math.exp(c)
            return e * (1 - 1e-12), e * (1 + 1e-12)
        name, kind, w, lo, hi, frac = self.vars[idx]
        if kind == 'p':
            return lo, hi
        return math.exp(lo), math.exp(hi)

    def bounds(self, idx):
        if idx >= 0 and self.vars[idx][1] not in 'ep':
            return super().bounds(idx)
        if idx in self.trunc:
            q, r = R(Fraction(1), {idx: 1}), self.trunc[idx][0]
            fs = [self.sign_formula(radd(r, q, -1), 'ge'), self.sign_formula(radd(radd(r, q, -1), R(Fraction(1), {}), -1), 'lt')]
            return [z3.BoolVal(f) if isinstance(f, bool) else f for f in fs]
        lo, hi = self.vrange(idx)
        v = self.zvar(idx)
        return [v >= z3.Q(*Fraction(lo).limit_denominator(10 ** 6).as_integer_ratio()),
                v <= z3.Q(*Fraction(hi).limit_denominator(10 ** 6).as_integer_ratio())]

    def lognum(self, r):
        """log(r) as a number: a sum of logarithms of factors, each a variable of its own that is only bounded. What is proved
        holds for every value of them; nothing is refuted by it without a replay."""
        if not r.c or r.c < 0:
            raise Unsupported('a logarithm where a number is expected')
        fs = [(k, e) for k, e in r.f.items()]
        for n, e in ((r.c.numerator, 1), (r.c.denominator, -1)):
            d = 2
            while n > 1 and d < 1000:
                while n % d == 0:
                    n //= d
                    fs.append((('prime', d), e))
                d += 1
            if n > 1:
                fs.append((('prime', n), e))
        tot = ZERO
        for k, e in fs:
            if isinstance(k, int) and k < 0 and k in self.kval:
                tot = radd(tot, R(rat(self.kval[k]) * e, {}))
                continue
            i = self.logk.get(k)
            if i is None:
                if isinstance(k, tuple):
                    lo, hi = math.log(k[1]) * (1 - 1e-12), math.log(k[1]) * (1 + 1e-12)
                elif isinstance(k, int):
                    lo, hi = self.vrange(k)
                else:
                    lo, hi = self.piv(k)
                if not isinstance(k, tuple):
                    lo, hi = math.log(lo) if lo > 0 else -1e4, math.log(hi) if 0 < hi < math.inf else 1e4
                i = self.logk[k] = -2 * 10 ** 6 - len(self.logk)
                self.logv[i] = (lo, hi)
            tot = radd(tot, R(Fraction(e), {i: 1}))
        return tot

    def value(self, model, idx):
        name, kind, w, lo, hi, frac = self.vars[idx]
        if kind not in 'ep':
            return super().value(model, idx)
        m = model.eval(self.zvar(idx), model_completion=True)
        if z3.is_algebraic_value(m):
            m = m.approx(12)
        x = float(m.as_fraction())
        if kind == 'e':
            x = math.log(x)
        return min(max(x, lo), hi)

    def kconst(self, c):
        """e^c as an R."""
        if c == 0:
            return ONE
        if c < -1e30:
            return ZERO
        if math.isnan(c) or c > 600:
            raise Unsupported('exp of infinity')
        a = abs(c)
        if a < 10:
            # the logarithm of a simple fraction
            e = math.exp(c)
            g = Fraction(e).limit_denominator(64)
            if g and abs(float(g) - e) <= 1e-7 * e and g.numerator <= 64:
                return R(g, {})
        if c < -700:
            raise Unsupported('exp of a large negative number')
        i = self.consts.get(a)
        if i is None:
            i = self.consts[a] = -len(self.consts) - 1
            self.kval[i] = a
        return R(Fraction(1), {i: 1 if c > 0 else -1})

    # ---- intervals
    def interval(self, r):
        if not r.c:
            return 0.0, 0.0
        lo = hi = float(r.c)
        for k, e in r.f.items():
            a, b = self.vrange(k) if isinstance(k, int) else self.piv(k)
            for _ in range(abs(e)):
                if e < 0:
                    if a <= 0 <= b:
                        return -math.inf, math.inf
                    lo, hi = iv_mul((lo, hi), (1 / b, 1 / a))
                else:
                    lo, hi = iv_mul((lo, hi), (a, b))
        return lo, hi

    def piv(self, p):
        r = self.ivc.get(p)
        if r is None:
            lo = hi = 0.0
            for m, c in p.t:
                x = (float(c), float(c))
                for v, e in m:
                    for _ in range(e):
                        x = iv_mul(x, self.vrange(v))
                lo += x[0]
                hi += x[1]
            r = self.ivc[p] = (lo, hi)
        return r

    def positive(self, k):
        if isinstance(k, int):
            return self.vrange(k)[0] > 0
        return all(c > 0 and all(self.positive(v) for v, _ in m) for m, c in k.t) or self.piv(k)[0] > 0

    # ---- z3 terms
    def zp(self, p):
        """dict of monomials -> z3 real term."""
        ts = []
        for m, c in p.items():
            t = None
            for v, e in m:
                if v < 0:
                    self.needk.add(v)
                x = self.zvar(v)
                for _ in range(e):
                    t = x if t is None else t * x
            c = Fraction(c)
            q = z3.Q(c.numerator, c.denominator)
            ts.append(q if t is None else t if c == 1 else q * t)
        return z3.Sum(ts) if len(ts) > 1 else ts[0]

    def sign_formula(self, r, op):
        """op in eq, lt, gt, le, ge of r against 0."""
        if not r.c:
            return op in ('eq', 'le', 'ge')
        lo, hi = self.interval(r)
        if lo > 1e-9:
            return op in ('gt', 'ge')
        if hi < -1e-9:
            return op in ('lt', 'le')
        f = {}
        for k, e in r.f.items():
            if self.positive(k):
                continue
            f[k] = 1 if e % 2 else 2
            if e < 0:
                # a zero denominator is excluded by the bounds of the harness
                f[k] = 1 if e % 2 else 2
        if not f:
            return {'eq': False, 'lt': r.c < 0, 'gt': r.c > 0, 'le': r.c < 0, 'ge': r.c > 0}[op]
        p = expand(Fraction(1 if r.c > 0 else -1), f)
        t = self.zp(p)
        for v in list(self.needk):
            pass
        if self.cur is not None:
            self.cur.append(t)
        return {'eq': t == 0, 'lt': t < 0, 'gt': t > 0, 'le': t <= 0, 'ge': t >= 0}[op]

    # ---- guards
    def guard(self, f):
        k = f.get_id()
        g = self.guards.get(k)
        if g is None:
            g = self.guards[k] = len(self.gform)
            self.gform.append(f)
        return g

    def merge(self, alts):
        """Joins alternatives with equal values."""
        byk = {}
        for g, k, r in alts:
            kk = (k, r.key() if isinstance(r, R) else r)
            byk.setdefault(kk, []).append((g, k, r))
        out = []
        if len(byk) == 1:
            g, k, r = alts[0]
            return V([(frozenset(), k, r)])
        for L in byk.values():
            gs = [g for g, _, _ in L]
            k, r = L[0][1:]
            ch = True
            while ch and len(gs) > 1:
                ch = False
                for i in range(len(gs)):
                    for j in range(i):
                        d = gs[i] ^ gs[j]
                        if len(d) == 2 and len({x for x, _ in d}) == 1:
                            m = gs[i] & gs[j]
                            gs = [g for n, g in enumerate(gs) if n not in (i, j)] + [m]
                            ch = True
                            break
                        if gs[i] <= gs[j] or gs[j] <= gs[i]:
                            m = gs[i] if gs[i] <= gs[j] else gs[j]
                            gs = [g for n, g in enumerate(gs) if n not in (i, j)] + [m]
                            ch = True
                            break
                    if ch:
                        break
            out += [(g, k, r) for g in gs]
        if len(out) > LIMIT_ALTS:
            raise Unsupported('too many alternatives')
        return V(out)

    def pairs(self, A, B):
        for g, k, r in A.alts:
            for h, l, s in B.alts:
                u = g | h
                if len({x for x, _ in u}) == len(u):
                    yield u, (k, r), (l, s)

    def gz(self, g):
        r = True
        for i, pos in g:
            r = b_and(r, self.gform[i] if pos else z3.Not(self.gform[i]))
        return r

    # ---- single values.  kinds: L log(R), P the number R, C a constant, nan
    def as_log(self, x):
        k, r = x
        if k == 'L':
            return r
        if k == 'C':
            return self.kconst(r)
        raise Unsupported('a number where a logarithm is expected')

    def as_num(self, x):
        k, r = x
        if k == 'P':
            return r
        if k == 'C':
            if math.isinf(r) or math.isnan(r):
                raise Unsupported('infinite number')
            return R(rat(r), {})
        if k == 'L':
            return self.lognum(r)
        raise Unsupported('a logarithm where a number is expected')

    def is_ninf(self, x):
        return (x[0] == 'L' and not x[1].c) or (x[0] == 'C' and x[1] == -math.inf)

    def is_pinf(self, x):
        return x[0] == 'C' and x[1] == math.inf

    def isnan(self, x):
        return x[0] == 'nan'

    def add1(self, x, y):
        if self.isnan(x) or self.isnan(y):
            return ('nan', 0)
        if x[0] == 'C' and y[0] == 'C':
            v = x[1] + y[1]
            return ('nan', 0) if math.isnan(v) else ('C', v)
        if self.is_ninf(x) or self.is_ninf(y):
            return ('nan', 0) if self.is_pinf(x) or self.is_pinf(y) else ('C', -math.inf)
        if self.is_pinf(x) or self.is_pinf(y):
            return ('C', math.inf)
        if x == ('C', 0.0):
            return y
        if y == ('C', 0.0):
            return x
        for p, q in ((x, y), (y, x)):
            # a number as large as numeric_limits::lowest() swallows the other one
            if p[0] == 'C' and 1e30 < abs(p[1]) < math.inf and (q[0] == 'C' and abs(q[1]) < 1e15 or q[0] != 'C' and q[1].c):
                return p
        if x[0] == 'L' or y[0] == 'L':
            # a number that is the constant zero
            for p, q in ((x, y), (y, x)):
                if p[0] == 'P' and not p[1].c:
                    return q
            if x[0] != 'P' and y[0] != 'P':
                return ('L', rmul(self.as_log(x), self.as_log(y)))
        for p, q in ((x, y), (y, x)):
            # torch.finfo().tiny, added to keep a logarithm finite, is lost in rounding
            if p[0] == 'C' and 0 < abs(p[1]) < 2e-38 and q[0] == 'P' and q[1].c:
                return q
        return ('P', radd(self.as_num(x), self.as_num(y)))

    def neg1(self, x):
        if x[0] == 'C':
            return ('C', -x[1])
        if x[0] == 'nan':
            return x
        if x[0] == 'P':
            return ('P', R(-x[1].c, x[1].f))
        if not x[1].c:
            return ('C', math.inf)
        return ('L', rpow(x[1], -1))

    def mul1(self, x, y):
        if self.isnan(x) or self.isnan(y):
            return ('nan', 0)
        if x[0] == 'C' and y[0] == 'C':
            v = x[1] * y[1]
            return ('nan', 0) if math.isnan(v) else ('C', v)
        for p, q in ((x, y), (y, x)):
            c = p[1] if p[0] == 'C' else float(p[1].c) if p[0] == 'P' and not p[1].f else None
            if c is not None and q[0] == 'L':
                if c == 1:
                    return q
                if not q[1].c:
                    return ('nan', 0) if c == 0 else ('C', -math.inf if c > 0 else math.inf)
                if abs(c) < 1e-12:  # logarithms are below 1e4, so this is 0 for every comparison
                    return ('C', 0.0)
                if c == int(c) and abs(c) <= 8:
                    return ('L', rpow(q[1], int(c)))
                c = rat(c)
                if c.denominator > 25 or abs(c) > 8:
                    return ('P', rmul(R(c, {}), self.lognum(q[1])))
                return ('L', rpow(q[1], c))
        return ('P', rmul(self.as_num(x), self.as_num(y)))

    def div1(self, x, y):
        if self.isnan(x) or self.isnan(y):
            return ('nan', 0)
        if y[0] == 'C' and x[0] == 'L':
            return self.mul1(x, ('C', 1 / y[1]))
        if y[0] == 'C' and x[0] == 'C':
            if y[1] == 0:
                return ('nan', 0) if x[1] == 0 else ('C', math.copysign(math.inf, x[1]))
            return ('C', x[1] / y[1])
        a, b = self.as_num(x), self.as_num(y)
        if not b.c:
            return ('nan', 0) if not a.c else ('C', math.inf if a.c > 0 else -math.inf)
        return ('P', rmul(a, rpow(b, -1)))

    def exp1(self, x):
        if x[0] == 'nan':
            return x
        if x[0] == 'C':
            if x[1] == math.inf:
                return x
            r = self.kconst(x[1])
            return ('C', float(r.c)) if not r.f else ('P', r)
        if x[0] == 'P':
            if not x[1].c:
                return ('C', 1.0)
            if not x[1].f:
                return self.exp1(('C', float(x[1].c)))
            raise Unsupported('exp of a number')
        d = fractional(x[1])
        if d == 2:
            return ('P', rsqrt(rpow(x[1], 2)))
        if d > 1:
            raise Unsupported('root')
        return ('P', x[1])

    def log1(self, x):
        if x[0] == 'nan':
            return x
        if x[0] == 'C':
            if x[1] == 0:
                return ('C', -math.inf)
            if x[1] < 0:
                return ('nan', 0)
            if math.isinf(x[1]):
                return x
            return ('L', R(Fraction(x[1]), {}))
        if x[0] == 'P':
            if not x[1].c:
                return ('C', -math.inf)
            if self.interval(x[1])[0] <= 0 and not all(self.positive(k) for k in x[1].f):
                raise Unsupported('log of a number that may be negative')
            return ('L', x[1])
        raise Unsupported('log of a logarithm')

    def cmp1(self, base, x, y):
        """base: 1 eq 2 gt 3 ge 4 lt 5 le 6 ne; returns formula; nan gives False."""
        op = {1: 'eq', 2: 'gt', 3: 'ge', 4: 'lt', 5: 'le', 6: 'eq'}[base]
        if x[0] == 'nan' or y[0] == 'nan':
            return False

        def const(a, b):
            return {'eq': a == b, 'gt': a > b, 'ge': a >= b, 'lt': a < b, 'le': a <= b}[op]
        inf = math.inf
        vx = -inf if self.is_ninf(x) else inf if self.is_pinf(x) else None
        vy = -inf if self.is_ninf(y) else inf if self.is_pinf(y) else None
        if vx is not None or vy is not None:
            r = const(0.0 if vx is None else vx, 0.0 if vy is None else vy)
        elif x[0] == 'C' and y[0] == 'C':
            r = const(x[1], y[1])
        elif (x[0] == 'L' or y[0] == 'L') and x[0] != 'P' and y[0] != 'P':
            a, b = self.as_log(x), self.as_log(y)
            d = fractional(a) * fractional(b)
            if d > 1:
                a, b = rpow(a, d), rpow(b, d)
            r = self.sign_formula(radd(a, b, -1), op)
        else:
            r = self.sign_formula(radd(self.as_num(x), self.as_num(y), -1), op)
        return b_not(r) if base == 6 else r

    def fcmp(self, k, A, B):
        base = k & 7
        if base == 7:
            base = None
        res = False
        for g, x, y in self.pairs(A, B):
            nan = x[0] == 'nan' or y[0] == 'nan'
            if base is None:
                f = (k >= 8) or not nan
            elif base == 0:
                f = (k >= 8) and nan
            else:
                f = (k >= 8) if nan else self.cmp1(base, x, y)
            res = b_or(res, b_and(self.gz(g), f))
        return res

    def build(self, op, w, a, b, c, k):
        if op == OP['FCMP']:
            self.cur = []
            r = self.fcmp(k, self.memo[a], self.memo[b])
            at, self.cur = self.cur, None
            if not isinstance(r, bool):
                r = z3.simplify(r) if len(at) > 1 else r
                if at:
                    self.atoms[r.get_id()] = (r, at)
            return r
        return super().build(op, w, a, b, c, k)

    def margins(self, f):
        """Constraints keeping every comparison in f away from ties."""
        out, seen = [], set()
        st = [f]
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            at = self.atoms.get(x.get_id())
            if at:
                for t in at[1]:
                    out.append(z3.Or(t > z3.Q(1, 200), t < z3.Q(-1, 200)))
                continue
            st.extend(x.children())
        return out

    def map1(self, f, A):
        return self.merge([(g,) + f((k, r)) for g, k, r in A.alts])

    def map2(self, f, A, B):
        return self.merge([(g,) + f(x, y) for g, x, y in self.pairs(A, B)])

    def fp(self, op, w, a, b, c, k):
        m = self.memo
        if op == OP['FVAR']:
            kind = self.vars[k][1]
            if kind == 'e':
                return V([(frozenset(), 'L', R(Fraction(1), {k: 1}))])
            if kind == 'p':
                return V([(frozenset(), 'P', R(Fraction(1), {k: 1}))])
            raise Unsupported('dyadic variable in the log semiring')
        if op == OP['FCONST']:
            v = struct.unpack('<f', struct.pack('<I', k))[0] if w == 32 else struct.unpack('<d', struct.pack('<Q', k))[0]
            return V([(frozenset(), 'nan', 0) if math.isnan(v) else (frozenset(), 'C', v)])
        A = m[a]
        B = m[b] if b else None
        C = m[c] if c else None
        if op == OP['ITE']:
            if isinstance(A, bool):
                return B if A else C
            return self.choice(A, B, C)
        if op == OP['FADD']:
            return self.map2(self.add1, A, B)
        if op == OP['FSUB']:
            return self.map2(lambda x, y: self.add1(x, self.neg1(y)), A, B)
        if op == OP['FMUL']:
            return self.map2(self.mul1, A, B)
        if op == OP['FDIV']:
            return self.map2(self.div1, A, B)
        if op == OP['FNEG']:
            return self.map1(self.neg1, A)
        if op == OP['FEXP']:
            return self.map1(self.exp1, A)
        if op == OP['FLOG']:
            return self.map1(self.log1, A)
        if op == OP['FLOG1P']:
            return self.map1(lambda x: self.log1(self.add1(x, ('C', 1.0))), A)
        if op == OP['FEXPM1']:
            return self.map1(lambda x: self.add1(self.exp1(x), ('C', -1.0)), A)
        if op in (OP['FPTRUNC'], OP['FPEXT'], OP['FID']):
            return A
        if op in (OP['FMAX'], OP['FMIN']):
            lt = self.fcmp(sym.FOLT if op == OP['FMAX'] else sym.FOGT, A, B)
            if isinstance(lt, bool):
                return B if lt else A
            return self.choice(lt, B, A)
        if op == OP['FABS']:
            neg = self.fcmp(sym.FOLT, A, V([(frozenset(), 'C', 0.0)]))
            N = self.map1(self.neg1, A)
            if isinstance(neg, bool):
                return N if neg else A
            return self.choice(neg, N, A)
        if op in (OP['SITOFP'], OP['UITOFP']):
            t = z3.simplify(A)
            if t.get_id() in self.truncz:
                return V([(frozenset(), 'P', R(Fraction(1), {self.truncz[t.get_id()][1]: 1}))])
            if z3.is_bv_value(t):
                return V([(frozenset(), 'C', float(t.as_signed_long() if op == OP['SITOFP'] else t.as_long()))])
            raise Unsupported('symbolic integer in the log semiring')
        raise Unsupported(NAME.get(op, op))

    def choice(self, cond, B, C):
        if len(B.alts) == 1 and len(C.alts) == 1:
            x, y = B.alts[0][1:], C.alts[0][1:]
            if x[0] == y[0] and (x[1].key() == y[1].key() if isinstance(x[1], R) and isinstance(y[1], R) else x[1] == y[1] and type(x[1]) is type(y[1])):
                return B
        # the condition may be a negation of a known guard
        pos = True
        while z3.is_not(cond):
            cond, pos = cond.children()[0], not pos
        g = self.guard(cond)
        alts = []
        for X, s in ((B, pos), (C, not pos)):
            for h, k, r in X.alts:
                u = h | {(g, s)}
                if len({x for x, _ in u}) == len(u):
                    alts.append((u, k, r))
        return self.merge(alts)

    def fptosi(self, A, w):
        # truncation of a number r >= 0: a number q with q <= r < q + 1
        if len(A.alts) != 1 or A.alts[0][0] or A.alts[0][1] != 'P':
            raise Unsupported('float to integer in the log semiring')
        r = A.alts[0][2]
        s = z3.Solver()
        s.set('timeout', 4000)
        fs = [self.sign_formula(r, 'ge'), self.sign_formula(radd(r, R(Fraction(2 ** w), {}), -1), 'lt')]
        for v in set(r.f) | {v for k in r.f if not isinstance(k, int) for m, _ in k.t for v, _ in m}:
            if isinstance(v, int):
                s.add(self.bounds(v))
        s.add(z3.Not(z3.And(*[z3.BoolVal(f) if isinstance(f, bool) else f for f in fs])))
        if s.check() != z3.unsat:
            raise Unsupported('float to integer that may not fit')
        idx = -10 ** 6 - len(self.trunc)
        self.trunc[idx] = (r, w)
        z = z3.BitVec(f'q{-idx}', w)
        self.truncz[z.get_id()] = (z, idx)
        return z

    def fbits(self, A, w):
        raise Unsupported('float bits in the log semiring')

    def extra(self):
        """Bounds of the constants e^c used so far."""
        r = []
        done = set()
        while self.needk - done:
            for v in self.needk - done:
                r += self.bounds(v)
                done.add(v)
        return r

    def prove(self, s, forms):
        """Decides the conjunction of forms; the model is left in s."""
        for c in self.extra():
            s.add(c)
        f = [x for x, _ in forms if not z3.is_true(x)]
        if not f:
            return z3.unsat
        res = s.check(z3.Not(z3.And(f)))
        return res
