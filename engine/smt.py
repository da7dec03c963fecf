"""Translation of the recorded expression DAG to z3.

Integers are bit vectors of their machine width.  Floating point values come in two
domains:
  fix  exact dyadic numbers: a signed bit vector wide enough for the value's interval,
       scaled by a power of two, plus +inf / -inf / nan flags.  A result whose
       significand could exceed 24 (53) bits is refused (Unsupported), so what is
       decided holds for the machine's float arithmetic exactly.
  exp  the log semiring: a score x is represented by the real number e^x, see ExpConv.
"""
import ctypes
import math
import struct
import sys

import numpy as np

sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3  # noqa: E402

import sym  # noqa: E402
from sym import OP  # noqa: E402

NAME = {v: k for k, v in OP.items()}
NODE = np.dtype([('op', '<u2'), ('w', '<u2'), ('a', '<u4'), ('b', '<u4'), ('c', '<u4'), ('k', '<u8')])
MAXN = 1 << 24


class Unsupported(Exception):
    pass


def node_view():
    buf = (ctypes.c_char * (MAXN * NODE.itemsize)).from_address(sym.LIB.nodes())
    return np.frombuffer(buf, dtype=NODE)


class FX:
    """value = bv / 2**f when neither flag is set; lo <= bv <= hi.  Sums are kept as
    linear combinations of atoms, so that equal sums are equal whatever their order."""
    __slots__ = ('_bv', 'lo', 'hi', 'f', 'pi', 'ni', 'nan', 'lin', 'k')

    def __init__(self, bv, lo, hi, f=0, pi=False, ni=False, nan=False, lin=None, k=0):
        self._bv, self.lo, self.hi, self.f = bv, lo, hi, f
        self.pi, self.ni, self.nan = pi, ni, nan
        self.lin, self.k = lin, k

    @property
    def bv(self):
        if self._bv is None:
            self._bv = lin_bv(self.lin, self.k, bits_for(self.lo, self.hi))
        return self._bv

    def terms(self):
        if self.lin is None:
            if self.lo == self.hi:
                self.lin, self.k = {}, self.lo
            else:
                self.lin, self.k = {self._bv.get_id(): (self._bv, self.lo, self.hi, 1)}, 0
        return self.lin, self.k

    @property
    def finite(self):
        return self.pi is False and self.ni is False and self.nan is False


def float_of(v, f, w):
    """(bits, width) of v / 2**f, rounded once."""
    d = v / (1 << f)   # int / int rounds correctly
    if w == 64:
        return struct.unpack('<Q', struct.pack('<d', d))[0], 64
    if v.bit_length() > 53:
        raise Unsupported(f'float value of {v.bit_length()} bits')
    return struct.unpack('<I', struct.pack('<f', d))[0], 32


def lin_bv(lin, k, w):
    r = None
    for i in sorted(lin):
        v, lo, hi, c = lin[i]
        v = fit(v, w)
        if abs(c) != 1:
            v = v * z3.BitVecVal(abs(c), w)
        r = (v if c > 0 else -v) if r is None else r + v if c > 0 else r - v
    if r is None:
        return z3.BitVecVal(k, w)
    return r + z3.BitVecVal(k, w) if k else r


def lin_add(a, b, s=1):
    r = dict(a)
    for i, (v, lo, hi, c) in b.items():
        o = r.get(i)
        n = (o[3] if o else 0) + s * c
        if n:
            # an atom's interval holds wherever it is used
            r[i] = (v, lo, hi, n)
        else:
            del r[i]
    return r


def lin_range(lin, k):
    lo = hi = k
    for v, l, h, c in lin.values():
        lo += min(c * l, c * h)
        hi += max(c * l, c * h)
    return lo, hi


def lin_cmp(x, y, eq):
    """x == y or x < y, both aligned."""
    (a, j), (b, k) = x.terms(), y.terms()
    d, k = lin_add(a, b, -1), j - k
    lo, hi = lin_range(d, k)
    lo, hi = max(lo, x.lo - y.hi), min(hi, x.hi - y.lo)
    if eq:
        if lo > 0 or hi < 0:
            return False
    elif hi < 0:
        return True
    elif lo >= 0:
        return False
    if not d:
        return k == 0 if eq else k < 0
    P = {i: t for i, t in d.items() if t[3] > 0}
    N = {i: t[:3] + (-t[3],) for i, t in d.items() if t[3] < 0}
    kp, kn = (k, 0) if k > 0 else (0, -k)
    (l1, h1), (l2, h2) = lin_range(P, kp), lin_range(N, kn)
    w = bits_for(min(l1, l2), max(h1, h2))
    p, q = lin_bv(P, kp, w), lin_bv(N, kn, w)
    return p == q if eq else p < q


def bits_for(lo, hi):
    return max(max(hi, 0).bit_length(), max(-lo - 1, 0).bit_length()) + 1


def b_or(a, b):
    if a is False:
        return b
    if b is False:
        return a
    if a is True or b is True:
        return True
    return z3.Or(a, b)


def b_and(a, b):
    if a is True:
        return b
    if b is True:
        return a
    if a is False or b is False:
        return False
    return z3.And(a, b)


def b_not(a):
    if a is True:
        return False
    if a is False:
        return True
    return z3.Not(a)


def b_ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    if a is True and b is False:
        return c
    if a is False and b is True:
        return b_not(c)
    if a is False:
        return b_and(b_not(c), b)
    if b is False:
        return b_and(c, a)
    if a is True:
        return b_or(c, b)
    if b is True:
        return b_or(b_not(c), a)
    return z3.If(c, a, b)


def zb(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def fit(x, w):
    """Signed resize of a bit vector."""
    s = x.size()
    if s == w:
        return x
    return z3.SignExt(w - s, x) if s < w else z3.Extract(w - 1, 0, x)


def align(a, b):
    f = max(a.f, b.f)
    return shl(a, f - a.f), shl(b, f - b.f)


def shl(a, n):
    if n == 0:
        return a
    return scale(a, 1 << n, a.f + n)


def scale(a, m, f):
    """a times m / 2**(f - a.f), m not 0."""
    lin, k = a.terms()
    lo, hi = sorted((a.lo * m, a.hi * m))
    return FX(None, lo, hi, f, a.pi, a.ni, a.nan, {i: (v, l, h, c * m) for i, (v, l, h, c) in lin.items()}, k * m)


def lin_ite(c, x, y):
    """If c then x else y, both aligned: what they share stays outside."""
    (a, j), (b, k) = x.terms(), y.terms()
    lo, hi = min(x.lo, y.lo), max(x.hi, y.hi)
    flags = b_ite(c, x.pi, y.pi), b_ite(c, x.ni, y.ni), b_ite(c, x.nan, y.nan)
    com = {i: t for i, t in a.items() if i in b and b[i][3] == t[3]}
    p = {i: t for i, t in a.items() if i not in com}
    q = {i: t for i, t in b.items() if i not in com}
    if not p and not q and j == k:
        return FX(None, lo, hi, x.f, *flags, lin=com, k=j)
    (l1, h1), (l2, h2) = lin_range(p, j), lin_range(q, k)
    if not com:
        l1, h1, l2, h2 = max(l1, x.lo), min(h1, x.hi), max(l2, y.lo), min(h2, y.hi)
    l, h = min(l1, l2), max(h1, h2)
    w = bits_for(l, h)
    v = z3.If(c, lin_bv(p, j, w), lin_bv(q, k, w))
    return FX(None, lo, hi, x.f, *flags, lin=lin_add(com, {v.get_id(): (v, l, h, 1)}), k=0)


class Bits:
    """The machine bits of a float (oi: mapped to an integer of the same order), built when needed."""
    __slots__ = ('fx', 'w', 'oi', '_bv')

    def __init__(self, fx, w, oi):
        self.fx, self.w, self.oi, self._bv = fx, w, oi, None

    def bv(self, conv):
        if self._bv is None:
            v = conv.fbits(self.fx, self.w)
            self._bv = z3.If(v < 0, v ^ z3.BitVecVal((1 << (self.w - 1)) - 1, self.w), v) if self.oi else v
        return self._bv


class Conv:
    domain = 'fix'

    def __init__(self, variables):
        self.n = node_view()
        self.memo = {}
        self.vars = variables    # index -> (name, kind, width, lo, hi, frac)
        self.zvars = {}

    def clear(self):
        self.memo.clear()

    def zvar(self, idx):
        v = self.zvars.get(idx)
        if v is None:
            name, kind, w, lo, hi, frac = self.vars[idx]
            if kind == 'b':
                v = z3.Bool(f'v{idx}_{name}')
            else:
                v = z3.BitVec(f'v{idx}_{name}', w)
            self.zvars[idx] = v
        return v

    def bounds(self, idx):
        name, kind, w, lo, hi, frac = self.vars[idx]
        v = self.zvar(idx)
        if kind == 'b':
            return []
        r = []
        if lo > -(1 << (w - 1)):
            r.append(v >= lo)
        if hi < (1 << (w - 1)) - 1:
            r.append(v <= hi)
        return r

    def value(self, model, idx):
        """(python value) of a variable in a model."""
        name, kind, w, lo, hi, frac = self.vars[idx]
        m = model.eval(self.zvar(idx), model_completion=True)
        if kind == 'b':
            return z3.is_true(m)
        x = m.as_signed_long()
        return x / (1 << frac) if kind == 'f' else x

    def get(self, root):
        memo = self.memo
        r = memo.get(root)
        if r is not None:
            return r
        n = self.n
        stack = [root]
        while stack:
            i = stack[-1]
            if i in memo:
                stack.pop()
                continue
            op, w, a, b, c, k = n[i].item()
            todo = [x for x in (a, b, c) if x and x not in memo]
            if todo:
                stack.extend(todo)
                continue
            memo[i] = self.build(op, w, a, b, c, k)
            stack.pop()
        return memo[root]

    def bool(self, i):
        r = self.get(i)
        return zb(r)

    # ---- node construction
    def build(self, op, w, a, b, c, k):
        m = self.memo
        if op == OP['VAR']:
            return self.zvar(k)
        if op == OP['CONST']:
            return bool(k) if w == 1 else z3.BitVecVal(k, w)
        if op in FP_OPS or (op == OP['ITE'] and k == 1):
            return self.fp(op, w, a, b, c, k)
        A = m[a] if a else None
        B = m[b] if b else None
        C = m[c] if c else None
        if op == OP['ITE'] and w in (32, 64):
            # i < 0 ? i ^ 0x7ff... : i is its own inverse
            t = self.ordered(a, b, c, w)
            if t:
                C = m[t]
                if isinstance(C, Bits):
                    return Bits(C.fx, w, not C.oi)
                t = self.ordered(*self.n[t].item()[2:5], w) if self.n[t]['op'] == OP['ITE'] else 0
                if t:
                    return m[t]
        if op == OP['ICMP'] and (isinstance(A, Bits) or isinstance(B, Bits)):
            r = self.bits_cmp(k, a, b, A, B)
            if r is not None:
                return r
        if isinstance(A, Bits):
            A = A.bv(self)
        if isinstance(B, Bits):
            B = B.bv(self)
        if isinstance(C, Bits):
            C = C.bv(self)
        if op == OP['ITE']:
            if w == 1:
                return b_ite(A, B, C)
            if isinstance(A, bool):
                return B if A else C
            return z3.If(A, B, C)
        if op == OP['NOT1']:
            return b_not(A)
        if op == OP['FCMP']:
            return self.fcmp(k, A, B)
        if op == OP['ICMP']:
            if isinstance(A, bool) or z3.is_bool(A):
                return self.bcmp(k, zb(A), zb(B))
            return ICMP[k](A, B)
        if op == OP['ZEXT'] or op == OP['SEXT']:
            if isinstance(A, bool) or z3.is_bool(A):
                one = 1 if op == OP['ZEXT'] else (1 << w) - 1
                return z3.If(zb(A), z3.BitVecVal(one, w), z3.BitVecVal(0, w))
            d = w - A.size()
            return z3.ZeroExt(d, A) if op == OP['ZEXT'] else z3.SignExt(d, A)
        if op == OP['EXTRACT']:
            if z3.is_bool(A) or isinstance(A, bool):
                return A
            r = z3.Extract(k + w - 1, k, A)
            return r == z3.BitVecVal(1, 1) if w == 1 else r
        if op == OP['CONCAT']:
            return z3.Concat(tobv(A), tobv(B))
        if op == OP['FBITS']:
            return Bits(A, w, False) if isinstance(A, FX) else self.fbits(A, w)
        if op == OP['FPTOSI'] or op == OP['FPTOUI']:
            return self.fptosi(A, w)
        if op == OP['OVF']:
            return self.ovf(k, A, B)
        if w == 1:
            A, B = zb(A), zb(B) if b else None
            if op == OP['AND']:
                return z3.And(A, B)
            if op == OP['OR']:
                return z3.Or(A, B)
            if op in (OP['XOR'], OP['ADD'], OP['SUB']):
                return z3.Xor(A, B)
            if op in (OP['SMAX'], OP['UMIN'], OP['MUL']):
                return z3.And(A, B)
            if op in (OP['SMIN'], OP['UMAX']):
                return z3.Or(A, B)
            raise Unsupported(f'1-bit {NAME[op]}')
        f = IBIN.get(op)
        if f:
            return f(A, B)
        if op == OP['ABS']:
            return z3.If(A < 0, -A, A)
        if op == OP['CTPOP']:
            r = z3.BitVecVal(0, w)
            for j in range(w):
                r = r + z3.ZeroExt(w - 1, z3.Extract(j, j, A))
            return r
        if op == OP['CTLZ'] or op == OP['CTTZ']:
            r = z3.BitVecVal(w, w)
            for j in (range(w) if op == OP['CTLZ'] else range(w - 1, -1, -1)):
                r = z3.If(z3.Extract(j, j, A) == 1, z3.BitVecVal(w - 1 - j if op == OP['CTLZ'] else j, w), r)
            return r
        if op == OP['BSWAP']:
            return z3.Concat(*[z3.Extract(8 * j + 7, 8 * j, A) for j in range(w // 8)])
        raise Unsupported(NAME.get(op, op))

    def ordered(self, a, b, c, w):
        """The node i of i < 0 ? i ^ 0x7ff... : i."""
        n = self.n
        op, _, x, y, _, k = n[a].item()
        if op != OP['ICMP'] or k != sym.ISLT or x != c or n[y]['op'] != OP['CONST'] or n[y]['k']:
            return 0
        op, _, x, y, _, k = n[b].item()
        if op != OP['XOR'] or c not in (x, y):
            return 0
        o = n[y if x == c else x]
        return c if o['op'] == OP['CONST'] and int(o['k']) == (1 << (w - 1)) - 1 else 0

    def bits_cmp(self, k, a, b, A, B):
        fx = []
        for i, x in ((a, A), (b, B)):
            if isinstance(x, Bits):
                if x.fx.nan is not False:
                    return None
                fx.append((x.fx, x.oi, x.w))
            elif self.n[i]['op'] == OP['CONST']:
                fx.append((None, int(self.n[i]['k']), 0))
            else:
                return None
        w = fx[0][2] or fx[1][2]
        if (fx[0][0] is None and fx[0][1] == 0 or fx[1][0] is None and fx[1][1] == 0) and k in (sym.ISLT, sym.ISGE, sym.ISGT, sym.ISLE):
            # a sign; the same for both kinds
            x, y = (x if x is not None else self.const(0, w) for x, _, _ in fx)
        else:
            kinds = {o for x, o, _ in fx if x is not None}
            if len(kinds) > 1 or kinds == {False} and k not in (sym.IEQ, sym.INE):
                return None
            oi = kinds.pop()
            v = []
            for x, o, _ in fx:
                if x is None:
                    x = self.const(o ^ ((1 << (w - 1)) - 1) if oi and o >> (w - 1) else o, w)
                    if x.nan is not False:
                        return None
                v.append(x)
            x, y = v
        f = {sym.IEQ: sym.FOEQ, sym.INE: sym.FUNE, sym.ISLT: sym.FOLT, sym.ISLE: sym.FOLE, sym.ISGT: sym.FOGT, sym.ISGE: sym.FOGE}.get(k)
        return None if f is None else self.fcmp(f, x, y)

    def bcmp(self, k, A, B):
        if k == sym.IEQ:
            return A == B
        if k in (sym.IULT, sym.ISGT):
            return z3.And(z3.Not(A), B)
        if k in (sym.IULE, sym.ISGE):
            return z3.Or(z3.Not(A), B)
        if k in (sym.IUGT, sym.ISLT):
            return z3.And(A, z3.Not(B))
        if k in (sym.IUGE, sym.ISLE):
            return z3.Or(A, z3.Not(B))
        return z3.Xor(A, B)

    def ovf(self, k, A, B):
        w = A.size()
        s = bool(k & 0x100)
        op = k & 0xff
        e = z3.SignExt if s else z3.ZeroExt
        a, b = e(w, A), e(w, B)
        r = a + b if op == OP['ADD'] else a - b if op == OP['SUB'] else a * b
        return r != e(w, z3.Extract(w - 1, 0, r))

    # ---- floating point, domain fix
    def const(self, bits, w):
        v = struct.unpack('<f', struct.pack('<I', bits))[0] if w == 32 else struct.unpack('<d', struct.pack('<Q', bits))[0]
        z = z3.BitVecVal(0, 1)
        if math.isnan(v):
            return FX(z, 0, 0, nan=True)
        if math.isinf(v):
            return FX(z, 0, 0, pi=v > 0, ni=v < 0)
        m, d = v.as_integer_ratio()
        f = d.bit_length() - 1
        return FX(z3.BitVecVal(m, bits_for(m, m)), m, m, f)

    def lim(self, x, w):
        """Refuses a result that may need more than the significand's bits."""
        if max(abs(x.lo), abs(x.hi)) > (1 << (24 if w == 32 else 53)):
            a, b = (float_of(v, x.f, w) for v in (x.lo, x.hi))
            if a == b:
                r = self.const(*a)
                r.pi, r.ni, r.nan = x.pi, x.ni, x.nan
                return r
            t = max(abs(x.lo), abs(x.hi))
            raise Unsupported(f'float{w} value of {t.bit_length()} bits')
        return x

    def fp(self, op, w, a, b, c, k):
        m = self.memo
        if op == OP['FVAR']:
            name, kind, vw, lo, hi, frac = self.vars[k]
            return FX(self.zvar(k), lo, hi, frac)
        if op == OP['FCONST']:
            return self.const(k, w)
        A = m[a]
        B = m[b] if b else None
        C = m[c] if c else None
        if op == OP['ITE']:
            if isinstance(A, bool):
                return B if A else C
            return lin_ite(A, *align(B, C))
        if op in (OP['FADD'], OP['FSUB']):
            if op == OP['FSUB']:
                B = self.neg(B)
            x, y = align(A, B)
            lo, hi = x.lo + y.lo, x.hi + y.hi
            nan = b_or(b_or(x.nan, y.nan), b_or(b_and(x.pi, y.ni), b_and(x.ni, y.pi)))
            (p, j), (q, k) = x.terms(), y.terms()
            d, k = lin_add(p, q), j + k
            l2, h2 = lin_range(d, k)
            lo, hi = max(lo, l2), min(hi, h2)
            return self.lim(FX(None, lo, hi, x.f, b_and(b_or(x.pi, y.pi), b_not(nan)),
                               b_and(b_or(x.ni, y.ni), b_not(nan)), nan, d, k), w)
        if op == OP['FNEG']:
            return self.neg(A)
        if op == OP['FABS']:
            hi = max(abs(A.lo), abs(A.hi))
            ww = bits_for(-hi, hi)
            bv = fit(A.bv, ww)
            return FX(z3.If(bv < 0, -bv, bv), 0, hi, A.f, b_or(A.pi, A.ni), False, A.nan)
        if op in (OP['FMAX'], OP['FMIN']):
            lt = self.fcmp(sym.FOLT if op == OP['FMAX'] else sym.FOGT, A, B)
            x, y = align(A, B)
            if isinstance(lt, bool):
                return y if lt else x
            return lin_ite(lt, y, x)
        if op == OP['FMUL']:
            if not (A.finite and B.finite):
                return self.mul_inf(A, B, w)
            if A.lo == A.hi:
                A, B = B, A
            if B.lo == B.hi:
                return self.lim(scale(A, B.lo, A.f + B.f) if B.lo else FX(z3.BitVecVal(0, 1), 0, 0), w)
            ps = [A.lo * B.lo, A.lo * B.hi, A.hi * B.lo, A.hi * B.hi]
            lo, hi = min(ps), max(ps)
            ww = bits_for(lo, hi)
            return self.lim(FX(fit(A.bv, ww) * fit(B.bv, ww), lo, hi, A.f + B.f), w)
        if op == OP['FDIV']:
            if B.finite and B.lo == B.hi and B.lo and (abs(B.lo) & (abs(B.lo) - 1)) == 0:
                s = abs(B.lo).bit_length() - 1  # divide by +-2^(s - B.f)
                x = A if B.lo > 0 else self.neg(A)
                e = x.f + s - B.f
                return scale(x, 1, e) if e >= 0 else scale(x, 1 << -e, 0)
            raise Unsupported('division')
        if op in (OP['SITOFP'], OP['UITOFP']):
            if isinstance(A, bool) or z3.is_bool(A):
                A = z3.If(zb(A), z3.BitVecVal(1, 2), z3.BitVecVal(0, 2))
                return FX(A, 0, 1)
            lo, hi = self.irange(a)
            ww = bits_for(lo, hi)
            s = A.size()
            bv = z3.Extract(ww - 1, 0, A) if ww <= s else (z3.SignExt if op == OP['SITOFP'] else z3.ZeroExt)(ww - s, A)
            return self.lim(FX(bv, lo, hi), w)
        if op in (OP['FPTRUNC'], OP['FPEXT']):
            return self.lim(A, w)
        if op == OP['BITSF']:
            if isinstance(A, Bits):
                if not A.oi:
                    return A.fx
                A = A.bv(self)
            return self.bitsf(A, w)
        if op == OP['FFLOOR']:
            if A.f == 0:
                return A
            ww = A.bv.size()
            lo, hi = A.lo >> A.f, A.hi >> A.f
            w2 = bits_for(lo, hi)
            bv = fit(A.bv, max(ww, A.f + 1)) >> A.f
            return FX(fit(bv, w2), lo, hi, 0, A.pi, A.ni, A.nan)
        raise Unsupported(NAME.get(op, op))

    def irange(self, i):
        """Interval of an integer node, signed."""
        op, w, a, b, c, k = self.n[i].item()
        if op == OP['VAR']:
            return self.vars[k][3], self.vars[k][4]
        if op == OP['CONST']:
            v = sym.sx(k, w)
            return v, v
        if op == OP['SEXT']:
            return self.irange(a)
        if op == OP['ZEXT']:
            if self.n[a]['w'] == 1:
                return 0, 1
            lo, hi = self.irange(a)
            return (lo, hi) if lo >= 0 else (0, (1 << int(self.n[a]['w'])) - 1)
        if op in (OP['ADD'], OP['SUB'], OP['MUL']):
            (l1, h1), (l2, h2) = self.irange(a), self.irange(b)
            if op == OP['ADD']:
                r = l1 + l2, h1 + h2
            elif op == OP['SUB']:
                r = l1 - h2, h1 - l2
            else:
                p = [l1 * l2, l1 * h2, h1 * l2, h1 * h2]
                r = min(p), max(p)
            if r[0] >= -(1 << (w - 1)) and r[1] < 1 << (w - 1):
                return r
        if op == OP['ITE']:
            (l1, h1), (l2, h2) = self.irange(b), self.irange(c)
            return min(l1, l2), max(h1, h2)
        if op == OP['EXTRACT'] and k == 0:
            lo, hi = self.irange(a)
            if lo >= -(1 << (w - 1)) and hi < 1 << (w - 1):
                return lo, hi
        return -(1 << (w - 1)), (1 << (w - 1)) - 1

    def neg(self, A):
        r = scale(A, -1, A.f)
        r.pi, r.ni = A.ni, A.pi
        return r

    def mul_inf(self, A, B, w):
        for x, y in ((A, B), (B, A)):
            if x.finite and x.lo == x.hi:
                fin = FX(y.bv, y.lo, y.hi, y.f)
                ps = [x.lo * y.lo, x.lo * y.hi]
                lo, hi = min(ps), max(ps)
                ww = bits_for(lo, hi)
                r = FX(fit(x.bv, ww) * fit(fin.bv, ww), lo, hi, x.f + y.f)
                if x.lo > 0:
                    r.pi, r.ni, r.nan = y.pi, y.ni, y.nan
                elif x.lo < 0:
                    r.pi, r.ni, r.nan = y.ni, y.pi, y.nan
                else:
                    r.nan = b_or(y.nan, b_or(y.pi, y.ni))
                return self.lim(r, w)
        raise Unsupported('product with infinities')

    def fcmp(self, k, A, B):
        nan = b_or(A.nan, B.nan)
        x, y = align(A, B)
        fin = b_not(b_or(b_or(A.pi, A.ni), b_or(B.pi, B.ni)))

        def lt(A, B, x, y):
            return b_or(b_or(b_and(A.ni, b_not(B.ni)), b_and(B.pi, b_not(A.pi))), b_and(fin, lin_cmp(x, y, False)))

        def eq():
            return b_or(b_or(b_and(A.ni, B.ni), b_and(A.pi, B.pi)), b_and(fin, lin_cmp(x, y, True)))

        base = k & 7  # 1 eq, 2 gt, 3 ge, 4 lt, 5 le, 6 ne, 7 true
        if base == 1:
            r = eq()
        elif base == 2:
            r = lt(B, A, y, x)
        elif base == 3:
            r = b_not(lt(A, B, x, y))
        elif base == 4:
            r = lt(A, B, x, y)
        elif base == 5:
            r = b_not(lt(B, A, y, x))
        elif base == 6:
            r = b_not(eq())
        elif base == 7:
            r = True
        else:
            r = False
        if k >= 8:  # unordered or
            return b_or(nan, r)
        return b_and(b_not(nan), r)

    def fptosi(self, A, w):
        if not A.finite:
            raise Unsupported('conversion of infinity')
        if A.f:
            bv = fit(A.bv, max(A.bv.size(), A.f + 2) + 1)
            q = z3.If(bv < 0, -((-bv) >> A.f), bv >> A.f)
            return fit(q, w)
        return fit(A.bv, w)

    def fbits(self, A, w):
        """IEEE bits of a dyadic number."""
        M, E, bias = (23, 8, 127) if w == 32 else (52, 11, 1023)
        hi = max(abs(A.lo), abs(A.hi))
        n = bits_for(-hi, hi)
        x = fit(A.bv, n)
        neg = x < 0
        ab = z3.If(neg, -x, x)
        wide = max(n, M + 1) + 1
        r = z3.BitVecVal(0, w)
        ab_w = fit(z3.ZeroExt(1, ab), wide) if wide > n else ab
        if hi.bit_length() > M + 1:
            raise Unsupported('float bits of a long number')
        for p in range(hi.bit_length()):
            man = z3.Extract(M - 1, 0, ab_w << (M - p))
            v = z3.Concat(z3.BitVecVal(0, 1), z3.BitVecVal(bias + p - A.f, E), man)
            r = z3.If(z3.Extract(p, p, ab) == 1, v, r)
        r = z3.If(neg, r | z3.BitVecVal(1 << (w - 1), w), r)
        inf = ((1 << E) - 1) << M
        if A.pi is not False:
            r = z3.If(zb(A.pi), z3.BitVecVal(inf, w), r)
        if A.ni is not False:
            r = z3.If(zb(A.ni), z3.BitVecVal(inf | 1 << (w - 1), w), r)
        if A.nan is not False:
            r = z3.If(zb(A.nan), z3.BitVecVal(inf | 1 << (M - 1), w), r)
        return z3.simplify(r)

    KBITS = 12   # magnitudes of decoded bit patterns: integers below 2^KBITS

    def bitsf(self, A, w):
        """The number encoded by bits; integers with |x| < 2^KBITS and infinities."""
        M, E, bias = (23, 8, 127) if w == 32 else (52, 11, 1023)
        K = self.KBITS
        sign = z3.Extract(w - 1, w - 1, A) == 1
        ex = z3.Extract(w - 2, M, A)
        man = z3.Extract(M - 1, M - K, A)
        n = K + 2
        r = z3.BitVecVal(0, n)
        one = z3.Concat(z3.BitVecVal(1, 2), man)  # 1.man scaled by 2^K
        for p in range(K):
            r = z3.If(ex == bias + p, z3.LShR(one, K - p), r)
        r = z3.If(sign, -r, r)
        inf = z3.And(ex == (1 << E) - 1, z3.Extract(M - 1, 0, A) == 0)
        nan = z3.And(ex == (1 << E) - 1, z3.Extract(M - 1, 0, A) != 0)
        return FX(r, -(1 << K), 1 << K, 0, z3.And(inf, z3.Not(sign)), z3.And(inf, sign), nan)


def tobv(x):
    if isinstance(x, bool):
        return z3.BitVecVal(int(x), 1)
    if z3.is_bool(x):
        return z3.If(x, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
    return x


FP_OPS = {OP[x] for x in ('FVAR', 'FCONST', 'FADD', 'FSUB', 'FMUL', 'FDIV', 'FREM', 'FMAX', 'FMIN', 'FNEG', 'FABS', 'FEXP',
                          'FLOG', 'FLOG1P', 'FEXPM1', 'FSQRT', 'FFLOOR', 'FID', 'FPTRUNC', 'FPEXT', 'SITOFP', 'UITOFP', 'BITSF')}
ICMP = {
    sym.IEQ: lambda a, b: a == b, sym.INE: lambda a, b: a != b,
    sym.IUGT: z3.UGT, sym.IUGE: z3.UGE, sym.IULT: z3.ULT, sym.IULE: z3.ULE,
    sym.ISGT: lambda a, b: a > b, sym.ISGE: lambda a, b: a >= b,
    sym.ISLT: lambda a, b: a < b, sym.ISLE: lambda a, b: a <= b,
}
IBIN = {
    OP['ADD']: lambda a, b: a + b, OP['SUB']: lambda a, b: a - b, OP['MUL']: lambda a, b: a * b,
    OP['UDIV']: z3.UDiv, OP['SDIV']: lambda a, b: a / b, OP['UREM']: z3.URem, OP['SREM']: z3.SRem,
    OP['SHL']: lambda a, b: a << b, OP['LSHR']: z3.LShR, OP['ASHR']: lambda a, b: a >> b,
    OP['AND']: lambda a, b: a & b, OP['OR']: lambda a, b: a | b, OP['XOR']: lambda a, b: a ^ b,
    OP['SMAX']: lambda a, b: z3.If(a > b, a, b), OP['SMIN']: lambda a, b: z3.If(a < b, a, b),
    OP['UMAX']: lambda a, b: z3.If(z3.UGT(a, b), a, b), OP['UMIN']: lambda a, b: z3.If(z3.ULT(a, b), a, b),
}
