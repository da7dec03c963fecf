"""Symbolic values, the run-time interface and the torch dispatch layer.

The same harness code runs in two modes:
  * symbolic: the instrumented build of k2 and libk2symrt are loaded, every value
    carries an expression id next to its concrete value;
  * concrete: the plain build is loaded, all ids are 0 (used to replay).
"""
import ctypes
import math
import os
import re
import struct

import numpy as np

HERE = os.path.dirname(os.path.abspath(__file__))


def _ops():
    text = open(os.path.join(HERE, 'ops.h')).read()
    return {m[0]: int(m[1]) for m in re.findall(r'OP_(\w+) = (\d+)', text)}


OP = _ops()
# LLVM predicates
FOEQ, FOGT, FOGE, FOLT, FOLE, FUNE = 1, 2, 3, 4, 5, 14
IEQ, INE, IUGT, IUGE, IULT, IULE, ISGT, ISGE, ISLT, ISLE = range(32, 42)

LIB = None
M64 = (1 << 64) - 1


def load_lib(path):
    global LIB
    lib = ctypes.CDLL(path, mode=ctypes.RTLD_GLOBAL)
    u32, u64, i = ctypes.c_uint32, ctypes.c_uint64, ctypes.c_int
    sigs = {
        'begin': (None, []), 'end': (None, []), 'pause': (None, [i]), 'fix': (None, [i]),
        'var': (u32, [u32, u32, i, u64]), 'const': (u32, [u32, i, u64]),
        'set': (None, [u64, u32, u32]), 'get': (u32, [u64, u32, u32]),
        'getn': (None, [u64, ctypes.c_void_p, u32, u32, u32, ctypes.c_void_p]),
        'setn': (None, [u64, ctypes.c_void_p, u32, u32, ctypes.c_void_p]),
        'any': (i, [u64, u64]), 'clear': (None, [u64, u64]),
        'bin': (u32, [u32, u32, u32, u32, u64, u64]),
        'un': (u32, [u32, u32, u32, u64]),
        'cmp': (u32, [u32, u32, u32, u32, u64, u64]),
        'cast': (u32, [u32, u32, u32, u32, u64]),
        'ite': (u32, [u32, u32, u32, u32, u32, u64, u64]),
        'libm': (u32, [u32, u32, u32, u64, u64]), 'retag': (u32, [u32, u32, u64]),
        'pin': (None, [u32, u64]), 'branch': (None, [u32, u32]),
        'ntrace': (u32, []), 'trace': (ctypes.c_void_p, []),
        'nodes': (ctypes.c_void_p, []), 'vals': (ctypes.c_void_p, []),
        'nnodes': (u32, []), 'stat': (u64, [i]),
        'coverage': (u32, [ctypes.c_char_p, u32]), 'sched': (None, [u64]), 'sched_n': (u32, []),
        'excl': (None, [u32, u64]), 'excl_clear': (None, []),
    }

    class L:
        pass

    for k, (r, a) in sigs.items():
        f = getattr(lib, 'ksym_' + k)
        f.restype = r
        f.argtypes = a
        setattr(L, k, staticmethod(f))
    LIB = L


def dbits(x):
    return struct.unpack('<Q', struct.pack('<d', x))[0]


def fbits(x):
    return struct.unpack('<I', struct.pack('<f', x))[0]


def sx(v, w):
    v &= (1 << w) - 1
    return v - (1 << w) if v >> (w - 1) else v


# ------------------------------------------------------------- symbolic scalars
class SB:
    """A boolean; using it in `if` forks."""
    __slots__ = ('v', 'i')

    def __init__(self, v, i=0):
        self.v = bool(v)
        self.i = i

    def __bool__(self):
        if self.i:
            LIB.branch(self.i, int(self.v))
        return self.v

    def __and__(self, o):
        o = sb(o)
        if not self.i and not self.v:
            return SB(False)
        if not o.i and not o.v:
            return SB(False)
        v = self.v and o.v
        if self.i or o.i:
            return SB(v, LIB.bin(OP['AND'], 1, self.i, o.i, int(self.v), int(o.v)))
        return SB(v)

    __rand__ = __and__

    def __or__(self, o):
        o = sb(o)
        v = self.v or o.v
        if self.i or o.i:
            return SB(v, LIB.bin(OP['OR'], 1, self.i, o.i, int(self.v), int(o.v)))
        return SB(v)

    __ror__ = __or__

    def __xor__(self, o):
        o = sb(o)
        v = self.v != o.v
        if self.i or o.i:
            return SB(v, LIB.bin(OP['XOR'], 1, self.i, o.i, int(self.v), int(o.v)))
        return SB(v)

    def __invert__(self):
        if self.i:
            return SB(not self.v, LIB.bin(OP['XOR'], 1, self.i, 0, int(self.v), 1))
        return SB(not self.v)

    def __eq__(self, o):
        return ~(self ^ o)

    def __ne__(self, o):
        return self ^ o

    __hash__ = None

    def __repr__(self):
        return f'SB({self.v}{"#%d" % self.i if self.i else ""})'


def sb(x):
    return x if isinstance(x, SB) else SB(bool(x))


class SI:
    """A 64-bit signed integer."""
    __slots__ = ('v', 'i')

    def __init__(self, v, i=0):
        self.v = int(v)
        self.i = i

    def _bin(self, o, op, f):
        o = si(o)
        v = sx(f(self.v, o.v), 64)
        if self.i or o.i:
            return SI(v, LIB.bin(OP[op], 64, self.i, o.i, self.v & M64, o.v & M64))
        return SI(v)

    def __add__(self, o):
        return self._bin(o, 'ADD', lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, 'SUB', lambda a, b: a - b)

    def __rsub__(self, o):
        return si(o) - self

    def __mul__(self, o):
        return self._bin(o, 'MUL', lambda a, b: a * b)

    __rmul__ = __mul__

    def __neg__(self):
        return SI(0) - self

    def _cmp(self, o, p, f):
        if isinstance(o, (float, SF)):
            return getattr(sf(self), {IEQ: '__eq__', INE: '__ne__', ISLT: '__lt__', ISLE: '__le__', ISGT: '__gt__', ISGE: '__ge__'}[p])(o)
        o = si(o)
        v = f(self.v, o.v)
        if self.i or o.i:
            return SB(v, LIB.cmp(p, 64, self.i, o.i, self.v & M64, o.v & M64))
        return SB(v)

    def __eq__(self, o):
        return self._cmp(o, IEQ, lambda a, b: a == b)

    def __ne__(self, o):
        return self._cmp(o, INE, lambda a, b: a != b)

    def __lt__(self, o):
        return self._cmp(o, ISLT, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, ISLE, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, ISGT, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, ISGE, lambda a, b: a >= b)

    __hash__ = None

    def __int__(self):
        if self.i:
            LIB.pin(self.i, self.v & M64)
            self.i = 0
        return self.v

    __index__ = __int__

    def __bool__(self):
        return bool(self != 0)

    def __repr__(self):
        return f'SI({self.v}{"#%d" % self.i if self.i else ""})'


def si(x):
    if isinstance(x, SI):
        return x
    if isinstance(x, SB):
        return ite(x, SI(1), SI(0))
    return SI(int(x))


class SF:
    """A floating point number (exact arithmetic in the solver)."""
    __slots__ = ('v', 'i')

    def __init__(self, v, i=0):
        self.v = float(v)
        self.i = i

    def _bin(self, o, op, f):
        o = sf(o)
        v = f(self.v, o.v)
        if self.i or o.i:
            return SF(v, LIB.bin(OP[op], 64, self.i, o.i, dbits(self.v), dbits(o.v)))
        return SF(v)

    def __add__(self, o):
        return self._bin(o, 'FADD', lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, 'FSUB', lambda a, b: a - b)

    def __rsub__(self, o):
        return sf(o) - self

    def __mul__(self, o):
        return self._bin(o, 'FMUL', lambda a, b: a * b)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._bin(o, 'FDIV', lambda a, b: a / b)

    def __neg__(self):
        return SF(-self.v, LIB.un(OP['FNEG'], 64, self.i, dbits(self.v)) if self.i else 0)

    def max(self, o):
        return self._bin(o, 'FMAX', lambda a, b: a if a >= b else b)

    def min(self, o):
        return self._bin(o, 'FMIN', lambda a, b: a if a <= b else b)

    def _cmp(self, o, p, f):
        o = sf(o)
        v = f(self.v, o.v)
        if self.i or o.i:
            return SB(v, LIB.cmp(p, 64, self.i, o.i, dbits(self.v), dbits(o.v)))
        return SB(v)

    def __eq__(self, o):
        return self._cmp(o, FOEQ, lambda a, b: a == b)

    def __ne__(self, o):
        return self._cmp(o, FUNE, lambda a, b: a != b)

    def __lt__(self, o):
        return self._cmp(o, FOLT, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, FOLE, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, FOGT, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, FOGE, lambda a, b: a >= b)

    __hash__ = None

    def __float__(self):
        if self.i:
            LIB.pin(self.i, dbits(self.v))
            self.i = 0
        return self.v

    def __repr__(self):
        return f'SF({self.v}{"#%d" % self.i if self.i else ""})'


def sf(x):
    if isinstance(x, SF):
        return x
    if isinstance(x, SI):
        return SF(float(x.v), LIB.cast(OP['SITOFP'], 64, 64, x.i, x.v & M64) if x.i else 0)
    if isinstance(x, SB):
        return ite(x, SF(1), SF(0))
    return SF(float(x))


NEG = float('-inf')


def ite(c, a, b):
    c = sb(c)
    if not c.i:
        return a if c.v else b
    if isinstance(a, SF) or isinstance(b, SF) or isinstance(a, float) or isinstance(b, float):
        a, b = sf(a), sf(b)
        return SF(a.v if c.v else b.v, LIB.ite(64 | 0x1000, c.i, int(c.v), a.i, b.i, dbits(a.v), dbits(b.v)))
    if isinstance(a, (SB, bool)) and isinstance(b, (SB, bool)):
        a, b = sb(a), sb(b)
        return SB(a.v if c.v else b.v, LIB.ite(1, c.i, int(c.v), a.i, b.i, int(a.v), int(b.v)))
    a, b = si(a), si(b)
    return SI(a.v if c.v else b.v, LIB.ite(64, c.i, int(c.v), a.i, b.i, a.v & M64, b.v & M64))


def all_(xs):
    r = SB(True)
    for x in xs:
        r = r & x
    return r


def any_(xs):
    r = SB(False)
    for x in xs:
        r = r | x
    return r


def implies(a, b):
    return ~sb(a) | b


def smax(xs):
    r = SF(NEG)
    for x in xs:
        x = sf(x)
        if not x.i and x.v == NEG:
            continue
        r = x if (not r.i and r.v == NEG) else r.max(x)
    return r


def close(a, b, tol=2e-3):
    """Equal: exactly in the solver (domain exp), within a tolerance where it runs in floats."""
    a, b = sf(a), sf(b)
    v = a.v == b.v or abs(a.v - b.v) <= tol * (1 + min(abs(a.v), abs(b.v)))
    if a.i or b.i:
        return SB(v, LIB.cmp(FOEQ, 64, a.i, b.i, dbits(a.v), dbits(b.v)))
    return SB(v)


def fexp(x):
    x = sf(x)
    v = math.exp(x.v) if x.v > -700 else 0.0
    return SF(v, LIB.libm(OP['FEXP'], 64, x.i, dbits(x.v), dbits(v)) if x.i else 0)


def flog(x):
    x = sf(x)
    v = math.log(x.v) if x.v > 0 else -math.inf
    return SF(v, LIB.libm(OP['FLOG'], 64, x.i, dbits(x.v), dbits(v)) if x.i else 0)


def lse(xs):
    """log(sum(exp(x)))"""
    xs = [sf(x) for x in xs]
    xs = [x for x in xs if x.i or x.v != NEG]
    if not xs:
        return SF(NEG)
    if len(xs) == 1:
        return xs[0]
    if LIB is not None and any(x.i for x in xs):
        xs = [x if x.i else SF(x.v, LIB.const(64, 1, dbits(x.v))) for x in xs]
    return flog(ssum([fexp(x) for x in xs]))


def ssum(xs, zero=0):
    r = None
    for x in xs:
        r = x if r is None else r + x
    return zero if r is None else r


# ------------------------------------------------------------------- torch layer
torch = None
_raw_tolist = None
_raw_numpy = None
_raw_array = None


def setup_torch():
    """Imports torch; in symbolic mode patches what bypasses the dispatcher."""
    global torch, _raw_tolist, _raw_numpy, _raw_array
    if torch is not None:
        return
    import torch as _t
    torch = _t
    torch.set_num_threads(1)
    _raw_tolist = torch.Tensor.tolist
    _raw_numpy = torch.Tensor.numpy
    _raw_array = torch.Tensor.__array__
    _init_tables()
    if LIB is None:
        return

    def tolist(self):
        pin_tensor(self)
        return _raw_tolist(self)

    def numpy(self, *a, **k):
        pin_tensor(self)
        return _raw_numpy(self, *a, **k)

    def array(self, *a, **k):
        pin_tensor(self)
        return _raw_array(self, *a, **k)

    torch.Tensor.tolist = tolist
    torch.Tensor.numpy = numpy
    torch.Tensor.__array__ = array


INFO = {}  # dtype -> (element size, kind, width, is float, signed)
NPU = {1: np.uint8, 2: np.uint16, 4: np.uint32, 8: np.uint64}


def _init_tables():
    t = torch
    INFO.update({
        t.bool: (1, 8, 8, False, False), t.uint8: (1, 8, 8, False, False), t.int8: (1, 8, 8, False, True),
        t.int16: (2, 16, 16, False, True), t.int32: (4, 32, 32, False, True), t.int64: (8, 64, 64, False, True),
        t.float32: (4, 32 | 0x1000, 32, True, True), t.float64: (8, 64 | 0x1000, 64, True, True),
    })


def _span(t):
    """Address range of a dense tensor."""
    n = t.numel()
    if n == 0:
        return 0, 0
    ext = 1
    for s, st in zip(t.shape, t.stride()):
        ext += (s - 1) * st
    return t.data_ptr(), ext * t.element_size()


def is_sym(t):
    if t.layout is not torch.strided or t.dtype not in INFO:
        return False
    a, n = _span(t)
    return bool(n) and bool(LIB.any(a, n))


def _offsets(t):
    off = np.zeros((), dtype=np.int64)
    es = t.element_size()
    for s, st in zip(t.shape, t.stride()):
        off = off[..., None] + np.arange(s, dtype=np.int64) * (st * es)
    return np.ascontiguousarray(off)


def get_ids(t):
    es, kind, w, fp, sg = INFO[t.dtype]
    off = _offsets(t)
    out = np.zeros(off.shape, dtype=np.uint32)
    if off.size:
        LIB.getn(t.data_ptr(), off.ctypes.data, off.size, es, kind, out.ctypes.data)
    return out.reshape(tuple(t.shape))


def set_ids(t, ids):
    es = INFO[t.dtype][0]
    off = _offsets(t)
    ids = np.ascontiguousarray(np.broadcast_to(ids, off.shape), dtype=np.uint32)
    if off.size:
        LIB.setn(t.data_ptr(), off.ctypes.data, off.size, es, ids.ctypes.data)


def clear(t):
    if t.layout is not torch.strided:
        return
    a, n = _span(t)
    if n and LIB.any(a, n):
        if t.is_contiguous():
            LIB.clear(a, n)
        elif t.dtype in INFO:
            set_ids(t, np.uint32(0))


class _NoMode:
    """Leaves the dispatch mode: aten calls of the engine itself."""

    def __enter__(self):
        self.g = torch._C._DisableTorchDispatch()

    def __exit__(self, *a):
        del self.g


def raw_np(t):
    with _NoMode():
        return _raw_numpy(t.detach().contiguous())


def get_bits(t):
    a = raw_np(t)
    return a.view(NPU[a.itemsize]) if a.ndim else a.reshape(1).view(NPU[a.itemsize]).reshape(())


def pin_tensor(t):
    if LIB is None or not isinstance(t, torch.Tensor) or t.layout is not torch.strided:
        return
    if t.dtype not in INFO or not is_sym(t):
        return
    ids, bits = get_ids(t), get_bits(t)
    for i, b in zip(ids.ravel().tolist(), bits.ravel().tolist()):
        if i:
            LIB.pin(i, b)
    set_ids(t, np.uint32(0))


def rd(t):
    """The tensor as nested lists of SI / SF / SB."""
    dt = t.dtype
    fp = dt.is_floating_point
    vals = raw_np(t)
    ids = get_ids(t) if LIB is not None and is_sym(t) else None

    def one(v, i):
        v = v.item() if hasattr(v, 'item') else v
        if i:
            w = INFO[dt][2]
            if dt is torch.bool:
                return SB(v, LIB.cmp(INE, 8, i, 0, int(v), 0))
            if fp:
                return SF(v, LIB.cast(OP['FPEXT'], 32, 64, i, fbits(v)) if w == 32 else i)
            if w == 64:
                return SI(v, i)
            return SI(v, LIB.cast(OP['SEXT' if INFO[dt][4] else 'ZEXT'], w, 64, i, v & ((1 << w) - 1)))
        return SB(v) if dt is torch.bool else SF(v) if fp else SI(v)

    def rec(a, b):
        if a.ndim == 0:
            return one(a, int(b) if b is not None else 0)
        return [rec(a[k], b[k] if b is not None else None) for k in range(a.shape[0])]

    return rec(vals, ids)


def wr(xs, dtype, shape=None):
    """A tensor holding the given symbolic scalars (flat list or nested)."""
    flat = []

    def rec(x):
        if isinstance(x, (list, tuple)):
            for y in x:
                rec(y)
            return [len(x)] + (rec_shape(x[0]) if x else [])
        flat.append(x)
        return []

    def rec_shape(x):
        return [len(x)] + (rec_shape(x[0]) if x else []) if isinstance(x, (list, tuple)) else []

    rec(xs)
    if shape is None:
        shape = rec_shape(xs)
    vals = [x.v if isinstance(x, (SI, SF, SB)) else x for x in flat]
    with _NoMode():
        t = torch.tensor(vals, dtype=dtype).reshape(shape)
    if LIB is not None:
        clear(t)
        es, kind, w, fp, sg = INFO[dtype]
        ids = np.zeros(len(flat), dtype=np.uint32)
        for k, x in enumerate(flat):
            i = getattr(x, 'i', 0)
            if not i:
                continue
            if isinstance(x, SB):
                x = si(x)
                i = x.i
            if fp:
                x = sf(x)
                i = x.i if w == 64 else LIB.cast(OP['FPTRUNC'], 64, 32, x.i, dbits(x.v))
            else:
                i = x.i if w == 64 else LIB.cast(OP['TRUNC'], 64, w, x.i, x.v & M64)
            ids[k] = i
        if len(flat):
            set_ids(t, ids.reshape(shape))
    return t


# element casts: (id, bits)
def ecast(i, b, src, dst):
    if not i:
        return 0
    if src == dst:
        return i
    _, sk, sw, sfp, ssg = INFO[src]
    _, dk, dw, dfp, dsg = INFO[dst]
    if dst is torch.bool:
        c = LIB.cmp(FUNE, sw, i, 0, b, 0) if sfp else LIB.cmp(INE, sw, i, 0, b, 0)
        v = LIB_val(c)
        return LIB.cast(OP['ZEXT'], 1, 8, c, v) if c else 0
    if sfp and dfp:
        return LIB.cast(OP['FPEXT' if dw > sw else 'FPTRUNC'], sw, dw, i, b)
    if sfp:
        return LIB.cast(OP['FPTOSI'], sw, dw, i, b)
    if dfp:
        return LIB.cast(OP['SITOFP' if ssg else 'UITOFP'], sw, dw, i, b)
    if dw == sw:
        return i
    if dw < sw:
        return LIB.cast(OP['TRUNC'], sw, dw, i, b)
    return LIB.cast(OP['SEXT' if ssg else 'ZEXT'], sw, dw, i, b)


_vals = None


def LIB_val(i):
    global _vals
    if not i:
        return 0
    if _vals is None:
        _vals = (ctypes.c_uint64 * (1 << 24)).from_address(LIB.vals())
    return _vals[i]


def cbits(b, src, dst):
    """Converts concrete bits."""
    if src == dst:
        return b
    a = np.array([b], dtype=NPU[INFO[src][0]]).view(_np(src))
    if dst is torch.bool:
        return int(a[0] != 0)
    with np.errstate(all='ignore'):
        return int(a.astype(_np(dst)).view(NPU[INFO[dst][0]])[0])


def _np(dt):
    return {torch.bool: np.uint8, torch.uint8: np.uint8, torch.int8: np.int8, torch.int16: np.int16,
            torch.int32: np.int32, torch.int64: np.int64, torch.float32: np.float32, torch.float64: np.float64}[dt]


class EngineError(Exception):
    pass


STATS = {'pinned_ops': {}}


class Operand:
    """A tensor or number brought to a dtype and broadcast to a shape."""

    def __init__(self, x, dtype, shape):
        if isinstance(x, torch.Tensor):
            bits = np.broadcast_to(get_bits(x), shape).ravel().tolist()
            if is_sym(x):
                ids = np.broadcast_to(get_ids(x), shape).ravel().tolist()
                src = x.dtype
                if src != dtype:
                    ids = [ecast(i, b, src, dtype) for i, b in zip(ids, bits)]
            else:
                ids = [0] * len(bits)
            if x.dtype != dtype:
                with _NoMode():
                    y = x.detach().to(dtype)
                bits = np.broadcast_to(get_bits(y), shape).ravel().tolist()
        else:
            with _NoMode():
                y = torch.tensor(x, dtype=dtype)
            b = int(get_bits(y))
            n = int(np.prod(shape)) if len(shape) else 1
            bits = [b] * n
            ids = [0] * n
        self.bits = bits
        self.ids = ids


def _result_dtype(*xs):
    r = None
    with _NoMode():
        for x in xs:
            if x is None:
                continue
            r = x if r is None else r
        if len(xs) == 2:
            return torch.result_type(xs[0], xs[1])
        return xs[0].dtype


def ew_arith(op_i, op_f):
    def f(out, a, b, dtype):
        es, kind, w, fp, sg = INFO[dtype]
        A, B = Operand(a, dtype, out.shape), Operand(b, dtype, out.shape)
        op = OP[op_f if fp else op_i]
        return [LIB.bin(op, w, i, j, x, y) if i or j else 0 for i, j, x, y in zip(A.ids, B.ids, A.bits, B.bits)]
    return f


def ew_cmp(pi, pu, pf):
    def f(out, a, b, dtype):
        es, kind, w, fp, sg = INFO[dtype]
        A, B = Operand(a, dtype, out.shape), Operand(b, dtype, out.shape)
        p = pf if fp else pi if sg else pu
        r = []
        for i, j, x, y in zip(A.ids, B.ids, A.bits, B.bits):
            c = LIB.cmp(p, w, i, j, x, y) if i or j else 0
            r.append(LIB.cast(OP['ZEXT'], 1, 8, c, LIB_val(c)) if c else 0)
        return r
    return f


EXACT = True    # results must agree bit by bit (domain fix); otherwise up to rounding


def _near(x, y, w):
    x, y = (struct.unpack('<f', struct.pack('<I', v))[0] if w == 32 else struct.unpack('<d', struct.pack('<Q', v))[0] for v in (x, y))
    return abs(x - y) <= 1e-4 * (1 + abs(x))


def _store(out, ids):
    """Attaches ids to an output after comparing their values with the data."""
    es, kind, w, fp, sg = INFO[out.dtype]
    bits = get_bits(out).ravel().tolist()
    m = (1 << w) - 1
    for k, (i, b) in enumerate(zip(ids, bits)):
        if i and (LIB_val(i) & m) != b:
            if fp and (LIB_val(i) | b) & (m >> 1) == 0:
                continue
            if fp and not EXACT and _near(LIB_val(i) & m, b, w):
                ids[k] = LIB.retag(w, i, b)
                continue
            raise EngineError(f'expression of a torch op disagrees with its result: {LIB_val(i):#x} {b:#x}')
    set_ids(out, np.array(ids, dtype=np.uint32).reshape(tuple(out.shape)))


H = {}          # full op name -> handler(func, args, kwargs) -> out
MOVE = {        # op -> positions of data arguments (the others are pinned)
    'aten::clone': (0,), 'aten::index_select': (0,), 'aten::index': (0,), 'aten::gather': (0,),
    'aten::cat': (0,), 'aten::stack': (0,), 'aten::flip': (0,), 'aten::roll': (0,), 'aten::repeat': (0,),
    'aten::masked_select': (0,), 'aten::take': (0,), 'aten::contiguous': (0,), 'aten::constant_pad_nd': (0,),
    'aten::repeat_interleave': (0,), 'aten::tril': (0,), 'aten::triu': (0,), 'aten::_reshape_alias_copy': (0,),
    'aten::index_select_backward': (0,), 'aten::slice_backward': (0,), 'aten::select_backward': (0,),
    'aten::diag': (0,), 'aten::_unsafe_view': (0,), 'aten::new_empty_strided': (), 'aten::lift_fresh_copy': (0,),
    'aten::_reshape_copy': (0,), 'aten::split_copy': (0,), 'aten::narrow_copy': (0,), 'aten::slice_scatter': (0, 1),
    'aten::select_scatter': (0, 1), 'aten::embedding': (0,),
}
SHAPEONLY = {'aten::empty_like', 'aten::zeros_like', 'aten::ones_like', 'aten::full_like', 'aten::new_empty',
             'aten::new_zeros', 'aten::new_ones', 'aten::new_full', 'aten::empty', 'aten::set_', 'aten::resize_',
             'aten::rand_like', 'aten::zero_', 'aten::is_same_size', 'aten::new_empty_strided', 'aten::empty_strided'}
_schema = {}


def _sch(func):
    r = _schema.get(func)
    if r is None:
        s = func._schema
        view = any(x.alias_info is not None and not x.alias_info.is_write for x in s.returns)
        writes = [i for i, a in enumerate(s.arguments) if a.alias_info is not None and a.alias_info.is_write]
        names = [a.name for a in s.arguments]
        r = _schema[func] = (s.name, view, writes, names)
    return r


def _tensors(x, out):
    if isinstance(x, torch.Tensor):
        out.append(x)
    elif isinstance(x, (list, tuple)):
        for y in x:
            _tensors(y, out)
    elif isinstance(x, dict):
        for y in x.values():
            _tensors(y, out)
    return out


def _map(x, f):
    if isinstance(x, torch.Tensor):
        return f(x)
    if isinstance(x, list):
        return [_map(y, f) for y in x]
    if isinstance(x, tuple):
        return tuple(_map(y, f) for y in x)
    return x


def id_tensor(t):
    return torch.from_numpy(get_ids(t).astype(np.int64)) if t.dtype in INFO else torch.zeros(t.shape, dtype=torch.int64)


def h_move(pos):
    def h(func, args, kwargs):
        name, view, writes, names = _sch(func)
        for k, a in enumerate(args):
            if k not in pos:
                for t in _tensors(a, []):
                    pin_tensor(t)
        with _NoMode():
            ida = [_map(a, id_tensor) if k in pos else a for k, a in enumerate(args)]
        out = func(*args, **kwargs)
        with _NoMode():
            ido = func(*ida, **{k: v for k, v in kwargs.items() if k not in ('dtype', 'memory_format')})
        outs, idos = _tensors(out, []), _tensors(ido, [])
        for o, d in zip(outs, idos):
            clear(o)
            with _NoMode():
                set_ids(o, _raw_numpy(d.contiguous()).astype(np.uint32))
        return out
    return h


def h_binary(f, cmp=False, alpha=False):
    def h(func, args, kwargs):
        a, b = args[0], args[1]
        al = kwargs.get('alpha', args[2] if alpha and len(args) > 2 else 1)
        name, view, writes, names = _sch(func)
        inplace = bool(writes)
        dt = _result_dtype(a, b)
        if inplace and not cmp:
            dt = a.dtype if not (INFO.get(dt, (0,) * 5)[3] and not INFO[a.dtype][3]) else dt
        if al != 1:
            if al == -1 and f in (EW['add'], EW['sub']):
                g = EW['sub'] if f is EW['add'] else EW['add']
            else:
                return h_pin(func, args, kwargs)
        else:
            g = f
        if dt not in INFO or (not cmp and func._schema.name.startswith('aten::div') and not INFO[dt][3]):
            if func._schema.name.startswith('aten::div') and kwargs.get('rounding_mode') is None and dt in INFO:
                dt = torch.get_default_dtype()
            else:
                return h_pin(func, args, kwargs)
        if kwargs.get('rounding_mode') is not None:
            return h_pin(func, args, kwargs)
        if inplace:
            with _NoMode():
                a0 = a.detach().clone()
            if is_sym(a):
                set_ids(a0, get_ids(a))
            else:
                clear(a0)
            out = func(*args, **kwargs)
            _clear_if(out)
            ids = g(out, a0, b if b is not a else a0, dt)
        else:
            out = func(*args, **kwargs)
            clear(out)
            ids = g(out, a, b, dt)
        if not cmp and out.dtype != dt:
            return _pin_after(out, ids)
        _store(out, ids)
        return out
    return h


def _clear_if(t):
    clear(t)


def _pin_after(out, ids):
    for i in ids:
        if i:
            LIB.pin(i, LIB_val(i))
    clear(out)
    return out


def h_unary(mk):
    def h(func, args, kwargs):
        a = args[0]
        ids = get_ids(a).ravel().tolist()
        bits = get_bits(a).ravel().tolist()
        dt = a.dtype
        out = func(*args, **kwargs)
        clear(out)
        if out.dtype != dt or dt not in INFO:
            for i, b in zip(ids, bits):
                LIB.pin(i, b)
            return out
        ob = get_bits(out).ravel().tolist()
        _store(out, [mk(INFO[dt], i, b, o) if i else 0 for i, b, o in zip(ids, bits, ob)])
        return out
    return h


def h_pin(func, args, kwargs):
    name, view, writes, names = _sch(func)
    STATS['pinned_ops'][name] = STATS['pinned_ops'].get(name, 0) + 1
    for t in _tensors((args, kwargs), []):
        pin_tensor(t)
    out = func(*args, **kwargs)
    for o in _tensors(out, []):
        clear(o)
    return out


def h_item(func, args, kwargs):
    pin_tensor(args[0])
    return func(*args, **kwargs)


def h_copy_(func, args, kwargs):
    dst, src = args[0], args[1]
    if dst.dtype not in INFO or src.dtype not in INFO:
        return h_pin(func, args, kwargs)
    ids = None
    if is_sym(src):
        bits = get_bits(src).ravel().tolist()
        ids = [ecast(i, b, src.dtype, dst.dtype) for i, b in zip(get_ids(src).ravel().tolist(), bits)]
        ids = np.array(ids, dtype=np.uint32).reshape(tuple(src.shape))
        ids = np.broadcast_to(ids, tuple(dst.shape))
    out = func(*args, **kwargs)
    if ids is None:
        clear(dst)
    else:
        set_ids(dst, ids)
    return out


def h_to_copy(func, args, kwargs):
    src = args[0]
    out = func(*args, **kwargs)
    clear(out)
    if out.dtype not in INFO or src.dtype not in INFO:
        pin_tensor(src)
        return out
    bits = get_bits(src).ravel().tolist()
    ids = [ecast(i, b, src.dtype, out.dtype) for i, b in zip(get_ids(src).ravel().tolist(), bits)]
    _store(out, ids)
    return out


def h_fill_(func, args, kwargs):
    t, v = args[0], args[1]
    i = 0
    if isinstance(v, torch.Tensor) and is_sym(v):
        i = ecast(int(get_ids(v)), int(get_bits(v)), v.dtype, t.dtype)
    out = func(*args, **kwargs)
    set_ids(t, np.uint32(i))
    return out


def h_where(func, args, kwargs):
    if len(args) != 3:
        return h_pin(func, args, kwargs)
    c, a, b = args
    out = func(*args, **kwargs)
    clear(out)
    dt = out.dtype
    C = Operand(c, torch.bool, out.shape)
    A, B = Operand(a, dt, out.shape), Operand(b, dt, out.shape)
    w = INFO[dt][1]
    ids = []
    for ci, cb, i, x, j, y in zip(C.ids, C.bits, A.ids, A.bits, B.ids, B.bits):
        if ci:
            cc = LIB.cmp(INE, 8, ci, 0, cb, 0)
            ids.append(LIB.ite(w, cc, int(cb != 0), i, j, x, y) if cc else (i if cb else j))
        else:
            ids.append(i if cb else j)
    _store(out, ids)
    return out


def h_masked_fill(func, args, kwargs):
    a, m, v = args
    a0 = a
    if _sch(func)[2]:
        with _NoMode():
            a0 = a.detach().clone()
        if is_sym(a):
            set_ids(a0, get_ids(a))
    out = func(*args, **kwargs)
    clear(out)
    dt = out.dtype
    C = Operand(m, torch.bool, out.shape)
    A, B = Operand(v, dt, out.shape), Operand(a0, dt, out.shape)
    w = INFO[dt][1]
    ids = []
    for ci, cb, i, x, j, y in zip(C.ids, C.bits, A.ids, A.bits, B.ids, B.bits):
        if ci:
            cc = LIB.cmp(INE, 8, ci, 0, cb, 0)
            ids.append(LIB.ite(w, cc, int(cb != 0), i, j, x, y) if cc else (i if cb else j))
        else:
            ids.append(i if cb else j)
    _store(out, ids)
    return out


def _fold(dt, kind, items):
    """items: list of (id, bits); returns (id, bits)."""
    es, k, w, fp, sg = INFO[dt]
    npdt = _np(dt)

    def val(b):
        return np.array([b], dtype=NPU[es]).view(npdt)[0]

    def enc(v):
        return int(np.array([v], dtype=npdt).view(NPU[es])[0])

    ai, ab = items[0]
    for i, b in items[1:]:
        with np.errstate(all='ignore'):
            x, y = val(ab), val(b)
            if kind == 'sum':
                nb, op = enc(npdt(x + y)), OP['FADD' if fp else 'ADD']
            elif kind == 'prod':
                nb, op = enc(npdt(x * y)), OP['FMUL' if fp else 'MUL']
            elif kind == 'max':
                nb, op = enc(max(x, y)), OP['FMAX' if fp else 'SMAX' if sg else 'UMAX']
            elif kind == 'min':
                nb, op = enc(min(x, y)), OP['FMIN' if fp else 'SMIN' if sg else 'UMIN']
        ai = LIB.bin(op, w, ai, i, ab, b) if ai or i else 0
        ab = nb
    return ai, ab


def _dims(t, dim):
    n = t.dim()
    if dim is None or (isinstance(dim, (list, tuple)) and len(dim) == 0):
        return list(range(n))
    if isinstance(dim, int):
        dim = [dim]
    return [d % n if n else 0 for d in dim]


def h_reduce(kind):
    def h(func, args, kwargs):
        a = args[0]
        out = func(*args, **kwargs)
        clear(out)
        dt = out.dtype
        if dt not in INFO or a.dtype not in INFO:
            pin_tensor(a)
            return out
        dims = _dims(a, args[1] if len(args) > 1 else kwargs.get('dim')) if kind != 'prod' else list(range(a.dim()))
        src = Operand(a, dt, a.shape)
        shp = tuple(a.shape)
        I = np.array(src.ids, dtype=np.int64).reshape(shp)
        B = np.array(src.bits, dtype=np.uint64).reshape(shp)
        keep = [d for d in range(len(shp)) if d not in dims]
        n = int(np.prod([shp[d] for d in dims])) if dims else 1
        I2 = I.transpose(keep + dims).reshape(-1, n) if I.size else I.reshape(-1, max(n, 1))
        B2 = B.transpose(keep + dims).reshape(-1, n) if I.size else B.reshape(-1, max(n, 1))
        ids = []
        if I.size:
            for r in range(I2.shape[0]):
                it = list(zip(I2[r].tolist(), B2[r].tolist()))
                ids.append(_fold(dt, kind, it)[0] if any(i for i, _ in it) else 0)
            _store(out, ids)
        return out
    return h


def h_boolreduce(is_any):
    def h(func, args, kwargs):
        a = args[0]
        out = func(*args, **kwargs)
        clear(out)
        dims = _dims(a, args[1] if len(args) > 1 else kwargs.get('dim'))
        src = Operand(a, torch.bool, a.shape)
        shp = tuple(a.shape)
        if not src.ids:
            return out
        I = np.array(src.ids, dtype=np.int64).reshape(shp)
        B = np.array(src.bits, dtype=np.int64).reshape(shp)
        keep = [d for d in range(len(shp)) if d not in dims]
        n = int(np.prod([shp[d] for d in dims])) if dims else 1
        I2 = I.transpose(keep + dims).reshape(-1, n)
        B2 = B.transpose(keep + dims).reshape(-1, n)
        ids = []
        for r in range(I2.shape[0]):
            acc = SB(not is_any)
            for i, b in zip(I2[r].tolist(), B2[r].tolist()):
                x = SB(b != 0, LIB.cmp(INE, 8, i, 0, b, 0) if i else 0)
                acc = (acc | x) if is_any else (acc & x)
            ids.append(LIB.cast(OP['ZEXT'], 1, 8, acc.i, int(acc.v)) if acc.i else 0)
        _store(out, ids)
        return out
    return h


def scan_best(is_max, dt, ids, bits, p):
    """Forks on the position of the first best value, which is p on this input."""
    w, fp, sg = INFO[dt][2:]
    pr = (FOGT if is_max else FOLT) if fp else ((ISGT if is_max else ISLT) if sg else (IUGT if is_max else IULT))
    b = 0
    for c in range(1, len(ids)):
        ci, cb, bi, bb = int(ids[c]), int(bits[c]), int(ids[b]), int(bits[b])
        cc = LIB.cmp(pr, w, ci, bi, cb, bb) if ci or bi else 0
        if cc:
            v = LIB_val(cc)
            LIB.branch(cc, 1 if v else 0)
        else:
            x, y = _v(cb, dt), _v(bb, dt)
            v = x > y if is_max else x < y
        if v:
            b = c
    if b != p:
        raise EngineError('maximum: unexpected tie-breaking')


def h_maxdim(is_max):
    def h(func, args, kwargs):
        a, dim = args[0], args[1]
        keepdim = args[2] if len(args) > 2 else kwargs.get('keepdim', False)
        out = func(*args, **kwargs)
        for o in out:
            clear(o)
        dt = a.dtype
        es, k, w, fp, sg = INFO[dt]
        shp = tuple(a.shape)
        dim %= len(shp)
        I = np.moveaxis(get_ids(a).astype(np.int64), dim, -1).reshape(-1, shp[dim])
        B = np.moveaxis(get_bits(a), dim, -1).reshape(-1, shp[dim])
        oi = raw_np(out[1]).ravel()
        vals, idxs = [], []
        for r in range(I.shape[0]):
            scan_best(is_max, dt, I[r], B[r], int(oi[r]))
            p = int(oi[r])
            vals.append(int(I[r, p]))
        set_ids(out[0], np.array(vals, dtype=np.uint32).reshape(tuple(out[0].shape)))
        return out
    return h


def h_cumsum(func, args, kwargs):
    a, dim = args[0], args[1]
    out = func(*args, **kwargs)
    clear(out)
    dt = out.dtype
    if dt not in INFO:
        pin_tensor(a)
        return out
    src = Operand(a, dt, a.shape)
    es, k, w, fp, sg = INFO[dt]
    shp = tuple(a.shape)
    if not shp:
        return out
    I = np.moveaxis(np.array(src.ids, dtype=np.int64).reshape(shp), dim, -1)
    B = np.moveaxis(get_bits(out), dim, -1)
    S = np.moveaxis(np.array(src.bits, dtype=np.uint64).reshape(shp), dim, -1)
    R = np.zeros(I.shape, dtype=np.uint32)
    for ix in np.ndindex(*I.shape[:-1]):
        acc = 0
        ab = 0
        for c in range(I.shape[-1]):
            j = ix + (c,)
            acc = int(I[j]) if c == 0 else (LIB.bin(OP['FADD' if fp else 'ADD'], w, acc, int(I[j]), ab, int(S[j])) if acc or I[j] else 0)
            ab = int(B[j])
            R[j] = acc
    _store(out, np.moveaxis(R, -1, dim).ravel().tolist())
    return out


def h_equal(func, args, kwargs):
    a, b = args
    out = func(*args, **kwargs)
    if tuple(a.shape) != tuple(b.shape):
        return out
    dt = _result_dtype(a, b)
    es, k, w, fp, sg = INFO[dt]
    A, B = Operand(a, dt, a.shape), Operand(b, dt, b.shape)
    acc = SB(True)
    for i, j, x, y in zip(A.ids, B.ids, A.bits, B.bits):
        if i or j:
            c = LIB.cmp(FOEQ if fp else IEQ, w, i, j, x, y)
            acc = acc & SB(LIB_val(c) if c else x == y, c)
        else:
            acc = acc & (x == y)
    if acc.i:
        LIB.branch(acc.i, int(acc.v))
    return out


def h_index_put(func, args, kwargs):
    """self[indices] = values, without accumulation."""
    acc = args[3] if len(args) > 3 else kwargs.get('accumulate', False)
    for t in _tensors(args[1], []):
        pin_tensor(t)
    if acc:
        return h_index_put_acc(func, args, kwargs)
    dst, ind, src = args[0], args[1], args[2]
    with _NoMode():
        d = id_tensor(dst).clone()
        s = id_tensor(src) if src.dtype == dst.dtype else None
        if s is None:
            raise EngineError('index_put with a conversion')
        d.index_put_(ind, s)
        ids = _raw_numpy(d).astype(np.uint32)
    out = func(*args, **kwargs)
    clear(out)
    set_ids(out, ids)
    return out


def h_index_put_acc(func, args, kwargs):
    dst, ind, src = args[0], args[1], args[2]
    with _NoMode():
        pos = torch.arange(dst.numel()).reshape(dst.shape)[tuple(x if x is not None else slice(None) for x in ind)].reshape(-1).tolist()
    dt = dst.dtype
    es, k, w, fp, sg = INFO[dt]
    D = Operand(dst, dt, dst.shape)
    with _NoMode():
        shp = torch.arange(dst.numel()).reshape(dst.shape)[tuple(x if x is not None else slice(None) for x in ind)].shape
    S = Operand(src, dt, shp)
    out = func(*args, **kwargs)
    ids, bits = D.ids[:], D.bits[:]
    for p, i, b in zip(pos, S.ids, S.bits):
        ids[p], bits[p] = _fold(dt, 'sum', [(ids[p], bits[p]), (i, b)])
    clear(out)
    _store(out, ids)
    return out


def h_index_add(func, args, kwargs):
    """self.index_add(dim, index, source)"""
    a, dim, index, src = args[:4]
    if kwargs.get('alpha', 1) != 1 or a.dim() < 1 or src.dtype != a.dtype:
        return h_pin(func, args, kwargs)
    pin_tensor(index)
    dt = a.dtype
    D, S = Operand(a, dt, a.shape), Operand(src, dt, src.shape)
    with _NoMode():
        pos = torch.arange(a.numel()).reshape(a.shape).index_select(dim, index).reshape(-1).tolist()
    out = func(*args, **kwargs)
    ids, bits = D.ids[:], D.bits[:]
    for p, i, b in zip(pos, S.ids, S.bits):
        ids[p], bits[p] = _fold(dt, 'sum', [(ids[p], bits[p]), (i, b)])
    clear(out)
    _store(out, ids)
    return out


EW = {
    'add': ew_arith('ADD', 'FADD'), 'sub': ew_arith('SUB', 'FSUB'), 'mul': ew_arith('MUL', 'FMUL'),
    'div': ew_arith('SDIV', 'FDIV'), 'max': ew_arith('SMAX', 'FMAX'), 'min': ew_arith('SMIN', 'FMIN'),
    'and': ew_arith('AND', 'AND'), 'or': ew_arith('OR', 'OR'), 'xor': ew_arith('XOR', 'XOR'),
    'eq': ew_cmp(IEQ, IEQ, FOEQ), 'ne': ew_cmp(INE, INE, FUNE), 'lt': ew_cmp(ISLT, IULT, FOLT),
    'le': ew_cmp(ISLE, IULE, FOLE), 'gt': ew_cmp(ISGT, IUGT, FOGT), 'ge': ew_cmp(ISGE, IUGE, FOGE),
}
for _n in ('add', 'sub', 'mul', 'div'):
    H['aten::' + _n] = H['aten::' + _n + '_'] = h_binary(EW[_n], alpha=_n in ('add', 'sub'))
H['aten::maximum'] = h_binary(EW['max'])
H['aten::minimum'] = h_binary(EW['min'])
for _n in ('eq', 'ne', 'lt', 'le', 'gt', 'ge'):
    H['aten::' + _n] = h_binary(EW[_n], cmp=True)
for _n in ('and', 'or', 'xor'):
    H[f'aten::bitwise_{_n}'] = H[f'aten::bitwise_{_n}_'] = H[f'aten::__{_n}__'] = H[f'aten::__i{_n}__'] = h_binary(EW[_n])


def h_logical(nm):
    def h(func, args, kwargs):
        if any(t.dtype is not torch.bool for t in args[:2] if isinstance(t, torch.Tensor)):
            return h_pin(func, args, kwargs)
        return h_binary(EW[nm])(func, args, kwargs)
    return h


for _n in ('and', 'or', 'xor'):
    H[f'aten::logical_{_n}'] = h_logical(_n)


def _neg(info, i, b, o):
    es, k, w, fp, sg = info
    return LIB.un(OP['FNEG'], w, i, b) if fp else LIB.bin(OP['SUB'], w, 0, i, 0, b)


def _not(info, i, b, o):
    c = LIB.cmp(IEQ, 8, i, 0, b, 0)
    return LIB.cast(OP['ZEXT'], 1, 8, c, LIB_val(c)) if c else 0


H['aten::neg'] = H['aten::neg_'] = h_unary(_neg)
H['aten::abs'] = h_unary(lambda f, i, b, o: LIB.un(OP['FABS' if f[3] else 'ABS'], f[2], i, b))
H['aten::exp'] = H['aten::exp_'] = h_unary(lambda f, i, b, o: LIB.libm(OP['FEXP'], f[2], i, b, o))
H['aten::log'] = H['aten::log_'] = h_unary(lambda f, i, b, o: LIB.libm(OP['FLOG'], f[2], i, b, o))
H['aten::logical_not'] = H['aten::bitwise_not'] = lambda f, a, k: h_unary(_not)(f, a, k) if a[0].dtype is torch.bool else h_pin(f, a, k)
H['aten::_local_scalar_dense'] = h_item
H['aten::item'] = h_item
H['aten::copy_'] = h_copy_
H['aten::_to_copy'] = h_to_copy
H['aten::fill_'] = h_fill_
H['aten::where'] = h_where
H['aten::masked_fill'] = H['aten::masked_fill_'] = h_masked_fill
H['aten::sum'] = h_reduce('sum')
H['aten::amax'] = h_reduce('max')
H['aten::amin'] = h_reduce('min')
H['aten::cumsum'] = h_cumsum
H['aten::any'] = h_boolreduce(True)
H['aten::all'] = h_boolreduce(False)
H['aten::equal'] = h_equal
H['aten::index_put_'] = H['aten::index_put'] = H['aten::_index_put_impl_'] = h_index_put
H['aten::index_add_'] = H['aten::index_add'] = h_index_add
H['aten::max'] = lambda f, a, k: (h_maxdim(True) if len(a) > 1 and isinstance(a[1], int) else h_binary(EW['max']) if len(a) > 1 else h_reduce('max'))(f, a, k)
H['aten::min'] = lambda f, a, k: (h_maxdim(False) if len(a) > 1 and isinstance(a[1], int) else h_binary(EW['min']) if len(a) > 1 else h_reduce('min'))(f, a, k)

def _b(v, dt):
    """Bits of a number."""
    es, k, w, fp, sg = INFO[dt]
    with np.errstate(all='ignore'):
        return int(np.array([v], dtype=_np(dt)).view(NPU[es])[0])


def _v(b, dt):
    es = INFO[dt][0]
    return np.array([b], dtype=NPU[es]).view(_np(dt))[0]


class N:
    """A number of a torch operator: expression and value."""
    def __init__(self, dt, i, b):
        self.dt, self.i, self.b = dt, int(i), int(b)

    def _op(self, o, op, f):
        o = o if isinstance(o, N) else N(self.dt, 0, _b(o, self.dt))
        with np.errstate(all='ignore'):
            nb = _b(f(_v(self.b, self.dt), _v(o.b, self.dt)), self.dt)
        return N(self.dt, LIB.bin(OP[op], INFO[self.dt][2], self.i, o.i, self.b, o.b) if self.i or o.i else 0, nb)

    def __add__(self, o):
        return self._op(o, 'FADD' if INFO[self.dt][3] else 'ADD', lambda x, y: x + y)

    def __sub__(self, o):
        return self._op(o, 'FSUB' if INFO[self.dt][3] else 'SUB', lambda x, y: x - y)

    def __mul__(self, o):
        return self._op(o, 'FMUL' if INFO[self.dt][3] else 'MUL', lambda x, y: x * y)

    def __truediv__(self, o):
        return self._op(o, 'FDIV', lambda x, y: x / y)

    def min(self, o):
        fp, sg = INFO[self.dt][3:]
        return self._op(o, 'FMIN' if fp else 'SMIN' if sg else 'UMIN', min)

    def max(self, o):
        fp, sg = INFO[self.dt][3:]
        return self._op(o, 'FMAX' if fp else 'SMAX' if sg else 'UMAX', max)

    def exp(self):
        with np.errstate(all='ignore'):
            nb = _b(np.exp(_v(self.b, self.dt)), self.dt)
        return N(self.dt, LIB.libm(OP['FEXP'], INFO[self.dt][2], self.i, self.b, nb) if self.i else 0, nb)

    def log(self):
        with np.errstate(all='ignore'):
            nb = _b(np.log(_v(self.b, self.dt)), self.dt)
        return N(self.dt, LIB.libm(OP['FLOG'], INFO[self.dt][2], self.i, self.b, nb) if self.i else 0, nb)

    def zero(self):
        return not self.i and _v(self.b, self.dt) == 0


def nums(t, dt=None):
    """A numpy array of N."""
    dt = dt or t.dtype
    o = Operand(t, dt, t.shape)
    r = np.empty(len(o.ids), dtype=object)
    for k, (i, b) in enumerate(zip(o.ids, o.bits)):
        r[k] = N(dt, i, b)
    return r.reshape(tuple(t.shape))


def put(out, r):
    clear(out)
    _store(out, [x.i for x in np.asarray(r, dtype=object).reshape(-1)])
    return out


def nsum(xs, dt):
    r = None
    for x in xs:
        if not x.zero():
            r = x if r is None else r + x
    return N(dt, 0, 0) if r is None else r


def h_matmul(func, args, kwargs):
    a, b = args[0], args[1]
    if a.dtype != b.dtype or not INFO[a.dtype][3]:
        return h_pin(func, args, kwargs)
    out = func(*args, **kwargs)
    x, y, dt = nums(a), nums(b), a.dtype
    r = np.empty(tuple(out.shape), dtype=object)
    for ix in np.ndindex(*r.shape):
        if a.dim() == 3:
            row, col = x[ix[0], ix[1]], y[ix[0], :, ix[2]]
        elif a.dim() == 2 and b.dim() == 2:
            row, col = x[ix[0]], y[:, ix[1]]
        elif a.dim() == 2:
            row, col = x[ix[0]], y
        else:
            row, col = x, y
        r[ix] = nsum([N(dt, 0, 0) if p.zero() or q.zero() else p * q for p, q in zip(row, col)], dt)
    return put(out, r)


def h_mean(func, args, kwargs):
    a = args[0]
    out = func(*args, **kwargs)
    if out.dtype != a.dtype:
        return h_pin(func, args, kwargs)
    dims = _dims(a, args[1] if len(args) > 1 else kwargs.get('dim'))
    x = nums(a)
    keep = [d for d in range(a.dim()) if d not in dims]
    n = int(np.prod([a.shape[d] for d in dims])) if dims else 1
    x = x.transpose(keep + dims).reshape(-1, n)
    return put(out, [nsum(list(row), a.dtype) / float(n) for row in x])


def _rowwise(a, dim, f):
    """f maps the list of numbers along dim to a list of the same length."""
    x = np.moveaxis(nums(a), dim, -1)
    r = np.empty(x.shape, dtype=object)
    for ix in np.ndindex(*x.shape[:-1]):
        r[ix] = f(list(x[ix]))
    return np.moveaxis(r, -1, dim)


def _lse(xs):
    return nsum([x.exp() for x in xs], xs[0].dt).log()


def h_logsumexp(func, args, kwargs):
    a = args[0]
    dims = _dims(a, args[1])
    if EXACT or len(dims) != 1 or out_other(a):
        return h_pin(func, args, kwargs)
    out = func(*args, **kwargs)
    x = np.moveaxis(nums(a), dims[0], -1)
    return put(out, [_lse(list(x[ix])) for ix in np.ndindex(*x.shape[:-1])])


def out_other(a):
    return a.dtype not in INFO or not INFO[a.dtype][3]


def h_softmax(log):
    def h(func, args, kwargs):
        a, dim = args[0], args[1]
        if EXACT or out_other(a) or (len(args) > 2 and args[2]):
            return h_pin(func, args, kwargs)
        out = func(*args, **kwargs)

        def f(xs):
            z = _lse(xs)
            return [x - z if log else (x - z).exp() for x in xs]
        return put(out, _rowwise(a, dim, f))
    return h


def h_softmax_back(log):
    def h(func, args, kwargs):
        g, o, dim = args[:3]
        if EXACT or out_other(o) or args[3] != o.dtype:
            return h_pin(func, args, kwargs)
        out = func(*args, **kwargs)
        x, y = np.moveaxis(nums(g), dim, -1), np.moveaxis(nums(o), dim, -1)
        r = np.empty(x.shape, dtype=object)
        for ix in np.ndindex(*x.shape[:-1]):
            if log:
                s = nsum(list(x[ix]), o.dtype)
                r[ix] = [u - v.exp() * s for u, v in zip(x[ix], y[ix])]
            else:
                s = nsum([u * v for u, v in zip(x[ix], y[ix])], o.dtype)
                r[ix] = [(u - s) * v for u, v in zip(x[ix], y[ix])]
        return put(out, np.moveaxis(r, -1, dim))
    return h


def h_logsigmoid(func, args, kwargs):
    a = args[0]
    if EXACT or out_other(a):
        return h_pin(func, args, kwargs)
    out = func(*args, **kwargs)
    clear(out[1])
    put(out[0], [x - (x.exp() + 1.0).log() for x in nums(a).reshape(-1)])
    return out


def h_logsigmoid_back(func, args, kwargs):
    g, a = args[:2]
    if EXACT or out_other(a):
        return h_pin(func, args, kwargs)
    out = func(*args, **kwargs)
    return put(out, [u / (x.exp() + 1.0) for u, x in zip(nums(g).reshape(-1), nums(a).reshape(-1))])


def h_sigmoid(func, args, kwargs):
    a = args[0]
    if EXACT or out_other(a):
        return h_pin(func, args, kwargs)
    out = func(*args, **kwargs)
    return put(out, [x.exp() / (x.exp() + 1.0) for x in nums(a).reshape(-1)])


def h_cummin(func, args, kwargs):
    """Values only: the positions stay what they are on this input, so they are fixed by pinning when there is a tie to lose."""
    a, dim = args[:2]
    out = func(*args, **kwargs)
    for o in out:
        clear(o)
    if a.dtype not in INFO:
        pin_tensor(a)
        return out

    def f(xs):
        r = []
        for x in xs:
            r.append(x if not r else r[-1].min(x))
        return r
    put(out[0], _rowwise(a, dim, f))
    return out


def h_argmax(is_max):
    def h(func, args, kwargs):
        a = args[0]
        dim = args[1] if len(args) > 1 else kwargs.get('dim')
        out = func(*args, **kwargs)
        clear(out)
        if dim is None or a.dtype not in INFO:
            pin_tensor(a)
            return out
        es, k, w, fp, sg = INFO[a.dtype]
        x = np.moveaxis(nums(a), dim, -1)
        x = x.reshape(-1, a.shape[dim])
        for row, p in zip(x, raw_np(out).ravel().tolist()):
            scan_best(is_max, a.dtype, [v.i for v in row], [v.b for v in row], p)
        return out
    return h


def h_scatter(func, args, kwargs):
    """scatter with a number or a tensor; positions are pinned."""
    a, dim, index, src = args[0], args[1], args[2], args[3] if len(args) > 3 else kwargs.get('value', kwargs.get('src'))
    if kwargs.get('reduce') is not None or a.dtype not in INFO:
        return h_pin(func, args, kwargs)
    pin_tensor(index)
    with _NoMode():
        ida = id_tensor(a)
        ido = ida.scatter(dim, index, id_tensor(src) if isinstance(src, torch.Tensor) else 0)
    out = func(*args, **kwargs)
    clear(out)
    with _NoMode():
        set_ids(out, _raw_numpy(ido.contiguous()).astype(np.uint32))
    return out


def h_scatter_add(func, args, kwargs):
    a, dim, index, src = args[:4]
    if a.dtype not in INFO or src.dtype != a.dtype:
        return h_pin(func, args, kwargs)
    pin_tensor(index)
    x, y = nums(a), nums(src)
    with _NoMode():
        ix = raw_np(index)
    for j in np.ndindex(*ix.shape):
        k = list(j)
        k[dim] = int(ix[j])
        k = tuple(k)
        if y[j].zero():
            continue
        x[k] = y[j] if x[k].zero() else x[k] + y[j]
    out = func(*args, **kwargs)
    return put(out, x)


def h_clamp(func, args, kwargs):
    a = args[0]
    lo = args[1] if len(args) > 1 else kwargs.get('min')
    hi = args[2] if len(args) > 2 else kwargs.get('max')
    if isinstance(lo, torch.Tensor) or isinstance(hi, torch.Tensor) or a.dtype not in INFO:
        return h_pin(func, args, kwargs)
    x = nums(a).reshape(-1)
    out = func(*args, **kwargs)
    if out.dtype != a.dtype:
        pin_tensor(a)
        clear(out)
        return out
    r = []
    for v in x:
        v = v if lo is None else v.max(lo)
        r.append(v if hi is None else v.min(hi))
    return put(out, r)


def h_rsub(func, args, kwargs):
    a, b = args[:2]
    if (args[2] if len(args) > 2 else kwargs.get('alpha', 1)) != 1 or isinstance(b, torch.Tensor) or a.dtype not in INFO:
        return h_pin(func, args, kwargs)
    x = nums(a).reshape(-1)
    out = func(*args, **kwargs)
    if out.dtype != a.dtype:
        return _pin_after(out, [v.i for v in x])
    return put(out, [N(a.dtype, 0, _b(b, a.dtype)) - v for v in x])


for _n in ('bmm', 'mm', 'mv', 'dot'):
    H['aten::' + _n] = h_matmul
H['aten::mean'] = h_mean
H['aten::logsumexp'] = h_logsumexp


def h_logaddexp(func, args, kwargs):
    a, b = args[:2]
    if EXACT or out_other(a) or a.dtype != b.dtype:
        return h_pin(func, args, kwargs)
    out = func(*args, **kwargs)
    x, y = np.broadcast_arrays(nums(a), nums(b))
    return put(out, np.array([_lse([p, q]) for p, q in zip(x.reshape(-1), y.reshape(-1))], dtype=object).reshape(x.shape) if x.size else [])


H['aten::logaddexp'] = h_logaddexp
H['aten::_log_softmax'], H['aten::_softmax'] = h_softmax(True), h_softmax(False)
H['aten::_log_softmax_backward_data'], H['aten::_softmax_backward_data'] = h_softmax_back(True), h_softmax_back(False)
H['aten::log_sigmoid_forward'] = h_logsigmoid
H['aten::log_sigmoid_backward'] = h_logsigmoid_back
H['aten::sigmoid'] = h_sigmoid
H['aten::cummin'] = h_cummin
H['aten::argmax'], H['aten::argmin'] = h_argmax(True), h_argmax(False)
H['aten::scatter'] = H['aten::scatter_'] = h_scatter
H['aten::scatter_add'] = H['aten::scatter_add_'] = h_scatter_add
H['aten::clamp'] = H['aten::clamp_'] = H['aten::clamp_min'] = h_clamp
H['aten::rsub'] = h_rsub
for _n, _p in MOVE.items():
    H[_n] = h_move(_p)


def dispatch(func, args, kwargs):
    name, view, writes, names = _sch(func)
    if view:
        return func(*args, **kwargs)
    ts = _tensors(args, [])
    if kwargs:
        _tensors(kwargs, ts)
    if name in SHAPEONLY or not any(is_sym(t) for t in ts):
        out = func(*args, **kwargs)
        for k in writes:
            a = args[k] if k < len(args) else kwargs.get(names[k])
            for t in _tensors(a, []):
                clear(t)
        if not writes:
            for o in _tensors(out, []):
                clear(o)
        return out
    h = H.get(name)
    if h is None:
        return h_pin(func, args, kwargs)
    return h(func, args, kwargs)


def make_mode():
    from torch.utils._python_dispatch import TorchDispatchMode

    class Mode(TorchDispatchMode):
        def __torch_dispatch__(self, func, types, args=(), kwargs=None):
            return dispatch(func, args, kwargs or {})

    return Mode()
