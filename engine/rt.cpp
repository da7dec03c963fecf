// Run-time library of the symbolic execution engine: expression DAG, shadow
// memory and path-constraint trace.  Loaded with LD_PRELOAD so that free()
// clears the shadow of released memory.
#include <dlfcn.h>
#include <malloc.h>
#include <math.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <pthread.h>
#include "ops.h"

#define API extern "C" __attribute__((visibility("default")))
#define likely(x) __builtin_expect(!!(x), 1)
#define unlikely(x) __builtin_expect(!!(x), 0)

typedef uint32_t u32;
typedef uint64_t u64;
typedef int64_t i64;

struct Node {
  uint16_t op;
  uint16_t w;
  u32 a, b, c;
  u64 k;
};

// LLVM predicates
enum { FCMP_FALSE = 0, FCMP_OEQ, FCMP_OGT, FCMP_OGE, FCMP_OLT, FCMP_OLE, FCMP_ONE, FCMP_ORD,
       FCMP_UNO, FCMP_UEQ, FCMP_UGT, FCMP_UGE, FCMP_ULT, FCMP_ULE, FCMP_UNE, FCMP_TRUE,
       ICMP_EQ = 32, ICMP_NE, ICMP_UGT, ICMP_UGE, ICMP_ULT, ICMP_ULE, ICMP_SGT, ICMP_SGE, ICMP_SLT, ICMP_SLE };

static const u32 MAXN = 1u << 24;
static Node *nodes;          // mmap'ed
static u64 *vals;            // value under the current input
static u32 nnodes = 1;
static u32 *htab;
static const u32 HN = 1u << 25;

struct Ev { u32 cond; u32 taken; u64 pin; };  // taken: bit 0 outcome, bit 1 a comparison of a pinned value with pin
static const u32 MAXT = 1u << 20;
static Ev *trace;
static u32 ntrace;
static u32 *seen_epoch;      // per node: epoch*2+taken
static u32 *pin_epoch;       // per node: epoch when pinned
static u32 epoch = 1;
static int g_on;             // tracing enabled
static u64 n_inexact, n_pins, n_branches, n_stale, n_overflow;
static pthread_t g_main;

static void *bigmap(size_t n) {
  void *p = mmap(0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) abort();
  return p;
}
static void init() {
  if (nodes) return;
  nodes = (Node *)bigmap(sizeof(Node) * (size_t)MAXN);
  vals = (u64 *)bigmap(8 * (size_t)MAXN);
  htab = (u32 *)bigmap(4 * (size_t)HN);
  trace = (Ev *)bigmap(sizeof(Ev) * (size_t)MAXT);
  seen_epoch = (u32 *)bigmap(4 * (size_t)MAXN);
  pin_epoch = (u32 *)bigmap(4 * (size_t)MAXN);
}

static inline u64 mask(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline i64 sx(u64 v, unsigned w) { return w >= 64 ? (i64)v : (i64)(v << (64 - w)) >> (64 - w); }
static inline float f32(u64 b) { u32 x = (u32)b; float f; memcpy(&f, &x, 4); return f; }
static inline double f64(u64 b) { double f; memcpy(&f, &b, 8); return f; }
static inline u64 b32(float f) { u32 x; memcpy(&x, &f, 4); return x; }
static inline u64 b64(double f) { u64 x; memcpy(&x, &f, 8); return x; }
static inline double fval(u64 b, unsigned w) { return w == 32 ? (double)f32(b) : f64(b); }

static u32 raw(uint16_t op, unsigned w, u32 a, u32 b, u32 c, u64 k, u64 v) {
  u64 h = op * 0x9E3779B97F4A7C15ull;
  h = (h ^ w) * 0xff51afd7ed558ccdull;
  h = (h ^ (h >> 29) ^ a) * 0xc4ceb9fe1a85ec53ull;
  h = (h ^ (h >> 31) ^ b) * 0xff51afd7ed558ccdull;
  h = (h ^ (h >> 30) ^ c) * 0xc4ceb9fe1a85ec53ull;
  h = (h ^ (h >> 28) ^ k) * 0x9E3779B97F4A7C15ull;
  h ^= h >> 32;
  u32 i = (u32)h & (HN - 1);
  while (htab[i]) {
    Node &n = nodes[htab[i]];
    if (n.op == op && n.w == w && n.a == a && n.b == b && n.c == c && n.k == k) {
      vals[htab[i]] = v;
      return htab[i];
    }
    i = (i + 1) & (HN - 1);
  }
  if (nnodes >= MAXN - 1) {
    fprintf(stderr, "k2sym: expression table full\n");
    abort();
  }
  u32 id = nnodes++;
  htab[i] = id;
  nodes[id] = Node{op, (uint16_t)w, a, b, c, k};
  vals[id] = v;
  return id;
}
static u32 konst(u64 v, unsigned w) { return raw(OP_CONST, w, 0, 0, 0, v & mask(w), v & mask(w)); }
static u32 fkonst(u64 v, unsigned w) { return raw(OP_FCONST, w, 0, 0, 0, v & mask(w), v & mask(w)); }
static inline bool isK(u32 id) { return nodes[id].op == OP_CONST; }
static inline bool isFP(u32 id) {
  switch (nodes[id].op) {
    case OP_FVAR: case OP_FCONST: case OP_FADD: case OP_FSUB: case OP_FMUL: case OP_FDIV: case OP_FREM:
    case OP_FMAX: case OP_FMIN: case OP_FNEG: case OP_FABS: case OP_FEXP: case OP_FLOG: case OP_FLOG1P:
    case OP_FEXPM1: case OP_FID: case OP_FSQRT: case OP_FFLOOR: case OP_FPTRUNC: case OP_FPEXT: case OP_SITOFP:
    case OP_UITOFP: case OP_BITSF: return true;
    case OP_ITE: return nodes[id].k == 1;
  }
  return false;
}
static inline bool pinned(u32 id) { return pin_epoch[id] == epoch; }

static u32 mk_extract(u32 a, unsigned lo, unsigned w);
static u32 mk_cast(int op, unsigned ws, unsigned wd, u32 a, u64 va);

// ---- integer operations
static u64 ibin(int op, unsigned w, u64 a, u64 b) {
  i64 sa = sx(a, w), sb = sx(b, w);
  u64 m = mask(w);
  switch (op) {
    case OP_ADD: return (a + b) & m;
    case OP_SUB: return (a - b) & m;
    case OP_MUL: return (a * b) & m;
    case OP_UDIV: return b ? a / b : m;
    case OP_SDIV: return (b == 0 || (sb == -1 && sa == sx(1ull << (w - 1), w))) ? 0 : (u64)(sa / sb) & m;
    case OP_UREM: return b ? a % b : a;
    case OP_SREM: return (b == 0 || sb == -1) ? 0 : (u64)(sa % sb) & m;
    case OP_SHL: return b >= w ? 0 : (a << b) & m;
    case OP_LSHR: return b >= w ? 0 : (a >> b);
    case OP_ASHR: return (u64)(sa >> (b >= w ? w - 1 : b)) & m;
    case OP_AND: return a & b;
    case OP_OR: return a | b;
    case OP_XOR: return a ^ b;
    case OP_SMAX: return sa > sb ? a : b;
    case OP_SMIN: return sa < sb ? a : b;
    case OP_UMAX: return a > b ? a : b;
    case OP_UMIN: return a < b ? a : b;
  }
  return 0;
}
static int g_fix;  // scores are dyadic numbers
static void pin(u32 id, u64 v);
static inline u32 norm(u32 id) { return id && pinned(id) ? 0 : id; }

static void fcheck(double exact_hi, double r) { if (!(exact_hi == r) && !(isnan(exact_hi) && isnan(r))) ++n_inexact; }

static u64 fbin(int op, unsigned w, u64 a, u64 b) {
  if (w == 32) {
    float x = f32(a), y = f32(b), r = 0;
    double dx = x, dy = y;
    switch (op) {
      case OP_FADD: r = x + y; fcheck(dx + dy, r); break;
      case OP_FSUB: r = x - y; fcheck(dx - dy, r); break;
      case OP_FMUL: r = x * y; fcheck(dx * dy, r); break;
      case OP_FDIV: r = x / y; fcheck(dx / dy, r); break;
      case OP_FREM: r = fmodf(x, y); break;
      case OP_FMAX: r = fmaxf(x, y); break;
      case OP_FMIN: r = fminf(x, y); break;
    }
    return b32(r);
  }
  double x = f64(a), y = f64(b), r = 0;
  switch (op) {
    case OP_FADD: r = x + y; fcheck((double)((long double)x + y), r); break;
    case OP_FSUB: r = x - y; break;
    case OP_FMUL: r = x * y; break;
    case OP_FDIV: r = x / y; break;
    case OP_FREM: r = fmod(x, y); break;
    case OP_FMAX: r = fmax(x, y); break;
    case OP_FMIN: r = fmin(x, y); break;
  }
  return b64(r);
}
static u32 record_branch(u32 id, int taken);

static u32 mk_bin(int op, unsigned w, u32 ea, u32 eb, u64 va, u64 vb) {
  bool fp = op >= OP_FADD && op <= OP_FMIN;
  ea = norm(ea);
  eb = norm(eb);
  if (!(ea | eb)) return 0;
  if (fp) {
    u64 v = fbin(op, w, va, vb);
    if (op == OP_FADD) {  // x + 0
      if (!eb && fval(vb, w) == 0) return ea;
      if (!ea && fval(va, w) == 0) return eb;
    }
    if (op == OP_FSUB && !eb && fval(vb, w) == 0) return ea;
    if (op == OP_FMUL) {
      if (!eb && fval(vb, w) == 1) return ea;
      if (!ea && fval(va, w) == 1) return eb;
      if (!eb && fval(vb, w) == 0) return 0;  // finite symbolic values only: see DESIGN.md
      if (!ea && fval(va, w) == 0) return 0;
    }
    if (op == OP_FDIV && eb && g_fix) {  // dyadic numbers: divisors are decided value by value
      pin(eb, vb);
      eb = 0;
      if (!ea) return 0;
    }
    if (op == OP_FDIV && !eb && fval(vb, w) == 1) return ea;
    if (!ea) ea = fkonst(va, w);
    if (!eb) eb = fkonst(vb, w);
    if ((op == OP_FADD || op == OP_FMUL) && ea > eb) { u32 t = ea; ea = eb; eb = t; }
    return raw(op, w, ea, eb, 0, 0, v);
  }
  va &= mask(w);
  vb &= mask(w);
  u64 v = ibin(op, w, va, vb);
  switch (op) {
    case OP_ADD: case OP_OR: case OP_XOR:
      if (!eb && vb == 0) return ea;
      if (!ea && va == 0) return eb;
      if (op == OP_OR && ((!eb && vb == mask(w)) || (!ea && va == mask(w)))) return 0;
      if (op == OP_XOR && w == 1) {
        if (!eb) { u32 r = raw(OP_NOT1, 1, ea, 0, 0, 0, v); return nodes[ea].op == OP_NOT1 ? nodes[ea].a : r; }
        if (!ea) { u32 r = raw(OP_NOT1, 1, eb, 0, 0, 0, v); return nodes[eb].op == OP_NOT1 ? nodes[eb].a : r; }
      }
      break;
    case OP_SUB: case OP_SHL: case OP_LSHR: case OP_ASHR:
      if (!eb && vb == 0) return ea;
      if (op == OP_SUB && ea == eb) return 0;
      break;
    case OP_MUL:
      if (!eb && vb == 1) return ea;
      if (!ea && va == 1) return eb;
      if ((!eb && vb == 0) || (!ea && va == 0)) return 0;
      break;
    case OP_AND:
      if ((!eb && vb == 0) || (!ea && va == 0)) return 0;
      if (!eb && vb == mask(w)) return ea;
      if (!ea && va == mask(w)) return eb;
      if (ea == eb) return ea;
      // and with a low mask of a zero extension
      if (ea && !eb && nodes[ea].op == OP_ZEXT && (vb & mask(nodes[nodes[ea].a].w)) == mask(nodes[nodes[ea].a].w)) return ea;
      break;
    case OP_SMAX: case OP_SMIN: case OP_UMAX: case OP_UMIN:
      if (ea == eb) return ea;
      break;
    case OP_UDIV: case OP_SDIV: case OP_UREM: case OP_SREM:
      if (eb) {  // a division by zero would crash: explore it
        u32 z = raw(OP_ICMP, 1, eb, konst(0, w), 0, ICMP_EQ, vb == 0);
        record_branch(z, vb == 0);
      }
      if (!eb && vb == 1 && (op == OP_UDIV || op == OP_SDIV)) return ea;
      break;
  }
  if (!ea) ea = konst(va, w);
  if (!eb) eb = konst(vb, w);
  bool comm = op == OP_ADD || op == OP_MUL || op == OP_AND || op == OP_OR || op == OP_XOR || (op >= OP_SMAX && op <= OP_UMIN);
  if (comm && (ea > eb)) { u32 t = ea; ea = eb; eb = t; }
  return raw(op, w, ea, eb, 0, 0, v);
}

static int icmpv(int p, unsigned w, u64 a, u64 b) {
  i64 x = sx(a, w), y = sx(b, w);
  switch (p) {
    case ICMP_EQ: return a == b;
    case ICMP_NE: return a != b;
    case ICMP_UGT: return a > b;
    case ICMP_UGE: return a >= b;
    case ICMP_ULT: return a < b;
    case ICMP_ULE: return a <= b;
    case ICMP_SGT: return x > y;
    case ICMP_SGE: return x >= y;
    case ICMP_SLT: return x < y;
    case ICMP_SLE: return x <= y;
  }
  return 0;
}
static int fcmpv(int p, double x, double y) {
  bool un = isnan(x) || isnan(y);
  switch (p) {
    case FCMP_FALSE: return 0;
    case FCMP_OEQ: return x == y;
    case FCMP_OGT: return x > y;
    case FCMP_OGE: return x >= y;
    case FCMP_OLT: return x < y;
    case FCMP_OLE: return x <= y;
    case FCMP_ONE: return !un && x != y;
    case FCMP_ORD: return !un;
    case FCMP_UNO: return un;
    case FCMP_UEQ: return un || x == y;
    case FCMP_UGT: return un || x > y;
    case FCMP_UGE: return un || x >= y;
    case FCMP_ULT: return un || x < y;
    case FCMP_ULE: return un || x <= y;
    case FCMP_UNE: return un || x != y;
    case FCMP_TRUE: return 1;
  }
  return 0;
}
static u32 mk_not(u32 e) {
  if (!e) return 0;
  if (nodes[e].op == OP_NOT1) { vals[nodes[e].a] = !vals[e]; return nodes[e].a; }
  return raw(OP_NOT1, 1, e, 0, 0, 0, !vals[e]);
}

static u32 mk_cmp(int p, unsigned w, u32 ea, u32 eb, u64 va, u64 vb) {
  ea = norm(ea);
  eb = norm(eb);
  if (!(ea | eb)) return 0;
  if (p < 16) {
    int v = fcmpv(p, fval(va, w), fval(vb, w));
    if (!ea) ea = fkonst(va, w);
    if (!eb) eb = fkonst(vb, w);
    return raw(OP_FCMP, 1, ea, eb, 0, p, v);
  }
  va &= mask(w);
  vb &= mask(w);
  // the constant goes right
  if (!ea) {
    u32 t = ea; ea = eb; eb = t;
    u64 tv = va; va = vb; vb = tv;
    static const int sw[] = {ICMP_EQ, ICMP_NE, ICMP_ULT, ICMP_ULE, ICMP_UGT, ICMP_UGE, ICMP_SLT, ICMP_SLE, ICMP_SGT, ICMP_SGE};
    p = sw[p - 32];
  }
  if (ea == eb) return 0;
  // canonical form: NE -> not EQ, GE -> not LT, GT -> swapped LT / not LE
  if (p == ICMP_NE) return mk_not(mk_cmp(ICMP_EQ, w, ea, eb, va, vb));
  if (p == ICMP_UGE) return mk_not(mk_cmp(ICMP_ULT, w, ea, eb, va, vb));
  if (p == ICMP_SGE) return mk_not(mk_cmp(ICMP_SLT, w, ea, eb, va, vb));
  if (p == ICMP_UGT) return mk_not(mk_cmp(ICMP_ULE, w, ea, eb, va, vb));
  if (p == ICMP_SGT) return mk_not(mk_cmp(ICMP_SLE, w, ea, eb, va, vb));
  if (!eb) {
    if (p == ICMP_ULE && vb == mask(w)) return 0;
    if (p == ICMP_SLE && vb == (mask(w) >> 1)) return 0;
    if (p == ICMP_ULE) { p = ICMP_ULT; vb = vb + 1; }
    else if (p == ICMP_SLE) { p = ICMP_SLT; vb = (vb + 1) & mask(w); }
    if (p == ICMP_ULT && vb == 0) return 0;
    if (p == ICMP_ULT && vb == 1) { p = ICMP_EQ; vb = 0; }
    // comparisons of extensions with constants
    for (;;) {
      Node &n = nodes[ea];
      if (n.op == OP_ZEXT || n.op == OP_SEXT) {
        unsigned iw = nodes[n.a].w;
        bool z = n.op == OP_ZEXT;
        bool fits = z ? vb <= mask(iw) : sx(vb, w) == sx(vb & mask(iw), iw);
        if (p == ICMP_EQ) {
          if (!fits) return 0;
          ea = n.a; va &= mask(iw); vb &= mask(iw); w = iw;
          continue;
        }
        if (p == ICMP_ULT && z) {
          if (!fits) return 0;
          ea = n.a; va &= mask(iw); w = iw;
          continue;
        }
        if (p == ICMP_SLT && !z) {
          if (!fits) return 0;
          ea = n.a; va &= mask(iw); vb &= mask(iw); w = iw;
          continue;
        }
      }
      break;
    }
    if (w == 1 && p == ICMP_EQ) return vb ? ea : mk_not(ea);
    if (w == 1 && p == ICMP_ULT) return vb ? mk_not(ea) : 0;
    eb = konst(vb, w);
  }
  if (p == ICMP_EQ && eb < ea && !isK(eb)) { u32 t = ea; ea = eb; eb = t; u64 tv = va; va = vb; vb = tv; }
  return raw(OP_ICMP, 1, ea, eb, 0, p, icmpv(p, w, va, vb));
}

static u32 mk_un(int op, unsigned w, u32 ea, u64 va) {
  ea = norm(ea);
  if (!ea) return 0;
  if (op == OP_FSQRT && g_fix) { pin(ea, va); return 0; }
  u64 v = 0;
  va &= mask(w);
  switch (op) {
    case OP_FNEG: v = w == 32 ? b32(-f32(va)) : b64(-f64(va)); break;
    case OP_FABS: v = w == 32 ? b32(fabsf(f32(va))) : b64(fabs(f64(va))); break;
    case OP_ABS: { i64 s = sx(va, w); v = (u64)(s < 0 ? -s : s) & mask(w); break; }
    case OP_CTPOP: v = __builtin_popcountll(va); break;
    case OP_CTLZ: v = va ? __builtin_clzll(va) - (64 - w) : w; break;
    case OP_CTTZ: v = va ? __builtin_ctzll(va) : w; break;
    case OP_BSWAP: v = __builtin_bswap64(va) >> (64 - w); break;
  }
  return raw(op, w, ea, 0, 0, 0, v);
}

static u32 mk_cast(int op, unsigned ws, unsigned wd, u32 ea, u64 va) {
  ea = norm(ea);
  if (!ea) return 0;
  Node n = nodes[ea];
  va &= mask(ws);
  u64 v = 0;
  switch (op) {
    case OP_ZEXT:
      v = va;
      if (n.op == OP_ZEXT) return raw(OP_ZEXT, wd, n.a, 0, 0, 0, v);
      if (ws == wd) return ea;
      break;
    case OP_SEXT:
      v = (u64)sx(va, ws) & mask(wd);
      if (n.op == OP_SEXT) return raw(OP_SEXT, wd, n.a, 0, 0, 0, v);
      if (n.op == OP_ZEXT && nodes[n.a].w < ws) return raw(OP_ZEXT, wd, n.a, 0, 0, 0, v);
      if (ws == wd) return ea;
      break;
    case OP_TRUNC: return mk_extract(ea, 0, wd);
    case OP_FPTRUNC: v = b32((float)f64(va)); if (f64(va) != (double)f32(v) && !isnan(f64(va))) ++n_inexact; if (n.op == OP_FPEXT) return n.a; break;
    case OP_FPEXT: v = b64((double)f32(va)); break;
    case OP_FPTOSI: v = (u64)(i64)fval(va, ws) & mask(wd); break;
    case OP_FPTOUI: v = (u64)fval(va, ws) & mask(wd); break;
    case OP_SITOFP: v = wd == 32 ? b32((float)sx(va, ws)) : b64((double)sx(va, ws)); break;
    case OP_UITOFP: v = wd == 32 ? b32((float)va) : b64((double)va); break;
    case OP_FBITS:
      v = va;
      if (!isFP(ea)) return ea;
      if (n.op == OP_BITSF) return n.a;
      break;
    case OP_BITSF:
      v = va;
      if (isFP(ea)) return ea;
      if (n.op == OP_FBITS) return n.a;
      break;
  }
  return raw(op, wd, ea, 0, 0, 0, v);
}
static u32 mk_extract(u32 e, unsigned lo, unsigned w) {
  e = norm(e);
  if (!e) return 0;
  Node n = nodes[e];
  if (isFP(e)) {
    u32 f = raw(OP_FBITS, n.w, e, 0, 0, 0, vals[e]);
    if (lo == 0 && w == n.w) return f;
    return raw(OP_EXTRACT, w, f, 0, 0, lo, (vals[e] >> lo) & mask(w));
  }
  if (lo == 0 && w == n.w) return e;
  u64 v = (vals[e] >> lo) & mask(w);
  if (n.op == OP_CONST) return konst(v, w);
  if (n.op == OP_EXTRACT) return raw(OP_EXTRACT, w, n.a, 0, 0, n.k + lo, v);
  if (n.op == OP_CONCAT) {
    unsigned lw = nodes[n.b].w;
    if (lo + w <= lw) { vals[n.b] = vals[e] & mask(lw); return mk_extract(n.b, lo, w); }
    if (lo >= lw) { vals[n.a] = vals[e] >> lw; return mk_extract(n.a, lo - lw, w); }
  }
  if (n.op == OP_ZEXT || n.op == OP_SEXT) {
    unsigned iw = nodes[n.a].w;
    if (lo + w <= iw) { vals[n.a] = vals[e] & mask(iw); return mk_extract(n.a, lo, w); }
    if (lo == 0) return raw(n.op, w, n.a, 0, 0, 0, v);
    if (lo >= iw && n.op == OP_ZEXT) return konst(0, w);
  }
  if (n.op == OP_ITE && w < n.w && isK(n.b) && isK(n.c)) {
    u32 t = konst(nodes[n.b].k >> lo, w), f = konst(nodes[n.c].k >> lo, w);
    if (t == f) return t;
    return raw(OP_ITE, w, n.a, t, f, 0, v);
  }
  return raw(OP_EXTRACT, w, e, 0, 0, lo, v);
}
// hi and lo may be 0: constants with values vh, vl
static u32 mk_concat(unsigned wh, u32 hi, unsigned wl, u32 lo, u64 vh, u64 vl) {
  if (!(hi | lo)) return 0;
  u64 v = ((vh & mask(wh)) << wl) | (vl & mask(wl));
  if (!hi || isK(hi)) {
    if ((vh & mask(wh)) == 0 && lo) return raw(OP_ZEXT, wh + wl, lo, 0, 0, 0, v);
    hi = konst(vh, wh);
  }
  if (!lo) lo = konst(vl, wl);
  Node a = nodes[hi], b = nodes[lo];
  if (a.op == OP_EXTRACT) {
    if (b.op == OP_EXTRACT && a.a == b.a && a.k == b.k + wl) { vals[a.a] = vals[a.a]; return mk_extract(a.a, (unsigned)b.k, wh + wl); }
    if (a.a == lo && a.k == wl) return mk_extract(lo, 0, wh + wl);
  }
  return raw(OP_CONCAT, wh + wl, hi, lo, 0, 0, v);
}
static u32 mk_ite(unsigned wf, u32 c, u32 cv, u32 et, u32 ef, u64 vt, u64 vf) {
  unsigned w = wf & 0xfff;
  bool fp = wf & 0x1000;
  c = norm(c);
  et = norm(et);
  ef = norm(ef);
  if (!c) return cv ? et : ef;
  vt &= mask(w);
  vf &= mask(w);
  if (!et && !ef && vt == vf) return 0;
  if (et && et == ef) return et;
  if (nodes[c].op == OP_NOT1) {
    c = nodes[c].a;
    vals[c] = !cv;
    cv = !cv;
    u32 t = et; et = ef; ef = t;
    u64 tv = vt; vt = vf; vf = tv;
  }
  u64 v = cv ? vt : vf;
  if (w == 1 && !et && !ef) return vt ? c : mk_not(c);
  if (!et) et = fp ? fkonst(vt, w) : konst(vt, w);
  if (!ef) ef = fp ? fkonst(vf, w) : konst(vf, w);
  if (fp) {
    if (!isFP(et)) et = raw(OP_BITSF, w, et, 0, 0, 0, vt);
    if (!isFP(ef)) ef = raw(OP_BITSF, w, ef, 0, 0, 0, vf);
  } else {
    if (isFP(et)) et = raw(OP_FBITS, w, et, 0, 0, 0, vt);
    if (isFP(ef)) ef = raw(OP_FBITS, w, ef, 0, 0, 0, vf);
  }
  if (et == ef) return et;
  return raw(OP_ITE, w, c, et, ef, fp ? 1 : 0, v);
}

// ---- trace
static void mark_known(u32 id) {
  // operands determined by the value of id
  for (;;) {
    if (pin_epoch[id] == epoch) return;
    pin_epoch[id] = epoch;
    Node n = nodes[id];
    if (n.op == OP_ZEXT || n.op == OP_SEXT) { id = n.a; continue; }
    if (n.op == OP_ADD || n.op == OP_XOR || n.op == OP_SUB) {
      if (isK(n.b)) { id = n.a; continue; }
      if (isK(n.a)) { id = n.b; continue; }
    }
    if (n.op == OP_MUL || n.op == OP_SHL) {  // injective on extensions that cannot wrap
      u32 x = isK(n.b) ? n.a : (n.op == OP_MUL && isK(n.a)) ? n.b : 0;
      u64 k = isK(n.b) ? nodes[n.b].k : (isK(n.a) ? nodes[n.a].k : 0);
      if (x && (nodes[x].op == OP_SEXT || nodes[x].op == OP_ZEXT) && n.w == 64 && nodes[nodes[x].a].w <= 32 && k &&
          k < (n.op == OP_SHL ? 16u : 65536u)) { id = x; continue; }
    }
    if (n.op == OP_ITE && isK(n.b) && isK(n.c)) { id = n.a; continue; }
    if (n.op == OP_NOT1) { id = n.a; continue; }
    return;
  }
}
static u32 record_branch(u32 id, int taken) {
  if (!id || !g_on) return 0;
  if (nodes[id].op == OP_NOT1) { id = nodes[id].a; taken = !taken; }
  if (isK(id) || pinned(id)) return 0;
  u32 key = epoch * 2 + (taken ? 1 : 0);
  if (seen_epoch[id] == key) return 0;
  seen_epoch[id] = key;
  pin_epoch[id] = epoch;  // a decided condition is a constant from here on
  vals[id] = taken;
  if (ntrace < MAXT) trace[ntrace++] = Ev{id, (u32)taken, 0};
  else ++n_overflow;
  ++n_branches;
  // x == k taken: x is known
  Node n = nodes[id];
  if (taken && n.op == OP_ICMP && n.k == ICMP_EQ) {
    if (isK(n.b)) mark_known(n.a);
  }
  // conjunctions taken, disjunctions not taken: both sides are known
  if (n.op == OP_AND && taken) { pin_epoch[n.a] = epoch; pin_epoch[n.b] = epoch; }
  if (n.op == OP_OR && !taken) { pin_epoch[n.a] = epoch; pin_epoch[n.b] = epoch; }
  return 1;
}
// Values a pinned expression is known not to have, by position in the trace: a new
// input that left a path at a pin compares with the old value first.
struct Excl { u32 pos; u64 v; };
static Excl excl[4096];
static u32 n_excl, i_excl;
static bool excluded(u64 *v) {
  while (i_excl < n_excl && excl[i_excl].pos < ntrace) ++i_excl;
  if (i_excl >= n_excl || excl[i_excl].pos != ntrace) return false;
  *v = excl[i_excl].v;
  return true;
}
static u32 pin_branch(u32 c, u64 v, int taken) {
  u32 n = ntrace;
  u32 r = record_branch(c, taken);
  if (ntrace > n) { trace[n].taken |= 2; trace[n].pin = v; if (nodes[c].op == OP_NOT1) abort(); }
  return r;
}
static void pin(u32 id, u64 v) {
  if (!g_on) return;
  id = norm(id);
  if (!id || isK(id) || nodes[id].op == OP_FCONST) return;
  ++n_pins;
  Node n = nodes[id];
  if (isFP(id)) {
    v &= mask(n.w);
    u64 x;
    while (excluded(&x) && x != v) pin_branch(raw(OP_FCMP, 1, id, fkonst(x, n.w), 0, FCMP_OEQ, fcmpv(FCMP_OEQ, fval(v, n.w), fval(x, n.w))), x, 0);
    pin_branch(raw(OP_FCMP, 1, id, fkonst(v, n.w), 0, FCMP_OEQ, 1), v, 1);
    pin_epoch[id] = epoch;
    return;
  }
  if (n.w == 1) { record_branch(id, v & 1); return; }
  // peel off extensions
  u32 outer = id;
  while (n.op == OP_ZEXT || n.op == OP_SEXT) {
    id = n.a;
    n = nodes[id];
    v &= mask(n.w);
  }
  if (n.w == 1) record_branch(id, v & 1);
  else {
    u64 x;
    while (excluded(&x) && x != v) {
      u32 c = mk_cmp(ICMP_EQ, n.w, id, 0, v, x);
      if (!c || !pin_branch(c, x, 0)) break;
    }
    u32 c = mk_cmp(ICMP_EQ, n.w, id, 0, v, v);
    if (c) pin_branch(c, v, 1);
  }
  mark_known(outer);
}

// ---- shadow memory: two-level on 4 KiB pages
struct Page { u64 tag; u32 id[4096]; uint8_t ix[4096]; u32 live; Page *next; };
static uint8_t filter[1 << 20];
static const u32 PH = 1 << 16;
static Page *ptab[PH];
static Page *freelist;
static Page *plist[1 << 16];
static u32 nplist;
static inline u32 fidx(u64 pg) { return (u32)(pg ^ (pg >> 20)) & ((1 << 20) - 1); }
static inline u32 phash(u64 pg) { return (u32)((pg * 0x9E3779B97F4A7C15ull) >> 48); }
static inline Page *findp(u64 pg) {
  if (likely(!filter[fidx(pg)])) return nullptr;
  for (Page *p = ptab[phash(pg)]; p; p = p->next)
    if (p->tag == pg) return p;
  return nullptr;
}
static Page *getp(u64 pg) {
  Page *p = findp(pg);
  if (p) return p;
  if (freelist) { p = freelist; freelist = p->next; }
  else p = (Page *)bigmap(sizeof(Page));
  p->tag = pg;
  p->live = 0;
  u32 h = phash(pg);
  p->next = ptab[h];
  ptab[h] = p;
  filter[fidx(pg)] = 1;
  if (nplist < (1 << 16)) plist[nplist++] = p;
  else { fprintf(stderr, "k2sym: too many shadow pages\n"); abort(); }
  return p;
}
static void reset_pages() {
  for (u32 i = 0; i < nplist; ++i) {
    Page *p = plist[i];
    ptab[phash(p->tag)] = nullptr;
    filter[fidx(p->tag)] = 0;
    memset(p->id, 0, sizeof(p->id));
    p->next = freelist;
    freelist = p;
  }
  nplist = 0;
}
static void clear_range(u64 a, u64 n) {
  while (n) {
    u64 pg = a >> 12, off = a & 4095;
    u64 m = 4096 - off < n ? 4096 - off : n;
    Page *p = findp(pg);
    if (p) memset(p->id + off, 0, m * 4);
    a += m;
    n -= m;
  }
}
static inline void set_byte(u64 a, u32 id, unsigned ix) {
  Page *p = getp(a >> 12);
  p->id[a & 4095] = id;
  p->ix[a & 4095] = (uint8_t)ix;
}
static inline bool get_byte(u64 a, u32 &id, unsigned &ix) {
  Page *p = findp(a >> 12);
  if (!p) { id = 0; return false; }
  id = p->id[a & 4095];
  ix = p->ix[a & 4095];
  return id != 0;
}
static inline bool range_maybe(u64 a, u32 n) {
  return filter[fidx(a >> 12)] || ((a & 4095) + n > 4096 && filter[fidx((a >> 12) + 1)]);
}
static void stale(u64 a, u32 n, u32 id) {  // drop all bytes of id around
  for (u64 x = a > 8 ? a - 8 : 0; x < a + n + 8; ++x) {
    Page *p = findp(x >> 12);
    if (p && p->id[x & 4095] == id) p->id[x & 4095] = 0;
  }
  ++n_stale;
}

// kind: width, +0x1000 floating point
static u32 load(u64 a, u32 n, u32 kind) {
  u32 ids[8];
  unsigned ix[8];
  bool any = false;
  for (u32 i = 0; i < n; ++i) {
    if (get_byte(a + i, ids[i], ix[i])) any = true;
    else ids[i] = 0;
  }
  if (!any) return 0;
  // value check
  for (u32 i = 0; i < n; ++i) {
    if (!ids[i]) continue;
    if (norm(ids[i]) == 0) { ids[i] = 0; continue; }
    uint8_t want = (uint8_t)(vals[ids[i]] >> (8 * ix[i]));
    if (want != *(uint8_t *)(a + i)) {
      u32 bad = ids[i];
      stale(a, n, bad);
      for (u32 j = 0; j < n; ++j) if (ids[j] == bad) ids[j] = 0;
    }
  }
  bool whole = ids[0] != 0;
  any = false;
  for (u32 i = 0; i < n; ++i) {
    if (ids[i]) any = true;
    if (ids[i] != ids[0] || ix[i] != i) whole = false;
  }
  if (!any) return 0;
  u32 w = kind & 0xfff;
  bool fp = kind & 0x1000;
  u32 e;
  if (whole && ((nodes[ids[0]].w + 7) / 8 == n || (n < 8 && nodes[ids[0]].w > n * 8))) {
    e = ids[0];
    if (nodes[e].w != n * 8) {
      if (nodes[e].w > n * 8) e = mk_extract(e, 0, n * 8);
      else e = mk_cast(OP_ZEXT, nodes[e].w, n * 8, e, vals[e]);
    }
  } else {
    e = 0;
    u64 v = 0;
    u32 wd = 0;
    for (u32 i = 0; i < n; ++i) {
      u64 bv = *(uint8_t *)(a + i);
      u32 be = 0;
      if (ids[i]) {
        Node nn = nodes[ids[i]];
        if (nn.w >= 8 * ix[i] + 8) be = mk_extract(ids[i], 8 * ix[i], 8);
        else if (nn.w > 8 * ix[i]) { be = mk_extract(ids[i], 8 * ix[i], nn.w - 8 * ix[i]); be = mk_cast(OP_ZEXT, nodes[be].w, 8, be, vals[be]); }
        if (be && isK(be)) be = 0;
      }
      if (i == 0) { e = be; v = bv; wd = 8; }
      else { e = mk_concat(8, be, wd, e, bv, v); v |= bv << wd; wd += 8; }
    }
  }
  if (!e) return 0;
  if (fp) { if (!isFP(e)) e = mk_cast(OP_BITSF, w, w, e, vals[e]); }
  else {
    if (isFP(e)) e = mk_cast(OP_FBITS, n * 8, n * 8, e, vals[e]);
    if (w < n * 8) e = mk_extract(e, 0, w);
  }
  return isK(e) ? 0 : e;
}

API u32 __sym_load(void *p, u32 n, u32 kind) {
  u64 a = (u64)p;
  if (likely(!range_maybe(a, n))) return 0;
  return load(a, n, kind);
}
API void __sym_store(void *p, u32 n, u32 kind, u32 id) {
  u64 a = (u64)p;
  if (likely(!id)) {
    if (likely(!range_maybe(a, n))) return;
    clear_range(a, n);
    return;
  }
  if (!g_on) return;
  id = norm(id);
  if (!id || isK(id)) { clear_range(a, n); return; }
  for (u32 i = 0; i < n; ++i) set_byte(a + i, id, i);
}
API u32 __sym_bin(u32 op, u32 w, u32 ea, u32 eb, u64 va, u64 vb) {
  if (likely(!(ea | eb))) return 0;
  u32 r = mk_bin(op, w, ea, eb, va, vb);
  return r && isK(r) ? 0 : r;
}
API u32 __sym_un(u32 op, u32 w, u32 ea, u64 va) { return likely(!ea) ? 0 : mk_un(op, w, ea, va); }
API u32 __sym_cmp(u32 p, u32 w, u32 ea, u32 eb, u64 va, u64 vb) {
  if (likely(!(ea | eb))) return 0;
  return mk_cmp(p, w, ea, eb, va, vb);
}
API u32 __sym_cast(u32 op, u32 ws, u32 wd, u32 ea, u64 va) {
  if (likely(!ea)) return 0;
  u32 r = mk_cast(op, ws, wd, ea, va);
  return r && isK(r) ? 0 : r;
}
API u32 __sym_ite(u32 wf, u32 c, u32 cv, u32 et, u32 ef, u64 vt, u64 vf) {
  if (likely(!(c | et | ef))) return 0;
  u32 r = mk_ite(wf, c, cv, et, ef, vt, vf);
  return r && (isK(r) || nodes[r].op == OP_FCONST) ? 0 : r;
}
API void __sym_branch(u32 id, u32 taken) { if (unlikely(id)) record_branch(norm(id), taken & 1); }
API void __sym_switch(u32 w, u32 id, u64 v, u64 *cases, u32 n) {
  id = norm(id);
  if (likely(!id)) return;
  v &= mask(w);
  for (u32 i = 0; i < n; ++i) {
    u64 k = cases[i] & mask(w);
    u32 c = mk_cmp(ICMP_EQ, w, id, 0, v, k);
    if (c) record_branch(c, k == v);
    if (k == v) return;
  }
}
API void __sym_pin(u32 id, u64 v) { if (unlikely(id)) pin(id, v); }

// ---- calls
struct Tls {
  u32 active;
  u32 n;
  u32 id[64];
  u64 val[64];
  u32 ret[16];
};
static __thread Tls tls __attribute__((tls_model("initial-exec")));
API void __sym_arg(u32 i, u32 id, u64 v) {
  if (likely(!id)) return;
  id = norm(id);
  if (!id) return;
  if (!tls.active) { tls.active = 1; tls.n = 0; memset(tls.id, 0, sizeof tls.id); }
  if (i < 64) { tls.id[i] = id; tls.val[i] = v; if (i >= tls.n) tls.n = i + 1; }
  else pin(id, v);
}
API u32 __sym_param(u32 i, u64 v) {
  if (likely(!tls.active)) return 0;
  if (i >= tls.n || !tls.id[i]) return 0;
  if (tls.val[i] != v) return 0;
  return tls.id[i];
}
API void __sym_params_done() { tls.active = 0; }
API void __sym_call_end() {
  if (likely(!tls.active)) return;
  tls.active = 0;
  for (u32 i = 0; i < tls.n; ++i)
    if (tls.id[i]) pin(tls.id[i], tls.val[i]);
}
API void __sym_call_abort() { tls.active = 0; }
API void __sym_ret_clear() { memset(tls.ret, 0, sizeof tls.ret); }
API u32 __sym_ret_get(u32 i, u64 v) {
  if (i >= 16) return 0;
  u32 e = tls.ret[i];
  if (likely(!e)) return 0;
  tls.ret[i] = 0;
  e = norm(e);
  if (!e || (vals[e] & mask(nodes[e].w)) != (v & mask(nodes[e].w))) return 0;
  return e;
}
API void __sym_ret_set(u32 i, u32 id) { if (i < 16) tls.ret[i] = id; else if (id) pin(id, vals[id]); }

API void __sym_memcpy(void *d, void *s, u64 n) {
  u64 a = (u64)d, b = (u64)s;
  if (!n) return;
  // quick test
  bool any = false;
  for (u64 pg = a >> 12; pg <= (a + n - 1) >> 12 && !any; ++pg) any = filter[fidx(pg)];
  for (u64 pg = b >> 12; pg <= (b + n - 1) >> 12 && !any; ++pg) any = filter[fidx(pg)];
  if (likely(!any)) return;
  if (a == b) return;
  auto one = [&](u64 i) {
    u32 id;
    unsigned ix;
    if (get_byte(b + i, id, ix)) {
      id = norm(id);
      if (id && (uint8_t)(vals[id] >> (8 * ix)) != *(uint8_t *)(b + i)) id = 0;
      if (id) { set_byte(a + i, id, ix); return; }
    }
    Page *p = findp((a + i) >> 12);
    if (p) p->id[(a + i) & 4095] = 0;
  };
  if (a < b) for (u64 i = 0; i < n; ++i) one(i);
  else for (u64 i = n; i-- > 0;) one(i);
}
API void __sym_memset(void *d, u32 id, u64 n) {
  if (!n) return;
  id = norm(id);
  if (!id) { clear_range((u64)d, n); return; }
  for (u64 i = 0; i < n; ++i) set_byte((u64)d + i, id, 0);
}
API void __sym_clear(void *p, u64 n) {
  u64 a = (u64)p;
  if (likely(n <= 4096 && !range_maybe(a, (u32)n))) return;
  clear_range(a, n);
}
API void __sym_touch(void *p, u64 n) {  // memory is read by something that is not modelled
  u64 a = (u64)p;
  if (!n || !g_on) return;
  if (n <= 4096 && !range_maybe(a, (u32)n)) return;
  for (u64 i = 0; i < n; ++i) {
    u32 id;
    unsigned ix;
    if (get_byte(a + i, id, ix)) {
      u32 e = norm(id);
      if (e && (uint8_t)(vals[e] >> (8 * ix)) == *(uint8_t *)(a + i)) pin(e, vals[e]);
    }
  }
}
API u32 __sym_libm(u32 op, u32 w, u32 ea, u64 va, u64 vr) {
  ea = norm(ea);
  if (!ea) return 0;
  (void)va;
  return raw(op, w, ea, 0, 0, 0, vr & mask(w));
}
API u32 __sym_concat(u32 wh, u32 hi, u32 wl, u32 lo, u64 vh, u64 vl) { return mk_concat(wh, norm(hi), wl, norm(lo), vh, vl); }
API u32 __sym_extract(u32 tot, u32 lo, u32 w, u32 e) {
  (void)tot;
  e = norm(e);
  if (!e) return 0;
  u32 r = mk_extract(e, lo, w);
  return r && isK(r) ? 0 : r;
}
API u32 __sym_ovf(u32 op, u32 w, u32 ea, u32 eb, u64 va, u64 vb) {
  ea = norm(ea);
  eb = norm(eb);
  if (!(ea | eb)) return 0;
  bool sgn = op & 0x100;
  __int128 x = sgn ? (__int128)sx(va, w) : (__int128)(va & mask(w)), y = sgn ? (__int128)sx(vb, w) : (__int128)(vb & mask(w)), r = 0;
  switch (op & 0xff) {
    case OP_ADD: r = x + y; break;
    case OP_SUB: r = x - y; break;
    case OP_MUL: r = x * y; break;
  }
  int o = sgn ? r != (__int128)sx((u64)r & mask(w), w) : (r < 0 || r > (__int128)mask(w));
  if (!ea) ea = konst(va, w);
  if (!eb) eb = konst(vb, w);
  return raw(OP_OVF, 1, ea, eb, 0, op, o);
}

// ---- interface for the Python driver
static void coop_init();
API void ksym_excl(u32 pos, u64 v) { if (n_excl < 4096) excl[n_excl++] = Excl{pos, v}; }
API void ksym_excl_clear() { n_excl = i_excl = 0; }
API void ksym_begin() {
  init();
  coop_init();
  ++epoch;
  ntrace = 0;
  i_excl = 0;
  n_inexact = n_pins = n_branches = n_stale = n_overflow = 0;
  reset_pages();
  memset(&tls, 0, sizeof tls);
  g_on = 1;
}
API void ksym_end() {
  g_on = 0;
  memset(&tls, 0, sizeof tls);
  reset_pages();
}
API void ksym_fix(int on) { g_fix = on; }
API void ksym_pause(int on) { g_on = on; }
API u32 ksym_var(u32 idx, u32 w, int fp, u64 v) { init(); return raw(fp ? OP_FVAR : OP_VAR, w, 0, 0, 0, idx, v & mask(w)); }
API u32 ksym_const(u32 w, int fp, u64 v) { return fp ? fkonst(v, w) : konst(v, w); }
API void ksym_set(u64 addr, u32 esize, u32 id) {
  if (!id || isK(id) || nodes[id].op == OP_FCONST || norm(id) == 0) { clear_range(addr, esize); return; }
  for (u32 i = 0; i < esize; ++i) set_byte(addr + i, id, i);
}
API u32 ksym_get(u64 addr, u32 esize, u32 kind) {
  if (!range_maybe(addr, esize)) return 0;
  return load(addr, esize, kind);
}
// strided access: n elements at base + off[i]
API void ksym_getn(u64 base, i64 *off, u32 n, u32 esize, u32 kind, u32 *out) {
  for (u32 i = 0; i < n; ++i) out[i] = ksym_get(base + off[i], esize, kind);
}
API void ksym_setn(u64 base, i64 *off, u32 n, u32 esize, u32 *in) {
  for (u32 i = 0; i < n; ++i) ksym_set(base + off[i], esize, in[i]);
}
API int ksym_any(u64 base, u64 n) {
  for (u64 pg = base >> 12; pg <= (base + (n ? n - 1 : 0)) >> 12; ++pg) {
    Page *p = findp(pg);
    if (!p) continue;
    u64 lo = pg == base >> 12 ? base & 4095 : 0;
    u64 hi = pg == (base + n - 1) >> 12 ? (base + n - 1) & 4095 : 4095;
    for (u64 i = lo; i <= hi; ++i) if (p->id[i]) return 1;
  }
  return 0;
}
API void ksym_clear(u64 a, u64 n) { clear_range(a, n); }
API u32 ksym_bin(u32 op, u32 w, u32 a, u32 b, u64 va, u64 vb) { return __sym_bin(op, w, a, b, va, vb); }
API u32 ksym_un(u32 op, u32 w, u32 a, u64 va) { return mk_un(op, w, a, va); }
API u32 ksym_cmp(u32 p, u32 w, u32 a, u32 b, u64 va, u64 vb) { return __sym_cmp(p, w, a, b, va, vb); }
API u32 ksym_cast(u32 op, u32 ws, u32 wd, u32 a, u64 va) { return __sym_cast(op, ws, wd, a, va); }
API u32 ksym_ite(u32 wf, u32 c, u32 cv, u32 t, u32 f, u64 vt, u64 vf) { return __sym_ite(wf, c, cv, t, f, vt, vf); }
API u32 ksym_retag(u32 w, u32 a, u64 v) {
  a = norm(a);
  return a ? raw(OP_FID, w, a, 0, 0, v & mask(w), v & mask(w)) : 0;
}
API u32 ksym_libm(u32 op, u32 w, u32 a, u64 va, u64 vr) { return __sym_libm(op, w, a, va, vr); }
API void ksym_pin(u32 id, u64 v) { if (id) pin(id, v); }
API void ksym_branch(u32 id, u32 t) { if (id) record_branch(norm(id), t & 1); }
API u32 ksym_ntrace() { return ntrace; }
API Ev *ksym_trace() { init(); return trace; }
API Node *ksym_nodes() { init(); return nodes; }
API u64 *ksym_vals() { init(); return vals; }
API u32 ksym_nnodes() { return nnodes; }
API u64 ksym_stat(int i) {
  switch (i) {
    case 0: return n_inexact;
    case 1: return n_pins;
    case 2: return n_branches;
    case 3: return n_stale;
    case 4: return n_overflow;
    case 5: return nplist;
  }
  return 0;
}

// ---- cooperative threads
// Threads that the code under test creates take turns: a switch happens only
// where a thread blocks (condition variable, contended mutex, join), so a run is a
// function of its input.  The order in which runnable threads are resumed is
// ksym_sched's bit string: one bit per choice.
#include <semaphore.h>
#include <errno.h>
#include <unistd.h>
struct Th { sem_t sem; void *wait; int runnable, live; pthread_t tid; void *(*fn)(void *); void *arg; };
static Th ths[32];
static int nth = 1;
static int coop;
static u64 sched_bits;
static u32 sched_n;
static __thread int me __attribute__((tls_model("initial-exec"))) = -1;
static int (*r_lock)(pthread_mutex_t *);
static int (*r_try)(pthread_mutex_t *);
static int (*r_unlock)(pthread_mutex_t *);
static int (*r_wait)(pthread_cond_t *, pthread_mutex_t *);
static int (*r_sig)(pthread_cond_t *);
static int (*r_bc)(pthread_cond_t *);
static int (*r_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static int (*r_join)(pthread_t, void **);
static void reals() {
  if (r_bc) return;
  r_lock = (decltype(r_lock))dlsym(RTLD_NEXT, "pthread_mutex_lock");
  r_try = (decltype(r_try))dlsym(RTLD_NEXT, "pthread_mutex_trylock");
  r_unlock = (decltype(r_unlock))dlsym(RTLD_NEXT, "pthread_mutex_unlock");
  r_wait = (decltype(r_wait))dlvsym(RTLD_NEXT, "pthread_cond_wait", "GLIBC_2.3.2");
  r_sig = (decltype(r_sig))dlvsym(RTLD_NEXT, "pthread_cond_signal", "GLIBC_2.3.2");
  r_create = (decltype(r_create))dlsym(RTLD_NEXT, "pthread_create");
  r_join = (decltype(r_join))dlsym(RTLD_NEXT, "pthread_join");
  r_bc = (decltype(r_bc))dlvsym(RTLD_NEXT, "pthread_cond_broadcast", "GLIBC_2.3.2");
}
static bool others() {
  for (int i = 0; i < nth; ++i) if (i != me && ths[i].live && ths[i].runnable) return true;
  return false;
}
static void hand_over(bool come_back) {
  int cand[32], n = 0;
  for (int d = 1; d <= nth; ++d) {
    int j = (me + d) % nth;
    if (j != me && ths[j].live && ths[j].runnable) cand[n++] = j;
  }
  if (!n) {
    if (ths[me].runnable && ths[me].live) return;
    fprintf(stderr, "k2sym: deadlock\n");
    _exit(77);
  }
  int pick = 0;
  if (n > 1) { pick = (sched_bits >> (sched_n & 63)) & 1; ++sched_n; }
  int mine = me;
  sem_post(&ths[cand[pick]].sem);
  if (come_back) while (sem_wait(&ths[mine].sem) == -1 && errno == EINTR) {}
}
static void *th_main(void *p) {
  Th *t = (Th *)p;
  me = (int)(t - ths);
  while (sem_wait(&t->sem) == -1 && errno == EINTR) {}
  void *r = t->fn(t->arg);
  t->live = 0;
  for (int i = 0; i < nth; ++i) if (ths[i].wait == t) { ths[i].wait = nullptr; ths[i].runnable = 1; }
  hand_over(false);
  return r;
}
API int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *arg) {
  reals();
  if (me < 0 || !coop || !g_on || nth >= 32) return r_create(t, a, f, arg);
  Th *h = &ths[nth++];
  sem_init(&h->sem, 0, 0);
  h->runnable = h->live = 1;
  h->fn = f;
  h->arg = arg;
  int rc = r_create(t, a, th_main, h);
  h->tid = *t;
  return rc;
}
API int pthread_mutex_lock(pthread_mutex_t *m) {
  if (unlikely(!r_bc)) reals();
  if (likely(me < 0 || nth == 1 || !g_on)) return r_lock(m);
  int rc;
  while ((rc = r_try(m)) == EBUSY) {
    if (!others()) return r_lock(m);
    hand_over(true);
  }
  return rc;
}
API int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
  reals();
  if (me < 0 || nth == 1 || !g_on) return r_wait(c, m);
  ths[me].wait = c;
  ths[me].runnable = 0;
  r_unlock(m);
  hand_over(true);
  return pthread_mutex_lock(m);
}
static void wake(void *c, bool all) {
  for (int d = 1; d <= nth; ++d) {
    int j = (me + d) % nth;
    if (ths[j].wait == c) { ths[j].wait = nullptr; ths[j].runnable = 1; if (!all) break; }
  }
}
API int pthread_cond_signal(pthread_cond_t *c) {
  reals();
  if (me >= 0 && nth > 1 && g_on) wake(c, false);
  return r_sig(c);
}
API int pthread_cond_broadcast(pthread_cond_t *c) {
  reals();
  if (me >= 0 && nth > 1 && g_on) wake(c, true);
  return r_bc(c);
}
API int pthread_join(pthread_t t, void **r) {
  reals();
  if (me >= 0 && g_on)
    for (int i = 1; i < nth; ++i)
      if (pthread_equal(ths[i].tid, t)) {
        while (ths[i].live) { ths[me].wait = &ths[i]; ths[me].runnable = 0; hand_over(true); }
      }
  return r_join(t, r);
}
API void ksym_sched(u64 bits) { sched_bits = bits; sched_n = 0; }
API u32 ksym_sched_n() { return sched_n; }
static void coop_init() {
  if (coop) return;
  reals();
  coop = 1;
  me = 0;
  sem_init(&ths[0].sem, 0, 0);
  ths[0].runnable = ths[0].live = 1;
}

// ---- coverage of instrumented functions
struct Mod { const char *names; uint8_t *flags; u32 n; };
static Mod mods[512];
static u32 nmods;
API void __sym_register(const char *names, uint8_t *flags, u32 n) {
  if (nmods < 512) mods[nmods++] = Mod{names, flags, n};
}
// writes the names of the functions entered so far, one per line, and forgets them
API u32 ksym_coverage(char *out, u32 cap) {
  u32 len = 0;
  for (u32 m = 0; m < nmods; ++m) {
    const char *p = mods[m].names;
    for (u32 i = 0; i < mods[m].n; ++i) {
      u32 l = (u32)strlen(p);
      if (mods[m].flags[i] && len + l + 1 < cap) {
        memcpy(out + len, p, l);
        out[len + l] = '\n';
        len += l + 1;
      }
      mods[m].flags[i] = 0;
      p += l + 1;
    }
  }
  return len;
}

// ---- free() clears the shadow
extern "C" void __libc_free(void *);
extern "C" void *__libc_realloc(void *, size_t);
API void free(void *p) {
  if (unlikely(nplist != 0) && p) {
    size_t n = malloc_usable_size(p);
    if (n <= 4096 ? range_maybe((u64)p, (u32)n) : true) clear_range((u64)p, n);
  }
  __libc_free(p);
}
API void *realloc(void *p, size_t n) {
  if (unlikely(nplist != 0) && p) {
    size_t m = malloc_usable_size(p);
    if (m <= 4096 ? range_maybe((u64)p, (u32)m) : true) {
      void *q = malloc(n);
      if (!q) return q;
      memcpy(q, p, m < n ? m : n);
      __sym_memcpy(q, p, m < n ? m : n);
      free(p);
      return q;
    }
  }
  return __libc_realloc(p, n);
}
