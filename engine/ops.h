#ifndef K2SYM_OPS_H
#define K2SYM_OPS_H
// Operation codes of the expression DAG; sym.py reads this file.
enum {
  OP_NONE = 0,
  OP_VAR = 1,    // k: variable index; bit vector variable
  OP_FVAR = 2,   // floating point variable
  OP_CONST = 3,  // k: value (bit vector)
  OP_FCONST = 4, // k: raw bits (floating point)
  OP_ADD = 10, OP_SUB = 11, OP_MUL = 12, OP_UDIV = 13, OP_SDIV = 14, OP_UREM = 15, OP_SREM = 16,
  OP_SHL = 17, OP_LSHR = 18, OP_ASHR = 19, OP_AND = 20, OP_OR = 21, OP_XOR = 22,
  OP_SMAX = 23, OP_SMIN = 24, OP_UMAX = 25, OP_UMIN = 26, OP_ABS = 27,
  OP_CTPOP = 28, OP_CTLZ = 29, OP_CTTZ = 30, OP_BSWAP = 31,
  OP_FADD = 40, OP_FSUB = 41, OP_FMUL = 42, OP_FDIV = 43, OP_FREM = 44,
  OP_FMAX = 45, OP_FMIN = 46, OP_FNEG = 47, OP_FABS = 48,
  OP_FEXP = 50, OP_FLOG = 51, OP_FLOG1P = 52, OP_FEXPM1 = 53, OP_FSQRT = 54, OP_FFLOOR = 55,
  OP_FID = 56,     // the operand, with a value that differs by rounding
  OP_ZEXT = 60, OP_SEXT = 61, OP_TRUNC = 62, OP_FPTRUNC = 63, OP_FPEXT = 64, OP_FPTOSI = 65,
  OP_FPTOUI = 66, OP_SITOFP = 67, OP_UITOFP = 68, OP_FBITS = 69, OP_BITSF = 70,
  OP_ITE = 80,
  OP_CONCAT = 81,   // a: high, b: low
  OP_EXTRACT = 82,  // k: low bit
  OP_ICMP = 83,     // k: LLVM predicate
  OP_FCMP = 84,     // k: LLVM predicate
  OP_OVF = 85,      // k: operation, +0x100 when signed
  OP_NOT1 = 86,     // boolean negation
};
#endif
