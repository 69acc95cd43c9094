// Symbolic expressions: hash-consed bit-vector DAG (width 1..64), each node
// carries its concrete value under the current input assignment.
#pragma once
#include <cstdint>
#include <cstring>
#include <cmath>
#include <unordered_set>
#include <unordered_map>
#include <vector>
#include <z3.h>

enum Op : uint8_t { OP_CONST, OP_VAR, OP_ADD, OP_SUB, OP_MUL, OP_UDIV, OP_SDIV, OP_UREM, OP_SREM, OP_SHL, OP_LSHR, OP_ASHR,
  OP_AND, OP_OR, OP_XOR, OP_EQ, OP_ULT, OP_ULE, OP_SLT, OP_SLE, OP_ZEXT, OP_SEXT, OP_EXTRACT, OP_CONCAT, OP_ITE,
  OP_FADD, OP_FSUB, OP_FMUL, OP_FDIV, OP_FEQ, OP_FLT, OP_FLE, OP_FUNO, OP_FNEG, OP_FABS, OP_SITOFP, OP_UITOFP,
  OP_FPTOSI, OP_FPTOUI, OP_FLOOR, OP_FCEIL, OP_FTRUNC, OP_NE, OP_TAB };

struct Expr {
  Op op; uint8_t w; uint8_t tz; bool known; // tz: known trailing zero bits
  uint16_t leaves;                          // >0: ITE tree with that many constant leaves
  uint32_t id;
  Expr *a, *b, *c;
  uint64_t imm;   // const value / var index / extract low bit
  uint64_t val;   // concrete value
  uint64_t kval;  // value implied by the path condition (if known)
  uint64_t lo, hi; // unsigned range that holds for every value (of the masked bits)
  Z3_ast ast;
  // finite-domain table over at most two small variables (null if none)
  Expr *v1, *v2; const std::vector<uint64_t> *tab; uint32_t dom; uint64_t allowed; // dom/allowed: small variables only
};
#include <functional>
// f applied to every combination of values of a (and b); null when they are not small-domain
Expr *mapTab(Expr *a, Expr *b, const std::function<uint64_t(uint64_t, uint64_t)> &f, unsigned w);
void setDomain(Expr *var, unsigned k);
static inline uint64_t mask(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline int64_t sx(uint64_t v, unsigned w) { return w >= 64 ? (int64_t)v : ((int64_t)(v << (64 - w))) >> (64 - w); }
static inline double asd(uint64_t v) { double d; memcpy(&d, &v, 8); return d; }
static inline uint64_t asu(double d) { uint64_t v; memcpy(&v, &d, 8); return v; }

Expr *mkConst(uint64_t v, unsigned w);
Expr *mkVar(unsigned idx, unsigned w, uint64_t val);
Expr *mk(Op op, unsigned w, Expr *a, Expr *b = nullptr, Expr *c = nullptr, uint64_t imm = 0);
Expr *mkNot(Expr *a);            // width 1
Expr *mkIte(Expr *c, Expr *a, Expr *b);
Expr *mkExtract(Expr *a, unsigned lo, unsigned w);
Expr *mkZext(Expr *a, unsigned w);
Expr *mkSext(Expr *a, unsigned w);
Expr *resolve(Expr *e);
void exprReset();
void learn(Expr *cond, bool taken);
Z3_ast toZ3(Expr *e);
extern Z3_context zc;
extern bool usesFP;
extern uint32_t g_nexpr;
const char *opname(int op);
uint64_t evalOp(Op op, unsigned w, unsigned wa, uint64_t a, uint64_t b, uint64_t c, uint64_t imm);
