#include "expr.h"
#include <cstdio>
#include <cstdlib>
#include <deque>
#include <map>
Z3_context zc;
bool usesFP;
uint32_t g_nexpr;

static const char *names[] = {"const","var","add","sub","mul","udiv","sdiv","urem","srem","shl","lshr","ashr","and","or","xor","eq","ult","ule","slt","sle",
  "zext","sext","extract","concat","ite","fadd","fsub","fmul","fdiv","feq","flt","fle","funo","fneg","fabs","sitofp","uitofp","fptosi","fptoui","floor","fceil","ftrunc","ne","tab"};
const char *opname(int op) { return names[op]; }

static uint64_t fptosi(uint64_t x, unsigned w) {
  double d = asd(x);
  if (w <= 32) { // cvttsd2si r32
    if (!(d > -2147483649.0 && d < 2147483648.0)) return 0x80000000ull & mask(w);
    return (uint64_t)(int64_t)(int32_t)d & mask(w);
  }
  if (!(d >= -9223372036854775808.0 && d < 9223372036854775808.0)) return 0x8000000000000000ull;
  return (uint64_t)(int64_t)d & mask(w);
}
uint64_t evalOp(Op op, unsigned w, unsigned wa, uint64_t a, uint64_t b, uint64_t c, uint64_t imm) {
  uint64_t r = 0;
  switch (op) {
  case OP_ADD: r = a + b; break; case OP_SUB: r = a - b; break; case OP_MUL: r = a * b; break;
  case OP_UDIV: r = b ? a / b : mask(w); break; case OP_UREM: r = b ? a % b : a; break;
  case OP_SDIV: { int64_t x = sx(a, w), y = sx(b, w); r = y == 0 ? (x < 0 ? 1 : ~0ull) : (y == -1 ? (uint64_t)0 - (uint64_t)x : (uint64_t)(x / y)); break; }
  case OP_SREM: { int64_t x = sx(a, w), y = sx(b, w); r = y == 0 ? (uint64_t)x : (y == -1 ? 0 : (uint64_t)(x % y)); break; }
  case OP_SHL: r = b >= w ? 0 : a << b; break; case OP_LSHR: r = b >= w ? 0 : a >> b; break;
  case OP_ASHR: r = (uint64_t)(sx(a, w) >> (b >= w ? w - 1 : b)); break;
  case OP_AND: r = a & b; break; case OP_OR: r = a | b; break; case OP_XOR: r = a ^ b; break;
  case OP_EQ: return a == b; case OP_ULT: return a < b; case OP_ULE: return a <= b;
  case OP_SLT: return sx(a, wa) < sx(b, wa); case OP_SLE: return sx(a, wa) <= sx(b, wa);
  case OP_ZEXT: r = a; break; case OP_SEXT: r = (uint64_t)sx(a, wa); break; case OP_EXTRACT: r = a >> imm; break;
  case OP_CONCAT: r = b; break; // handled by caller (needs width of b)
  case OP_ITE: r = a ? b : c; break;
  case OP_FADD: r = asu(asd(a) + asd(b)); break; case OP_FSUB: r = asu(asd(a) - asd(b)); break;
  case OP_FMUL: r = asu(asd(a) * asd(b)); break; case OP_FDIV: r = asu(asd(a) / asd(b)); break;
  case OP_FEQ: return asd(a) == asd(b); case OP_FLT: return asd(a) < asd(b); case OP_FLE: return asd(a) <= asd(b);
  case OP_FUNO: return std::isnan(asd(a)); case OP_FNEG: return a ^ (1ull << 63); case OP_FABS: return a & ~(1ull << 63);
  case OP_SITOFP: return asu((double)sx(a, wa)); case OP_UITOFP: return asu((double)a);
  case OP_FPTOSI: r = fptosi(a, w); break;
  case OP_FPTOUI: r = fptosi(a, 64); break;
  case OP_FLOOR: return asu(std::floor(asd(a))); case OP_FCEIL: return asu(std::ceil(asd(a))); case OP_FTRUNC: return asu(std::trunc(asd(a)));
  default: fprintf(stderr, "evalOp %d\n", op); abort();
  }
  return r & mask(w);
}

struct H { size_t operator()(const Expr *e) const {
  uint64_t h = e->op * 0x9e3779b97f4a7c15ull ^ e->w;
  auto mix = [&](uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; };
  mix((uint64_t)e->a); mix((uint64_t)e->b); mix((uint64_t)e->c); mix(e->imm);
  if (e->op == OP_TAB) for (uint64_t v : *e->tab) mix(v);
  return h; } };
struct EQ { bool operator()(const Expr *x, const Expr *y) const {
  return x->op == y->op && x->w == y->w && x->a == y->a && x->b == y->b && x->c == y->c && x->imm == y->imm && (x->op != OP_TAB || *x->tab == *y->tab); } };
static std::unordered_set<Expr *, H, EQ> &tab() { static auto *t = new std::unordered_set<Expr *, H, EQ>(); return *t; }

static Expr *intern(const Expr &t) {
  auto it = tab().find(const_cast<Expr *>(&t));
  if (it != tab().end()) return *it;
  Expr *e = new Expr(t);
  e->id = g_nexpr++; e->known = false; e->ast = nullptr; e->kval = 0; e->tz = 0; e->leaves = 0;
  unsigned w = e->w;
  e->lo = 0; e->hi = mask(w);
  auto A = e->a, B = e->b, C = e->c;
  switch (e->op) {
  case OP_CONST: e->val = e->lo = e->hi = e->imm; e->leaves = 1; e->tz = e->imm ? __builtin_ctzll(e->imm) : w; break;
  case OP_VAR: break;
  case OP_TAB: e->val = (*e->tab)[A->val * (B ? B->dom : 1) + (B ? B->val : 0)]; e->v1 = A; e->v2 = B; break;
  case OP_CONCAT: e->val = (A->val << B->w) | B->val; break;
  default: e->val = evalOp(e->op, w, A->w, A->val, B ? B->val : 0, C ? C->val : 0, e->imm);
  }
  // known trailing zeros
  switch (e->op) {
  case OP_ADD: case OP_SUB: e->tz = std::min(A->tz, B->tz); break;
  case OP_MUL: e->tz = std::min<unsigned>(w, A->tz + B->tz); break;
  case OP_SHL: if (B->op == OP_CONST) e->tz = std::min<uint64_t>(w, A->tz + B->imm); break;
  case OP_AND: e->tz = std::max(A->tz, B->tz); break;
  case OP_OR: case OP_XOR: e->tz = std::min(A->tz, B->tz); break;
  case OP_ZEXT: case OP_SEXT: e->tz = A->tz >= A->w ? w : A->tz; break;
  case OP_ITE: e->tz = std::min(B->tz, C->tz); break;
  default: break;
  }
  if (e->op == OP_TAB) {
    e->lo = ~0ull; e->hi = 0; e->tz = w;
    for (uint64_t v : *e->tab) { e->lo = std::min(e->lo, v); e->hi = std::max(e->hi, v); if (v) e->tz = std::min<unsigned>(e->tz, __builtin_ctzll(v)); }
  }
  // unsigned ranges (cheap interval analysis)
  switch (e->op) {
  case OP_ZEXT: e->lo = A->lo; e->hi = A->hi; break;
  case OP_SEXT: if (A->hi <= mask(A->w - 1)) { e->lo = A->lo; e->hi = A->hi; } break;
  case OP_ITE: e->lo = std::min(B->lo, C->lo); e->hi = std::max(B->hi, C->hi); break;
  case OP_AND: e->hi = std::min(A->hi, B->hi); break;
  case OP_LSHR: if (B->op == OP_CONST && B->imm < w) { e->lo = A->lo >> B->imm; e->hi = A->hi >> B->imm; } break;
  case OP_ADD: { uint64_t h; if (!__builtin_add_overflow(A->hi, B->hi, &h) && h <= mask(w)) { e->lo = A->lo + B->lo; e->hi = h; } break; }
  case OP_MUL: { uint64_t h; if (!__builtin_mul_overflow(A->hi, B->hi, &h) && h <= mask(w)) { e->lo = A->lo * B->lo; e->hi = h; } break; }
  case OP_SHL: if (B->op == OP_CONST && B->imm < w && (A->hi << B->imm) >> B->imm == A->hi && (A->hi << B->imm) <= mask(w)) { e->lo = A->lo << B->imm; e->hi = A->hi << B->imm; } break;
  case OP_EXTRACT: if (e->imm == 0 && A->hi <= mask(w)) { e->lo = A->lo; e->hi = A->hi; } break;
  default: break;
  }
  if (e->op == OP_ITE && B->leaves && C->leaves && B->leaves + C->leaves <= 64) e->leaves = B->leaves + C->leaves;
  tab().insert(e);
  return e;
}
void exprReset() {
  for (Expr *e : tab()) delete e;
  tab().clear(); g_nexpr = 0; usesFP = false;
}
Expr *mkConst(uint64_t v, unsigned w) { Expr t{}; t.op = OP_CONST; t.w = w; t.imm = v & mask(w); return intern(t); }
Expr *mkVar(unsigned idx, unsigned w, uint64_t val) {
  Expr t{}; t.op = OP_VAR; t.w = w; t.imm = idx; t.val = val & mask(w); return intern(t);
}
// constant under the values still allowed for the small variables?
static Expr *tabConst(Expr *v1, Expr *v2, const std::vector<uint64_t> &t, unsigned w) {
  bool first = true; uint64_t x = 0;
  unsigned d2 = v2 ? v2->dom : 1; uint64_t al2 = v2 ? v2->allowed : 1;
  for (unsigned i = 0; i < v1->dom; i++) if (v1->allowed >> i & 1) for (unsigned j = 0; j < d2; j++) if (al2 >> j & 1) {
    uint64_t y = t[i * d2 + j]; if (first) { x = y; first = false; } else if (x != y) return nullptr; }
  return first ? nullptr : mkConst(x, w);
}
Expr *resolve(Expr *e) {
  if (!e || e->op == OP_CONST) return e;
  if (e->known) return mkConst(e->kval, e->w);
  if (e->op == OP_TAB) if (Expr *c = tabConst(e->v1, e->v2, *e->tab, e->w)) return c;
  return e;
}
static std::vector<uint64_t> identTab(unsigned k) { std::vector<uint64_t> v; for (unsigned i = 0; i < k; i++) v.push_back(i); return v; }
void setDomain(Expr *x, unsigned k) { if (k > 64 || x->op != OP_VAR) return; x->dom = k; x->allowed = mask(k); x->v1 = x; x->tab = new std::vector<uint64_t>(identTab(k)); }
static Expr *mkTab(Expr *v1, Expr *v2, std::vector<uint64_t> t, unsigned w) {
  if (v2) { // drop a variable the table does not depend on
    unsigned d1 = v1->dom, d2 = v2->dom; bool dep1 = false, dep2 = false;
    for (unsigned i = 0; i < d1; i++) for (unsigned j = 0; j < d2; j++) { if (t[i * d2 + j] != t[i * d2]) dep2 = true; if (t[i * d2 + j] != t[j]) dep1 = true; }
    if (!dep2) { std::vector<uint64_t> u; for (unsigned i = 0; i < d1; i++) u.push_back(t[i * d2]); t = u; v2 = nullptr; }
    else if (!dep1) { t.resize(d2); v1 = v2; v2 = nullptr; }
  }
  if (Expr *c = tabConst(v1, v2, t, w)) return c;
  if (!v2 && v1->w == w && t == *v1->tab) return v1;
  Expr k{}; k.op = OP_TAB; k.w = w; k.a = v1; k.b = v2; k.tab = &t;
  auto it = tab().find(&k); if (it != tab().end()) return resolve(*it);
  k.tab = new std::vector<uint64_t>(t);
  return intern(k);
}
// table of op(a,b,c) over the union of the supports, or null
static std::vector<uint64_t> *joint(Op op, unsigned w, Expr *a, Expr *b, Expr *c, uint64_t imm, Expr **pv1, Expr **pv2) {
  Expr *v[2] = {nullptr, nullptr}; int n = 0;
  for (Expr *e : {a, b, c}) if (e && e->op != OP_CONST) {
    if (!e->tab) return nullptr;
    for (Expr *x : {e->v1, e->v2}) if (x) { if (n > 0 && v[0] == x) continue; if (n > 1 && v[1] == x) continue; if (n == 2) return nullptr; v[n++] = x; }
  }
  if (n == 0) return nullptr;
  if (n == 2 && v[0]->imm > v[1]->imm) std::swap(v[0], v[1]);
  unsigned d1 = v[0]->dom, d2 = v[1] ? v[1]->dom : 1;
  if (d1 * d2 > 144 && n == 2) return nullptr;
  auto at = [&](Expr *e, unsigned i, unsigned j) -> uint64_t {
    if (!e) return 0; if (e->op == OP_CONST) return e->imm;
    unsigned p = e->v1 == v[0] ? i : j;
    if (!e->v2) return (*e->tab)[p];
    return (*e->tab)[i * d2 + j];
  };
  auto *t = new std::vector<uint64_t>(d1 * d2);
  for (unsigned i = 0; i < d1; i++) for (unsigned j = 0; j < d2; j++) {
    uint64_t A = at(a, i, j), B = at(b, i, j), C = at(c, i, j);
    (*t)[i * d2 + j] = op == OP_CONCAT ? ((A << b->w) | B) : op == OP_NE ? A != B : evalOp(op, w, a->w, A, B, C, imm);
  }
  *pv1 = v[0]; *pv2 = v[1]; return t;
}
Expr *mapTab(Expr *a, Expr *b, const std::function<uint64_t(uint64_t, uint64_t)> &f, unsigned w) {
  a = resolve(a); b = resolve(b);
  if (a->op == OP_CONST && (!b || b->op == OP_CONST)) return mkConst(f(a->imm, b ? b->imm : 0), w);
  Expr *v1, *v2; Op op = b ? OP_CONCAT : OP_ZEXT;
  // use the concatenation only to line up the supports
  Expr *aa = a, *bb = b; (void)op;
  auto *ta = joint(OP_ITE, a->w, mkConst(1, 1), aa, bb ? bb : aa, 0, &v1, &v2); if (!ta) return nullptr;
  Expr *w1, *w2; auto *tb = joint(OP_ITE, a->w, mkConst(0, 1), aa, bb ? bb : aa, 0, &w1, &w2);
  std::vector<uint64_t> t(ta->size()); for (size_t i = 0; i < t.size(); i++) t[i] = f((*ta)[i], b ? (*tb)[i] : 0) & mask(w);
  delete ta; delete tb;
  if (v2 && w != 1) {
    if (Expr *k = tabConst(v1, v2, t, w)) return k;
    // two-variable word: split on the first variable
    Expr *r = nullptr; unsigned d2 = v2->dom;
    for (int i = v1->dom - 1; i >= 0; i--) { std::vector<uint64_t> u(t.begin() + i * d2, t.begin() + (i + 1) * d2); Expr *x = mkTab(v2, nullptr, u, w); r = r ? mkIte(mk(OP_EQ, 1, v1, mkConst(i, v1->w)), x, r) : x; }
    return r;
  }
  return mkTab(v1, v2, t, w);
}
static thread_local std::vector<uint64_t> *g_pend; static Expr *g_p1, *g_p2;
// returns the canonical node, or null (then *keep may hold a table to attach)
static Expr *tryTab(Op op, unsigned w, Expr *a, Expr *b, Expr *c, uint64_t imm) {
  g_pend = nullptr;
  Expr *v1, *v2; auto *t = joint(op, w, a, b, c, imm, &v1, &v2);
  if (!t) return nullptr;
  if (!v2 || w == 1) { Expr *r = mkTab(v1, v2, *t, w); delete t; return r; }
  if (Expr *k = tabConst(v1, v2, *t, w)) { delete t; return k; }
  g_pend = t; g_p1 = v1; g_p2 = v2; return nullptr;
}

static Expr *attach(Expr *e, std::vector<uint64_t> *t, Expr *v1, Expr *v2) {
  if (!t) return e;
  if (e->op == OP_CONST || e->tab) { delete t; return e; }
  e->tab = t; e->v1 = v1; e->v2 = v2; return e;
}
static bool isc(Expr *e) { return e->op == OP_CONST; }
static bool isc(Expr *e, uint64_t v) { return e->op == OP_CONST && e->imm == (v & mask(e->w)); }
Expr *mkNot(Expr *a) { return mk(OP_XOR, 1, a, mkConst(1, 1)); }
static bool isNot(Expr *e) { return e->op == OP_XOR && e->w == 1 && isc(e->b, 1); }

// upper bound of the bits a 64-bit signed value needs
static unsigned sbits(Expr *e, int depth = 0) {
  if (depth > 12) return e->w;
  auto m = [&](Expr *x) { return sbits(x, depth + 1); };
  unsigned r = e->w;
  switch (e->op) {
  case OP_CONST: { int64_t v = sx(e->imm, e->w); if (v < 0) v = ~v; r = 1; while (v) { r++; v >>= 1; } break; }
  case OP_SEXT: r = m(e->a); break;
  case OP_ZEXT: r = e->a->w + 1; break;
  case OP_MUL: r = m(e->a) + m(e->b); break;
  case OP_ADD: case OP_SUB: r = std::max(m(e->a), m(e->b)) + 1; break;
  case OP_SDIV: r = m(e->a) + 1; break;
  case OP_ITE: r = std::max(m(e->b), m(e->c)); break;
  default: break;
  }
  return std::min<unsigned>(r, e->w);
}
// an integer as a double, or a constant (the missing value)
static int intLeaves(Expr *e, int d = 0) { // 0: not such a tree
  if (e->op == OP_CONST || e->op == OP_SITOFP) return 1;
  if (e->op != OP_ITE || d > 4) return 0;
  int a = intLeaves(e->b, d + 1), b = intLeaves(e->c, d + 1); return a && b && a + b <= 6 ? a + b : 0;
}
static bool naOrInt(Expr *e) { return e->op == OP_ITE && e->w == 64 && intLeaves(e); }
static Expr *raw(Op op, unsigned w, Expr *a, Expr *b, Expr *c, uint64_t imm) {
  Expr t{}; t.op = op; t.w = w; t.a = a; t.b = b; t.c = c; t.imm = imm; return intern(t);
}
static Expr *mkIte0(Expr *c, Expr *a, Expr *b);
Expr *mkIte(Expr *c, Expr *a, Expr *b) {
  c = resolve(c); a = resolve(a); b = resolve(b);
  if (isc(c)) return c->imm ? a : b;
  if (a == b) return a;
  if (Expr *r = tryTab(OP_ITE, a->w, c, a, b, 0)) return r;
  auto *t = g_pend; Expr *p1 = g_p1, *p2 = g_p2;
  return attach(mkIte0(c, a, b), t, p1, p2);
}
static Expr *mkIte0(Expr *c, Expr *a, Expr *b) {
  if (isNot(c)) { c = c->a; std::swap(a, b); }
  // nested same condition
  if (a->op == OP_ITE && a->a == c) a = a->b;
  if (b->op == OP_ITE && b->a == c) b = b->c;
  if (a == b) return a;
  if (a->w == 1) {
    if (isc(a, 1) && isc(b, 0)) return c;
    if (isc(a, 0) && isc(b, 1)) return mkNot(c);
    if (isc(a, 1)) return mk(OP_OR, 1, c, b);
    if (isc(a, 0)) return mk(OP_AND, 1, mkNot(c), b);
    if (isc(b, 1)) return mk(OP_OR, 1, mkNot(c), a);
    if (isc(b, 0)) return mk(OP_AND, 1, c, a);
  }
  // the absolute value of the opposite
  if (c->op == OP_EQ && isc(c->b, 0) && b == c->a && (isc(a, 0) || (a->op == OP_SUB && isc(a->a, 0) && a->b == b))) return b;
  // ite(c1, x, ite(c2, x, y)) -> ite(c1|c2, x, y)
  if (b->op == OP_ITE && b->b == a) return mkIte(mk(OP_OR, 1, c, b->a), a, b->c);
  return raw(OP_ITE, a->w, c, a, b, 0);
}
Expr *mkExtract(Expr *a, unsigned lo, unsigned w) { if (lo == 0 && w == a->w) return a; return mk(OP_EXTRACT, w, a, nullptr, nullptr, lo); }
Expr *mkZext(Expr *a, unsigned w) { if (a->w == w) return a; return mk(OP_ZEXT, w, a); }
Expr *mkSext(Expr *a, unsigned w) { if (a->w == w) return a; return mk(OP_SEXT, w, a); }

static bool commut(Op o) { return o == OP_ADD || o == OP_MUL || o == OP_AND || o == OP_OR || o == OP_XOR || o == OP_EQ || o == OP_FEQ; }

static Expr *mk0(Op op, unsigned w, Expr *a, Expr *b, Expr *c, uint64_t imm);
// e = e->a * C without overflow: C, otherwise 0
static uint64_t mulBy(Expr *e) {
  uint64_t C = e->op == OP_MUL && isc(e->b) ? e->b->imm : e->op == OP_SHL && isc(e->b) && e->b->imm < 63 ? 1ull << e->b->imm : 0;
  return C && (unsigned __int128)e->a->hi * C <= mask(e->w) ? C : 0;
}
Expr *mk(Op op, unsigned w, Expr *a, Expr *b, Expr *c, uint64_t imm) {
  a = resolve(a); b = resolve(b); c = resolve(c);
  if (op == OP_ITE) return mkIte(a, b, c);
  if (op == OP_NE) return mkNot(mk(OP_EQ, 1, a, b));
  if (op == OP_EXTRACT && imm == 0 && w == a->w) return a;
  if (Expr *r = tryTab(op, w, a, b, c, imm)) return r;
  auto *t = g_pend; Expr *p1 = g_p1, *p2 = g_p2;
  return attach(mk0(op, w, a, b, c, imm), t, p1, p2);
}
static Expr *mk0(Op op, unsigned w, Expr *a, Expr *b, Expr *c, uint64_t imm) {
  // constant folding
  if (isc(a) && (!b || isc(b)) && (!c || isc(c))) {
    if (op == OP_CONCAT) return mkConst((a->imm << b->w) | b->imm, w);
    return mkConst(evalOp(op, w, a->w, a->imm, b ? b->imm : 0, c ? c->imm : 0, imm), w);
  }
  if (b && commut(op) && (isc(a) || (!isc(b) && a->id > b->id))) std::swap(a, b);
  uint64_t M = mask(w);
  switch (op) {
  case OP_ADD: if (isc(b, 0)) return a; if (w > 1 && isc(b, 1ull << (w - 1))) return mk(OP_XOR, w, a, b);
    if (isc(b) && a->op == OP_ADD && isc(a->b)) return mk(OP_ADD, w, a->a, mkConst(a->b->imm + b->imm, w));
    break;
  case OP_SUB: if (w > 1 && isc(b, 1ull << (w - 1))) return mk(OP_XOR, w, a, b);
    if (isc(a, 0) && b->op == OP_SUB && isc(b->a, 0)) return b->b;
    if (isc(b, 0)) return a; if (a == b) return mkConst(0, w);
    if (isc(b)) return mk(OP_ADD, w, a, mkConst(0 - b->imm, w));
    if (a->op == OP_ADD && a->a == b) return a->b; if (a->op == OP_ADD && a->b == b) return a->a;
    break;
  case OP_MUL: if (isc(b, 0)) return b; if (isc(b, 1)) return a;
    if (isc(b) && b->imm && (b->imm & (b->imm - 1)) == 0) return mk(OP_SHL, w, a, mkConst(__builtin_ctzll(b->imm), w));
    break;
  case OP_UDIV: if (isc(b, 1)) return a; if (isc(b) && b->imm && (b->imm & (b->imm - 1)) == 0) return mk(OP_LSHR, w, a, mkConst(__builtin_ctzll(b->imm), w)); break;
  case OP_SDIV: case OP_SREM:
    if (op == OP_SDIV && isc(b, 1)) return a;
    if (isc(b) && w == 64 && a->op == OP_MUL && a->b == b && sx(b->imm, w) > 1 && sbits(a->a) + sbits(b) < 64) return op == OP_SDIV ? a->a : mkConst(0, w);
    break;
  case OP_SHL: case OP_LSHR: case OP_ASHR: if (isc(b, 0)) return a; if (isc(a, 0)) return a;
    if (op == OP_LSHR && isc(b) && b->imm < 64 && (a->hi >> b->imm) == 0) return mkConst(0, w);
    if (isc(b) && a->op == op && isc(a->b)) { uint64_t s = a->b->imm + b->imm; if (s < w) return mk(op, w, a->a, mkConst(s, w)); if (op != OP_ASHR) return mkConst(0, w); }
    break;
  case OP_AND: if (isc(b, 0)) return b; if (isc(b, M)) return a; if (a == b) return a;
    if (isc(b) && a->hi <= b->imm && (b->imm & (b->imm + 1)) == 0) return a;
    if (isc(b) && a->op == OP_AND && isc(a->b)) return mk(OP_AND, w, a->a, mkConst(a->b->imm & b->imm, w));
    if (w == 1 && isNot(a) && a->a == b) return mkConst(0, 1); if (w == 1 && isNot(b) && b->a == a) return mkConst(0, 1);
    break;
  case OP_OR: for (int k = 0; k < 2 && w > 1; k++) { // halves put together
      Expr *h = k ? b : a, *l = k ? a : b;
      if (h->op == OP_SHL && isc(h->b) && h->a->op == OP_ZEXT && l->op == OP_ZEXT && l->a->w <= h->b->imm && h->a->a->w + h->b->imm <= w)
        return mkZext(mk(OP_CONCAT, h->a->a->w + h->b->imm, h->a->a, mkZext(l->a, h->b->imm)), w);
    }
    if (isc(b, 0)) return a; if (isc(b, M)) return b; if (a == b) return a;
    if (w == 1 && isNot(a) && a->a == b) return mkConst(1, 1); if (w == 1 && isNot(b) && b->a == a) return mkConst(1, 1);
    break;
  case OP_XOR: if (isc(b, 0)) return a; if (a == b) return mkConst(0, w);
    if (isc(b) && a->op == OP_XOR && isc(a->b)) return mk(OP_XOR, w, a->a, mkConst(a->b->imm ^ b->imm, w));
    break;
  case OP_EQ:
    if (a == b) return mkConst(1, 1);
    if (a->hi < b->lo || b->hi < a->lo) return mkConst(0, 1);
    if (a->w == 1) { if (isc(b, 1)) return a; if (isc(b, 0)) return mkNot(a); }
    if (isc(b)) {
      if (b->imm & mask(std::min<unsigned>(a->tz, 63))) return mkConst(0, 1);
      if (a->op == OP_ZEXT) return (b->imm > mask(a->a->w)) ? mkConst(0, 1) : mk(OP_EQ, 1, a->a, mkConst(b->imm, a->a->w));
      if (a->op == OP_SEXT) { uint64_t t = b->imm & mask(a->a->w); return ((uint64_t)sx(t, a->a->w) & mask(a->w)) != b->imm ? mkConst(0, 1) : mk(OP_EQ, 1, a->a, mkConst(t, a->a->w)); }
      if (uint64_t C = a->op == OP_MUL ? mulBy(a) : 0) return b->imm % C ? mkConst(0, 1) : mk(OP_EQ, 1, a->a, mkConst(b->imm / C, a->w));
      if (a->op == OP_ADD && isc(a->b)) return mk(OP_EQ, 1, a->a, mkConst(b->imm - a->b->imm, a->w));
      if (a->op == OP_XOR && isc(a->b)) return mk(OP_EQ, 1, a->a, mkConst(b->imm ^ a->b->imm, a->w));
      if (a->op == OP_ITE && isc(a->b) && isc(a->c) && a->leaves == 2) {
        if (a->b->imm == b->imm) return a->a; if (a->c->imm == b->imm) return mkNot(a->a); return mkConst(0, 1);
      }
      if (a->op == OP_SHL && isc(a->b) && a->b->imm < a->w && (a->a->hi << a->b->imm) >> a->b->imm == a->a->hi && a->a->hi <= (mask(a->w) >> a->b->imm))
        return mk(OP_EQ, 1, a->a, mkConst(b->imm >> a->b->imm, a->w));
    } else {
      if ((a->op == OP_ZEXT || a->op == OP_SEXT) && b->op == a->op && a->a->w == b->a->w) return mk(OP_EQ, 1, a->a, b->a);
    }
    break;
  case OP_ULT: if (a == b) return mkConst(0, 1); if (isc(b, 0)) return mkConst(0, 1); if (a->hi < b->lo) return mkConst(1, 1); if (a->lo >= b->hi) return mkConst(0, 1);
    if (a->op == OP_ZEXT && b->op == OP_ZEXT && a->a->w == b->a->w) return mk(op, 1, a->a, b->a);
    { uint64_t C; // products with a constant that cannot overflow
      if (isc(a) && (C = mulBy(b))) return mk(OP_ULT, 1, mkConst(a->imm / C, a->w), b->a);
      if (isc(b) && (C = mulBy(a))) return mk(OP_ULT, 1, a->a, mkConst(b->imm / C + (b->imm % C != 0), b->w)); }
    break;
  case OP_ULE: return mkNot(mk(OP_ULT, 1, b, a));
  case OP_SLT: if (a == b) return mkConst(0, 1);
    if (isc(b, 0) && a->op == OP_SUB && isc(a->a, 0) && a->b->hi <= mask(a->w - 1)) return mkNot(mk(OP_EQ, 1, a->b, mkConst(0, a->w)));
    if (isc(a, 0) && b->op == OP_SUB && isc(b->a, 0) && b->b->hi <= mask(b->w - 1)) return mkConst(0, 1);
    if (a->hi <= mask(a->w - 1) && b->hi <= mask(b->w - 1)) return mk(OP_ULT, 1, a, b);
    if (a->lo > mask(a->w - 1) && b->hi <= mask(b->w - 1)) return mkConst(1, 1);
    if (b->lo > mask(a->w - 1) && a->hi <= mask(b->w - 1)) return mkConst(0, 1);
    if (a->op == OP_SEXT && b->op == OP_SEXT && a->a->w == b->a->w) return mk(op, 1, a->a, b->a);
    if (a->op == OP_SEXT && isc(b)) { int64_t v = sx(b->imm, b->w); unsigned n = a->a->w; int64_t mn = sx(1ull << (n - 1), n), mx = (int64_t)mask(n - 1);
      if (v > mx) return mkConst(1, 1); if (v <= mn) return mkConst(0, 1); return mk(op, 1, a->a, mkConst(v, n)); }
    if (b->op == OP_SEXT && isc(a)) { int64_t v = sx(a->imm, a->w); unsigned n = b->a->w; int64_t mn = sx(1ull << (n - 1), n), mx = (int64_t)mask(n - 1);
      if (v < mn) return mkConst(1, 1); if (v >= mx) return mkConst(0, 1); return mk(op, 1, mkConst(v, n), b->a); }
    break;
  case OP_SLE: return mkNot(mk(OP_SLT, 1, b, a));
  case OP_ZEXT: if (a->op == OP_ZEXT) return mkZext(a->a, w); break;
  case OP_SEXT: if (a->op == OP_SEXT) return mkSext(a->a, w); if (a->op == OP_ZEXT) return mkZext(a->a, w);
    if (a->hi <= mask(a->w - 1)) return mkZext(a, w);
    break;
  case OP_EXTRACT:
    if (a->op == OP_EXTRACT) return mkExtract(a->a, a->imm + imm, w);
    if ((a->op == OP_ZEXT || a->op == OP_SEXT) && imm == 0) { if (w == a->a->w) return a->a; if (w < a->a->w) return mkExtract(a->a, 0, w); return a->op == OP_ZEXT ? mkZext(a->a, w) : mkSext(a->a, w); }
    if (a->op == OP_ZEXT && imm >= a->a->w) return mkConst(0, w);
    if (a->op == OP_ZEXT && imm + w <= a->a->w) return mkExtract(a->a, imm, w);
    if (a->op == OP_CONCAT) { unsigned bw = a->b->w; if (imm + w <= bw) return mkExtract(a->b, imm, w); if (imm >= bw) return mkExtract(a->a, imm - bw, w); }
    if (a->op == OP_ITE) return mkIte(a->a, mkExtract(a->b, imm, w), mkExtract(a->c, imm, w));
    if (a->op == OP_LSHR && isc(a->b) && a->b->imm + imm + w <= a->w) return mkExtract(a->a, imm + a->b->imm, w);
    if ((a->op == OP_AND || a->op == OP_OR || a->op == OP_XOR)) return mk(a->op, w, mkExtract(a->a, imm, w), mkExtract(a->b, imm, w));
    if ((a->op == OP_ADD || a->op == OP_SUB || a->op == OP_MUL) && imm == 0) return mk(a->op, w, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));
    break;
  case OP_CONCAT:
    if (a->op == OP_EXTRACT && b->op == OP_EXTRACT && a->a == b->a && a->imm == b->imm + b->w) return mkExtract(a->a, b->imm, w);
    if (isc(a, 0)) return mkZext(b, w);
    break;
  case OP_FNEG: if (a->op == OP_FNEG) return a->a; break;
  case OP_FEQ: case OP_FLT: case OP_FLE: break;
  case OP_FUNO: if (a->op == OP_SITOFP || a->op == OP_UITOFP) return mkConst(0, 1); if (a->op == OP_FNEG || a->op == OP_FABS) return mk(OP_FUNO, 1, a->a); break;
  default: break;
  }
  // conversions of integers of at most 53 bits are exact
  if (op == OP_UITOFP && w == 64 && a->w <= 32) return mk(OP_SITOFP, w, mkZext(a, 64));
  if (op == OP_FPTOUI && a->op == OP_SITOFP && a->a->op == OP_ZEXT && a->a->a->w <= 32 && w >= a->a->a->w) return mkZext(a->a->a, w);
  if (op == OP_FPTOSI && a->op == OP_SITOFP && w == 64 && a->a->w == 64 && sbits(a->a) <= 54) return a->a;
  if ((op == OP_SITOFP || op == OP_MUL || op == OP_SDIV || op == OP_SREM || op == OP_SEXT) && w == 64 && a->op == OP_ITE && (isc(a->b) || isc(a->c)) && (!b || isc(b))) return mkIte(a->a, mk(op, w, a->b, b, nullptr, imm), mk(op, w, a->c, b, nullptr, imm));
  if ((op == OP_FUNO || op == OP_FPTOSI || op == OP_FPTOUI) && naOrInt(a)) return mkIte(a->a, mk(op, w, a->b, nullptr, nullptr, imm), mk(op, w, a->c, nullptr, nullptr, imm));
  if (op == OP_FEQ || op == OP_FLT || op == OP_FLE || (op == OP_EQ && a->w == 64)) {
    auto conv = [](Expr *e) { return e->op == OP_SITOFP || e->op == OP_CONST || naOrInt(e); };
    if (naOrInt(a) && conv(b)) return mkIte(a->a, mk(op, 1, a->b, b), mk(op, 1, a->c, b));
    if (naOrInt(b) && conv(a)) return mkIte(b->a, mk(op, 1, a, b->b), mk(op, 1, a, b->c));
    auto ex = [](Expr *e) -> Expr * {
      if (e->op == OP_SITOFP) return e->a->w < 64 ? mkSext(e->a, 64) : sbits(e->a) <= 54 ? e->a : nullptr;
      double d = asd(e->imm); return e->op == OP_CONST && std::fabs(d) < 9e15 && d == std::floor(d) && e->imm != 1ull << 63 ? mkConst((uint64_t)(int64_t)d, 64) : nullptr; };
    if (a->op == OP_SITOFP || b->op == OP_SITOFP) {
      bool wide = (a->op == OP_SITOFP && a->a->w == 64) || (b->op == OP_SITOFP && b->a->w == 64) || op == OP_EQ;
      if (wide) if (Expr *x = ex(a)) if (Expr *y = ex(b)) return mk(op == OP_FLT ? OP_SLT : op == OP_FLE ? OP_SLE : OP_EQ, 1, x, y);
    }
  }
  // comparisons of exactly converted integers
  if ((op == OP_FEQ || op == OP_FLT || op == OP_FLE) ) {
    Op io = op == OP_FEQ ? OP_EQ : op == OP_FLT ? OP_SLT : OP_SLE;
    auto cv = [](Expr *e) { return (e->op == OP_SITOFP && e->a->w <= 32) || (e->op == OP_UITOFP && e->a->w <= 32); };
    auto wide = [](Expr *e) { return e->op == OP_SITOFP ? mkSext(e->a, 40) : mkZext(e->a, 40); };
    auto fits = [](Expr *e) { double d = asd(e->imm); return e->op == OP_CONST && d == std::floor(d) && std::fabs(d) < 1e11; };
    // products of two exactly converted 32-bit integers against an integral constant: rounding is
    // monotone and such constants are exact, so the comparison is the one of the exact products
    int u32 = 0; // at most one operand may reach 2^32, so that the product fits 63 bits
    auto in32 = [&u32](Expr *e) -> Expr * {
      if (e->op == OP_CONST) { double d = asd(e->imm); return d == std::floor(d) && std::fabs(d) <= 2147483648.0 ? mkConst((uint64_t)(int64_t)d, 64) : nullptr; }
      if (e->op != OP_SITOFP && e->op != OP_UITOFP) return nullptr;
      Expr *x = e->a; bool uns = e->op == OP_UITOFP;
      if (!uns && x->op == OP_SEXT) x = x->a; else while (x->op == OP_ZEXT) { x = x->a; uns = true; }
      if (!uns) return x->w <= 32 ? mkSext(x, 64) : nullptr;
      if (x->w > 32 || (x->w == 32 && u32++)) return nullptr;
      return mkZext(x, 64);
    };
    for (int side = 0; side < 2; side++) {
      Expr *p = side ? b : a, *q = side ? a : b;
      if (p->op != OP_FMUL || !fits(q)) continue;
      u32 = 0; Expr *u = in32(p->a), *v = in32(p->b); if (!u || !v) continue;
      Expr *pr = mk(OP_MUL, 64, u, v), *k = mkConst((uint64_t)(int64_t)asd(q->imm), 64);
      return side ? mk(io, 1, k, pr) : mk(io, 1, pr, k);
    }
    if (cv(a) && cv(b)) return mk(io, 1, wide(a), wide(b));
    if (cv(a) && fits(b)) return mk(io, 1, wide(a), mkConst((uint64_t)(int64_t)asd(b->imm), 40));
    if (cv(b) && fits(a)) return mk(io, 1, mkConst((uint64_t)(int64_t)asd(a->imm), 40), wide(b));
  }
  if (op == OP_FPTOSI && a->op == OP_SITOFP && a->a->w <= 32 && w >= a->a->w) return mkSext(a->a, w);
  // lift over ITE trees with constant leaves
  auto lift1 = [&](Expr *x) { return x && x->op == OP_ITE && x->leaves; };
  if (!b && lift1(a)) return mkIte(a->a, mk(op, w, a->b, nullptr, nullptr, imm), mk(op, w, a->c, nullptr, nullptr, imm));
  if (b && !c) {
    if (lift1(a) && isc(b)) return mkIte(a->a, mk(op, w, a->b, b, nullptr, imm), mk(op, w, a->c, b, nullptr, imm));
    if (lift1(b) && isc(a)) return mkIte(b->a, mk(op, w, a, b->b, nullptr, imm), mk(op, w, a, b->c, nullptr, imm));
  }
  return raw(op, w, a, b, c, imm);
}

void learn(Expr *e, bool taken) {
  if (e->op == OP_CONST || e->known) return;
  if (e->op == OP_TAB && e->w == 1) {
    if (!e->v2) { for (unsigned i = 0; i < e->v1->dom; i++) if (((*e->tab)[i] != 0) != taken) e->v1->allowed &= ~(1ull << i); }
    else {
      Expr *x = e->v1, *y = e->v2; uint64_t ax = 0, ay = 0;
      for (unsigned i = 0; i < x->dom; i++) for (unsigned j = 0; j < y->dom; j++)
        if ((x->allowed >> i & 1) && (y->allowed >> j & 1) && ((*e->tab)[i * y->dom + j] != 0) == taken) { ax |= 1ull << i; ay |= 1ull << j; }
      x->allowed = ax; y->allowed = ay;
    }
    for (Expr *x : {e->v1, e->v2}) if (x && x->allowed && !(x->allowed & (x->allowed - 1)) && !x->known) { x->known = true; x->kval = __builtin_ctzll(x->allowed); }
  }
  e->known = true; e->kval = taken;
  if (isNot(e)) { learn(e->a, !taken); return; }
  if (e->w == 1 && e->op == OP_AND && taken) { learn(e->a, true); learn(e->b, true); }
  if (e->w == 1 && e->op == OP_OR && !taken) { learn(e->a, false); learn(e->b, false); }
  if (e->op == OP_EQ && taken && isc(e->b) && !e->a->known && e->a->op != OP_CONST) {
    e->a->known = true; e->a->kval = e->b->imm;
    Expr *x = e->a;
    // invert simple chains so that the underlying variable becomes known too
    if ((x->op == OP_ZEXT || x->op == OP_SEXT) && !x->a->known) learn(mk(OP_EQ, 1, x->a, mkConst(e->b->imm, x->a->w)), true);
  }
  if (e->op == OP_SLT || e->op == OP_ULT) { // a<b known true => b<a false
    Expr t{}; t.op = e->op; t.w = 1; t.a = e->b; t.b = e->a;
    if (taken) { Expr *o = raw(e->op, 1, e->b, e->a, nullptr, 0); if (!o->known) { o->known = true; o->kval = 0; }
      Expr *q = mk(OP_EQ, 1, e->a, e->b); if (q->op == OP_EQ && !q->known) { q->known = true; q->kval = 0; } }
  }
}

// ---------------------------------------------------------------- Z3
static Z3_ast bv(uint64_t v, unsigned w) { return Z3_mk_unsigned_int64(zc, v, Z3_mk_bv_sort(zc, w)); }
static Z3_ast b2v(Z3_ast b) { return Z3_mk_ite(zc, b, bv(1, 1), bv(0, 1)); }
static Z3_ast fpT(Z3_ast b) { return Z3_mk_fpa_to_fp_bv(zc, b, Z3_mk_fpa_sort_double(zc)); }
static Z3_ast AND(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return Z3_mk_and(zc, 2, x); }
static Z3_ast OR(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return Z3_mk_or(zc, 2, x); }
static Z3_ast isnanB(Z3_ast x) { return Z3_mk_bvugt(zc, Z3_mk_bvshl(zc, x, bv(1, 64)), bv(0xffe0000000000000ull, 64)); }
static Z3_ast isneg(Z3_ast x) { return Z3_mk_eq(zc, Z3_mk_extract(zc, 63, 63, x), bv(1, 1)); }
static Z3_ast bothzero(Z3_ast x, Z3_ast y) { return Z3_mk_eq(zc, Z3_mk_bvshl(zc, Z3_mk_bvor(zc, x, y), bv(1, 64)), bv(0, 64)); }
static Z3_ast fltB(Z3_ast x, Z3_ast y) { // no NaN
  return AND(Z3_mk_not(zc, bothzero(x, y)),
    Z3_mk_ite(zc, isneg(x), Z3_mk_ite(zc, isneg(y), Z3_mk_bvult(zc, y, x), Z3_mk_true(zc)), Z3_mk_ite(zc, isneg(y), Z3_mk_false(zc), Z3_mk_bvult(zc, x, y))));
}
static Z3_ast nonan(Z3_ast x, Z3_ast y) { return AND(Z3_mk_not(zc, isnanB(x)), Z3_mk_not(zc, isnanB(y))); }

static Z3_ast intToFp(Z3_ast x, unsigned w, bool sgn) { // w <= 32, exact
  Z3_ast s = sgn ? Z3_mk_extract(zc, w - 1, w - 1, x) : bv(0, 1);
  Z3_ast x64 = sgn ? Z3_mk_sign_ext(zc, 64 - w, x) : Z3_mk_zero_ext(zc, 64 - w, x);
  Z3_ast m = Z3_mk_ite(zc, Z3_mk_eq(zc, s, bv(1, 1)), Z3_mk_bvneg(zc, x64), x64); // < 2^33
  // normalise into bit 52
  m = Z3_mk_bvand(zc, m, bv(0x1ffffffffull, 64));
  Z3_ast e = bv(1023 + 52, 64), mm = m;
  for (int k = 32; k >= 1; k >>= 1) { // shift left while top bits zero (total up to 52+)
    // want leading one at bit 52: check that bits [52-k+1 .. 52] are all zero
    uint64_t topmask = ((1ull << k) - 1) << (53 - k);
    Z3_ast z = Z3_mk_eq(zc, Z3_mk_bvand(zc, mm, bv(topmask, 64)), bv(0, 64));
    mm = Z3_mk_ite(zc, z, Z3_mk_bvshl(zc, mm, bv(k, 64)), mm);
    e = Z3_mk_ite(zc, z, Z3_mk_bvsub(zc, e, bv(k, 64)), e);
  }
  Z3_ast bits = Z3_mk_bvor(zc, Z3_mk_bvshl(zc, e, bv(52, 64)), Z3_mk_bvand(zc, mm, bv(0xfffffffffffffull, 64)));
  bits = Z3_mk_bvor(zc, bits, Z3_mk_bvshl(zc, Z3_mk_zero_ext(zc, 63, s), bv(63, 64)));
  return Z3_mk_ite(zc, Z3_mk_eq(zc, m, bv(0, 64)), bv(0, 64), bits);
}
static Z3_ast fpToSi(Z3_ast x, unsigned w) { // truncation; x86 "indefinite" when out of range
  unsigned W = w <= 32 ? 32 : 64;
  Z3_ast e = Z3_mk_bvand(zc, Z3_mk_bvlshr(zc, x, bv(52, 64)), bv(0x7ff, 64)); // biased
  Z3_ast m = Z3_mk_bvor(zc, Z3_mk_bvand(zc, x, bv(0xfffffffffffffull, 64)), bv(1ull << 52, 64));
  Z3_ast small = Z3_mk_bvult(zc, e, bv(1023, 64));
  Z3_ast sh = Z3_mk_bvsub(zc, bv(1023 + 52, 64), e);
  Z3_ast right = Z3_mk_bvlshr(zc, m, sh);
  Z3_ast mag = right;
  if (W == 64) mag = Z3_mk_ite(zc, Z3_mk_bvugt(zc, e, bv(1023 + 52, 64)), Z3_mk_bvshl(zc, m, Z3_mk_bvsub(zc, e, bv(1023 + 52, 64))), right);
  Z3_ast big = Z3_mk_bvuge(zc, e, bv(1023 + W - 1, 64)); // |x| >= 2^(W-1)  (== -2^(W-1) gives the same pattern)
  Z3_ast r = Z3_mk_ite(zc, isneg(x), Z3_mk_bvneg(zc, mag), mag);
  r = Z3_mk_ite(zc, small, bv(0, 64), Z3_mk_ite(zc, big, bv(W == 64 ? 1ull << 63 : 0x80000000ull, 64), r));
  return w == 64 ? r : Z3_mk_extract(zc, w - 1, 0, r);
}
static Z3_ast roundB(Z3_ast x, int mode) { // 0 trunc 1 floor 2 ceil, bit level
  Z3_ast e = Z3_mk_bvand(zc, Z3_mk_bvlshr(zc, x, bv(52, 64)), bv(0x7ff, 64));
  Z3_ast sgn = Z3_mk_bvand(zc, x, bv(1ull << 63, 64));
  Z3_ast small = Z3_mk_bvult(zc, e, bv(1023, 64));
  Z3_ast big = Z3_mk_bvuge(zc, e, bv(1023 + 52, 64));
  Z3_ast msk = Z3_mk_bvlshr(zc, bv(0xfffffffffffffull, 64), Z3_mk_bvsub(zc, e, bv(1023, 64)));
  Z3_ast nm = Z3_mk_bvnot(zc, msk);
  Z3_ast t = Z3_mk_bvand(zc, x, nm);
  Z3_ast up = Z3_mk_bvand(zc, Z3_mk_bvadd(zc, x, msk), nm);
  Z3_ast iszero = Z3_mk_eq(zc, Z3_mk_bvshl(zc, x, bv(1, 64)), bv(0, 64));
  Z3_ast one = asu(1.0) ? bv(asu(1.0), 64) : nullptr;
  Z3_ast inRange, smallv;
  if (mode == 0) { inRange = t; smallv = sgn; }
  else if (mode == 1) { inRange = Z3_mk_ite(zc, isneg(x), up, t); smallv = Z3_mk_ite(zc, iszero, x, Z3_mk_ite(zc, isneg(x), bv(asu(-1.0), 64), bv(0, 64))); }
  else { inRange = Z3_mk_ite(zc, isneg(x), t, up); smallv = Z3_mk_ite(zc, iszero, x, Z3_mk_ite(zc, isneg(x), bv(1ull << 63, 64), one)); }
  return Z3_mk_ite(zc, big, x, Z3_mk_ite(zc, small, smallv, inRange));
}

static Z3_ast z1(Expr *e) {
  unsigned w = e->w;
  Z3_ast A = e->a ? e->a->ast : nullptr, B = e->b ? e->b->ast : nullptr, C = e->c ? e->c->ast : nullptr;
  switch (e->op) {
  case OP_CONST: return w == 1 ? (e->imm ? Z3_mk_true(zc) : Z3_mk_false(zc)) : bv(e->imm, w);
  case OP_VAR: { Z3_ast v = Z3_mk_const(zc, Z3_mk_int_symbol(zc, (int)e->imm), Z3_mk_bv_sort(zc, w)); return w == 1 ? Z3_mk_eq(zc, v, bv(1, 1)) : v; }
  default: break;
  }
  if (e->op == OP_TAB) {
    Expr *x = e->a, *y = e->b; const auto &t = *e->tab;
    auto is = [&](Expr *v, unsigned i) { return v->w == 1 ? (i ? v->ast : Z3_mk_not(zc, v->ast)) : Z3_mk_eq(zc, v->ast, bv(i, v->w)); };
    auto any = [&](Expr *v, uint64_t set) { // v in set
      std::vector<Z3_ast> o; bool neg = __builtin_popcountll(set) * 2 > (int)v->dom; uint64_t s = neg ? mask(v->dom) & ~set : set;
      for (unsigned i = 0; i < v->dom; i++) if (s >> i & 1) o.push_back(is(v, i));
      Z3_ast r = o.empty() ? Z3_mk_false(zc) : o.size() == 1 ? o[0] : Z3_mk_or(zc, o.size(), o.data());
      return neg ? Z3_mk_not(zc, r) : r; };
    if (!y) {
      std::map<uint64_t, uint64_t> g; for (unsigned i = 0; i < x->dom; i++) g[t[i]] |= 1ull << i;
      if (w == 1) return any(x, g[1]);
      uint64_t def = 0; int best = -1; for (auto &k : g) if (__builtin_popcountll(k.second) > best) { best = __builtin_popcountll(k.second); def = k.first; }
      Z3_ast r = bv(def, w);
      for (auto &k : g) if (k.first != def) r = Z3_mk_ite(zc, any(x, k.second), bv(k.first, w), r);
      return r;
    }
    std::map<uint64_t, uint64_t> rows; // row pattern -> values of x
    for (unsigned i = 0; i < x->dom; i++) { uint64_t row = 0; for (unsigned j = 0; j < y->dom; j++) if (t[i * y->dom + j]) row |= 1ull << j; rows[row] |= 1ull << i; }
    std::vector<Z3_ast> o; for (auto &r : rows) if (r.first) o.push_back(r.first == mask(y->dom) ? any(x, r.second) : AND(any(x, r.second), any(y, r.first)));
    return o.size() == 1 ? o[0] : Z3_mk_or(zc, o.size(), o.data());
  }
  // width-1 values are Bool
  if (w == 1) {
    switch (e->op) {
    case OP_AND: return AND(A, B); case OP_OR: return OR(A, B);
    case OP_XOR: if (e->b->op == OP_CONST) return e->b->imm ? Z3_mk_not(zc, A) : A; return Z3_mk_xor(zc, A, B);
    case OP_ITE: return Z3_mk_ite(zc, A, B, C);
    case OP_EQ: return e->a->w == 1 ? Z3_mk_iff(zc, A, B) : Z3_mk_eq(zc, A, B);
    default: break;
    }
  }
  auto V = [&](Expr *x) { return x->w == 1 ? b2v(x->ast) : x->ast; };
  Z3_ast a = e->a && e->op != OP_ITE ? V(e->a) : A, b = e->b ? V(e->b) : nullptr, c = e->c ? V(e->c) : nullptr;
  Z3_ast r;
  switch (e->op) {
  case OP_ADD: r = Z3_mk_bvadd(zc, a, b); break; case OP_SUB: r = Z3_mk_bvsub(zc, a, b); break; case OP_MUL: r = Z3_mk_bvmul(zc, a, b); break;
  case OP_UDIV: r = Z3_mk_bvudiv(zc, a, b); break;
  case OP_SDIV: case OP_SREM:
    if (e->b->op == OP_CONST && w == 64 && sx(e->b->imm, 64) > 1) { // narrow
      unsigned k = std::max(sbits(e->a), sbits(e->b)) + 1;
      if (k <= 48) { Z3_ast x = Z3_mk_extract(zc, k - 1, 0, a), y = Z3_mk_extract(zc, k - 1, 0, b);
        r = Z3_mk_sign_ext(zc, 64 - k, e->op == OP_SDIV ? Z3_mk_bvsdiv(zc, x, y) : Z3_mk_bvsrem(zc, x, y)); break; }
    }
    r = e->op == OP_SDIV ? Z3_mk_bvsdiv(zc, a, b) : Z3_mk_bvsrem(zc, a, b); break;
  case OP_UREM: r = Z3_mk_bvurem(zc, a, b); break;
  case OP_SHL: r = Z3_mk_bvshl(zc, a, b); break; case OP_LSHR: r = Z3_mk_bvlshr(zc, a, b); break; case OP_ASHR: r = Z3_mk_bvashr(zc, a, b); break;
  case OP_AND: r = Z3_mk_bvand(zc, a, b); break; case OP_OR: r = Z3_mk_bvor(zc, a, b); break; case OP_XOR: r = Z3_mk_bvxor(zc, a, b); break;
  case OP_ULT: return Z3_mk_bvult(zc, a, b); case OP_ULE: return Z3_mk_bvule(zc, a, b);
  case OP_SLT: return Z3_mk_bvslt(zc, a, b); case OP_SLE: return Z3_mk_bvsle(zc, a, b);
  case OP_EQ: return Z3_mk_eq(zc, a, b);
  case OP_ZEXT: r = Z3_mk_zero_ext(zc, w - e->a->w, a); break; case OP_SEXT: r = Z3_mk_sign_ext(zc, w - e->a->w, a); break;
  case OP_EXTRACT: r = Z3_mk_extract(zc, e->imm + w - 1, e->imm, a); break;
  case OP_CONCAT: r = Z3_mk_concat(zc, a, b); break;
  case OP_ITE: r = Z3_mk_ite(zc, A, b, c); break;
  case OP_FEQ: return AND(nonan(a, b), OR(bothzero(a, b), Z3_mk_eq(zc, a, b)));
  case OP_FLT: return AND(nonan(a, b), fltB(a, b));
  case OP_FLE: return AND(nonan(a, b), Z3_mk_not(zc, fltB(b, a)));
  case OP_FUNO: return isnanB(a);
  case OP_FNEG: r = Z3_mk_bvxor(zc, a, bv(1ull << 63, 64)); break;
  case OP_FABS: r = Z3_mk_bvand(zc, a, bv(~(1ull << 63), 64)); break;
  case OP_SITOFP: case OP_UITOFP:
    if (e->a->w <= 32) { r = intToFp(a, e->a->w, e->op == OP_SITOFP); break; }
    if (e->a->hi <= 0xffffffffull) { r = intToFp(Z3_mk_extract(zc, 31, 0, a), 32, false); break; }
    if (e->op == OP_SITOFP && e->a->op == OP_ZEXT && e->a->a->w <= 32) { r = intToFp(e->a->a->w == 1 ? b2v(e->a->a->ast) : e->a->a->ast, e->a->a->w, false); break; }
    if (e->op == OP_SITOFP && e->a->op == OP_SEXT && e->a->a->w <= 32) { r = intToFp(e->a->a->w == 1 ? b2v(e->a->a->ast) : e->a->a->ast, e->a->a->w, true); break; }
    usesFP = true;
    r = Z3_mk_fpa_to_ieee_bv(zc, e->op == OP_SITOFP ? Z3_mk_fpa_to_fp_signed(zc, Z3_mk_fpa_rne(zc), a, Z3_mk_fpa_sort_double(zc)) : Z3_mk_fpa_to_fp_unsigned(zc, Z3_mk_fpa_rne(zc), a, Z3_mk_fpa_sort_double(zc)));
    break;
  case OP_FPTOSI: r = fpToSi(a, w); break;
  case OP_FPTOUI: r = fpToSi(a, 64); if (w < 64) r = Z3_mk_extract(zc, w - 1, 0, r); break;
  case OP_FLOOR: r = roundB(a, 1); break; case OP_FCEIL: r = roundB(a, 2); break; case OP_FTRUNC: r = roundB(a, 0); break;
  case OP_FADD: case OP_FSUB: case OP_FMUL: case OP_FDIV: {
    usesFP = true;
    Z3_ast x = fpT(a), y = fpT(b), m = Z3_mk_fpa_rne(zc);
    Z3_ast v = e->op == OP_FADD ? Z3_mk_fpa_add(zc, m, x, y) : e->op == OP_FSUB ? Z3_mk_fpa_sub(zc, m, x, y) : e->op == OP_FMUL ? Z3_mk_fpa_mul(zc, m, x, y) : Z3_mk_fpa_div(zc, m, x, y);
    // NaN results as SSE gives them: the first NaN operand made quiet, else the default NaN
    Z3_ast q = bv(1ull << 51, 64);
    r = Z3_mk_ite(zc, isnanB(a), Z3_mk_bvor(zc, a, q), Z3_mk_ite(zc, isnanB(b), Z3_mk_bvor(zc, b, q), Z3_mk_ite(zc, Z3_mk_fpa_is_nan(zc, v), bv(0xfff8ull << 48, 64), Z3_mk_fpa_to_ieee_bv(zc, v)))); break;
  }
  default: fprintf(stderr, "z1 op %d\n", e->op); abort();
  }
  if (w == 1) r = Z3_mk_eq(zc, r, bv(1, 1));
  return r;
}
Z3_ast toZ3(Expr *root) {
  if (root->ast) return root->ast;
  std::vector<Expr *> st{root};
  while (!st.empty()) {
    Expr *e = st.back();
    if (e->ast) { st.pop_back(); continue; }
    bool ready = true;
    for (Expr *k : {e->a, e->b, e->c}) if (k && !k->ast) { st.push_back(k); ready = false; }
    if (!ready) continue;
    st.pop_back();
    e->ast = z1(e);
    Z3_inc_ref(zc, e->ast);
  }
  return root->ast;
}
