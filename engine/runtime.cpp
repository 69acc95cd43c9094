// SymR runtime: shadow memory, path condition, solving, exploration.
#include "expr.h"
#include <algorithm>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <deque>
#include <dlfcn.h>
#include <execinfo.h>
#include <fcntl.h>
#include <map>
#include <poll.h>
#include <string>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include "runtime.h"

typedef uint64_t u64;
bool g_on = false;      // symbolic propagation active
Stats st; FILE *g_prof;

// ------------------------------------------------------------ shadow memory
struct Page { Expr *e[4096]; uint8_t o[4096]; };
static std::vector<Page *> g_pages;
static void staleAt(int line);
static Page ***L1; // [addr >> 24] -> 4096 pages
static inline Page *page(uintptr_t a) {
  if (!L1 || a >> 47) return nullptr;
  Page **l2 = L1[a >> 24]; return l2 ? l2[(a >> 12) & 4095] : nullptr;
}
static Page *pageW(uintptr_t a) {
  if (!L1) L1 = (Page ***)mmap(nullptr, sizeof(void *) << 23, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  Page **&l2 = L1[a >> 24]; if (!l2) l2 = (Page **)calloc(4096, sizeof(Page *));
  Page *&p = l2[(a >> 12) & 4095]; if (!p) { p = (Page *)calloc(1, sizeof(Page)); g_pages.push_back(p); }
  return p;
}
void shClear(uintptr_t a, size_t n) {
  if (!L1) return;
  while (n) {
    size_t k = std::min<size_t>(n, 4096 - (a & 4095));
    if (Page *p = page(a)) memset(&p->e[a & 4095], 0, k * sizeof(Expr *));
    a += k; n -= k;
  }
}
bool shAny(uintptr_t a, size_t n) {
  while (n) {
    size_t k = std::min<size_t>(n, 4096 - (a & 4095));
    if (Page *p = page(a)) for (size_t i = 0; i < k; i++) if (p->e[(a & 4095) + i]) return true;
    a += k; n -= k;
  }
  return false;
}
void shPut(uintptr_t a, Expr *e, unsigned size) { // e has width size*8 (or null)
  if (!e) { shClear(a, size); return; }
  for (unsigned i = 0; i < size; i++) { Page *p = pageW(a + i); p->e[(a + i) & 4095] = e; p->o[(a + i) & 4095] = i; }
}
static u64 rdmem(uintptr_t a, unsigned size) { u64 v = 0; memcpy(&v, (void *)a, size); return v; }
Expr *shGet(uintptr_t a, unsigned size) {
  Page *p = page(a); Page *p2 = page(a + size - 1);
  if (!p && !p2) return nullptr;
  Expr *e[8]; uint8_t o[8]; bool any = false;
  for (unsigned i = 0; i < size; i++) {
    Page *q = ((a + i) >> 12) == (a >> 12) ? p : p2;
    e[i] = q ? q->e[(a + i) & 4095] : nullptr; o[i] = q ? q->o[(a + i) & 4095] : 0;
    if (e[i]) any = true;
  }
  if (!any) return nullptr;
  bool whole = e[0] && o[0] == 0 && e[0]->w == size * 8;
  for (unsigned i = 1; whole && i < size; i++) whole = e[i] == e[0] && o[i] == i;
  if (whole) return resolve(e[0]);
  Expr *r = nullptr;
  for (unsigned i = 0; i < size; ) { // little endian, group runs from the same expression
    Expr *part; unsigned n = 1;
    if (e[i]) {
      while (i + n < size && e[i + n] == e[i] && o[i + n] == o[i] + n) n++;
      part = mkExtract(resolve(e[i]), o[i] * 8, n * 8);
    } else {
      while (i + n < size && !e[i + n]) n++;
      part = mkConst(rdmem(a + i, n), n * 8);
    }
    r = r ? mk(OP_CONCAT, r->w + part->w, part, r) : part;
    i += n;
  }
  return r;
}
void shCopy(uintptr_t d, uintptr_t s, size_t n) {
  if (!L1 || !n || d == s) return;
  bool as = false;
  // quick page-level test
  for (uintptr_t x = s & ~4095ull; x < s + n; x += 4096) if (page(x)) { as = true; break; }
  if (!as) { shClear(d, n); return; }
  std::vector<Expr *> e(n); std::vector<uint8_t> o(n);
  for (size_t i = 0; i < n; i++) { Page *p = page(s + i); e[i] = p ? p->e[(s + i) & 4095] : nullptr; o[i] = p ? p->o[(s + i) & 4095] : 0; }
  for (size_t i = 0; i < n; i++) {
    if (e[i]) { Page *p = pageW(d + i); p->e[(d + i) & 4095] = e[i]; p->o[(d + i) & 4095] = o[i]; }
    else if (Page *p = page(d + i)) p->e[(d + i) & 4095] = nullptr;
  }
}

// ------------------------------------------------------------ regions
static std::map<uintptr_t, size_t> &regs() { static auto *r = new std::map<uintptr_t, size_t>(); return *r; }
void region(void *p, size_t len) {
  if (!g_on || !len) return;
  auto &R = regs(); uintptr_t a = (uintptr_t)p;
  auto it = R.find(a);
  if (it != R.end() && it->second == len) return;
  it = R.lower_bound(a);
  if (it != R.begin()) { auto pr = std::prev(it); if (pr->first + pr->second > a) it = pr; }
  while (it != R.end() && it->first < a + len) it = R.erase(it);
  R[a] = len;
}
static bool findRegion(uintptr_t a, uintptr_t &base, size_t &len) {
  auto &R = regs(); auto it = R.upper_bound(a); if (it == R.begin()) return false;
  --it; if (a >= it->first + it->second) return false;
  base = it->first; len = it->second; return true;
}

// ------------------------------------------------------------ path
std::vector<Event> g_ev;
std::vector<Var> g_vars;
Item g_item;
static std::unordered_set<const char *> *g_fns;
static u64 g_hash;
struct Shared { volatile u64 nvars; u64 vals[4096]; volatile u64 busy, itemlen; char item[1 << 20]; };
static Shared *g_shared;
static bool g_inChild;
u64 g_seed = 1;
static unsigned g_maxEvents = 30000;
[[noreturn]] static void finishPath(const char *why);

static inline void touch(const char *fn) { g_fns->insert(fn); }
static bool polarity(Expr *e, bool taken) { while (e->op == OP_XOR && e->w == 1 && e->b->op == OP_CONST && e->b->imm) { e = e->a; taken = !taken; } return taken; }
static void pushEvent(Expr *e, bool taken, Kind k, const char *fn, unsigned site, u64 val = 0, const char *msg = nullptr) {
  if (g_ev.size() == g_item.bound) { if (g_item.hash && g_item.hash != g_hash) { st.diverged++; if (getenv("SYMR_DEBUG")) { fprintf(stderr, "DIVERGED at event %zu %s:%u hash=%lx vals", g_ev.size(), fn, site, g_item.hash); for (auto &v : g_vars) fprintf(stderr, " %lu", v.val); fprintf(stderr, "\n"); } } }
  g_ev.push_back(Event{e, taken, k, (uint32_t)g_vars.size(), fn, site, val, g_hash, msg});
  u64 h = g_hash; h ^= (u64)fn * 0x9e3779b97f4a7c15ull + site * 31 + k * 7 + (k == CONC ? 0 : polarity(e, taken)); h *= 0xff51afd7ed558ccdull; h ^= h >> 29; g_hash = h;
  if (g_ev.size() > g_maxEvents) { st.truncated++; finishPath("event limit"); }
}
static Expr *asBool(Expr *e) { return e->w == 1 ? e : mkNot(mk(OP_EQ, 1, e, mkConst(0, e->w))); }

void branchOn(Expr *c, const char *fn, unsigned site) {
  c = resolve(c);
  if (c->op == OP_CONST) return;
  touch(fn);
  bool taken = c->val;
  pushEvent(c, taken, BRANCH, fn, site);
  learn(c, taken);
}
void assumeE(Expr *c, const char *fn) {
  c = resolve(c);
  if (c->op == OP_CONST) { if (!c->imm) finishPath("assume"); return; }
  if (!c->val) { pushEvent(c, true, ASSUME_VIOL, fn, 0); finishPath("assume"); }
  pushEvent(c, true, ASSUME, fn, 0); learn(c, true);
}
static std::vector<std::string> *g_constFail;
void assertE(Expr *c, const char *msg) {
  c = resolve(c);
  st.asserts++;
  if (c->op == OP_CONST) { st.constAsserts++; if (!c->imm) g_constFail->push_back(msg); return; }
  if (!c->val) { g_constFail->push_back(msg); pushEvent(c, false, ASSERT_BAD, "assert", 0, 0, msg); learn(c, false); return; }
  pushEvent(c, true, ASSERT, "assert", 0, 0, msg); learn(c, true);
}
void concretizeE(Expr *e, u64 val, const char *fn, unsigned site) {
  e = resolve(e); if (!e || e->op == OP_CONST) return;
  if (e->val != (val & mask(e->w))) { (st.stale++, staleAt(__LINE__)); return; }
  if (e->w == 1) { branchOn(e, fn, site); return; }
  touch(fn);
  Expr *q = mk(OP_EQ, 1, e, mkConst(e->val, e->w)); q = resolve(q);
  st.concretized++;
  if (q->op == OP_CONST) { return; }
  // ITE over constants with two leaves is just a branch
  if (e->op == OP_ITE && e->leaves == 2) { branchOn(e->a, fn, site); return; }
  pushEvent(q, true, CONC, fn, site, e->val);
  g_ev.back().ce = e;
  learn(q, true);
}

// ------------------------------------------------------------ hooks called by instrumented code
static Expr *g_args[64], *g_rets[8]; static int g_nset;
static const char *g_wfn = "?"; static unsigned g_wsite;
extern "C" {
void __symr_setarg(int k, Expr *e) { if (!g_on || k >= 64) return; if (e) { if (!g_args[k]) g_nset++; } else if (g_args[k]) g_nset--; g_args[k] = e; }
static void clrargs() { if (g_nset) { memset(g_args, 0, sizeof g_args); g_nset = 0; } }
void __symr_clrargs() { clrargs(); }
static uintptr_t g_byval[64];
void __symr_setbyval(int k, void *src) { if (g_on && k < 64) g_byval[k] = (uintptr_t)src; }
void __symr_getbyval(int k, void *dst, u64 size) {
  if (!g_on || k >= 64) return;
  uintptr_t s = g_byval[k]; g_byval[k] = 0;
  if (s && !memcmp((void *)s, dst, size)) shCopy((uintptr_t)dst, s, size); else shClear((uintptr_t)dst, size);
}
Expr *__symr_getarg(int k, u64 val) {
  if (!g_nset || k >= 64) return nullptr;
  Expr *e = g_args[k]; if (!e) return nullptr;
  g_args[k] = nullptr; g_nset--;
  if (e->val != (val & mask(e->w))) { (st.stale++, staleAt(__LINE__)); return nullptr; }
  return resolve(e);
}
void __symr_setret(int k, Expr *e) { if (k < 8) g_rets[k] = e; }
void __symr_clrret() { memset(g_rets, 0, sizeof g_rets); }
Expr *__symr_getret(int k, u64 val) {
  clrargs();
  if (k >= 8) return nullptr;
  Expr *e = g_rets[k]; if (!e) return nullptr; g_rets[k] = nullptr;
  if (!g_on) return nullptr;
  if (e->val != (val & mask(e->w))) { (st.stale++, staleAt(__LINE__)); return nullptr; }
  return resolve(e);
}
void __symr_site(const char *fn, int site) { g_wfn = fn; g_wsite = site; }
static inline Expr *chk(Expr *e, u64 res, const char *what) {
  if (e->op == OP_CONST) { if (e->imm == (res & mask(e->w))) return nullptr; }
  else if (e->val == (res & mask(e->w))) return e;
  st.mismatch++;
  if (getenv("SYMR_DEBUG")) fprintf(stderr, "MISMATCH %s %s model=%lx real=%lx\n", what, opname(e->op), (long)e->val, (long)res);
  return nullptr;
}
void __symr_concretize(Expr *e, u64 val, const char *fn, int site) { if (!e || !g_on) return; concretizeE(e, val, fn, site); }
Expr *__symr_bin(int op, int w, Expr *sa, u64 a, Expr *sb, u64 b, u64 res) {
  if ((!sa && !sb) || !g_on) return nullptr;
  Expr *A = sa ? sa : mkConst(a, w), *B = sb ? sb : mkConst(b, w);
  bool cmp = op == OP_EQ || op == OP_NE || (op >= OP_ULT && op <= OP_SLE);
  st.ops++;
  if ((op == OP_SHL || op == OP_LSHR || op == OP_ASHR) && b >= (u64)w) return nullptr; // poison
  Expr *e = mk((Op)op, cmp ? 1 : w, A, B);
  if (op >= OP_FADD && op <= OP_FDIV && std::isnan(asd(e->val)) && std::isnan(asd(res)) && e->val != res) { // NaN payload
    concretizeE(A, a, "fp-nan", 0); concretizeE(B, b, "fp-nan", 0); return nullptr;
  }
  return chk(e, res, "bin");
}
Expr *__symr_un(int op, int wi, int wo, Expr *s, u64 res) {
  if (!s || !g_on) return nullptr;
  st.ops++;
  return chk(mk((Op)op, wo, s), res, "un");
}
Expr *__symr_fcmp(int pred, Expr *sa, u64 a, Expr *sb, u64 b, u64 res) {
  if ((!sa && !sb) || !g_on) return nullptr;
  st.ops++;
  Expr *A = sa ? sa : mkConst(a, 64), *B = sb ? sb : mkConst(b, 64);
  auto uno = [&]() { return mk(OP_OR, 1, mk(OP_FUNO, 1, A), mk(OP_FUNO, 1, B)); };
  Expr *e;
  switch (pred & 7) { // FCMP: 1 oeq 2 ogt 3 oge 4 olt 5 ole 6 one 7 ord ; +8 unordered variants
  case 1: e = mk(OP_FEQ, 1, A, B); break;
  case 2: e = mk(OP_FLT, 1, B, A); break;
  case 3: e = mk(OP_FLE, 1, B, A); break;
  case 4: e = mk(OP_FLT, 1, A, B); break;
  case 5: e = mk(OP_FLE, 1, A, B); break;
  case 6: e = mk(OP_OR, 1, mk(OP_FLT, 1, A, B), mk(OP_FLT, 1, B, A)); break;
  case 7: e = mkNot(uno()); break;
  default: e = mkConst(0, 1);
  }
  if (pred == 15) return nullptr;
  if (pred & 8) { // unordered or
    if (pred == 8) e = uno();
    else if (pred == 14) e = mkNot(mk(OP_FEQ, 1, A, B));
    else if (pred == 10) e = mkNot(mk(OP_FLE, 1, A, B));
    else if (pred == 11) e = mkNot(mk(OP_FLT, 1, A, B));
    else if (pred == 12) e = mkNot(mk(OP_FLE, 1, B, A));
    else if (pred == 13) e = mkNot(mk(OP_FLT, 1, B, A));
    else e = mk(OP_OR, 1, e, uno());
  }
  return chk(e, res, "fcmp");
}
Expr *__symr_select(int w, Expr *sc, u64 c, Expr *stt, u64 t, Expr *sf, u64 f) {
  if (!g_on) return nullptr;
  if (!sc) return c & 1 ? stt : sf;
  Expr *e = mkIte(sc, stt ? stt : mkConst(t, w), sf ? sf : mkConst(f, w));
  return chk(e, c & 1 ? t : f, "select");
}
Expr *__symr_minmax(int op, int isMax, int w, Expr *sa, u64 a, Expr *sb, u64 b, u64 res) {
  if ((!sa && !sb) || !g_on) return nullptr;
  Expr *A = sa ? sa : mkConst(a, w), *B = sb ? sb : mkConst(b, w);
  Expr *lt = mk((Op)op, 1, A, B);
  return chk(isMax ? mkIte(lt, B, A) : mkIte(lt, A, B), res, "minmax");
}
Expr *__symr_intr(int id, int k, int w, Expr *s0, u64 v0, Expr *s1, u64 v1, Expr *s2, u64 v2) {
  if (!g_on || (!s0 && !s1 && !s2)) return nullptr;
  Expr *A = s0 ? s0 : mkConst(v0, w), *B = s1 ? s1 : mkConst(v1, w), *C = s2 ? s2 : mkConst(v2, w);
  Expr *e = nullptr;
  switch (id) {
  case 0: e = mkIte(mk(OP_SLT, 1, A, mkConst(0, w)), mk(OP_SUB, w, mkConst(0, w), A), A); break;
  case 1: case 2: {
    if (C->op != OP_CONST) { concretizeE(C, v2, "fsh", 0); C = mkConst(v2, w); }
    unsigned sft = C->imm % w;
    if (!sft) { e = id == 1 ? A : B; break; }
    if (id == 1) e = mk(OP_OR, w, mk(OP_SHL, w, A, mkConst(sft, w)), mk(OP_LSHR, w, B, mkConst(w - sft, w)));
    else e = mk(OP_OR, w, mk(OP_SHL, w, A, mkConst(w - sft, w)), mk(OP_LSHR, w, B, mkConst(sft, w)));
    break;
  }
  case 3: { Expr *r = nullptr; for (int i = 0; i < w / 8; i++) { Expr *b = mkExtract(A, i * 8, 8); r = r ? mk(OP_CONCAT, r->w + 8, r, b) : b; } e = r; break; }
  case 4: e = mkIte(mk(OP_ULT, 1, A, B), mkConst(0, w), mk(OP_SUB, w, A, B)); break;
  case 5: { Expr *s = mk(OP_ADD, w, A, B); e = mkIte(mk(OP_ULT, 1, s, A), mkConst(mask(w), w), s); break; }
  default: {
    Op op = id == 10 || id == 13 ? OP_ADD : id == 11 || id == 14 ? OP_SUB : OP_MUL;
    if (k == 0) { e = mk(op, w, A, B); break; }
    bool sg = id <= 12;
    if (op != OP_MUL) { // widen by one bit (w <= 63) or sign logic
      Expr *r = mk(op, w, A, B);
      if (!sg) e = op == OP_ADD ? mk(OP_ULT, 1, r, A) : mk(OP_ULT, 1, A, B);
      else {
        Expr *z = mkConst(0, w), *na = mk(OP_SLT, 1, A, z), *nb = mk(OP_SLT, 1, B, z), *nr = mk(OP_SLT, 1, r, z);
        Expr *dAR = mk(OP_XOR, 1, na, nr);
        Expr *dAB = mk(OP_XOR, 1, na, nb);
        e = op == OP_ADD ? mk(OP_AND, 1, mkNot(dAB), dAR) : mk(OP_AND, 1, dAB, dAR);
      }
    } else if (w <= 32) {
      Expr *p = mk(OP_MUL, 64, sg ? mkSext(A, 64) : mkZext(A, 64), sg ? mkSext(B, 64) : mkZext(B, 64));
      e = mkNot(mk(OP_EQ, 1, p, sg ? mkSext(mkExtract(p, 0, w), 64) : mkZext(mkExtract(p, 0, w), 64)));
    } else {
      // overflow iff a != 0 && r / a != b (unsigned) ; signed adds the INT_MIN * -1 case
      Expr *z = mkConst(0, w), *r = mk(OP_MUL, w, A, B);
      Expr *nz = mkNot(mk(OP_EQ, 1, A, z));
      Expr *q = mkNot(mk(OP_EQ, 1, mk(sg ? OP_SDIV : OP_UDIV, w, r, A), B));
      if (sg) q = mk(OP_OR, 1, q, mk(OP_AND, 1, mk(OP_EQ, 1, A, mkConst(~0ull, w)), mk(OP_EQ, 1, B, mkConst(1ull << (w - 1), w))));
      e = mk(OP_AND, 1, nz, q);
    }
  }
  }
  e = resolve(e);
  return e->op == OP_CONST ? nullptr : e;
}

static const size_t MAXCELLS = 8192;
// symbolic address: returns false if it had to be concretised
static bool symAddr(uintptr_t p, Expr *sa, unsigned size, uintptr_t &base, size_t &n, Expr *&off, const char *fn, unsigned site) {
  size_t len;
  if (!findRegion(p, base, len) || p + size > base + len || len / size > MAXCELLS) return false;
  off = mk(OP_SUB, 64, sa, mkConst(base, 64));
  if ((p - base) % size) return false;
  if ((1u << std::min<unsigned>(off->tz, 6)) < size) return false;
  n = len / size;
  branchOn(mk(OP_ULE, 1, off, mkConst(n * size - size, 64)), fn, site);
  off = resolve(off);
  return off->op != OP_CONST;
}
static Expr *cell(uintptr_t a, unsigned size) { Expr *e = shGet(a, size); u64 v = rdmem(a, size); if (e && e->op != OP_CONST && e->val == v) return e; return mkConst(v, size * 8); }

Expr *__symr_load(uintptr_t p, Expr *sa, u64 size, u64 val, const char *fn, int site) {
  if (!g_on) return nullptr;
  if (sa) {
    sa = resolve(sa);
    if (sa->op != OP_CONST) {
      uintptr_t base; size_t n; Expr *off;
      touch(fn);
      if (sa->val != p) { (st.stale++, staleAt(__LINE__)); }
      else if (symAddr(p, sa, size, base, n, off, fn, site)) {
        size_t lo = 0, hi = n - 1;
        if (off->lo <= off->hi) { lo = std::max<size_t>(lo, off->lo / size); hi = std::min<size_t>(hi, off->hi / size); }
        // most common value is the default
        std::unordered_map<Expr *, int> cnt; Expr *def = nullptr; int best = 0;
        std::vector<Expr *> cs;
        for (size_t j = lo; j <= hi; j++) { Expr *c = cell(base + j * size, size); cs.push_back(c); int k = ++cnt[c]; if (k > best) { best = k; def = c; } }
        Expr *e = def;
        std::map<uint32_t, std::pair<Expr *, Expr *>> groups; // by id: cond, value
        for (size_t j = lo; j <= hi; j++) {
          Expr *c = cs[j - lo]; if (c == def) continue;
          Expr *q = mk(OP_EQ, 1, off, mkConst(j * size, 64));
          if (q->op == OP_CONST && !q->imm) continue;
          auto &g = groups[c->id];
          g.first = g.first ? mk(OP_OR, 1, g.first, q) : q; g.second = c;
        }
        for (auto &g : groups) e = mkIte(g.second.first, g.second.second, e);
        st.symloads++;
        e = resolve(e);
        return chk(e, val, "symload");
      } else concretizeE(sa, p, fn, site);
    }
  }
  Expr *e = shGet(p, size);
  if (!e) return nullptr;
  if (e->val != (val & mask(e->w))) { if (e->op != OP_CONST) (st.stale++, staleAt(__LINE__), getenv("SYMR_DEBUG") ? fprintf(stderr, "STALE load p=%lx size=%lu sh=%lx mem=%lx op=%s w=%d fn %s:%d\n", p, size, e->val, val, opname(e->op), e->w, fn, site) : 0); shClear(p, size); return nullptr; }
  if (e->op == OP_CONST) return nullptr;
  return e;
}
void __symr_store(uintptr_t p, Expr *sa, u64 size, Expr *sv, u64 val, const char *fn, int site) {
  if (!g_on) return;
  if (sv) { sv = resolve(sv); if (sv->op == OP_CONST) sv = nullptr; else if (sv->val != (val & mask(sv->w))) { (st.stale++, staleAt(__LINE__)); sv = nullptr; } }
  if (sa) {
    sa = resolve(sa);
    if (sa->op != OP_CONST) {
      uintptr_t base; size_t n; Expr *off;
      touch(fn);
      if (sa->val != p) (st.stale++, staleAt(__LINE__));
      else if (symAddr(p, sa, size, base, n, off, fn, site)) {
        size_t lo = 0, hi = n - 1;
        if (off->lo <= off->hi) { lo = std::max<size_t>(lo, off->lo / size); hi = std::min<size_t>(hi, off->hi / size); }
        Expr *V = sv ? sv : mkConst(val, size * 8);
        for (size_t j = lo; j <= hi; j++) {
          Expr *q = resolve(mk(OP_EQ, 1, off, mkConst(j * size, 64)));
          if (q->op == OP_CONST && !q->imm) continue;
          Expr *e = mkIte(q, V, cell(base + j * size, size));
          e = resolve(e);
          shPut(base + j * size, e->op == OP_CONST ? nullptr : e, size);
        }
        st.symstores++;
        return;
      } else concretizeE(sa, p, fn, site);
    }
  }
  if (sv) shPut(p, sv, size);
  else { Page *a = page(p), *b = page(p + size - 1); if (a || b) shClear(p, size); }
}
void __symr_branch(Expr *s, u64 cond, const char *fn, int site) {
  if (!s || !g_on) return;
  if (s->val != (cond & 1)) { (st.stale++, staleAt(__LINE__)); return; }
  branchOn(s, fn, site);
}
void __symr_switch(Expr *s, u64 val, int n, u64 *cases, const char *fn, int site) {
  if (!s || !g_on) return;
  s = resolve(s); if (s->op == OP_CONST) return;
  if (s->val != (val & mask(s->w))) { (st.stale++, staleAt(__LINE__)); return; }
  for (int i = 0; i < n; i++) {
    Expr *q = mk(OP_EQ, 1, s, mkConst(cases[i], s->w));
    branchOn(q, fn, site * 1000 + i);
    if (s->val == (cases[i] & mask(s->w))) return;
  }
}
static struct { void *d, *s; size_t n; } g_skip;
void __symr_memcpy(void *d, void *s, size_t n) { if (!g_on) return; shCopy((uintptr_t)d, (uintptr_t)s, n); g_skip = {d, s, n}; }
void __symr_memset(void *d, Expr *sv, u64 val, size_t n) {
  if (!g_on) return;
  if (sv) { sv = resolve(sv); if (sv->op == OP_CONST) sv = nullptr; }
  if (!sv) { shClear((uintptr_t)d, n); return; }
  if (sv->w > 8) sv = mkExtract(sv, 0, 8);
  for (size_t i = 0; i < n; i++) shPut((uintptr_t)d + i, sv, 1);
}
void __symr_alloca(void *p, size_t n) { if (!g_on) return; shClear((uintptr_t)p, n); if (n > 8) region(p, n); }
void __symr_alloca_clear(void *p, size_t n) { if (!g_on) return; shClear((uintptr_t)p, n); }

// libR's own copies
typedef void *(*cpy_t)(void *, const void *, size_t);
static cpy_t rMemcpy, rMemmove;
__attribute__((constructor)) static void initCpy() { rMemcpy = (cpy_t)dlsym(RTLD_NEXT, "memcpy"); rMemmove = (cpy_t)dlsym(RTLD_NEXT, "memmove"); unsetenv("LD_PRELOAD"); }
static inline void *slowcpy(void *d, const void *s, size_t n) { void *r = d; asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n)::"memory"); return r; }
static bool g_busy;
__attribute__((visibility("default"))) void *memcpy(void *__restrict d, const void *__restrict s, size_t n) {
  if (g_on && !g_busy) {
    if (g_skip.d == d && g_skip.s == s && g_skip.n == n) g_skip.d = nullptr;
    else { g_busy = true; shCopy((uintptr_t)d, (uintptr_t)s, n); g_busy = false; }
  }
  return rMemcpy ? rMemcpy(d, s, n) : slowcpy(d, s, n);
}
__attribute__((visibility("default"))) void *memmove(void *d, const void *s, size_t n) {
  if (g_on && !g_busy) {
    if (g_skip.d == d && g_skip.s == s && g_skip.n == n) g_skip.d = nullptr;
    else { g_busy = true; shCopy((uintptr_t)d, (uintptr_t)s, n); g_busy = false; }
  }
  if (rMemmove) return rMemmove(d, s, n);
  char *dd = (char *)d; const char *ss = (const char *)s;
  if (dd < ss) for (size_t i = 0; i < n; i++) { dd[i] = ss[i]; asm volatile("" ::: "memory"); }
  else while (n--) { dd[n] = ss[n]; asm volatile("" ::: "memory"); }
  return d;
}
} // extern C

Expr *argShadow(int k, u64 v) { return __symr_getarg(k, v); }
void argConc(int k, u64 v) { Expr *e = __symr_getarg(k, v); if (e) concretizeE(e, v, g_wfn, g_wsite); }
void setRet(Expr *e) { g_rets[0] = e; }
static void staleAt(int line) { if (getenv("SYMR_DEBUG")) fprintf(stderr, "STALE line %d near %s:%u last event %s:%u\n", line, g_wfn, g_wsite, g_ev.empty() ? "-" : g_ev.back().fn, g_ev.empty() ? 0 : g_ev.back().site); }
const char *wfn() { return g_wfn; } unsigned wsite() { return g_wsite; }

// ------------------------------------------------------------ variables
bool g_warmRandom = false; u64 g_warmLimit = 0;
// the values of the current warm-up run, in a file that survives a crash: its name (200 bytes), count, values
static char *g_warmLog = nullptr;
void warmLog(const char *harness) {
  if (!g_warmLog) {
    const char *p = getenv("SYMR_WARMLOG"); if (!p) return;
    int fd = open(p, O_RDWR | O_CREAT | O_TRUNC, 0644); if (fd < 0 || ftruncate(fd, 208 + 8 * 4096)) return;
    void *m = mmap(nullptr, 208 + 8 * 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); close(fd); if (m == MAP_FAILED) return;
    g_warmLog = (char *)m;
  }
  strncpy(g_warmLog, harness, 199); *(u64 *)(g_warmLog + 200) = 0;
}
static u64 warmVal(unsigned w, const char *name, u64 def) {
  u64 lim = g_warmLimit; g_warmLimit = 0;
  if (!g_warmRandom) return def;
  static u64 s = 0x9e3779b97f4a7c15ull; s ^= s << 13; s ^= s >> 7; s ^= s << 17; u64 r = s >> 11;
  if (lim) return r % lim;
  if (w < 32) return r;
  int small[] = {0, 1, 2, 3, 4, -1, -2, -3, (int)0x80000000};
  if (w == 64 && !strcmp(name, "dbl")) { double d[] = {0, 1, 2, 3, -1, 0.5, 2.5, NAN}; u64 u; memcpy(&u, &d[r % 8], 8); return u; }
  return (u64)(int64_t)small[r % 9];
}
Expr *newVar(unsigned w, u64 def, const char *name) {
  unsigned i = g_vars.size();
  u64 v = i < g_item.vals.size() ? g_item.vals[i] : def;
  if (!g_on) v = warmVal(w, name, v); // warm-up runs
  v &= mask(w);
  if (!g_on && g_warmLog) { u64 &k = *(u64 *)(g_warmLog + 200); if (k < 4096) ((u64 *)(g_warmLog + 208))[k++] = v; }
  g_vars.push_back(Var{(uint8_t)w, v, name});
  if (g_shared && i < 4096) { g_shared->vals[i] = v; g_shared->nvars = i + 1; }
  if (!g_on) return nullptr;
  return mkVar(i, w, v);
}
u64 lastVarVal() { return g_vars.back().val; }

// ------------------------------------------------------------ serialisation
struct Out { std::string s; void u(u64 v) { s.append((char *)&v, 8); } void str(const std::string &t) { u(t.size()); s += t; } };
struct In { const char *p, *e; u64 u() { u64 v = 0; if (p + 8 <= e) { memcpy(&v, p, 8); } p += 8; return v; } std::string str() { u64 n = u(); std::string t(p, n); p += n; return t; } };

// ------------------------------------------------------------ solving at path end
struct Fail { std::string msg; std::vector<u64> vals; };
struct NewItem { std::vector<u64> vals; u64 bound, hash; std::vector<u64> excl; u64 key; };
static std::vector<Fail> *g_fails;
static std::vector<NewItem> *g_new;
static double now() { struct timeval t; gettimeofday(&t, nullptr); return t.tv_sec + t.tv_usec * 1e-6; }
static unsigned g_rlimit = 200000, g_rlimit2 = 30000000;
static unsigned g_concMax = 300;

static std::vector<u64> modelVals(Z3_model m, unsigned nv) {
  std::vector<u64> v;
  for (unsigned i = 0; i < nv; i++) {
    u64 x = g_vars[i].val;
    Z3_func_decl d = Z3_mk_func_decl(zc, Z3_mk_int_symbol(zc, i), 0, nullptr, Z3_mk_bv_sort(zc, g_vars[i].w));
    Z3_inc_ref(zc, (Z3_ast)d);
    Z3_ast a = Z3_model_get_const_interp(zc, m, d);
    if (a) { uint64_t y; if (Z3_get_numeral_uint64(zc, a, &y)) x = y; }
    v.push_back(x);
  }
  return v;
}
static Z3_solver g_solver;
// a model is used only when it satisfies every assertion
static bool valid(Z3_model m) {
  Z3_ast_vector av = Z3_solver_get_assertions(zc, g_solver); Z3_ast_vector_inc_ref(zc, av); bool ok = true;
  for (unsigned i = 0; ok && i < Z3_ast_vector_size(zc, av); i++) { Z3_ast v; ok = !Z3_model_eval(zc, m, Z3_ast_vector_get(zc, av, i), true, &v) || Z3_get_bool_value(zc, v) != Z3_L_FALSE; }
  Z3_ast_vector_dec_ref(zc, av); return ok;
}
static int check(Z3_model *m, bool unknownOk = false) {
  double t = now();
  Z3_lbool r = Z3_solver_check(zc, g_solver);
  st.solverTime += now() - t; st.queries++;
  if (r == Z3_L_TRUE) { *m = Z3_solver_get_model(zc, g_solver); Z3_model_inc_ref(zc, *m); if (valid(*m)) { st.sat++; return 1; } Z3_model_dec_ref(zc, *m); st.badModels++; r = Z3_L_UNDEF; unknownOk = false; }
  if (r == Z3_L_FALSE) { st.unsat++; return 0; }
  if (unknownOk) { st.queries--; return -1; }
  // second stage: eager bit-blasting of the whole query
  t = now();
  Z3_tactic tac = nullptr; const char *ts[] = {"simplify", "propagate-values", "solve-eqs", "elim-uncnstr", "fpa2bv", "simplify", "propagate-values", "ackermannize_bv", "bit-blast", "simplify", "solve-eqs", "aig", "sat"};
  for (auto *n : ts) { Z3_tactic x = Z3_mk_tactic(zc, n); Z3_tactic_inc_ref(zc, x); if (tac) { Z3_tactic y = Z3_tactic_and_then(zc, tac, x); Z3_tactic_inc_ref(zc, y); tac = y; } else tac = x; }
  Z3_solver s2 = Z3_mk_solver_from_tactic(zc, tac); Z3_solver_inc_ref(zc, s2);
  Z3_params ps = Z3_mk_params(zc); Z3_params_inc_ref(zc, ps);
  Z3_params_set_uint(zc, ps, Z3_mk_string_symbol(zc, "rlimit"), g_rlimit2);
  Z3_solver_set_params(zc, s2, ps);
  Z3_ast_vector v = Z3_solver_get_assertions(zc, g_solver); Z3_ast_vector_inc_ref(zc, v);
  for (unsigned i = 0; i < Z3_ast_vector_size(zc, v); i++) Z3_solver_assert(zc, s2, Z3_ast_vector_get(zc, v, i));
  r = Z3_solver_check(zc, s2);
  if (getenv("SYMR_DEBUG")) fprintf(stderr, "SLOW first stage unknown, second %d in %.1fs\n", r, now() - t);
  st.solverTime += now() - t;
  if (r == Z3_L_TRUE) { *m = Z3_solver_get_model(zc, s2); Z3_model_inc_ref(zc, *m); if (valid(*m)) { st.sat++; return 1; } Z3_model_dec_ref(zc, *m); st.badModels++; r = Z3_L_UNDEF; }
  if (r == Z3_L_FALSE) { st.unsat++; return 0; }
  st.unknown++;
  if (const char *d = getenv("SYMR_DUMP")) { char f[256]; snprintf(f, 256, "%s/q%d-%lu.smt2", d, getpid(), st.unknown); if (FILE *o = fopen(f, "w")) { fprintf(o, "%s(check-sat)\n", Z3_solver_to_string(zc, g_solver)); fclose(o); } }
  return -1;
}
static void zerr(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); _exit(97); }

static void initZ3() { // once per worker, before its children are forked
  Z3_config cfg = Z3_mk_config();
  zc = Z3_mk_context(cfg);
  Z3_set_error_handler(zc, zerr);
  for (const char *l : {"QF_BV", "QF_FPBV"}) {
    Z3_solver s = Z3_mk_solver_for_logic(zc, Z3_mk_string_symbol(zc, l)); Z3_solver_inc_ref(zc, s);
    Z3_ast x = Z3_mk_const(zc, Z3_mk_string_symbol(zc, "warm"), Z3_mk_bv_sort(zc, 32));
    Z3_solver_assert(zc, s, Z3_mk_bvult(zc, x, Z3_mk_unsigned_int64(zc, 5, Z3_mk_bv_sort(zc, 32))));
    Z3_solver_push(zc, s); Z3_solver_check(zc, s); Z3_solver_pop(zc, s, 1); Z3_solver_dec_ref(zc, s);
  }
}
static void solvePath() {
  for (auto &e : g_ev) toZ3(e.e);
  for (auto &e : g_ev) if (e.kind == CONC) toZ3(e.ce);
  if (usesFP) { g_solver = Z3_mk_solver_for_logic(zc, Z3_mk_string_symbol(zc, "QF_FPBV")); st.fpPaths++; }
  else g_solver = Z3_mk_solver_for_logic(zc, Z3_mk_string_symbol(zc, "QF_BV"));
  Z3_solver_inc_ref(zc, g_solver);
  Z3_params ps = Z3_mk_params(zc); Z3_params_inc_ref(zc, ps);
  Z3_params_set_uint(zc, ps, Z3_mk_string_symbol(zc, "rlimit"), g_rlimit);
  Z3_params_set_uint(zc, ps, Z3_mk_string_symbol(zc, "random_seed"), (unsigned)g_seed);
  Z3_solver_set_params(zc, g_solver, ps);
  if (getenv("SYMR_HIST")) { std::map<int,int> hist; std::unordered_set<Expr *> seen; std::vector<Expr *> stk; for (auto &e : g_ev) stk.push_back(e.e);
    while (!stk.empty()) { Expr *e = stk.back(); stk.pop_back(); if (!e || !seen.insert(e).second) continue; hist[e->op]++; stk.push_back(e->a); stk.push_back(e->b); stk.push_back(e->c); }
    for (auto &h : hist) fprintf(stderr, "%s=%d ", opname(h.first), h.second); fprintf(stderr, "\n"); }
  auto lit = [&](Event &e, bool pos) { Z3_ast a = e.e->ast; return pos ? a : Z3_mk_not(zc, a); };
  size_t n = g_ev.size();
  u64 key = 0; // the choices made so far: the queue spreads its work over their combinations
  auto isChoice = [](Event &e) { return (e.kind == BRANCH || e.kind == CONC) && !strcmp(e.fn, "choice"); };
  auto mix = [](u64 k, u64 v) { k ^= v + 0x9e3779b97f4a7c15ull; k *= 0xff51afd7ed558ccdull; return k ^ k >> 29; };
  for (size_t i = 0; i < n; i++) {
    Event &e = g_ev[i];
    bool active = i >= g_item.bound;
    if (active) switch (e.kind) {
    case BRANCH: {
      if (i < g_item.bound) break;
      Z3_solver_push(zc, g_solver); Z3_solver_assert(zc, g_solver, lit(e, !e.taken));
      Z3_model m; int r = check(&m);
      if (r == 1) { u64 h = e.hash; // prefix hash incl. the flipped branch is only known after; use hash before it
        NewItem it; it.vals = modelVals(m, e.nvars); it.bound = i + 1; it.hash = 0; (void)h;
        // hash of prefix including flipped event
        u64 hh = e.hash; hh ^= (u64)e.fn * 0x9e3779b97f4a7c15ull + e.site * 31 + e.kind * 7 + polarity(e.e, !e.taken); hh *= 0xff51afd7ed558ccdull; hh ^= hh >> 29; it.hash = hh; it.key = isChoice(e) ? mix(key, !e.taken) : key;
        g_new->push_back(it); Z3_model_dec_ref(zc, m); }
      Z3_solver_pop(zc, g_solver, 1);
      break;
    }
    case CONC: {
      Z3_solver_push(zc, g_solver);
      Z3_solver_assert(zc, g_solver, lit(e, false));
      std::vector<u64> excl;
      if (i == g_item.bound) excl = g_item.excl;
      for (u64 x : excl) { Z3_ast c = e.ce->w == 1 ? (x ? Z3_mk_true(zc) : Z3_mk_false(zc)) : Z3_mk_unsigned_int64(zc, x, Z3_mk_bv_sort(zc, e.ce->w)); Z3_solver_assert(zc, g_solver, Z3_mk_not(zc, Z3_mk_eq(zc, e.ce->ast, c))); }
      if (excl.size() >= g_concMax) { st.concTrunc++; Z3_solver_pop(zc, g_solver, 1); break; }
      if (isChoice(e)) { // every other value at once
        for (unsigned k = 0; k < g_concMax; k++) {
          Z3_model m; if (check(&m) != 1) break;
          NewItem it; it.vals = modelVals(m, e.nvars); Z3_ast v; uint64_t x = 0; if (!Z3_model_eval(zc, m, e.ce->ast, true, &v) || !Z3_get_numeral_uint64(zc, v, &x)) { Z3_model_dec_ref(zc, m); break; }
          Z3_solver_assert(zc, g_solver, Z3_mk_not(zc, Z3_mk_eq(zc, e.ce->ast, Z3_mk_unsigned_int64(zc, x, Z3_mk_bv_sort(zc, e.ce->w)))));
          u64 hh = e.hash; hh ^= (u64)e.fn * 0x9e3779b97f4a7c15ull + e.site * 31 + e.kind * 7; hh *= 0xff51afd7ed558ccdull; hh ^= hh >> 29;
          it.bound = i + 1; it.hash = hh; it.key = mix(key, x); g_new->push_back(it); Z3_model_dec_ref(zc, m);
        }
        Z3_solver_pop(zc, g_solver, 1); break;
      }
      Z3_model m; int r = check(&m);
      if (r == 1) { excl.push_back(e.val); NewItem it; it.vals = modelVals(m, e.nvars); it.bound = i; it.hash = e.hash; it.excl = excl; it.key = key; g_new->push_back(it); Z3_model_dec_ref(zc, m); }
      Z3_solver_pop(zc, g_solver, 1);
      break;
    }
    case ASSUME_VIOL: {
      Z3_solver_push(zc, g_solver); Z3_solver_assert(zc, g_solver, lit(e, true));
      Z3_model m; int r = check(&m);
      if (r == 1) { NewItem it; it.vals = modelVals(m, e.nvars); it.bound = g_item.bound; it.hash = g_item.hash; it.excl = g_item.excl; it.key = g_item.key; g_new->push_back(it); Z3_model_dec_ref(zc, m); }
      Z3_solver_pop(zc, g_solver, 1);
      break;
    }
    case ASSERT: {
      // group consecutive assertions
      size_t j = i; std::vector<Z3_ast> neg;
      while (j < n && g_ev[j].kind == ASSERT) neg.push_back(lit(g_ev[j++], false));
      Z3_solver_push(zc, g_solver);
      Z3_solver_assert(zc, g_solver, neg.size() == 1 ? neg[0] : Z3_mk_or(zc, neg.size(), neg.data()));
      Z3_model m; int r = check(&m, j - i > 1);
      if (r == -1 && j - i > 1) { // one by one
        r = 0;
        for (size_t k = i; k < j && r != 1; k++) {
          Z3_solver_pop(zc, g_solver, 1); Z3_solver_push(zc, g_solver); Z3_solver_assert(zc, g_solver, neg[k - i]);
          int q = check(&m); if (q == 0) st.proved++; else r = q;
        }
        if (r == 0) r = -2;
      }
      if (r == 0) st.proved += j - i;
      if (r == 1) {
        const char *msg = "?";
        for (size_t k = i; k < j; k++) { Z3_ast v; if (Z3_model_eval(zc, m, neg[k - i], true, &v) && Z3_get_bool_value(zc, v) == Z3_L_TRUE) { msg = g_ev[k].msg; break; } }
        Fail f; f.msg = msg; f.vals = modelVals(m, e.nvars); for (size_t k = f.vals.size(); k < g_vars.size(); k++) f.vals.push_back(g_vars[k].val);
        g_fails->push_back(f); Z3_model_dec_ref(zc, m);
      }
      Z3_solver_pop(zc, g_solver, 1);
      for (size_t k = i; k < j; k++) Z3_solver_assert(zc, g_solver, lit(g_ev[k], true));
      i = j - 1;
      continue;
    }
    default: break;
    }
    if (e.kind == ASSUME_VIOL) break;
    if (isChoice(e)) key = mix(key, e.kind == CONC ? e.val : e.taken);
    Z3_solver_assert(zc, g_solver, lit(e, e.taken));
  }
}

static double g_t0;
static int g_fd = -1; static void put(int fd, const std::string &s);
static void report(const char *why) {
  g_on = false;
  st.execTime += now() - g_t0;
  if (!g_inChild) { fprintf(stderr, "finishPath outside child: %s\n", why); _exit(96); }
  if (g_item.bound > g_ev.size() && !(g_ev.size() && g_ev.back().kind == ASSUME_VIOL)) { st.diverged++; if (getenv("SYMR_DEBUG")) fprintf(stderr, "DIVERGED: path ended after %zu events, bound %lu (%s)\n", g_ev.size(), g_item.bound, why); }
  for (auto &m : *g_constFail) { Fail f; f.msg = m; for (auto &v : g_vars) f.vals.push_back(v.val); g_fails->push_back(f); }
  solvePath();
  if (getenv("SYMR_TRACE")) {
    fprintf(stderr, "--- path (%s) vars:", why); for (auto &v : g_vars) fprintf(stderr, " %ld", (long)sx(v.val, v.w));
    fprintf(stderr, "\n");
    for (auto &e : g_ev) { fprintf(stderr, "   %d %s:%u taken=%d %s val=%ld %s", e.kind, e.fn, e.site, e.taken, opname(e.e->op), (long)e.val, e.msg ? e.msg : "");
      if (e.e->op == OP_TAB) { fprintf(stderr, " v%lu", (long)e.e->v1->imm); if (e.e->v2) fprintf(stderr, " v%lu", (long)e.e->v2->imm); fprintf(stderr, " ["); for (u64 x : *e.e->tab) fprintf(stderr, " %lx", (long)x); fprintf(stderr, "]"); }
      fprintf(stderr, "\n"); }
  }
  if (getenv("SYMR_DTRACE")) {
    for (auto &it : *g_new) { fprintf(stderr, "ITEM bound=%lu hash=%lx vals", it.bound, it.hash); for (u64 v : it.vals) fprintf(stderr, " %lu", v); fprintf(stderr, " FROM"); for (auto &v : g_vars) fprintf(stderr, " %lu", v.val); fprintf(stderr, "\n"); }
  }
  Out o;
  bool complete = !(g_ev.size() && g_ev.back().kind == ASSUME_VIOL);
  o.str(why);
  o.u(complete); o.s.append((char *)&st, sizeof st);
  o.u(g_ev.size());
  o.u(g_vars.size()); for (auto &v : g_vars) { o.u(v.w); o.u(v.val); }
  o.u(g_new->size());
  for (auto &it : *g_new) { o.u(it.vals.size()); for (u64 v : it.vals) o.u(v); o.u(it.bound); o.u(it.hash); o.u(it.key); o.u(it.excl.size()); for (u64 v : it.excl) o.u(v); }
  o.u(g_fails->size());
  for (auto &f : *g_fails) { o.str(f.msg); o.u(f.vals.size()); for (u64 v : f.vals) o.u(v); }
  o.u(g_fns->size()); for (auto *f : *g_fns) o.u((u64)f);
  Out h; h.u(1); h.u(0); h.str(std::string(g_shared->item, g_shared->itemlen)); h.s += o.s;
  put(g_fd, h.s); g_shared->busy = 0;
  if (g_prof) for (auto &e : g_ev) if (e.kind == BRANCH || e.kind == CONC) fprintf(g_prof, "%s:%u %d\n", e.fn, e.site, e.kind);
  if (g_prof) fflush(g_prof);
}
[[noreturn]] static void finishPath(const char *why) { report(why); _exit(0); }

void endPath(const char *why) { finishPath(why); }
void failNow(const char *msg) { g_constFail->push_back(msg); }

// ------------------------------------------------------------ exploration
struct WItem { int h; Item it; };
static void put(int fd, const std::string &s) { u64 n = s.size(); std::string t((char *)&n, 8); t += s; size_t o = 0; while (o < t.size()) { ssize_t k = write(fd, t.data() + o, t.size() - o); if (k <= 0) { if (errno == EINTR) continue; _exit(0); } o += k; } }
static bool getn(int fd, char *b, size_t n) { size_t o = 0; while (o < n) { ssize_t k = read(fd, b + o, n - o); if (k <= 0) { if (k < 0 && errno == EINTR) continue; return false; } o += k; } return true; }
static bool get(int fd, std::string &s) { u64 n; if (!getn(fd, (char *)&n, 8)) return false; s.resize(n); return getn(fd, &s[0], n); }

static std::string packItem(const WItem &w) { Out o; o.u(w.h); o.u(w.it.vals.size()); for (u64 v : w.it.vals) o.u(v); o.u(w.it.bound); o.u(w.it.hash); o.u(w.it.key); o.u(w.it.excl.size()); for (u64 v : w.it.excl) o.u(v); return o.s; }
static WItem unpackItem(const std::string &s) { In i{s.data(), s.data() + s.size()}; WItem w; w.h = i.u(); u64 n = i.u(); while (n--) w.it.vals.push_back(i.u()); w.it.bound = i.u(); w.it.hash = i.u(); w.it.key = i.u(); n = i.u(); while (n--) w.it.excl.push_back(i.u()); return w; }

static void childRun(const WItem &w, const std::function<std::string(int)> &run) {
  g_inChild = true; g_item = w.it; g_ev.clear(); g_vars.clear(); st = Stats(); g_hash = 0x1234567;
  g_fns = new std::unordered_set<const char *>(); g_constFail = new std::vector<std::string>(); g_fails = new std::vector<Fail>(); g_new = new std::vector<NewItem>();
  g_t0 = now();
  g_on = true;
  std::string err = run(w.h);
  g_on = false;
  if (!err.empty()) { g_constFail->push_back("unexpected R error: " + err); }
  report(err.empty() ? "end" : "R error");
  if (g_solver) { Z3_solver_dec_ref(zc, g_solver); g_solver = nullptr; }
  // leave no trace for the next path of this process
  delete g_fns; delete g_constFail; delete g_fails; delete g_new;
  for (Page *p : g_pages) memset(p, 0, sizeof *p);
  regs().clear(); clrargs(); memset(g_rets, 0, sizeof g_rets); g_skip = {};
  exprReset();
}
static void worker(int fd, const std::function<std::string(int)> &run, unsigned childTimeout) {
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  g_shared = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  g_fd = fd; initZ3();
  const char *ev = getenv("SYMR_BATCH"); int batch = ev ? atoi(ev) : 16;
  bool retry = false; // an item whose process crashed is tried once more, alone, before the crash counts
  for (;;) {
    g_shared->busy = 0; g_shared->nvars = 0;
    pid_t pid = fork();
    if (pid == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      if (getenv("SYMR_DEBUG")) { static char alt[1 << 16]; stack_t ss = {}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr); struct sigaction sa = {}; sa.sa_flags = SA_ONSTACK; sa.sa_handler = [](int s) { void *b[64]; int n = backtrace(b, 64); backtrace_symbols_fd(b, n, 2); signal(s, SIG_DFL); raise(s); }; for (int sg : {SIGSEGV, SIGABRT, SIGBUS}) sigaction(sg, &sa, nullptr); }
      else for (int sg : {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT, SIGALRM, SIGINT, SIGUSR1, SIGUSR2}) signal(sg, SIG_DFL);
      for (int k = 0; k < batch; k++) {
        std::string s; if (retry) { s.assign(g_shared->item, g_shared->itemlen); retry = false; k = batch; g_seed += 1000; } else if (!get(fd, s)) _exit(77);
        if (s.size() > sizeof g_shared->item) { fprintf(stderr, "item too large\n"); _exit(95); }
        memcpy(g_shared->item, s.data(), s.size()); g_shared->itemlen = s.size(); g_shared->nvars = 0; g_shared->busy = 1;
        struct itimerval tv = {}; tv.it_value.tv_sec = childTimeout; setitimer(ITIMER_REAL, &tv, nullptr);
        childRun(unpackItem(s), run);
      }
      _exit(0);
    }
    int status; while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
    if (WIFEXITED(status) && WEXITSTATUS(status) == 77) _exit(0);
    if (!g_shared->busy) { retry = false; continue; }
    if (!retry && WIFSIGNALED(status) && WTERMSIG(status) != SIGALRM && WTERMSIG(status) != SIGKILL) { retry = true; continue; }
    retry = false;
    Out o;
    o.u(0); o.u(status); o.str(std::string(g_shared->item, g_shared->itemlen));
    o.u(g_shared->nvars); for (u64 i = 0; i < g_shared->nvars && i < 4096; i++) o.u(g_shared->vals[i]);
    put(fd, o.s);
  }
}

static std::string jstr(const std::string &s) { std::string r = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }

// open items of a harness, grouped by the choices made
struct Queue {
  struct G { std::vector<WItem> v; u64 runs = 0; bool listed = false; };
  std::unordered_map<u64, G> g; std::vector<u64> keys; size_t n = 0;
  bool empty() { return !n; } size_t size() { return n; }
  void push(const WItem &w) { G &x = g[w.it.key]; x.v.push_back(w); if (!x.listed) { x.listed = true; keys.push_back(w.it.key); } n++; }
  template <class R> WItem pop(R rnd) {
    size_t a = rnd() % keys.size(), b = rnd() % keys.size(), c = rnd() % keys.size(); // the group run least of three
    if (g[keys[b]].runs < g[keys[a]].runs) a = b;
    if (g[keys[c]].runs < g[keys[a]].runs) a = c;
    G &x = g[keys[a]]; auto &Q = x.v; size_t k = (rnd() & 3) ? rnd() % Q.size() : Q.size() - 1; std::swap(Q[k], Q.back());
    WItem w = Q.back(); Q.pop_back(); x.runs++; n--;
    if (Q.empty()) { x.listed = false; keys[a] = keys.back(); keys.pop_back(); }
    return w;
  }
};

void explore(const Config &C, const std::function<std::string(int)> &run) {
  g_seed = C.seed;
  if (const char *p = getenv("SYMR_PROF")) g_prof = fopen(p, "a");
  int nh = C.names.size();
  std::vector<HStat> hs(nh);
  std::vector<Queue> q(nh);
  for (int h = 0; h < nh; h++) q[h].push(WItem{h, Item()});
  std::vector<int> fd(C.workers), busy(C.workers, -1); std::vector<double> bstart(C.workers, 0); std::vector<pid_t> pids(C.workers);
  fflush(stdout); fflush(stderr);
  for (int i = 0; i < C.workers; i++) {
    int sp[2]; if (socketpair(AF_UNIX, SOCK_STREAM, 0, sp)) abort();
    pid_t p = fork();
    if (p == 0) { close(sp[0]); for (int j = 0; j < i; j++) close(fd[j]); worker(sp[1], run, C.childTimeout); _exit(0); }
    close(sp[1]); fd[i] = sp[0]; pids[i] = p;
  }
  double t0 = now(); u64 rng = C.seed * 0x9e3779b97f4a7c15ull + 1;
  auto rnd = [&]() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; };
  std::unordered_set<u64> fns; int rr = 0; bool stop = false;
  std::vector<double> hbusy(nh, 0);
  for (;;) {
    double el = now() - t0;
    bool over = el > C.budget;
    if (!over && !stop) for (int i = 0; i < C.workers; i++) if (busy[i] < 0) {
      // pick the harness with work that has used least time (weighted)
      int best = -1; for (int k = 0; k < nh; k++) { int h = (rr + k) % nh; if (q[h].empty() || hs[h].fails.size() >= (size_t)C.maxFails) continue; if (best < 0 || hbusy[h] / C.weight[h] < hbusy[best] / C.weight[best]) best = h; }
      if (best < 0) break;
      rr = (best + 1) % nh;
      WItem w = q[best].pop(rnd);
      put(fd[i], packItem(w)); busy[i] = best; bstart[i] = now(); hbusy[best] += 1e-4;
    }
    bool any = false; for (int b : busy) if (b >= 0) any = true;
    if (!any) break;
    if (over && el > C.budget + C.grace) break;
    std::vector<struct pollfd> pf; std::vector<int> ix;
    for (int i = 0; i < C.workers; i++) if (busy[i] >= 0) { pf.push_back({fd[i], POLLIN, 0}); ix.push_back(i); }
    poll(pf.data(), pf.size(), 200);
    for (size_t k = 0; k < pf.size(); k++) if (pf[k].revents) {
      int i = ix[k], h = busy[i]; std::string s;
      if (!get(fd[i], s)) { fprintf(stderr, "worker %d died\n", i); hs[h].internal++; busy[i] = -2; close(fd[i]); continue; }
      busy[i] = -1; hbusy[h] += now() - bstart[i];
      HStat &H = hs[h];
      In in{s.data(), s.data() + s.size()};
      bool ok = in.u(); int status = in.u(); std::string si = in.str();
      if (!ok) {
        std::vector<u64> v; u64 n = in.u(); while (n--) v.push_back(in.u());
        char b[128];
        if (WIFSIGNALED(status) && WTERMSIG(status) == SIGALRM) { H.timeouts++; }
        else if (WIFSIGNALED(status) && WTERMSIG(status) == SIGKILL) { H.killed++; }
        else if (WIFEXITED(status)) { H.internal++; fprintf(stderr, "child exit %d in %s\n", WEXITSTATUS(status), C.names[h].c_str()); }
        else { snprintf(b, sizeof b, "crash: signal %d", WTERMSIG(status)); H.crashes++; H.fails.push_back({b, v}); }
        continue;
      }
      std::string why = in.str();
      H.ends[why]++;
      bool complete = in.u(); Stats S; memcpy((void *)&S, in.p, sizeof S); in.p += sizeof S;
      H.s.add(S); if (complete) H.paths++; else H.assumeRetries++;
      u64 nev = in.u(); H.events += nev; H.maxEvents = std::max(H.maxEvents, nev);
      u64 nv = in.u(); std::vector<std::pair<int, u64>> vv; while (nv--) { int w = in.u(); u64 x = in.u(); vv.push_back({w, x}); }
      if (complete && (H.samples.size() < 6 || (rnd() % 50 == 0 && H.samples.size() < 40))) H.samples.push_back(vv);
      u64 nn = in.u();
      while (nn--) { WItem w; w.h = h; u64 n = in.u(); while (n--) w.it.vals.push_back(in.u()); w.it.bound = in.u(); w.it.hash = in.u(); w.it.key = in.u(); n = in.u(); while (n--) w.it.excl.push_back(in.u()); q[h].push(w); }
      u64 nf = in.u();
      while (nf--) { Fail f; f.msg = in.str(); u64 n = in.u(); while (n--) f.vals.push_back(in.u()); H.fails.push_back({f.msg, f.vals}); }
      u64 nfn = in.u(); while (nfn--) fns.insert(in.u());
    }
    if (C.stopOnFail) for (auto &H : hs) if (!H.fails.empty()) stop = true;
  }
  for (int i = 0; i < C.workers; i++) { close(fd[i]); kill(pids[i], SIGKILL); }
  for (int i = 0; i < C.workers; i++) { int s; waitpid(pids[i], &s, 0); }
  for (int i = 0; i < C.workers; i++) if (busy[i] >= 0) hs[busy[i]].unfinished++;
  FILE *f = fopen(C.out.c_str(), "w");
  fprintf(f, "{\"wall\":%.2f,\"functions\":[", now() - t0);
  bool first = true; for (u64 p : fns) { fprintf(f, "%s%s", first ? "" : ",", jstr((const char *)p).c_str()); first = false; }
  fprintf(f, "],\"harnesses\":[");
  for (int h = 0; h < nh; h++) {
    HStat &H = hs[h]; Stats &S = H.s;
    fprintf(f, "%s\n{\"name\":%s,\"paths\":%lu,\"assume_retries\":%lu,\"events\":%lu,\"max_events\":%lu,\"queries\":%lu,\"sat\":%lu,\"unsat\":%lu,\"unknown\":%lu,\"solver_s\":%.3f,\"exec_s\":%.3f,\"asserts\":%lu,\"const_asserts\":%lu,\"proved\":%lu,"
      "\"ops\":%lu,\"mismatch\":%lu,\"stale\":%lu,\"diverged\":%lu,\"concretized\":%lu,\"conc_truncated\":%lu,\"alloc_bounded\":%lu,\"truncated\":%lu,\"symloads\":%lu,\"symstores\":%lu,\"fp_paths\":%lu,\"bad_models\":%lu,\"timeouts\":%lu,\"killed\":%lu,\"crashes\":%lu,\"internal\":%lu,\"queue_left\":%zu,\"unfinished\":%lu,",
      h ? "," : "", jstr(C.names[h]).c_str(), H.paths, H.assumeRetries, H.events, H.maxEvents, S.queries, S.sat, S.unsat, S.unknown, S.solverTime, S.execTime, S.asserts, S.constAsserts, S.proved, S.ops, S.mismatch, S.stale, S.diverged, S.concretized, S.concTrunc, S.allocBounded, S.truncated, S.symloads, S.symstores, S.fpPaths, S.badModels, H.timeouts, H.killed, H.crashes, H.internal, q[h].size(), H.unfinished);
    fprintf(f, "\"ends\":{"); first = true; for (auto &e : H.ends) { fprintf(f, "%s%s:%lu", first ? "" : ",", jstr(e.first).c_str(), e.second); first = false; }
    fprintf(f, "},\"fails\":["); for (size_t i = 0; i < H.fails.size() && i < 40; i++) { fprintf(f, "%s{\"msg\":%s,\"vals\":[", i ? "," : "", jstr(H.fails[i].first).c_str()); for (size_t k = 0; k < H.fails[i].second.size(); k++) fprintf(f, "%s\"%lu\"", k ? "," : "", H.fails[i].second[k]); fprintf(f, "]}"); }
    fprintf(f, "],\"samples\":["); for (size_t i = 0; i < H.samples.size(); i++) { fprintf(f, "%s[", i ? "," : ""); for (size_t k = 0; k < H.samples[i].size(); k++) fprintf(f, "%s\"%lu\"", k ? "," : "", H.samples[i][k].second); fprintf(f, "]"); }
    fprintf(f, "]}");
  }
  fprintf(f, "]}\n"); fclose(f);
}
