#pragma once
#include "expr.h"
#include <functional>
#include <map>
#include <string>
#include <vector>
typedef uint64_t u64;
enum Kind : uint8_t { BRANCH, ASSUME, ASSUME_VIOL, ASSERT, ASSERT_BAD, CONC };
struct Event { Expr *e; bool taken; Kind kind; uint32_t nvars; const char *fn; unsigned site; u64 val; u64 hash; const char *msg; Expr *ce = nullptr; };
struct Var { uint8_t w; u64 val; const char *name; };
struct Item { std::vector<u64> vals; u64 bound = 0, hash = 0, key = 0; std::vector<u64> excl; };
struct Stats { u64 queries, sat, unsat, unknown, asserts, constAsserts, proved, ops, mismatch, stale, diverged, concretized, concTrunc, allocBounded, truncated, symloads, symstores, fpPaths, badModels; double solverTime, execTime;
  Stats() { memset((void *)this, 0, sizeof *this); }
  void add(const Stats &o) { u64 *a = (u64 *)this; const u64 *b = (const u64 *)&o; for (int i = 0; i < 19; i++) a[i] += b[i]; solverTime += o.solverTime; execTime += o.execTime; } };
struct HStat { Stats s; u64 paths = 0, assumeRetries = 0, events = 0, maxEvents = 0, timeouts = 0, killed = 0, crashes = 0, internal = 0, unfinished = 0; std::map<std::string, u64> ends;
  std::vector<std::pair<std::string, std::vector<u64>>> fails; std::vector<std::vector<std::pair<int, u64>>> samples; };
struct Config { std::vector<std::string> names; std::vector<double> weight; int workers = 8; double budget = 20, grace = 5; unsigned childTimeout = 60; u64 seed = 1; std::string out; int maxFails = 3; bool stopOnFail = false; };
extern bool g_on; extern Stats st; extern FILE *g_prof;
void shClear(uintptr_t a, size_t n); bool shAny(uintptr_t a, size_t n); void shPut(uintptr_t a, Expr *e, unsigned size); Expr *shGet(uintptr_t a, unsigned size); void shCopy(uintptr_t d, uintptr_t s, size_t n);
void region(void *p, size_t len);
void branchOn(Expr *c, const char *fn, unsigned site); void assumeE(Expr *c, const char *fn); void assertE(Expr *c, const char *msg); void concretizeE(Expr *e, u64 val, const char *fn, unsigned site);
Expr *argShadow(int k, u64 v); void argConc(int k, u64 v); void setRet(Expr *e); const char *wfn(); unsigned wsite();
Expr *newVar(unsigned w, u64 def, const char *name); u64 lastVarVal();
void endPath(const char *why); void failNow(const char *msg);
void explore(const Config &C, const std::function<std::string(int)> &run);
extern "C" Expr *__symr_load(uintptr_t p, Expr *sa, u64 size, u64 val, const char *fn, int site);
extern "C" void __symr_store(uintptr_t p, Expr *sa, u64 size, Expr *sv, u64 val, const char *fn, int site);

extern bool g_warmRandom; extern u64 g_warmLimit; void warmLog(const char *harness);
