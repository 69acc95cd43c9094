// SymR instrumentation pass: propagates a shadow expression (ptr, null =
// concrete) next to every SSA value of the module.  See DESIGN.md.
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Verifier.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include <fstream>
#include <set>
using namespace llvm;

// keep in sync with runtime.cpp
enum Op { OP_CONST, OP_VAR, OP_ADD, OP_SUB, OP_MUL, OP_UDIV, OP_SDIV, OP_UREM, OP_SREM, OP_SHL, OP_LSHR, OP_ASHR,
  OP_AND, OP_OR, OP_XOR, OP_EQ, OP_ULT, OP_ULE, OP_SLT, OP_SLE, OP_ZEXT, OP_SEXT, OP_EXTRACT, OP_CONCAT, OP_ITE,
  OP_FADD, OP_FSUB, OP_FMUL, OP_FDIV, OP_FEQ, OP_FLT, OP_FLE, OP_FUNO, OP_FNEG, OP_FABS, OP_SITOFP, OP_UITOFP,
  OP_FPTOSI, OP_FPTOUI, OP_FLOOR, OP_FCEIL, OP_FTRUNC, OP_NE /*builder only*/ };

static std::set<std::string> &natives() {
  static std::set<std::string> s;
  if (s.empty()) {
    s.insert("");
    if (const char *p = getenv("SYMR_NATIVES")) { std::ifstream f(p); std::string l; while (std::getline(f, l)) s.insert(l); }
  }
  return s;
}
static std::set<std::string> &wrapped() {
  static std::set<std::string> s;
  if (s.empty()) {
    s.insert("");
    if (const char *p = getenv("SYMR_WRAPPED")) { std::ifstream f(p); std::string l; while (std::getline(f, l)) s.insert(l); }
  }
  return s;
}

struct Inst {
  Module &M; LLVMContext &C; const DataLayout &DL;
  Type *PT, *I64, *I32, *VoidT; Constant *Null;
  Inst(Module &m) : M(m), C(m.getContext()), DL(m.getDataLayout()) {
    PT = PointerType::getUnqual(C); I64 = Type::getInt64Ty(C); I32 = Type::getInt32Ty(C); VoidT = Type::getVoidTy(C);
    Null = ConstantPointerNull::get(cast<PointerType>(PT));
  }
  FunctionCallee fn(const char *n, Type *r, std::vector<Type *> a) { return M.getOrInsertFunction(n, FunctionType::get(r, a, false)); }

  static bool scalarOK(Type *t) {
    if (t->isPointerTy() || t->isDoubleTy()) return true;
    if (auto *i = dyn_cast<IntegerType>(t)) return i->getBitWidth() <= 64;
    return false;
  }
  unsigned width(Type *t) { if (t->isPointerTy() || t->isDoubleTy()) return 64; return t->getIntegerBitWidth(); }
  Value *conc(IRBuilder<> &B, Value *v) { // concrete value as i64
    Type *t = v->getType();
    if (t->isPointerTy()) return B.CreatePtrToInt(v, I64);
    if (t->isDoubleTy()) return B.CreateBitCast(v, I64);
    return B.CreateZExtOrTrunc(v, I64);
  }
  // fields of a first-class type
  unsigned nfields(Type *t) { if (auto *s = dyn_cast<StructType>(t)) return s->getNumElements(); return 1; }

  std::map<Value *, std::vector<Value *>> sh; // shadows per field
  Value *S(Value *v, unsigned k = 0) {
    auto it = sh.find(v);
    if (it == sh.end() || k >= it->second.size()) return Null;
    return it->second[k];
  }
  bool isNull(Value *s) { return s == Null; }

  Value *fname;
  unsigned site = 0;
  Value *siteId() { return ConstantInt::get(I32, ++site); }

  void concretize(IRBuilder<> &B, Value *v) {
    if (!scalarOK(v->getType())) return;
    Value *s = S(v); if (isNull(s)) return;
    B.CreateCall(fn("__symr_concretize", VoidT, {PT, I64, PT, I32}), {s, conc(B, v), fname, siteId()});
  }
  Value *bin(IRBuilder<> &B, unsigned op, Value *a, Value *b, Value *res, Value *sa, Value *sb, unsigned w) {
    if (isNull(sa) && isNull(sb)) return Null;
    return B.CreateCall(fn("__symr_bin", PT, {I32, I32, PT, I64, PT, I64, I64}),
      {ConstantInt::get(I32, op), ConstantInt::get(I32, w), sa, conc(B, a), sb, conc(B, b), conc(B, res)});
  }
  Value *un(IRBuilder<> &B, unsigned op, Value *sa, unsigned wIn, unsigned wOut, Value *res) {
    if (isNull(sa)) return Null;
    return B.CreateCall(fn("__symr_un", PT, {I32, I32, I32, PT, I64}),
      {ConstantInt::get(I32, op), ConstantInt::get(I32, wIn), ConstantInt::get(I32, wOut), sa, conc(B, res)});
  }

  void run(Function &F) {
    sh.clear();
    std::vector<Instruction *> ins;
    // reverse post order: definitions are instrumented before their uses
    ReversePostOrderTraversal<Function *> rpo(&F);
    for (auto *BB : rpo) for (auto &I : *BB) ins.push_back(&I);
    std::vector<PHINode *> phis;
    {
      IRBuilder<> B0(&*F.getEntryBlock().getFirstInsertionPt());
      fname = B0.CreateGlobalStringPtr(F.getName());
    }
    // shadow phis first
    for (auto *I : ins)
      if (auto *p = dyn_cast<PHINode>(I)) {
        if (!scalarOK(p->getType())) { if (p->getType()->isStructTy()) errs() << "symr: aggregate phi in " << F.getName() << "\n"; continue; }
        IRBuilder<> B(p);
        auto *sp = B.CreatePHI(PT, p->getNumIncomingValues());
        sh[p] = {sp};
        phis.push_back(p);
      }
    // arguments
    if (F.getName() != "main") {
      // place after static allocas
      BasicBlock::iterator it = F.getEntryBlock().begin();
      while (isa<AllocaInst>(*it)) ++it;
      IRBuilder<> B(&F.getEntryBlock(), it);
      unsigned k = 0;
      if (!F.isVarArg())
        for (auto &A : F.args()) {
          if (scalarOK(A.getType()) && !A.hasByValAttr())
            sh[&A] = {B.CreateCall(fn("__symr_getarg", PT, {I32, I64}), {ConstantInt::get(I32, k), conc(B, &A)})};
          else if (A.hasByValAttr()) B.CreateCall(fn("__symr_getbyval", VoidT, {I32, PT, I64}), {ConstantInt::get(I32, k), &A, ConstantInt::get(I64, DL.getTypeAllocSize(A.getParamByValType()))});
          k++;
        }
      std::vector<AllocaInst *> als;
      for (auto *I : ins) if (auto *a = dyn_cast<AllocaInst>(I)) if (a->isStaticAlloca()) als.push_back(a);
      for (auto *a : als) {
        uint64_t sz = DL.getTypeAllocSize(a->getAllocatedType()) * cast<ConstantInt>(a->getArraySize())->getZExtValue();
        B.CreateCall(fn("__symr_alloca", VoidT, {PT, I64}), {a, ConstantInt::get(I64, sz)});
      }
    }
    for (auto *I : ins) visit(I, F);
    for (auto *p : phis) {
      auto *sp = cast<PHINode>(sh[p][0]);
      for (unsigned i = 0; i < p->getNumIncomingValues(); i++) sp->addIncoming(S(p->getIncomingValue(i)), p->getIncomingBlock(i));
    }
  }

  void visit(Instruction *I, Function &F) {
    if (isa<PHINode>(I)) return;
    IRBuilder<> Bb(I);
    Instruction *nx = I->isTerminator() ? nullptr : I->getNextNode();
    IRBuilder<> B(C);
    if (nx) B.SetInsertPoint(nx);
    if (auto *b = dyn_cast<BinaryOperator>(I)) {
      Type *t = b->getType();
      Value *a0 = b->getOperand(0), *a1 = b->getOperand(1);
      if (!scalarOK(t)) { concretize(Bb, a0); concretize(Bb, a1); return; }
      unsigned op = 0;
      switch (b->getOpcode()) {
      case Instruction::Add: op = OP_ADD; break; case Instruction::Sub: op = OP_SUB; break; case Instruction::Mul: op = OP_MUL; break;
      case Instruction::UDiv: op = OP_UDIV; break; case Instruction::SDiv: op = OP_SDIV; break;
      case Instruction::URem: op = OP_UREM; break; case Instruction::SRem: op = OP_SREM; break;
      case Instruction::Shl: op = OP_SHL; break; case Instruction::LShr: op = OP_LSHR; break; case Instruction::AShr: op = OP_ASHR; break;
      case Instruction::And: op = OP_AND; break; case Instruction::Or: op = OP_OR; break; case Instruction::Xor: op = OP_XOR; break;
      case Instruction::FAdd: op = OP_FADD; break; case Instruction::FSub: op = OP_FSUB; break;
      case Instruction::FMul: op = OP_FMUL; break; case Instruction::FDiv: op = OP_FDIV; break;
      default: concretize(Bb, a0); concretize(Bb, a1); return;
      }
      sh[b] = {bin(B, op, a0, a1, b, S(a0), S(a1), width(t))};
      return;
    }
    if (auto *c = dyn_cast<ICmpInst>(I)) {
      Value *a = c->getOperand(0), *b = c->getOperand(1);
      if (!scalarOK(a->getType())) return;
      Value *sa = S(a), *sb = S(b); unsigned w = width(a->getType()); unsigned op; bool sw = false;
      switch (c->getPredicate()) {
      case CmpInst::ICMP_EQ: op = OP_EQ; break; case CmpInst::ICMP_NE: op = OP_NE; break;
      case CmpInst::ICMP_ULT: op = OP_ULT; break; case CmpInst::ICMP_ULE: op = OP_ULE; break;
      case CmpInst::ICMP_UGT: op = OP_ULT; sw = true; break; case CmpInst::ICMP_UGE: op = OP_ULE; sw = true; break;
      case CmpInst::ICMP_SLT: op = OP_SLT; break; case CmpInst::ICMP_SLE: op = OP_SLE; break;
      case CmpInst::ICMP_SGT: op = OP_SLT; sw = true; break; case CmpInst::ICMP_SGE: op = OP_SLE; sw = true; break;
      default: return;
      }
      if (sw) { std::swap(a, b); std::swap(sa, sb); }
      sh[c] = {bin(B, op, a, b, c, sa, sb, w)};
      return;
    }
    if (auto *c = dyn_cast<FCmpInst>(I)) {
      Value *a = c->getOperand(0), *b = c->getOperand(1);
      if (!a->getType()->isDoubleTy()) { concretize(Bb, a); concretize(Bb, b); return; }
      Value *sa = S(a), *sb = S(b);
      if (isNull(sa) && isNull(sb)) return;
      sh[c] = {B.CreateCall(fn("__symr_fcmp", PT, {I32, PT, I64, PT, I64, I64}),
        {ConstantInt::get(I32, c->getPredicate()), sa, conc(B, a), sb, conc(B, b), conc(B, c)})};
      return;
    }
    if (auto *c = dyn_cast<CastInst>(I)) {
      Value *a = c->getOperand(0); Type *ti = a->getType(), *to = c->getType();
      if (!scalarOK(ti) || !scalarOK(to)) { concretize(Bb, a); return; }
      Value *s = S(a); if (isNull(s)) return;
      unsigned wi = width(ti), wo = width(to);
      switch (c->getOpcode()) {
      case Instruction::Trunc: sh[c] = {un(B, OP_EXTRACT, s, wi, wo, c)}; break;
      case Instruction::ZExt: sh[c] = {un(B, OP_ZEXT, s, wi, wo, c)}; break;
      case Instruction::SExt: sh[c] = {un(B, OP_SEXT, s, wi, wo, c)}; break;
      case Instruction::PtrToInt: case Instruction::IntToPtr:
        if (wi == wo) sh[c] = {s}; else sh[c] = {un(B, wo < wi ? OP_EXTRACT : OP_ZEXT, s, wi, wo, c)};
        break;
      case Instruction::BitCast: sh[c] = {s}; break;
      case Instruction::SIToFP: sh[c] = {un(B, OP_SITOFP, s, wi, wo, c)}; break;
      case Instruction::UIToFP: sh[c] = {un(B, OP_UITOFP, s, wi, wo, c)}; break;
      case Instruction::FPToSI: sh[c] = {un(B, OP_FPTOSI, s, wi, wo, c)}; break;
      case Instruction::FPToUI: sh[c] = {un(B, OP_FPTOUI, s, wi, wo, c)}; break;
      default: concretize(Bb, a);
      }
      return;
    }
    if (auto *u = dyn_cast<UnaryOperator>(I)) {
      if (u->getOpcode() == Instruction::FNeg && u->getType()->isDoubleTy()) sh[u] = {un(B, OP_FNEG, S(u->getOperand(0)), 64, 64, u)};
      else concretize(Bb, u->getOperand(0));
      return;
    }
    if (auto *s = dyn_cast<SelectInst>(I)) {
      Value *c = s->getCondition(), *t = s->getTrueValue(), *f = s->getFalseValue();
      if (!scalarOK(s->getType()) || !scalarOK(c->getType())) { concretize(Bb, c); return; }
      Value *sc = S(c), *st = S(t), *sf = S(f);
      if (isNull(sc)) {
        if (isNull(st) && isNull(sf)) return;
        sh[s] = {B.CreateSelect(c, st, sf)};
      } else
        sh[s] = {B.CreateCall(fn("__symr_select", PT, {I32, PT, I64, PT, I64, PT, I64}),
          {ConstantInt::get(I32, width(s->getType())), sc, conc(B, c), st, conc(B, t), sf, conc(B, f)})};
      return;
    }
    if (auto *g = dyn_cast<GetElementPtrInst>(I)) {
      if (!scalarOK(g->getType())) return;
      Value *cur = S(g->getPointerOperand());
      bool any = !isNull(cur);
      for (auto &ix : g->indices()) if (!isNull(S(ix))) any = true;
      if (!any) return;
      // address = base + sum scale*index + const
      Value *base = g->getPointerOperand();
      APInt off(64, 0); MapVector<Value *, APInt> var;
      if (!g->collectOffset(DL, 64, var, off)) { for (auto &ix : g->indices()) concretize(Bb, ix); return; }
      Value *acc = cur; Value *accC = conc(B, base);
      for (auto &kv : var) {
        Value *ix = kv.first; Value *sx = S(ix);
        unsigned w = width(ix->getType());
        Value *ixc = w < 64 ? B.CreateSExt(ix, I64) : ix;
        Value *prodC = B.CreateMul(ixc, ConstantInt::get(I64, kv.second));
        Value *sumC = B.CreateAdd(accC, prodC);
        if (!isNull(sx)) {
          Value *sx64 = w < 64 ? un(B, OP_SEXT, sx, w, 64, ixc) : sx;
          Value *sp = bin(B, OP_MUL, ixc, ConstantInt::get(I64, kv.second), prodC, sx64, Null, 64);
          acc = bin(B, OP_ADD, accC, prodC, sumC, acc, sp, 64);
        } else acc = bin(B, OP_ADD, accC, prodC, sumC, acc, Null, 64);
        accC = sumC;
      }
      if (off != 0) {
        Value *sumC = B.CreateAdd(accC, ConstantInt::get(I64, off));
        acc = bin(B, OP_ADD, accC, ConstantInt::get(I64, off), sumC, acc, Null, 64);
      }
      sh[g] = {acc};
      return;
    }
    if (auto *l = dyn_cast<LoadInst>(I)) {
      Value *p = l->getPointerOperand(); Type *t = l->getType();
      if (!scalarOK(t)) { concretize(Bb, p); if (!t->isFloatTy()) errs() << "symr: load type in " << F.getName() << "\n"; return; }
      uint64_t sz = DL.getTypeStoreSize(t);
      if (auto *gv = dyn_cast<GlobalVariable>(p)) if (gv->isConstant()) return;
      Value *s = B.CreateCall(fn("__symr_load", PT, {PT, PT, I64, I64, PT, I32}),
        {p, S(p), ConstantInt::get(I64, sz), conc(B, l), fname, siteId()});
      if (width(t) < sz * 8) { // i1 loads etc.
        s = B.CreateCall(fn("__symr_un", PT, {I32, I32, I32, PT, I64}),
          {ConstantInt::get(I32, OP_EXTRACT), ConstantInt::get(I32, sz * 8), ConstantInt::get(I32, width(t)), s, conc(B, l)});
      }
      sh[l] = {s};
      return;
    }
    if (auto *s = dyn_cast<StoreInst>(I)) {
      Value *v = s->getValueOperand(), *p = s->getPointerOperand(); Type *t = v->getType();
      if (!scalarOK(t)) {
        concretize(Bb, p);
        if (t->isStructTy()) errs() << "symr: struct store in " << F.getName() << "\n";
        Bb.CreateCall(fn("__symr_alloca_clear", VoidT, {PT, I64}), {p, ConstantInt::get(I64, DL.getTypeStoreSize(t))});
        return;
      }
      uint64_t sz = DL.getTypeStoreSize(t);
      Value *sv = S(v);
      if (width(t) < sz * 8) sv = isNull(sv) ? sv : un(Bb, OP_ZEXT, sv, width(t), sz * 8, v);
      Bb.CreateCall(fn("__symr_store", VoidT, {PT, PT, I64, PT, I64, PT, I32}), {p, S(p), ConstantInt::get(I64, sz), sv, conc(Bb, v), fname, siteId()});
      return;
    }
    if (auto *b = dyn_cast<BranchInst>(I)) {
      if (!b->isConditional()) return;
      Value *s = S(b->getCondition()); if (isNull(s)) return;
      Bb.CreateCall(fn("__symr_branch", VoidT, {PT, I64, PT, I32}), {s, conc(Bb, b->getCondition()), fname, siteId()});
      return;
    }
    if (auto *sw = dyn_cast<SwitchInst>(I)) {
      Value *v = sw->getCondition(); Value *s = S(v); if (isNull(s) || !scalarOK(v->getType())) return;
      std::vector<Constant *> cs; for (auto &c : sw->cases()) cs.push_back(ConstantInt::get(I64, c.getCaseValue()->getZExtValue()));
      auto *at = ArrayType::get(I64, cs.size());
      auto *g = new GlobalVariable(M, at, true, GlobalValue::PrivateLinkage, ConstantArray::get(at, cs));
      Bb.CreateCall(fn("__symr_switch", VoidT, {PT, I64, I32, PT, PT, I32}), {s, conc(Bb, v), ConstantInt::get(I32, cs.size()), g, fname, siteId()});
      return;
    }
    if (auto *r = dyn_cast<ReturnInst>(I)) {
      Value *v = r->getReturnValue(); if (!v) return;
      unsigned n = nfields(v->getType());
      auto f = fn("__symr_setret", VoidT, {I32, PT});
      for (unsigned k = 0; k < n; k++) Bb.CreateCall(f, {ConstantInt::get(I32, k), S(v, k)});
      return;
    }
    if (auto *x = dyn_cast<ExtractValueInst>(I)) {
      if (x->getNumIndices() == 1 && scalarOK(x->getType())) sh[x] = {S(x->getAggregateOperand(), x->getIndices()[0])};
      return;
    }
    if (auto *x = dyn_cast<InsertValueInst>(I)) {
      if (x->getNumIndices() != 1) return;
      unsigned n = nfields(x->getType());
      std::vector<Value *> v; for (unsigned k = 0; k < n; k++) v.push_back(S(x->getAggregateOperand(), k));
      v[x->getIndices()[0]] = S(x->getInsertedValueOperand());
      sh[x] = v;
      return;
    }
    if (auto *f = dyn_cast<FreezeInst>(I)) { if (scalarOK(f->getType())) sh[f] = {S(f->getOperand(0))}; return; }
    if (auto *c = dyn_cast<CallInst>(I)) { call(c, F, Bb, B); return; }
    if (isa<AllocaInst>(I)) {
      auto *a = cast<AllocaInst>(I);
      if (!a->isStaticAlloca()) {
        concretize(Bb, a->getArraySize());
        Value *n = B.CreateMul(B.CreateZExtOrTrunc(a->getArraySize(), I64), ConstantInt::get(I64, DL.getTypeAllocSize(a->getAllocatedType())));
        B.CreateCall(fn("__symr_alloca", VoidT, {PT, I64}), {a, n});
      }
      return;
    }
    if (isa<UnreachableInst>(I) || isa<VAArgInst>(I)) return;
    for (auto &o : I->operands()) if (!isa<BasicBlock>(o)) concretize(Bb, o);
  }

  void intrinsic(IntrinsicInst *c, IRBuilder<> &Bb, IRBuilder<> &B) {
    auto A = [&](unsigned i) { return c->getArgOperand(i); };
    auto concAll = [&]() { for (auto &a : c->args()) if (scalarOK(a->getType())) concretize(Bb, a); };
    auto mm = [&](unsigned op, bool sw) { // select(op(a,b), a, b)
      Value *a = A(0), *b = A(1); if (!scalarOK(a->getType())) return;
      if (isNull(S(a)) && isNull(S(b))) return;
      sh[c] = {B.CreateCall(fn("__symr_minmax", PT, {I32, I32, I32, PT, I64, PT, I64, I64}),
        {ConstantInt::get(I32, op), ConstantInt::get(I32, sw), ConstantInt::get(I32, width(a->getType())), S(a), conc(B, a), S(b), conc(B, b), conc(B, c)})};
    };
    switch (c->getIntrinsicID()) {
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl:
    case Intrinsic::stacksave: case Intrinsic::stackrestore: case Intrinsic::vastart: case Intrinsic::vaend: case Intrinsic::vacopy:
    case Intrinsic::dbg_value: case Intrinsic::dbg_declare: case Intrinsic::dbg_label: case Intrinsic::donothing: return;
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline:
      concAll(); Bb.CreateCall(fn("__symr_memcpy", VoidT, {PT, PT, I64}), {A(0), A(1), Bb.CreateZExtOrTrunc(A(2), I64)}); return;
    case Intrinsic::memset: {
      concretize(Bb, A(0)); concretize(Bb, A(2));
      Bb.CreateCall(fn("__symr_memset", VoidT, {PT, PT, I64, I64}), {A(0), S(A(1)), conc(Bb, A(1)), Bb.CreateZExtOrTrunc(A(2), I64)}); return;
    }
    case Intrinsic::umin: mm(OP_ULT, false); return;
    case Intrinsic::umax: mm(OP_ULT, true); return;
    case Intrinsic::smin: mm(OP_SLT, false); return;
    case Intrinsic::smax: mm(OP_SLT, true); return;
    case Intrinsic::expect: sh[c] = {S(A(0))}; return;
    case Intrinsic::fabs: if (c->getType()->isDoubleTy()) sh[c] = {un(B, OP_FABS, S(A(0)), 64, 64, c)}; else concAll(); return;
    case Intrinsic::floor: if (c->getType()->isDoubleTy()) sh[c] = {un(B, OP_FLOOR, S(A(0)), 64, 64, c)}; else concAll(); return;
    case Intrinsic::ceil: if (c->getType()->isDoubleTy()) sh[c] = {un(B, OP_FCEIL, S(A(0)), 64, 64, c)}; else concAll(); return;
    case Intrinsic::trunc: if (c->getType()->isDoubleTy()) sh[c] = {un(B, OP_FTRUNC, S(A(0)), 64, 64, c)}; else concAll(); return;
    case Intrinsic::abs: case Intrinsic::fshl: case Intrinsic::fshr: case Intrinsic::bswap: case Intrinsic::ctpop: case Intrinsic::ctlz: case Intrinsic::cttz:
    case Intrinsic::usub_sat: case Intrinsic::uadd_sat: case Intrinsic::ssub_sat: case Intrinsic::sadd_sat:
    case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow:
    case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: {
      bool any = false; for (auto &a : c->args()) if (scalarOK(a->getType()) && !isNull(S(a))) any = true;
      if (!any) return;
      unsigned n = nfields(c->getType());
      const char *nm; unsigned id;
      switch (c->getIntrinsicID()) {
      case Intrinsic::abs: id = 0; break; case Intrinsic::fshl: id = 1; break; case Intrinsic::fshr: id = 2; break; case Intrinsic::bswap: id = 3; break;
      case Intrinsic::usub_sat: id = 4; break; case Intrinsic::uadd_sat: id = 5; break;
      case Intrinsic::sadd_with_overflow: id = 10; break; case Intrinsic::ssub_with_overflow: id = 11; break; case Intrinsic::smul_with_overflow: id = 12; break;
      case Intrinsic::uadd_with_overflow: id = 13; break; case Intrinsic::usub_with_overflow: id = 14; break; case Intrinsic::umul_with_overflow: id = 15; break;
      default: concAll(); return;
      }
      (void)nm;
      unsigned w = width(A(0)->getType());
      Value *z = ConstantInt::get(I64, 0);
      unsigned na = c->arg_size();
      Value *v0 = conc(B, A(0)), *s0 = S(A(0));
      Value *v1 = na > 1 && id != 0 ? conc(B, A(1)) : z, *s1 = na > 1 && id != 0 ? S(A(1)) : (Value *)Null;
      Value *v2 = na > 2 ? conc(B, A(2)) : z, *s2 = na > 2 ? S(A(2)) : (Value *)Null;
      std::vector<Value *> out;
      for (unsigned k = 0; k < n; k++) {
        out.push_back(B.CreateCall(fn("__symr_intr", PT, {I32, I32, I32, PT, I64, PT, I64, PT, I64}),
          {ConstantInt::get(I32, id), ConstantInt::get(I32, k), ConstantInt::get(I32, w), s0, v0, s1, v1, s2, v2}));
      }
      sh[c] = out;
      return;
    }
    default: concAll(); return;
    }
  }

  void call(CallInst *c, Function &F, IRBuilder<> &Bb, IRBuilder<> &B) {
    if (auto *ii = dyn_cast<IntrinsicInst>(c)) { intrinsic(ii, Bb, B); return; }
    if (c->isInlineAsm()) { for (auto &a : c->args()) concretize(Bb, a); return; }
    Function *cal = c->getCalledFunction();
    std::string nm = cal ? cal->getName().str() : "";
    if (nm.rfind("__symr", 0) == 0) return;
    bool wrap = cal && cal->isDeclaration() && wrapped().count(nm);
    bool native = cal && cal->isDeclaration() && !wrap && natives().count(nm);
    if (nm.rfind("symr_w_", 0) == 0 || nm.rfind("symr_api_", 0) == 0) wrap = true;
    bool va = c->getFunctionType()->isVarArg();
    if (native) {
      // variadic natives only format messages: the text is outside the claim
      if (!va) for (auto &a : c->args()) concretize(Bb, a);
      Bb.CreateCall(fn("__symr_clrargs", VoidT, {}), {});
      return;
    }
    if (!cal) concretize(Bb, c->getCalledOperand());
    if (va) {
      Bb.CreateCall(fn("__symr_clrargs", VoidT, {}), {});
    } else {
      unsigned k = 0;
      auto f = fn("__symr_setarg", VoidT, {I32, PT});
      for (auto &a : c->args()) {
        if (c->isByValArgument(k)) Bb.CreateCall(fn("__symr_setbyval", VoidT, {I32, PT}), {ConstantInt::get(I32, k), a.get()});
        else if (scalarOK(a->getType())) Bb.CreateCall(f, {ConstantInt::get(I32, k), S(a)});
        k++;
      }
    }
    if (wrap && nm.rfind("symr_", 0) != 0) {
      auto w = M.getOrInsertFunction("symr_w_" + nm, c->getFunctionType());
      c->setCalledFunction(w);
      Bb.CreateCall(fn("__symr_site", VoidT, {PT, I32}), {fname, siteId()});
    }
    c->setTailCallKind(CallInst::TCK_None);
    Type *rt = c->getType();
    if (rt->isVoidTy()) return;
    unsigned n = nfields(rt);
    Bb.CreateCall(fn("__symr_clrret", VoidT, {}), {});
    if (c->doesNotReturn()) return;
    std::vector<Value *> out;
    for (unsigned k = 0; k < n; k++) {
      Type *ft = rt; Value *fv = c;
      if (auto *st = dyn_cast<StructType>(rt)) { ft = st->getElementType(k); if (scalarOK(ft)) fv = B.CreateExtractValue(c, k); }
      if (!scalarOK(ft)) { out.push_back(Null); continue; }
      out.push_back(B.CreateCall(fn("__symr_getret", PT, {I32, I64}), {ConstantInt::get(I32, k), conc(B, fv)}));
    }
    sh[c] = out;
  }
};

struct SymRPass : PassInfoMixin<SymRPass> {
  PreservedAnalyses run(Module &M, ModuleAnalysisManager &) {
    Inst X(M);
    std::vector<Function *> fs;
    for (auto &F : M) if (!F.isDeclaration()) fs.push_back(&F);
    for (auto *F : fs) {
      if (F->getName().startswith("__symr")) continue;
      if (F->hasFnAttribute(Attribute::NoDuplicate)) continue;
      // tail calls & memory attributes are invalidated by the instrumentation
      F->removeFnAttr(Attribute::Memory);
      X.run(*F);
    }
    // call sites / declarations too
    for (auto &F : M) {
      F.removeFnAttr(Attribute::Memory); F.removeFnAttr(Attribute::WillReturn); F.removeFnAttr(Attribute::NoSync); F.removeFnAttr(Attribute::NoFree);
      for (auto &I : instructions(F)) if (auto *c = dyn_cast<CallInst>(&I)) { c->removeFnAttr(Attribute::Memory); c->setTailCallKind(c->isMustTailCall() ? CallInst::TCK_MustTail : CallInst::TCK_None); }
    }
    if (verifyModule(M, &errs())) report_fatal_error("symr: broken module");
    return PreservedAnalyses::none();
  }
  static bool isRequired() { return true; }
};

extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo() {
  return {LLVM_PLUGIN_API_VERSION, "SymR", "0.1", [](PassBuilder &PB) {
    PB.registerOptimizerLastEPCallback([](ModulePassManager &MPM, OptimizationLevel) { MPM.addPass(SymRPass()); });
  }};
}
