// LLVM pass: instruments optimized IR so that every SSA value carries a symbolic
// shadow (a 32-bit handle into the runtime's expression DAG, 0 = concrete).
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/IntrinsicsX86.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/MDBuilder.h"
#include "llvm/IR/Verifier.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Transforms/Utils/LowerSwitch.h"
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/ADT/StringSet.h"
#include "llvm/ADT/StringSwitch.h"
#include <map>
#include <set>
using namespace llvm;

namespace {

enum IntrId {
  I_UMIN = 1, I_UMAX, I_SMIN, I_SMAX, I_ABS, I_CTLZ, I_CTTZ, I_CTPOP, I_BSWAP,
  I_BITREV, I_FSHL, I_FSHR, I_UADDSAT, I_USUBSAT, I_SADDSAT, I_SSUBSAT,
  I_UADDO, I_USUBO, I_UMULO, I_SADDO, I_SSUBO, I_SMULO,
  I_ADDCARRY_V, I_ADDCARRY_C, I_SUBBORROW_V, I_SUBBORROW_C,
  I_RED_ADD, I_RED_AND, I_RED_OR, I_RED_XOR, I_RED_MUL, I_RED_UMAX, I_RED_UMIN,
};

struct Sym {
  Module &M;
  LLVMContext &C;
  const DataLayout &DL;
  Type *I1, *I8, *I32, *I64, *PtrTy, *VoidTy;
  GlobalVariable *Args, *ByvalSrc, *Tok, *Ret, *RetTok;
  FunctionCallee FBin, FCmp, FCast, FSelect, FInsElt, FExtElt, FShuffle, FIntr, FGep,
      FBr, FConc, FConcTo, FLoad, FStore, FClear, FMemcpy, FMemset, FByval, FExt,
      FNote, FTrunc1;
  std::map<std::string, std::string> Redirect;

  Sym(Module &M) : M(M), C(M.getContext()), DL(M.getDataLayout()) {
    I1 = Type::getInt1Ty(C); I8 = Type::getInt8Ty(C); I32 = Type::getInt32Ty(C);
    I64 = Type::getInt64Ty(C); PtrTy = PointerType::getUnqual(C); VoidTy = Type::getVoidTy(C);
    auto gv = [&](const char *n, Type *t) {
      return cast<GlobalVariable>(M.getOrInsertGlobal(n, t));
    };
    Args = gv("__sr_args", ArrayType::get(I32, 256));
    ByvalSrc = gv("__sr_byval_src", ArrayType::get(PtrTy, 64));
    Tok = gv("__sr_tok", PtrTy);
    Ret = gv("__sr_ret", ArrayType::get(I32, 64));
    RetTok = gv("__sr_rettok", PtrTy);
    auto fn = [&](const char *n, Type *r, ArrayRef<Type *> a) {
      return M.getOrInsertFunction(n, FunctionType::get(r, a, false));
    };
    FBin = fn("__sr_bin", I32, {I32, I32, I32, I32, I64, I32, I64});
    FCmp = fn("__sr_cmp", I32, {I32, I32, I32, I32, I64, I32, I64});
    FCast = fn("__sr_cast", I32, {I32, I32, I32, I32, I32});
    FSelect = fn("__sr_select", I32, {I32, I32, I32, I32, I64, I32, I64, I32, I64});
    FInsElt = fn("__sr_inselt", I32, {I32, I32, I32, I64, I32, I64, I64});
    FExtElt = fn("__sr_extelt", I32, {I32, I32, I32, I64, I64});
    FShuffle = fn("__sr_shuffle", I32, {I32, I32, I32, I64, I32, I64, I32, PtrTy});
    FIntr = fn("__sr_intr", I32, {I32, I32, I32, I32, I64, I32, I64, I32, I64});
    FGep = fn("__sr_gep", I32, {I32, I64, I32, I64, I32, I64});
    FBr = fn("__sr_br", I1, {I32, I1});
    FConc = fn("__sr_concretize", I64, {I32, I64, I32});
    FLoad = fn("__sr_load", I32, {PtrTy, I32, I64});
    FStore = fn("__sr_store", VoidTy, {PtrTy, I32, I64, I32});
    FConcTo = fn("__sr_addr", I64, {I32, I64});
    FClear = fn("__sr_clear", VoidTy, {PtrTy, I64});
    FMemcpy = fn("__sr_memcpy", VoidTy, {PtrTy, PtrTy, I64});
    FMemset = fn("__sr_memset", VoidTy, {PtrTy, I32, I8, I64});
    FByval = fn("__sr_byval", VoidTy, {PtrTy, PtrTy, I64});
    FExt = fn("__sr_ext", VoidTy, {PtrTy, PtrTy});
    FNote = fn("__sr_note", VoidTy, {PtrTy, I32});
    for (const char *n : {"malloc", "calloc", "realloc", "free", "memcpy", "memmove", "memset",
                          "memcmp", "bcmp", "strlen", "memchr", "strcmp", "strncmp", "aligned_alloc",
                          "posix_memalign"})
      Redirect[n] = std::string("__srw_") + n;
    Redirect["_Znwm"] = "__srw_new";
    Redirect["_Znam"] = "__srw_new";
    Redirect["_ZnwmRKSt9nothrow_t"] = "__srw_new_nt";
    Redirect["_ZnamRKSt9nothrow_t"] = "__srw_new_nt";
    Redirect["_ZnwmSt11align_val_t"] = "__srw_new_al";
    Redirect["_ZnamSt11align_val_t"] = "__srw_new_al";
    Redirect["_ZdlPv"] = "__srw_delete";
    Redirect["_ZdaPv"] = "__srw_delete";
    Redirect["_ZdlPvm"] = "__srw_delete_s";
    Redirect["_ZdaPvm"] = "__srw_delete_s";
    Redirect["_ZdlPvSt11align_val_t"] = "__srw_delete_s";
    Redirect["_ZdlPvmSt11align_val_t"] = "__srw_delete_sa";
    Redirect["_ZdaPvSt11align_val_t"] = "__srw_delete_s";
    Redirect["_ZdaPvmSt11align_val_t"] = "__srw_delete_sa";
  }

  Type *shadowTy(Type *T) {
    if (auto *ST = dyn_cast<StructType>(T)) {
      SmallVector<Type *, 4> E;
      for (Type *t : ST->elements()) E.push_back(shadowTy(t));
      return StructType::get(C, E);
    }
    if (auto *AT = dyn_cast<ArrayType>(T)) return ArrayType::get(shadowTy(AT->getElementType()), AT->getNumElements());
    return I32;
  }
  unsigned leaves(Type *T) {
    if (auto *ST = dyn_cast<StructType>(T)) { unsigned n = 0; for (Type *t : ST->elements()) n += leaves(t); return n; }
    if (auto *AT = dyn_cast<ArrayType>(T)) return AT->getNumElements() * leaves(AT->getElementType());
    return 1;
  }
  void leafPaths(Type *T, SmallVector<unsigned, 4> cur, uint64_t off,
                 SmallVectorImpl<std::tuple<SmallVector<unsigned, 4>, Type *, uint64_t>> &out) {
    if (auto *ST = dyn_cast<StructType>(T)) {
      auto *L = DL.getStructLayout(ST);
      for (unsigned i = 0; i < ST->getNumElements(); i++) { auto c = cur; c.push_back(i); leafPaths(ST->getElementType(i), c, off + L->getElementOffset(i), out); }
    } else if (auto *AT = dyn_cast<ArrayType>(T)) {
      for (unsigned i = 0; i < AT->getNumElements(); i++) { auto c = cur; c.push_back(i); leafPaths(AT->getElementType(), c, off + i * DL.getTypeAllocSize(AT->getElementType()), out); }
    } else out.push_back({cur, T, off});
  }

  // ---- per function state ----
  Function *F = nullptr;
  DenseMap<Value *, Value *> Sh;
  std::vector<std::pair<PHINode *, PHINode *>> Phis;
  std::map<Type *, std::vector<AllocaInst *>> Spill;
  std::map<Type *, unsigned> SpillUse;

  Value *sh(Value *V) {
    auto it = Sh.find(V);
    if (it != Sh.end()) return it->second;
    return Constant::getNullValue(shadowTy(V->getType()));
  }
  bool isZeroSh(Value *s) { return isa<Constant>(s) && cast<Constant>(s)->isNullValue(); }

  unsigned totalBits(Type *T) {
    if (T->isPointerTy()) return 64;
    return T->getPrimitiveSizeInBits().getFixedValue();
  }
  static bool okTy(Type *T) {
    if (T->isIntegerTy() || T->isPointerTy()) return true;
    if (auto *V = dyn_cast<FixedVectorType>(T)) return V->getElementType()->isIntegerTy();
    return false;
  }
  unsigned laneBits(Type *T) {
    if (auto *V = dyn_cast<FixedVectorType>(T)) return V->getScalarSizeInBits();
    return totalBits(T);
  }
  unsigned lanes(Type *T) {
    if (auto *V = dyn_cast<FixedVectorType>(T)) return V->getNumElements();
    return 1;
  }
  // Concrete operand as u64 (value, or pointer to spilled bytes when wider than 64 bits).
  Value *conc(IRBuilder<> &B, Value *V) {
    Type *T = V->getType();
    unsigned tb = totalBits(T);
    if (T->isPointerTy()) return B.CreatePtrToInt(V, I64);
    if (tb <= 64) {
      if (!T->isIntegerTy()) V = B.CreateBitCast(V, IntegerType::get(C, tb));
      return B.CreateZExt(V, I64);
    }
    unsigned &use = SpillUse[T];
    auto &v = Spill[T];
    if (use == v.size()) {
      IRBuilder<> EB(&*F->getEntryBlock().getFirstInsertionPt());
      v.push_back(EB.CreateAlloca(T));
    }
    AllocaInst *A = v[use++];
    B.CreateStore(V, A);
    return B.CreatePtrToInt(A, I64);
  }
  void resetSpill() { for (auto &p : SpillUse) p.second = 0; }

  // Run `gen` in a block guarded by (any shadow != 0); returns phi(0, gen()).
  Value *guarded(Instruction *after, ArrayRef<Value *> shs, function_ref<Value *(IRBuilder<> &)> gen, bool before = false) {
    bool allzero = true;
    for (Value *s : shs) if (!isZeroSh(s)) allzero = false;
    if (allzero) return ConstantInt::get(I32, 0);
    Instruction *ip = before ? after : after->getNextNode();
    IRBuilder<> B(ip);
    Value *any = nullptr;
    for (Value *s : shs) { if (isZeroSh(s)) continue; any = any ? B.CreateOr(any, s) : s; }
    Value *c = B.CreateICmpNE(any, ConstantInt::get(I32, 0));
    BasicBlock *head = ip->getParent();
    Instruction *term = SplitBlockAndInsertIfThen(c, ip, false, MDBuilder(C).createBranchWeights(1, 1000));
    IRBuilder<> TB(term);
    resetSpill();
    Value *r = gen(TB);
    if (!r) return nullptr;
    IRBuilder<> PB(&*ip->getParent()->begin());
    PHINode *p = PB.CreatePHI(r->getType(), 2);
    p->addIncoming(r, term->getParent());
    p->addIncoming(Constant::getNullValue(r->getType()), head);
    return p;
  }
  Value *i32(unsigned v) { return ConstantInt::get(I32, v); }
  Value *i64(uint64_t v) { return ConstantInt::get(I64, v); }

  Value *note(Instruction *I, const char *what, ArrayRef<Value *> ops) {
    SmallVector<Value *, 4> s;
    for (Value *o : ops) { Value *x = sh(o); if (x->getType() == I32) s.push_back(x); }
    std::string w = std::string(what) + ":" + F->getName().str().substr(0, 80);
    guarded(I, s, [&](IRBuilder<> &B) -> Value * {
      for (Value *o : ops) {
        if (sh(o)->getType() != I32 || isZeroSh(sh(o))) continue;
        B.CreateCall(FNote, {B.CreateGlobalStringPtr(w), sh(o)});
      }
      return nullptr; });
    return i32(0);
  }

  // Replaces each symbolic scalar operand by its concretization (forks over values).
  void concretizeOperand(Instruction *I, unsigned idx, const char *why) {
    Value *V = I->getOperand(idx);
    Value *s = sh(V);
    if (s->getType() != I32 || isZeroSh(s)) return;
    if (!(V->getType()->isIntegerTy() || V->getType()->isPointerTy()) || totalBits(V->getType()) > 64) { return; }
    IRBuilder<> B(I);
    Value *c = B.CreateICmpNE(s, i32(0));
    BasicBlock *head = I->getParent();
    Instruction *term = SplitBlockAndInsertIfThen(c, I, false, MDBuilder(C).createBranchWeights(1, 1000));
    IRBuilder<> TB(term);
    resetSpill();
    Value *r = TB.CreateCall(FConc, {s, conc(TB, V), i32(totalBits(V->getType()))});
    Value *nv = V->getType()->isPointerTy() ? TB.CreateIntToPtr(r, V->getType()) : TB.CreateTrunc(r, V->getType());
    IRBuilder<> PB(&*I->getParent()->begin());
    PHINode *p = PB.CreatePHI(V->getType(), 2);
    p->addIncoming(nv, term->getParent());
    p->addIncoming(V, head);
    I->setOperand(idx, p);
  }

  void visitMem(Instruction *I) {
    if (auto *L = dyn_cast<LoadInst>(I)) {
      Type *T = L->getType();
      Value *addr = L->getPointerOperand();
      if (okTy(T)) {
        IRBuilder<> B(L->getNextNode());
        unsigned bits = totalBits(T), bytes = (bits + 7) / 8;
        Value *r = B.CreateCall(FLoad, {addr, sh(addr), i64(bytes)});
        if (bits != bytes * 8) {
          Instruction *ri = cast<Instruction>(r);
          r = guarded(ri, {r}, [&](IRBuilder<> &B) { return (Value *)B.CreateCall(FCast, {i32(0), i32(bytes * 8), i32(bits), i32(1), ri}); });
        }
        Sh[L] = r;
      } else if (T->isAggregateType()) {
        SmallVector<std::tuple<SmallVector<unsigned, 4>, Type *, uint64_t>, 8> ls;
        leafPaths(T, {}, 0, ls);
        IRBuilder<> B(L->getNextNode());
        Value *agg = Constant::getNullValue(shadowTy(T));
        for (auto &[p, t, off] : ls) {
          if (!okTy(t) || totalBits(t) % 8) continue;
          Value *a = B.CreateConstGEP1_64(I8, addr, off);
          agg = B.CreateInsertValue(agg, B.CreateCall(FLoad, {a, i32(0), i64(totalBits(t) / 8)}), p);
        }
        Sh[L] = agg;
      } else if (T->isFloatTy() || T->isDoubleTy()) {
        IRBuilder<> B(L->getNextNode());
        Sh[L] = B.CreateCall(FLoad, {addr, sh(addr), i64(totalBits(T) / 8)});
      }
    } else if (auto *S = dyn_cast<StoreInst>(I)) {
      Value *V = S->getValueOperand();
      Type *T = V->getType();
      // A symbolic store address is concretized first (forks).
      concretizeOperand(S, 1, "store");
      Value *addr = S->getPointerOperand();
      if (T->isAggregateType()) {
        SmallVector<std::tuple<SmallVector<unsigned, 4>, Type *, uint64_t>, 8> ls;
        leafPaths(T, {}, 0, ls);
        IRBuilder<> B(S);
        for (auto &[p, t, off] : ls) {
          Value *a = B.CreateConstGEP1_64(I8, addr, off);
          Value *s = isZeroSh(sh(V)) ? i32(0) : B.CreateExtractValue(sh(V), p);
          unsigned by = DL.getTypeStoreSize(t);
          B.CreateCall(FStore, {a, i32(0), i64(by), okTy(t) && totalBits(t) % 8 == 0 ? s : i32(0)});
        }
      } else if (okTy(T) || T->isFloatTy() || T->isDoubleTy()) {
        unsigned bits = totalBits(T), bytes = (bits + 7) / 8;
        Value *s = sh(V);
        if (bits != bytes * 8 && !isZeroSh(s))
          s = guarded(S, {s}, [&](IRBuilder<> &B) { return (Value *)B.CreateCall(FCast, {i32(1), i32(bits), i32(bytes * 8), i32(1), sh(V)}); }, true);
        IRBuilder<> B(S);
        B.CreateCall(FStore, {addr, i32(0), i64(bytes), s});
      } else {
        IRBuilder<> B(S);
        B.CreateCall(FStore, {addr, i32(0), i64(DL.getTypeStoreSize(T)), i32(0)});
      }
    }
  }

  void visitGep(GetElementPtrInst *G) {
    SmallVector<Value *, 4> s;
    s.push_back(sh(G->getPointerOperand()));
    for (auto &i : G->indices()) s.push_back(sh(i));
    for (auto *x : s) if (x->getType() != I32) return;
    Sh[G] = guarded(G, s, [&](IRBuilder<> &B) -> Value * {
      Value *acc = sh(G->getPointerOperand());
      Value *cacc = B.CreatePtrToInt(G->getPointerOperand(), I64);
      for (auto gti = gep_type_begin(G), e = gep_type_end(G); gti != e; ++gti) {
        Value *idx = gti.getOperand();
        if (StructType *ST = gti.getStructTypeOrNull()) {
          uint64_t off = DL.getStructLayout(ST)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
          acc = B.CreateCall(FGep, {acc, cacc, i32(0), i64(off), i32(64), i64(1)});
          cacc = B.CreateAdd(cacc, i64(off));
        } else {
          uint64_t sz = DL.getTypeAllocSize(gti.getIndexedType());
          Value *ci = B.CreateSExtOrTrunc(idx, I64);
          acc = B.CreateCall(FGep, {acc, cacc, sh(idx), B.CreateZExtOrTrunc(idx, I64), i32(idx->getType()->getIntegerBitWidth()), i64(sz)});
          cacc = B.CreateAdd(cacc, B.CreateMul(ci, i64(sz)));
        }
      }
      return acc; });
  }

  Value *flat(IRBuilder<> &B, Value *s, unsigned &n, function_ref<void(unsigned, Value *)> f) {
    Type *T = s->getType();
    if (T == I32) { f(n++, s); return nullptr; }
    unsigned k = T->isStructTy() ? T->getStructNumElements() : T->getArrayNumElements();
    for (unsigned i = 0; i < k; i++) flat(B, B.CreateExtractValue(s, i), n, f);
    return nullptr;
  }
  Value *unflat(IRBuilder<> &B, Type *T, unsigned &n, GlobalVariable *G, Value *ok) {
    if (T == I32) {
      Value *v = B.CreateLoad(I32, B.CreateConstGEP2_64(G->getValueType(), G, 0, n++));
      return B.CreateSelect(ok, v, i32(0));
    }
    Value *agg = Constant::getNullValue(T);
    unsigned k = T->isStructTy() ? T->getStructNumElements() : T->getArrayNumElements();
    for (unsigned i = 0; i < k; i++) {
      Type *et = T->isStructTy() ? T->getStructElementType(i) : T->getArrayElementType();
      agg = B.CreateInsertValue(agg, unflat(B, et, n, G, ok), i);
    }
    return agg;
  }

  bool visitX86(IntrinsicInst *II) {
    switch (II->getIntrinsicID()) {
    case Intrinsic::x86_addcarry_64: case Intrinsic::x86_addcarry_32:
    case Intrinsic::x86_subborrow_64: case Intrinsic::x86_subborrow_32: {
      bool add = II->getIntrinsicID() == Intrinsic::x86_addcarry_64 || II->getIntrinsicID() == Intrinsic::x86_addcarry_32;
      unsigned bits = II->getArgOperand(1)->getType()->getIntegerBitWidth();
      auto mk = [&](unsigned id) {
        return guarded(II, {sh(II->getArgOperand(0)), sh(II->getArgOperand(1)), sh(II->getArgOperand(2))}, [&](IRBuilder<> &B) -> Value * {
          return B.CreateCall(FIntr, {i32(id), i32(bits), i32(1),
            sh(II->getArgOperand(1)), conc(B, II->getArgOperand(1)), sh(II->getArgOperand(2)), conc(B, II->getArgOperand(2)),
            sh(II->getArgOperand(0)), conc(B, II->getArgOperand(0))}); });
      };
      Value *v = mk(add ? I_ADDCARRY_V : I_SUBBORROW_V);
      // second guarded is inserted right after II again; order does not matter
      Value *c = mk(add ? I_ADDCARRY_C : I_SUBBORROW_C);
      if (isZeroSh(v)) return true;
      Instruction *last = cast<Instruction>(v);
      Instruction *lc = cast<Instruction>(c);
      // v was generated first, then c is inserted closer to II: v's block is after c's.
      (void)lc;
      IRBuilder<> B(last->getParent()->getFirstNonPHI());
      Value *agg = Constant::getNullValue(shadowTy(II->getType()));
      agg = B.CreateInsertValue(agg, c, 0);
      agg = B.CreateInsertValue(agg, v, 1);
      Sh[II] = agg;
      return true;
    }
    default: return false;
    }
  }

  void visitCall(CallBase *CB) {
    if (CB->isInlineAsm()) {
      auto *IA = cast<InlineAsm>(CB->getCalledOperand());
      if (IA->getAsmString().empty() && CB->arg_size() == 1 && CB->getType() == CB->getArgOperand(0)->getType()) {
        Sh[CB] = sh(CB->getArgOperand(0)); return;
      }
      SmallVector<Value *, 4> ops(CB->args());
      note(CB->getPrevNode() ? CB : CB, "asm", ops);
      return;
    }
    if (auto *II = dyn_cast<IntrinsicInst>(CB)) {
      Intrinsic::ID id = II->getIntrinsicID();
      auto A = [&](unsigned i) { return II->getArgOperand(i); };
      auto gen = [&](unsigned iid, Type *T, Value *a, Value *b, Value *c) {
        SmallVector<Value *, 3> s{sh(a)};
        if (b) s.push_back(sh(b));
        if (c) s.push_back(sh(c));
        return guarded(II, s, [&](IRBuilder<> &B) -> Value * {
          return B.CreateCall(FIntr, {i32(iid), i32(laneBits(T)), i32(lanes(T)), sh(a), conc(B, a),
                                      b ? sh(b) : i32(0), b ? conc(B, b) : i64(0), c ? sh(c) : i32(0), c ? conc(B, c) : i64(0)}); });
      };
      switch (id) {
      case Intrinsic::umin: Sh[II] = gen(I_UMIN, II->getType(), A(0), A(1), nullptr); return;
      case Intrinsic::umax: Sh[II] = gen(I_UMAX, II->getType(), A(0), A(1), nullptr); return;
      case Intrinsic::smin: Sh[II] = gen(I_SMIN, II->getType(), A(0), A(1), nullptr); return;
      case Intrinsic::smax: Sh[II] = gen(I_SMAX, II->getType(), A(0), A(1), nullptr); return;
      case Intrinsic::uadd_sat: Sh[II] = gen(I_UADDSAT, II->getType(), A(0), A(1), nullptr); return;
      case Intrinsic::usub_sat: Sh[II] = gen(I_USUBSAT, II->getType(), A(0), A(1), nullptr); return;
      case Intrinsic::sadd_sat: Sh[II] = gen(I_SADDSAT, II->getType(), A(0), A(1), nullptr); return;
      case Intrinsic::ssub_sat: Sh[II] = gen(I_SSUBSAT, II->getType(), A(0), A(1), nullptr); return;
      case Intrinsic::abs: Sh[II] = gen(I_ABS, II->getType(), A(0), nullptr, nullptr); return;
      case Intrinsic::ctlz: Sh[II] = gen(I_CTLZ, II->getType(), A(0), nullptr, nullptr); return;
      case Intrinsic::cttz: Sh[II] = gen(I_CTTZ, II->getType(), A(0), nullptr, nullptr); return;
      case Intrinsic::ctpop: Sh[II] = gen(I_CTPOP, II->getType(), A(0), nullptr, nullptr); return;
      case Intrinsic::bswap: Sh[II] = gen(I_BSWAP, II->getType(), A(0), nullptr, nullptr); return;
      case Intrinsic::bitreverse: Sh[II] = gen(I_BITREV, II->getType(), A(0), nullptr, nullptr); return;
      case Intrinsic::fshl: Sh[II] = gen(I_FSHL, II->getType(), A(0), A(1), A(2)); return;
      case Intrinsic::fshr: Sh[II] = gen(I_FSHR, II->getType(), A(0), A(1), A(2)); return;
      case Intrinsic::vector_reduce_add: Sh[II] = gen(I_RED_ADD, A(0)->getType(), A(0), nullptr, nullptr); return;
      case Intrinsic::vector_reduce_mul: Sh[II] = gen(I_RED_MUL, A(0)->getType(), A(0), nullptr, nullptr); return;
      case Intrinsic::vector_reduce_and: Sh[II] = gen(I_RED_AND, A(0)->getType(), A(0), nullptr, nullptr); return;
      case Intrinsic::vector_reduce_or: Sh[II] = gen(I_RED_OR, A(0)->getType(), A(0), nullptr, nullptr); return;
      case Intrinsic::vector_reduce_xor: Sh[II] = gen(I_RED_XOR, A(0)->getType(), A(0), nullptr, nullptr); return;
      case Intrinsic::vector_reduce_umax: Sh[II] = gen(I_RED_UMAX, A(0)->getType(), A(0), nullptr, nullptr); return;
      case Intrinsic::vector_reduce_umin: Sh[II] = gen(I_RED_UMIN, A(0)->getType(), A(0), nullptr, nullptr); return;
      case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow:
      case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
        unsigned op, oid;
        switch (id) {
        case Intrinsic::uadd_with_overflow: op = Instruction::Add; oid = I_UADDO; break;
        case Intrinsic::usub_with_overflow: op = Instruction::Sub; oid = I_USUBO; break;
        case Intrinsic::umul_with_overflow: op = Instruction::Mul; oid = I_UMULO; break;
        case Intrinsic::sadd_with_overflow: op = Instruction::Add; oid = I_SADDO; break;
        case Intrinsic::ssub_with_overflow: op = Instruction::Sub; oid = I_SSUBO; break;
        default: op = Instruction::Mul; oid = I_SMULO; break;
        }
        Type *T = A(0)->getType();
        Value *v = guarded(II, {sh(A(0)), sh(A(1))}, [&](IRBuilder<> &B) -> Value * {
          return B.CreateCall(FBin, {i32(op), i32(laneBits(T)), i32(lanes(T)), sh(A(0)), conc(B, A(0)), sh(A(1)), conc(B, A(1))}); });
        Value *o = gen(oid, T, A(0), A(1), nullptr);
        if (isZeroSh(v)) return;
        IRBuilder<> B(cast<Instruction>(v)->getParent()->getFirstNonPHI());
        Value *agg = Constant::getNullValue(shadowTy(II->getType()));
        agg = B.CreateInsertValue(agg, v, 0);
        agg = B.CreateInsertValue(agg, o, 1);
        Sh[II] = agg;
        return;
      }
      case Intrinsic::memcpy: case Intrinsic::memcpy_inline: case Intrinsic::memmove: {
        concretizeOperand(II, 2, "len");
        for (unsigned i = 0; i < 2; i++) concretizeOperand(II, i, "memcpy ptr");
        IRBuilder<> B(II);
        B.CreateCall(FMemcpy, {II->getArgOperand(0), II->getArgOperand(1), B.CreateZExt(II->getArgOperand(2), I64)});
        return;
      }
      case Intrinsic::memset: case Intrinsic::memset_inline: {
        concretizeOperand(II, 2, "len");
        concretizeOperand(II, 0, "memset ptr");
        IRBuilder<> B(II);
        B.CreateCall(FMemset, {A(0), sh(A(1)), A(1), B.CreateZExt(II->getArgOperand(2), I64)});
        return;
      }
      case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::ssa_copy: Sh[II] = sh(A(0)); return;
      case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume:
      case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label:
      case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::objectsize:
      case Intrinsic::is_constant: case Intrinsic::prefetch: case Intrinsic::trap: case Intrinsic::stacksave:
      case Intrinsic::stackrestore: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::eh_typeid_for:
      case Intrinsic::donothing: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group:
      case Intrinsic::vastart: case Intrinsic::vaend: case Intrinsic::threadlocal_address:
        return;
      default: break;
      }
      if (visitX86(II)) return;
      SmallVector<Value *, 4> ops(II->args());
      std::string w = "intr:" + II->getCalledFunction()->getName().str();
      note(II, w.c_str(), ops);
      return;
    }
    Function *Callee = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts());
    if (Callee && Callee->getName().starts_with("__sr")) {
      if (!Callee->getName().starts_with("__srw_")) return;
    }
    if (Callee && Callee->isDeclaration()) {
      auto it = Redirect.find(Callee->getName().str());
      if (it != Redirect.end()) {
        FunctionCallee nf = M.getOrInsertFunction(it->second, CB->getFunctionType());
        CB->setCalledFunction(nf);
        Callee = dyn_cast<Function>(nf.getCallee());
        CB->setAttributes(AttributeList());
      }
    }
    bool ext = Callee && Callee->isDeclaration();
    if (!Callee) {
      // indirect: concretize the target
      unsigned oi = CB->getNumOperands() - 1;
      if (CB->getOperand(oi) == CB->getCalledOperand()) concretizeOperand(CB, oi, "icall");
    }
    IRBuilder<> B(CB);
    unsigned n = 0;
    for (unsigned i = 0; i < CB->arg_size() && n < 240; i++) {
      Value *a = CB->getArgOperand(i);
      if (CB->isByValArgument(i) && i < 64) B.CreateStore(a, B.CreateConstGEP2_64(ByvalSrc->getValueType(), ByvalSrc, 0, i));
      flat(B, sh(a), n, [&](unsigned k, Value *s) { B.CreateStore(s, B.CreateConstGEP2_64(Args->getValueType(), Args, 0, k)); });
    }
    if (!ext || (Callee && Callee->getName().starts_with("sym_")) || (Callee && Callee->getName().starts_with("__srw_")))
      B.CreateStore(CB->getCalledOperand(), Tok);
    else {
      // external code (possibly instrumented in another unit): token plus per-call note
      B.CreateStore(CB->getCalledOperand(), Tok);
      B.CreateStore(i32(n), M.getOrInsertGlobal("__sr_nargs", I32));
      if (n || CB->arg_size())
        B.CreateCall(FExt, {B.CreateGlobalStringPtr(Callee->getName()), CB->getCalledOperand()});
    }
    Type *RT = CB->getType();
    if (RT->isVoidTy() || CB->doesNotReturn()) return;
    if (CB->isMustTailCall()) return;
    B.CreateStore(ConstantPointerNull::get(cast<PointerType>(PtrTy)), RetTok);
    Instruction *ip;
    if (auto *Inv = dyn_cast<InvokeInst>(CB)) {
      BasicBlock *nd = Inv->getNormalDest();
      if (!nd->getSinglePredecessor()) {
        // split the edge by hand (the shadow phis have no incoming values yet)
        BasicBlock *mid = BasicBlock::Create(nd->getContext(), "", nd->getParent(), nd);
        BranchInst::Create(nd, mid);
        Inv->setNormalDest(mid);
        for (PHINode &P : nd->phis())
          for (unsigned i = 0; i < P.getNumIncomingValues(); i++) if (P.getIncomingBlock(i) == Inv->getParent()) { P.setIncomingBlock(i, mid); break; }
        nd = mid;
      }
      ip = &*nd->getFirstInsertionPt();
    } else ip = CB->getNextNode();
    IRBuilder<> RB(ip);
    Value *ok = RB.CreateICmpEQ(RB.CreateLoad(PtrTy, RetTok), CB->getCalledOperand());
    unsigned k = 0;
    if (leaves(RT) > 64) return;
    Sh[CB] = unflat(RB, shadowTy(RT), k, Ret, ok);
  }

  void visit(Instruction *I) {
    if (auto *P = dyn_cast<PHINode>(I)) { (void)P; return; }
    if (auto *BO = dyn_cast<BinaryOperator>(I)) {
      if (!okTy(BO->getType())) { note(I, "float", {BO->getOperand(0), BO->getOperand(1)}); return; }
      Type *T = BO->getType();
      unsigned opc = BO->getOpcode();
      Sh[I] = guarded(I, {sh(BO->getOperand(0)), sh(BO->getOperand(1))}, [&](IRBuilder<> &B) -> Value * {
        return B.CreateCall(FBin, {i32(opc), i32(laneBits(T)), i32(lanes(T)), sh(BO->getOperand(0)), conc(B, BO->getOperand(0)),
                                   sh(BO->getOperand(1)), conc(B, BO->getOperand(1))}); },
        opc == Instruction::UDiv || opc == Instruction::SDiv || opc == Instruction::URem || opc == Instruction::SRem);
      return;
    }
    if (auto *IC = dyn_cast<ICmpInst>(I)) {
      Type *T = IC->getOperand(0)->getType();
      if (!okTy(T)) return;
      Sh[I] = guarded(I, {sh(IC->getOperand(0)), sh(IC->getOperand(1))}, [&](IRBuilder<> &B) -> Value * {
        return B.CreateCall(FCmp, {i32(IC->getPredicate()), i32(laneBits(T)), i32(lanes(T)), sh(IC->getOperand(0)), conc(B, IC->getOperand(0)),
                                   sh(IC->getOperand(1)), conc(B, IC->getOperand(1))}); });
      return;
    }
    if (isa<FCmpInst>(I) || isa<UnaryOperator>(I)) {
      SmallVector<Value *, 2> ops(I->operands()); note(I, "float", ops); return;
    }
    if (auto *CI = dyn_cast<CastInst>(I)) {
      Type *S = CI->getSrcTy(), *D = CI->getDestTy();
      Value *s = sh(CI->getOperand(0));
      switch (CI->getOpcode()) {
      case Instruction::BitCast: if (totalBits(S) == totalBits(D)) Sh[I] = s; return;
      case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: {
        unsigned op = CI->getOpcode() == Instruction::Trunc ? 0 : CI->getOpcode() == Instruction::ZExt ? 1 : 2;
        Sh[I] = guarded(I, {s}, [&](IRBuilder<> &B) -> Value * { return B.CreateCall(FCast, {i32(op), i32(laneBits(S)), i32(laneBits(D)), i32(lanes(S)), s}); });
        return; }
      case Instruction::PtrToInt: case Instruction::IntToPtr: {
        unsigned sb = totalBits(S), db = totalBits(D);
        if (sb == db) Sh[I] = s;
        else Sh[I] = guarded(I, {s}, [&](IRBuilder<> &B) -> Value * { return B.CreateCall(FCast, {i32(db < sb ? 0 : 1), i32(sb), i32(db), i32(1), s}); });
        return; }
      default: note(I, "fpcast", {CI->getOperand(0)}); return;
      }
    }
    if (auto *SI = dyn_cast<SelectInst>(I)) {
      Type *T = SI->getType();
      Value *c = SI->getCondition(), *a = SI->getTrueValue(), *b = SI->getFalseValue();
      if (sh(SI)->getType() != I32) {
        IRBuilder<> B(SI);
        if (!c->getType()->isVectorTy()) {
          SmallVector<Value *, 1> o{c}; note(I, "select-agg", o);
          IRBuilder<> B2(SI->getNextNode());
          Sh[I] = B2.CreateSelect(c, sh(a), sh(b));
        }
        return;
      }
      if (!okTy(T)) { note(I, "fselect", {c}); return; }
      Sh[I] = guarded(I, {sh(c), sh(a), sh(b)}, [&](IRBuilder<> &B) -> Value * {
        return B.CreateCall(FSelect, {i32(laneBits(T)), i32(lanes(T)), i32(lanes(c->getType())), sh(c), conc(B, c), sh(a), conc(B, a), sh(b), conc(B, b)}); });
      return;
    }
    if (isa<LoadInst>(I) || isa<StoreInst>(I)) { visitMem(I); return; }
    if (auto *G = dyn_cast<GetElementPtrInst>(I)) { if (!G->getType()->isVectorTy()) visitGep(G); return; }
    if (auto *FI = dyn_cast<FreezeInst>(I)) { Sh[I] = sh(FI->getOperand(0)); return; }
    if (auto *EV = dyn_cast<ExtractValueInst>(I)) {
      Value *s = sh(EV->getAggregateOperand());
      if (isZeroSh(s)) return;
      IRBuilder<> B(EV->getNextNode());
      Sh[I] = B.CreateExtractValue(s, EV->getIndices());
      return;
    }
    if (auto *IV = dyn_cast<InsertValueInst>(I)) {
      IRBuilder<> B(IV->getNextNode());
      Sh[I] = B.CreateInsertValue(sh(IV->getAggregateOperand()), sh(IV->getInsertedValueOperand()), IV->getIndices());
      return;
    }
    if (auto *EE = dyn_cast<ExtractElementInst>(I)) {
      Type *T = EE->getVectorOperandType();
      if (!okTy(T)) return;
      concretizeOperand(EE, 1, "elt");
      Sh[I] = guarded(I, {sh(EE->getVectorOperand())}, [&](IRBuilder<> &B) -> Value * {
        return B.CreateCall(FExtElt, {i32(laneBits(T)), i32(lanes(T)), sh(EE->getVectorOperand()), i64(0), B.CreateZExtOrTrunc(EE->getIndexOperand(), I64)}); });
      return;
    }
    if (auto *IE = dyn_cast<InsertElementInst>(I)) {
      Type *T = IE->getType();
      if (!okTy(T)) return;
      concretizeOperand(IE, 2, "elt");
      Value *v = IE->getOperand(0), *e = IE->getOperand(1);
      // poison/undef lanes: freeze for concrete spill
      Sh[I] = guarded(I, {sh(v), sh(e)}, [&](IRBuilder<> &B) -> Value * {
        return B.CreateCall(FInsElt, {i32(laneBits(T)), i32(lanes(T)), sh(v), conc(B, B.CreateFreeze(v)), sh(e), conc(B, e), B.CreateZExtOrTrunc(IE->getOperand(2), I64)}); });
      return;
    }
    if (auto *SV = dyn_cast<ShuffleVectorInst>(I)) {
      auto *T = cast<VectorType>(SV->getOperand(0)->getType());
      if (!okTy(T)) return;
      SmallVector<int, 16> m; SV->getShuffleMask(m);
      Sh[I] = guarded(I, {sh(SV->getOperand(0)), sh(SV->getOperand(1))}, [&](IRBuilder<> &B) -> Value * {
        std::vector<uint32_t> mm(m.begin(), m.end());
        Constant *ca = ConstantDataArray::get(C, mm);
        auto *g = new GlobalVariable(M, ca->getType(), true, GlobalValue::PrivateLinkage, ca);
        return B.CreateCall(FShuffle, {i32(laneBits(T)), i32(lanes(T)), sh(SV->getOperand(0)), conc(B, B.CreateFreeze(SV->getOperand(0))),
                                       sh(SV->getOperand(1)), conc(B, B.CreateFreeze(SV->getOperand(1))), i32(m.size()), g}); });
      return;
    }
    if (auto *BI = dyn_cast<BranchInst>(I)) {
      if (!BI->isConditional()) return;
      Value *c = BI->getCondition();
      Value *s = sh(c);
      if (isZeroSh(s)) return;
      IRBuilder<> B(BI);
      Value *cc = B.CreateICmpNE(s, i32(0));
      BasicBlock *head = BI->getParent();
      Instruction *term = SplitBlockAndInsertIfThen(cc, BI, false, MDBuilder(C).createBranchWeights(1, 1000));
      IRBuilder<> TB(term);
      Value *r = TB.CreateCall(FBr, {s, c});
      IRBuilder<> PB(&*BI->getParent()->begin());
      PHINode *p = PB.CreatePHI(I1, 2);
      p->addIncoming(r, term->getParent());
      p->addIncoming(c, head);
      BI->setCondition(p);
      return;
    }
    if (auto *R = dyn_cast<ReturnInst>(I)) {
      Value *v = R->getReturnValue();
      if (!v || leaves(v->getType()) > 64) return;
      if (R->getParent()->getTerminatingMustTailCall()) return;
      IRBuilder<> B(R);
      unsigned n = 0;
      flat(B, sh(v), n, [&](unsigned k, Value *s) { B.CreateStore(s, B.CreateConstGEP2_64(Ret->getValueType(), Ret, 0, k)); });
      B.CreateStore(F, RetTok);
      return;
    }
    if (auto *AI = dyn_cast<AllocaInst>(I)) {
      IRBuilder<> B(AI->getNextNode());
      Value *sz = B.CreateMul(B.CreateZExtOrTrunc(AI->getArraySize(), I64), i64(DL.getTypeAllocSize(AI->getAllocatedType())));
      B.CreateCall(FClear, {AI, sz});
      return;
    }
    if (auto *CB = dyn_cast<CallBase>(I)) { visitCall(CB); return; }
    if (auto *RMW = dyn_cast<AtomicRMWInst>(I)) { IRBuilder<> B(RMW); B.CreateCall(FClear, {RMW->getPointerOperand(), i64(DL.getTypeStoreSize(RMW->getType()))}); return; }
    if (auto *CX = dyn_cast<AtomicCmpXchgInst>(I)) { IRBuilder<> B(CX); B.CreateCall(FClear, {CX->getPointerOperand(), i64(DL.getTypeStoreSize(CX->getNewValOperand()->getType()))}); return; }
  }

  void run(Function &Fn) {
    F = &Fn;
    Sh.clear(); Phis.clear(); Spill.clear(); SpillUse.clear();
    std::vector<Instruction *> order;
    std::vector<BasicBlock *> bbs;
    ReversePostOrderTraversal<Function *> RPO(F);
    for (BasicBlock *BB : RPO) bbs.push_back(BB);
    for (BasicBlock *BB : bbs) for (Instruction &I : *BB) order.push_back(&I);
    // arguments
    {
      Instruction *ip = nullptr;
      for (Instruction &I : F->getEntryBlock()) if (!isa<AllocaInst>(I)) { ip = &I; break; }
      IRBuilder<> B(ip);
      Value *tok = B.CreateLoad(PtrTy, Tok);
      Value *ok = B.CreateICmpEQ(tok, F);
      B.CreateStore(ConstantPointerNull::get(cast<PointerType>(PtrTy)), Tok);
      unsigned n = 0;
      for (Argument &A : F->args()) {
        if (n + leaves(A.getType()) >= 240) break;
        if (A.hasByValAttr() && A.getArgNo() < 64) {
          Value *src = B.CreateLoad(PtrTy, B.CreateConstGEP2_64(ByvalSrc->getValueType(), ByvalSrc, 0, A.getArgNo()));
          src = B.CreateSelect(ok, src, ConstantPointerNull::get(cast<PointerType>(PtrTy)));
          B.CreateCall(FByval, {&A, src, i64(DL.getTypeAllocSize(A.getParamByValType()))});
        }
        Sh[&A] = unflat(B, shadowTy(A.getType()), n, Args, ok);
      }
    }
    // phis first (placeholders)
    for (Instruction *I : order)
      if (auto *P = dyn_cast<PHINode>(I)) {
        IRBuilder<> B(P);
        PHINode *s = B.CreatePHI(shadowTy(P->getType()), P->getNumIncomingValues());
        Sh[P] = s; Phis.push_back({P, s});
      }
    for (Instruction *I : order) visit(I);
    for (auto [P, s] : Phis)
      for (unsigned i = 0; i < P->getNumIncomingValues(); i++)
        s->addIncoming(sh(P->getIncomingValue(i)), P->getIncomingBlock(i));
  }
};

struct SymPass : PassInfoMixin<SymPass> {
  PreservedAnalyses run(Module &M, ModuleAnalysisManager &AM) {
    auto &FAM = AM.getResult<FunctionAnalysisManagerModuleProxy>(M).getManager();
    std::vector<Function *> fs;
    for (Function &F : M) if (!F.isDeclaration() && !F.hasAvailableExternallyLinkage() && !F.getName().starts_with("__sr")) fs.push_back(&F);
    LowerSwitchPass LS;
    for (Function *F : fs) { LS.run(*F, FAM); FAM.invalidate(*F, PreservedAnalyses::none()); removeUnreachableBlocks(*F); }
    // available_externally bodies would hide extern calls; drop them
    for (Function &F : make_early_inc_range(M)) if (F.hasAvailableExternallyLinkage()) { F.deleteBody(); F.setComdat(nullptr); }
    Sym S(M);
    for (Function *F : fs) {
      F->removeFnAttr(Attribute::Memory);
      F->removeFnAttr(Attribute::NoSync);
      F->removeFnAttr(Attribute::WillReturn);
      F->removeFnAttr(Attribute::Speculatable);
      S.run(*F);
      // attributes that no longer hold
      for (Instruction &I : instructions(*F)) if (auto *CB = dyn_cast<CallBase>(&I)) {
        if (isa<IntrinsicInst>(CB)) continue;
        CB->removeFnAttr(Attribute::Memory); CB->removeFnAttr(Attribute::NoSync);
        CB->removeFnAttr(Attribute::WillReturn);
        if (auto *CI = dyn_cast<CallInst>(CB)) if (CI->isTailCall() && !CI->isMustTailCall()) CI->setTailCall(false);
      }
      if (verifyFunction(*F, &errs())) { errs() << "SYMPASS: broken function " << F->getName() << "\n"; report_fatal_error("sympass"); }
    }
    for (Function &F : M) if (F.isDeclaration() && !F.isIntrinsic()) { F.removeFnAttr(Attribute::Memory); F.removeFnAttr(Attribute::WillReturn); }
    return PreservedAnalyses::none();
  }
  void removeUnreachableBlocks(Function &F);
  static bool isRequired() { return true; }
};
} // namespace
#include "llvm/Transforms/Utils/Local.h"
void SymPass::removeUnreachableBlocks(Function &F) { llvm::removeUnreachableBlocks(F); }

extern "C" LLVM_ATTRIBUTE_WEAK ::llvm::PassPluginLibraryInfo llvmGetPassPluginInfo() {
  return {LLVM_PLUGIN_API_VERSION, "SymPass", "1", [](PassBuilder &PB) {
    PB.registerOptimizerLastEPCallback([](ModulePassManager &MPM, OptimizationLevel) { MPM.addPass(SymPass()); });
  }};
}
