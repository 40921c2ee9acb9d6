// irfacts: link bitcode files, inline functions that are not in the baseline list, run mem2reg, and dump
// the resulting SSA program as JSON (one object per line) for the Python rules.  Nothing is executed.
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/CFG.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/IPO/AlwaysInliner.h"
#include "llvm/Transforms/Utils/Mem2Reg.h"
#include "llvm/Transforms/Scalar/SimplifyCFG.h"
#include "llvm/Transforms/Scalar/LoopPassManager.h"
#include "llvm/Transforms/Utils/LowerSwitch.h"
#include "llvm/Transforms/Scalar/LoopUnrollPass.h"
#include "llvm/Transforms/Scalar/EarlyCSE.h"
#include "llvm/Transforms/Utils/LoopSimplify.h"
#include "llvm/Transforms/Utils/LCSSA.h"
#include "llvm/Transforms/Utils/Local.h"
#include "llvm/Transforms/Utils/PromoteMemToReg.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Analysis/ScalarEvolution.h"
#include "llvm/IR/Dominators.h"
#include <map>
#include <set>
#include <fstream>
using namespace llvm;

static cl::list<std::string> Inputs(cl::Positional, cl::OneOrMore);
static cl::opt<std::string> Out("o", cl::Required);
static cl::opt<std::string> Keep("keep", cl::desc("file with names of functions that are not inlined"));
static cl::opt<bool> Link("link", cl::init(true));

static std::map<std::string, std::vector<std::string>> Fields;   // struct name -> member names
static std::map<std::string, std::vector<std::string>> FieldTys;

static std::string stripSuffix(StringRef n) {
  if (n.starts_with("struct.")) n = n.drop_front(7);
  else if (n.starts_with("union.")) n = n.drop_front(6);
  size_t p = n.rfind('.');
  if (p != StringRef::npos && p + 1 < n.size() && n.substr(p + 1).find_first_not_of("0123456789") == StringRef::npos) n = n.substr(0, p);
  return n.str();
}
static std::string diTypeName(const DIType *T) {
  if (!T) return "void";
  if (auto *D = dyn_cast<DIDerivedType>(T)) {
    if (D->getTag() == dwarf::DW_TAG_pointer_type) return diTypeName(D->getBaseType()) + "*";
    if (D->getTag() == dwarf::DW_TAG_typedef) return D->getName().str();
    if (D->getTag() == dwarf::DW_TAG_const_type || D->getTag() == dwarf::DW_TAG_restrict_type || D->getTag() == dwarf::DW_TAG_volatile_type) return diTypeName(D->getBaseType());
    return diTypeName(D->getBaseType());
  }
  if (auto *C = dyn_cast<DICompositeType>(T)) {
    if (C->getTag() == dwarf::DW_TAG_array_type) {
      std::string s = diTypeName(C->getBaseType());
      for (auto *E : C->getElements()) if (auto *S = dyn_cast<DISubrange>(E)) {
        if (auto *CI = dyn_cast_if_present<ConstantInt *>(S->getCount())) s += "[" + std::to_string(CI->getSExtValue()) + "]"; else s += "[]";
      }
      return s;
    }
    return C->getName().str();
  }
  if (isa<DISubroutineType>(T)) return "fn";
  return T->getName().str();
}
static void addFields(StringRef name, const DICompositeType *C) {
  if (name.empty() || !C || C->isForwardDecl()) return;
  std::vector<std::string> f, ft;
  for (auto *E : C->getElements()) if (auto *D = dyn_cast<DIDerivedType>(E)) if (D->getTag() == dwarf::DW_TAG_member) { f.push_back(D->getName().str()); ft.push_back(diTypeName(D->getBaseType())); }
  if (!f.empty()) { Fields[name.str()] = f; FieldTys[name.str()] = ft; }
}

static std::string tyStr(Type *T) { std::string s; raw_string_ostream os(s); T->print(os, false, true); return s; }

struct FnDump {
  Function &F;
  std::map<const Value *, int> Id;
  std::map<const BasicBlock *, int> Bid;
  FnDump(Function &F) : F(F) {
    int n = 0; for (auto &B : F) { Bid[&B] = (int)Bid.size(); for (auto &I : B) Id[&I] = n++; }
  }
  json::Value op(const Value *V) {
    if (auto *I = dyn_cast<Instruction>(V)) return json::Array{"v", Id[I]};
    if (auto *A = dyn_cast<Argument>(V)) return json::Array{"a", (int)A->getArgNo()};
    if (auto *B = dyn_cast<BasicBlock>(V)) return json::Array{"b", Bid[B]};
    if (auto *C = dyn_cast<ConstantInt>(V)) {
      if (C->getBitWidth() <= 64) return json::Array{"i", C->getSExtValue()};
      return json::Array{"x", "bigint"};
    }
    if (auto *C = dyn_cast<ConstantFP>(V)) {
      if (C->getType()->isDoubleTy() || C->getType()->isFloatTy()) {
        double d = C->getType()->isDoubleTy() ? C->getValueAPF().convertToDouble() : (double)C->getValueAPF().convertToFloat();
        if (std::isfinite(d)) return json::Array{"f", d};
        return json::Array{"fx", std::isnan(d) ? "nan" : (d > 0 ? "inf" : "-inf")};
      }
      std::string s; raw_string_ostream os(s); C->print(os); return json::Array{"x", s};
    }
    if (isa<ConstantPointerNull>(V)) return json::Array{"n"};
    if (isa<PoisonValue>(V) || isa<UndefValue>(V)) return json::Array{"u"};
    if (isa<ConstantAggregateZero>(V)) return json::Array{"z"};
    if (auto *G = dyn_cast<GlobalVariable>(V)) {
      if (G->isConstant() && G->hasInitializer()) {
        if (auto *D = dyn_cast<ConstantDataArray>(G->getInitializer())) if (D->isString()) {
          std::string s = D->getAsString().str(); size_t p = s.find('\0'); if (p != std::string::npos) s.resize(p);
          return json::Array{"s", json::fixUTF8(s)};
        }
        if (isa<ConstantAggregateZero>(G->getInitializer()) && G->getValueType()->isArrayTy() && G->getName().starts_with(".str")) return json::Array{"s", ""};
      }
      return json::Array{"g", G->getName()};
    }
    if (auto *Fn = dyn_cast<Function>(V)) return json::Array{"fn", Fn->getName()};
    if (auto *CE = dyn_cast<ConstantExpr>(V)) {
      if (auto *G = dyn_cast<GEPOperator>(CE)) { json::Array a{"gep", op(G->getPointerOperand()), path(G)}; return a; }
      if (CE->isCast()) return op(CE->getOperand(0));
    }
    if (isa<MetadataAsValue>(V)) return json::Array{"m"};
    std::string s; raw_string_ostream os(s); V->print(os); return json::Array{"x", s};
  }
  json::Array path(const GEPOperator *G) {
    json::Array p; Type *T = G->getSourceElementType();
    // a struct passed in registers is addressed through an unnamed type: use the names of the local it lives in
    StructType *named = nullptr;
    if (auto *S = dyn_cast<StructType>(T)) if (!S->hasName()) if (auto *A = dyn_cast<AllocaInst>(G->getPointerOperand())) if (auto *SA = dyn_cast<StructType>(A->getAllocatedType())) if (SA->hasName() && SA->getNumElements() == S->getNumElements()) named = SA;
    bool first = true;
    for (auto it = G->idx_begin(); it != G->idx_end(); ++it) {
      const Value *ix = *it;
      if (first) {
        first = false;
        auto *C = dyn_cast<ConstantInt>(ix);
        if (!(C && C->isZero() && (T->isStructTy() || T->isArrayTy()))) p.push_back(json::Array{"p", op(ix), tyStr(T)});
        continue;
      }
      if (auto *S = dyn_cast<StructType>(T)) {
        unsigned k = (unsigned)cast<ConstantInt>(ix)->getZExtValue();
        if (!S->hasName() && named) S = named;
        std::string sn = S->hasName() ? stripSuffix(S->getName()) : "";
        auto fi = Fields.find(sn);
        std::string fn = (fi != Fields.end() && fi->second.size() == S->getNumElements()) ? fi->second[k] : "#" + std::to_string(k);
        p.push_back(json::Array{"f", fn, sn});
        T = S->getElementType(k); named = nullptr;
      } else if (T->isArrayTy()) { T = T->getArrayElementType(); p.push_back(json::Array{"x", op(ix), tyStr(T)}); }
      else { p.push_back(json::Array{"?"}); }
    }
    return p;
  }
  json::Object dump() {
    json::Object o; o["name"] = F.getName();
    if (auto *SP = F.getSubprogram()) { o["file"] = SP->getFilename(); o["line"] = (int)SP->getLine(); o["src"] = SP->getName(); 
      json::Array dts; if (auto *ST = SP->getType()) for (auto *t : ST->getTypeArray()) dts.push_back(diTypeName(t)); o["ditypes"] = std::move(dts);
    }
    o["ret"] = tyStr(F.getReturnType());
    json::Array args; for (auto &A : F.args()) {
      json::Object a; a["name"] = A.getName(); a["ty"] = tyStr(A.getType());
      if (A.hasByValAttr()) a["byval"] = stripSuffix(tyStr(A.getParamByValType()).substr(1));
      if (A.hasStructRetAttr()) a["sret"] = stripSuffix(tyStr(A.getParamStructRetType()).substr(1));
      args.push_back(std::move(a)); }
    // debug variable names/types for arguments
    std::map<const Value*, std::pair<std::string,std::string>> DV;
    for (auto &B : F) for (auto &I : B) {
      if (auto *D = dyn_cast<DbgVariableIntrinsic>(&I)) { if (D->getNumVariableLocationOps()) { auto *v = D->getVariableLocationOp(0); if (v) { auto *dv = D->getVariable(); if (!DV.count(v)) DV[v] = {dv->getName().str(), diTypeName(dv->getType())}; } } }
    }
    for (auto &A : F.args()) { auto it = DV.find(&A); if (it != DV.end()) { auto *ao = args[A.getArgNo()].getAsObject(); (*ao)["dn"] = it->second.first; (*ao)["dt"] = it->second.second; } }
    o["args"] = std::move(args);
    json::Array blocks;
    for (auto &B : F) {
      json::Object bo; json::Array insts;
      for (auto &I : B) {
        if (isa<DbgInfoIntrinsic>(&I)) continue;
        json::Object io; io["id"] = Id[&I]; io["op"] = I.getOpcodeName();
        if (!I.getType()->isVoidTy()) io["ty"] = tyStr(I.getType());
        if (auto *ST = dyn_cast<StoreInst>(&I)) io["vty"] = tyStr(ST->getValueOperand()->getType());
        auto dv = DV.find(&I); if (dv != DV.end()) { io["dn"] = dv->second.first; io["dt"] = dv->second.second; }
        else if (I.hasName()) io["nm"] = I.getName();
        if (auto &DL = I.getDebugLoc()) { io["ln"] = (int)DL.getLine(); 
          if (auto *S = DL->getScope()) { if (S->getFilename() != (F.getSubprogram() ? F.getSubprogram()->getFilename() : "")) io["fl"] = S->getFilename(); } }
        json::Array ops;
        if (auto *P = dyn_cast<PHINode>(&I)) { for (unsigned k = 0; k < P->getNumIncomingValues(); k++) ops.push_back(json::Array{op(P->getIncomingValue(k)), Bid[P->getIncomingBlock(k)]}); }
        else if (auto *C = dyn_cast<CallBase>(&I)) {
          io["callee"] = op(C->getCalledOperand());
          for (auto &A : C->args()) ops.push_back(op(A.get()));
          json::Array bv; for (unsigned k = 0; k < C->arg_size(); k++) if (C->isByValArgument(k)) bv.push_back((int)k);
          if (!bv.empty()) io["byval"] = std::move(bv);
        } else if (auto *G = dyn_cast<GetElementPtrInst>(&I)) { ops.push_back(op(G->getPointerOperand())); io["path"] = path(cast<GEPOperator>(G)); }
        else if (auto *S = dyn_cast<SwitchInst>(&I)) { ops.push_back(op(S->getCondition())); json::Array cs; cs.push_back(json::Array{nullptr, Bid[S->getDefaultDest()]}); for (auto &c : S->cases()) cs.push_back(json::Array{c.getCaseValue()->getSExtValue(), Bid[c.getCaseSuccessor()]}); io["cases"] = std::move(cs); }
        else if (auto *A = dyn_cast<AllocaInst>(&I)) { io["aty"] = tyStr(A->getAllocatedType()); if (auto *ST = dyn_cast<StructType>(A->getAllocatedType())) if (ST->hasName()) io["st"] = stripSuffix(ST->getName()); if (A->isArrayAllocation()) ops.push_back(op(A->getArraySize())); }
        else for (auto &U : I.operands()) ops.push_back(op(U.get()));
        if (auto *X = dyn_cast<ExtractValueInst>(&I)) io["ix"] = (int)X->getIndices()[0];
        if (auto *X = dyn_cast<InsertValueInst>(&I)) io["ix"] = (int)X->getIndices()[0];
        if (auto *C = dyn_cast<CmpInst>(&I)) io["pred"] = CmpInst::getPredicateName(C->getPredicate());
        if (auto *L = dyn_cast<LoadInst>(&I)) { io["sz"] = (int)F.getParent()->getDataLayout().getTypeStoreSize(L->getType()); }
        if (auto *R = dyn_cast<AtomicRMWInst>(&I)) { io["rmw"] = AtomicRMWInst::getOperationName(R->getOperation()); }
        io["ops"] = std::move(ops);
        insts.push_back(std::move(io));
      }
      bo["i"] = std::move(insts);
      json::Array succ; for (auto *S : successors(&B)) succ.push_back(Bid[S]); bo["s"] = std::move(succ);
      bo["n"] = B.getName();
      blocks.push_back(std::move(bo));
    }
    o["blocks"] = std::move(blocks);
    return o;
  }
};

// Tables: a small local array that a counted loop runs over ("double *f[] = {a, b}; for (i...) f[i][k] = ...") is another way to
// write the statements one by one.  Unroll such loops and turn the table into separate variables.
static const Value *through(const Value *v) {
  for (;;) { if (auto *C = dyn_cast<CastInst>(v)) v = C->getOperand(0);
    else if (auto *B = dyn_cast<BinaryOperator>(v)) { if (isa<ConstantInt>(B->getOperand(1))) v = B->getOperand(0); else if (isa<ConstantInt>(B->getOperand(0))) v = B->getOperand(1); else return v; }
    else return v; } }
static bool table(const AllocaInst *A) {
  auto *T = dyn_cast<ArrayType>(A->getAllocatedType());
  return T && T->getNumElements() <= 32 && (T->getElementType()->isPointerTy() || T->getElementType()->isDoubleTy() || T->getElementType()->isFloatTy() || T->getElementType()->isIntegerTy(32)); }
// every address derived from the table, with its element number (constant), or failure
static bool elems(Instruction *p, int64_t off, unsigned sz, unsigned n, Type *E, const DataLayout &DL, std::vector<std::pair<Instruction *, int64_t>> &acc, std::vector<Instruction *> &geps) {
  for (auto *U : p->users()) {
    if (auto *G = dyn_cast<GetElementPtrInst>(U)) {
      APInt o(64, 0); if (G->getPointerOperand() != p || !G->accumulateConstantOffset(DL, o)) return false;
      if (!elems(G, off + o.getSExtValue(), sz, n, E, DL, acc, geps)) return false;
      geps.push_back(G);
    } else if (isa<LoadInst>(U) || isa<StoreInst>(U)) {
      auto *S = dyn_cast<StoreInst>(U); if (S && S->getValueOperand() == p) return false;
      if ((S ? S->getValueOperand()->getType() : U->getType()) != E || off % sz || off < 0 || off / sz >= n) return false;
      acc.push_back({cast<Instruction>(U), off / sz});
    } else if (auto *C = dyn_cast<MemCpyInst>(U)) { auto *G = dyn_cast<GlobalVariable>(C->getSource()->stripPointerCasts()); if (off || C->getDest() != p || !G || !G->isConstant() || !G->hasInitializer() || G->getValueType() != ArrayType::get(E, n)) return false; acc.push_back({C, 0}); }
    else if (auto *C = dyn_cast<MemSetInst>(U)) { auto *z = dyn_cast<ConstantInt>(C->getValue()), *l = dyn_cast<ConstantInt>(C->getLength()); if (off || C->getDest() != p || !z || !z->isZero() || !l || l->getZExtValue() != (uint64_t)sz * n) return false; acc.push_back({C, 0}); }
    else if (auto *I = dyn_cast<IntrinsicInst>(U)) { if (!I->isLifetimeStartOrEnd()) return false; geps.push_back(I); }
    else return false;
  }
  return true; }
static void tables(Function &F, FunctionAnalysisManager &FAM) {
  bool any = false;
  { auto &LI = FAM.getResult<LoopAnalysis>(F); auto &SE = FAM.getResult<ScalarEvolutionAnalysis>(F); auto &C = F.getContext();
    for (auto &I : instructions(F)) if (auto *A = dyn_cast<AllocaInst>(&I)) if (table(A)) for (auto *U : A->users()) if (auto *G = dyn_cast<GetElementPtrInst>(U)) if (!G->hasAllConstantIndices()) {
      auto *P = dyn_cast<PHINode>(through(G->getOperand(G->getNumOperands() - 1))); if (!P) continue;
      auto *L = LI.getLoopFor(P->getParent()); if (!L || L->getHeader() != P->getParent() || !L->contains(G)) continue;
      unsigned n = SE.getSmallConstantMaxTripCount(L); if (!n || n > 40) continue;
      SmallVector<Metadata *, 2> ops{nullptr, MDNode::get(C, MDString::get(C, "llvm.loop.unroll.full"))};
      auto *N = MDNode::getDistinct(C, ops); N->replaceOperandWith(0, N); L->setLoopID(N); any = true; } }
  if (!any) return;
  FunctionPassManager P; P.addPass(LoopSimplifyPass()); P.addPass(LCSSAPass()); P.addPass(LoopUnrollPass(LoopUnrollOptions(2, true, false)));
  FAM.invalidate(F, P.run(F, FAM));
  for (auto &B : F) ConstantFoldTerminator(&B);
  removeUnreachableBlocks(F); FAM.invalidate(F, PreservedAnalyses::none());
  std::vector<AllocaInst *> z; for (auto &I : instructions(F)) if (auto *A = dyn_cast<AllocaInst>(&I)) if (table(A)) z.push_back(A);
  std::vector<AllocaInst *> parts; auto &DL = F.getParent()->getDataLayout();
  for (auto *A : z) {
    auto *T = cast<ArrayType>(A->getAllocatedType()); auto *E = T->getElementType(); std::vector<AllocaInst *> v;
    std::vector<std::pair<Instruction *, int64_t>> acc; std::vector<Instruction *> geps;
    if (!elems(A, 0, DL.getTypeAllocSize(E), T->getNumElements(), E, DL, acc, geps)) continue;
    for (unsigned k = 0; k < T->getNumElements(); k++) v.push_back(new AllocaInst(E, A->getAddressSpace(), A->getName() + "." + Twine(k), A));
    for (auto &a : acc) {
      if (auto *C = dyn_cast<MemCpyInst>(a.first)) { auto *in = cast<GlobalVariable>(C->getSource()->stripPointerCasts())->getInitializer(); for (unsigned k = 0; k < v.size(); k++) { auto *S = new StoreInst(in->getAggregateElement(k), v[k], C); S->setDebugLoc(C->getDebugLoc()); } C->eraseFromParent(); }
      else if (auto *C = dyn_cast<MemSetInst>(a.first)) { for (auto *q : v) { auto *S = new StoreInst(Constant::getNullValue(E), q, C); S->setDebugLoc(C->getDebugLoc()); } C->eraseFromParent(); }
      else a.first->setOperand(isa<LoadInst>(a.first) ? 0 : 1, v[a.second]);
    }
    for (auto *g : geps) g->eraseFromParent();
    A->eraseFromParent(); for (auto *a : v) parts.push_back(a); }
  std::vector<AllocaInst *> pr; for (auto *a : parts) if (isAllocaPromotable(a)) pr.push_back(a);
  FAM.invalidate(F, PreservedAnalyses::none());
  if (!pr.empty()) PromoteMemToReg(pr, FAM.getResult<DominatorTreeAnalysis>(F));
  errs() << "TABLE " << F.getName() << " " << z.size() << "\n";
}

int main(int argc, char **argv) {
  cl::ParseCommandLineOptions(argc, argv, "irfacts\n");
  LLVMContext Ctx; SMDiagnostic Err;
  auto M = std::make_unique<Module>("all", Ctx); Linker L(*M);
  for (auto &f : Inputs) { auto m = parseIRFile(f, Err, Ctx); if (!m) { Err.print("irfacts", errs()); return 2; }
    if (L.linkInModule(std::move(m))) { errs() << "link failed " << f << "\n"; return 2; } }
  std::set<std::string> keep, both; bool haveKeep = false;
  if (!Keep.empty()) { haveKeep = true; std::ifstream is(Keep); std::string s; while (std::getline(is, s)) if (!s.empty()) { if (s[0] == '=') both.insert(s.substr(1)); else keep.insert(s); } }
  for (auto &F : *M) {
    if (F.isDeclaration()) continue;
    if (both.count(F.getName().str())) { F.removeFnAttr(Attribute::NoInline); F.removeFnAttr(Attribute::OptimizeNone); F.addFnAttr(Attribute::AlwaysInline); continue; }   // small array utility: folded in everywhere, and dumped too
    if (haveKeep && !keep.count(F.getName().str()) && F.getName().find(".omp") == StringRef::npos && F.getName() != "main") {
      // a function the baseline does not have: an extracted helper; fold it back where it is called
      bool self = false; for (auto &I : instructions(F)) if (auto *C = dyn_cast<CallBase>(&I)) if (C->getCalledFunction() == &F) self = true;
      if (!self) { F.removeFnAttr(Attribute::NoInline); F.removeFnAttr(Attribute::OptimizeNone); F.addFnAttr(Attribute::AlwaysInline); F.setLinkage(GlobalValue::InternalLinkage); errs() << "INLINE " << F.getName() << "\n"; }
    }
  }
  // The inliner folds an all-zero GEP (the first member of a struct, element 0 of an array) into its base pointer
  // and the member's name is lost.  Hide them behind a marker call for the time of the inlining.
  std::vector<std::pair<Type *, SmallVector<Value *, 4>>> hidden;
  auto *PT = PointerType::getUnqual(Ctx); auto *I32 = Type::getInt32Ty(Ctx);
  auto *MK = Function::Create(FunctionType::get(PT, {PT, I32}, false), GlobalValue::ExternalLinkage, "vf.f0", M.get());
  MK->setDoesNotAccessMemory(); MK->setDoesNotThrow(); MK->addFnAttr(Attribute::WillReturn);
  { std::vector<GetElementPtrInst *> z;      // p + 0 is p
    for (auto &F : *M) if (!F.isDeclaration()) for (auto &I : instructions(F)) if (auto *G = dyn_cast<GetElementPtrInst>(&I)) if (G->getNumIndices() == 1 && G->hasAllZeroIndices() && G->getType()->isPointerTy()) z.push_back(G);
    for (auto *G : z) { G->replaceAllUsesWith(G->getPointerOperand()); G->eraseFromParent(); } }
  { std::vector<GetElementPtrInst *> z;
    for (auto &F : *M) if (!F.isDeclaration()) for (auto &I : instructions(F)) if (auto *G = dyn_cast<GetElementPtrInst>(&I))
      if (G->getNumIndices() >= 2 && G->hasAllZeroIndices() && G->getType()->isPointerTy() && (G->getSourceElementType()->isStructTy() || G->getSourceElementType()->isArrayTy())) z.push_back(G);
    for (auto *G : z) {
      SmallVector<Value *, 4> ix(G->idx_begin(), G->idx_end()); hidden.push_back({G->getSourceElementType(), ix});
      auto *C = CallInst::Create(MK->getFunctionType(), MK, {G->getPointerOperand(), ConstantInt::get(I32, hidden.size() - 1)}, "", G);
      C->takeName(G); C->setDebugLoc(G->getDebugLoc()); G->replaceAllUsesWith(C); G->eraseFromParent(); } }
  PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
  PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  ModulePassManager MPM; MPM.addPass(AlwaysInlinerPass(false));
  FunctionPassManager FPM; FPM.addPass(PromotePass());
  MPM.addPass(createModuleToFunctionPassAdaptor(std::move(FPM)));
  MPM.run(*M, MAM);
  { std::vector<CallInst *> z;
    for (auto &F : *M) if (!F.isDeclaration()) for (auto &I : instructions(F)) if (auto *C = dyn_cast<CallInst>(&I)) if (C->getCalledFunction() == MK) z.push_back(C);
    for (auto *C : z) {
      auto &h = hidden[cast<ConstantInt>(C->getArgOperand(1))->getZExtValue()];
      auto *G = GetElementPtrInst::CreateInBounds(h.first, C->getArgOperand(0), h.second, "", C);
      G->takeName(C); G->setDebugLoc(C->getDebugLoc()); C->replaceAllUsesWith(G); C->eraseFromParent(); }
    MK->eraseFromParent(); }
  // *p and p[0] are the same element: write both as p[0]
  for (auto &F : *M) if (!F.isDeclaration()) {
    std::vector<Instruction *> z;
    for (auto &I : instructions(F)) if (isa<LoadInst>(I) || isa<StoreInst>(I)) {
      Value *p = getLoadStorePointerOperand(&I); if (isa<Argument>(p) || isa<LoadInst>(p) || isa<CallBase>(p) || isa<PHINode>(p) || isa<SelectInst>(p)) z.push_back(&I); }
    for (auto *I : z) {
      unsigned k = isa<LoadInst>(I) ? 0 : 1; Type *T = isa<LoadInst>(I) ? I->getType() : I->getOperand(0)->getType(); if (T->isStructTy() || T->isArrayTy()) continue;
      auto *G = GetElementPtrInst::CreateInBounds(T, I->getOperand(k), {ConstantInt::get(Type::getInt64Ty(Ctx), 0)}, "", I); G->setDebugLoc(I->getDebugLoc()); I->setOperand(k, G); } }

  for (auto &F : *M) if (!F.isDeclaration()) tables(F, FAM);
  DebugInfoFinder DF; DF.processModule(*M);
  for (auto *T : DF.types()) {
    if (auto *C = dyn_cast<DICompositeType>(T)) addFields(C->getName(), C);
    if (auto *D = dyn_cast<DIDerivedType>(T)) if (D->getTag() == dwarf::DW_TAG_typedef) if (auto *C = dyn_cast_or_null<DICompositeType>(D->getBaseType())) addFields(D->getName(), C);
  }
  std::error_code EC; raw_fd_ostream os(Out, EC); if (EC) { errs() << EC.message() << "\n"; return 2; }
  { json::Object h; json::Object st; for (auto &p : Fields) { json::Array a; for (size_t k = 0; k < p.second.size(); k++) a.push_back(json::Array{p.second[k], FieldTys[p.first][k]}); st[p.first] = std::move(a); } h["structs"] = std::move(st);
    json::Array gl; for (auto &G : M->globals()) { if (G.getName().starts_with(".str")) continue; json::Object g; g["name"] = G.getName(); g["const"] = G.isConstant(); g["ty"] = tyStr(G.getValueType()); g["decl"] = G.isDeclaration();
      SmallVector<DIGlobalVariableExpression *, 1> ges; G.getDebugInfo(ges); if (!ges.empty()) { auto *v = ges[0]->getVariable(); g["dn"] = v->getName(); g["file"] = v->getFilename(); g["line"] = (int)v->getLine(); g["local"] = v->isLocalToUnit(); }
      if (G.isConstant() && G.hasInitializer()) if (auto *A = dyn_cast<ArrayType>(G.getValueType())) if (A->getNumElements() <= 64 && (A->getElementType()->isDoubleTy() || A->getElementType()->isIntegerTy(32))) {
        json::Array in; for (unsigned k = 0; k < A->getNumElements(); k++) { auto *e = G.getInitializer()->getAggregateElement(k);
          if (auto *c = dyn_cast_or_null<ConstantFP>(e)) { double d = c->getValueAPF().convertToDouble(); if (std::isfinite(d)) in.push_back(d); else in.push_back(nullptr); } else if (auto *c = dyn_cast_or_null<ConstantInt>(e)) in.push_back(c->getSExtValue()); else in.push_back(nullptr); }
        g["init"] = std::move(in); }
      gl.push_back(std::move(g)); } h["globals"] = std::move(gl);
    json::Array en; for (auto *T : DF.types()) if (auto *C = dyn_cast<DICompositeType>(T)) if (C->getTag() == dwarf::DW_TAG_enumeration_type) { json::Object e; e["name"] = C->getName(); json::Array es; for (auto *E : C->getElements()) if (auto *D = dyn_cast<DIEnumerator>(E)) es.push_back(json::Array{D->getName(), (int64_t)D->getValue().getSExtValue()}); e["vals"] = std::move(es); en.push_back(std::move(e)); } h["enums"] = std::move(en);
    os << json::Value(std::move(h)) << "\n"; }
  for (auto &F : *M) { if (F.isDeclaration()) continue; if (F.hasFnAttribute(Attribute::AlwaysInline) && F.hasInternalLinkage() && F.use_empty()) continue; FnDump D(F); os << json::Value(D.dump()) << "\n"; }
  return 0;
}
