// irdump: exports an LLVM module (bitcode) as JSON for the Python abstract
// interpreter.  Usage: irdump in.bc out.json
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/Verifier.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include <map>
#include <set>
#include <string>
using namespace llvm;
using json::Array; using json::Object; using json::Value;
typedef json::Value JV;

static const DataLayout *DL;
static std::map<const llvm::Value *, int> ids;
static std::map<std::string,int> fileIds; static std::vector<std::string> files;

static std::string tyName(Type *T) {
  if (T->isPointerTy()) return "p";
  if (T->isVoidTy()) return "v";
  if (T->isIntegerTy()) return "i" + std::to_string(T->getIntegerBitWidth());
  if (T->isStructTy()) return "s";
  if (T->isArrayTy()) return "a";
  if (T->isFloatingPointTy()) return "f";
  return "o";
}
static JV tyEnc(Type *T) {
  if (auto *S = dyn_cast<StructType>(T)) {
    Array A; A.push_back("s"); Array E; auto *L = DL->getStructLayout(S);
    for (unsigned i = 0; i < S->getNumElements(); ++i)
      E.push_back(Array{(int64_t)L->getElementOffset(i), tyEnc(S->getElementType(i)),
                        (int64_t)DL->getTypeStoreSize(S->getElementType(i)).getFixedValue()});
    A.push_back(std::move(E)); return A;
  }
  if (auto *S = dyn_cast<ArrayType>(T)) {
    Array A; A.push_back("s"); Array E; uint64_t es = DL->getTypeAllocSize(S->getElementType());
    if (S->getNumElements() <= 64)
    for (unsigned i = 0; i < S->getNumElements(); ++i)
      E.push_back(Array{(int64_t)(es*i), tyEnc(S->getElementType()),
                        (int64_t)DL->getTypeStoreSize(S->getElementType()).getFixedValue()});
    A.push_back(std::move(E)); return A;
  }
  return tyName(T);
}
static JV cEnc(const Constant *C) {
  if (auto *I = dyn_cast<ConstantInt>(C)) {
    if (I->getBitWidth() <= 64) return Array{"c", (int64_t)I->getBitWidth(), I->getSExtValue()};
    return Array{"x"};
  }
  if (isa<ConstantPointerNull>(C)) return Array{"n"};
  if (isa<UndefValue>(C)) return Array{"u"};
  if (isa<ConstantAggregateZero>(C)) {
    Type *T = C->getType(); Array A; unsigned n = 0;
    if (auto *S = dyn_cast<StructType>(T)) n = S->getNumElements();
    else if (auto *S2 = dyn_cast<ArrayType>(T)) n = S2->getNumElements();
    if (n > 64) return Array{"x"};
    for (unsigned i = 0; i < n; ++i) A.push_back(cEnc(C->getAggregateElement(i)));
    return Array{"a", std::move(A)};
  }
  if (isa<ConstantStruct>(C) || isa<ConstantArray>(C) || isa<ConstantDataArray>(C)) {
    unsigned n = 0; Type *T = C->getType();
    if (auto *S = dyn_cast<StructType>(T)) n = S->getNumElements(); else n = cast<ArrayType>(T)->getNumElements();
    if (n > 256) return Array{"x"};
    if (auto *D = dyn_cast<ConstantDataArray>(C)) if (D->isString()) return Array{"x"};
    Array A;
    for (unsigned i = 0; i < n; ++i) A.push_back(cEnc(C->getAggregateElement(i)));
    return Array{"a", std::move(A)};
  }
  APInt Off(64, 0);
  if (C->getType()->isPointerTy()) {
    const llvm::Value *B = C->stripAndAccumulateConstantOffsets(*DL, Off, true);
    if (auto *GA = dyn_cast<GlobalAlias>(B)) {
      if (auto *GO = GA->getAliaseeObject()) B = GO;
    }
    if (auto *G = dyn_cast<GlobalValue>(B)) return Array{"g", G->getName(), Off.getSExtValue()};
    if (auto *CE = dyn_cast<ConstantExpr>(B)) if (CE->getOpcode() == Instruction::IntToPtr)
      return Array{"x"};
    return Array{"x"};
  }
  if (auto *CE = dyn_cast<ConstantExpr>(C)) {
    if (CE->getOpcode() == Instruction::PtrToInt) return cEnc(CE->getOperand(0));
    if (CE->getOpcode() == Instruction::Add || CE->getOpcode() == Instruction::Sub)
      if (auto *K = dyn_cast<ConstantInt>(CE->getOperand(1))) {
        JV b = cEnc(CE->getOperand(0));
        if (auto *A = b.getAsArray()) if (A->size() == 3 && (*A)[0] == JV("g")) {
          int64_t o = *(*A)[2].getAsInteger();
          o += CE->getOpcode() == Instruction::Add ? K->getSExtValue() : -K->getSExtValue();
          (*A)[2] = o; return b;
        }
      }
  }
  return Array{"x"};
}
static JV v(const llvm::Value *V) {
  auto it = ids.find(V); if (it != ids.end()) return it->second;
  if (auto *C = dyn_cast<Constant>(V)) return cEnc(C);
  return Array{"x"};
}
static JV loc(const Instruction &I) {
  if (const DebugLoc &D = I.getDebugLoc()) {
    auto *L = D.get(); std::string f = (L->getFilename()).str();
    auto it = fileIds.find(f); int id;
    if (it == fileIds.end()) { id = files.size(); files.push_back(f); fileIds[f] = id; } else id = it->second;
    return Array{id, (int64_t)L->getLine()};
  }
  return nullptr;
}
static std::string qual(const DIScope *S) {
  if (!S) return ""; 
  if (isa<DIFile>(S) || isa<DICompileUnit>(S)) return "";
  std::string p = qual(S->getScope()); std::string n = S->getName().str();
  if (n.empty()) n = isa<DINamespace>(S) ? "(anonymous namespace)" : "(anon)";
  return p.empty() ? n : p + "::" + n;
}
static std::string diTy(const DIType *T) {
  if (!T) return "void";
  if (auto *D = dyn_cast<DIDerivedType>(T)) {
    switch (D->getTag()) {
    case dwarf::DW_TAG_pointer_type: return diTy(D->getBaseType()) + "*";
    case dwarf::DW_TAG_reference_type: return diTy(D->getBaseType()) + "&";
    case dwarf::DW_TAG_const_type: return "const " + diTy(D->getBaseType());
    case dwarf::DW_TAG_typedef: return diTy(D->getBaseType());
    case dwarf::DW_TAG_volatile_type: return "volatile " + diTy(D->getBaseType());
    default: return diTy(D->getBaseType());
    }
  }
  if (auto *C = dyn_cast<DICompositeType>(T)) {
    if (C->getTag() == dwarf::DW_TAG_array_type) return diTy(C->getBaseType()) + "[]";
    return qual(C);
  }
  if (isa<DISubroutineType>(T)) return "func";
  return T->getName().str();
}

int main(int argc, char **argv) {
  LLVMContext Ctx; SMDiagnostic Err;
  auto M = parseIRFile(argv[1], Err, Ctx);
  if (!M) { Err.print(argv[0], errs()); return 2; }
  DL = &M->getDataLayout();
  Object Out; Array Fs;
  for (Function &F : *M) {
    Object FO; FO["name"] = F.getName(); FO["dem"] = demangle(F.getName().str());
    FO["nounwind"] = F.doesNotThrow(); FO["noreturn"] = F.doesNotReturn();
    FO["decl"] = F.isDeclaration(); FO["ret"] = tyEnc(F.getReturnType());
    FO["linkage"] = (int64_t)F.getLinkage();
    if (auto *SP = F.getSubprogram()) { FO["file"] = SP->getFilename(); FO["line"] = (int64_t)SP->getLine(); FO["diname"] = SP->getName();
      FO["scope"] = qual(SP->getScope()); }
    Array At; for (Argument &A : F.args()) {
      Object AO; if (A.hasStructRetAttr()) AO["sret"] = true;
      if (A.hasByValAttr()) AO["byval"] = (int64_t)DL->getTypeAllocSize(A.getParamByValType()).getFixedValue();
      AO["ty"] = tyName(A.getType());
      At.push_back(std::move(AO)); }
    FO["args"] = std::move(At);
    if (F.isDeclaration()) { Fs.push_back(std::move(FO)); continue; }
    ids.clear(); int n = 0; std::map<const BasicBlock *, int> bb;
    for (Argument &A : F.args()) ids[&A] = n++;
    int nb = 0; for (BasicBlock &B : F) { bb[&B] = nb++; for (Instruction &I : B) if (!I.getType()->isVoidTy()) ids[&I] = n++; }
    FO["nlocals"] = n;
    Array Bs;
    for (BasicBlock &B : F) {
      Array Is;
      for (Instruction &I : B) {
        if (isa<DbgInfoIntrinsic>(I)) continue;
        int id = I.getType()->isVoidTy() ? -1 : ids[&I];
        Array A;
        if (auto *X = dyn_cast<AllocaInst>(&I)) {
          A = Array{"alloca", id, (int64_t)DL->getTypeAllocSize(X->getAllocatedType()).getFixedValue()};
        } else if (auto *X = dyn_cast<LoadInst>(&I)) {
          A = Array{"load", id, v(X->getPointerOperand()), tyEnc(X->getType()), (int64_t)DL->getTypeStoreSize(X->getType()).getFixedValue(), loc(I), X->isAtomic()};
        } else if (auto *X = dyn_cast<StoreInst>(&I)) {
          A = Array{"store", v(X->getPointerOperand()), v(X->getValueOperand()), tyEnc(X->getValueOperand()->getType()), (int64_t)DL->getTypeStoreSize(X->getValueOperand()->getType()).getFixedValue(), loc(I), X->isAtomic()};
        } else if (auto *X = dyn_cast<GetElementPtrInst>(&I)) {
          APInt Off(64, 0); MapVector<llvm::Value *, APInt> Var;
          if (cast<GEPOperator>(X)->collectOffset(*DL, 64, Var, Off)) {
            Array VA; for (auto &P : Var) VA.push_back(Array{v(P.first), P.second.getSExtValue()});
            A = Array{"gep", id, v(X->getPointerOperand()), Off.getSExtValue(), std::move(VA)};
          } else A = Array{"unk", id};
        } else if (auto *X = dyn_cast<CmpInst>(&I)) {
          if (isa<ICmpInst>(X)) A = Array{"icmp", id, CmpInst::getPredicateName(X->getPredicate()), v(X->getOperand(0)), v(X->getOperand(1)), tyName(X->getOperand(0)->getType()), loc(I)};
          else A = Array{"unk", id};
        } else if (auto *X = dyn_cast<BinaryOperator>(&I)) {
          A = Array{"bin", id, I.getOpcodeName(), v(X->getOperand(0)), v(X->getOperand(1)), tyName(X->getType()), loc(I)};
        } else if (auto *X = dyn_cast<CastInst>(&I)) {
          A = Array{"cast", id, I.getOpcodeName(), v(X->getOperand(0)), tyName(X->getSrcTy()), tyName(X->getDestTy())};
        } else if (isa<FreezeInst>(&I)) {
          A = Array{"cast", id, "freeze", v(I.getOperand(0)), "o", "o"};
        } else if (auto *X = dyn_cast<PHINode>(&I)) {
          Array P; for (unsigned i = 0; i < X->getNumIncomingValues(); ++i) P.push_back(Array{bb[X->getIncomingBlock(i)], v(X->getIncomingValue(i))});
          A = Array{"phi", id, std::move(P)};
        } else if (auto *X = dyn_cast<SelectInst>(&I)) {
          A = Array{"sel", id, v(X->getCondition()), v(X->getTrueValue()), v(X->getFalseValue())};
        } else if (auto *X = dyn_cast<CallBase>(&I)) {
          Array Ar; Array Bv;
          for (unsigned i = 0; i < X->arg_size(); ++i) {
            if (isa<MetadataAsValue>(X->getArgOperand(i))) {
              auto *MD = cast<MetadataAsValue>(X->getArgOperand(i))->getMetadata();
              if (auto *S = dyn_cast<MDString>(MD)) Ar.push_back(Array{"md", S->getString()}); else Ar.push_back(Array{"md", ""});
            } else Ar.push_back(v(X->getArgOperand(i)));
            if (X->isByValArgument(i)) Bv.push_back(Array{(int64_t)i, (int64_t)DL->getTypeAllocSize(X->getParamByValType(i)).getFixedValue()});
          }
          const llvm::Value *Cal = X->getCalledOperand()->stripPointerCastsAndAliases();
          JV cal = X->isInlineAsm() ? JV(Array{"x"}) : v(Cal);
          bool inv = isa<InvokeInst>(X);
          A = Array{inv ? "invoke" : "call", id, cal, std::move(Ar), tyEnc(X->getType()), X->doesNotThrow(), std::move(Bv), loc(I)};
          if (inv) { A.push_back(bb[cast<InvokeInst>(X)->getNormalDest()]); A.push_back(bb[cast<InvokeInst>(X)->getUnwindDest()]); }
        } else if (auto *X = dyn_cast<BranchInst>(&I)) {
          if (X->isConditional()) A = Array{"br", v(X->getCondition()), bb[X->getSuccessor(0)], bb[X->getSuccessor(1)], loc(I)};
          else A = Array{"jmp", bb[X->getSuccessor(0)]};
        } else if (auto *X = dyn_cast<SwitchInst>(&I)) {
          Array C; for (auto &c : X->cases()) C.push_back(Array{c.getCaseValue()->getSExtValue(), bb[c.getCaseSuccessor()]});
          A = Array{"switch", v(X->getCondition()), bb[X->getDefaultDest()], std::move(C), loc(I)};
        } else if (auto *X = dyn_cast<ReturnInst>(&I)) {
          if (X->getReturnValue()) A = Array{"ret", v(X->getReturnValue()), loc(I)}; else A = Array{"ret", nullptr, loc(I)};
        } else if (isa<ResumeInst>(&I)) { A = Array{"resume", v(I.getOperand(0)), loc(I)};
        } else if (isa<UnreachableInst>(&I)) { A = Array{"unreachable", loc(I)};
        } else if (auto *X = dyn_cast<LandingPadInst>(&I)) {
          Array C; for (unsigned i = 0; i < X->getNumClauses(); ++i) {
            if (X->isCatch(i)) C.push_back(Array{"catch", v(X->getClause(i))}); else C.push_back(Array{"filter"});
          }
          A = Array{"lpad", id, X->isCleanup(), std::move(C)};
        } else if (auto *X = dyn_cast<ExtractValueInst>(&I)) {
          Array Ix; for (unsigned i : X->indices()) Ix.push_back((int64_t)i);
          A = Array{"xv", id, v(X->getAggregateOperand()), std::move(Ix)};
        } else if (auto *X = dyn_cast<InsertValueInst>(&I)) {
          Array Ix; for (unsigned i : X->indices()) Ix.push_back((int64_t)i);
          A = Array{"iv", id, v(X->getAggregateOperand()), v(X->getInsertedValueOperand()), std::move(Ix), tyEnc(X->getType())};
        } else if (auto *X = dyn_cast<AtomicRMWInst>(&I)) {
          A = Array{"rmw", id, AtomicRMWInst::getOperationName(X->getOperation()), v(X->getPointerOperand()), v(X->getValOperand()), (int64_t)DL->getTypeStoreSize(X->getType()).getFixedValue(), loc(I), (int64_t)X->getOrdering()};
        } else if (auto *X = dyn_cast<AtomicCmpXchgInst>(&I)) {
          A = Array{"cmpxchg", id, v(X->getPointerOperand()), v(X->getCompareOperand()), v(X->getNewValOperand()), (int64_t)DL->getTypeStoreSize(X->getNewValOperand()->getType()).getFixedValue(), loc(I)};
        } else if (isa<FenceInst>(&I)) { A = Array{"fence"};
        } else A = Array{"unk", id, I.getOpcodeName()};
        Is.push_back(std::move(A));
      }
      Bs.push_back(std::move(Is));
    }
    FO["blocks"] = std::move(Bs);
    Fs.push_back(std::move(FO));
  }
  Out["functions"] = std::move(Fs);
  Array Gs;
  for (GlobalVariable &G : M->globals()) {
    Object O; O["name"] = G.getName(); O["dem"] = demangle(G.getName().str()); O["const"] = G.isConstant(); O["decl"] = G.isDeclaration();
    O["tls"] = G.isThreadLocal(); O["linkage"] = (int64_t)G.getLinkage();
    O["size"] = G.getValueType()->isSized() ? (int64_t)DL->getTypeAllocSize(G.getValueType()).getFixedValue() : 0;
    if (G.hasInitializer()) { O["ty"] = tyEnc(G.getValueType()); O["init"] = cEnc(G.getInitializer()); }
    SmallVector<DIGlobalVariableExpression *, 1> DI; G.getDebugInfo(DI);
    for (auto *E : DI) if (auto *V = E->getVariable()) { O["file"] = V->getFilename(); O["line"] = (int64_t)V->getLine(); O["diname"] = V->getName();
      O["scope"] = qual(V->getScope()); }
    SmallVector<MDNode *, 4> Ts; G.getMetadata(LLVMContext::MD_type, Ts);
    Array TA; for (auto *N : Ts) {
      auto *Off = dyn_cast<ConstantAsMetadata>(N->getOperand(0)); 
      if (auto *S = dyn_cast<MDString>(N->getOperand(1))) TA.push_back(Array{cast<ConstantInt>(Off->getValue())->getSExtValue(), S->getString()});
    }
    O["types"] = std::move(TA);
    Gs.push_back(std::move(O));
  }
  Out["globals"] = std::move(Gs);
  // debug-info classes
  DebugInfoFinder DF; DF.processModule(*M);
  Array Cs; std::set<const DIType *> seen;
  for (DIType *T : DF.types()) {
    auto *C = dyn_cast<DICompositeType>(T); if (!C || C->isForwardDecl() || !seen.insert(C).second) continue;
    if (C->getTag() != dwarf::DW_TAG_class_type && C->getTag() != dwarf::DW_TAG_structure_type) continue;
    Object O; O["name"] = qual(C); O["id"] = C->getIdentifier(); O["size"] = (int64_t)C->getSizeInBits() / 8;
    O["file"] = C->getFilename(); O["line"] = (int64_t)C->getLine();
    Array Mm, Ba, Vm;
    for (auto *E : C->getElements()) {
      if (auto *D = dyn_cast_or_null<DIDerivedType>(E)) {
        if (D->getTag() == dwarf::DW_TAG_inheritance) Ba.push_back(Array{diTy(D->getBaseType()), (int64_t)D->getOffsetInBits() / 8});
        else if (D->getTag() == dwarf::DW_TAG_member && !D->isStaticMember())
          Mm.push_back(Array{D->getName(), (int64_t)D->getOffsetInBits() / 8, diTy(D->getBaseType()), (int64_t)D->getSizeInBits() / 8});
      } else if (auto *S = dyn_cast_or_null<DISubprogram>(E)) {
        if (S->getVirtuality()) Vm.push_back(Array{S->getName(), S->getLinkageName(), (int64_t)S->getVirtualIndex()});
      }
    }
    O["members"] = std::move(Mm); O["bases"] = std::move(Ba); O["virtuals"] = std::move(Vm);
    Cs.push_back(std::move(O));
  }
  Out["classes"] = std::move(Cs);
  Array FA; for (auto &f : files) FA.push_back(f); Out["files"] = std::move(FA);
  std::error_code EC; raw_fd_ostream OS(argv[2], EC); if (EC) return 3;
  OS << JV(std::move(Out)); return 0;
}
