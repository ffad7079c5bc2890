// irdump: read one LLVM module, promote stack slots to SSA, and write the
// resolved program (types, globals with initialisers, CFG, instructions,
// debug-info struct layouts) as JSON for the Python analyses.
#include "llvm/ADT/MapVector.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/GlobalVariable.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/PassManager.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
using namespace llvm;

static const DataLayout *DL;
static std::map<const Value *, int> Ids;

static std::string tyName(Type *T) {
  std::string S;
  raw_string_ostream O(S);
  if (T->isStructTy() && cast<StructType>(T)->hasName())
    O << cast<StructType>(T)->getName();
  else
    T->print(O);
  return O.str();
}
static int64_t tySize(Type *T) {
  if (!T->isSized()) return 0;
  return (int64_t)DL->getTypeAllocSize(T).getFixedValue();
}
static std::string apStr(const APInt &A) {
  SmallString<32> S;
  A.toStringUnsigned(S);
  return std::string(S.str());
}

static json::Value val(const Value *V) {
  if (auto *A = dyn_cast<Argument>(V)) return json::Array{"a", (int64_t)A->getArgNo()};
  if (isa<Instruction>(V)) return json::Array{"i", Ids[V]};
  if (auto *C = dyn_cast<ConstantInt>(V))
    return json::Array{"c", (int64_t)C->getBitWidth(), apStr(C->getValue())};
  if (isa<ConstantPointerNull>(V)) return json::Array{"n"};
  if (isa<UndefValue>(V)) return json::Array{"u", tyName(V->getType())};
  if (auto *F = dyn_cast<Function>(V)) return json::Array{"f", F->getName().str()};
  if (auto *G = dyn_cast<GlobalVariable>(V)) return json::Array{"g", G->getName().str(), 0};
  if (auto *F = dyn_cast<ConstantFP>(V)) {
    return json::Array{"d", (int64_t)V->getType()->getPrimitiveSizeInBits().getFixedValue(),
                       apStr(F->getValueAPF().bitcastToAPInt())};
  }
  if (auto *CE = dyn_cast<ConstantExpr>(V)) {
    if (CE->getType()->isPointerTy()) {
      APInt Off(64, 0);
      const Value *B = CE->stripAndAccumulateConstantOffsets(*DL, Off, true);
      if (auto *G = dyn_cast<GlobalVariable>(B))
        return json::Array{"g", G->getName().str(), (int64_t)Off.getSExtValue()};
      if (auto *F = dyn_cast<Function>(B))
        return json::Array{"f", F->getName().str()};
      if (auto *I = dyn_cast<ConstantExpr>(B))
        if (I->getOpcode() == Instruction::IntToPtr)
          if (auto *CI = dyn_cast<ConstantInt>(I->getOperand(0)))
            return json::Array{"p", apStr(CI->getValue())};
    }
    if (CE->getOpcode() == Instruction::PtrToInt)
      return json::Array{"pi", val(CE->getOperand(0))};
  }
  if (isa<ConstantAggregateZero>(V)) return json::Array{"z", tyName(V->getType())};
  if (auto *CV = dyn_cast<ConstantDataVector>(V)) {
    json::Array A;
    for (unsigned i = 0; i < CV->getNumElements(); i++) A.push_back(val(CV->getElementAsConstant(i)));
    return json::Array{"v", std::move(A)};
  }
  if (auto *M = dyn_cast<MetadataAsValue>(V)) { (void)M; return json::Array{"m"}; }
  if (isa<BasicBlock>(V)) return json::Array{"b", Ids[V]};
  if (isa<InlineAsm>(V)) return json::Array{"asm"};
  std::string S;
  raw_string_ostream O(S);
  V->printAsOperand(O, true);
  return json::Array{"x", O.str()};
}

static std::string ditype(const DIType *T, int depth = 0) {
  if (!T) return "void";
  if (depth > 8) return "?";
  if (auto *D = dyn_cast<DIDerivedType>(T)) {
    switch (D->getTag()) {
    case dwarf::DW_TAG_pointer_type: return ditype(D->getBaseType(), depth + 1) + "*";
    case dwarf::DW_TAG_const_type:
    case dwarf::DW_TAG_volatile_type:
    case dwarf::DW_TAG_restrict_type: return ditype(D->getBaseType(), depth + 1);
    case dwarf::DW_TAG_typedef: return D->getName().str();
    default: return ditype(D->getBaseType(), depth + 1);
    }
  }
  if (auto *C = dyn_cast<DICompositeType>(T)) {
    if (C->getTag() == dwarf::DW_TAG_array_type) return ditype(C->getBaseType(), depth + 1) + "[]";
    if (C->getName().empty()) return "anon";
    return C->getName().str();
  }
  if (isa<DISubroutineType>(T)) return "fn";
  return T->getName().str();
}
static const DIType *stripT(const DIType *T) {
  while (T) {
    auto *D = dyn_cast<DIDerivedType>(T);
    if (!D) return T;
    switch (D->getTag()) {
    case dwarf::DW_TAG_typedef:
    case dwarf::DW_TAG_const_type:
    case dwarf::DW_TAG_volatile_type: T = D->getBaseType(); break;
    default: return T;
    }
  }
  return T;
}

static json::Object Structs;
static void addStruct(const std::string &Name, const DICompositeType *C) {
  if (Name.empty() || Structs.find(Name) != Structs.end()) return;
  if (C->isForwardDecl()) return;
  if (C->getTag() != dwarf::DW_TAG_structure_type && C->getTag() != dwarf::DW_TAG_union_type) return;
  json::Array Fs;
  for (auto *E : C->getElements()) {
    auto *M = dyn_cast<DIDerivedType>(E);
    if (!M || M->getTag() != dwarf::DW_TAG_member) continue;
    const DIType *BT = M->getBaseType();
    const DIType *S = stripT(BT);
    Fs.push_back(json::Object{{"name", M->getName().str()},
                              {"off", (int64_t)(M->getOffsetInBits() / 8)},
                              {"size", (int64_t)(M->getSizeInBits() / 8)},
                              {"bits", (int64_t)M->getSizeInBits()},
                              {"under", S ? ditype(S) : "void"},
                              {"type", ditype(BT)}});
  }
  Structs[Name] = json::Object{{"size", (int64_t)(C->getSizeInBits() / 8)}, {"fields", std::move(Fs)}};
}

static json::Object Enums;

static void flatten(const Constant *C, uint64_t Off, std::vector<uint8_t> &B, json::Array &R) {
  if (auto *CI = dyn_cast<ConstantInt>(C)) {
    unsigned n = DL->getTypeStoreSize(C->getType()).getFixedValue();
    APInt A = CI->getValue().zext(n * 8 < 64 ? 64 : n * 8);
    for (unsigned i = 0; i < n; i++) B[Off + i] = (uint8_t)A.extractBitsAsZExtValue(8, i * 8);
    return;
  }
  if (auto *F = dyn_cast<ConstantFP>(C)) {
    APInt A = F->getValueAPF().bitcastToAPInt();
    for (unsigned i = 0; i < A.getBitWidth() / 8; i++) B[Off + i] = (uint8_t)A.extractBitsAsZExtValue(8, i * 8);
    return;
  }
  if (C->isNullValue() || isa<UndefValue>(C)) return;
  if (auto *D = dyn_cast<ConstantDataSequential>(C)) {
    StringRef S = D->getRawDataValues();
    memcpy(&B[Off], S.data(), S.size());
    return;
  }
  if (auto *A = dyn_cast<ConstantArray>(C)) {
    uint64_t es = tySize(A->getType()->getElementType());
    for (unsigned i = 0; i < A->getNumOperands(); i++) flatten(A->getOperand(i), Off + i * es, B, R);
    return;
  }
  if (auto *S = dyn_cast<ConstantStruct>(C)) {
    const StructLayout *L = DL->getStructLayout(S->getType());
    for (unsigned i = 0; i < S->getNumOperands(); i++)
      flatten(S->getOperand(i), Off + L->getElementOffset(i), B, R);
    return;
  }
  R.push_back(json::Object{{"off", (int64_t)Off}, {"v", val(C)}});
}

int main(int argc, char **argv) {
  LLVMContext Ctx;
  SMDiagnostic Err;
  auto M = parseIRFile(argv[1], Err, Ctx);
  if (!M) { Err.print("irdump", errs()); return 2; }
  PassBuilder PB;
  LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
  PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM);
  PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
  PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  ModulePassManager MPM;
  const char *Pipe = argc > 3 ? argv[3] : "function(mem2reg)";
  if (auto E = PB.parsePassPipeline(MPM, Pipe)) { errs() << toString(std::move(E)) << "\n"; return 2; }
  MPM.run(*M, MAM);
  DL = &M->getDataLayout();

  // debug-info types
  DebugInfoFinder DIF;
  DIF.processModule(*M);
  for (auto *T : DIF.types()) {
    if (auto *C = dyn_cast<DICompositeType>(T)) {
      addStruct(C->getName().str(), C);
      if (C->getTag() == dwarf::DW_TAG_enumeration_type) {
        for (auto *E : C->getElements())
          if (auto *En = dyn_cast<DIEnumerator>(E))
            Enums[En->getName().str()] = json::Object{{"v", En->getValue().getSExtValue()}, {"e", C->getName().str()}};
      }
    }
    if (auto *D = dyn_cast<DIDerivedType>(T))
      if (D->getTag() == dwarf::DW_TAG_typedef)
        if (auto *C = dyn_cast_or_null<DICompositeType>(stripT(D))) addStruct(D->getName().str(), C);
  }
  json::Array Globals;
  for (auto &G : M->globals()) {
    json::Object O{{"name", G.getName().str()}, {"const", G.isConstant()},
                   {"internal", G.hasLocalLinkage()}, {"decl", G.isDeclaration()},
                   {"tls", G.isThreadLocal()},
                   {"size", tySize(G.getValueType())}, {"type", tyName(G.getValueType())}};
    SmallVector<DIGlobalVariableExpression *, 1> GVs;
    G.getDebugInfo(GVs);
    for (auto *E : GVs) {
      O["ditype"] = ditype(E->getVariable()->getType());
      O["file"] = E->getVariable()->getFilename().str();
      O["line"] = (int64_t)E->getVariable()->getLine();
    }
    if (G.hasInitializer() && tySize(G.getValueType()) < (1 << 20)) {
      std::vector<uint8_t> B(tySize(G.getValueType()), 0);
      json::Array R;
      flatten(G.getInitializer(), 0, B, R);
      std::string H;
      static const char *hx = "0123456789abcdef";
      for (uint8_t b : B) { H += hx[b >> 4]; H += hx[b & 15]; }
      O["bytes"] = H;
      O["relocs"] = std::move(R);
    }
    Globals.push_back(std::move(O));
  }

  json::Array Funcs;
  for (auto &F : *M) {
    json::Object FO{{"name", F.getName().str()}, {"internal", F.hasLocalLinkage()},
                    {"decl", F.isDeclaration()}, {"vararg", F.isVarArg()},
                    {"ret", tyName(F.getReturnType())}};
    json::Array Args;
    for (auto &A : F.args()) {
      json::Object AO{{"name", A.getName().str()}, {"type", tyName(A.getType())}};
      if (A.hasByValAttr()) AO["byval"] = tySize(A.getParamByValType());
      if (A.hasStructRetAttr()) AO["sret"] = tySize(A.getParamStructRetType());
      if (A.hasZExtAttr()) AO["zext"] = true;
      Args.push_back(std::move(AO));
    }
    FO["args"] = std::move(Args);
    if (F.doesNotReturn()) FO["noreturn"] = true;
    if (!F.isDeclaration()) {
      if (auto *SP = F.getSubprogram()) {
        FO["file"] = SP->getFilename().str();
        FO["dir"] = SP->getDirectory().str();
        FO["line"] = (int64_t)SP->getLine();
        json::Array DT;
        if (SP->getType())
          for (auto *T : SP->getType()->getTypeArray()) DT.push_back(ditype(T));
        FO["ditypes"] = std::move(DT);
      }
      Ids.clear();
      int n = 0;
      int b = 0;
      std::map<int, std::string> VarNames;
      for (auto &BB : F) Ids[&BB] = b++;
      for (auto &BB : F) for (auto &I : BB) Ids[&I] = n++;
      json::Object Vars;
      for (auto &BB : F) for (auto &I : BB) {
        if (auto *DV = dyn_cast<DbgVariableIntrinsic>(&I)) {
          if (DV->getNumVariableLocationOps() == 1) {
            Value *V = DV->getVariableLocationOp(0);
            if (V && isa<Instruction>(V) && DV->getVariable()) {
              auto key = std::to_string(Ids[V]);
              if (Vars.find(key) == Vars.end())
                Vars[key] = json::Array{DV->getVariable()->getName().str(), ditype(DV->getVariable()->getType())};
            }
          }
        }
      }
      DominatorTree DT(F);
      LoopInfo LI(DT);
      json::Array Blocks;
      for (auto &BB : F) {
        json::Array Is;
        for (auto &I : BB) {
          if (isa<DbgInfoIntrinsic>(I)) continue;
          json::Object O{{"id", Ids[&I]}, {"op", I.getOpcodeName()}, {"t", tyName(I.getType())}};
          if (auto &L = I.getDebugLoc()) {
            O["ln"] = (int64_t)L.getLine();
            if (auto *S = L->getScope()) {
              auto *F2 = cast<DIScope>(S)->getFile();
              if (F2 && F.getSubprogram() && F2->getFilename() != F.getSubprogram()->getFilename()) O["fl"] = F2->getFilename().str();
            }
          }
          json::Array Ops;
          if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
            MapVector<Value *, APInt> VO;
            APInt CO(64, 0);
            Ops.push_back(val(G->getPointerOperand()));
            if (cast<GEPOperator>(G)->collectOffset(*DL, 64, VO, CO)) {
              O["off"] = CO.getSExtValue();
              json::Array V;
              for (auto &P : VO) V.push_back(json::Array{val(P.first), P.second.getSExtValue(), tyName(P.first->getType())});
              O["vars"] = std::move(V);
            } else O["op"] = "gepx";
            O["st"] = tyName(G->getSourceElementType());
          } else if (auto *P = dyn_cast<PHINode>(&I)) {
            json::Array In;
            for (unsigned i = 0; i < P->getNumIncomingValues(); i++)
              In.push_back(json::Array{Ids[P->getIncomingBlock(i)], val(P->getIncomingValue(i))});
            O["in"] = std::move(In);
          } else if (auto *S = dyn_cast<SwitchInst>(&I)) {
            Ops.push_back(val(S->getCondition()));
            O["w"] = (int64_t)S->getCondition()->getType()->getIntegerBitWidth();
            json::Array Cs;
            for (auto C : S->cases())
              Cs.push_back(json::Array{apStr(C.getCaseValue()->getValue()), Ids[C.getCaseSuccessor()]});
            O["cases"] = std::move(Cs);
            O["def"] = Ids[S->getDefaultDest()];
          } else if (auto *B = dyn_cast<BranchInst>(&I)) {
            if (B->isConditional()) Ops.push_back(val(B->getCondition()));
            json::Array Su;
            for (unsigned i = 0; i < B->getNumSuccessors(); i++) Su.push_back(Ids[B->getSuccessor(i)]);
            O["succ"] = std::move(Su);
          } else if (auto *C = dyn_cast<CallBase>(&I)) {
            for (auto &A : C->args()) Ops.push_back(val(A.get()));
            O["callee"] = val(C->getCalledOperand());
            json::Array AT;
            for (auto &A : C->args()) AT.push_back(tyName(A->getType()));
            O["at"] = std::move(AT);
          } else {
            for (auto &U : I.operands()) Ops.push_back(val(U.get()));
            if (auto *Cm = dyn_cast<CmpInst>(&I)) {
              O["pred"] = CmpInst::getPredicateName(Cm->getPredicate()).str();
              O["ot"] = tyName(Cm->getOperand(0)->getType());
            }
            if (auto *A = dyn_cast<AllocaInst>(&I)) { O["size"] = tySize(A->getAllocatedType()); O["at"] = tyName(A->getAllocatedType()); }
            if (isa<LoadInst>(&I)) { O["size"] = (int64_t)DL->getTypeStoreSize(I.getType()).getFixedValue(); if (cast<LoadInst>(&I)->isAtomic()) O["ord"] = toIRString(cast<LoadInst>(&I)->getOrdering()); }
            if (auto *S = dyn_cast<StoreInst>(&I)) { O["size"] = (int64_t)DL->getTypeStoreSize(S->getValueOperand()->getType()).getFixedValue(); O["vt"] = tyName(S->getValueOperand()->getType()); if (S->isAtomic()) O["ord"] = toIRString(S->getOrdering()); }
            if (auto *C = dyn_cast<CastInst>(&I)) O["from"] = tyName(C->getSrcTy());
            if (auto *R = dyn_cast<AtomicRMWInst>(&I)) { O["rmw"] = AtomicRMWInst::getOperationName(R->getOperation()).str(); O["ord"] = toIRString(R->getOrdering()); }
            if (auto *X = dyn_cast<AtomicCmpXchgInst>(&I)) { O["ord"] = toIRString(X->getSuccessOrdering()); }
            if (auto *X = dyn_cast<FenceInst>(&I)) { O["ord"] = toIRString(X->getOrdering()); }
            if (auto *E = dyn_cast<ExtractValueInst>(&I)) { json::Array Ix; for (auto i : E->indices()) Ix.push_back((int64_t)i); O["idx"] = std::move(Ix); }
            if (auto *E = dyn_cast<InsertValueInst>(&I)) { json::Array Ix; for (auto i : E->indices()) Ix.push_back((int64_t)i); O["idx"] = std::move(Ix); }
            if (auto *OB = dyn_cast<OverflowingBinaryOperator>(&I)) { if (OB->hasNoSignedWrap()) O["nsw"] = true; if (OB->hasNoUnsignedWrap()) O["nuw"] = true; }
            if (isa<ReturnInst>(&I) && I.getNumOperands()) O["vt"] = tyName(I.getOperand(0)->getType());
          }
          O["o"] = std::move(Ops);
          Is.push_back(std::move(O));
        }
        json::Object BO{{"id", Ids[&BB]}, {"i", std::move(Is)}};
        if (Loop *L = LI.getLoopFor(&BB)) BO["loop"] = Ids[L->getHeader()];
        if (LI.isLoopHeader(&BB)) BO["head"] = true;
        Blocks.push_back(std::move(BO));
      }
      FO["blocks"] = std::move(Blocks);
      FO["vars"] = std::move(Vars);
    }
    Funcs.push_back(std::move(FO));
  }
  std::error_code EC;
  raw_fd_ostream Out(argv[2], EC);
  if (EC) { errs() << EC.message() << "\n"; return 2; }
  Out << json::Value(json::Object{{"source", M->getSourceFileName()}, {"structs", std::move(Structs)},
                                  {"enums", std::move(Enums)},
                                  {"globals", std::move(Globals)}, {"functions", std::move(Funcs)}});
  return 0;
}
