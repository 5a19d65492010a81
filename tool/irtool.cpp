// irtool: normalises the LLVM IR of a driver translation unit and prints it as JSON.
//
//   irtool --mode=A|S --src=/repo [--policy=FILE] in.bc > out.json
//
// mode A ("effects"): only code of the analysed repository, of the driver and of a list of
//   trivial library wrappers (std::atomic, std::chrono, lock_guard, ...) is inlined; the rest of the
//   library stays as opaque, named calls.  Atomics are kept.
// mode S ("sequential value flow"): atomics are lowered to plain accesses and everything that can be
//   inlined is inlined, so that the result of a driver becomes an expression over its arguments.
#include <llvm/Analysis/LazyValueInfo.h>
#include <llvm/Analysis/AssumptionCache.h>
#include <llvm/Analysis/TargetLibraryInfo.h>
#include <llvm/BinaryFormat/Dwarf.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/DebugInfo.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/CommandLine.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/MemoryBuffer.h>
#include <llvm/Support/Regex.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Transforms/Utils/ModuleUtils.h>
#include <map>
#include <set>
#include <vector>

using namespace llvm;

static cl::opt<std::string> In(cl::Positional, cl::Required);
static cl::opt<bool> Whole("whole", cl::desc("no other module uses the globals"));
static cl::opt<std::string> Mode("mode", cl::init("A"));
static cl::opt<std::string> Src("src", cl::init("/repo"));
static cl::opt<std::string> Policy("policy", cl::init(""));
static cl::opt<std::string> Passes("pl", cl::init(""));
static cl::opt<std::string> Prefix("prefix", cl::init("drv_,ref_"));
static cl::opt<std::string> Extra("extra", cl::init(""));
static cl::opt<bool> EmitLL("ll", cl::init(false));

static std::vector<std::pair<bool, Regex>> Rules; // inline? , regex

static bool inRepo(const Function &F)
{
    if (auto *SP = F.getSubprogram()) {
        std::string p = SP->getFilename().str();
        if (!p.empty() && p[0] != '/')
            p = (SP->getDirectory() + "/" + p).str();
        if (StringRef(p).starts_with(std::string(Src) + "/"))
            return true;
    }
    return false;
}

static bool wantsInline(const Function &F)
{
    std::string d = demangle(F.getName().str());
    for (auto &r : Rules)
        if (r.second.match(d))
            return r.first;
    if (inRepo(F))
        return true;
    // the driver itself (and its probes)
    if (auto *SP = F.getSubprogram()) {
        if (!StringRef(SP->getFilename()).starts_with("/usr"))
            return true;
    }
    return false;
}

// sequential mode: functions of the library that are looked into wherever they are called from
static bool followed(const Function &F)
{
    if (Mode == "A")
        return false;
    std::string d = demangle(F.getName().str());
    for (auto &r : Rules)
        if (r.second.match(d))
            return r.first;
    if (auto *SP = F.getSubprogram())
        return !StringRef(SP->getFilename()).starts_with("/usr");
    return false;
}

static bool isRoot(const Function &F)
{
    SmallVector<StringRef, 4> parts;
    StringRef(Prefix).split(parts, ',');
    for (auto p : parts)
        if (F.getName().starts_with(p))
            return true;
    return false;
}

static void runPasses(Module &M, StringRef pl)
{
    PipelineTuningOptions PTO;
    PTO.InlinerThreshold = 20000;
    PTO.LoopVectorization = false;
    PTO.SLPVectorization = false;
    PTO.MergeFunctions = false;
    PassBuilder PB(nullptr, PTO);
    LoopAnalysisManager LAM;
    FunctionAnalysisManager FAM;
    CGSCCAnalysisManager CGAM;
    ModuleAnalysisManager MAM;
    PB.registerModuleAnalyses(MAM);
    PB.registerCGSCCAnalyses(CGAM);
    PB.registerFunctionAnalyses(FAM);
    PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    ModulePassManager MPM;
    if (auto E = PB.parsePassPipeline(MPM, pl)) {
        errs() << "bad pipeline " << toString(std::move(E)) << "\n";
        exit(3);
    }
    MPM.run(M, MAM);
}

// ------------------------------------------------------------------ output

static std::string tyStr(Type *T)
{
    std::string s;
    raw_string_ostream os(s);
    T->print(os, false, true);
    return os.str();
}

struct Dumper {
    Module &M;
    const DataLayout &DL;
    json::OStream J;
    std::map<const Value *, unsigned> ids;
    std::map<const BasicBlock *, unsigned> bids;
    std::set<const GlobalVariable *> usedGlobals;
    std::set<const Function *> usedFns;
    LazyValueInfo *LVI = nullptr;

    Dumper(Module &M, raw_ostream &os) : M(M), DL(M.getDataLayout()), J(os, 0) {}

    void val(const Value *V)
    {
        J.object([&] { valBody(V); });
    }

    void valBody(const Value *V)
    {
        if (auto *A = dyn_cast<Argument>(V)) {
            J.attribute("k", "a");
            J.attribute("i", (int64_t)A->getArgNo());
        } else if (isa<Instruction>(V)) {
            J.attribute("k", "v");
            J.attribute("i", (int64_t)ids[V]);
        } else if (auto *CI = dyn_cast<ConstantInt>(V)) {
            J.attribute("k", "c");
            SmallString<32> s;
            CI->getValue().toStringSigned(s);
            J.attribute("v", s);
            J.attribute("w", (int64_t)CI->getBitWidth());
        } else if (auto *CF = dyn_cast<ConstantFP>(V)) {
            J.attribute("k", "f");
            APFloat f = CF->getValueAPF();
            SmallString<64> s;
            f.toString(s, 40);
            if (f.isNaN() && f.isNegative())
                s = "-NaN";
            J.attribute("v", s);
        } else if (isa<ConstantPointerNull>(V)) {
            J.attribute("k", "n");
        } else if (isa<UndefValue>(V)) {
            J.attribute("k", "u");
        } else if (auto *GV = dyn_cast<GlobalVariable>(V)) {
            usedGlobals.insert(GV);
            J.attribute("k", "g");
            J.attribute("n", GV->getName());
        } else if (auto *F = dyn_cast<Function>(V)) {
            usedFns.insert(F);
            J.attribute("k", "fn");
            J.attribute("n", F->getName());
            J.attribute("d", demangle(F->getName().str()));
        } else if (auto *CE = dyn_cast<ConstantExpr>(V)) {
            if (auto *GO = dyn_cast<GEPOperator>(CE)) {
                APInt off(64, 0);
                if (GO->accumulateConstantOffset(DL, off)) {
                    J.attribute("k", "go");
                    J.attributeBegin("b");
                    val(GO->getPointerOperand());
                    J.attributeEnd();
                    J.attribute("o", off.getSExtValue());
                    return;
                }
            }
            J.attribute("k", "ce");
            J.attribute("op", CE->getOpcodeName());
            J.attributeBegin("ops");
            J.array([&] {
                for (auto &o : CE->operands())
                    val(o.get());
            });
            J.attributeEnd();
        } else if (auto *CA = dyn_cast<ConstantAggregate>(V)) {
            J.attribute("k", "ca");
            J.attributeBegin("ops");
            J.array([&] {
                for (auto &o : CA->operands())
                    val(o.get());
            });
            J.attributeEnd();
        } else if (isa<ConstantAggregateZero>(V)) {
            J.attribute("k", "c");
            J.attribute("v", "0");
            J.attribute("w", (int64_t)0);
            J.attribute("zero", true);
        } else if (auto *BB = dyn_cast<BasicBlock>(V)) {
            J.attribute("k", "b");
            J.attribute("i", (int64_t)bids[BB]);
        } else if (isa<MetadataAsValue>(V)) {
            J.attribute("k", "md");
        } else if (auto *IA = dyn_cast<InlineAsm>(V)) {
            J.attribute("k", "asm");
            J.attribute("s", IA->getAsmString());
        } else {
            J.attribute("k", "x");
            std::string s;
            raw_string_ostream os(s);
            V->printAsOperand(os, true, &M);
            J.attribute("s", os.str());
        }
    }

    void range(const char *name, Value *V, Instruction *Cx)
    {
        if (!LVI || !V->getType()->isIntegerTy() || V->getType()->getIntegerBitWidth() > 64)
            return;
        ConstantRange R = LVI->getConstantRange(V, Cx, true);
        J.attributeBegin(name);
        J.array([&] {
            SmallString<32> a, b, c, d;
            R.getUnsignedMin().toStringUnsigned(a);
            R.getUnsignedMax().toStringUnsigned(b);
            R.getSignedMin().toStringSigned(c);
            R.getSignedMax().toStringSigned(d);
            J.value(a);
            J.value(b);
            J.value(c);
            J.value(d);
        });
        J.attributeEnd();
    }

    void loc(const Instruction &I)
    {
        if (const DebugLoc &L = I.getDebugLoc()) {
            J.attributeBegin("loc");
            J.array([&] {
                const DILocation *d = L.get();
                for (int n = 0; d && n < 12; d = d->getInlinedAt(), ++n) {
                    std::string f = d->getFilename().str();
                    std::string fn;
                    if (auto *SP = d->getScope()->getSubprogram())
                        fn = SP->getName().str();
                    J.value(f + ":" + std::to_string(d->getLine()) + ":" + fn);
                }
            });
            J.attributeEnd();
        }
    }

    void inst(Instruction &I)
    {
        J.object([&] {
            J.attribute("id", (int64_t)ids[&I]);
            J.attribute("op", I.getOpcodeName());
            J.attribute("ty", tyStr(I.getType()));
            loc(I);
            if (auto *C = dyn_cast<CmpInst>(&I))
                J.attribute("pred", CmpInst::getPredicateName(C->getPredicate()));
            if (auto *L = dyn_cast<LoadInst>(&I)) {
                J.attribute("size", (int64_t)DL.getTypeStoreSize(L->getType()));
                J.attribute("al", (int64_t)L->getAlign().value());
                if (L->isAtomic())
                    J.attribute("ord", toIRString(L->getOrdering()));
            }
            if (auto *S = dyn_cast<StoreInst>(&I)) {
                J.attribute("size", (int64_t)DL.getTypeStoreSize(S->getValueOperand()->getType()));
                J.attribute("al", (int64_t)S->getAlign().value());
                J.attribute("vty", tyStr(S->getValueOperand()->getType()));
                if (S->isAtomic())
                    J.attribute("ord", toIRString(S->getOrdering()));
                range("vrng", S->getValueOperand(), &I);
            }
            if (auto *A = dyn_cast<AllocaInst>(&I)) {
                if (auto sz = A->getAllocationSize(DL))
                    J.attribute("asize", (int64_t)sz->getFixedValue());
                J.attribute("esize", (int64_t)DL.getTypeAllocSize(A->getAllocatedType()).getFixedValue());
                J.attribute("al", (int64_t)A->getAlign().value());
            }
            if (auto *R = dyn_cast<AtomicRMWInst>(&I)) {
                J.attribute("rmw", AtomicRMWInst::getOperationName(R->getOperation()));
                J.attribute("ord", toIRString(R->getOrdering()));
                J.attribute("size", (int64_t)DL.getTypeStoreSize(R->getValOperand()->getType()));
            }
            if (auto *X = dyn_cast<AtomicCmpXchgInst>(&I)) {
                J.attribute("ord", toIRString(X->getSuccessOrdering()));
                J.attribute("ford", toIRString(X->getFailureOrdering()));
                J.attribute("weak", X->isWeak());
                J.attribute("size", (int64_t)DL.getTypeStoreSize(X->getNewValOperand()->getType()));
                range("vrng", X->getNewValOperand(), &I);
            }
            if (auto *P = dyn_cast<PHINode>(&I)) {
                J.attributeBegin("phi");
                J.array([&] {
                    for (unsigned i = 0; i < P->getNumIncomingValues(); ++i)
                        J.array([&] {
                            val(P->getIncomingValue(i));
                            J.value((int64_t)bids[P->getIncomingBlock(i)]);
                        });
                });
                J.attributeEnd();
                return;
            }
            if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
                MapVector<Value *, APInt> vars;
                APInt off(64, 0);
                if (G->collectOffset(DL, 64, vars, off)) {
                    J.attributeBegin("base");
                    val(G->getPointerOperand());
                    J.attributeEnd();
                    J.attribute("off", off.getSExtValue());
                    J.attribute("inb", G->isInBounds());
                    J.attributeBegin("idx");
                    J.array([&] {
                        for (auto &p : vars)
                            J.object([&] {
                                J.attributeBegin("v");
                                val(p.first);
                                J.attributeEnd();
                                J.attribute("s", p.second.getSExtValue());
                                range("rng", p.first, &I);
                            });
                    });
                    J.attributeEnd();
                    return;
                }
            }
            if (auto *C = dyn_cast<CallBase>(&I)) {
                const Value *cv = C->getCalledOperand()->stripPointerCasts();
                J.attributeBegin("callee");
                val(cv);
                J.attributeEnd();
                auto *F = dyn_cast<Function>(cv);
                if (C->doesNotThrow() || (F && F->doesNotThrow()))
                    J.attribute("nounwind", true);
                J.attributeBegin("ops");
                J.array([&] {
                    for (auto &a : C->args())
                        val(a.get());
                });
                J.attributeEnd();
                if (C->hasFnAttr("vcx.cls")) {
                    J.attribute("cls", C->getFnAttr("vcx.cls").getValueAsString());
                    int64_t off = 0;
                    C->getFnAttr("vcx.slot").getValueAsString().getAsInteger(10, off);
                    J.attribute("slot", off);
                }
                J.attributeBegin("dref"); // per argument: the number of bytes the parameter is known to refer to, sret, ...
                J.array([&] {
                    for (unsigned i = 0; i < C->arg_size(); ++i) {
                        uint64_t d = C->getParamDereferenceableBytes(i);
                        if (C->isByValArgument(i)) d = DL.getTypeAllocSize(C->getParamByValType(i));
                        if (C->paramHasAttr(i, Attribute::StructRet)) d = DL.getTypeAllocSize(C->getParamStructRetType(i));
                        J.value((int64_t)d);
                    }
                });
                J.attributeEnd();
                J.attributeBegin("aro");
                J.array([&] {
                    for (unsigned i = 0; i < C->arg_size(); ++i)
                        J.value(C->paramHasAttr(i, Attribute::ReadOnly) || C->paramHasAttr(i, Attribute::ReadNone));
                });
                J.attributeEnd();
                if (C->onlyReadsMemory())
                    J.attribute("ro", true);
                if (auto *IV = dyn_cast<InvokeInst>(C)) {
                    J.attribute("norm", (int64_t)bids[IV->getNormalDest()]);
                    J.attribute("unw", (int64_t)bids[IV->getUnwindDest()]);
                }
                return;
            }
            if (auto *B = dyn_cast<BranchInst>(&I)) {
                J.attributeBegin("succ");
                J.array([&] {
                    for (unsigned i = 0; i < B->getNumSuccessors(); ++i)
                        J.value((int64_t)bids[B->getSuccessor(i)]);
                });
                J.attributeEnd();
                if (B->isConditional()) {
                    J.attributeBegin("cond");
                    val(B->getCondition());
                    J.attributeEnd();
                }
                return;
            }
            if (auto *S = dyn_cast<SwitchInst>(&I)) {
                J.attributeBegin("cond");
                val(S->getCondition());
                J.attributeEnd();
                J.attribute("def", (int64_t)bids[S->getDefaultDest()]);
                J.attributeBegin("cases");
                J.array([&] {
                    for (auto &c : S->cases())
                        J.array([&] {
                            SmallString<32> s;
                            c.getCaseValue()->getValue().toStringSigned(s);
                            J.value(s);
                            J.value((int64_t)bids[c.getCaseSuccessor()]);
                        });
                });
                J.attributeEnd();
                return;
            }
            if (auto *E = dyn_cast<ExtractValueInst>(&I)) {
                J.attributeBegin("ix");
                J.array([&] {
                    for (auto i : E->indices())
                        J.value((int64_t)i);
                });
                J.attributeEnd();
            }
            if (auto *E = dyn_cast<InsertValueInst>(&I)) {
                J.attributeBegin("ix");
                J.array([&] {
                    for (auto i : E->indices())
                        J.value((int64_t)i);
                });
                J.attributeEnd();
            }
            if (auto *LP = dyn_cast<LandingPadInst>(&I)) {
                J.attribute("cleanup", LP->isCleanup());
                J.attributeBegin("clauses");
                J.array([&] {
                    for (unsigned i = 0; i < LP->getNumClauses(); ++i)
                        J.object([&] {
                            J.attribute("catch", LP->isCatch(i));
                            J.attributeBegin("v");
                            val(LP->getClause(i));
                            J.attributeEnd();
                        });
                });
                J.attributeEnd();
                return;
            }
            J.attributeBegin("ops");
            J.array([&] {
                for (auto &o : I.operands())
                    val(o.get());
            });
            J.attributeEnd();
            if (I.getType()->isIntegerTy() && (I.getOpcode() == Instruction::SDiv || I.getOpcode() == Instruction::UDiv || I.getOpcode() == Instruction::SRem || I.getOpcode() == Instruction::URem))
                range("drng", I.getOperand(1), &I);
        });
    }

    void function(Function &F)
    {
        ids.clear();
        bids.clear();
        unsigned n = 0, b = 0;
        for (auto &BB : F) {
            bids[&BB] = b++;
            for (auto &I : BB)
                ids[&I] = n++;
        }
        J.object([&] {
            J.attribute("name", F.getName());
            J.attribute("dem", demangle(F.getName().str()));
            J.attribute("ret", tyStr(F.getReturnType()));
            J.attribute("repo", inRepo(F));
            J.attribute("follow", Mode == "A" ? wantsInline(F) : inRepo(F) || followed(F));
            if (auto *SP = F.getSubprogram())
                J.attribute("at", SP->getFilename().str() + ":" + std::to_string(SP->getLine()));
            J.attributeBegin("args");
            J.array([&] {
                for (auto &A : F.args())
                    J.object([&] {
                        J.attribute("ty", tyStr(A.getType()));
                        J.attribute("dref", (int64_t)A.getDereferenceableBytes());
                        J.attribute("sret", A.hasStructRetAttr());
                    });
            });
            J.attributeEnd();
            J.attributeBegin("blocks");
            J.array([&] {
                for (auto &BB : F)
                    J.array([&] {
                        for (auto &I : BB) {
                            if (isa<DbgInfoIntrinsic>(I))
                                continue;
                            if (auto *II = dyn_cast<IntrinsicInst>(&I)) {
                                auto id = II->getIntrinsicID();
                                if (id == Intrinsic::assume || id == Intrinsic::experimental_noalias_scope_decl)
                                    continue;
                            }
                            inst(I);
                        }
                    });
            });
            J.attributeEnd();
        });
    }

    void constInit(const Constant *C, int depth = 0)
    {
        // flattens arrays of pointers (vtables)
        if (auto *CDS = dyn_cast<ConstantDataSequential>(C)) {
            J.object([&] {
                if (CDS->isString() || (CDS->getElementType()->isIntegerTy(8))) {
                    // hex, so that the bytes survive
                    std::string raw = CDS->getRawDataValues().str();
                    static const char *h = "0123456789abcdef";
                    std::string o;
                    for (unsigned char c : raw) { o += h[c >> 4]; o += h[c & 15]; }
                    J.attribute("hex", o);
                } else
                    J.attribute("data", true);
            });
            return;
        }
        if (isa<ConstantAggregateZero>(C)) {
            J.object([&] { J.attribute("zero", (int64_t)DL.getTypeAllocSize(C->getType())); });
            return;
        }
        if (auto *CA = dyn_cast<ConstantAggregate>(C)) {
            if (depth > 4) { J.value(nullptr); return; }
            J.array([&] {
                for (auto &o : CA->operands())
                    constInit(cast<Constant>(o.get()), depth + 1);
            });
            return;
        }
        val(C);
    }
};

// a calculation from constants alone, in operations and mathematical functions without effects
static bool calculated(Value *V, int depth = 0) {
    if (auto *K = dyn_cast<Constant>(V))
        return !isa<GlobalValue>(K);
    auto *I = dyn_cast<Instruction>(V);
    if (!I || depth > 20)
        return false;
    if (auto *C = dyn_cast<CallInst>(I)) {
        static const std::set<std::string> pure = {"exp", "expm1", "exp2", "log", "log1p", "log2", "log10", "sqrt", "pow", "fabs", "ldexp"};
        auto *F = C->getCalledFunction();
        if (!F || !F->isDeclaration())
            return false;
        std::string n = F->getName().str();
        if (n.rfind("llvm.", 0) == 0)
            n = n.substr(5, n.find('.', 5) - 5);
        if (!pure.count(n) && !((n.back() == 'l' || n.back() == 'f') && pure.count(n.substr(0, n.size() - 1))))
            return false;
        for (auto &A : C->args())
            if (!calculated(A, depth + 1))
                return false;
        return true;
    }
    if (!isa<BinaryOperator>(I) && !isa<UnaryOperator>(I) && !isa<CastInst>(I))
        return false;
    for (auto &O : I->operands())
        if (!calculated(O, depth + 1))
            return false;
    return true;
}

static Value *recalculated(Value *V, Instruction *before) {
    auto *I = dyn_cast<Instruction>(V);
    if (!I)
        return V;
    auto *C = I->clone();
    C->setDebugLoc(before->getDebugLoc());
    C->insertBefore(before);
    for (unsigned k = 0; k < C->getNumOperands(); ++k)
        if (isa<Instruction>(C->getOperand(k)))
            C->setOperand(k, recalculated(C->getOperand(k), C));
    return C;
}

int main(int argc, char **argv)
{
    cl::ParseCommandLineOptions(argc, argv);
    LLVMContext C;
    SMDiagnostic D;
    auto M = parseIRFile(In, D, C);
    if (!M) {
        D.print("irtool", errs());
        return 3;
    }
    if (!Policy.empty()) {
        auto B = MemoryBuffer::getFile(Policy);
        if (!B) return 3;
        SmallVector<StringRef, 64> lines;
        (*B)->getBuffer().split(lines, '\n');
        for (auto l : lines) {
            l = l.trim();
            if (l.empty() || l.starts_with("#"))
                continue;
            bool inl = l.consume_front("inline ");
            if (!inl && !l.consume_front("opaque ")) {
                errs() << "bad policy line " << l << "\n";
                return 3;
            }
            Regex r(l);
            std::string e;
            if (!r.isValid(e)) { errs() << "bad regex " << l << ": " << e << "\n"; return 3; }
            Rules.emplace_back(inl, std::move(r));
        }
    }

    bool A = Mode == "A";
    // the static class of the object of each virtual call (-fwhole-program-vtables)
    {
        SmallVector<Instruction *, 32> dead;
        for (auto &F : *M)
            for (auto &I : instructions(F)) {
                auto *II = dyn_cast<IntrinsicInst>(&I);
                if (!II || (II->getIntrinsicID() != Intrinsic::type_test && II->getIntrinsicID() != Intrinsic::public_type_test))
                    continue;
                auto *MD = dyn_cast<MetadataAsValue>(II->getArgOperand(1));
                auto *S = MD ? dyn_cast<MDString>(MD->getMetadata()) : nullptr;
                Value *V = II->getArgOperand(0);
                auto tag = [&](Value *slot, int64_t off) {
                    for (auto *L : slot->users())
                        if (isa<LoadInst>(L))
                            for (auto *U : L->users())
                                if (auto *CB = dyn_cast<CallBase>(U))
                                    if (CB->getCalledOperand() == L) {
                                        CB->addFnAttr(Attribute::get(C, "vcx.cls", S->getString())); // kept by inlining, unlike metadata
                                        CB->addFnAttr(Attribute::get(C, "vcx.slot", std::to_string(off)));
                                    }
                };
                if (S) {
                    tag(V, 0);
                    for (auto *U : V->users())
                        if (auto *G = dyn_cast<GEPOperator>(U)) {
                            APInt off(64, 0);
                            if (G->accumulateConstantOffset(M->getDataLayout(), off))
                                tag(G, off.getSExtValue());
                        }
                }
                dead.push_back(II);
            }
        for (auto *I : dead) {
            SmallVector<Instruction *, 2> as;
            for (auto *U : I->users())
                if (auto *UI = dyn_cast<Instruction>(U))
                    as.push_back(UI);
            bool only = true;
            for (auto *U : as)
                only &= isa<IntrinsicInst>(U);
            if (!only)
                continue;
            for (auto *U : as)
                U->eraseFromParent();
            I->eraseFromParent();
        }
    }

    // functions the inliner may not look into, and functions it must inline
    for (auto &F : *M) {
        F.removeFnAttr(Attribute::OptimizeNone);
        if (F.isDeclaration())
            continue;
        if (isRoot(F)) {
            F.removeFnAttr(Attribute::AlwaysInline);
            F.addFnAttr(Attribute::NoInline);
            continue;
        }
        if (A) {
            F.removeFnAttr(Attribute::NoInline);
            F.removeFnAttr(Attribute::AlwaysInline);
            F.addFnAttr(wantsInline(F) ? Attribute::AlwaysInline : Attribute::NoInline);
        } else {
            bool no = false, yes = false;
            std::string d = demangle(F.getName().str());
            for (auto &r : Rules)
                if (r.second.match(d)) { no = !r.first; yes = r.first; break; }
            F.removeFnAttr(Attribute::AlwaysInline);
            if (no) {
                F.addFnAttr(Attribute::NoInline);
            } else {
                F.removeFnAttr(Attribute::NoInline);
                if (yes || inRepo(F))
                    F.addFnAttr(Attribute::AlwaysInline);
                if (!F.hasFnAttribute(Attribute::NoInline))
                    F.addFnAttr(Attribute::InlineHint);
            }
        }
    }

    // what the library calls back stays a function of its own
    if (A) {
        SmallVector<GlobalValue *, 16> keep;
        for (auto &F : *M) {
            if (F.isDeclaration() || !inRepo(F))
                continue;
            for (auto *U : F.users())
                if (auto *CB = dyn_cast<CallBase>(U))
                    if (CB->getFunction() != &F && !isRoot(*CB->getFunction()) && !wantsInline(*CB->getFunction())) {
                        keep.push_back(&F);
                        break;
                    }
        }
        appendToCompilerUsed(*M, keep);
    }

    // the module is all there is: what nothing writes after initialisation keeps its value
    if (Whole) {
        if (auto *U = M->getGlobalVariable("llvm.used"))
            U->eraseFromParent();
        if (auto *U = M->getGlobalVariable("llvm.global_ctors")) {
            SmallVector<Function *, 8> ctors;
            if (auto *A = dyn_cast<ConstantArray>(U->getInitializer()))
                for (auto &op : A->operands())
                    if (auto *F = dyn_cast<Function>(cast<ConstantStruct>(op)->getOperand(1)))
                        ctors.push_back(F);
            U->eraseFromParent();
            for (auto *F : ctors) {
                F->setComdat(nullptr);
                appendToGlobalCtors(*M, F, 65535);
            }
        }
        for (auto &G : M->globals())
            if (!G.isDeclaration() && (G.hasLinkOnceODRLinkage() || G.hasWeakODRLinkage() || G.hasExternalLinkage()) && !G.getName().starts_with("llvm.")) {
                G.setComdat(nullptr);
                G.setLinkage(GlobalValue::InternalLinkage);
            }
    }

    std::string pl = Passes;
    if (pl.empty()) {
        if (A)
            pl = "always-inline,function(sroa,early-cse<memssa>,simplifycfg,instcombine<no-verify-fixpoint>,sroa,early-cse<memssa>,gvn,simplifycfg,instcombine<no-verify-fixpoint>),always-inline,"
                 "function(sroa,early-cse<memssa>,simplifycfg,instcombine<no-verify-fixpoint>,gvn,dse,adce,simplifycfg,loop-simplify)";
        else
            pl = "function(loweratomic),always-inline,default<O2>,function(sroa,early-cse<memssa>,gvn,instcombine<no-verify-fixpoint>,simplifycfg),default<O2>,function(sroa,gvn,instcombine<no-verify-fixpoint>,simplifycfg)";
    }
    if (!Extra.empty())
        pl += "," + Extra;
    runPasses(*M, pl);

    // globals that only their initialisation writes
    if (Whole) {
        std::set<const Function *> inits;
        if (auto *U = M->getGlobalVariable("llvm.global_ctors"))
            if (auto *A = dyn_cast<ConstantArray>(U->getInitializer()))
                for (auto &op : A->operands())
                    if (auto *F = dyn_cast<Function>(cast<ConstantStruct>(op)->getOperand(1)))
                        if (F->hasOneUse())
                            inits.insert(F);
        bool changed = false;
        for (auto &G : M->globals()) {
            if (G.isConstant() || !G.hasLocalLinkage())
                continue;
            SmallVector<LoadInst *, 8> loads;
            Value *val = nullptr;
            bool ok = true;
            for (auto *U : G.users()) {
                if (auto *L = dyn_cast<LoadInst>(U)) {
                    ok &= !L->isVolatile() && L->getType() == G.getValueType();
                    loads.push_back(L);
                    continue;
                }
                auto *S = dyn_cast<StoreInst>(U);
                auto *K = S && S->getPointerOperand() == &G ? S->getValueOperand() : nullptr;
                ok &= K && !val && K->getType() == G.getValueType() && inits.count(S->getFunction()) && calculated(K);
                val = K;
            }
            if (!ok || !val)
                continue;
            for (auto *L : loads)
                if (!inits.count(L->getFunction())) {
                    L->replaceAllUsesWith(recalculated(val, L));
                    changed = true;
                }
        }
        if (changed)
            runPasses(*M, "function(sroa,early-cse<memssa>,gvn,instcombine<no-verify-fixpoint>,simplifycfg,adce)");
    }

    if (EmitLL) {
        M->print(outs(), nullptr);
        return 0;
    }

    PassBuilder PB;
    LoopAnalysisManager LAM;
    FunctionAnalysisManager FAM;
    CGSCCAnalysisManager CGAM;
    ModuleAnalysisManager MAM;
    PB.registerModuleAnalyses(MAM);
    PB.registerCGSCCAnalyses(CGAM);
    PB.registerFunctionAnalyses(FAM);
    PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);

    Dumper W(*M, outs());
    W.J.object([&] {
        W.J.attributeBegin("functions");
        W.J.array([&] {
            for (auto &F : *M) {
                if (F.isDeclaration())
                    continue;
                if (!isRoot(F) && !inRepo(F) && !followed(F))
                    continue;
                W.LVI = &FAM.getResult<LazyValueAnalysis>(F);
                W.function(F);
                W.LVI = nullptr;
            }
        });
        W.J.attributeEnd();
        W.J.attributeBegin("globals");
        W.J.object([&] {
            for (auto &G : M->globals()) {
                W.J.attributeBegin(G.getName());
                W.J.object([&] {
                    W.J.attribute("const", G.isConstant());
                    W.J.attribute("tls", G.isThreadLocal());
                    W.J.attribute("dem", demangle(G.getName().str()));
                    W.J.attribute("size", (int64_t)W.DL.getTypeAllocSize(G.getValueType()));
                    if (G.hasInitializer()) {
                        W.J.attributeBegin("init");
                        W.constInit(G.getInitializer());
                        W.J.attributeEnd();
                    }
                });
                W.J.attributeEnd();
            }
        });
        W.J.attributeEnd();
        // member layout of the classes of the repository, from the debug information
        DebugInfoFinder Finder;
        Finder.processModule(*M);
        W.J.attributeBegin("types");
        W.J.array([&] {
            for (auto *T : Finder.types()) {
                auto *CT = dyn_cast<DICompositeType>(T);
                if (!CT || CT->isForwardDecl() || CT->getName().empty())
                    continue;
                std::string f = CT->getFilename().str();
                if (!StringRef(f).starts_with(std::string(Src) + "/"))
                    continue;
                W.J.object([&] {
                    std::string scope;
                    for (auto *s = CT->getScope(); s; s = s->getScope())
                        if (!s->getName().empty() && (isa<DINamespace>(s) || isa<DICompositeType>(s)))
                            scope = s->getName().str() + "::" + scope;
                    W.J.attribute("name", scope + CT->getName().str());
                    W.J.attribute("size", (int64_t)(CT->getSizeInBits() / 8));
                    W.J.attributeBegin("m");
                    W.J.array([&] {
                        for (auto *E : CT->getElements())
                            if (auto *DT = dyn_cast_or_null<DIDerivedType>(E)) {
                                if (DT->getTag() != dwarf::DW_TAG_member && DT->getTag() != dwarf::DW_TAG_inheritance)
                                    continue;
                                if (DT->isStaticMember())
                                    continue;
                                W.J.object([&] {
                                    W.J.attribute("n", DT->getTag() == dwarf::DW_TAG_inheritance ? "<base>" : DT->getName());
                                    W.J.attribute("o", (int64_t)(DT->getOffsetInBits() / 8));
                                    W.J.attribute("virt", bool(DT->getFlags() & DINode::FlagVirtual));
                                    uint64_t sz = DT->getSizeInBits() / 8;
                                    auto *bt = DT->getBaseType();
                                    if (bt) { sz = sz ? sz : bt->getSizeInBits() / 8; W.J.attribute("t", bt->getName()); }
                                    W.J.attribute("s", (int64_t)sz);
                                });
                            }
                    });
                    W.J.attributeEnd();
                });
            }
        });
        W.J.attributeEnd();
    });
    outs() << "\n";
    return 0;
}
