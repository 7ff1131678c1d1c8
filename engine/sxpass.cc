// sxpass: whole-program symbolic instrumentation of LLVM bitcode.
//
//   sxpass OUT.bc ENTRY[,ENTRY...] IN.bc...
//
// Links the inputs, keeps what the entry points reach, and rewrites every function so that each SSA
// value v carries a shadow value S(v) (a pointer to a symbolic expression, null when v is concrete).
// Loads/stores go through a shadow memory, and every control decision that depends on a symbolic
// value (branch, switch, symbolic address, symbolic length, value handed to un-instrumented code)
// is reported to the runtime (sxrt.cc), which asks the SMT solver about the other outcomes.
#include <llvm/ADT/PostOrderIterator.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Verifier.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Transforms/IPO/GlobalDCE.h>
#include <llvm/Transforms/IPO/Internalize.h>
#include <llvm/Transforms/Utils/BasicBlockUtils.h>
#include <llvm/Transforms/Utils/Local.h>
#include <llvm/Transforms/Utils/LowerInvoke.h>
#include <llvm/Transforms/Utils/LowerSwitch.h>
#include <llvm/Transforms/Utils/ModuleUtils.h>

#include <map>
#include <set>

using namespace llvm;

static LLVMContext C;
static std::unique_ptr<Module> M;
static const DataLayout *DL;
static Type *I64, *I32, *I8, *I1, *VoidT;
static PointerType *PtrT;

static const unsigned kMaxArgs = 256;
static GlobalVariable *gArgs, *gRets, *gTag;

static FunctionCallee rt(const char *name, Type *ret, std::vector<Type *> args) {
    return M->getOrInsertFunction(name, FunctionType::get(ret, args, false));
}

static std::set<Function *> instrumented;
static unsigned siteId = 1;

static bool isScalar(Type *T) {
    return (T->isIntegerTy() && T->getIntegerBitWidth() <= 64) || T->isPointerTy() || T->isDoubleTy() || T->isFloatTy();
}

static unsigned numLeaves(Type *T) {
    if (auto *S = dyn_cast<StructType>(T)) {
        unsigned n = 0;
        for (auto *E : S->elements()) n += numLeaves(E);
        return n;
    }
    if (auto *A = dyn_cast<ArrayType>(T)) return A->getNumElements() * numLeaves(A->getElementType());
    if (T->isVoidTy()) return 0;
    return 1;
}

static unsigned leafOffset(Type *T, ArrayRef<unsigned> idx) {
    unsigned off = 0;
    for (unsigned i : idx) {
        if (auto *S = dyn_cast<StructType>(T)) {
            for (unsigned k = 0; k < i; k++) off += numLeaves(S->getElementType(k));
            T = S->getElementType(i);
        } else {
            auto *A = cast<ArrayType>(T);
            off += i * numLeaves(A->getElementType());
            T = A->getElementType();
        }
    }
    return off;
}

using Leaves = SmallVector<Value *, 2>;

struct FnInstr {
    Function &F;
    DenseMap<Value *, Leaves> S;
    Constant *Null = ConstantPointerNull::get(PtrT);
    explicit FnInstr(Function &F) : F(F) {}

    Leaves nulls(Type *T) { return Leaves(numLeaves(T), Null); }
    Leaves get(Value *V) {
        if (isa<Constant>(V) || isa<InlineAsm>(V) || isa<MetadataAsValue>(V)) return nulls(V->getType());
        auto it = S.find(V);
        if (it == S.end()) return nulls(V->getType());
        return it->second;
    }
    Value *sh(Value *V) {
        auto L = get(V);
        return L.empty() ? Null : L[0];
    }
    static bool isNull(Value *V) { return isa<ConstantPointerNull>(V); }
    void set(Value *V, Value *s) { S[V] = Leaves{s}; }

    unsigned width(Type *T) {
        if (T->isIntegerTy()) return T->getIntegerBitWidth();
        if (T->isPointerTy()) return 64;
        return T->getPrimitiveSizeInBits();
    }
    // concrete value of scalar as i64
    Value *asI64(IRBuilder<> &B, Value *V) {
        Type *T = V->getType();
        if (T->isPointerTy()) return B.CreatePtrToInt(V, I64);
        if (T->isDoubleTy()) return B.CreateBitCast(V, I64);
        if (T->isFloatTy()) return B.CreateZExt(B.CreateBitCast(V, I32), I64);
        if (T->isIntegerTy() && T->getIntegerBitWidth() < 64) return B.CreateZExt(V, I64);
        if (T->isIntegerTy(64)) return V;
        return ConstantInt::get(I64, 0);
    }
    Value *c32(unsigned v) { return ConstantInt::get(I32, v); }
    Value *site() { return c32(siteId++); }

    void concretize(IRBuilder<> &B, Value *V, const char *why) {
        auto L = get(V);
        if (L.size() != 1 || isNull(L[0])) return;
        if (!isScalar(V->getType())) return;
        B.CreateCall(rt("__sx_concretize", VoidT, {PtrT, I64, I32, PtrT}),
                     {L[0], asI64(B, V), c32(width(V->getType())), str(why)});
    }
    std::map<std::string, Constant *> strs;
    Constant *str(StringRef s) {
        auto it = strs.find(s.str());
        if (it != strs.end()) return it->second;
        IRBuilder<> B(&*F.getEntryBlock().begin());
        auto *g = B.CreateGlobalString(s, "__sxs", 0, M.get());
        strs[s.str()] = g;
        return g;
    }
    Value *bin(IRBuilder<> &B, unsigned op, Value *as, Value *av, Value *bs, Value *bv, unsigned w) {
        return B.CreateCall(rt("__sx_bin", PtrT, {I32, PtrT, I64, PtrT, I64, I32}), {c32(op), as, av, bs, bv, c32(w)});
    }

    void loadLeaves(IRBuilder<> &B, Type *T, Value *ptr, Value *psh, uint64_t off, Leaves &out) {
        if (auto *ST = dyn_cast<StructType>(T)) {
            auto *SL = DL->getStructLayout(ST);
            for (unsigned i = 0; i < ST->getNumElements(); i++)
                loadLeaves(B, ST->getElementType(i), ptr, psh, off + SL->getElementOffset(i), out);
            return;
        }
        if (auto *AT = dyn_cast<ArrayType>(T)) {
            auto es = DL->getTypeAllocSize(AT->getElementType());
            for (unsigned i = 0; i < AT->getNumElements(); i++) loadLeaves(B, AT->getElementType(), ptr, psh, off + i * es, out);
            return;
        }
        Value *p = off ? B.CreateConstGEP1_64(I8, ptr, off) : ptr;
        unsigned bytes = DL->getTypeStoreSize(T);
        if (!isScalar(T)) {
            B.CreateCall(rt("__sx_load_conc", VoidT, {PtrT, PtrT, I32}), {p, psh, c32(bytes)});
            out.push_back(Null);
            return;
        }
        out.push_back(B.CreateCall(rt("__sx_load", PtrT, {PtrT, PtrT, I32, I32}), {p, psh, c32(width(T)), c32(bytes)}));
    }
    void storeLeaves(IRBuilder<> &B, Type *T, Value *ptr, uint64_t off, ArrayRef<Value *> &in) {
        if (auto *ST = dyn_cast<StructType>(T)) {
            auto *SL = DL->getStructLayout(ST);
            for (unsigned i = 0; i < ST->getNumElements(); i++)
                storeLeaves(B, ST->getElementType(i), ptr, off + SL->getElementOffset(i), in);
            return;
        }
        if (auto *AT = dyn_cast<ArrayType>(T)) {
            auto es = DL->getTypeAllocSize(AT->getElementType());
            for (unsigned i = 0; i < AT->getNumElements(); i++) storeLeaves(B, AT->getElementType(), ptr, off + i * es, in);
            return;
        }
        Value *p = off ? B.CreateConstGEP1_64(I8, ptr, off) : ptr;
        unsigned bytes = DL->getTypeStoreSize(T);
        Value *s = isScalar(T) ? in[0] : Null;
        in = in.drop_front();
        B.CreateCall(rt("__sx_store", VoidT, {PtrT, PtrT, I32, I32}), {p, s, c32(isScalar(T) ? width(T) : 0), c32(bytes)});
    }

    static bool alwaysSafeExtern(StringRef n) {
        // un-instrumented functions whose pointer arguments are opaque to us
        return n.starts_with("__sx") || n.starts_with("sx_") || n.starts_with("__cxa") || n.starts_with("_Unwind") || n == "__gxx_personality_v0" || n == "__clang_call_terminate";
    }

    void handleCall(CallBase *CB) {
        if (auto *II = dyn_cast<IntrinsicInst>(CB)) {
            handleIntrinsic(II);
            return;
        }
        IRBuilder<> B(CB);
        if (CB->isInlineAsm()) {
            for (auto &A : CB->args()) concretize(B, A, "asm");
            S[CB] = nulls(CB->getType());
            return;
        }
        Function *callee = CB->getCalledFunction();
        bool direct = callee != nullptr;
        bool instr = direct && instrumented.count(callee);
        if (direct && !instr) {
            StringRef n = callee->getName();
            if (n.starts_with("sx_in_")) {  // symbolic input: shadow is published through gRets[0]
                afterCall(CB, true);
                return;
            }
            if (n.starts_with("sx_branch")) {  // assume/assert/... taking an i1-ish (i32) condition in arg 0
                Value *s0 = sh(CB->getArgOperand(0));
                if (!isNull(s0))
                    B.CreateCall(rt(n == "sx_branch_assert" ? "__sx_check_i" : "__sx_branch_i", VoidT, {PtrT, I64, I32, I32}),
                                 {s0, asI64(B, CB->getArgOperand(0)), c32(width(CB->getArgOperand(0)->getType())), site()});
                return;
            }
            if (n.starts_with("sx_is_symbolic")) {
                auto *p = B.CreateStore(sh(CB->getArgOperand(0)), B.CreateConstGEP2_64(ArrayType::get(PtrT, kMaxArgs), gArgs, 0, 0));
                (void)p;
                return;
            }
            if (n.starts_with("sx_")) {
                S[CB] = nulls(CB->getType());
                return;
            }
            for (unsigned i = 0; i < CB->arg_size(); i++) {
                Value *A = CB->getArgOperand(i);
                concretize(B, A, ("call:" + n).str().c_str());
                if (A->getType()->isPointerTy() && !alwaysSafeExtern(n) && !isa<Constant>(A))
                    B.CreateCall(rt("__sx_ext_mem", VoidT, {PtrT, PtrT}), {A, str(n)});
            }
            if (n.starts_with("__sxr_")) {  // runtime function that publishes a return shadow
                afterCall(CB, true);
                return;
            }
            S[CB] = nulls(CB->getType());
            return;
        }
        // instrumented or indirect
        if (!direct) {
            Value *fp = CB->getCalledOperand();
            concretize(B, fp, "fnptr");
            B.CreateStore(B.CreatePointerCast(fp, PtrT), gTag);
        } else {
            B.CreateStore(callee, gTag);
        }
        unsigned k = 0;
        auto *AT = ArrayType::get(PtrT, kMaxArgs);
        for (unsigned i = 0; i < CB->arg_size(); i++) {
            Value *A = CB->getArgOperand(i);
            bool var = i >= CB->getFunctionType()->getNumParams();
            if (var) {
                concretize(B, A, "vararg");
                continue;
            }
            if (CB->isByValArgument(i)) {
                if (k < kMaxArgs) B.CreateStore(A, B.CreateConstGEP2_64(AT, gArgs, 0, k));
                k++;
                continue;
            }
            for (Value *l : get(A)) {
                if (k < kMaxArgs) B.CreateStore(l, B.CreateConstGEP2_64(AT, gArgs, 0, k));
                k++;
            }
        }
        if (!direct) {
            // indirect target may be un-instrumented: then symbolic arguments are concretised
            B.CreateCall(rt("__sx_icall", VoidT, {PtrT, I32}), {B.CreatePointerCast(CB->getCalledOperand(), PtrT), c32(k)});
            unsigned kk = 0;
            Value *flag = nullptr;
            for (unsigned i = 0; i < CB->arg_size(); i++) {
                Value *A = CB->getArgOperand(i);
                auto L = get(A);
                if (L.size() == 1 && !isNull(L[0]) && isScalar(A->getType())) {
                    if (!flag) flag = B.CreateCall(rt("__sx_icall_ext", I32, {PtrT}), {B.CreatePointerCast(CB->getCalledOperand(), PtrT)});
                    B.CreateCall(rt("__sx_concretize_if", VoidT, {I32, PtrT, I64, I32}), {flag, L[0], asI64(B, A), c32(width(A->getType()))});
                }
                kk += L.size();
            }
        }
        unsigned nret = numLeaves(CB->getType());
        for (unsigned i = 0; i < nret && i < kMaxArgs; i++) B.CreateStore(Null, B.CreateConstGEP2_64(AT, gRets, 0, i));
        afterCall(CB, false);
    }

    void afterCall(CallBase *CB, bool) {
        unsigned nret = numLeaves(CB->getType());
        if (!nret) return;
        Instruction *ip = nullptr;
        if (auto *Inv = dyn_cast<InvokeInst>(CB))
            ip = &*Inv->getNormalDest()->getFirstInsertionPt();
        else
            ip = CB->getNextNode();
        IRBuilder<> B(ip);
        auto *AT = ArrayType::get(PtrT, kMaxArgs);
        Leaves L;
        for (unsigned i = 0; i < nret; i++)
            L.push_back(i < kMaxArgs ? (Value *)B.CreateLoad(PtrT, B.CreateConstGEP2_64(AT, gRets, 0, i)) : Null);
        S[CB] = L;
    }

    void handleIntrinsic(IntrinsicInst *II) {
        IRBuilder<> B(II);
        auto id = II->getIntrinsicID();
        auto A = [&](unsigned i) { return II->getArgOperand(i); };
        unsigned w = isScalar(II->getType()) ? width(II->getType()) : 0;
        auto bin2 = [&](unsigned op) {
            Value *a = sh(A(0)), *b = sh(A(1));
            if (isNull(a) && isNull(b)) set(II, Null);
            else set(II, bin(B, op, a, asI64(B, A(0)), b, asI64(B, A(1)), w));
        };
        switch (id) {
            case Intrinsic::memcpy:
            case Intrinsic::memcpy_inline:
            case Intrinsic::memmove:
                B.CreateCall(rt("__sx_memmove", VoidT, {PtrT, PtrT, PtrT, PtrT, I64, PtrT}),
                             {A(0), sh(A(0)), A(1), sh(A(1)), asI64(B, A(2)), sh(A(2))});
                return;
            case Intrinsic::memset:
            case Intrinsic::memset_inline: {
                Instruction *n = II->getNextNode();
                B.CreateCall(rt("__sx_memset_pre", VoidT, {PtrT, PtrT, I64, PtrT}), {A(0), sh(A(0)), asI64(B, A(2)), sh(A(2))});
                IRBuilder<> B2(n);
                B2.CreateCall(rt("__sx_memset", VoidT, {PtrT, PtrT, I64}), {A(0), sh(A(1)), asI64(B2, A(2))});
                return;
            }
            case Intrinsic::smax: bin2(100); return;
            case Intrinsic::smin: bin2(101); return;
            case Intrinsic::umax: bin2(102); return;
            case Intrinsic::umin: bin2(103); return;
            case Intrinsic::usub_sat: bin2(104); return;
            case Intrinsic::uadd_sat: bin2(105); return;
            case Intrinsic::abs: {
                Value *a = sh(A(0));
                if (isNull(a)) set(II, Null);
                else set(II, B.CreateCall(rt("__sx_abs", PtrT, {PtrT, I32}), {a, c32(w)}));
                return;
            }
            case Intrinsic::bswap: {
                Value *a = sh(A(0));
                if (isNull(a)) set(II, Null);
                else set(II, B.CreateCall(rt("__sx_bswap", PtrT, {PtrT, I32}), {a, c32(w)}));
                return;
            }
            case Intrinsic::fshl:
            case Intrinsic::fshr: {
                Value *a = sh(A(0)), *b = sh(A(1)), *c = sh(A(2));
                if (isNull(a) && isNull(b) && isNull(c)) set(II, Null);
                else
                    set(II, B.CreateCall(rt("__sx_fsh", PtrT, {I32, PtrT, I64, PtrT, I64, PtrT, I64, I32}),
                                         {c32(id == Intrinsic::fshl ? 0 : 1), a, asI64(B, A(0)), b, asI64(B, A(1)), c, asI64(B, A(2)), c32(w)}));
                return;
            }
            case Intrinsic::ctpop:
            case Intrinsic::ctlz:
            case Intrinsic::cttz: {
                Value *a = sh(A(0));
                if (isNull(a)) set(II, Null);
                else
                    set(II, B.CreateCall(rt("__sx_bits", PtrT, {I32, PtrT, I32}),
                                         {c32(id == Intrinsic::ctpop ? 0 : id == Intrinsic::ctlz ? 1 : 2), a, c32(w)}));
                return;
            }
            case Intrinsic::sadd_with_overflow:
            case Intrinsic::uadd_with_overflow:
            case Intrinsic::ssub_with_overflow:
            case Intrinsic::usub_with_overflow:
            case Intrinsic::smul_with_overflow:
            case Intrinsic::umul_with_overflow: {
                Value *a = sh(A(0)), *b = sh(A(1));
                if ((isNull(a) && isNull(b)) || !isScalar(A(0)->getType())) {
                    S[II] = nulls(II->getType());
                    return;
                }
                unsigned ww = width(A(0)->getType());
                unsigned op = 0;
                bool sgn = false;
                switch (id) {
                    case Intrinsic::sadd_with_overflow: sgn = true; [[fallthrough]];
                    case Intrinsic::uadd_with_overflow: op = Instruction::Add; break;
                    case Intrinsic::ssub_with_overflow: sgn = true; [[fallthrough]];
                    case Intrinsic::usub_with_overflow: op = Instruction::Sub; break;
                    case Intrinsic::smul_with_overflow: sgn = true; [[fallthrough]];
                    default: op = Instruction::Mul; break;
                }
                Value *r = bin(B, op, a, asI64(B, A(0)), b, asI64(B, A(1)), ww);
                Value *o = B.CreateCall(rt("__sx_ovf", PtrT, {I32, I32, PtrT, I64, PtrT, I64, I32}),
                                        {c32(op), c32(sgn), a, asI64(B, A(0)), b, asI64(B, A(1)), c32(ww)});
                S[II] = Leaves{r, o};
                return;
            }
            case Intrinsic::expect: S[II] = get(A(0)); return;
            case Intrinsic::launder_invariant_group:
            case Intrinsic::strip_invariant_group: S[II] = get(A(0)); return;
            case Intrinsic::lifetime_start:
            case Intrinsic::lifetime_end:
            case Intrinsic::dbg_declare:
            case Intrinsic::dbg_value:
            case Intrinsic::dbg_label:
            case Intrinsic::assume:
            case Intrinsic::experimental_noalias_scope_decl:
            case Intrinsic::eh_typeid_for:
            case Intrinsic::trap:
            case Intrinsic::ubsantrap:
            case Intrinsic::stacksave:
            case Intrinsic::stackrestore:
            case Intrinsic::prefetch:
            case Intrinsic::vastart:
            case Intrinsic::vaend:
            case Intrinsic::vacopy:
            case Intrinsic::is_constant:
            case Intrinsic::objectsize:
            case Intrinsic::threadlocal_address:
                S[II] = nulls(II->getType());
                return;
            default:
                for (auto &U : II->args())
                    if (isScalar(U->getType())) concretize(B, U, ("intr:" + II->getCalledFunction()->getName()).str().c_str());
                S[II] = nulls(II->getType());
        }
    }

    void run() {
        removeUnreachableBlocks(F);
        // invoke normal destinations need a private block to read the return shadow in
        {
            std::vector<InvokeInst *> inv;
            for (auto &BB : F)
                if (auto *I = dyn_cast<InvokeInst>(BB.getTerminator())) inv.push_back(I);
            for (auto *I : inv)
                if (!I->getNormalDest()->getSinglePredecessor() || isa<PHINode>(I->getNormalDest()->begin()))
                    SplitEdge(I->getParent(), I->getNormalDest());
        }
        std::vector<BasicBlock *> order;
        {
            ReversePostOrderTraversal<Function *> RPO(&F);
            for (auto *BB : RPO) order.push_back(BB);
        }
        std::vector<std::vector<Instruction *>> insts;
        for (auto *BB : order) {
            insts.emplace_back();
            for (auto &I : *BB) insts.back().push_back(&I);
        }
        // arguments
        if (F.arg_size() && !F.isVarArg() ? true : F.arg_size() > 0) {
            auto ip = F.getEntryBlock().getFirstInsertionPt();
            IRBuilder<> B(&F.getEntryBlock(), ip);
            auto *AT = ArrayType::get(PtrT, kMaxArgs);
            Value *tag = B.CreateLoad(PtrT, gTag);
            Value *ok = B.CreateICmpEQ(tag, &F);
            B.CreateStore(Null, gTag);
            unsigned k = 0;
            for (auto &A : F.args()) {
                Leaves L;
                if (A.hasByValAttr()) {  // the callee's private copy: copy the shadow of the caller's object
                    S[&A] = Leaves{Null};
                    if (k < kMaxArgs) {
                        Value *v = B.CreateLoad(PtrT, B.CreateConstGEP2_64(AT, gArgs, 0, k));
                        B.CreateCall(rt("__sx_byval", VoidT, {PtrT, PtrT, I64}),
                                     {&A, B.CreateSelect(ok, v, Null), ConstantInt::get(I64, DL->getTypeAllocSize(A.getParamByValType()))});
                    }
                    k++;
                    continue;
                }
                for (unsigned i = 0; i < numLeaves(A.getType()); i++, k++) {
                    if (k >= kMaxArgs) {
                        L.push_back(Null);
                        continue;
                    }
                    Value *v = B.CreateLoad(PtrT, B.CreateConstGEP2_64(AT, gArgs, 0, k));
                    L.push_back(B.CreateSelect(ok, v, Null));
                }
                S[&A] = L;
            }
        }
        std::vector<PHINode *> phis;
        for (auto &blk : insts)
            for (auto *I : blk)
                if (auto *P = dyn_cast<PHINode>(I)) {
                    Leaves L;
                    for (unsigned i = 0; i < numLeaves(P->getType()); i++)
                        L.push_back(PHINode::Create(PtrT, P->getNumIncomingValues(), "sx", P));
                    S[P] = L;
                    phis.push_back(P);
                }
        for (auto &blk : insts)
            for (auto *I : blk) visit(I);
        for (auto *P : phis) {
            auto L = S[P];
            for (unsigned i = 0; i < P->getNumIncomingValues(); i++) {
                auto IL = get(P->getIncomingValue(i));
                for (unsigned k = 0; k < L.size(); k++) cast<PHINode>(L[k])->addIncoming(IL[k], P->getIncomingBlock(i));
            }
        }
    }

    void visit(Instruction *I) {
        if (isa<PHINode>(I)) return;
        if (auto *CB = dyn_cast<CallBase>(I)) return handleCall(CB);
        IRBuilder<> B(I);
        Type *T = I->getType();
        if (auto *BO = dyn_cast<BinaryOperator>(I)) {
            Value *a = sh(BO->getOperand(0)), *b = sh(BO->getOperand(1));
            if (isNull(a) && isNull(b)) return set(I, Null);
            if (!T->isIntegerTy() || width(T) > 64) {
                concretize(B, BO->getOperand(0), "fp/wide op");
                concretize(B, BO->getOperand(1), "fp/wide op");
                return set(I, Null);
            }
            Value *av = asI64(B, BO->getOperand(0)), *bv = asI64(B, BO->getOperand(1));
            auto op = BO->getOpcode();
            if (op == Instruction::SDiv || op == Instruction::UDiv || op == Instruction::SRem || op == Instruction::URem)
                B.CreateCall(rt("__sx_divcheck", VoidT, {I32, PtrT, I64, PtrT, I64, I32, I32}), {c32(op), a, av, b, bv, c32(width(T)), site()});
            return set(I, bin(B, op, a, av, b, bv, width(T)));
        }
        if (auto *IC = dyn_cast<ICmpInst>(I)) {
            Type *OT = IC->getOperand(0)->getType();
            Value *a = sh(IC->getOperand(0)), *b = sh(IC->getOperand(1));
            if (isNull(a) && isNull(b)) return set(I, Null);
            if (!isScalar(OT)) return set(I, Null);
            return set(I, B.CreateCall(rt("__sx_icmp", PtrT, {I32, PtrT, I64, PtrT, I64, I32}),
                                       {c32(IC->getPredicate()), a, asI64(B, IC->getOperand(0)), b, asI64(B, IC->getOperand(1)), c32(width(OT))}));
        }
        if (auto *FC = dyn_cast<FCmpInst>(I)) {
            Value *a = sh(FC->getOperand(0)), *b = sh(FC->getOperand(1));
            if (isNull(a) && isNull(b)) return set(I, Null);
            if (FC->getOperand(0)->getType()->isDoubleTy())
                return set(I, B.CreateCall(rt("__sx_fcmp", PtrT, {I32, PtrT, I64, PtrT, I64}),
                                           {c32(FC->getPredicate()), a, asI64(B, FC->getOperand(0)), b, asI64(B, FC->getOperand(1))}));
        }
        if (auto *CI = dyn_cast<CastInst>(I)) {
            Value *a = sh(CI->getOperand(0));
            if (isNull(a)) return set(I, Null);
            Type *ST = CI->getSrcTy();
            switch (CI->getOpcode()) {
                case Instruction::BitCast:
                case Instruction::AddrSpaceCast:
                    if (isScalar(ST) && isScalar(T)) return set(I, a);
                    break;
                case Instruction::PtrToInt:
                case Instruction::IntToPtr:
                case Instruction::ZExt:
                case Instruction::SExt:
                case Instruction::Trunc: {
                    if (!isScalar(ST) || !isScalar(T)) break;
                    unsigned fw = width(ST), tw = width(T);
                    if (fw == tw) return set(I, a);
                    unsigned kind = CI->getOpcode() == Instruction::SExt ? 1 : (fw < tw ? 0 : 2);
                    return set(I, B.CreateCall(rt("__sx_cast", PtrT, {I32, PtrT, I32, I32}), {c32(kind), a, c32(fw), c32(tw)}));
                }
                case Instruction::UIToFP:
                case Instruction::SIToFP:
                    if (!T->isDoubleTy() || !isScalar(ST)) break;
                    return set(I, B.CreateCall(rt("__sx_i2d", PtrT, {PtrT, I64, I32, I32}),
                                               {a, asI64(B, CI->getOperand(0)), c32(width(ST)), c32(CI->getOpcode() == Instruction::SIToFP)}));
                case Instruction::FPToUI:
                case Instruction::FPToSI:
                    if (!ST->isDoubleTy() || !isScalar(T) || width(T) < 8) break;
                    return set(I, B.CreateCall(rt("__sx_d2i", PtrT, {PtrT, I64, I32}), {a, asI64(B, CI->getOperand(0)), c32(width(T))}));
                default: break;
            }
            concretize(B, CI->getOperand(0), "fp/wide cast");
            return set(I, Null);
        }
        if (isa<FreezeInst>(I)) {
            S[I] = get(I->getOperand(0));
            return;
        }
        if (auto *SI = dyn_cast<SelectInst>(I)) {
            Value *c = sh(SI->getCondition());
            auto LT = get(SI->getTrueValue()), LF = get(SI->getFalseValue());
            if (!SI->getCondition()->getType()->isIntegerTy(1)) {
                S[I] = nulls(T);
                return;
            }
            if (!isScalar(T)) {  // aggregate select: decide the condition
                if (!isNull(c)) B.CreateCall(rt("__sx_branch", VoidT, {PtrT, I1, I32}), {c, SI->getCondition(), site()});
                Leaves L;
                for (unsigned i = 0; i < LT.size(); i++) L.push_back(B.CreateSelect(SI->getCondition(), LT[i], LF[i]));
                S[I] = L;
                return;
            }
            if (isNull(c) && isNull(LT[0]) && isNull(LF[0])) return set(I, Null);
            return set(I, B.CreateCall(rt("__sx_select", PtrT, {PtrT, I1, PtrT, I64, PtrT, I64, I32}),
                                       {c, SI->getCondition(), LT[0], asI64(B, SI->getTrueValue()), LF[0], asI64(B, SI->getFalseValue()), c32(width(T))}));
        }
        if (auto *LI = dyn_cast<LoadInst>(I)) {
            if (LI->isAtomic()) B.CreateCall(rt("__sx_atomic", VoidT, {PtrT}), {LI->getPointerOperand()});
            Leaves L;
            loadLeaves(B, T, LI->getPointerOperand(), sh(LI->getPointerOperand()), 0, L);
            S[I] = L;
            return;
        }
        if (auto *SI = dyn_cast<StoreInst>(I)) {
            Value *p = SI->getPointerOperand();
            unsigned bytes = DL->getTypeStoreSize(SI->getValueOperand()->getType());
            if (SI->isAtomic()) B.CreateCall(rt("__sx_atomic", VoidT, {PtrT}), {p});
            B.CreateCall(rt("__sx_store_pre", VoidT, {PtrT, PtrT, I32}), {p, sh(p), c32(bytes)});
            IRBuilder<> B2(SI->getNextNode());
            auto L = get(SI->getValueOperand());
            ArrayRef<Value *> in(L);
            storeLeaves(B2, SI->getValueOperand()->getType(), p, 0, in);
            return;
        }
        if (auto *G = dyn_cast<GetElementPtrInst>(I)) {
            bool any = false;
            for (auto &U : G->operands()) any |= !isNull(sh(U));
            if (!any || T->isVectorTy()) return set(I, Null);
            MapVector<Value *, APInt> vars;
            APInt cst(64, 0);
            if (!G->collectOffset(*DL, 64, vars, cst)) {
                for (auto &U : G->operands()) concretize(B, U, "gep");
                return set(I, Null);
            }
            Value *acc = sh(G->getPointerOperand());
            Value *val = B.CreatePtrToInt(G->getPointerOperand(), I64);
            for (auto &[v, scale] : vars) {
                Value *iv = v;
                Value *is = sh(v);
                unsigned iw = width(v->getType());
                Value *ivx = iw < 64 ? B.CreateSExt(iv, I64) : iv;
                if (!isNull(is) && iw < 64) is = B.CreateCall(rt("__sx_cast", PtrT, {I32, PtrT, I32, I32}), {c32(1), is, c32(iw), c32(64)});
                Value *sc = ConstantInt::get(I64, scale);
                Value *prod = B.CreateMul(ivx, sc);
                Value *ps = isNull(is) ? (Value *)Null : bin(B, Instruction::Mul, is, ivx, Null, sc, 64);
                if (!(isNull(acc) && isNull(ps))) acc = bin(B, Instruction::Add, acc, val, ps, prod, 64);
                val = B.CreateAdd(val, prod);
            }
            if (!isNull(acc) && cst != 0) acc = bin(B, Instruction::Add, acc, val, Null, ConstantInt::get(I64, cst), 64);
            return set(I, acc);
        }
        if (auto *EV = dyn_cast<ExtractValueInst>(I)) {
            auto L = get(EV->getAggregateOperand());
            unsigned off = leafOffset(EV->getAggregateOperand()->getType(), EV->getIndices());
            unsigned n = numLeaves(T);
            S[I] = Leaves(L.begin() + off, L.begin() + off + n);
            return;
        }
        if (auto *IV = dyn_cast<InsertValueInst>(I)) {
            auto L = get(IV->getAggregateOperand());
            auto V = get(IV->getInsertedValueOperand());
            unsigned off = leafOffset(T, IV->getIndices());
            for (unsigned i = 0; i < V.size(); i++) L[off + i] = V[i];
            S[I] = L;
            return;
        }
        if (auto *BI = dyn_cast<BranchInst>(I)) {
            if (BI->isConditional()) {
                Value *c = sh(BI->getCondition());
                if (!isNull(c)) B.CreateCall(rt("__sx_branch", VoidT, {PtrT, I1, I32}), {c, BI->getCondition(), site()});
            }
            return;
        }
        if (auto *R = dyn_cast<ReturnInst>(I)) {
            if (R->getReturnValue()) {
                auto L = get(R->getReturnValue());
                auto *AT = ArrayType::get(PtrT, kMaxArgs);
                for (unsigned i = 0; i < L.size() && i < kMaxArgs; i++) B.CreateStore(L[i], B.CreateConstGEP2_64(AT, gRets, 0, i));
            }
            return;
        }
        if (auto *AI = dyn_cast<AllocaInst>(I)) {
            set(I, Null);
            if (AI->isArrayAllocation()) concretize(B, AI->getArraySize(), "alloca");
            return;
        }
        if (auto *RMW = dyn_cast<AtomicRMWInst>(I)) {
            concretize(B, RMW->getValOperand(), "atomicrmw");
            unsigned bytes = DL->getTypeStoreSize(T);
            B.CreateCall(rt("__sx_atomic", VoidT, {PtrT}), {RMW->getPointerOperand()});
            B.CreateCall(rt("__sx_load_conc", VoidT, {PtrT, PtrT, I32}), {RMW->getPointerOperand(), sh(RMW->getPointerOperand()), c32(bytes)});
            IRBuilder<> B2(I->getNextNode());
            B2.CreateCall(rt("__sx_store", VoidT, {PtrT, PtrT, I32, I32}), {RMW->getPointerOperand(), Null, c32(0), c32(bytes)});
            return set(I, Null);
        }
        if (auto *CX = dyn_cast<AtomicCmpXchgInst>(I)) {
            unsigned bytes = DL->getTypeStoreSize(CX->getNewValOperand()->getType());
            concretize(B, CX->getNewValOperand(), "cmpxchg");
            concretize(B, CX->getCompareOperand(), "cmpxchg");
            B.CreateCall(rt("__sx_atomic", VoidT, {PtrT}), {CX->getPointerOperand()});
            B.CreateCall(rt("__sx_load_conc", VoidT, {PtrT, PtrT, I32}), {CX->getPointerOperand(), sh(CX->getPointerOperand()), c32(bytes)});
            IRBuilder<> B2(I->getNextNode());
            B2.CreateCall(rt("__sx_store", VoidT, {PtrT, PtrT, I32, I32}), {CX->getPointerOperand(), Null, c32(0), c32(bytes)});
            S[I] = nulls(T);
            return;
        }
        if (isa<SwitchInst>(I)) {
            errs() << "switch left in " << F.getName() << "\n";
            exit(1);
        }
        // fp ops, vectors, landingpad, resume, va_arg, fence, unreachable, ...
        for (auto &U : I->operands())
            if (!isa<BasicBlock>(U) && isScalar(U->getType())) concretize(B, U, I->getOpcodeName());
        S[I] = nulls(T);
    }
};

int main(int argc, char **argv) {
    if (argc < 4) return 2;
    SMDiagnostic Err;
    for (int i = 3; i < argc; i++) {
        auto N = parseIRFile(argv[i], Err, C);
        if (!N) {
            Err.print(argv[0], errs());
            return 1;
        }
        if (!M) M = std::move(N);
        else if (Linker::linkModules(*M, std::move(N), Linker::OverrideFromSrc)) return 1;
    }
    {
        static const std::map<std::string, std::string> ren = {
            {"malloc", "__sx_malloc"}, {"calloc", "__sx_calloc"}, {"realloc", "__sx_realloc"}, {"free", "__sx_free"},
            {"_Znwm", "__sx_new"}, {"_Znam", "__sx_new"}, {"_ZdlPv", "__sx_free"}, {"_ZdaPv", "__sx_free"},
            {"_ZdlPvm", "__sx_sfree"}, {"_ZdaPvm", "__sx_sfree"}, {"_ZnwmRKSt9nothrow_t", "__sx_new_nt"},
            {"_ZnwmSt11align_val_t", "__sx_new_al"}, {"_ZdlPvSt11align_val_t", "__sx_sfree"}, {"_ZdlPvmSt11align_val_t", "__sx_sfree3"},
            {"memcmp", "__sxr_memcmp"}, {"bcmp", "__sxr_memcmp"},
        };
        for (auto &[from, to] : ren) {
            Function *O = M->getFunction(from);
            if (!O || !O->isDeclaration()) continue;
            if (Function *N = M->getFunction(to)) O->replaceAllUsesWith(N);
            else O->setName(to);
        }
    }
    // replace X by the model __sxm_X where there is one
    for (auto it = M->begin(); it != M->end();) {
        Function &Fn = *it++;
        if (!Fn.getName().starts_with("__sxm_") || Fn.isDeclaration()) continue;
        std::string orig = Fn.getName().substr(6).str();
        if (Function *O = M->getFunction(orig)) {
            if (O->getFunctionType() == Fn.getFunctionType() || O->isDeclaration() || true) O->replaceAllUsesWith(&Fn);
            if (!O->isDeclaration()) O->deleteBody();
            // __sxo_X is what the model calls to reach X itself
            if (Function *Q = M->getFunction("__sxo_" + orig)) Q->replaceAllUsesWith(O);
        }
    }
    std::set<std::string> keep{"main"};
    {
        StringRef e = argv[2];
        SmallVector<StringRef, 8> parts;
        e.split(parts, ',');
        for (auto p : parts) keep.insert(p.str());
    }
    LoopAnalysisManager LAM;
    FunctionAnalysisManager FAM;
    CGSCCAnalysisManager CGAM;
    ModuleAnalysisManager MAM;
    PassBuilder PB;
    PB.registerModuleAnalyses(MAM);
    PB.registerCGSCCAnalyses(CGAM);
    PB.registerFunctionAnalyses(FAM);
    PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    {
        ModulePassManager MPM;
        MPM.addPass(InternalizePass([&](const GlobalValue &G) { return keep.count(G.getName().str()) > 0; }));
        MPM.addPass(GlobalDCEPass());
        FunctionPassManager FPM;
        FPM.addPass(LowerSwitchPass());
        MPM.addPass(createModuleToFunctionPassAdaptor(std::move(FPM)));
        MPM.run(*M, MAM);
    }
    DL = &M->getDataLayout();
    I64 = Type::getInt64Ty(C);
    I32 = Type::getInt32Ty(C);
    I8 = Type::getInt8Ty(C);
    I1 = Type::getInt1Ty(C);
    VoidT = Type::getVoidTy(C);
    PtrT = PointerType::get(C, 0);
    auto *AT = ArrayType::get(PtrT, kMaxArgs);
    gArgs = new GlobalVariable(*M, AT, false, GlobalValue::ExternalLinkage, nullptr, "__sx_args");
    gRets = new GlobalVariable(*M, AT, false, GlobalValue::ExternalLinkage, nullptr, "__sx_rets");
    gTag = new GlobalVariable(*M, PtrT, false, GlobalValue::ExternalLinkage, nullptr, "__sx_tag");
    std::vector<Function *> fns;
    for (auto &Fn : *M)
        if (!Fn.isDeclaration() && !Fn.hasAvailableExternallyLinkage()) {
            fns.push_back(&Fn);
            instrumented.insert(&Fn);
        }
    for (auto *Fn : fns) {
        Fn->removeFnAttr(Attribute::Memory);
        Fn->removeFnAttr(Attribute::WillReturn);
        Fn->removeFnAttr(Attribute::NoSync);
        Fn->removeFnAttr(Attribute::NoFree);
        for (auto &A : Fn->args()) {
            for (auto k : {Attribute::ReadNone, Attribute::ReadOnly, Attribute::WriteOnly, Attribute::NoAlias, Attribute::NoCapture})
                A.removeAttr(k);
        }
        for (auto &I : instructions(*Fn))
            if (auto *CB = dyn_cast<CallBase>(&I)) {
                CB->removeFnAttr(Attribute::Memory);
                if (auto *CI = dyn_cast<CallInst>(CB)) if (!CI->isMustTailCall()) CI->setTailCall(false);
            }
    }
    for (auto *Fn : fns) {
        FnInstr FI(*Fn);
        FI.run();
    }
    // table of instrumented functions (address-taken ones matter)
    {
        std::vector<Constant *> v;
        for (auto *Fn : fns)
            if (Fn->hasAddressTaken()) v.push_back(Fn);
        v.push_back(ConstantPointerNull::get(PtrT));
        auto *T = ArrayType::get(PtrT, v.size());
        new GlobalVariable(*M, T, true, GlobalValue::ExternalLinkage, ConstantArray::get(T, v), "__sx_fntable");
        std::string names;
        for (auto *Fn : fns) names += Fn->getName().str() + "\n";
        auto *D = ConstantDataArray::getString(C, names);
        new GlobalVariable(*M, D->getType(), true, GlobalValue::ExternalLinkage, D, "__sx_fnnames");
    }
    if (verifyModule(*M, &errs())) return 1;
    std::error_code EC;
    raw_fd_ostream OS(argv[1], EC);
    WriteBitcodeToFile(*M, OS);
    // report external functions
    for (auto &Fn : *M)
        if (Fn.isDeclaration() && !Fn.isIntrinsic() && !Fn.getName().starts_with("__sx") && !Fn.getName().starts_with("sx_"))
            outs() << "EXT " << Fn.getName() << "\n";
    outs() << "FUNCS " << fns.size() << "\n";
    return 0;
}
