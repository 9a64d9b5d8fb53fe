// xsym: a small symbolic executor for LLVM IR.
//
// Runs harness functions of a bitcode module. Bytes obtained through vs_byte()/vs_input()
// are symbolic; every branch, switch, address or size that depends on them is decided
// by z3 (both sides are explored when both are feasible), and every vs_check() is
// discharged by asking z3 for an input on the current path that falsifies it.
#include "solver.hpp"
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Demangle/Demangle.h>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <sstream>

using namespace llvm;
typedef const ::Expr *Ex;

struct Unsupported { std::string what; };

struct Val { u64 c = 0; Ex e = nullptr; };

struct Obj {
    u64 base = 0, size = 0;
    std::vector<uint8_t> d;
    std::vector<Ex> s;      // empty when fully concrete
    bool ro = false, heap = false, dead = false;
};
typedef std::shared_ptr<Obj> ObjP;

struct Opnd { int reg = -1; Val k; };

enum class Op : uint8_t { BIN, CMP, CAST, SELECT, PHI, BR, CBR, SWITCH, ALLOCA, LOAD, STORE, GEP, CALL, RET, UNREACH, EXTRACTV, INSERTV, FREEZE, NOP, BAD };

struct Leaf { unsigned w; u64 off; };

struct FuncI;
struct Inst {
    Op op = Op::BAD;
    unsigned sub = 0;           // opcode / predicate
    unsigned w = 0, w2 = 0;     // widths
    int dst = -1; unsigned nd = 1;
    std::vector<Opnd> ops;
    std::vector<unsigned> tgt;  // successor blocks
    std::vector<u64> cs;        // constants (switch cases, gep scales)
    std::vector<Leaf> leaves;   // load/store layout
    u64 imm = 0;
    FuncI *callee = nullptr;
    Intrinsic::ID iid = Intrinsic::not_intrinsic;
    std::vector<std::pair<unsigned, unsigned>> argspan;
    std::vector<std::pair<unsigned, u64>> byval;   // (flat argument index, size) of arguments passed as the callee's own copy
    const Instruction *src = nullptr;
    bool hit = false, ptrRes = false;
    std::string bad;
};
struct Phi { int dst; unsigned nd; std::vector<std::pair<unsigned, std::vector<Opnd>>> in; };
struct BlockI { std::vector<Phi> phis; std::vector<Inst> is; };
struct FuncI {
    Function *F = nullptr;
    std::string name;
    unsigned nregs = 0;
    std::vector<std::pair<int, unsigned>> args;
    std::vector<BlockI> bs;
    bool decoded = false, entered = false;
    u64 addr = 0;
};

struct Frame {
    FuncI *f = nullptr;
    unsigned bb = 0, ip = 0;
    std::vector<Val> r;
    std::vector<u64> allocas;
    int retdst = -1; unsigned retn = 0;
};

struct State {
    std::vector<std::shared_ptr<Frame>> st;
    std::map<u64, ObjP> mem;    // stack, heap and written globals
    u64 nextAddr = 0;
    std::vector<Ex> pc;
    unsigned nvars = 0;
    u64 steps = 0;
    uint8_t known[64]; u64 knownMask = 0;
    bool done = false;
};

struct Cex { std::string kind, msg; std::vector<uint8_t> bytes; unsigned nvars; };

struct Engine {
    LLVMContext C;
    std::unique_ptr<Module> M;
    const DataLayout *DL = nullptr;
    ExprPool P;
    Solver S{P};
    std::map<const Function *, std::unique_ptr<FuncI>> funcs;
    std::map<u64, FuncI *> byAddr;
    std::map<const GlobalVariable *, u64> gaddr;
    std::map<u64, ObjP> globals;
    u64 nextG = 0x10000000ull;

    // per run
    std::vector<State> work;
    std::vector<Cex> cexs;
    std::map<std::string, u64> covers;
    std::vector<std::vector<uint8_t>> witnesses; unsigned maxWitness = 0; u64 costLimit = ~0ull;   // inputs of completed paths, to be replayed natively
    u64 paths = 0, steps = 0, forks = 0, checks = 0, checksSym = 0, maxPathSteps = 0;
    u64 stepLimit = 20000000, depthLimit = 30000;
    double timeLimit = 1e9;
    unsigned maxCex = 1;
    std::string status;
    std::chrono::steady_clock::time_point t0;

    double elapsed() const { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }

    // ---------- values
    Ex ex(const Val &v, unsigned w) { return v.e ? v.e : P.cst(v.c, w); }
    static Val mk(Ex e) { Val v; if (e->k == K::CONST && e->w <= 64) v.c = (u64) e->c; else v.e = e; return v; }
    static u64 m64(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
    static Val cv(u64 c, unsigned w) { Val v; v.c = c & m64(w); return v; }

    // ---------- types
    void leavesOf(Type *T, u64 off, std::vector<Leaf> &out) {
        if (auto *ST = dyn_cast<StructType>(T)) {
            const StructLayout *SL = DL->getStructLayout(ST);
            for (unsigned i = 0; i < ST->getNumElements(); ++i) leavesOf(ST->getElementType(i), off + SL->getElementOffset(i), out);
        } else if (auto *AT = dyn_cast<ArrayType>(T)) {
            u64 sz = DL->getTypeAllocSize(AT->getElementType());
            for (u64 i = 0; i < AT->getNumElements(); ++i) leavesOf(AT->getElementType(), off + i * sz, out);
        } else if (auto *VT = dyn_cast<FixedVectorType>(T)) {
            unsigned ew = (unsigned) DL->getTypeSizeInBits(VT->getElementType());
            if (ew % 8) throw Unsupported{"vector of sub-byte elements"};
            for (unsigned i = 0; i < VT->getNumElements(); ++i) leavesOf(VT->getElementType(), off + i * (ew / 8), out);
        } else if (T->isPointerTy()) out.push_back({64, off});
        else if (T->isIntegerTy()) {
            unsigned w = T->getIntegerBitWidth();
            if (w > 128) throw Unsupported{"integer wider than 128 bits"};
            out.push_back({w, off});
        } else if (T->isVoidTy()) {}
        else if (T->isDoubleTy() || T->isFloatTy()) out.push_back({T->isDoubleTy() ? 64u : 32u, off});
        else throw Unsupported{"type"};
    }
    unsigned nleaves(Type *T) {
        if (T->isVoidTy()) return 0;
        if (T->isIntegerTy() || T->isPointerTy()) return 1;
        std::vector<Leaf> l; leavesOf(T, 0, l); return (unsigned) l.size();
    }
    unsigned leafIndex(Type *T, ArrayRef<unsigned> idx) {
        unsigned n = 0;
        for (unsigned i : idx) {
            if (auto *ST = dyn_cast<StructType>(T)) { for (unsigned j = 0; j < i; ++j) n += nleaves(ST->getElementType(j)); T = ST->getElementType(i); }
            else { auto *AT = cast<ArrayType>(T); n += i * nleaves(AT->getElementType()); T = AT->getElementType(); }
        }
        return n;
    }
    static unsigned widthOf(Type *T) { return T->isPointerTy() ? 64 : T->isIntegerTy() ? T->getIntegerBitWidth() : T->isDoubleTy() ? 64 : T->isFloatTy() ? 32 : throw Unsupported{"width of type"}; }

    // ---------- constants
    u64 addrOf(const GlobalValue *G) {
        if (auto *F = dyn_cast<Function>(G)) return func(const_cast<Function *>(F))->addr;
        if (auto *A = dyn_cast<GlobalAlias>(G)) return addrOf(cast<GlobalValue>(A->getAliasee()->stripPointerCasts()));
        auto *V = cast<GlobalVariable>(G);
        auto it = gaddr.find(V);
        if (it != gaddr.end()) return it->second;
        u64 sz = DL->getTypeAllocSize(V->getValueType());
        u64 al = 64;
        nextG = (nextG + al - 1) / al * al + 64;
        auto o = std::make_shared<Obj>();
        o->base = nextG; o->size = sz; o->d.assign(sz, 0); o->ro = V->isConstant();
        nextG += sz + 64;
        gaddr[V] = o->base;
        globals[o->base] = o;
        if (V->hasInitializer()) initMem(*o, 0, V->getInitializer());
        else if (!V->isDeclaration()) {}
        return o->base;
    }
    FuncI *func(Function *F) {
        auto it = funcs.find(F);
        if (it != funcs.end()) return it->second.get();
        auto f = std::make_unique<FuncI>();
        f->F = F; f->name = F->getName().str();
        f->addr = 0x1000 + 16 * funcs.size();
        FuncI *r = f.get();
        byAddr[f->addr] = r;
        funcs[F] = std::move(f);
        return r;
    }
    void initMem(Obj &o, u64 off, const Constant *c) {
        Type *T = c->getType();
        if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c) || isa<ConstantPointerNull>(c)) return;
        if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
            u64 es = cd->getElementByteSize();
            for (unsigned i = 0; i < cd->getNumElements(); ++i) {
                u64 v;
                if (cd->getElementType()->isIntegerTy()) v = cd->getElementAsInteger(i);
                else v = cd->getElementAsAPFloat(i).bitcastToAPInt().getZExtValue();
                memcpy(&o.d[off + i * es], &v, es);
            }
            return;
        }
        if (isa<ConstantStruct>(c) || isa<ConstantArray>(c) || isa<ConstantVector>(c)) {
            for (unsigned i = 0; i < c->getNumOperands(); ++i) {
                u64 eo = isa<StructType>(T) ? (u64) DL->getStructLayout(cast<StructType>(T))->getElementOffset(i)
                                            : i * (u64) DL->getTypeAllocSize(c->getOperand(i)->getType());
                initMem(o, off + eo, cast<Constant>(c->getOperand(i)));
            }
            return;
        }
        if (auto *ci = dyn_cast<ConstantInt>(c)) {
            unsigned nb = (unsigned) DL->getTypeStoreSize(T);
            APInt a = ci->getValue().zext(std::max(64u, nb * 8));
            for (unsigned i = 0; i < nb; ++i) o.d[off + i] = (uint8_t) a.extractBitsAsZExtValue(8, i * 8);
            return;
        }
        u64 v = constVal(c);
        memcpy(&o.d[off], &v, 8);
    }
    u64 constVal(const Constant *c) {
        if (auto *g = dyn_cast<GlobalValue>(c)) return addrOf(g);
        if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return 0;
        if (auto *ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() > 64) throw Unsupported{"wide constant"}; return ci->getZExtValue(); }
        if (auto *fp = dyn_cast<ConstantFP>(c)) return fp->getValueAPF().bitcastToAPInt().getZExtValue();
        if (auto *ce = dyn_cast<ConstantExpr>(c)) {
            if (auto *gep = dyn_cast<GEPOperator>(ce)) {
                APInt off(64, 0);
                if (!gep->accumulateConstantOffset(*DL, off)) throw Unsupported{"constant gep"};
                return constVal(cast<Constant>(gep->getPointerOperand())) + off.getZExtValue();
            }
            auto o = [&](unsigned i) { return constVal(ce->getOperand(i)); };
            unsigned w = widthOf(ce->getType());
            switch (ce->getOpcode()) {
                case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::Trunc: case Instruction::ZExt: return o(0) & m64(w);
                case Instruction::Add: return (o(0) + o(1)) & m64(w);
                case Instruction::Sub: return (o(0) - o(1)) & m64(w);
                case Instruction::And: return (o(0) & o(1)) & m64(w);
                case Instruction::ICmp: {
                    u64 a = o(0), b = o(1);
                    switch (ce->getPredicate()) {
                        case CmpInst::ICMP_EQ: return a == b; case CmpInst::ICMP_NE: return a != b;
                        case CmpInst::ICMP_ULT: return a < b; case CmpInst::ICMP_ULE: return a <= b;
                        case CmpInst::ICMP_UGT: return a > b; case CmpInst::ICMP_UGE: return a >= b;
                        default: throw Unsupported{"constant icmp"};
                    }
                }
                default: throw Unsupported{std::string("constant expression ") + ce->getOpcodeName()};
            }
        }
        throw Unsupported{"constant"};
    }
    void constLeaves(const Constant *c, std::vector<Val> &out) {
        Type *T = c->getType();
        if (T->isIntegerTy() && T->getIntegerBitWidth() > 64) {
            if (isa<UndefValue>(c)) { Val v; v.e = P.cst(0, T->getIntegerBitWidth()); out.push_back(v); return; }
            auto *ci = dyn_cast<ConstantInt>(c);
            if (!ci || ci->getBitWidth() > 128) throw Unsupported{"wide constant"};
            APInt a = ci->getValue().zext(128);
            Val v; v.e = P.cst(((u128) a.extractBitsAsZExtValue(64, 64) << 64) | a.extractBitsAsZExtValue(64, 0), ci->getBitWidth());
            out.push_back(v); return;
        }
        if (T->isIntegerTy() || T->isPointerTy() || T->isFloatingPointTy()) { Val v; v.c = constVal(c); out.push_back(v); return; }
        if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) { std::vector<Leaf> l; leavesOf(T, 0, l); for (auto &x : l) { Val v; if (x.w > 64) v.e = P.cst(0, x.w); out.push_back(v); } return; }
        unsigned n = isa<StructType>(T) ? cast<StructType>(T)->getNumElements() : isa<ArrayType>(T) ? (unsigned) cast<ArrayType>(T)->getNumElements() : cast<FixedVectorType>(T)->getNumElements();
        for (unsigned i = 0; i < n; ++i) constLeaves(c->getAggregateElement(i), out);
    }

    // ---------- decoding
    void decode(FuncI *f) {
        f->decoded = true;
        Function &F = *f->F;
        std::map<const Value *, int> reg;
        std::map<const BasicBlock *, unsigned> bid;
        unsigned n = 0;
        for (auto &A : F.args()) { unsigned k = nleaves(A.getType()); reg[&A] = (int) n; f->args.push_back({(int) n, k}); n += k; }
        for (auto &B : F) {
            bid[&B] = (unsigned) bid.size();
            for (auto &I : B) if (!I.getType()->isVoidTy()) {
                unsigned k = 1;
                try { k = nleaves(I.getType()); } catch (Unsupported &) { k = 1; }
                reg[&I] = (int) n; n += k;
            }
        }
        f->nregs = n;
        auto opnds = [&](const Value *v, std::vector<Opnd> &out) {
            if (auto *c = dyn_cast<Constant>(v)) {
                std::vector<Val> ls; constLeaves(c, ls);
                for (auto &x : ls) { Opnd o; o.k = x; out.push_back(o); }
            } else {
                unsigned k = nleaves(v->getType());
                for (unsigned i = 0; i < k; ++i) { Opnd o; o.reg = reg.at(v) + (int) i; out.push_back(o); }
            }
        };
        f->bs.resize(bid.size());
        for (auto &B : F) {
            BlockI &b = f->bs[bid[&B]];
            for (auto &I : B) {
                if (auto *ph = dyn_cast<PHINode>(&I)) {
                    Phi p; p.dst = reg[&I]; p.nd = nleaves(I.getType());
                    for (unsigned i = 0; i < ph->getNumIncomingValues(); ++i) {
                        std::vector<Opnd> o; opnds(ph->getIncomingValue(i), o);
                        p.in.push_back({bid[ph->getIncomingBlock(i)], o});
                    }
                    b.phis.push_back(std::move(p));
                    continue;
                }
                Inst in; in.src = &I;
                try {
                    in.nd = nleaves(I.getType());
                    if (!I.getType()->isVoidTy()) in.dst = reg[&I];
                    in.ptrRes = I.getType()->isPointerTy();
                    if (I.getType()->isVectorTy() && !isa<LoadInst>(I)) throw Unsupported{"vector instruction"};
                    if (auto *bo = dyn_cast<BinaryOperator>(&I)) {
                        in.op = Op::BIN; in.sub = bo->getOpcode(); in.w = widthOf(I.getType());
                        if (!I.getType()->isIntegerTy()) throw Unsupported{"floating point"};
                        opnds(bo->getOperand(0), in.ops); opnds(bo->getOperand(1), in.ops);
                    } else if (auto *ic = dyn_cast<ICmpInst>(&I)) {
                        in.op = Op::CMP; in.sub = ic->getPredicate(); in.w = widthOf(ic->getOperand(0)->getType());
                        opnds(ic->getOperand(0), in.ops); opnds(ic->getOperand(1), in.ops);
                    } else if (isa<GetElementPtrInst>(I)) {
                        in.op = Op::GEP;
                        auto *gep = cast<GEPOperator>(&I);
                        opnds(gep->getPointerOperand(), in.ops);
                        u64 off = 0;
                        for (auto gti = gep_type_begin(gep), e = gep_type_end(gep); gti != e; ++gti) {
                            Value *ix = gti.getOperand();
                            if (StructType *ST = gti.getStructTypeOrNull()) { off += DL->getStructLayout(ST)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
                            u64 sz = gti.getSequentialElementStride(*DL);
                            if (auto *ci = dyn_cast<ConstantInt>(ix)) { off += (u64) ci->getSExtValue() * sz; continue; }
                            opnds(ix, in.ops); in.cs.push_back(sz); in.argspan.push_back({widthOf(ix->getType()), 0});
                        }
                        in.imm = off;
                    } else if (auto *ci = dyn_cast<CastInst>(&I)) {
                        in.op = Op::CAST; in.sub = ci->getOpcode(); in.w = widthOf(ci->getSrcTy()); in.w2 = widthOf(ci->getDestTy());
                        switch (ci->getOpcode()) {
                            case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: break;
                            default: throw Unsupported{"cast"};
                        }
                        opnds(ci->getOperand(0), in.ops);
                    } else if (auto *se = dyn_cast<SelectInst>(&I)) {
                        in.op = Op::SELECT; opnds(se->getCondition(), in.ops);
                        opnds(se->getTrueValue(), in.ops); opnds(se->getFalseValue(), in.ops);
                        in.w = in.nd == 1 ? widthOf(I.getType()) : 0;
                    } else if (auto *br = dyn_cast<BranchInst>(&I)) {
                        if (br->isConditional()) { in.op = Op::CBR; opnds(br->getCondition(), in.ops); in.tgt = {bid[br->getSuccessor(0)], bid[br->getSuccessor(1)]}; }
                        else { in.op = Op::BR; in.tgt = {bid[br->getSuccessor(0)]}; }
                    } else if (auto *sw = dyn_cast<SwitchInst>(&I)) {
                        in.op = Op::SWITCH; in.w = widthOf(sw->getCondition()->getType());
                        opnds(sw->getCondition(), in.ops);
                        in.tgt.push_back(bid[sw->getDefaultDest()]);
                        for (auto &cs : sw->cases()) { in.cs.push_back(cs.getCaseValue()->getZExtValue()); in.tgt.push_back(bid[cs.getCaseSuccessor()]); }
                    } else if (auto *al = dyn_cast<AllocaInst>(&I)) {
                        in.op = Op::ALLOCA;
                        auto *sz = dyn_cast<ConstantInt>(al->getArraySize());
                        if (!sz) throw Unsupported{"variable-sized alloca"};
                        in.imm = DL->getTypeAllocSize(al->getAllocatedType()) * sz->getZExtValue();
                    } else if (auto *ld = dyn_cast<LoadInst>(&I)) {
                        in.op = Op::LOAD; opnds(ld->getPointerOperand(), in.ops); leavesOf(I.getType(), 0, in.leaves);
                    } else if (auto *so = dyn_cast<StoreInst>(&I)) {
                        in.op = Op::STORE; opnds(so->getPointerOperand(), in.ops); opnds(so->getValueOperand(), in.ops);
                        leavesOf(so->getValueOperand()->getType(), 0, in.leaves);
                    } else if (auto *ev = dyn_cast<ExtractValueInst>(&I)) {
                        in.op = Op::EXTRACTV; opnds(ev->getAggregateOperand(), in.ops);
                        in.imm = leafIndex(ev->getAggregateOperand()->getType(), ev->getIndices());
                    } else if (auto *iv = dyn_cast<InsertValueInst>(&I)) {
                        in.op = Op::INSERTV; opnds(iv->getAggregateOperand(), in.ops); in.w = (unsigned) in.ops.size();
                        opnds(iv->getInsertedValueOperand(), in.ops);
                        in.imm = leafIndex(iv->getAggregateOperand()->getType(), iv->getIndices());
                    } else if (isa<FreezeInst>(I)) { in.op = Op::FREEZE; opnds(I.getOperand(0), in.ops); }
                    else if (isa<UnreachableInst>(I)) in.op = Op::UNREACH;
                    else if (auto *rt = dyn_cast<ReturnInst>(&I)) { in.op = Op::RET; if (rt->getReturnValue()) opnds(rt->getReturnValue(), in.ops); }
                    else if (auto *cb = dyn_cast<CallBase>(&I)) {
                        in.op = Op::CALL;
                        if (isa<DbgInfoIntrinsic>(I)) { in.op = Op::NOP; b.is.push_back(std::move(in)); continue; }
                        if (cb->isInlineAsm()) throw Unsupported{"inline assembly"};
                        Function *cf = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCastsAndAliases());
                        if (cf) { in.callee = func(cf); in.iid = cf->getIntrinsicID(); }
                        else { opnds(cb->getCalledOperand(), in.ops); }
                        in.imm = in.ops.size();
                        for (auto &A : cb->args()) {
                            if (A->getType()->isMetadataTy()) continue;
                            unsigned st = (unsigned) in.ops.size(); opnds(A.get(), in.ops);
                            unsigned no = cb->getArgOperandNo(&A);
                            if (cb->isByValArgument(no))
                                in.byval.push_back({st - (unsigned) in.imm, (u64) DL->getTypeAllocSize(cb->getParamByValType(no))});
                            in.argspan.push_back({st, (unsigned) in.ops.size() - st});
                        }
                        if (in.iid != Intrinsic::not_intrinsic && cb->arg_size() && !cb->getArgOperand(0)->getType()->isMetadataTy())
                            in.w = cb->getArgOperand(0)->getType()->isIntegerTy() ? cb->getArgOperand(0)->getType()->getIntegerBitWidth() : 64;
                        if (auto *inv = dyn_cast<InvokeInst>(&I)) in.tgt = {bid[inv->getNormalDest()]};
                    } else throw Unsupported{std::string("instruction ") + I.getOpcodeName()};
                } catch (Unsupported &u) { in.op = Op::BAD; in.bad = u.what + " in " + f->name; }
                b.is.push_back(std::move(in));
            }
        }
    }

    // ---------- state helpers
    Frame &top(State &s) {
        auto &p = s.st.back();
        if (p.use_count() > 1) p = std::make_shared<Frame>(*p);
        return *p;
    }
    Val get(const Frame &f, const Opnd &o) { return o.reg < 0 ? o.k : f.r[o.reg]; }

    Ex applyKnown(State &s, Ex e) {
        if (!(e->support & s.knownMask)) return e;
        std::unordered_map<Ex, Ex> memo;
        return P.subst(e, [&](unsigned v) { return (s.knownMask >> v & 1) ? P.cst(s.known[v], 8) : P.var(v); }, memo);
    }
    void addPC(State &s, Ex c) {
        if (c->k == K::CONST) return;
        // conjunctions are split so that slices stay small
        if (c->k == K::AND && c->w == 1) { addPC(s, c->a); addPC(s, c->b); return; }
        if (c->k == K::EQ && c->a->k == K::VAR && c->b->k == K::CONST) {
            unsigned v = (unsigned) c->a->c; s.knownMask |= 1ull << v; s.known[v] = (uint8_t) c->b->c;
            s.pc.push_back(c);
            // constraints over known variables only are implied; the others are specialised
            std::vector<Ex> old; old.swap(s.pc);
            for (Ex e : old) {
                if (e == c) { s.pc.push_back(e); continue; }
                if ((e->support >> v & 1)) {
                    if (e->k == K::EQ && e->a->k == K::VAR && e->b->k == K::CONST) { s.pc.push_back(e); continue; }
                    Ex n = applyKnown(s, e);
                    if (n->k == K::CONST) continue;
                    addPC(s, n);
                } else s.pc.push_back(e);
            }
            return;
        }
        for (Ex e : s.pc) if (e == c) return;
        s.pc.push_back(c);
    }
    // 1 true only, 0 false only, 2 both, -1 unknown
    int decide(State &s, Ex &c) {
        c = applyKnown(s, c);
        if (c->k == K::CONST) return c->c ? 1 : 0;
        int t = S.sat(s.pc, c);
        if (t == 0) return 0;
        int f = S.sat(s.pc, P.lnot(c));
        if (f == 0) return 1;
        if (t < 0 || f < 0) return -1;
        return 2;
    }
    struct PathEnd {};
    [[noreturn]] void violation(State &s, const std::string &kind, const std::string &msg, Ex extra = nullptr) {
        Cex c; c.kind = kind; c.msg = msg; c.nvars = s.nvars;
        u64 all = s.nvars >= 64 ? ~0ull : ((1ull << s.nvars) - 1);
        std::vector<uint8_t> m;
        if (S.model(s.pc, extra, all, m) == 1) { c.bytes.assign(m.begin(), m.begin() + s.nvars); cexs.push_back(c); }
        else status = "unknown: no model for a violation";
        throw PathEnd{};
    }
    std::string where(State &s) {
        std::string r;
        for (size_t i = s.st.size(); i-- > 0 && s.st.size() - i < 6;) { r += demangle(s.st[i]->f->name).substr(0, 120); r += " < "; }
        return r;
    }

    // Fork the state (taken before the current instruction changed anything) under another constraint
    void forkWith(const State &s, Ex c) {
        work.push_back(s);
        addPC(work.back(), c);
        ++forks;
    }
    u64 concretize(State &s, Val v, unsigned w) {
        if (!v.e) return v.c;
        Ex e = applyKnown(s, v.e);
        if (e->k == K::CONST) return (u64) e->c;
        std::vector<uint8_t> m;
        u64 all = s.nvars >= 64 ? ~0ull : ((1ull << s.nvars) - 1);
        if (S.model(s.pc, nullptr, all, m) != 1) { status = "unknown: solver gave up"; throw PathEnd{}; }
        u128 val = P.eval(e, m.data());
        Ex eq = P.bin(K::EQ, e, P.cst(val, w));
        int r = S.sat(s.pc, P.lnot(eq));
        if (r != 0) { if (r < 0) status = "unknown: solver gave up"; forkWith(s, P.lnot(eq)); }
        addPC(s, eq);
        return (u64) val;
    }

    ObjP *findObj(State &s, u64 a) {
        auto it = s.mem.upper_bound(a);
        if (it != s.mem.begin()) { --it; if (a >= it->second->base && a <= it->second->base + it->second->size) return &it->second; }
        auto g = globals.upper_bound(a);
        if (g != globals.begin()) { --g; if (a >= g->second->base && a <= g->second->base + g->second->size) return &g->second; }
        return nullptr;
    }
    const Obj &robj(State &s, u64 a, u64 n, const char *what) {
        ObjP *p = findObj(s, a);
        if (!p || (*p)->dead || a + n > (*p)->base + (*p)->size) violation(s, "memory", std::string("invalid ") + what + " of " + std::to_string(n) + " byte(s) in " + where(s));
        return **p;
    }
    Obj &wobj(State &s, u64 a, u64 n) {
        ObjP *p = findObj(s, a);
        if (!p || (*p)->dead || a + n > (*p)->base + (*p)->size) violation(s, "memory", std::string("invalid write of ") + std::to_string(n) + " byte(s) in " + where(s));
        if ((*p)->ro) violation(s, "memory", "write to constant data in " + where(s));
        u64 base = (*p)->base;
        auto it = s.mem.find(base);
        if (it == s.mem.end()) it = s.mem.emplace(base, std::make_shared<Obj>(**p)).first; // written global: private copy
        else if (it->second.use_count() > 1) it->second = std::make_shared<Obj>(*it->second);
        return *it->second;
    }
    u64 alloc(State &s, u64 size, bool heap) {
        u64 base = (s.nextAddr + 63) / 64 * 64 + 64;
        auto o = std::make_shared<Obj>();
        o->base = base; o->size = size; o->d.assign(size, 0xA5); o->heap = heap;
        s.nextAddr = base + size + 1;
        s.mem[base] = o;
        return base;
    }
    Val loadLeaf(const Obj &o, u64 off, unsigned w) {
        unsigned nb = (w + 7) / 8;
        bool sym = false;
        if (!o.s.empty()) for (unsigned i = 0; i < nb; ++i) if (o.s[off + i]) { sym = true; break; }
        if (!sym) {
            if (w <= 64) { u64 v = 0; memcpy(&v, &o.d[off], nb); return cv(v, w); }
            u128 v = 0; memcpy(&v, &o.d[off], nb); Val r; r.e = P.cst(v, w); return r;
        }
        Ex e = nullptr;
        for (unsigned i = 0; i < nb; ++i) {
            Ex b = o.s[off + i] ? o.s[off + i] : P.cst(o.d[off + i], 8);
            e = e ? P.concat(b, e) : b;
        }
        if (e->w > w) e = P.extract(e, 0, w);
        return mk(e);
    }
    void storeLeaf(Obj &o, u64 off, unsigned w, Val v) {
        unsigned nb = (w + 7) / 8;
        if (!v.e) {
            memcpy(&o.d[off], &v.c, nb);
            if (!o.s.empty()) for (unsigned i = 0; i < nb; ++i) o.s[off + i] = nullptr;
            return;
        }
        if (o.s.empty()) o.s.assign(o.size, nullptr);
        Ex e = v.e;
        if (e->w < nb * 8) e = P.zext(e, nb * 8);
        for (unsigned i = 0; i < nb; ++i) {
            Ex b = P.extract(e, i * 8, 8);
            if (b->k == K::CONST) { o.d[off + i] = (uint8_t) b->c; o.s[off + i] = nullptr; }
            else o.s[off + i] = b;
        }
    }
    // A read through a symbolic address into one small object becomes an if-then-else over its cells
    bool symLoad(State &s, Ex addr, const Inst &in, Val &out) {
        if (in.leaves.size() != 1) return false;
        unsigned w = in.leaves[0].w, nb = (w + 7) / 8;
        std::vector<uint8_t> m;
        u64 all = s.nvars >= 64 ? ~0ull : ((1ull << s.nvars) - 1);
        if (S.model(s.pc, nullptr, all, m) != 1) return false;
        u64 a = (u64) P.eval(addr, m.data());
        ObjP *p = findObj(s, a);
        if (!p || (*p)->size > 4096 || (*p)->size < nb) return false;
        const Obj &o = **p;
        // in bounds for every input on this path?
        Ex offx = P.bin(K::SUB, addr, P.cst(o.base, 64));
        Ex inb = P.bin(K::ULE, offx, P.cst(o.size - nb, 64));
        if (S.sat(s.pc, P.lnot(inb)) != 0) return false;
        Ex r = nullptr;
        unsigned feas = 0;
        // only multiples of the cell size? (one query)
        u64 stride = 1;
        if (nb > 1 && (nb & (nb - 1)) == 0 && S.sat(s.pc, P.lnot(P.bin(K::EQ, P.bin(K::AND, offx, P.cst(nb - 1, 64)), P.cst(0, 64)))) == 0) stride = nb;
        // runs of equal cells need no feasibility queries
        std::vector<std::pair<u64, Ex>> runs;   // last offset of the run, value
        for (u64 off = 0; off + nb <= o.size && runs.size() <= 48; off += stride) {
            Ex v = ex(loadLeaf(o, off, w), w);
            if (!runs.empty() && runs.back().second == v) runs.back().first = off;
            else runs.push_back({off, v});
        }
        if (runs.size() <= 48) {
            for (size_t i = runs.size(); i-- > 0;)
                r = r ? P.ite(P.bin(K::ULE, offx, P.cst(runs[i].first, 64)), runs[i].second, r) : runs[i].second;
            out = mk(r);
            return true;
        }
        for (u64 off = 0; off + nb <= o.size; off += stride) {
            Ex c = P.bin(K::EQ, offx, P.cst(off, 64));
            if (S.sat(s.pc, c) == 0) continue;
            ++feas;
            Ex v = ex(loadLeaf(o, off, w), w);
            r = r ? P.ite(c, v, r) : v;
        }
        if (!r || feas > 512) return false;
        out = mk(r);
        return true;
    }

    Ex binE(unsigned opc, Ex a, Ex b) {
        switch (opc) {
            case Instruction::Add: return P.bin(K::ADD, a, b);
            case Instruction::Sub: return P.bin(K::SUB, a, b);
            case Instruction::Mul: return P.bin(K::MUL, a, b);
            case Instruction::UDiv: return P.bin(K::UDIV, a, b);
            case Instruction::SDiv: return P.bin(K::SDIV, a, b);
            case Instruction::URem: return P.bin(K::UREM, a, b);
            case Instruction::SRem: return P.bin(K::SREM, a, b);
            case Instruction::And: return P.bin(K::AND, a, b);
            case Instruction::Or: return P.bin(K::OR, a, b);
            case Instruction::Xor: return P.bin(K::XOR, a, b);
            case Instruction::Shl: return P.bin(K::SHL, a, b);
            case Instruction::LShr: return P.bin(K::LSHR, a, b);
            case Instruction::AShr: return P.bin(K::ASHR, a, b);
        }
        throw Unsupported{"binary operator"};
    }
    Ex cmpE(unsigned p, Ex a, Ex b) {
        switch (p) {
            case CmpInst::ICMP_EQ: return P.bin(K::EQ, a, b);
            case CmpInst::ICMP_NE: return P.lnot(P.bin(K::EQ, a, b));
            case CmpInst::ICMP_ULT: return P.bin(K::ULT, a, b);
            case CmpInst::ICMP_ULE: return P.bin(K::ULE, a, b);
            case CmpInst::ICMP_UGT: return P.bin(K::ULT, b, a);
            case CmpInst::ICMP_UGE: return P.bin(K::ULE, b, a);
            case CmpInst::ICMP_SLT: return P.bin(K::SLT, a, b);
            case CmpInst::ICMP_SLE: return P.bin(K::SLE, a, b);
            case CmpInst::ICMP_SGT: return P.bin(K::SLT, b, a);
            case CmpInst::ICMP_SGE: return P.bin(K::SLE, b, a);
        }
        throw Unsupported{"comparison"};
    }
    static bool cmpC(unsigned p, u64 a, u64 b, unsigned w) {
        int64_t sa = (int64_t) sextw(a, w), sb = (int64_t) sextw(b, w);
        switch (p) {
            case CmpInst::ICMP_EQ: return a == b; case CmpInst::ICMP_NE: return a != b;
            case CmpInst::ICMP_ULT: return a < b; case CmpInst::ICMP_ULE: return a <= b;
            case CmpInst::ICMP_UGT: return a > b; case CmpInst::ICMP_UGE: return a >= b;
            case CmpInst::ICMP_SLT: return sa < sb; case CmpInst::ICMP_SLE: return sa <= sb;
            case CmpInst::ICMP_SGT: return sa > sb; case CmpInst::ICMP_SGE: return sa >= sb;
        }
        throw Unsupported{"comparison"};
    }

    void jump(State &s, Frame &f, unsigned to) {
        BlockI &b = f.f->bs[to];
        if (!b.phis.empty()) {
            static thread_local std::vector<Val> tmp; tmp.clear();
            for (auto &p : b.phis) {
                bool ok = false;
                for (auto &in : p.in) if (in.first == f.bb) { for (auto &o : in.second) tmp.push_back(get(f, o)); ok = true; break; }
                if (!ok) throw Unsupported{"phi"};
            }
            size_t k = 0;
            for (auto &p : b.phis) for (unsigned i = 0; i < p.nd; ++i) f.r[p.dst + i] = tmp[k++];
        }
        f.bb = to; f.ip = 0;
    }
    std::string cstr(State &s, u64 a) {
        std::string r;
        for (;; ++a) { const Obj &o = robj(s, a, 1, "read"); char c = (char) o.d[a - o.base]; if (!c || r.size() > 400) break; r += c; }
        return r;
    }
    void popFrame(State &s) {
        for (u64 a : s.st.back()->allocas) s.mem.erase(a);
        s.st.pop_back();
    }
    void pushFrame(State &s, FuncI *c, const std::vector<Val> &args, int dst, unsigned nd) {
        if (!c->decoded) decode(c);
        c->entered = true;
        if (s.st.size() > depthLimit) violation(s, "termination", "recursion deeper than " + std::to_string(depthLimit) + " frames in " + where(s));
        auto nf = std::make_shared<Frame>();
        nf->f = c; nf->r.resize(c->nregs); nf->retdst = dst; nf->retn = nd;
        if (args.size() > c->nregs) throw Unsupported{"variadic call"};
        for (size_t i = 0; i < args.size(); ++i) nf->r[i] = args[i];
        s.st.push_back(nf);
    }
    void setRes(State &s, const Inst &in, Val v) { if (in.dst >= 0) top(s).r[in.dst] = v; }

    void memCopy(State &s, u64 d, u64 sr, u64 n) {
        if (!n) return;
        const Obj &so = robj(s, sr, n, "read");
        std::vector<uint8_t> bd(so.d.begin() + (sr - so.base), so.d.begin() + (sr - so.base) + n);
        std::vector<Ex> bs;
        if (!so.s.empty()) bs.assign(so.s.begin() + (sr - so.base), so.s.begin() + (sr - so.base) + n);
        Obj &o = wobj(s, d, n);
        memcpy(&o.d[d - o.base], bd.data(), n);
        if (!bs.empty()) { if (o.s.empty()) o.s.assign(o.size, nullptr); for (u64 i = 0; i < n; ++i) o.s[d - o.base + i] = bs[i]; }
        else if (!o.s.empty()) for (u64 i = 0; i < n; ++i) o.s[d - o.base + i] = nullptr;
    }
    Ex byteAt(State &s, u64 a) { const Obj &o = robj(s, a, 1, "read"); Val v = loadLeaf(o, a - o.base, 8); return ex(v, 8); }

    // Returns true if the call was handled (the instruction pointer is advanced by the caller)
    bool builtin(State &s, const Inst &in, FuncI *cf, const std::vector<Val> &a) {
        auto C64 = [&](unsigned i) { return concretize(s, a[i], 64); };
        switch (in.iid) {
            case Intrinsic::not_intrinsic: break;
            case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { u64 d = C64(0), sr = C64(1), n = C64(2); memCopy(s, d, sr, n); return true; }
            case Intrinsic::memset: {
                u64 d = C64(0), n = C64(2); if (!n) return true;
                Obj &o = wobj(s, d, n);
                for (u64 i = 0; i < n; ++i) storeLeaf(o, d - o.base + i, 8, a[1]);
                return true;
            }
            case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::prefetch: return true;
            case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: setRes(s, in, a[0]); return true;
            case Intrinsic::is_constant: setRes(s, in, cv(0, 1)); return true;
            case Intrinsic::objectsize: setRes(s, in, cv(~0ull, 64)); return true;
            case Intrinsic::trap: case Intrinsic::ubsantrap: violation(s, "abort", "trap in " + where(s));
            case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax: {
                Ex x = ex(a[0], in.w), y = ex(a[1], in.w);
                K k = (in.iid == Intrinsic::umin || in.iid == Intrinsic::umax) ? K::ULT : K::SLT;
                Ex c = P.bin(k, x, y);
                bool mn = in.iid == Intrinsic::umin || in.iid == Intrinsic::smin;
                setRes(s, in, mk(mn ? P.ite(c, x, y) : P.ite(c, y, x))); return true;
            }
            case Intrinsic::abs: { Ex x = ex(a[0], in.w), z = P.cst(0, in.w); setRes(s, in, mk(P.ite(P.bin(K::SLT, x, z), P.bin(K::SUB, z, x), x))); return true; }
            case Intrinsic::usub_sat: { Ex x = ex(a[0], in.w), y = ex(a[1], in.w); setRes(s, in, mk(P.ite(P.bin(K::ULT, x, y), P.cst(0, in.w), P.bin(K::SUB, x, y)))); return true; }
            case Intrinsic::uadd_sat: { Ex x = ex(a[0], in.w), y = ex(a[1], in.w), t = P.bin(K::ADD, x, y); setRes(s, in, mk(P.ite(P.bin(K::ULT, t, x), P.cst(maskw(in.w), in.w), t))); return true; }
            case Intrinsic::fshl: case Intrinsic::fshr: {
                unsigned w = in.w; Ex x = ex(a[0], w), y = ex(a[1], w);
                u64 n = concretize(s, a[2], w) % w;
                Ex r;
                if (in.iid == Intrinsic::fshl) r = n ? P.bin(K::OR, P.bin(K::SHL, x, P.cst(n, w)), P.bin(K::LSHR, y, P.cst(w - n, w))) : x;
                else r = n ? P.bin(K::OR, P.bin(K::SHL, x, P.cst(w - n, w)), P.bin(K::LSHR, y, P.cst(n, w))) : y;
                setRes(s, in, mk(r)); return true;
            }
            case Intrinsic::ctpop: {
                unsigned w = in.w; Ex x = ex(a[0], w), r = P.cst(0, w);
                for (unsigned i = 0; i < w; ++i) r = P.bin(K::ADD, r, P.zext(P.extract(x, i, 1), w));
                setRes(s, in, mk(r)); return true;
            }
            case Intrinsic::cttz: case Intrinsic::ctlz: {
                unsigned w = in.w; Ex x = ex(a[0], w), r = P.cst(w, w);
                for (unsigned j = 0; j < w; ++j) { unsigned bit = in.iid == Intrinsic::cttz ? w - 1 - j : j; r = P.ite(P.extract(x, bit, 1), P.cst(in.iid == Intrinsic::cttz ? bit : w - 1 - bit, w), r); }
                setRes(s, in, mk(r)); return true;
            }
            case Intrinsic::bswap: {
                unsigned w = in.w; Ex x = ex(a[0], w), r = nullptr;
                for (unsigned i = 0; i < w / 8; ++i) { Ex b = P.extract(x, i * 8, 8); r = r ? P.concat(r, b) : b; }
                setRes(s, in, mk(r)); return true;
            }
            case Intrinsic::bitreverse: {
                unsigned w = in.w; Ex x = ex(a[0], w), r = nullptr;
                for (unsigned i = 0; i < w; ++i) { Ex b = P.extract(x, i, 1); r = r ? P.concat(r, b) : b; }
                setRes(s, in, mk(r)); return true;
            }
            case Intrinsic::uadd_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: {
                unsigned w = in.w; if (w > 64) throw Unsupported{"wide overflow intrinsic"};
                bool sg = in.iid == Intrinsic::sadd_with_overflow || in.iid == Intrinsic::ssub_with_overflow || in.iid == Intrinsic::smul_with_overflow;
                unsigned ww = 2 * w > 128 ? 128 : 2 * w;
                Ex x = ex(a[0], w), y = ex(a[1], w);
                Ex X = sg ? P.sext(x, ww) : P.zext(x, ww), Y = sg ? P.sext(y, ww) : P.zext(y, ww), R;
                if (in.iid == Intrinsic::uadd_with_overflow || in.iid == Intrinsic::sadd_with_overflow) R = P.bin(K::ADD, X, Y);
                else if (in.iid == Intrinsic::usub_with_overflow || in.iid == Intrinsic::ssub_with_overflow) R = P.bin(K::SUB, X, Y);
                else R = P.bin(K::MUL, X, Y);
                Ex lo = P.extract(R, 0, w);
                Ex ov = P.lnot(P.bin(K::EQ, R, sg ? P.sext(lo, ww) : P.zext(lo, ww)));
                Frame &f = top(s); f.r[in.dst] = mk(lo); f.r[in.dst + 1] = mk(ov); return true;
            }
            default: throw Unsupported{"intrinsic " + cf->name};
        }
        const std::string &n = cf->name;
        if (n == "vs_byte") { setRes(s, in, mk(freshByte(s))); return true; }
        if (n == "vs_input") {
            u64 k = C64(0), p = alloc(s, k, true);
            Obj &o = *s.mem[p];
            if (k) o.s.assign(k, nullptr);
            for (u64 i = 0; i < k; ++i) o.s[i] = freshByte(s);
            setRes(s, in, cv(p, 64)); return true;
        }
        if (n == "vs_assume") {
            Ex c = P.lnot(P.bin(K::EQ, ex(a[0], 32), P.cst(0, 32)));
            int r = decide(s, c);
            if (r == 0) throw PathEnd{};
            if (r < 0) status = "unknown: solver gave up";
            if (r != 1) addPC(s, c);
            return true;
        }
        if (n == "vs_check") {
            ++checks;
            Ex c = P.lnot(P.bin(K::EQ, ex(a[0], 32), P.cst(0, 32)));
            if (c->k != K::CONST) ++checksSym;
            int r = decide(s, c);
            if (r == 1) return true;
            std::string msg = cstr(s, C64(1));
            if (r < 0) { status = "unknown: solver gave up on a check"; throw PathEnd{}; }
            violation(s, "check", msg, P.lnot(c));
        }
        if (n == "vs_cover") { covers[cstr(s, C64(0))]++; return true; }
        if (n == "vs_concrete") { setRes(s, in, cv(concretize(s, a[0], 64), 64)); return true; }
        if (!cf->F->isDeclaration()) return false;
        if (n == "malloc" || n == "_Znwm" || n == "_Znam" || n == "_ZnwmRKSt9nothrow_t" || n == "_ZnamRKSt9nothrow_t" || n == "_ZnwmSt11align_val_t") {
            u64 k = C64(0);
            if (k > (1u << 24)) violation(s, "memory", "allocation of " + std::to_string(k) + " bytes in " + where(s));
            setRes(s, in, cv(alloc(s, k, true), 64)); return true;
        }
        if (n == "free" || n == "_ZdlPv" || n == "_ZdaPv" || n == "_ZdlPvm" || n == "_ZdaPvm" || n == "_ZdlPvSt11align_val_t" || n == "_ZdlPvmSt11align_val_t") {
            u64 p = C64(0); if (!p) return true;
            auto it = s.mem.find(p);
            if (it == s.mem.end() || !it->second->heap || it->second->dead) violation(s, "memory", "invalid deallocation in " + where(s));
            auto o = std::make_shared<Obj>(*it->second); o->dead = true; o->d.clear(); o->s.clear(); it->second = o;
            return true;
        }
        if (n == "memcpy" || n == "memmove") { u64 d = C64(0), sr = C64(1), k = C64(2); memCopy(s, d, sr, k); setRes(s, in, cv(d, 64)); return true; }
        if (n == "memset") { u64 d = C64(0), k = C64(2); if (k) { Obj &o = wobj(s, d, k); Val b = mk(P.extract(ex(a[1], 32), 0, 8)); for (u64 i = 0; i < k; ++i) storeLeaf(o, d - o.base + i, 8, b); } setRes(s, in, cv(d, 64)); return true; }
        if (n == "strlen") {
            u64 p = C64(0), k = 0;
            for (;; ++k) { u64 c = concretize(s, mk(byteAt(s, p + k)), 8); if (!c) break; }
            setRes(s, in, cv(k, 64)); return true;
        }
        if (n == "memcmp" || n == "bcmp" || n == "strncmp_" ) {
            u64 p = C64(0), q = C64(1), k = C64(2);
            Ex r = P.cst(0, 32);
            for (u64 i = k; i-- > 0;) { Ex x = byteAt(s, p + i), y = byteAt(s, q + i); r = P.ite(P.bin(K::EQ, x, y), r, P.ite(P.bin(K::ULT, x, y), P.cst(~0ull, 32), P.cst(1, 32))); }
            setRes(s, in, mk(r)); return true;
        }
        if (n == "memchr") {
            u64 p = C64(0), k = C64(2); Ex c = P.extract(ex(a[1], 32), 0, 8), r = P.cst(0, 64);
            for (u64 i = k; i-- > 0;) r = P.ite(P.bin(K::EQ, byteAt(s, p + i), c), P.cst(p + i, 64), r);
            setRes(s, in, cv(concretize(s, mk(r), 64), 64)); return true;
        }
        if (n == "abort" || n == "__assert_fail" || n == "_ZSt9terminatev" || n.find("__throw_") != std::string::npos || n == "__cxa_pure_virtual" || n.find("__glibcxx_assert_fail") != std::string::npos)
            violation(s, "abort", demangle(n) + " called in " + where(s));
        throw Unsupported{"external function " + n};
    }
    Ex freshByte(State &s) {
        if (s.nvars >= 64) throw Unsupported{"more than 64 symbolic bytes"};
        return P.var(s.nvars++);
    }

    void step(State &s) {
        Frame &f = top(s);
        Inst &in = f.f->bs[f.bb].is[f.ip];
        in.hit = true;
        switch (in.op) {
            case Op::NOP: ++f.ip; return;
            case Op::BAD: throw Unsupported{in.bad};
            case Op::BIN: {
                Val a = get(f, in.ops[0]), b = get(f, in.ops[1]);
                if (in.sub == Instruction::UDiv || in.sub == Instruction::SDiv || in.sub == Instruction::URem || in.sub == Instruction::SRem) {
                    Ex z = P.bin(K::EQ, ex(b, in.w), P.cst(0, in.w));
                    int r = decide(s, z);
                    if (r != 0) violation(s, "abort", "division by zero in " + where(s), z);
                }
                if (!a.e && !b.e && in.w <= 64) {
                    u128 r; if (!ExprPool::fold2(kindOf(in.sub), in.w, a.c, b.c, r)) throw Unsupported{"fold"};
                    f.r[in.dst] = cv((u64) r, in.w);
                } else f.r[in.dst] = mk(binE(in.sub, ex(a, in.w), ex(b, in.w)));
                ++f.ip; return;
            }
            case Op::CMP: {
                Val a = get(f, in.ops[0]), b = get(f, in.ops[1]);
                if (!a.e && !b.e && in.w <= 64) f.r[in.dst] = cv(cmpC(in.sub, a.c, b.c, in.w), 1);
                else f.r[in.dst] = mk(cmpE(in.sub, ex(a, in.w), ex(b, in.w)));
                ++f.ip; return;
            }
            case Op::CAST: {
                Val a = get(f, in.ops[0]);
                if (!a.e && in.w <= 64 && in.w2 <= 64) {
                    u64 v = a.c;
                    if (in.sub == Instruction::SExt) v = (u64) (int64_t) sextw(v, in.w);
                    f.r[in.dst] = cv(v, in.w2);
                } else {
                    Ex e = ex(a, in.w);
                    if (in.w2 < in.w) e = P.extract(e, 0, in.w2);
                    else if (in.sub == Instruction::SExt) e = P.sext(e, in.w2);
                    else e = P.zext(e, in.w2);
                    f.r[in.dst] = mk(e);
                }
                ++f.ip; return;
            }
            case Op::FREEZE: { for (unsigned i = 0; i < in.nd; ++i) f.r[in.dst + i] = get(f, in.ops[i]); ++f.ip; return; }
            case Op::GEP: {
                Val p = get(f, in.ops[0]);
                bool sym = p.e;
                for (size_t i = 1; i < in.ops.size(); ++i) if (get(f, in.ops[i]).e) sym = true;
                if (!sym) {
                    u64 a = p.c + in.imm;
                    for (size_t i = 1; i < in.ops.size(); ++i) a += (u64) (int64_t) sextw(get(f, in.ops[i]).c, in.argspan[i - 1].first) * in.cs[i - 1];
                    f.r[in.dst] = cv(a, 64);
                } else {
                    // an offset computed from a single bit ("p + matched"): the paths are separated here, so that positions stay concrete
                    std::vector<Ex> idx(in.ops.size(), nullptr);
                    for (size_t i = 1; i < in.ops.size(); ++i) {
                        Val v = get(f, in.ops[i]);
                        unsigned w = in.argspan[i - 1].first;
                        idx[i] = ex(v, w);
                        if (!v.e) continue;
                        Ex x = applyKnown(s, v.e), bit = x;
                        while (bit->k == K::ZEXT || bit->k == K::SEXT) bit = bit->a;
                        if (x->k != K::CONST && bit->w == 1) {
                            int r = decide(s, bit);
                            if (r < 0) { status = "unknown: solver gave up"; r = 2; }
                            if (r == 2) { forkWith(s, P.lnot(bit)); addPC(s, bit); r = 1; }
                            x = P.cst(x->k == K::SEXT && r ? maskw(w) : (u128) r, w);
                        }
                        idx[i] = x;
                    }
                    Frame &f = top(s);
                    Ex e = P.bin(K::ADD, ex(p, 64), P.cst(in.imm, 64));
                    for (size_t i = 1; i < in.ops.size(); ++i) {
                        unsigned w = in.argspan[i - 1].first;
                        Ex x = idx[i];
                        x = w < 64 ? P.sext(x, 64) : w > 64 ? P.extract(x, 0, 64) : x;
                        e = P.bin(K::ADD, e, P.bin(K::MUL, x, P.cst(in.cs[i - 1], 64)));
                    }
                    f.r[in.dst] = mk(e);
                    ++f.ip; return;
                }
                ++f.ip; return;
            }
            case Op::SELECT: {
                Val c = get(f, in.ops[0]);
                unsigned n = in.nd;
                if (c.e) {
                    Ex e = c.e;
                    int r = 2;
                    e = applyKnown(s, e);
                    if (e->k == K::CONST) r = e->c ? 1 : 0;
                    else if (n == 1 && !in.ptrRes && in.w <= 16) {
                        f.r[in.dst] = mk(P.ite(e, ex(get(f, in.ops[1]), in.w), ex(get(f, in.ops[2]), in.w)));
                        ++f.ip; return;
                    } else r = decide(s, e);
                    if (r < 0) { status = "unknown: solver gave up"; r = 2; }
                    if (r == 2) { forkWith(s, P.lnot(e)); addPC(s, e); r = 1; }
                    c.c = (u64) r;
                }
                Frame &g = top(s);
                for (unsigned i = 0; i < n; ++i) g.r[in.dst + i] = get(g, in.ops[1 + (c.c ? 0 : n) + i]);
                ++g.ip; return;
            }
            case Op::BR: jump(s, f, in.tgt[0]); return;
            case Op::CBR: {
                Val c = get(f, in.ops[0]);
                if (c.e) {
                    Ex e = c.e;
                    int r = decide(s, e);
                    if (r < 0) { status = "unknown: solver gave up"; r = 2; }
                    if (r == 2) {
                        forkWith(s, P.lnot(e)); addPC(s, e); r = 1;
                    }
                    c.c = (u64) r;
                }
                jump(s, top(s), in.tgt[c.c ? 0 : 1]);
                return;
            }
            case Op::SWITCH: {
                Val v = get(f, in.ops[0]);
                if (v.e) { Ex e = applyKnown(s, v.e); v = mk(e); }
                if (!v.e) {
                    unsigned t = in.tgt[0];
                    for (size_t i = 0; i < in.cs.size(); ++i) if (in.cs[i] == v.c) { t = in.tgt[i + 1]; break; }
                    jump(s, f, t); return;
                }
                // every feasible case is explored
                Ex dflt = P.cst(1, 1);
                std::vector<std::pair<Ex, unsigned>> alt;
                for (size_t i = 0; i < in.cs.size(); ++i) {
                    Ex c = P.bin(K::EQ, v.e, P.cst(in.cs[i], in.w));
                    int r = S.sat(s.pc, c);
                    if (r < 0) status = "unknown: solver gave up";
                    if (r != 0) { alt.push_back({c, in.tgt[i + 1]}); dflt = P.bin(K::AND, dflt, P.lnot(c)); }
                }
                int r = S.sat(s.pc, dflt);
                if (r < 0) status = "unknown: solver gave up";
                if (r != 0) alt.push_back({dflt, in.tgt[0]});
                if (alt.empty()) throw PathEnd{};
                for (size_t i = 1; i < alt.size(); ++i) {
                    work.push_back(s); ++forks;
                    State &n = work.back();
                    addPC(n, alt[i].first);
                    jump(n, top(n), alt[i].second);
                }
                addPC(s, alt[0].first);
                jump(s, top(s), alt[0].second);
                return;
            }
            case Op::ALLOCA: { u64 p = alloc(s, in.imm, false); f.allocas.push_back(p); f.r[in.dst] = cv(p, 64); ++f.ip; return; }
            case Op::LOAD: {
                Val p = get(f, in.ops[0]);
                if (p.e) {
                    Ex e = applyKnown(s, p.e);
                    Val out;
                    if (e->k != K::CONST && symLoad(s, e, in, out)) { top(s).r[in.dst] = out; ++top(s).ip; return; }
                }
                u64 a = concretize(s, p, 64);
                u64 n = 0; for (auto &l : in.leaves) n = std::max(n, l.off + (l.w + 7) / 8);
                const Obj &o = robj(s, a, n, "read");
                Frame &g = top(s);
                for (size_t i = 0; i < in.leaves.size(); ++i) g.r[in.dst + i] = loadLeaf(o, a - o.base + in.leaves[i].off, in.leaves[i].w);
                ++g.ip; return;
            }
            case Op::STORE: {
                u64 a = concretize(s, get(f, in.ops[0]), 64);
                u64 n = 0; for (auto &l : in.leaves) n = std::max(n, l.off + (l.w + 7) / 8);
                Obj &o = wobj(s, a, n);
                Frame &g = top(s);
                for (size_t i = 0; i < in.leaves.size(); ++i) {
                    Val v = get(g, in.ops[1 + i]);
                    if (!v.e && in.leaves[i].w > 64) throw Unsupported{"wide store"};
                    storeLeaf(o, a - o.base + in.leaves[i].off, in.leaves[i].w, v);
                }
                ++g.ip; return;
            }
            case Op::EXTRACTV: { for (unsigned i = 0; i < in.nd; ++i) f.r[in.dst + i] = get(f, in.ops[in.imm + i]); ++f.ip; return; }
            case Op::INSERTV: {
                std::vector<Val> t; for (unsigned i = 0; i < in.w; ++i) t.push_back(get(f, in.ops[i]));
                for (size_t i = in.w; i < in.ops.size(); ++i) t[in.imm + (i - in.w)] = get(f, in.ops[i]);
                for (unsigned i = 0; i < in.nd; ++i) f.r[in.dst + i] = t[i];
                ++f.ip; return;
            }
            case Op::CALL: {
                FuncI *c = in.callee;
                if (!c) {
                    u64 a = concretize(s, get(f, in.ops[0]), 64);
                    auto it = byAddr.find(a);
                    if (it == byAddr.end()) violation(s, "memory", "call through an invalid pointer in " + where(s));
                    c = it->second;
                }
                std::vector<Val> args;
                Frame &g = top(s);
                for (auto &sp : in.argspan) for (unsigned i = 0; i < sp.second; ++i) args.push_back(get(g, in.ops[sp.first + i]));
                if (builtin(s, in, c, args)) { Frame &h = top(s); if (in.tgt.empty()) ++h.ip; else jump(s, h, in.tgt[0]); return; }
                // a byval argument is the callee's own copy of the object
                std::vector<std::pair<size_t, u64>> copies;
                for (auto &bv : in.byval) {
                    u64 src = concretize(s, args[bv.first], 64);
                    u64 dst = alloc(s, bv.second, false);
                    memCopy(s, dst, src, bv.second);
                    args[bv.first] = cv(dst, 64); copies.push_back({bv.first, dst});
                }
                pushFrame(s, c, args, in.dst, in.nd);
                for (auto &cp : copies) top(s).allocas.push_back(cp.second);
                return;
            }
            case Op::RET: {
                std::vector<Val> v; for (auto &o : in.ops) v.push_back(get(f, o));
                int dst = f.retdst;
                popFrame(s);
                if (s.st.empty()) { s.done = true; return; }
                Frame &g = top(s);
                if (dst >= 0) for (size_t i = 0; i < v.size(); ++i) g.r[dst + i] = v[i];
                Inst &ci = g.f->bs[g.bb].is[g.ip];
                if (ci.tgt.empty()) ++g.ip; else jump(s, g, ci.tgt[0]);
                return;
            }
            case Op::UNREACH: violation(s, "abort", "undefined behaviour: unreachable code reached in " + where(s));
            case Op::PHI: throw Unsupported{"phi"};
        }
    }
    static K kindOf(unsigned opc) {
        switch (opc) {
            case Instruction::Add: return K::ADD; case Instruction::Sub: return K::SUB; case Instruction::Mul: return K::MUL;
            case Instruction::UDiv: return K::UDIV; case Instruction::SDiv: return K::SDIV; case Instruction::URem: return K::UREM; case Instruction::SRem: return K::SREM;
            case Instruction::And: return K::AND; case Instruction::Or: return K::OR; case Instruction::Xor: return K::XOR;
            case Instruction::Shl: return K::SHL; case Instruction::LShr: return K::LSHR; case Instruction::AShr: return K::ASHR;
        }
        throw Unsupported{"binary operator"};
    }

    void run(const std::string &fn, const std::vector<u64> &argv) {
        work.clear(); cexs.clear(); covers.clear(); witnesses.clear();
        paths = steps = forks = checks = checksSym = maxPathSteps = 0; status = "ok";
        t0 = std::chrono::steady_clock::now();
        Function *F = M->getFunction(fn);
        if (!F || F->isDeclaration()) { status = "unsupported: no function " + fn; return; }
        try {
            State s; s.nextAddr = 0x7000000000ull;
            std::vector<Val> av; for (u64 a : argv) av.push_back(cv(a, 64));
            unsigned na = 0; for (auto &A : F->args()) { if (na < av.size()) av[na].c &= m64(widthOf(A.getType())); ++na; }
            pushFrame(s, func(F), av, -1, 0);
            work.push_back(std::move(s));
            while (!work.empty()) {
                State cur = std::move(work.back()); work.pop_back();
                try {
                    while (!cur.done) {
                        step(cur);
                        ++steps;
                        if (++cur.steps > stepLimit) violation(cur, "termination", "more than " + std::to_string(stepLimit) + " instructions on one path in " + where(cur));
                        if ((steps & 0xfff) == 0 && elapsed() > timeLimit) { status = "timeout"; return; }
                    }
                } catch (PathEnd &) {}
                ++paths;
                if (cur.done && witnesses.size() < maxWitness && (paths & (paths - 1)) == 0) {
                    std::vector<uint8_t> m; u64 all = cur.nvars >= 64 ? ~0ull : ((1ull << cur.nvars) - 1);
                    if (S.model(cur.pc, nullptr, all, m) == 1) { m.resize(cur.nvars); witnesses.push_back(m); }
                }
                maxPathSteps = std::max(maxPathSteps, cur.steps);
                if (cexs.size() >= maxCex) { status = "violation"; return; }
                if ((paths & 0x3f) == 0 && elapsed() > timeLimit) { status = "timeout"; return; }
            }
        } catch (Unsupported &u) { status = "unsupported: " + u.what; }
        if (!cexs.empty()) status = "violation";
    }
};

static std::string js(const std::string &s) {
    std::string r = "\"";
    for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += (char) c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += (char) c; }
    return r + "\"";
}

int main(int argc, char **argv) {
    if (argc < 3) { fprintf(stderr, "usage: xsym module.bc jobs.txt [--time s] [--steps n] [--total s] [--dump file n]\n"); return 2; }
    Engine E;
    double total = 1e9;
    for (int i = 3; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "--time") E.timeLimit = atof(argv[++i]);
        else if (a == "--steps") E.stepLimit = strtoull(argv[++i], 0, 10);
        else if (a == "--depth") E.depthLimit = strtoull(argv[++i], 0, 10);
        else if (a == "--witness") E.maxWitness = (unsigned) atoi(argv[++i]);
        else if (a == "--cost") E.costLimit = strtoull(argv[++i], 0, 10);
        else if (a == "--total") total = atof(argv[++i]);
        else if (a == "--dump") { E.S.dump = fopen(argv[++i], "w"); E.S.dumpMax = strtoull(argv[++i], 0, 10); }
    }
    SMDiagnostic err;
    E.M = parseIRFile(argv[1], err, E.C);
    if (!E.M) { err.print("xsym", errs()); return 2; }
    E.DL = &E.M->getDataLayout();
    auto tstart = std::chrono::steady_clock::now();
    std::ifstream jf(argv[2]);
    std::string line;
    double perRun = E.timeLimit;
    while (std::getline(jf, line)) {
        std::istringstream ss(line);
        std::string fn; ss >> fn; if (fn.empty()) continue;
        // an argument "lo..hi" is increased from lo to hi until a run costs more than costLimit
        std::vector<u64> av; std::string tok; size_t ri = (size_t) -1; u64 rlo = 0, rhi = 0;
        while (ss >> tok) {
            size_t d = tok.find("..");
            if (d == std::string::npos) av.push_back(strtoull(tok.c_str(), 0, 10));
            else { ri = av.size(); rlo = strtoull(tok.c_str(), 0, 10); rhi = strtoull(tok.c_str() + d + 2, 0, 10); av.push_back(rlo); }
        }
        if (ri == (size_t) -1) rhi = rlo;
        u64 prevCost = 0;
        for (u64 rv = rlo; rv <= rhi; ++rv) {
        if (ri != (size_t) -1) av[ri] = rv;
        u64 q0 = E.S.queries, h0 = E.S.cacheHits; double z0 = E.S.seconds; u64 s0 = E.S.nsat, u0 = E.S.nunsat;
        double spent = std::chrono::duration<double>(std::chrono::steady_clock::now() - tstart).count();
        if (spent > total) { printf("{\"fn\":%s,\"args\":[", js(fn).c_str()); for (size_t i = 0; i < av.size(); ++i) printf("%s%llu", i ? "," : "", (unsigned long long) av[i]); printf("],\"status\":\"skipped\"}\n"); continue; }
        E.timeLimit = std::min(perRun, total - spent + 0.01);
        E.run(fn, av);
        printf("{\"fn\":%s,\"args\":[", js(fn).c_str());
        for (size_t i = 0; i < av.size(); ++i) printf("%s%llu", i ? "," : "", (unsigned long long) av[i]);
        printf("],\"status\":%s,\"paths\":%llu,\"steps\":%llu,\"forks\":%llu,\"checks\":%llu,\"checks_sym\":%llu,\"max_path_steps\":%llu,\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"cache_hits\":%llu,\"solver_s\":%.4f,\"wall_s\":%.4f,\"covers\":{",
               js(E.status).c_str(), (unsigned long long) E.paths, (unsigned long long) E.steps, (unsigned long long) E.forks, (unsigned long long) E.checks, (unsigned long long) E.checksSym, (unsigned long long) E.maxPathSteps,
               (unsigned long long) (E.S.queries - q0), (unsigned long long) (E.S.nsat - s0), (unsigned long long) (E.S.nunsat - u0), (unsigned long long) (E.S.cacheHits - h0), E.S.seconds - z0, E.elapsed());
        bool first = true;
        for (auto &c : E.covers) { printf("%s%s:%llu", first ? "" : ",", js(c.first).c_str(), (unsigned long long) c.second); first = false; }
        printf("},\"cex\":[");
        first = true;
        for (auto &c : E.cexs) {
            printf("%s{\"kind\":%s,\"msg\":%s,\"bytes\":[", first ? "" : ",", js(c.kind).c_str(), js(c.msg).c_str()); first = false;
            for (size_t i = 0; i < c.bytes.size(); ++i) printf("%s%u", i ? "," : "", c.bytes[i]);
            printf("]}");
        }
        printf("],\"witness\":[");
        for (size_t w = 0; w < E.witnesses.size(); ++w) {
            printf("%s[", w ? "," : "");
            for (size_t i = 0; i < E.witnesses[w].size(); ++i) printf("%s%u", i ? "," : "", E.witnesses[w][i]);
            printf("]");
        }
        printf("]}\n");
        fflush(stdout);
        // the next length is left out when this one was costly, or when the growth from the last length to this one says that it will be
        u64 cost = E.steps + 3000 * (E.S.queries - q0);
        if (E.status != "ok" || cost > E.costLimit || (rv > rlo && (double) cost * cost / (prevCost + 1) > 60.0 * E.costLimit)) break;
        prevCost = cost;
        }
    }
    // functions (also inlined ones) and source lines whose instructions were executed
    std::map<std::string, std::set<std::string>> fnsByFile; std::map<std::string, std::set<unsigned>> lines;
    for (auto &p : E.funcs) {
        if (!p.second->decoded) continue;
        for (auto &b : p.second->bs) for (auto &in : b.is) if (in.hit && in.src) {
            const DILocation *L = in.src->getDebugLoc().get();
            while (L) {
                auto *SP = L->getScope()->getSubprogram();
                if (L->getLine()) lines[L->getFilename().str()].insert(L->getLine());
                if (SP) fnsByFile[SP->getFilename().str()].insert(SP->getName().str());
                L = L->getInlinedAt();
            }
        }
    }
    printf("{\"summary\":{");
    bool first = true;
    for (auto &f : fnsByFile) {
        printf("%s%s:{\"functions\":[", first ? "" : ",", js(f.first).c_str()); first = false;
        bool g = true; for (auto &n : f.second) { printf("%s%s", g ? "" : ",", js(n).c_str()); g = false; }
        printf("],\"lines\":["); g = true; for (auto n : lines[f.first]) { printf("%s%u", g ? "" : ",", n); g = false; }
        printf("]}");
    }
    printf("}}\n");
    return 0;
}
