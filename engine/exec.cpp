#include <llvm/Analysis/ValueTracking.h>
#include "exec.h"
#include <llvm/Support/raw_ostream.h>
#include <llvm/IR/DebugLoc.h>
#include <algorithm>
#include <chrono>
#include <cmath>
#include <cstring>
#include <cinttypes>

using namespace llvm;

double nowSec() {
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

// ------------------------------------------------------------------ memory
static void objFree(Obj* o) { free(o->d); free(o->s); delete o; }
static void chunkRelease(Chunk* c) {
    if (--c->rc) return;
    // An object spanning several slots holds one reference per slot.
    for (Obj* o : c->o) if (o && --o->rc == 0) objFree(o);
    delete c;
}
AddrSpace::AddrSpace(const AddrSpace& o) : chunks(o.chunks), freeStack(o.freeStack), nextSlot(o.nextSlot) {
    for (Chunk* c : chunks) if (c) c->rc++;
}
AddrSpace::~AddrSpace() { for (Chunk* c : chunks) if (c) chunkRelease(c); }
static Chunk* ownChunk(std::vector<Chunk*>& chunks, u32 ci) {
    if (ci >= chunks.size()) chunks.resize(ci + 1, nullptr);
    Chunk* c = chunks[ci];
    if (!c) { c = new Chunk; c->rc = 1; memset(c->o, 0, sizeof(c->o)); chunks[ci] = c; return c; }
    if (c->rc == 1) return c;
    Chunk* n = new Chunk;
    n->rc = 1;
    memcpy(n->o, c->o, sizeof(c->o));
    for (Obj* o : n->o) if (o) o->rc++;
    c->rc--;
    chunks[ci] = n;
    return n;
}
void AddrSpace::setSlot(u32 slot, Obj* o) {
    Chunk* c = ownChunk(chunks, slot >> 8);
    Obj*& r = c->o[slot & 255];
    if (r == o) return;
    if (o) o->rc++;
    Obj* old = r;
    r = o;
    if (old && --old->rc == 0) objFree(old);
}
static u32 slotsFor(u64 size) { return (u32)((size + 0x100 + 0xffff) >> 16); }
Obj* AddrSpace::alloc(u64 size, ObjKind k, u64 align, const char* name, const Instruction* site) {
    u32 ns = slotsFor(size);
    u32 slot;
    if (k == OStack && ns == 1 && freeStack.size() > 64) {
        slot = freeStack.front();
        freeStack.erase(freeStack.begin());
    } else {
        slot = nextSlot;
        nextSlot += ns;
    }
    Obj* o = new Obj;
    o->rc = 0; o->kind = k; o->freed = false; o->ro = false;
    o->base = BASE + ((u64)slot << SH) + (align > 16 ? 0 : 0x30);
    o->size = size;
    o->d = (u8*)malloc(size ? size : 1);
    o->s = nullptr;
    o->name = name; o->site = site; o->linear = -1;
    for (u32 i = 0; i < ns; ++i) setSlot(slot + i, o);
    return o;
}
Obj* AddrSpace::writable(Obj* o) {
    u32 slot = (u32)((o->base - BASE) >> SH);
    u32 ns = slotsFor(o->size);
    // the chunk must be ours and the object referenced only by our slots
    Chunk* c = ownChunk(chunks, slot >> 8);
    o = c->o[slot & 255];
    if (ns > 1) for (u32 i = 1; i < ns; ++i) ownChunk(chunks, (slot + i) >> 8);
    if (o->rc == ns) return o;
    Obj* n = new Obj(*o);
    n->rc = 0;
    n->d = (u8*)malloc(o->size ? o->size : 1);
    memcpy(n->d, o->d, o->size);
    if (o->s) {
        n->s = (Expr**)malloc(sizeof(Expr*) * o->size);
        memcpy(n->s, o->s, sizeof(Expr*) * o->size);
    }
    for (u32 i = 0; i < ns; ++i) setSlot(slot + i, n);
    return n;
}
void AddrSpace::release(Obj* o) {
    u32 slot = (u32)((o->base - BASE) >> SH);
    u32 ns = slotsFor(o->size);
    Obj* n = new Obj(*o);
    n->rc = 0; n->freed = true;
    n->d = nullptr; n->s = nullptr;
    for (u32 i = 0; i < ns; ++i) setSlot(slot + i, n);
}
void AddrSpace::freeStackObj(u64 base) {
    u32 slot = (u32)((base - BASE) >> SH);
    Obj* o = find(base);
    u32 ns = slotsFor(o->size);
    if (ns == 1) freeStack.push_back(slot);
    release(o);
}

// ------------------------------------------------------------------ types
void Exec::flatten(Type* t, u64 off, std::vector<Leaf>& out) {
    if (auto* st = dyn_cast<StructType>(t)) {
        const StructLayout* sl = DL->getStructLayout(st);
        for (unsigned i = 0; i < st->getNumElements(); ++i)
            flatten(st->getElementType(i), off + sl->getElementOffset(i), out);
    } else if (auto* at = dyn_cast<ArrayType>(t)) {
        u64 es = DL->getTypeAllocSize(at->getElementType());
        for (u64 i = 0; i < at->getNumElements(); ++i) flatten(at->getElementType(), off + i * es, out);
    } else if (auto* vt = dyn_cast<FixedVectorType>(t)) {
        u64 es = DL->getTypeSizeInBits(vt->getElementType()) / 8;
        unsigned n = vt->getNumElements();
        if (es == 0) { // vector of i1: keep as leaves, not addressable
            for (unsigned i = 0; i < n; ++i) out.push_back({1, off});
            return;
        }
        for (unsigned i = 0; i < n; ++i) flatten(vt->getElementType(), off + i * es, out);
    } else if (t->isVoidTy() || t->isLabelTy() || t->isMetadataTy() || t->isTokenTy()) {
    } else {
        out.push_back({(unsigned)DL->getTypeSizeInBits(t).getFixedValue(), off});
    }
}
unsigned Exec::nSlots(Type* t) {
    if (t->isIntegerTy() || t->isPointerTy() || t->isFloatingPointTy()) return 1;
    std::vector<Leaf> l;
    flatten(t, 0, l);
    return l.size();
}
static unsigned tw(const DataLayout* DL, Type* t) {
    return (unsigned)DL->getTypeSizeInBits(t->getScalarType()).getFixedValue();
}

Val Exec::constScalar(const Constant* c) {
    if (auto* ci = dyn_cast<ConstantInt>(c)) {
        if (ci->getBitWidth() <= 64) return VC(ci->getZExtValue());
        APInt a = ci->getValue();
        if (ci->getBitWidth() > 128) { errs() << "jsym: >128-bit const\n"; abort(); }
        return Val{0, mkConst(a.extractBitsAsZExtValue(64, 0), ci->getBitWidth(),
                                a.extractBitsAsZExtValue(ci->getBitWidth() - 64, 64))};
    }
    if (auto* cf = dyn_cast<ConstantFP>(c)) {
        APInt a = cf->getValueAPF().bitcastToAPInt();
        if (a.getBitWidth() <= 64) return VC(a.getZExtValue());
        return Val{0, mkConst(a.extractBitsAsZExtValue(64, 0), a.getBitWidth(),
                                a.extractBitsAsZExtValue(a.getBitWidth() - 64, 64))};
    }
    if (isa<ConstantPointerNull>(c)) return VC(0);
    if (isa<UndefValue>(c)) {
        unsigned w = tw(DL, c->getType());
        if (w > 64) return Val{0, mkConst(0, w, 0)};
        return VC(0);
    }
    if (auto* ga = dyn_cast<GlobalAlias>(c)) return constScalar(ga->getAliasee());
    if (auto* gv = dyn_cast<GlobalValue>(c)) {
        auto it = gaddr.find(gv);
        if (it == gaddr.end()) { errs() << "jsym: no address for " << gv->getName() << "\n"; abort(); }
        return VC(it->second);
    }
    if (auto* ce = dyn_cast<ConstantExpr>(c)) {
        switch (ce->getOpcode()) {
        case Instruction::GetElementPtr: {
            auto* g = cast<GEPOperator>(ce);
            APInt off(64, 0);
            if (!g->accumulateConstantOffset(*DL, off)) { errs() << "jsym: gep constexpr\n"; abort(); }
            return VC(constScalar(cast<Constant>(g->getPointerOperand())).c + off.getZExtValue());
        }
        case Instruction::BitCast: case Instruction::AddrSpaceCast:
        case Instruction::PtrToInt: case Instruction::IntToPtr: {
            Val v = constScalar(ce->getOperand(0));
            return VC(v.c & maskw(tw(DL, ce->getType())));
        }
        case Instruction::Trunc: return VC(constScalar(ce->getOperand(0)).c & maskw(tw(DL, ce->getType())));
        case Instruction::Sub: return VC((constScalar(ce->getOperand(0)).c - constScalar(ce->getOperand(1)).c) & maskw(tw(DL, ce->getType())));
        case Instruction::Add: return VC((constScalar(ce->getOperand(0)).c + constScalar(ce->getOperand(1)).c) & maskw(tw(DL, ce->getType())));
        case Instruction::Mul: return VC((constScalar(ce->getOperand(0)).c * constScalar(ce->getOperand(1)).c) & maskw(tw(DL, ce->getType())));
        case Instruction::Xor: return VC((constScalar(ce->getOperand(0)).c ^ constScalar(ce->getOperand(1)).c));
        case Instruction::Shl: return VC((constScalar(ce->getOperand(0)).c << constScalar(ce->getOperand(1)).c) & maskw(tw(DL, ce->getType())));
        case Instruction::ICmp: {
            u64 a = constScalar(ce->getOperand(0)).c, b = constScalar(ce->getOperand(1)).c;
            switch (ce->getPredicate()) {
            case CmpInst::ICMP_EQ: return VC(a == b);
            case CmpInst::ICMP_NE: return VC(a != b);
            case CmpInst::ICMP_ULT: return VC(a < b);
            case CmpInst::ICMP_UGT: return VC(a > b);
            case CmpInst::ICMP_ULE: return VC(a <= b);
            case CmpInst::ICMP_UGE: return VC(a >= b);
            default: break;
            }
            break;
        }
        default: break;
        }
    }
    if (isa<ConstantVector>(c) || isa<ConstantDataVector>(c)) return VC(0);
    errs() << "jsym: unsupported constant " << *c << "\n";
    abort();
}
void Exec::constFlat(const Constant* c, std::vector<Val>& out) {
    Type* t = c->getType();
    if (t->isIntegerTy() || t->isPointerTy() || t->isFloatingPointTy()) { out.push_back(constScalar(c)); return; }
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) {
        std::vector<Leaf> l; flatten(t, 0, l);
        for (auto& x : l) out.push_back(x.w > 64 ? Val{0, mkConst(0, x.w, 0)} : VC(0));
        return;
    }
    unsigned n;
    if (auto* st = dyn_cast<StructType>(t)) n = st->getNumElements();
    else if (auto* at = dyn_cast<ArrayType>(t)) n = at->getNumElements();
    else n = cast<FixedVectorType>(t)->getNumElements();
    for (unsigned i = 0; i < n; ++i) constFlat(c->getAggregateElement(i), out);
}

void Exec::initConst(State& s, Obj* o, u64 off, Constant* c) {
    Type* t = c->getType();
    if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
    if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
        StringRef r = cd->getRawDataValues();
        memcpy(o->d + off, r.data(), r.size());
        return;
    }
    if (isa<ConstantArray>(c) || isa<ConstantStruct>(c) || isa<ConstantVector>(c)) {
        if (auto* st = dyn_cast<StructType>(t)) {
            const StructLayout* sl = DL->getStructLayout(st);
            for (unsigned i = 0; i < c->getNumOperands(); ++i)
                initConst(s, o, off + sl->getElementOffset(i), cast<Constant>(c->getOperand(i)));
        } else {
            Type* et = isa<ArrayType>(t) ? cast<ArrayType>(t)->getElementType() : cast<FixedVectorType>(t)->getElementType();
            u64 es = DL->getTypeAllocSize(et);
            for (unsigned i = 0; i < c->getNumOperands(); ++i)
                initConst(s, o, off + i * es, cast<Constant>(c->getOperand(i)));
        }
        return;
    }
    Val v = constScalar(c);
    unsigned w = tw(DL, t);
    u64 n = DL->getTypeStoreSize(t);
    if (v.e) {
        for (u64 i = 0; i < n; ++i) {
            Expr* b = mkExtract(v.e, i * 8, std::min(8u, (unsigned)(w - i * 8)));
            o->d[off + i] = (u8)b->val;
        }
    } else memcpy(o->d + off, &v.c, n);
}

void Exec::initGlobals(State& s) {
    u64 fi = 0;
    for (Function& F : *M) {
        u64 a = 0x400000 + 16 * fi++;
        gaddr[&F] = a;
        faddr[a] = &F;
    }
    for (GlobalVariable& G : M->globals()) {
        u64 sz = G.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(G.getValueType()) : 64;
        if (!G.hasInitializer()) sz = std::max<u64>(sz, 256);
        Obj* o = s.mem.alloc(sz, OGlobal, G.getAlignment() > 16 ? 64 : 16, strdup(G.getName().str().c_str()), nullptr);
        memset(o->d, 0, sz);
        gaddr[&G] = o->base;
    }
    for (GlobalVariable& G : M->globals()) {
        Obj* o = s.mem.find(gaddr[&G]);
        if (G.hasInitializer()) initConst(s, o, 0, G.getInitializer());
        if (G.isConstant()) o->ro = true;
        if (G.getName().starts_with("_ZTI")) typeName[gaddr[&G]] = G.getName().str();
    }
}

// ------------------------------------------------------------------ decode
enum DOp : uint16_t {
    D_BIN, D_FBIN, D_FNEG, D_ICMP, D_FCMP, D_CAST, D_FCAST, D_LOAD, D_STORE, D_ALLOCA, D_GEP,
    D_BR, D_CBR, D_SWITCH, D_RET, D_CALL, D_INVOKE, D_SELECT, D_EXTV, D_INSV, D_UNREACH,
    D_LPAD, D_RESUME, D_CMPXCHG, D_RMW, D_FENCE, D_FREEZE, D_EXTEL, D_INSEL, D_SHUF, D_UNSUP, D_MOVE
};

Op Exec::mkOp(DFunc* f, std::unordered_map<const llvm::Value*, u32>& sm, llvm::Value* v) {
    Op o{false, 0, VC(0), nullptr};
    if (auto* c = dyn_cast<Constant>(v)) {
        o.k = true;
        Type* t = c->getType();
        if (t->isIntegerTy() || t->isPointerTy() || t->isFloatingPointTy()) o.v = constScalar(c);
        else {
            auto* a = new std::vector<Val>;
            constFlat(c, *a);
            o.agg = a;
            if (!a->empty()) o.v = (*a)[0];
        }
        return o;
    }
    if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v) || isa<BasicBlock>(v)) { o.k = true; return o; }
    auto it = sm.find(v);
    if (it == sm.end()) { errs() << "jsym: unmapped value " << *v << "\n"; abort(); }
    o.slot = it->second;
    return o;
}

DFunc* Exec::getFunc(Function* F) {
    auto it = funcs.find(F);
    if (it != funcs.end()) return it->second;
    DFunc* d = new DFunc;
    d->F = F;
    d->name = F->getName().str();
    if (DISubprogram* sp = F->getSubprogram()) {
        std::string p = sp->getFilename().str();
        if (p.empty() || p[0] != '/') p = sp->getDirectory().str() + "/" + p;
        d->file = p;
        d->repo = p.find(cfg.repo) == 0;
    }
    funcs[F] = d;
    return d;
}

void Exec::decode(DFunc* f) {
    f->decoded = true;
    Function* F = f->F;
    std::unordered_map<const llvm::Value*, u32> sm;
    u32 ns = 0;
    for (Argument& A : F->args()) {
        unsigned n = nSlots(A.getType());
        sm[&A] = ns; f->argSlot.push_back(ns); f->argN.push_back(n); ns += n;
    }
    for (BasicBlock& B : *F) for (Instruction& I : B) {
        if (I.getType()->isVoidTy() || I.getType()->isTokenTy()) continue;
        sm[&I] = ns;
        ns += nSlots(I.getType());
    }
    f->nslots = ns;
    std::unordered_map<const BasicBlock*, u32> bip;
    std::vector<std::pair<Edge*, BasicBlock*>> fix;
    auto mkEdge = [&](BasicBlock* from, BasicBlock* to) {
        Edge* e = new Edge;
        e->ip = 0;
        for (PHINode& P : to->phis()) {
            unsigned n = nSlots(P.getType());
            Op o = mkOp(f, sm, P.getIncomingValueForBlock(from));
            e->phis.push_back({sm[&P], o});
            e->phiN.push_back(n);
            if (n != 1) e->anyAgg = true;
        }
        fix.push_back({e, to});
        return e;
    };
    auto& code = f->code;
    for (BasicBlock& B : *F) {
        bip[&B] = code.size();
        for (Instruction& I : B) {
            if (isa<PHINode>(I)) continue;
            if (isa<DbgInfoIntrinsic>(I)) continue;
            if (auto* II = dyn_cast<IntrinsicInst>(&I)) {
                switch (II->getIntrinsicID()) {
                case Intrinsic::lifetime_start: case Intrinsic::lifetime_end:
                case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl:
                case Intrinsic::invariant_end: case Intrinsic::donothing: case Intrinsic::prefetch:
                    continue;
                default: break;
                }
            }
            DInst D;
            D.I = &I;
            D.sub = 0; D.w = 0; D.w2 = 0;
            D.dst = sm.count(&I) ? sm[&I] : 0;
            D.n = (I.getType()->isVoidTy() || I.getType()->isTokenTy()) ? 0 : nSlots(I.getType());
            auto O = [&](unsigned i) { D.ops.push_back(mkOp(f, sm, I.getOperand(i))); };
            switch (I.getOpcode()) {
            case Instruction::Add: case Instruction::Sub: case Instruction::Mul:
            case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
            case Instruction::And: case Instruction::Or: case Instruction::Xor:
            case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
                D.op = D_BIN; D.w = tw(DL, I.getType());
                switch (I.getOpcode()) {
                case Instruction::Add: D.sub = EAdd; break;
                case Instruction::Sub: D.sub = 100; break;
                case Instruction::Mul: D.sub = EMul; break;
                case Instruction::UDiv: D.sub = EUDiv; break;
                case Instruction::SDiv: D.sub = ESDiv; break;
                case Instruction::URem: D.sub = EURem; break;
                case Instruction::SRem: D.sub = ESRem; break;
                case Instruction::And: D.sub = EAnd; break;
                case Instruction::Or: D.sub = EOr; break;
                case Instruction::Xor: D.sub = EXor; break;
                case Instruction::Shl: D.sub = EShl; break;
                case Instruction::LShr: D.sub = ELShr; break;
                case Instruction::AShr: D.sub = EAShr; break;
                }
                O(0); O(1); break;
            }
            case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul:
            case Instruction::FDiv: case Instruction::FRem:
                D.op = D_FBIN; D.sub = I.getOpcode(); D.w = tw(DL, I.getType()); O(0); O(1); break;
            case Instruction::FNeg: D.op = D_FNEG; D.w = tw(DL, I.getType()); O(0); break;
            case Instruction::ICmp: {
                auto* c = cast<ICmpInst>(&I);
                D.op = D_ICMP; D.sub = c->getPredicate(); D.w = tw(DL, I.getOperand(0)->getType());
                O(0); O(1); break;
            }
            case Instruction::FCmp: {
                auto* c = cast<FCmpInst>(&I);
                D.op = D_FCMP; D.sub = c->getPredicate(); D.w = tw(DL, I.getOperand(0)->getType());
                O(0); O(1); break;
            }
            case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt:
            case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast:
            case Instruction::AddrSpaceCast:
                D.op = D_CAST; D.sub = I.getOpcode();
                D.w2 = tw(DL, I.getOperand(0)->getType()); D.w = tw(DL, I.getType());
                if (I.getOpcode() == Instruction::BitCast &&
                    nSlots(I.getOperand(0)->getType()) != D.n) {
                    D.sub = 1000;   // reshape
                    D.imm = nSlots(I.getOperand(0)->getType());
                }
                O(0); break;
            case Instruction::FPToUI: case Instruction::FPToSI: case Instruction::UIToFP:
            case Instruction::SIToFP: case Instruction::FPTrunc: case Instruction::FPExt:
                D.op = D_FCAST; D.sub = I.getOpcode();
                D.w2 = tw(DL, I.getOperand(0)->getType()); D.w = tw(DL, I.getType());
                O(0); break;
            case Instruction::Load: {
                D.op = D_LOAD; D.w = tw(DL, I.getType()); O(0);
                if (D.n != 1 || isa<VectorType>(I.getType())) { D.leaves = new std::vector<Leaf>; flatten(I.getType(), 0, *D.leaves); }
                D.vis = cast<LoadInst>(&I)->isAtomic();
                D.memop = !D.vis && !isa<AllocaInst>(getUnderlyingObject(I.getOperand(0)));
                break;
            }
            case Instruction::Store: {
                Type* t = I.getOperand(0)->getType();
                D.op = D_STORE; D.w = tw(DL, t); O(0); O(1);
                unsigned n = nSlots(t);
                if (n != 1 || isa<VectorType>(t)) { D.leaves = new std::vector<Leaf>; flatten(t, 0, *D.leaves); }
                D.vis = cast<StoreInst>(&I)->isAtomic();
                D.memop = !D.vis && !isa<AllocaInst>(getUnderlyingObject(I.getOperand(1)));
                break;
            }
            case Instruction::Alloca: {
                auto* a = cast<AllocaInst>(&I);
                D.op = D_ALLOCA; D.imm = DL->getTypeAllocSize(a->getAllocatedType());
                D.w2 = a->getAlign().value() > 16;
                O(0); D.w = tw(DL, I.getOperand(0)->getType());
                break;
            }
            case Instruction::GetElementPtr: {
                auto* g = cast<GetElementPtrInst>(&I);
                if (isa<VectorType>(g->getType())) { D.op = D_UNSUP; break; }
                D.op = D_GEP; O(0);
                D.gi = new GepInfo; D.gi->cst = 0;
                for (gep_type_iterator it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
                    llvm::Value* ix = it.getOperand();
                    if (StructType* st = it.getStructTypeOrNull()) {
                        D.gi->cst += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
                    } else {
                        u64 es = it.getSequentialElementStride(*DL);
                        if (auto* ci = dyn_cast<ConstantInt>(ix)) D.gi->cst += (u64)(ci->getSExtValue() * (i64)es);
                        else D.gi->idx.push_back({mkOp(f, sm, ix), {tw(DL, ix->getType()), es}});
                    }
                }
                break;
            }
            case Instruction::Br: {
                auto* b = cast<BranchInst>(&I);
                if (b->isConditional()) {
                    D.op = D_CBR; O(0);
                    D.e0 = mkEdge(&B, b->getSuccessor(0));
                    D.e1 = mkEdge(&B, b->getSuccessor(1));
                } else { D.op = D_BR; D.e0 = mkEdge(&B, b->getSuccessor(0)); }
                break;
            }
            case Instruction::Switch: {
                auto* sw = cast<SwitchInst>(&I);
                D.op = D_SWITCH; D.ops.push_back(mkOp(f, sm, sw->getCondition()));
                D.w = tw(DL, sw->getCondition()->getType());
                D.si = new SwitchInfo;
                D.si->def = mkEdge(&B, sw->getDefaultDest());
                for (auto& c : sw->cases())
                    D.si->cases.push_back({c.getCaseValue()->getZExtValue(), mkEdge(&B, c.getCaseSuccessor())});
                break;
            }
            case Instruction::Ret:
                D.op = D_RET;
                if (I.getNumOperands()) { O(0); D.imm = nSlots(I.getOperand(0)->getType()); }
                break;
            case Instruction::Call: case Instruction::Invoke: {
                auto* cb = cast<CallBase>(&I);
                D.op = isa<InvokeInst>(I) ? D_INVOKE : D_CALL;
                CallInfo* ci = new CallInfo;
                D.ci = ci;
                llvm::Value* cv = cb->getCalledOperand()->stripPointerCasts();
                if (auto* ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliaseeObject();
                for (unsigned i = 0; i < cb->arg_size(); ++i) {
                    ci->args.push_back(mkOp(f, sm, cb->getArgOperand(i)));
                    ci->argN.push_back(isa<MetadataAsValue>(cb->getArgOperand(i)) ? 1 : nSlots(cb->getArgOperand(i)->getType()));
                    ci->byval.push_back(cb->isByValArgument(i) ? (u64)DL->getTypeAllocSize(cb->getParamByValType(i)) : 0);
                }
                ci->retN = D.n;
                D.w = D.n == 1 ? tw(DL, I.getType()) : 0;
                if (cb->isInlineAsm()) {
                    auto* ia = cast<InlineAsm>(cb->getCalledOperand());
                    StringRef as = ia->getAsmString();
                    if (as.empty() || as.contains("pause") || as.contains("nop")) { ci->name = "asm"; ci->bi = builtins["jsym.nop"]; }
                    else { D.op = D_UNSUP; }
                } else if (auto* fn = dyn_cast<Function>(cv)) {
                    ci->fn = fn;
                    ci->name = fn->getName().str();
                    std::string key = ci->name;
                    if (fn->isIntrinsic()) { // strip the type suffixes
                        key = Intrinsic::getBaseName(fn->getIntrinsicID()).str();
                    }
                    Function* wf = nullptr;
                    if (!fn->isIntrinsic()) wf = M->getFunction("__wrap_" + ci->name);
                    auto bt = builtins.find(key);
                    static const std::set<std::string> visible = {
                        "pthread_mutex_lock", "pthread_mutex_unlock", "pthread_mutex_trylock",
                        "pthread_rwlock_rdlock", "pthread_rwlock_wrlock", "pthread_rwlock_unlock",
                        "_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE",
                        "_ZNSt18condition_variable10notify_oneEv", "_ZNSt18condition_variable10notify_allEv",
                        "pthread_cond_wait", "pthread_cond_timedwait", "pthread_cond_clockwait",
                        "pthread_cond_signal", "pthread_cond_broadcast", "sched_yield", "sym_yield",
                        "_ZNSt6thread4joinEv", "sym_thread_join" };
                    if (visible.count(ci->name)) D.vis = true;
                    if (wf && !wf->isDeclaration() && fn->isDeclaration()) ci->df = getFunc(wf);
                    else if (bt != builtins.end()) ci->bi = bt->second;
                    else if (!fn->isDeclaration()) ci->df = getFunc(fn);
                } else {
                    ci->target = mkOp(f, sm, cb->getCalledOperand());
                    ci->name = "<indirect>";
                }
                if (auto* inv = dyn_cast<InvokeInst>(&I)) {
                    D.e0 = mkEdge(&B, inv->getNormalDest());
                    D.e1 = mkEdge(&B, inv->getUnwindDest());
                }
                break;
            }
            case Instruction::Select:
                D.op = D_SELECT; O(0); O(1); O(2);
                D.w = tw(DL, I.getType());
                D.w2 = isa<VectorType>(I.getOperand(0)->getType());
                if (D.n != 1) { D.leaves = new std::vector<Leaf>; flatten(I.getType(), 0, *D.leaves); }
                break;
            case Instruction::ExtractValue: case Instruction::InsertValue: {
                ArrayRef<unsigned> ix;
                Type* t;
                if (auto* ev = dyn_cast<ExtractValueInst>(&I)) { ix = ev->getIndices(); t = ev->getAggregateOperand()->getType(); D.op = D_EXTV; }
                else { auto* iv = cast<InsertValueInst>(&I); ix = iv->getIndices(); t = iv->getType(); D.op = D_INSV; }
                u32 off = 0;
                for (unsigned i : ix) {
                    if (auto* st = dyn_cast<StructType>(t)) {
                        for (unsigned j = 0; j < i; ++j) off += nSlots(st->getElementType(j));
                        t = st->getElementType(i);
                    } else { t = cast<ArrayType>(t)->getElementType(); off += i * nSlots(t); }
                }
                D.imm = off;
                O(0);
                if (D.op == D_INSV) { O(1); D.w2 = nSlots(t); }
                break;
            }
            case Instruction::Unreachable: D.op = D_UNREACH; break;
            case Instruction::LandingPad: {
                auto* lp = cast<LandingPadInst>(&I);
                D.op = D_LPAD;
                D.lp = new LPad;
                D.lp->cleanup = lp->isCleanup();
                for (unsigned i = 0; i < lp->getNumClauses(); ++i) {
                    LPad::Cl c;
                    c.filter = lp->isFilter(i);
                    Constant* k = lp->getClause(i);
                    if (c.filter) {
                        if (auto* ca = dyn_cast<ConstantArray>(k))
                            for (unsigned j = 0; j < ca->getNumOperands(); ++j)
                                c.types.push_back(constScalar(cast<Constant>(ca->getOperand(j))).c);
                    } else c.types.push_back(constScalar(k).c);
                    D.lp->cls.push_back(c);
                }
                break;
            }
            case Instruction::Resume: D.op = D_RESUME; O(0); break;
            case Instruction::AtomicCmpXchg:
                D.op = D_CMPXCHG; O(0); O(1); O(2); D.w = tw(DL, I.getOperand(1)->getType()); D.vis = true; break;
            case Instruction::AtomicRMW:
                D.op = D_RMW; O(0); O(1); D.w = tw(DL, I.getType()); D.sub = cast<AtomicRMWInst>(&I)->getOperation(); D.vis = true; break;
            case Instruction::Fence: D.op = D_FENCE; break;
            case Instruction::Freeze: D.op = D_MOVE; O(0); break;
            case Instruction::ExtractElement:
                D.op = D_EXTEL; O(0); O(1); D.imm = nSlots(I.getOperand(0)->getType()); D.w = tw(DL, I.getType()); D.w2 = tw(DL, I.getOperand(1)->getType()); break;
            case Instruction::InsertElement:
                D.op = D_INSEL; O(0); O(1); O(2); D.w2 = tw(DL, I.getOperand(2)->getType()); break;
            case Instruction::ShuffleVector: {
                D.op = D_SHUF; O(0); O(1);
                D.mask = new std::vector<int>;
                for (int m : cast<ShuffleVectorInst>(&I)->getShuffleMask()) D.mask->push_back(m);
                D.imm = nSlots(I.getOperand(0)->getType());
                break;
            }
            default: D.op = D_UNSUP;
            }
            code.push_back(D);
        }
    }
    for (auto& p : fix) p.first->ip = bip[p.second];
}

// ------------------------------------------------------------------ diagnostics
static std::string locOf(const Instruction* I) {
    if (!I) return "?";
    DebugLoc dl = I->getDebugLoc();
    std::string s;
    if (dl) {
        auto* sc = cast<DIScope>(dl.getScope());
        s = sc->getFilename().str() + ":" + std::to_string(dl.getLine());
        size_t p = s.rfind('/');
        if (p != std::string::npos) s = s.substr(p + 1);
    }
    return s;
}
std::string Exec::where(State& s) {
    Thread& t = s.thr[s.cur];
    // innermost frame with a location inside the repository
    for (int i = (int)t.st.size() - 1; i >= 0; --i) {
        Frame& f = t.st[i];
        if (f.ip >= f.f->code.size()) continue;
        const Instruction* I = f.f->code[f.ip].I;
        DebugLoc dl = I->getDebugLoc();
        while (dl) {
            auto* sc = cast<DIScope>(dl.getScope());
            std::string p = sc->getFilename().str();
            if (p.empty() || p[0] != '/') p = sc->getDirectory().str() + "/" + p;
            if (p.find(cfg.repo) == 0) return p + ":" + std::to_string(dl.getLine());
            dl = dl.getInlinedAt();
        }
    }
    return "?";
}
std::string Exec::backtrace(State& s) {
    std::string r;
    Thread& t = s.thr[s.cur];
    int n = 0;
    for (int i = (int)t.st.size() - 1; i >= 0 && n < 14; --i, ++n) {
        Frame& f = t.st[i];
        const Instruction* I = f.ip < f.f->code.size() ? f.f->code[f.ip].I : nullptr;
        r += f.f->name + "@" + locOf(I) + " < ";
    }
    return r;
}
void Exec::violation(State& s, const std::string& kind, const std::string& msg, Model* m) {
    pathsViol++;
    std::string loc = where(s);
    std::string key = kind + "|" + msg + "|" + loc;
    if (violKeys.count(key)) return;
    violKeys.insert(key);
    Violation v;
    v.kind = kind; v.msg = msg; v.loc = loc; v.trace = backtrace(s);
    const Model& mm = m ? *m : *s.model;
    for (auto& in : s.inputs) {
        u64 x = in.e ? evalExpr(in.e, mm) : in.c;
        v.inputs.push_back({in.name, {x, in.w}});
    }
    viols.push_back(v);
    if (cfg.debug) fprintf(stderr, "VIOL %s: %s at %s\n   %s\n", kind.c_str(), msg.c_str(), loc.c_str(), v.trace.c_str());
    if (viols.size() >= cfg.maxViol) { stopped = true; stopWhy = "violation limit"; }
}
void Exec::kill(State&) { throw PathEnd(); }
void Exec::incomplete(State& s, const std::string& why) {
    pathsIncomplete++;
    incompleteWhy[why + " @ " + backtrace(s).substr(0, 300)]++;
    throw PathEnd();
}

// ------------------------------------------------------------------ path constraints
static State* gCur;
void Exec::pin(State& s, u32 id) {
    auto it = std::lower_bound(s.fixed.begin(), s.fixed.end(), id);
    if (it == s.fixed.end() || *it != id) s.fixed.insert(it, id);
}
// Does the path condition leave a single value for the one free symbol of e?
void Exec::pinUnique(State& s, Expr* e) {
    if (!e->syms || e->syms->v.size() > 8) return;
    u32 x = 0; int n = 0;
    for (u32 i : e->syms->v) if (!std::binary_search(s.fixed.begin(), s.fixed.end(), i)) { x = i; n++; }
    if (n != 1 || symWidth(x) > 12) return;
    u64 v = x < s.model->v.size() ? s.model->v[x] : 0;
    if (solver.check(s.cons, mkNot(mkEq(symExpr(x), mkConst(v, symWidth(x)))), nullptr) == UNSAT) pin(s, x);
}
void Exec::addCons(State& s, Expr* c) {
    if (isC(c)) return;
    if (c->k == EEq && (isC(c->a) || isC(c->b))) {
        Expr* o = isC(c->a) ? c->b : c->a;
        while (o->k == EZExt || o->k == ESExt) o = o->a;
        if (o->k == ESym) pin(s, (u32)o->val);
    }
    if (c->k == EAnd && c->w == 1) { addCons(s, c->a); addCons(s, c->b); return; }
    // not (a or b)
    if (c->k == EXor && isC(c->a) && c->b->k == EOr) {
        addCons(s, mkNot(c->b->a)); addCons(s, mkNot(c->b->b)); return;
    }
    if (s.consIds.insert(c->id).second) s.cons.push_back(c);
}
bool Exec::feasible(State& s, Expr* c, Model* out) {
    SatRes r = solver.check(s.cons, c, out);
    if (r == UNKNOWN) incomplete(s, "solver timeout");
    if (r == SAT && out) {
        out->epoch = freshEpoch();
        // validate the model against the real constraints (guards the translation)
        if (!isC(c) && !evalExpr(c, *out)) { fprintf(stderr, "jsym: model does not satisfy query\n"); abort(); }
        for (Expr* k : s.cons) if (!evalExpr(k, *out)) { fprintf(stderr, "jsym: model breaks path condition\n"); abort(); }
    }
    return r == SAT;
}
State* Exec::clone(State& s) {
    State* n = new State(s);
    forks++;
    return n;
}
int Exec::decide(State& s, Expr* c) {
    if (isC(c)) return c->val != 0;
    if (s.consIds.count(c->id)) return 1;
    Expr* nc = mkNot(c);
    if (s.consIds.count(nc->id)) return 0;
    branches++;
    int dir = evalExpr(c, *s.model) ? 1 : 0;
    gSS.modelHits++;
    Expr* other = dir ? nc : c;
    auto m = std::make_shared<Model>(*s.model);
    if (feasible(s, other, m.get())) {
        State* n = clone(s);
        n->model = m;
        addCons(*n, other);
        n->consIds.insert(other->id);
        n->forks++;
        work.push_back(n);
        addCons(s, dir ? c : nc);
        s.forks++;
    }
    // also remember the composite so that re-execution does not ask again
    s.consIds.insert((dir ? c : nc)->id);
    return dir;
}
u64 Exec::concretize(State& s, Val v, unsigned w) {
    if (!v.e) return v.c;
    if (isC(v.e)) return v.e->val;
    u64 x = evalExpr(v.e, *s.model);
    // prefer a value already fixed by the path condition
    Expr* eq = mkEq(v.e, mkConst(x, v.e->w));
    int d = decide(s, eq);
    if (!d) { fprintf(stderr, "jsym: concretize\n"); abort(); }
    pinUnique(s, v.e);
    return x;
}
bool Exec::assume(State& s, Expr* c) {
    if (isC(c)) return c->val;
    if (s.consIds.count(c->id)) return true;
    if (evalExpr(c, *s.model)) { addCons(s, c); return true; }
    auto m = std::make_shared<Model>(*s.model);
    if (!feasible(s, c, m.get())) return false;
    s.model = m;
    addCons(s, c);
    return true;
}

// ------------------------------------------------------------------ object access
static Expr* canonCell(Expr* r) {
    if (r->k == EExtract) return mkExtract(r->a, (unsigned)r->val, r->w);
    if (r->k == EZExt && r->a->k == EExtract) return mkZExt(canonCell(r->a), r->w);
    if (r->k == EConcat) {
        Expr *a = canonCell(r->a), *b = canonCell(r->b);
        if (a != r->a || b != r->b) return mkConcat(a, b);
    }
    return r;
}
Val Exec::readObj(Obj* o, u64 off, unsigned w) {
    unsigned nb = (w + 7) / 8;
    bool sym = false;
    if (o->s) for (unsigned i = 0; i < nb; ++i) if (o->s[off + i]) { sym = true; break; }
    if (!sym && w <= 64) {
        u64 v = 0;
        memcpy(&v, o->d + off, nb);
        return VC(v & maskw(w));
    }
    Expr* r = nullptr;
    for (unsigned i = 0; i < nb; ++i) {
        Expr* b = (o->s && o->s[off + i]) ? o->s[off + i] : mkConst(o->d[off + i], 8);
        r = r ? mkConcat(b, r) : b;
    }
    if (w < nb * 8) r = mkExtract(r, 0, w);
    return mkV(canonCell(r));
}
void Exec::writeObj(Obj* o, u64 off, Val v, unsigned w) {
    unsigned nb = (w + 7) / 8;
    if (!v.e) {
        u64 x = v.c & maskw(w);
        memcpy(o->d + off, &x, nb);
        if (o->s) memset(o->s + off, 0, nb * sizeof(Expr*));
        return;
    }
    Expr* e = v.e;
    if (e->w < nb * 8) e = mkZExt(e, nb * 8);
    for (unsigned i = 0; i < nb; ++i) {
        Expr* b = mkExtractRaw(e, i * 8, 8);
        if (isC(b)) { o->d[off + i] = (u8)b->val; if (o->s) o->s[off + i] = nullptr; }
        else {
            if (!o->s) o->s = (Expr**)calloc(o->size, sizeof(Expr*));
            o->s[off + i] = b;
        }
    }
}

static std::string objDesc(Obj* o) {
    char b[200];
    const char* kn[] = {"global", "stack", "malloc", "new", "new[]", "exception", "other"};
    snprintf(b, sizeof b, "%s%s%s of size %lu (allocated %s)", kn[o->kind], o->name ? " " : "", o->name ? o->name : "",
             (unsigned long)o->size, locOf(o->site).c_str());
    return b;
}

Obj* Exec::resolveC(State& s, u64 addr, u64 n, bool write, u64& off) {
    Obj* o = s.mem.find(addr);
    if (!o) {
        char b[64];
        if (addr < 4096) fail(s, "null-deref", "null pointer dereference");
        snprintf(b, 64, "wild pointer 0x%lx", (unsigned long)addr);
        fail(s, "bad-pointer", b);
    }
    if (o->freed) fail(s, "use-after-free", std::string("access to freed ") + objDesc(o));
    off = addr - o->base;
    if (addr < o->base || off > o->size || n > o->size - off)
        fail(s, "out-of-bounds", std::string(write ? "write" : "read") + " outside " + objDesc(o));
    if (write && o->ro) fail(s, "write-const", std::string("write to constant ") + objDesc(o));
    return o;
}
Obj* Exec::resolve(State& s, Val addr, u64 n, bool write, u64& off, Expr*& offE) {
    offE = nullptr;
    if (!addr.e) return resolveC(s, addr.c, n, write, off);
    u64 a0 = evalExpr(addr.e, *s.model);
    Obj* o = s.mem.find(a0);
    memQ++;
    // constant offset known?
    if (!o || o->freed || a0 < o->base || a0 - o->base > o->size || n > o->size - (a0 - o->base)) {
        // the current model itself is a witness; also explore the rest
        Expr* eq = mkEq(addr.e, mkConst(a0, 64));
        Expr* ne = mkNot(eq);
        auto m = std::make_shared<Model>(*s.model);
        if (feasible(s, ne, m.get())) {
            State* st = clone(s);
            st->model = m; addCons(*st, ne); work.push_back(st);
        }
        addCons(s, eq);
        resolveC(s, a0, n, write, off);   // reports
        kill(s);
    }
    Expr* oe = mkSub(addr.e, mkConst(o->base, 64));
    Expr* inb = mkNot(mkBin(EUlt, mkConst(o->size - n, 64), oe));
    decide(s, inb);        // the other direction re-executes with !inb
    // after decide the model still satisfies a0, hence inb
    if (write && o->ro) fail(s, "write-const", std::string("write to constant ") + objDesc(o));
    if (isC(oe)) { off = oe->val; return o; }
    // fixed by the path condition?
    offE = oe;
    off = a0 - o->base;
    return o;
}

static bool tableLinear(Obj* o, unsigned n) {
    // entries of n bytes; power-of-two count; T[a^b] == T[a]^T[b]
    if (o->s || n > 8) return false;
    u64 cnt = o->size / n;
    if (cnt < 4 || (cnt & (cnt - 1)) || cnt * n != o->size) return false;
    auto at = [&](u64 i) { u64 v = 0; memcpy(&v, o->d + i * n, n); return v; };
    if (at(0)) return false;
    for (u64 i = 1; i < cnt; ++i) {
        u64 low = i & (~i + 1);
        if (low == i) continue;
        if (at(i) != (at(i ^ low) ^ at(low))) return false;
    }
    return true;
}

Val Exec::load(State& s, Val addr, unsigned w) {
    u64 off; Expr* oe;
    u64 n = (w + 7) / 8;
    Obj* o = resolve(s, addr, n, false, off, oe);
    if (!oe) return readObj(o, off, w);
    unsigned tz = oe->may ? __builtin_ctzll(oe->may) : 0;
    if (tz > 6) tz = 6;
    u64 stride = 1ULL << tz;
    // linear constant table (CRC tables and the like)
    if (o->ro && stride >= n && (1ULL << tz) == n && w == n * 8) {
        u64 lim = o->size;
        // multi-dimensional: treat the sub-table selected by the constant part
        Expr* var = oe; u64 cst = 0;
        if (oe->k == EAdd && isC(oe->a)) { cst = oe->a->val; var = oe->b; }
        unsigned topb = var->may ? 64 - __builtin_clzll(var->may) : 0;
        u64 span = 1ULL << topb;
        if (topb > tz && topb < 16 && cst + span <= lim) {
            Obj sub = *o;
            sub.d = o->d + cst; sub.size = span; sub.s = nullptr;
            if (!o->s && tableLinear(&sub, n)) {
                Expr* r = mkConst(0, w);
                for (unsigned b = tz; b < topb; ++b) {
                    u64 v = 0;
                    memcpy(&v, sub.d + (1ULL << b), n);
                    Expr* bit = mkExtract(var, b, 1);
                    r = mkBin(EXor, r, mkBin(EAnd, mkSExt(bit, w), mkConst(v, w)));
                }
                return mkV(r);
            }
        }
    }
    Expr* var = oe; u64 cst = 0;
    if (oe->k == EAdd && isC(oe->a) && oe->a->val <= o->size - n) { cst = oe->a->val; var = oe->b; }
    {   // only a constant part that cannot wrap around is usable
        u64 um = umaxExpr(var);
        if (cst + um < cst) { cst = 0; var = oe; }
    }
    tz = var->may ? __builtin_ctzll(var->may) : 0;
    if (tz > 6) tz = 6;
    stride = 1ULL << tz;
    u64 maxv = std::min(umaxExpr(var), o->size - n - cst);
    u64 cand = maxv / stride + 1;
    unsigned bits = 0;
    while ((1ULL << bits) < cand) bits++;
    bool conc = true;
    if (cand > 64 && o->s) for (u64 i = cst; i < cst + maxv + n; ++i) if (o->s[i]) { conc = false; break; }
    if (conc && cand <= 65536 && (cand > 1024 || (cand > 64 && w <= 8))) {
        // concrete table: one decision diagram per result bit
        std::vector<u64> tab(1ULL << bits, 0);
        for (u64 i = 0; i < cand; ++i) memcpy(&tab[i], o->d + cst + i * stride, n);
        Expr* r = nullptr;
        for (unsigned j = 0; j < w; ++j) {
            std::vector<Expr*> cur(tab.size());
            for (size_t i = 0; i < tab.size(); ++i) cur[i] = mkConst((tab[i] >> j) & 1, 1);
            // lowest index bit first
            for (unsigned b = 0; b < bits; ++b) {
                Expr* bit = mkExtract(var, tz + b, 1);
                std::vector<Expr*> nx(cur.size() / 2);
                for (size_t i = 0; i < nx.size(); ++i)
                    nx[i] = cur[2 * i] == cur[2 * i + 1] ? cur[2 * i] : mkIte(bit, cur[2 * i + 1], cur[2 * i]);
                cur.swap(nx);
            }
            r = r ? mkConcat(cur[0], r) : cur[0];
        }
        return mkV(r);
    }
    if (cand > 1024) {
        u64 x = concretize(s, mkV(oe), 64);
        return readObj(o, x, w);
    }
    std::function<Expr*(u64, int)> build = [&](u64 lo, int b) -> Expr* {
        if (b < 0) {
            u64 of = cst + lo * stride;
            if (of + n > o->size) of = cst;
            return ex(readObj(o, of, w), w);
        }
        u64 hiIdx = lo | (1ULL << b);
        if (hiIdx >= cand) return build(lo, b - 1);
        return mkIte(mkExtract(var, tz + b, 1), build(hiIdx, b - 1), build(lo, b - 1));
    };
    return mkV(build(0, (int)bits - 1));
}
void Exec::store(State& s, Val addr, Val v, unsigned w) {
    u64 off; Expr* oe;
    u64 n = (w + 7) / 8;
    Obj* o = resolve(s, addr, n, true, off, oe);
    if (oe) {
        Expr* var = oe; u64 cst = 0;
        if (oe->k == EAdd && isC(oe->a) && oe->a->val <= o->size - n) { cst = oe->a->val; var = oe->b; }
        if (cst + umaxExpr(var) < cst) { cst = 0; var = oe; }
        unsigned tz = var->may ? __builtin_ctzll(var->may) : 0;
        u64 stride = 1ULL << std::min(tz, 6u);
        u64 cand = std::min(umaxExpr(var), o->size - n - cst) / stride + 1;
        if (cand > 96) {
            off = concretize(s, mkV(oe), 64);
        } else {
            Obj* wo = s.mem.writable(o);
            Expr* ve = ex(v, w);
            if (w < n * 8) ve = mkZExt(ve, n * 8);
            for (u64 i = 0; i < cand; ++i) {
                u64 of = cst + i * stride;
                Expr* c = mkEq(oe, mkConst(of, 64));
                if (isC(c) && !c->val) continue;
                for (u64 j = 0; j < n; ++j) {
                    Expr* old = (wo->s && wo->s[of + j]) ? wo->s[of + j] : mkConst(wo->d[of + j], 8);
                    Expr* nv = mkIte(c, mkExtract(ve, j * 8, 8), old);
                    writeObj(wo, of + j, mkV(nv), 8);
                }
            }
            return;
        }
    }
    if (o->rc != 1 || s.mem.chunks[((o->base - AddrSpace::BASE) >> 24)]->rc != 1) o = s.mem.writable(o);
    writeObj(o, off, v, w);
}
void Exec::memCopy(State& s, u64 dst, u64 src, u64 n) {
    if (!n) return;
    u64 so, dofs;
    Obj* a = resolveC(s, src, n, false, so);
    Obj* b = resolveC(s, dst, n, true, dofs);
    bool same = a == b;
    b = s.mem.writable(b);
    if (same) a = b;
    memmove(b->d + dofs, a->d + so, n);
    bool anyS = false;
    if (a->s) for (u64 i = 0; i < n; ++i) if (a->s[so + i]) { anyS = true; break; }
    if (anyS) {
        if (!b->s) b->s = (Expr**)calloc(b->size, sizeof(Expr*));
        memmove(b->s + dofs, a->s + so, n * sizeof(Expr*));
    } else if (b->s) memset(b->s + dofs, 0, n * sizeof(Expr*));
}
std::string Exec::cstr(State& s, u64 addr, u64 maxn) {
    std::string r;
    for (u64 i = 0; i < maxn; ++i) {
        Val v = load(s, VC(addr + i), 8);
        u8 c = (u8)cz(s, v, 8);
        if (!c) break;
        r.push_back((char)c);
    }
    return r;
}
u64 Exec::heapAlloc(State& s, u64 n, ObjKind k, u64 align, const Instruction* site) {
    if (!n) n = 1;      // as the address sanitizer of the native replay has it
    if (n > (1ULL << 31)) {
        if (k == OMalloc) return 0;
        incomplete(s, "huge allocation");
    }
    Obj* o = s.mem.alloc(n, k, align, nullptr, site);
    memset(o->d, 0xA5, n);
    s.liveHeap++;
    s.heapBytes += n;
    return o->base;
}
void Exec::heapFree(State& s, u64 a, ObjKind k) {
    if (!a) return;
    Obj* o = s.mem.find(a);
    if (!o || a < o->base || a > o->base + o->size) fail(s, "bad-free", "free of a wild pointer");
    if (o->freed) fail(s, "double-free", std::string("second free of ") + objDesc(o));
    if (o->base != a) fail(s, "bad-free", std::string("free of an interior pointer of ") + objDesc(o));
    if (o->kind != OMalloc && o->kind != ONew && o->kind != ONewArr)
        fail(s, "bad-free", std::string("free of ") + objDesc(o));
    if (o->kind != k) fail(s, "alloc-dealloc-mismatch", std::string("wrong deallocator for ") + objDesc(o));
    s.liveHeap--;
    s.mem.release(o);
}

// ------------------------------------------------------------------ calls
static inline void foldFixed(Val& v) {
    if (!v.e->syms || v.e->w > 64) return;
    const std::vector<u32>& y = v.e->syms->v;
    const std::vector<u32>& x = gCur->fixed;
    if (y.size() > 8) return;
    for (u32 i : y) if (!std::binary_search(x.begin(), x.end(), i)) return;
    v = VC(evalExpr(v.e, *gCur->model));
}
static inline Val get(Frame& f, const Op& o) {
    if (o.k) return o.v;
    Val& v = f.r[o.slot];
    if (v.e && !gCur->fixed.empty()) foldFixed(v);
    return v;
}
static inline Val getN(Frame& f, const Op& o, u32 i) {
    if (o.k) return o.agg ? (*o.agg)[i] : o.v;
    Val& v = f.r[o.slot + i];
    if (v.e && !gCur->fixed.empty()) foldFixed(v);
    return v;
}

static std::vector<std::vector<Val>> gRegPool;
void Exec::call(State& s, DFunc* f, std::vector<Val>& args, const std::vector<u32>& argN, DInst* cs) {
    if (!f->decoded) decode(f);
    f->calls++;
    Thread& t = s.thr[s.cur];
    if (t.st.size() > 3000) fail(s, "stack-overflow", "call depth over 3000");
    t.st.emplace_back();
    Frame& n = t.st.back();
    n.f = f; n.ip = 0;
    if (!gRegPool.empty()) { n.r.swap(gRegPool.back()); gRegPool.pop_back(); }
    n.r.assign(f->nslots, VC(0));
    size_t pos = 0;
    for (size_t i = 0; i < argN.size(); ++i) {
        if (i < f->argSlot.size()) {
            for (u32 j = 0; j < argN[i]; ++j) n.r[f->argSlot[i] + j] = args[pos++];
        } else for (u32 j = 0; j < argN[i]; ++j) n.varargs.push_back(args[pos++]);
    }
    if (cs && cs->ci)
        for (size_t i = 0; i < cs->ci->byval.size() && i < f->argSlot.size(); ++i) if (u64 sz = cs->ci->byval[i]) {
            Obj* o = s.mem.alloc(sz, OStack, 16, nullptr, cs->I);
            u64 src = cz(s, n.r[f->argSlot[i]], 64);
            u64 base = o->base;
            n.allocas.push_back(base);
            memCopy(s, base, src, sz);
            n.r[f->argSlot[i]] = VC(base);
        }
}
void Exec::jump(State& s, Edge* e) {
    Frame& f = fr(s);
    if (!e->phis.empty()) {
        if (e->phis.size() == 1 && !e->anyAgg) f.r[e->phis[0].first] = get(f, e->phis[0].second);
        else {
            static thread_local std::vector<Val> tmp;
            tmp.clear();
            for (size_t i = 0; i < e->phis.size(); ++i)
                for (u32 j = 0; j < e->phiN[i]; ++j) tmp.push_back(getN(f, e->phis[i].second, j));
            size_t p = 0;
            for (size_t i = 0; i < e->phis.size(); ++i)
                for (u32 j = 0; j < e->phiN[i]; ++j) f.r[e->phis[i].first + j] = tmp[p++];
        }
    }
    f.ip = e->ip;
}
void Exec::doRet(State& s, const std::vector<Val>& rv) {
    Thread& t = s.thr[s.cur];
    Frame& f = t.st.back();
    for (u64 a : f.allocas) s.mem.freeStackObj(a);
    if (gRegPool.size() < 256) gRegPool.push_back(std::move(f.r));
    t.st.pop_back();
    if (t.st.empty()) {
        t.stat = TDone;
        t.retval = rv.empty() ? 0 : rv[0].c;
        if (s.cur == 0) return;   // main finished; handled by the caller
        for (size_t i = 0; i < s.thr.size(); ++i)
            if (s.thr[i].stat == TJoin && s.thr[i].waitOn == (u64)s.cur) s.thr[i].stat = TRun;
        return;
    }
    Frame& c = t.st.back();
    DInst& I = c.f->code[c.ip];
    for (size_t i = 0; i < rv.size() && i < I.n; ++i) c.r[I.dst + i] = rv[i];
    if (I.op == D_INVOKE) jump(s, I.e0);
    else c.ip++;
}

u32 Exec::typeId(u64 a) {
    auto it = typeIds.find(a);
    if (it != typeIds.end()) return it->second;
    u32 id = typeIds.size() + 1;
    typeIds[a] = id;
    return id;
}
bool Exec::typeMatch(State& s, u64 thrown, u64 want) {
    if (!want) return true;
    if (thrown == want) return true;
    std::string tn = typeName.count(thrown) ? typeName[thrown] : "";
    std::string wn = typeName.count(want) ? typeName[want] : "";
    if (tn == wn && !tn.empty()) return true;
    if (wn == "_ZTISt9exception" && tn.compare(0, 6, "_ZTISt") == 0) return true;
    Obj* o = s.mem.find(thrown);
    if (o && o->size == 24) { // __si_class_type_info {vptr, name, base}
        u64 base;
        memcpy(&base, o->d + 16, 8);
        if (base && typeName.count(base)) return typeMatch(s, base, want);
    }
    return false;
}
// exception object layout: we keep a header object {tinfo, payload}
// (16 bytes below the payload)

void Exec::throwExc(State& s, u64 exc) {
    Thread& t = s.thr[s.cur];
    u64 tinfo = load(s, VC(exc - 16), 64).c;
    // is there a handler?
    bool handler = false;
    auto scan = [&](Frame& f, u64& sel, bool& cleanup) -> bool {
        DInst& I = f.f->code[f.ip];
        if (I.op != D_INVOKE) return false;
        // landing pad is the first non-phi instruction at the unwind target
        DInst& L = f.f->code[I.e1->ip];
        if (L.op != D_LPAD) return false;
        cleanup = L.lp->cleanup;
        sel = 0;
        for (auto& c : L.lp->cls) {
            if (c.filter) {
                bool ok = false;
                for (u64 ty : c.types) if (typeMatch(s, tinfo, ty)) ok = true;
                if (!ok) { sel = (u64)(u32)-1; return true; }
            } else if (typeMatch(s, tinfo, c.types[0])) { sel = typeId(c.types[0]); return true; }
        }
        return cleanup;
    };
    for (int i = (int)t.st.size() - 1; i >= 0; --i) {
        u64 sel; bool cl;
        if (scan(t.st[i], sel, cl) && sel) { handler = true; break; }
    }
    if (!handler) {
        std::string tn = typeName.count(tinfo) ? typeName[tinfo] : "?";
        fail(s, "uncaught-exception", "uncaught exception of type " + tn);
    }
    while (!t.st.empty()) {
        Frame& f = t.st.back();
        u64 sel; bool cl;
        if (scan(f, sel, cl)) {
            DInst& I = f.f->code[f.ip];
            jump(s, I.e1);
            Frame& g = fr(s);
            DInst& L = g.f->code[g.ip];
            g.r[L.dst] = VC(exc);
            if (L.n > 1) g.r[L.dst + 1] = VC(sel);
            g.ip++;
            return;
        }
        for (u64 a : f.allocas) s.mem.freeStackObj(a);
        t.st.pop_back();
    }
}

// ------------------------------------------------------------------ threads
bool Exec::switchAway(State& s) {
    // choose another runnable thread (free choice: the current one cannot continue)
    std::vector<int> run;
    for (size_t i = 0; i < s.thr.size(); ++i)
        if (s.thr[i].stat == TRun && !s.thr[i].st.empty()) run.push_back((int)i);
    if (run.empty()) {
        // timed waits may expire
        for (size_t i = 0; i < s.thr.size(); ++i)
            if (s.thr[i].stat == TCond && s.thr[i].canTimeout) run.push_back((int)i);
        if (run.empty()) fail(s, "deadlock", "all threads are blocked");
        for (int i : run) { s.thr[i].stat = TRun; s.thr[i].timedOut = true; }
    }
    int pick = run[0];
    if (run.size() > 1) {
        // one symbolic decision per scheduling choice
        Expr* e;
        newInput(s, "sched", 8, e);
        for (size_t k = 1; k < run.size(); ++k) {
            State* n = clone(s);
            addCons(*n, mkEq(e, mkConst(run[k], 8)));
            auto m = std::make_shared<Model>(*n->model);
            m->v.resize(std::max<size_t>(m->v.size(), e->val + 1), 0);
            m->v[e->val] = run[k]; m->epoch = freshEpoch();
            n->model = m;
            n->cur = run[k];
            work.push_back(n);
        }
        addCons(s, mkEq(e, mkConst(run[0], 8)));
        auto m = std::make_shared<Model>(*s.model);
        m->v.resize(std::max<size_t>(m->v.size(), e->val + 1), 0);
        m->v[e->val] = run[0]; m->epoch = freshEpoch();
        s.model = m;
    }
    s.cur = pick;
    return true;
}
bool Exec::schedule(State& s, DInst&) {
    if (s.thr.size() == 1) return true;
    if (s.thr[s.cur].schedDone) return true;
    s.thr[s.cur].schedDone = true;
    s.schedPoints++;
    // fairness: a thread that only spins hands over after a while
    if (s.spinThr != s.cur) { s.spinThr = s.cur; s.spin = 0; }
    if (++s.spin > 400)
        for (size_t k = 1; k < s.thr.size(); ++k) {
            size_t i = (s.cur + k) % s.thr.size();
            if (s.thr[i].stat == TRun && !s.thr[i].st.empty()) { s.cur = (int)i; stepSkipped = true; return false; }
        }
    if (s.preempts >= s.preemptBudget) return true;
    std::vector<int> run;
    for (size_t i = 0; i < s.thr.size(); ++i)
        if (s.thr[i].stat == TRun && !s.thr[i].st.empty()) run.push_back((int)i);
    // a timed wait may expire here, and (where the harness asks) any wait may wake up for no reason
    std::vector<int> wk;
    for (size_t i = 0; i < s.thr.size(); ++i)
        if (s.thr[i].stat == TCond && (s.thr[i].canTimeout ? s.timeouts : s.spurious > 0)) wk.push_back((int)i);
    if (run.size() + wk.size() < 2) return true;
    Expr* e;
    newInput(s, "sched", 8, e);
    auto fix = [&](State& st, int v) {
        addCons(st, mkEq(e, mkConst(v, 8)));
        auto m = std::make_shared<Model>(*st.model);
        m->v.resize(std::max<size_t>(m->v.size(), e->val + 1), 0);
        m->v[e->val] = v; m->epoch = freshEpoch();
        st.model = m;
    };
    for (int r : run) if (r != s.cur) {
        State* n = clone(s);
        fix(*n, r);
        n->cur = r;
        n->preempts++;
        work.push_back(n);
    }
    for (int r : wk) {
        State* n = clone(s);
        fix(*n, r);
        n->thr[r].stat = TRun;
        if (n->thr[r].canTimeout) n->thr[r].timedOut = true;
        else n->spurious--;
        n->cur = r;
        n->preempts++;
        work.push_back(n);
    }
    fix(s, s.cur);
    return true;
}

// ------------------------------------------------------------------ step
static double asF(u64 v, unsigned w) {
    if (w == 64) { double d; memcpy(&d, &v, 8); return d; }
    float f; u32 x = (u32)v; memcpy(&f, &x, 4); return f;
}
static u64 fromF(double d, unsigned w) {
    if (w == 64) { u64 v; memcpy(&v, &d, 8); return v; }
    float f = (float)d; u32 x; memcpy(&x, &f, 4); return x;
}

static Expr* icmpE(unsigned p, Expr* a, Expr* b) {
    switch (p) {
    case CmpInst::ICMP_EQ: return mkEq(a, b);
    case CmpInst::ICMP_NE: return mkNot(mkEq(a, b));
    case CmpInst::ICMP_ULT: return mkBin(EUlt, a, b);
    case CmpInst::ICMP_UGT: return mkBin(EUlt, b, a);
    case CmpInst::ICMP_ULE: return mkNot(mkBin(EUlt, b, a));
    case CmpInst::ICMP_UGE: return mkNot(mkBin(EUlt, a, b));
    case CmpInst::ICMP_SLT: return mkBin(ESlt, a, b);
    case CmpInst::ICMP_SGT: return mkBin(ESlt, b, a);
    case CmpInst::ICMP_SLE: return mkNot(mkBin(ESlt, b, a));
    case CmpInst::ICMP_SGE: return mkNot(mkBin(ESlt, a, b));
    }
    abort();
}
static bool icmpC(unsigned p, u64 a, u64 b, unsigned w) {
    switch (p) {
    case CmpInst::ICMP_EQ: return a == b;
    case CmpInst::ICMP_NE: return a != b;
    case CmpInst::ICMP_ULT: return a < b;
    case CmpInst::ICMP_UGT: return a > b;
    case CmpInst::ICMP_ULE: return a <= b;
    case CmpInst::ICMP_UGE: return a >= b;
    case CmpInst::ICMP_SLT: return sext64(a, w) < sext64(b, w);
    case CmpInst::ICMP_SGT: return sext64(a, w) > sext64(b, w);
    case CmpInst::ICMP_SLE: return sext64(a, w) <= sext64(b, w);
    case CmpInst::ICMP_SGE: return sext64(a, w) >= sext64(b, w);
    }
    abort();
}

static bool isShared(State& s, const Val& p) {
    if (p.e) return false;
    for (auto& r : s.shared) if (p.c >= r.first && p.c < r.second) return true;
    if (!s.shareHeap) return false;
    Obj* o = s.mem.find(p.c);
    return o && (o->kind == OMalloc || o->kind == ONew || o->kind == ONewArr);
}

// JSYM_PROF=1: where the steps go (sampled)
static bool gProf = getenv("JSYM_PROF") != nullptr; static u64 gProfN;
static struct ProfT { std::map<std::string, u64> m; u64& operator[](const std::string& k) { return m[k]; }
    void print() { if (!gProf) return; std::vector<std::pair<u64, std::string>> v; for (auto& x : m) v.push_back({x.second, x.first}); std::sort(v.rbegin(), v.rend()); for (size_t i = 0; i < v.size() && i < 40; ++i) fprintf(stderr, "PROF %8lu %s\n", (unsigned long)v[i].first, v[i].second.substr(0, 150).c_str()); } } gProfC;
void Exec::step(State& s) {
    gCur = &s;
    Frame& f = fr(s);
    DInst& I = f.f->code[f.ip];
    I.cov = true;
    s.steps++;
    if (gProf && !(++gProfN & 255)) gProfC[f.f->name]++;
    if (s.thr.size() > 1 && (I.vis || (I.memop && (s.shareHeap || !s.shared.empty()) && isShared(s, getN(f, I.ops[I.op == D_STORE ? 1 : 0], 0))))
        && !schedule(s, I)) return;
    switch (I.op) {
    case D_BIN: {
        for (u32 j = 0; j < I.n; ++j) {
            Val a = getN(f, I.ops[0], j), b = getN(f, I.ops[1], j);
            unsigned w = I.w;
            if (!a.e && !b.e) {
                u64 m = maskw(w), x = a.c, y = b.c, r = 0;
                switch (I.sub) {
                case EAdd: r = x + y; break;
                case 100: r = x - y; break;
                case EMul: r = x * y; break;
                case EAnd: r = x & y; break;
                case EOr: r = x | y; break;
                case EXor: r = x ^ y; break;
                case EShl: r = y >= w ? 0 : x << y; break;
                case ELShr: r = y >= w ? 0 : x >> y; break;
                case EAShr: r = (u64)(sext64(x, w) >> (y >= w ? w - 1 : y)); break;
                case EUDiv: case EURem: case ESDiv: case ESRem: {
                    if (!y) fail(s, "div-zero", "division by zero");
                    Expr* e = mkBin((EK)I.sub, mkConst(x, w), mkConst(y, w));
                    r = e->val;
                    break;
                }
                }
                f.r[I.dst + j] = VC(r & m);
                continue;
            }
            Expr* x = ex(a, w); Expr* y = ex(b, w);
            Expr* r;
            if (I.sub == 100) r = mkSub(x, y);
            else {
                if (I.sub == EUDiv || I.sub == EURem || I.sub == ESDiv || I.sub == ESRem) {
                    Expr* z = mkEq(y, mkConst(0, w));
                    if (decide(s, z)) fail(s, "div-zero", "division by zero");
                }
                r = mkBin((EK)I.sub, x, y);
            }
            fr(s).r[I.dst + j] = mkV(r);
        }
        f.ip++;
        return;
    }
    case D_ICMP: {
        for (u32 j = 0; j < I.n; ++j) {
            Val a = getN(f, I.ops[0], j), b = getN(f, I.ops[1], j);
            if (!a.e && !b.e) f.r[I.dst + j] = VC(icmpC(I.sub, a.c, b.c, I.w));
            else f.r[I.dst + j] = mkV(icmpE(I.sub, ex(a, I.w), ex(b, I.w)));
        }
        f.ip++;
        return;
    }
    case D_CAST: {
        if (I.sub == 1000) {
            // reshape through one wide value
            Expr* all = nullptr;
            for (u32 j = 0; j < I.imm; ++j) {
                Expr* p = ex(getN(f, I.ops[0], j), I.w2);
                all = all ? mkConcat(p, all) : p;
            }
            for (u32 j = 0; j < I.n; ++j) f.r[I.dst + j] = mkV(mkExtract(all, j * I.w, I.w));
            f.ip++;
            return;
        }
        for (u32 j = 0; j < I.n; ++j) {
            Val a = getN(f, I.ops[0], j);
            if (!a.e && I.w <= 64) {
                u64 r = a.c;
                if (I.sub == Instruction::SExt) r = (u64)sext64(r, I.w2);
                f.r[I.dst + j] = VC(r & maskw(I.w));
            } else {
                Expr* e = ex(a, I.w2);
                if (I.w < I.w2) e = mkExtract(e, 0, I.w);
                else if (I.w > I.w2) e = I.sub == Instruction::SExt ? mkSExt(e, I.w) : mkZExt(e, I.w);
                f.r[I.dst + j] = e->w > 64 ? Val{0, e} : mkV(e);
            }
        }
        f.ip++;
        return;
    }
    case D_LOAD: {
        Val a = get(f, I.ops[0]);
        if (I.leaves) {
            if (a.e) a = VC(concretize(s, a, 64));
            for (u32 j = 0; j < I.n; ++j) {
                if ((*I.leaves)[j].w == 1 && I.n > 1 && isa<VectorType>(I.I->getType())) incomplete(s, "vector of i1 load");
                fr(s).r[I.dst + j] = load(s, VC(a.c + (*I.leaves)[j].off), (*I.leaves)[j].w);
            }
        } else {
            if (!a.e && I.w <= 64) {
                u64 off;
                Obj* o = resolveC(s, a.c, (I.w + 7) / 8, false, off);
                f.r[I.dst] = readObj(o, off, I.w);
            } else {
                Val v = load(s, a, I.w);
                fr(s).r[I.dst] = v;
            }
        }
        fr(s).ip++;
        return;
    }
    case D_STORE: {
        Val a = get(f, I.ops[1]);
        if (I.leaves) {
            if (a.e) a = VC(concretize(s, a, 64));
            for (u32 j = 0; j < I.leaves->size(); ++j)
                store(s, VC(a.c + (*I.leaves)[j].off), getN(f, I.ops[0], j), (*I.leaves)[j].w);
        } else store(s, a, get(f, I.ops[0]), I.w);
        fr(s).ip++;
        return;
    }
    case D_ALLOCA: {
        u64 n = I.imm * cz(s, get(f, I.ops[0]), I.w);
        Obj* o = s.mem.alloc(n, OStack, I.w2 ? 64 : 16, nullptr, I.I);
        memset(o->d, 0xA5, n);
        f.allocas.push_back(o->base);
        f.r[I.dst] = VC(o->base);
        f.ip++;
        return;
    }
    case D_GEP: {
        Val b = get(f, I.ops[0]);
        u64 c = I.gi->cst;
        Expr* e = nullptr;
        for (auto& ix : I.gi->idx) {
            Val v = get(f, ix.first);
            unsigned w = ix.second.first;
            if (!v.e) c += (u64)(sext64(v.c, w) * (i64)ix.second.second);
            else {
                Expr* t = mkBin(EMul, mkConst(ix.second.second, 64), w < 64 ? mkSExt(v.e, 64) : v.e);
                e = e ? mkBin(EAdd, e, t) : t;
            }
        }
        if (!b.e && !e) f.r[I.dst] = VC(b.c + c);
        else {
            Expr* r = ex(b, 64);
            r = mkBin(EAdd, mkConst(c, 64), r);
            if (e) r = mkBin(EAdd, r, e);
            f.r[I.dst] = mkV(r);
        }
        f.ip++;
        return;
    }
    case D_BR: jump(s, I.e0); return;
    case D_CBR: {
        Val c = get(f, I.ops[0]);
        if (!c.e) { jump(s, c.c ? I.e0 : I.e1); return; }
        int d = decide(s, c.e);
        jump(s, d ? I.e0 : I.e1);
        return;
    }
    case D_SWITCH: {
        Val c = get(f, I.ops[0]);
        if (!c.e) {
            for (auto& k : I.si->cases) if (k.first == c.c) { jump(s, k.second); return; }
            jump(s, I.si->def);
            return;
        }
        for (auto& k : I.si->cases)
            if (decide(s, mkEq(c.e, mkConst(k.first, I.w)))) { jump(s, k.second); return; }
        jump(s, I.si->def);
        return;
    }
    case D_RET: {
        std::vector<Val> rv;
        if (!I.ops.empty()) for (u32 j = 0; j < I.imm; ++j) rv.push_back(getN(f, I.ops[0], j));
        doRet(s, rv);
        return;
    }
    case D_CALL: case D_INVOKE: {
        CallInfo* ci = I.ci;
        std::vector<Val> args;
        args.reserve(ci->args.size());
        for (size_t i = 0; i < ci->args.size(); ++i)
            for (u32 j = 0; j < ci->argN[i]; ++j) args.push_back(getN(f, ci->args[i], j));
        Builtin bi = ci->bi;
        DFunc* df = ci->df;
        if (!bi && !df) {
            if (ci->fn) incomplete(s, "external function " + ci->name);
            u64 t = cz(s, get(f, ci->target), 64);
            auto it = faddr.find(t);
            if (it == faddr.end()) fail(s, "bad-call", "call through a pointer that is not a function");
            Function* fn = it->second;
            Function* wf = M->getFunction(("__wrap_" + fn->getName()).str());
            auto bt = builtins.find(fn->getName().str());
            if (wf && !wf->isDeclaration() && fn->isDeclaration()) df = getFunc(wf);
            else if (bt != builtins.end()) bi = bt->second;
            else if (!fn->isDeclaration()) df = getFunc(fn);
            else incomplete(s, "external function " + fn->getName().str());
        }
        if (bi) {
            size_t depth = s.thr[s.cur].st.size();
            int cur = s.cur;
            u32 ip = f.ip;
            bi(*this, s, I, args);
            // a builtin that changed control (throw, thread switch) leaves the ip alone
            if (s.cur == cur && s.thr[cur].st.size() == depth && fr(s).ip == ip && !(s.thr[cur].stat != TRun)) {
                if (I.op == D_INVOKE) jump(s, I.e0);
                else fr(s).ip++;
            }
            return;
        }
        call(s, df, args, ci->argN, &I);
        return;
    }
    case D_SELECT: {
        Val c0 = get(f, I.ops[0]);
        for (u32 j = 0; j < I.n; ++j) {
            Val c = I.w2 ? getN(f, I.ops[0], j) : c0;
            Val a = getN(f, I.ops[1], j), b = getN(f, I.ops[2], j);
            if (!c.e) { f.r[I.dst + j] = c.c ? a : b; continue; }
            unsigned w = I.leaves ? (*I.leaves)[j].w : I.w;
            f.r[I.dst + j] = mkV(mkIte(c.e, ex(a, w), ex(b, w)));
        }
        f.ip++;
        return;
    }
    case D_EXTV:
        for (u32 j = 0; j < I.n; ++j) f.r[I.dst + j] = getN(f, I.ops[0], (u32)I.imm + j);
        f.ip++;
        return;
    case D_INSV: {
        for (u32 j = 0; j < I.n; ++j) {
            if (j >= I.imm && j < I.imm + I.w2) f.r[I.dst + j] = getN(f, I.ops[1], j - (u32)I.imm);
            else f.r[I.dst + j] = getN(f, I.ops[0], j);
        }
        f.ip++;
        return;
    }
    case D_MOVE:
        for (u32 j = 0; j < I.n; ++j) f.r[I.dst + j] = getN(f, I.ops[0], j);
        f.ip++;
        return;
    case D_UNREACH: fail(s, "unreachable", "unreachable code executed"); return;
    case D_LPAD: incomplete(s, "landing pad reached directly"); return;
    case D_RESUME: {
        u64 exc = cz(s, get(f, I.ops[0]), 64);
        // leave this frame and continue unwinding
        Thread& t = s.thr[s.cur];
        for (u64 a : f.allocas) s.mem.freeStackObj(a);
        t.st.pop_back();
        throwExc(s, exc);
        return;
    }
    case D_CMPXCHG: {
        Val p = get(f, I.ops[0]);
        if (p.e) p = VC(concretize(s, p, 64));
        Val old = load(s, p, I.w);
        Val exp = get(f, I.ops[1]), nv = get(f, I.ops[2]);
        bool eq;
        if (!old.e && !exp.e) eq = old.c == exp.c;
        else eq = decide(s, mkEq(ex(old, I.w), ex(exp, I.w)));
        if (eq) store(s, p, nv, I.w);
        fr(s).r[I.dst] = old;
        fr(s).r[I.dst + 1] = VC(eq);
        fr(s).ip++;
        return;
    }
    case D_RMW: {
        Val p = get(f, I.ops[0]);
        if (p.e) p = VC(concretize(s, p, 64));
        Val old = load(s, p, I.w), v = get(f, I.ops[1]);
        if (!old.e && !v.e && I.w <= 64 && (I.sub == AtomicRMWInst::Add || I.sub == AtomicRMWInst::Sub || I.sub == AtomicRMWInst::Xchg)) {
            u64 x = I.sub == AtomicRMWInst::Add ? old.c + v.c : I.sub == AtomicRMWInst::Sub ? old.c - v.c : v.c;
            store(s, p, VC(x & maskw(I.w)), I.w);
            fr(s).r[I.dst] = old;
            fr(s).ip++;
            return;
        }
        Expr* a = ex(old, I.w); Expr* b = ex(v, I.w);
        Expr* r;
        switch (I.sub) {
        case AtomicRMWInst::Xchg: r = b; break;
        case AtomicRMWInst::Add: r = mkBin(EAdd, a, b); break;
        case AtomicRMWInst::Sub: r = mkSub(a, b); break;
        case AtomicRMWInst::And: r = mkBin(EAnd, a, b); break;
        case AtomicRMWInst::Or: r = mkBin(EOr, a, b); break;
        case AtomicRMWInst::Xor: r = mkBin(EXor, a, b); break;
        case AtomicRMWInst::Max: r = mkIte(mkBin(ESlt, a, b), b, a); break;
        case AtomicRMWInst::Min: r = mkIte(mkBin(ESlt, a, b), a, b); break;
        case AtomicRMWInst::UMax: r = mkIte(mkBin(EUlt, a, b), b, a); break;
        case AtomicRMWInst::UMin: r = mkIte(mkBin(EUlt, a, b), a, b); break;
        default: incomplete(s, "atomicrmw op");
        }
        store(s, p, mkV(r), I.w);
        fr(s).r[I.dst] = old;
        fr(s).ip++;
        return;
    }
    case D_FENCE: f.ip++; return;
    case D_FBIN: {
        for (u32 j = 0; j < I.n; ++j) {
            double a = asF(cz(s, getN(f, I.ops[0], j), I.w), I.w), b = asF(cz(s, getN(f, I.ops[1], j), I.w), I.w), r = 0;
            switch (I.sub) {
            case Instruction::FAdd: r = a + b; break;
            case Instruction::FSub: r = a - b; break;
            case Instruction::FMul: r = a * b; break;
            case Instruction::FDiv: r = a / b; break;
            case Instruction::FRem: r = std::fmod(a, b); break;
            }
            fr(s).r[I.dst + j] = VC(fromF(r, I.w));
        }
        fr(s).ip++;
        return;
    }
    case D_FNEG:
        f.r[I.dst] = VC(fromF(-asF(cz(s, get(f, I.ops[0]), I.w), I.w), I.w));
        f.ip++;
        return;
    case D_FCMP: {
        double a = asF(cz(s, get(f, I.ops[0]), I.w), I.w), b = asF(cz(s, get(f, I.ops[1]), I.w), I.w);
        bool un = std::isnan(a) || std::isnan(b), r = false;
        switch (I.sub) {
        case CmpInst::FCMP_FALSE: r = false; break;
        case CmpInst::FCMP_OEQ: r = !un && a == b; break;
        case CmpInst::FCMP_OGT: r = !un && a > b; break;
        case CmpInst::FCMP_OGE: r = !un && a >= b; break;
        case CmpInst::FCMP_OLT: r = !un && a < b; break;
        case CmpInst::FCMP_OLE: r = !un && a <= b; break;
        case CmpInst::FCMP_ONE: r = !un && a != b; break;
        case CmpInst::FCMP_ORD: r = !un; break;
        case CmpInst::FCMP_UNO: r = un; break;
        case CmpInst::FCMP_UEQ: r = un || a == b; break;
        case CmpInst::FCMP_UGT: r = un || a > b; break;
        case CmpInst::FCMP_UGE: r = un || a >= b; break;
        case CmpInst::FCMP_ULT: r = un || a < b; break;
        case CmpInst::FCMP_ULE: r = un || a <= b; break;
        case CmpInst::FCMP_UNE: r = un || a != b; break;
        case CmpInst::FCMP_TRUE: r = true; break;
        }
        fr(s).r[I.dst] = VC(r);
        fr(s).ip++;
        return;
    }
    case D_FCAST: {
        for (u32 j = 0; j < I.n; ++j) {
            u64 x = cz(s, getN(f, I.ops[0], j), I.w2), r = 0;
            switch (I.sub) {
            case Instruction::FPToUI: { double d = asF(x, I.w2); r = d >= 9223372036854775808.0 ? (u64)d : (u64)(i64)d; break; }
            case Instruction::FPToSI: r = (u64)(i64)asF(x, I.w2); break;
            case Instruction::UIToFP: r = I.w == 64 ? fromF((double)x, 64) : fromF((float)x, 32); break;
            case Instruction::SIToFP: r = fromF((double)sext64(x, I.w2), I.w); break;
            case Instruction::FPTrunc: case Instruction::FPExt: r = fromF(asF(x, I.w2), I.w); break;
            }
            fr(s).r[I.dst + j] = VC(r & maskw(I.w));
        }
        fr(s).ip++;
        return;
    }
    case D_EXTEL: {
        u64 ix = cz(s, get(f, I.ops[1]), I.w2);
        fr(s).r[I.dst] = getN(fr(s), I.ops[0], (u32)ix);
        fr(s).ip++;
        return;
    }
    case D_INSEL: {
        u64 ix = cz(s, get(f, I.ops[2]), I.w2);
        for (u32 j = 0; j < I.n; ++j) fr(s).r[I.dst + j] = j == ix ? get(fr(s), I.ops[1]) : getN(fr(s), I.ops[0], j);
        fr(s).ip++;
        return;
    }
    case D_SHUF: {
        for (size_t j = 0; j < I.mask->size(); ++j) {
            int m = (*I.mask)[j];
            Val v = VC(0);
            if (m >= 0) v = (u64)m < I.imm ? getN(f, I.ops[0], m) : getN(f, I.ops[1], m - (int)I.imm);
            f.r[I.dst + j] = v;
        }
        f.ip++;
        return;
    }
    default: {
        std::string t;
        raw_string_ostream os(t);
        os << *I.I;
        incomplete(s, "unsupported instruction " + os.str());
    }
    }
}

// ------------------------------------------------------------------ driver
static std::string jesc(const std::string& s) {
    std::string r;
    for (char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if ((unsigned char)c < 32 || (unsigned char)c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", (unsigned char)c); r += b; }
        else r += c;
    }
    return r;
}
void Exec::pathDone(State& s) {
    paths++;
    for (u32 c : s.cover) cover.insert(c);
    maxStepsSeen = std::max(maxStepsSeen, s.steps);
    // keep a spread of path samples: powers of two
    bool keep = samples.size() < 2 || (paths & (paths - 1)) == 0;
    if (keep) {
        std::string j = "{\"inputs\":[";
        for (size_t i = 0; i < s.inputs.size(); ++i) {
            auto& in = s.inputs[i];
            u64 x = in.e ? evalExpr(in.e, *s.model) : in.c;
            char b[200];
            snprintf(b, sizeof b, "%s[\"%s\",%lu,%u]", i ? "," : "", jesc(in.name).c_str(), (unsigned long)x, in.w);
            j += b;
        }
        j += "],\"obs\":[";
        for (size_t i = 0; i < s.obs.size(); ++i) {
            u64 x = s.obs[i].e ? evalExpr(s.obs[i].e, *s.model) : s.obs[i].c;
            j += (i ? "," : "") + std::to_string(x);
        }
        j += "],\"steps\":" + std::to_string(s.steps) + ",\"constraints\":" + std::to_string(s.cons.size()) + "}";
        if (samples.size() >= cfg.samples) samples.erase(samples.begin() + 1);
        samples.push_back(j);
    }
}

// The common case, instructions on concrete operands, in one tight loop;
// everything else (symbolic operands, calls, errors) is left to step().
u64 Exec::fastRun(State& s, u64 budget) {
    Frame& f = s.thr[s.cur].st.back();
    DInst* code = f.f->code.data();
    Val* r = f.r.data();
    u32 ip = f.ip;
    u64 n = 0;
#define GV(o) ((o).k ? (o).v : r[(o).slot])
    auto edge = [&](Edge* e) -> bool {
        size_t np = e->phis.size();
        if (np) {
            if (e->anyAgg || np > 16) return false;
            Val tmp[16];
            for (size_t i = 0; i < np; ++i) { if (e->phiN[i] != 1) return false; const Op& o = e->phis[i].second; tmp[i] = GV(o); }
            for (size_t i = 0; i < np; ++i) r[e->phis[i].first] = tmp[i];
        }
        ip = e->ip;
        return true;
    };
    while (n < budget) {
        DInst& I = code[ip];
        const Op* o = I.ops.data();
        switch (I.op) {
        case D_BIN: {
            if (I.n != 1 || I.w > 64) goto out;
            Val a = GV(o[0]), b = GV(o[1]);
            if (a.e || b.e) goto out;
            unsigned w = I.w;
            u64 x = a.c, y = b.c, v;
            switch (I.sub) {
            case EAdd: v = x + y; break;
            case 100: v = x - y; break;
            case EMul: v = x * y; break;
            case EAnd: v = x & y; break;
            case EOr: v = x | y; break;
            case EXor: v = x ^ y; break;
            case EShl: v = y >= w ? 0 : x << y; break;
            case ELShr: v = y >= w ? 0 : x >> y; break;
            case EAShr: v = (u64)(sext64(x, w) >> (y >= w ? w - 1 : y)); break;
            default: goto out;
            }
            r[I.dst] = VC(v & maskw(w));
            ip++;
            break;
        }
        case D_ICMP: {
            if (I.n != 1 || I.w > 64) goto out;
            Val a = GV(o[0]), b = GV(o[1]);
            if (a.e || b.e) goto out;
            r[I.dst] = VC(icmpC(I.sub, a.c, b.c, I.w));
            ip++;
            break;
        }
        case D_CAST: {
            if (I.n != 1 || I.sub == 1000 || I.w > 64 || I.w2 > 64) goto out;
            Val a = GV(o[0]);
            if (a.e) goto out;
            u64 v = a.c;
            if (I.sub == Instruction::SExt) v = (u64)sext64(v, I.w2);
            r[I.dst] = VC(v & maskw(I.w));
            ip++;
            break;
        }
        case D_LOAD: {
            if (I.leaves || I.w > 64) goto out;
            Val a = GV(o[0]);
            if (a.e) goto out;
            unsigned nb = (I.w + 7) / 8;
            Obj* ob = s.mem.find(a.c);
            if (!ob || ob->freed || ob->s) goto out;
            u64 off = a.c - ob->base;
            if (a.c < ob->base || off > ob->size || nb > ob->size - off) goto out;
            u64 v = 0;
            switch (nb) {
            case 8: memcpy(&v, ob->d + off, 8); break;
            case 4: memcpy(&v, ob->d + off, 4); break;
            case 1: v = ob->d[off]; break;
            default: memcpy(&v, ob->d + off, nb);
            }
            r[I.dst] = VC(v & maskw(I.w));
            ip++;
            break;
        }
        case D_STORE: {
            if (I.leaves || I.w > 64) goto out;
            Val a = GV(o[1]), v = GV(o[0]);
            if (a.e || v.e) goto out;
            unsigned nb = (I.w + 7) / 8;
            Obj* ob = s.mem.find(a.c);
            if (!ob || ob->freed || ob->ro || ob->s) goto out;
            u64 off = a.c - ob->base;
            if (a.c < ob->base || off > ob->size || nb > ob->size - off) goto out;
            if (!s.mem.owned(ob)) ob = s.mem.writable(ob);
            u64 x = v.c & maskw(I.w);
            switch (nb) {
            case 8: memcpy(ob->d + off, &x, 8); break;
            case 4: memcpy(ob->d + off, &x, 4); break;
            case 1: ob->d[off] = (u8)x; break;
            default: memcpy(ob->d + off, &x, nb);
            }
            ip++;
            break;
        }
        case D_GEP: {
            Val b = GV(o[0]);
            if (b.e) goto out;
            u64 c = I.gi->cst;
            for (auto& ix : I.gi->idx) {
                Val v = GV(ix.first);
                if (v.e) goto out;
                c += (u64)(sext64(v.c, ix.second.first) * (i64)ix.second.second);
            }
            r[I.dst] = VC(b.c + c);
            ip++;
            break;
        }
        case D_BR: I.cov = true; if (!edge(I.e0)) goto out; break;
        case D_CBR: {
            Val c = GV(o[0]);
            if (c.e) goto out;
            I.cov = true;
            if (!edge(c.c ? I.e0 : I.e1)) goto out;
            break;
        }
        case D_SELECT: {
            if (I.n != 1 || I.w2) goto out;
            Val c = GV(o[0]);
            if (c.e) goto out;
            r[I.dst] = c.c ? GV(o[1]) : GV(o[2]);
            ip++;
            break;
        }
        case D_SWITCH: {
            Val c = GV(o[0]);
            if (c.e) goto out;
            Edge* e = I.si->def;
            for (auto& k : I.si->cases) if (k.first == c.c) { e = k.second; break; }
            if (!edge(e)) goto out;
            break;
        }
        default: goto out;
        }
        I.cov = true;
        n++;
    }
out:
#undef GV
    f.ip = ip;
    s.steps += n;
    return n;
}

void Exec::runState(State* sp) {
    State& s = *sp;
    try {
        u64 n = 0;
        for (;;) {
            Thread& t = s.thr[s.cur];
            if (t.stat != TRun || t.st.empty()) {
                if (s.cur == 0 && t.st.empty()) break;    // main returned
                switchAway(s);
                continue;
            }
            int c = s.cur;
            if (s.thr.size() == 1 && !gProf) {
                n += fastRun(s, 1024 - (n & 1023) > 1 ? 1023 - (n & 1023) : 0);
            }
            step(s);
            if (!stepSkipped && s.thr[c].stat == TRun) s.thr[c].schedDone = false;
            stepSkipped = false;
            if ((++n & 1023) == 0) {
                totalSteps += 1024;
                if (s.steps > cfg.maxSteps) fail(s, "non-termination", "path exceeds the step limit of " + std::to_string(cfg.maxSteps));
                if (nowSec() - t0 > cfg.maxTime) { stopped = true; stopWhy = "time limit"; pathsIncomplete++; incompleteWhy["time limit"]++; throw PathEnd(); }
            }
        }
        totalSteps += n & 1023;
        pathDone(s);
    } catch (PathEnd&) {
    }
    delete sp;
}

Exec::Exec(llvm::Module* m, const Config& c) : cfg(c), M(m), DL(&m->getDataLayout()), solver(c.solverMs) {
    t0 = nowSec();
    solver.dumpDir = c.dumpDir; solver.dumpLeft = c.dumpN;
    registerBuiltins(*this);
}

static u64 rssMB() {
    FILE* f = fopen("/proc/self/statm", "r");
    if (!f) return 0;
    unsigned long a, b;
    if (fscanf(f, "%lu %lu", &a, &b) != 2) b = 0;
    fclose(f);
    return b * 4096 >> 20;
}

void Exec::run() {
    State* s = new State;
    initGlobals(*s);
    s->model = std::make_shared<Model>();
    s->model->epoch = freshEpoch();
    s->thr.emplace_back();
    Function* F = M->getFunction(cfg.entry);
    if (!F || F->isDeclaration()) { fprintf(stderr, "jsym: no entry %s\n", cfg.entry.c_str()); exit(3); }
    // constructors, in priority order, run before the entry: use a driver stack
    std::vector<std::pair<u32, Function*>> ctors;
    if (GlobalVariable* g = M->getNamedGlobal("llvm.global_ctors")) {
        if (auto* ca = dyn_cast<ConstantArray>(g->getInitializer()))
            for (unsigned i = 0; i < ca->getNumOperands(); ++i) {
                auto* cs = cast<ConstantStruct>(ca->getOperand(i));
                if (auto* fn = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts()))
                    ctors.push_back({(u32)cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), fn});
            }
    }
    std::stable_sort(ctors.begin(), ctors.end(), [](auto& a, auto& b) { return a.first < b.first; });
    std::vector<Val> no;
    std::vector<u32> noN;
    bool dead = false;
    for (auto& c : ctors) {
        call(*s, getFunc(c.second), no, noN, nullptr);
        try {
            while (!s->thr[0].st.empty()) step(*s);
        } catch (PathEnd&) { dead = true; break; }
        s->thr[0].stat = TRun;
    }
    if (dead || !work.empty()) { fprintf(stderr, "jsym: static initialisation failed\n"); stopWhy = "static init failed"; pathsIncomplete++; return; }
    s->steps = 0;
    s->thr[0].stat = TRun;
    call(*s, getFunc(F), no, noN, nullptr);
    work.push_back(s);
    u64 cnt = 0, rng = 12345;
    while (!work.empty()) {
        if (stopped) break;
        if (nowSec() - t0 > cfg.maxTime) { stopped = true; stopWhy = "time limit"; break; }
        if ((++cnt & 63) == 0 && rssMB() > cfg.memLimitMB) { stopped = true; stopWhy = "memory limit"; break; }
        if (paths >= cfg.maxPaths) { stopped = true; stopWhy = "path limit"; break; }
        // depth first, with a regular pick from elsewhere so that a run that
        // stops on its time limit has not only seen one corner
        size_t pick = work.size() - 1;
        if ((cnt & 7) == 0 && work.size() < 3000) { rng = rng * 6364136223846793005ULL + 1442695040888963407ULL; pick = (rng >> 33) % work.size(); }
        std::swap(work[pick], work.back());
        State* n = work.back();
        work.pop_back();
        runState(n);
    }
}

std::string Exec::resultJson() {
    gProfC.print();
    std::string j = "{";
    auto kv = [&](const char* k, u64 v) { j += std::string("\"") + k + "\":" + std::to_string(v) + ","; };
    kv("paths", paths); kv("paths_assumed_away", pathsAssumed); kv("paths_violating", pathsViol);
    kv("paths_incomplete", pathsIncomplete); kv("pending", work.size());
    kv("instructions", totalSteps); kv("branch_decisions", branches); kv("forks", forks);
    kv("asserts", asserts); kv("assert_queries", assertQ); kv("mem_queries", memQ);
    kv("max_path_steps", maxStepsSeen);
    kv("queries", gSS.queries); kv("sat", gSS.sat); kv("unsat", gSS.unsat); kv("unknown", gSS.unknown);
    kv("linear_queries", gSS.linear); kv("probed_queries", gSS.probed); kv("domain_queries", gSS.domain); kv("abstracted_queries", gSS.abstracted); kv("cache_hits", gSS.cacheHits); kv("model_hits", gSS.modelHits); kv("exprs", numExprs());
    char b[100];
    snprintf(b, 100, "\"solver_s\":%.3f,\"solver_max_s\":%.3f,\"wall_s\":%.3f,", gSS.secs, gSS.maxSecs, nowSec() - t0);
    j += b;
    bool exh = work.empty() && !pathsIncomplete && (!stopped);
    j += std::string("\"exhaustive\":") + (exh ? "true" : "false") + ",";
    j += "\"stop\":\"" + jesc(stopWhy) + "\",";
    j += "\"incomplete\":{";
    bool first = true;
    for (auto& p : incompleteWhy) { j += (first ? "" : ",") + ("\"" + jesc(p.first) + "\":") + std::to_string(p.second); first = false; }
    j += "},\"cover\":[";
    first = true;
    for (u32 c : cover) { j += (first ? "" : ",") + std::to_string(c); first = false; }
    j += "],\"functions\":[";
    first = true;
    u64 ri = 0, rc = 0;
    for (auto& p : funcs) {
        DFunc* d = p.second;
        if (!d->repo || !d->calls) continue;
        u64 c = 0;
        for (auto& I : d->code) c += I.cov;
        ri += d->code.size(); rc += c;
        j += (first ? "" : ",") + ("[\"" + jesc(d->name) + "\",\"") + jesc(d->file) + "\"," + std::to_string(c) + "," + std::to_string(d->code.size()) + "]";
        first = false;
    }
    j += "],";
    kv("repo_instrs_covered", rc); kv("repo_instrs", ri);
    j += "\"samples\":[";
    for (size_t i = 0; i < samples.size(); ++i) j += (i ? "," : "") + samples[i];
    j += "],\"violations\":[";
    for (size_t i = 0; i < viols.size(); ++i) {
        auto& v = viols[i];
        j += std::string(i ? "," : "") + "{\"kind\":\"" + jesc(v.kind) + "\",\"msg\":\"" + jesc(v.msg) + "\",\"loc\":\"" + jesc(v.loc) + "\",\"trace\":\"" + jesc(v.trace) + "\",\"inputs\":[";
        for (size_t k = 0; k < v.inputs.size(); ++k) {
            snprintf(b, 100, "%s[\"%s\",%lu,%u]", k ? "," : "", jesc(v.inputs[k].first.substr(0, 40)).c_str(), (unsigned long)v.inputs[k].second.first, v.inputs[k].second.second);
            j += b;
        }
        j += "]}";
    }
    j += "]}";
    return j;
}
