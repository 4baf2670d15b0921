// Bitcode loading and predecoding.
#include "engine.h"
#include <llvm/Bitcode/BitcodeReader.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/ReplaceConstant.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
using namespace llvm;

// reference counts of shared_ptr: their updates commute and are no scheduling points
static bool isRefcount(const Instruction & I) {
    auto * L = I.getDebugLoc().get();
    return L && (L->getFilename().ends_with("/atomicity.h") || L->getFilename().ends_with("/shared_ptr_base.h"));
}

bool Engine::load(const std::string & path) {
    SMDiagnostic err;
    M = parseIRFile(path, err, ctx);
    if (!M) { err.print("symx", errs()); return false; }
    DL = &M->getDataLayout();
    UNINIT = X.sym("$uninit", 8);
    UNINIT2 = X.sym("$uninit2", 8);
    registerBuiltins();
    uint64_t k = 0;
    for (auto & F : *M) {
        auto f = std::make_unique<Func>();
        f->F = &F; f->name = F.getName().str();
        f->addr = 0x700000000000ull + 16 * k++;
        funcs[&F] = f.get();
        funcList.push_back(std::move(f));
    }
    return true;
}

uint32_t Engine::nslots(Type * t) {
    if (t->isVoidTy()) return 0;
    if (auto * st = dyn_cast<StructType>(t)) { uint32_t n = 0; for (auto * e : st->elements()) n += nslots(e); return n; }
    if (auto * at = dyn_cast<ArrayType>(t)) return at->getNumElements() * nslots(at->getElementType());
    if (auto * vt = dyn_cast<FixedVectorType>(t)) return vt->getNumElements();
    return 1;
}

static uint32_t widthOf(Type * t, const DataLayout & DL) {
    if (t->isIntegerTy()) return t->getIntegerBitWidth();
    if (t->isPointerTy()) return 64;
    if (t->isSized()) return DL.getTypeSizeInBits(t);
    return 0;
}

void Engine::flatten(Type * t, std::vector<Leaf> & out, uint32_t base) {
    if (t->isVoidTy()) return;
    if (auto * st = dyn_cast<StructType>(t)) {
        auto * sl = DL->getStructLayout(st);
        for (unsigned i = 0; i < st->getNumElements(); ++i) flatten(st->getElementType(i), out, base + (uint32_t)sl->getElementOffset(i));
    } else if (auto * at = dyn_cast<ArrayType>(t)) {
        uint32_t es = DL->getTypeAllocSize(at->getElementType());
        for (unsigned i = 0; i < at->getNumElements(); ++i) flatten(at->getElementType(), out, base + i * es);
    } else if (auto * vt = dyn_cast<FixedVectorType>(t)) {
        uint32_t eb = widthOf(vt->getElementType(), *DL);
        for (unsigned i = 0; i < vt->getNumElements(); ++i) out.push_back({base + i * eb / 8, eb});
    } else out.push_back({base, widthOf(t, *DL)});
}

Val Engine::constScalar(const Constant * c) {
    uint32_t w = widthOf(c->getType(), *DL);
    if (auto * ci = dyn_cast<ConstantInt>(c)) return Val::of(X.konst(ci->getValue()));
    if (auto * cf = dyn_cast<ConstantFP>(c)) return Val::of(X.konst(cf->getValueAPF().bitcastToAPInt()));
    if (isa<ConstantPointerNull>(c)) return Val(0);
    if (isa<UndefValue>(c)) return Val::of(w <= 64 ? X.konst(w, 0) : X.konst(APInt(w, 0)));
    if (auto * g = dyn_cast<GlobalVariable>(c)) return Val(objAddr(globals.at(g)));
    if (auto * F = dyn_cast<Function>(c)) return Val(funcs.at(F)->addr);
    if (auto * ga = dyn_cast<GlobalAlias>(c)) return constScalar(ga->getAliasee());
    if (auto * ce = dyn_cast<ConstantExpr>(c)) {
        switch (ce->getOpcode()) {
        case Instruction::GetElementPtr: {
            APInt off(64, 0);
            auto * gep = cast<GEPOperator>(ce);
            if (!gep->accumulateConstantOffset(*DL, off)) break;
            Val b = constScalar(cast<Constant>(gep->getPointerOperand()));
            return Val(b.c + off.getZExtValue());
        }
        case Instruction::BitCast: case Instruction::AddrSpaceCast: case Instruction::IntToPtr: case Instruction::PtrToInt:
        case Instruction::Trunc: {
            Val v = constScalar(ce->getOperand(0));
            return Val(v.c & maskOf(w));
        }
        case Instruction::Add: return Val((constScalar(ce->getOperand(0)).c + constScalar(ce->getOperand(1)).c) & maskOf(w));
        case Instruction::Sub: return Val((constScalar(ce->getOperand(0)).c - constScalar(ce->getOperand(1)).c) & maskOf(w));
        case Instruction::Mul: return Val((constScalar(ce->getOperand(0)).c * constScalar(ce->getOperand(1)).c) & maskOf(w));
        case Instruction::And: return Val(constScalar(ce->getOperand(0)).c & constScalar(ce->getOperand(1)).c);
        case Instruction::Or: return Val(constScalar(ce->getOperand(0)).c | constScalar(ce->getOperand(1)).c);
        case Instruction::Xor: return Val(constScalar(ce->getOperand(0)).c ^ constScalar(ce->getOperand(1)).c);
        case Instruction::ICmp: {
            uint64_t a = constScalar(ce->getOperand(0)).c, b = constScalar(ce->getOperand(1)).c;
            switch (ce->getPredicate()) { case CmpInst::ICMP_ULT: return Val(a < b); case CmpInst::ICMP_ULE: return Val(a <= b); case CmpInst::ICMP_UGT: return Val(a > b); case CmpInst::ICMP_UGE: return Val(a >= b); case CmpInst::ICMP_EQ: return Val(a == b); case CmpInst::ICMP_NE: return Val(a != b); default: break; }
            break;
        }
        default: break;
        }
    }
    std::string s; raw_string_ostream o(s); c->print(o);
    fprintf(stderr, "symx: unsupported constant %s\n", o.str().c_str());
    return Val(0);
}

void Engine::constVals(const Constant * c, std::vector<Val> & out) {
    Type * t = c->getType();
    if (t->isStructTy() || t->isArrayTy() || t->isVectorTy()) {
        unsigned n = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
        for (unsigned i = 0; i < n; ++i) constVals(c->getAggregateElement(i), out);
    } else out.push_back(constScalar(c));
}

int32_t Engine::lastConstBase(const std::vector<Val> & v) {
    int32_t b = consts.size();
    for (auto & x : v) consts.push_back(x);
    return ~b;
}
int32_t Engine::konstOp(const Val & v) {
    auto key = std::make_pair(v.c, v.e);
    auto it = constIdx.find(key);
    if (it != constIdx.end()) return it->second;
    consts.push_back(v);
    return constIdx[key] = ~(int32_t)(consts.size() - 1);
}
static int32_t at(int32_t op, int i) { return op >= 0 ? op + i : ~(~op + i); }

Func * Engine::getFunc(Function * F) {
    Func * f = funcs.at(F);
    if (!f->h) {
        auto it = builtinTable.find(f->name);
        if (it != builtinTable.end()) f->h = it->second;
    }
    if (!f->decoded && !f->h && !F->isDeclaration()) decode(f);
    return f;
}

void Engine::decode(Func * f) {
    f->decoded = true;
    Function & F = *f->F;
    std::unordered_map<const Value *, int32_t> slot;
    uint32_t ns = 0;
    for (auto & a : F.args()) {
        slot[&a] = ns;
        uint32_t n = nslots(a.getType());
        f->args.push_back({ns, n == 1 ? widthOf(a.getType(), *DL) : 0});
        f->byval.push_back(a.hasByValAttr() ? (uint32_t)DL->getTypeAllocSize(a.getParamByValType()) : 0);
        ns += n;
    }
    for (auto & B : F) for (auto & I : B) if (!I.getType()->isVoidTy()) { slot[&I] = ns; ns += nslots(I.getType()); }
    f->nslots = ns;
    auto opnd = [&](const Value * v) -> int32_t {
        if (auto * c = dyn_cast<Constant>(v)) {
            if (nslots(c->getType()) == 1 && !c->getType()->isVectorTy() && !c->getType()->isStructTy() && !c->getType()->isArrayTy()) return konstOp(constScalar(c));
            std::vector<Val> vs; constVals(c, vs);
            return lastConstBase(vs);
        }
        auto it = slot.find(v);
        if (it == slot.end()) return konstOp(Val(0)); // metadata etc.
        return it->second;
    };
    std::unordered_map<const BasicBlock *, uint32_t> bip;
    uint32_t ip = 0;
    for (auto & B : F) {
        bip[&B] = ip;
        for (auto & I : B) {
            if (isa<PHINode>(I) || isa<DbgInfoIntrinsic>(I)) continue;
            ++ip;
        }
    }
    std::map<std::pair<const BasicBlock *, const BasicBlock *>, uint32_t> edgeIdx;
    auto edge = [&](const BasicBlock * from, const BasicBlock * to) -> uint32_t {
        auto key = std::make_pair(from, to);
        auto it = edgeIdx.find(key);
        if (it != edgeIdx.end()) return it->second;
        Edge e; e.ip = bip.at(to);
        for (auto & phi : to->phis()) {
            int32_t d = slot.at(&phi), s = opnd(phi.getIncomingValueForBlock(from));
            for (uint32_t i = 0, n = nslots(phi.getType()); i < n; ++i) if (d + (int)i != at(s, i)) e.moves.push_back({d + (int32_t)i, at(s, i)});
        }
        f->edges.push_back(e);
        return edgeIdx[key] = f->edges.size() - 1;
    };
    for (auto & B : F) {
        for (auto & I : B) {
            if (isa<PHINode>(I) || isa<DbgInfoIntrinsic>(I)) continue;
            Inst in; in.k = K::UNSUP; in.src = &I;
            if (!I.getType()->isVoidTy()) { in.dst = slot.at(&I); in.n = nslots(I.getType()); } else in.n = 0;
            Type * T = I.getType();
            Type * ST = T->getScalarType();
            auto bin = [&](Op o) { in.k = K::BIN; in.sub = o; in.w = widthOf(ST, *DL); in.ops = {opnd(I.getOperand(0)), opnd(I.getOperand(1))}; };
            switch (I.getOpcode()) {
            case Instruction::Add: bin(ADD); break;
            case Instruction::Sub: bin(SUB); break;
            case Instruction::Mul: bin(MUL); break;
            case Instruction::UDiv: bin(UDIV); break;
            case Instruction::URem: bin(UREM); break;
            case Instruction::SDiv: bin(SDIV); break;
            case Instruction::SRem: bin(SREM); break;
            case Instruction::And: bin(AND); break;
            case Instruction::Or: bin(OR); break;
            case Instruction::Xor: bin(XOR); break;
            case Instruction::Shl: bin(SHL); break;
            case Instruction::LShr: bin(LSHR); break;
            case Instruction::AShr: bin(ASHR); break;
            case Instruction::ICmp:
                in.k = K::ICMP; in.sub = cast<ICmpInst>(I).getPredicate(); in.w = widthOf(I.getOperand(0)->getType()->getScalarType(), *DL);
                in.ops = {opnd(I.getOperand(0)), opnd(I.getOperand(1))};
                break;
            case Instruction::Select: {
                in.k = K::SELECT;
                in.ops = {opnd(I.getOperand(0)), opnd(I.getOperand(1)), opnd(I.getOperand(2))};
                std::vector<Leaf> lv; flatten(T, lv); in.leaves = lv;
                in.sub = I.getOperand(0)->getType()->isVectorTy();
                break;
            }
            case Instruction::Load: {
                auto & L = cast<LoadInst>(I);
                in.k = K::LOAD; in.ops = {opnd(L.getPointerOperand())}; flatten(T, in.leaves);
                in.atomic = L.isAtomic(); in.refcnt = in.atomic && isRefcount(I); in.sub = L.isAtomic() ? (unsigned)L.getOrdering() : 0;
                break;
            }
            case Instruction::Store: {
                auto & S = cast<StoreInst>(I);
                in.k = K::STORE; in.ops = {opnd(S.getPointerOperand()), opnd(S.getValueOperand())}; flatten(S.getValueOperand()->getType(), in.leaves);
                in.atomic = S.isAtomic(); in.refcnt = in.atomic && isRefcount(I); in.sub = S.isAtomic() ? (unsigned)S.getOrdering() : 0;
                break;
            }
            case Instruction::GetElementPtr: {
                if (T->isVectorTy()) break;
                in.k = K::GEP; in.ops = {opnd(I.getOperand(0))};
                for (auto gi = gep_type_begin(I), ge = gep_type_end(I); gi != ge; ++gi) {
                    Value * idx = gi.getOperand();
                    if (StructType * st = gi.getStructTypeOrNull()) in.off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
                    else {
                        int64_t sc = DL->getTypeAllocSize(gi.getIndexedType());
                        if (auto * ci = dyn_cast<ConstantInt>(idx)) in.off += sc * ci->getSExtValue();
                        else in.gep.push_back({opnd(idx), widthOf(idx->getType(), *DL), sc});
                    }
                }
                break;
            }
            case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc:
                in.k = I.getOpcode() == Instruction::ZExt ? K::ZEXT : I.getOpcode() == Instruction::SExt ? K::SEXT : K::TRUNC;
                in.w = widthOf(I.getOperand(0)->getType()->getScalarType(), *DL); in.w2 = widthOf(ST, *DL);
                in.ops = {opnd(I.getOperand(0))};
                break;
            case Instruction::PtrToInt: case Instruction::IntToPtr:
                in.w = widthOf(I.getOperand(0)->getType()->getScalarType(), *DL); in.w2 = widthOf(ST, *DL);
                in.k = in.w == in.w2 ? K::COPY : in.w < in.w2 ? K::ZEXT : K::TRUNC;
                in.ops = {opnd(I.getOperand(0))};
                break;
            case Instruction::BitCast: case Instruction::AddrSpaceCast:
                if (nslots(I.getOperand(0)->getType()) == in.n) { in.k = K::COPY; in.ops = {opnd(I.getOperand(0))}; }
                break;
            case Instruction::Freeze: in.k = K::COPY; in.ops = {opnd(I.getOperand(0))}; break;
            case Instruction::ExtractValue: {
                auto & V = cast<ExtractValueInst>(I);
                Type * t = V.getAggregateOperand()->getType(); int idx = 0;
                for (unsigned i : V.indices()) {
                    if (auto * st = dyn_cast<StructType>(t)) { for (unsigned j = 0; j < i; ++j) idx += nslots(st->getElementType(j)); t = st->getElementType(i); }
                    else { t = cast<ArrayType>(t)->getElementType(); idx += i * nslots(t); }
                }
                in.k = K::COPY; in.ops = {at(opnd(V.getAggregateOperand()), idx)};
                break;
            }
            case Instruction::InsertValue: {
                auto & V = cast<InsertValueInst>(I);
                Type * t = T; int idx = 0;
                for (unsigned i : V.indices()) {
                    if (auto * st = dyn_cast<StructType>(t)) { for (unsigned j = 0; j < i; ++j) idx += nslots(st->getElementType(j)); t = st->getElementType(i); }
                    else { t = cast<ArrayType>(t)->getElementType(); idx += i * nslots(t); }
                }
                in.k = K::MULTI;
                int32_t a = opnd(V.getAggregateOperand()), b = opnd(V.getInsertedValueOperand());
                int m = nslots(t);
                for (int i = 0; i < (int)in.n; ++i) in.ops.push_back(i >= idx && i < idx + m ? at(b, i - idx) : at(a, i));
                break;
            }
            case Instruction::ExtractElement:
                if (auto * ci = dyn_cast<ConstantInt>(I.getOperand(1))) { in.k = K::COPY; in.ops = {at(opnd(I.getOperand(0)), ci->getZExtValue())}; }
                break;
            case Instruction::InsertElement:
                if (auto * ci = dyn_cast<ConstantInt>(I.getOperand(2))) {
                    in.k = K::MULTI; int32_t a = opnd(I.getOperand(0)), b = opnd(I.getOperand(1));
                    for (int i = 0; i < (int)in.n; ++i) in.ops.push_back(i == (int)ci->getZExtValue() ? b : at(a, i));
                }
                break;
            case Instruction::ShuffleVector: {
                auto & S = cast<ShuffleVectorInst>(I);
                in.k = K::MULTI; int32_t a = opnd(I.getOperand(0)), b = opnd(I.getOperand(1));
                int m = nslots(I.getOperand(0)->getType());
                for (int i = 0; i < (int)in.n; ++i) { int k = S.getMaskValue(i); in.ops.push_back(k < 0 ? konstOp(Val(0)) : k < m ? at(a, k) : at(b, k - m)); }
                break;
            }
            case Instruction::Br: {
                auto & Br = cast<BranchInst>(I);
                if (Br.isConditional()) { in.k = K::CONDBR; in.ops = {opnd(Br.getCondition())}; in.e1 = edge(&B, Br.getSuccessor(0)); in.e2 = edge(&B, Br.getSuccessor(1)); }
                else { in.k = K::JMP; in.e1 = edge(&B, Br.getSuccessor(0)); }
                break;
            }
            case Instruction::Switch: {
                auto & S = cast<SwitchInst>(I);
                in.k = K::SWITCH; in.ops = {opnd(S.getCondition())}; in.w = widthOf(S.getCondition()->getType(), *DL);
                for (auto & c : S.cases()) in.cases.push_back({c.getCaseValue()->getZExtValue(), edge(&B, c.getCaseSuccessor())});
                std::sort(in.cases.begin(), in.cases.end());
                in.e1 = edge(&B, S.getDefaultDest());
                break;
            }
            case Instruction::Ret:
                in.k = K::RET;
                if (I.getNumOperands()) { int32_t o = opnd(I.getOperand(0)); in.n = nslots(I.getOperand(0)->getType()); for (uint32_t i = 0; i < in.n; ++i) in.ops.push_back(at(o, i)); } else in.n = 0;
                break;
            case Instruction::Unreachable: in.k = K::UNREACHABLE; break;
            case Instruction::Alloca: {
                auto & A = cast<AllocaInst>(I);
                in.k = K::ALLOCA; in.off = DL->getTypeAllocSize(A.getAllocatedType()); in.ops = {opnd(A.getArraySize())};
                break;
            }
            case Instruction::Fence: in.k = K::FENCE; break;
            case Instruction::AtomicCmpXchg: {
                auto & C = cast<AtomicCmpXchgInst>(I);
                in.refcnt = isRefcount(I);
                in.k = K::CMPXCHG; in.w = widthOf(C.getCompareOperand()->getType(), *DL);
                in.ops = {opnd(C.getPointerOperand()), opnd(C.getCompareOperand()), opnd(C.getNewValOperand())};
                break;
            }
            case Instruction::AtomicRMW: {
                auto & R = cast<AtomicRMWInst>(I);
                in.refcnt = isRefcount(I);
                in.k = K::RMW; in.w = widthOf(T, *DL); in.sub = R.getOperation();
                in.ops = {opnd(R.getPointerOperand()), opnd(R.getValOperand())};
                break;
            }
            case Instruction::LandingPad: in.k = K::LANDINGPAD; break;
            case Instruction::Resume: in.k = K::RESUME; in.ops = {opnd(I.getOperand(0))}; break;
            case Instruction::Call: case Instruction::Invoke: {
                auto & C = cast<CallBase>(I);
                in.k = K::CALL;
                if (C.isInlineAsm()) { in.k = K::UNSUP; break; }
                Value * cv = C.getCalledOperand()->stripPointerCasts();
                if (auto * ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliasee()->stripPointerCasts();
                if (auto * cf = dyn_cast<Function>(cv)) in.callee = funcs.at(cf);
                else { in.callee = nullptr; in.off = opnd(C.getCalledOperand()); }
                for (auto & a : C.args()) {
                    if (a->getType()->isMetadataTy()) { in.ops.push_back(konstOp(Val(0))); in.lanes.push_back(64); continue; }
                    int32_t o = opnd(a);
                    std::vector<Leaf> lv; flatten(a->getType(), lv);
                    for (uint32_t i = 0; i < lv.size(); ++i) { in.ops.push_back(at(o, i)); in.lanes.push_back(lv[i].w); }
                }
                if (in.n) { std::vector<Leaf> lv; flatten(T, lv); in.w2 = lv[0].w; in.leaves = lv; }
                in.e1 = in.e2 = ~0u;
                if (auto * iv = dyn_cast<InvokeInst>(&I)) { in.e1 = edge(&B, iv->getNormalDest()); in.e2 = edge(&B, iv->getUnwindDest()); }
                break;
            }
            case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FCmp:
            case Instruction::UIToFP: case Instruction::SIToFP: case Instruction::FPToUI: case Instruction::FPToSI: case Instruction::FPExt: case Instruction::FPTrunc: case Instruction::FNeg:
                in.k = K::FP; in.w = widthOf(I.getOperand(0)->getType(), *DL); in.w2 = widthOf(T, *DL);
                for (auto & o : I.operands()) in.ops.push_back(opnd(o));
                break;
            default: break;
            }
            f->code.push_back(std::move(in));
        }
    }
}

// clang takes the address of some thread-local variables (guards) without the intrinsic
static void explicitThreadLocals(Module & M) {
    for (auto & g : M.globals()) {
        if (!g.isThreadLocal()) continue;
        Constant * c = &g;
        convertUsersOfConstantsToInstructions(c);
        std::vector<Use *> us;
        for (auto & u : g.uses()) {
            auto * i = dyn_cast<Instruction>(u.getUser());
            auto * ii = dyn_cast_or_null<IntrinsicInst>(i);
            if (i && !(ii && ii->getIntrinsicID() == Intrinsic::threadlocal_address)) us.push_back(&u);
        }
        for (Use * u : us) {
            auto * i = cast<Instruction>(u->getUser());
            if (auto * p = dyn_cast<PHINode>(i)) i = p->getIncomingBlock(*u)->getTerminator();
            IRBuilder<> b(i);
            u->set(b.CreateThreadLocalAddress(&g));
        }
    }
}

void Engine::initGlobals(State & s) {
    explicitThreadLocals(*M);
    for (auto & g : M->globals()) {
        uint64_t size = g.getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(g.getValueType()) : 8;
        bool ext = g.isDeclaration();
        uint32_t id = newObject(s, ext ? std::max<uint64_t>(size, 512) : size, 0, true, nullptr);
        wobj(s, id).name = g.getName().data();
        globals[&g] = id;
        if (g.isThreadLocal()) tlsGlobals[id] = &g;
    }
    std::function<void(Object &, const Constant *, uint32_t)> put = [&](Object & o, const Constant * c, uint32_t off) {
        if (c->isNullValue() || isa<UndefValue>(c)) return;
        if (auto * cds = dyn_cast<ConstantDataSequential>(c)) {
            StringRef r = cds->getRawDataValues();
            memcpy(o.b.data() + off, r.data(), r.size());
            return;
        }
        Type * t = c->getType();
        if (auto * st = dyn_cast<StructType>(t)) {
            auto * sl = DL->getStructLayout(st);
            for (unsigned i = 0; i < st->getNumElements(); ++i) put(o, c->getAggregateElement(i), off + (uint32_t)sl->getElementOffset(i));
            return;
        }
        if (auto * at = dyn_cast<ArrayType>(t)) {
            uint32_t es = DL->getTypeAllocSize(at->getElementType());
            for (unsigned i = 0; i < at->getNumElements(); ++i) put(o, c->getAggregateElement(i), off + i * es);
            return;
        }
        if (auto * vt = dyn_cast<FixedVectorType>(t)) {
            uint32_t es = DL->getTypeAllocSize(vt->getElementType());
            for (unsigned i = 0; i < vt->getNumElements(); ++i) put(o, c->getAggregateElement(i), off + i * es);
            return;
        }
        Val v = constScalar(c);
        APInt a = v.e ? v.e->ap() : APInt(64, v.c);
        uint64_t n = DL->getTypeStoreSize(t);
        for (uint64_t i = 0; i < n; ++i) o.b[off + i] = i * 8 < a.getBitWidth() ? (uint8_t)a.extractBitsAsZExtValue(std::min<unsigned>(8, a.getBitWidth() - i * 8), i * 8) : 0;
    };
    for (auto & g : M->globals()) {
        if (g.isDeclaration()) { // the standard streams are somewhere
            if (g.getName() == "stderr" || g.getName() == "stdout" || g.getName() == "stdin") { uint64_t p = objAddr(globals[&g]) + 256; memcpy(wobj(s, globals[&g]).b.data(), &p, 8); }
            continue;
        }
        Object & o = wobj(s, globals[&g]);
        if (g.hasInitializer()) put(o, g.getInitializer(), 0);
        o.ro = g.isConstant();
    }
}
