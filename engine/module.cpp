#include "module.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/Demangle/Demangle.h>
#include <cstring>
using namespace llvm;

void Mod::load(LLVMContext &ctx, const std::string &path) {
    SMDiagnostic err; M = parseIRFile(path, err, ctx);
    if (!M) { fprintf(stderr, "engine: cannot read %s: %s\n", path.c_str(), err.getMessage().str().c_str()); exit(2); }
    DL = &M->getDataLayout();
    uint64_t id = 1;
    for (auto &F : *M) {
        Fn *f = new Fn(); f->F = &F; f->name = F.getName().str(); f->dname = demangle(f->name); f->addr = (id++) << 20; f->nounwind = F.doesNotThrow();
        int ov = builtinOverride(f->name);
        if (ov >= 0) f->builtin = ov; else if (F.isDeclaration()) f->builtin = builtinId(f->name);
        if (auto *sp = F.getSubprogram()) { if (auto *fl = sp->getFile()) { std::string p = fl->getFilename().str(); if (!p.empty() && p[0] != '/') p = fl->getDirectory().str() + "/" + p; f->file = p; if (p.compare(0, repoPrefix.size(), repoPrefix) == 0) f->repo = true; } }
        addrOf[&F] = f->addr; fnAt[f->addr] = f; fnByName[f->name] = f; fns.push_back(f);
    }
    for (auto &g : M->globals()) {
        if (g.getName() == "llvm.global_ctors" || g.getName() == "llvm.global_dtors" || g.getName() == "llvm.used" || g.getName() == "llvm.compiler.used") continue;
        uint64_t sz = g.hasInitializer() ? DL->getTypeAllocSize(g.getValueType()).getFixedValue() : std::max<uint64_t>(512, g.getValueType()->isSized() ? DL->getTypeAllocSize(g.getValueType()).getFixedValue() : 0);
        uint64_t a = id << 20; id += 1 + (sz >> 20);
        addrOf[&g] = a; globalByName[g.getName().str()] = a; globals.push_back({&g, a, sz, g.isConstant() && g.hasInitializer()});
    }
    for (auto &al : M->aliases()) { const Value *v = al.getAliasee()->stripPointerCasts(); addrOf[&al] = addrOf.at(v); if (isa<Function>(v)) fnByName[al.getName().str()] = fnAt[addrOf[v]]; else globalByName[al.getName().str()]=addrOf[v]; }
}
uint32_t Mod::loc(const Instruction *I) {
    const DILocation *d = I->getDebugLoc(); if (!d) return 0;
    auto k = std::make_pair(d->getFilename().str(), d->getLine()); auto it = locIdx.find(k);
    if (it == locIdx.end()) { if (locs.empty()) locs.push_back({"", 0}); it = locIdx.emplace(k, (uint32_t)locs.size()).first; locs.push_back(k); }
    return it->second;
}
bool Mod::isQuiet(const Instruction *I) const { const DILocation *d = I->getDebugLoc(); return d && !quiet.empty() && d->getFilename().contains(quiet); }
void Mod::leaves(Type *t, std::vector<Leaf> &out, uint64_t base) {
    if (t->isVoidTy()) return;
    if (auto *s = dyn_cast<StructType>(t)) { auto *sl = DL->getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); i++) leaves(s->getElementType(i), out, base + sl->getElementOffset(i).getFixedValue()); return; }
    if (auto *a = dyn_cast<ArrayType>(t)) { uint64_t es = DL->getTypeAllocSize(a->getElementType()).getFixedValue(); for (uint64_t i = 0; i < a->getNumElements(); i++) leaves(a->getElementType(), out, base + i * es); return; }
    if (auto *v = dyn_cast<FixedVectorType>(t)) { uint64_t es = DL->getTypeStoreSize(v->getElementType()).getFixedValue(); for (unsigned i = 0; i < v->getNumElements(); i++) leaves(v->getElementType(), out, base + i * es); return; }
    if (t->isPointerTy()) { out.push_back({base, 64}); return; }
    if (t->isFloatTy()) { out.push_back({base, 32}); return; }
    if (t->isDoubleTy()) { out.push_back({base, 64}); return; }
    if (t->isIntegerTy()) { unsigned w = t->getIntegerBitWidth(); if (w <= 64) { out.push_back({base, (uint8_t)w}); return; } if (w == 128) { out.push_back({base, 64}); out.push_back({base + 8, 64}); return; } }
    if (t->isX86_FP80Ty()) { out.push_back({base, 64}); out.push_back({base+8, 16}); return; }
    std::string s; raw_string_ostream os(s); t->print(os); throw std::string("unsupported type " + os.str());
}
uint64_t Mod::constInt(const Constant *c) { std::vector<Val> v; constLeaves(c, v); return v.at(0).c; }
void Mod::constLeaves(const Constant *c, std::vector<Val> &out) {
    if (auto *ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() == 128) { out.push_back(cv(ci->getValue().extractBitsAsZExtValue(64, 0))); out.push_back(cv(ci->getValue().extractBitsAsZExtValue(64, 64))); } else out.push_back(cv(ci->getZExtValue())); return; }
    if (auto *cf = dyn_cast<ConstantFP>(c)) { if (cf->getType()->isX86_FP80Ty()){ APInt b=cf->getValueAPF().bitcastToAPInt(); out.push_back(cv(b.extractBitsAsZExtValue(64,0))); out.push_back(cv(b.extractBitsAsZExtValue(16,64))); } else out.push_back(cv(cf->getValueAPF().bitcastToAPInt().getZExtValue())); return; }
    if (isa<ConstantPointerNull>(c)) { out.push_back(cv(0)); return; }
    if (isa<GlobalValue>(c)) { out.push_back(cv(addrOf.at(c))); return; }
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) { std::vector<Leaf> l; leaves(c->getType(), l); for (size_t i = 0; i < l.size(); i++) out.push_back(cv(0)); return; }
    if (auto *ca = dyn_cast<ConstantAggregate>(c)) { for (unsigned i = 0; i < ca->getNumOperands(); i++) constLeaves(ca->getOperand(i), out); return; }
    if (auto *cd = dyn_cast<ConstantDataSequential>(c)) { for (unsigned i = 0; i < cd->getNumElements(); i++) constLeaves(cd->getElementAsConstant(i), out); return; }
    if (auto *ce = dyn_cast<ConstantExpr>(c)) {
        switch (ce->getOpcode()) {
        case Instruction::GetElementPtr: { APInt off(64, 0); if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) throw std::string("const gep"); out.push_back(cv(constInt(ce->getOperand(0)) + off.getZExtValue())); return; }
        case Instruction::PtrToInt: case Instruction::Trunc: out.push_back(cv(constInt(ce->getOperand(0)) & maskw(ce->getType()->getIntegerBitWidth()))); return;
        case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast: out.push_back(cv(constInt(ce->getOperand(0)))); return;
        case Instruction::Add: out.push_back(cv((constInt(ce->getOperand(0)) + constInt(ce->getOperand(1))) & maskw(ce->getType()->getIntegerBitWidth()))); return;
        case Instruction::Sub: out.push_back(cv((constInt(ce->getOperand(0)) - constInt(ce->getOperand(1))) & maskw(ce->getType()->getIntegerBitWidth()))); return;
        case Instruction::ICmp: { uint64_t a=constInt(ce->getOperand(0)),b=constInt(ce->getOperand(1)); bool r; switch(ce->getPredicate()){ case CmpInst::ICMP_EQ: r=a==b; break; case CmpInst::ICMP_NE: r=a!=b; break; case CmpInst::ICMP_ULT: r=a<b; break; case CmpInst::ICMP_UGT: r=a>b; break; default: throw std::string("const icmp"); } out.push_back(cv(r)); return; }
        default: break;
        }
    }
    std::string s; raw_string_ostream os(s); c->print(os); throw std::string("unsupported constant " + os.str());
}
void Mod::initMem(const Constant *c, uint8_t *buf, uint64_t off) {
    if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
    if (auto *cd = dyn_cast<ConstantDataSequential>(c)) { StringRef r = cd->getRawDataValues(); memcpy(buf + off, r.data(), r.size()); return; }
    if (auto *ca = dyn_cast<ConstantArray>(c)) { uint64_t es = DL->getTypeAllocSize(ca->getType()->getElementType()).getFixedValue(); for (unsigned i = 0; i < ca->getNumOperands(); i++) initMem(ca->getOperand(i), buf, off + i * es); return; }
    if (auto *cs = dyn_cast<ConstantStruct>(c)) { auto *sl = DL->getStructLayout(cs->getType()); for (unsigned i = 0; i < cs->getNumOperands(); i++) initMem(cs->getOperand(i), buf, off + sl->getElementOffset(i).getFixedValue()); return; }
    std::vector<Val> v; constLeaves(c, v); std::vector<Leaf> l; leaves(c->getType(), l);
    for (size_t i = 0; i < l.size(); i++) memcpy(buf + off + l[i].off, &v[i].c, (l[i].w + 7) / 8);
}

namespace {
struct Dec {
    Mod &m; Fn *f; std::unordered_map<const Value *, int32_t> slot; std::unordered_map<const Constant *, int32_t> cbase; uint32_t n = 0;
    std::unordered_map<const BasicBlock *, uint32_t> bbStart; std::vector<std::pair<uint32_t, const BasicBlock *>> edgeFix; uint32_t curLoc = 0;
    Dec(Mod &m, Fn *f) : m(m), f(f) {}
    unsigned nl(Type *t) { std::vector<Leaf> l; m.leaves(t, l); return (unsigned)l.size(); }
    int32_t reg(const Value *v) {
        if (auto *c = dyn_cast<Constant>(v)) {
            auto it = cbase.find(c); if (it != cbase.end()) return it->second;
            std::vector<Val> l; m.constLeaves(c, l); int32_t b = -(int32_t)f->consts.size() - 1; for (auto &x : l) f->consts.push_back(x);
            cbase[c] = b; return b; }
        if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) return -1;
        auto it = slot.find(v); if (it == slot.end()) throw std::string("no slot"); return it->second;
    }
    // i-th leaf of an operand
    int32_t leaf(int32_t b, unsigned i) { return b >= 0 ? b + (int32_t)i : b - (int32_t)i; }
    int32_t kreg(uint64_t v) { f->consts.push_back(cv(v)); return -(int32_t)f->consts.size(); }
    Inst &emit(Op op, unsigned w, int32_t dst, int32_t a = 0, int32_t b = 0, int32_t c = 0, uint64_t imm = 0) { Inst i; memset(&i, 0, sizeof i); i.op = op; i.w = (uint8_t)w; i.dst = dst; i.a = a; i.b = b; i.c = c; i.imm = imm; i.loc = curLoc; f->code.push_back(i); return f->code.back(); }
    uint32_t edge(const BasicBlock *from, const BasicBlock *to) {
        Edge e; e.target = 0;
        for (auto &phi : to->phis()) { const Value *v = phi.getIncomingValueForBlock(from); if (isa<UndefValue>(v)) continue; unsigned k = nl(phi.getType()); int32_t s = reg(v), d = slot[&phi]; for (unsigned i = 0; i < k; i++) if (leaf(s, i) != d + (int32_t)i) e.moves.push_back({d + (int32_t)i, leaf(s, i)}); }
        f->edges.push_back(e); uint32_t id = (uint32_t)f->edges.size() - 1; edgeFix.push_back({id, to}); return id;
    }
    unsigned width(Type *t) { std::vector<Leaf> l; m.leaves(t, l); return l.empty() ? 0 : l[0].w; }
    void err(const Instruction *I) { std::string s; raw_string_ostream os(s); I->print(os); Inst &i = emit(OP_ERR, 0, 0); i.p = new std::string(os.str()); }
    static unsigned aggIndex(Mod &m, Type *t, ArrayRef<unsigned> idx) {
        unsigned r = 0; for (unsigned i : idx) { if (auto *s = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < i; k++) { std::vector<Leaf> l; m.leaves(s->getElementType(k), l); r += l.size(); } t = s->getElementType(i); } else { Type *et = cast<ArrayType>(t)->getElementType(); std::vector<Leaf> l; m.leaves(et, l); r += l.size() * i; t = et; } } return r; }
    void gep(const GEPOperator *g, int32_t dst) {
        uint64_t off = 0; GepInfo *gi = nullptr;
        for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
            const Value *ix = it.getOperand();
            if (auto *st = it.getStructTypeOrNull()) { off += m.DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()).getFixedValue(); continue; }
            uint64_t sc = m.DL->getTypeAllocSize(it.getIndexedType()).getFixedValue();
            if (auto *ci = dyn_cast<ConstantInt>(ix)) off += sc * (uint64_t)ci->getSExtValue();
            else { if (!gi) gi = new GepInfo(); gi->t.push_back({reg(ix), sc, (uint8_t)ix->getType()->getIntegerBitWidth()}); }
        }
        Inst &i = emit(gi ? OP_GEPX : OP_GEP, 64, dst, reg(g->getPointerOperand()), 0, 0, off); i.p = gi;
    }
    void call(const CallBase *cb, const BasicBlock *bb) {
        int32_t dst = cb->getType()->isVoidTy() ? -1 : slot[cb];
        if (auto *ia = dyn_cast<InlineAsm>(cb->getCalledOperand())) { std::string s = ia->getAsmString(); if (s.empty() || s.find("pause") != std::string::npos || s.find("nop") != std::string::npos) { return; } err(cb); return; }
        const Function *cf = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCastsAndAliases());
        if (cf && cf->isIntrinsic()) { if (intrinsic(cb, cf, dst)) { finishInvoke(cb, bb); return; } }
        CallInfo *ci = new CallInfo(); ci->fn = nullptr; ci->target = -1; ci->normal = ci->unwind = -1;
        if (cf) ci->fn = m.fnAt.at(m.addrOf.at(cf)); else ci->target = reg(cb->getCalledOperand());
        for (unsigned i = 0; i < cb->arg_size(); i++) {
            const Value *a = cb->getArgOperand(i); if (a->getType()->isMetadataTy()) continue;
            std::vector<Leaf> l; m.leaves(a->getType(), l); int32_t r = reg(a);
            for (size_t k = 0; k < l.size(); k++) { ci->args.push_back(leaf(r, k)); ci->argw.push_back(l[k].w); ci->byval.push_back(0); }
            if (cb->isByValArgument(i)) ci->byval.back() = (uint32_t)m.DL->getTypeAllocSize(cb->getParamByValType(i)).getFixedValue();
        }
        if (auto *iv = dyn_cast<InvokeInst>(cb)) { ci->normal = (int32_t)edge(bb, iv->getNormalDest()); ci->unwind = (int32_t)edge(bb, iv->getUnwindDest()); }
        unsigned w = cb->getType()->isVoidTy() ? 0 : width(cb->getType());
        Inst &i = emit(OP_CALL, w, dst, 0, 0, 0, cb->getType()->isVoidTy() ? 0 : nl(cb->getType())); i.p = ci;
    }
    void finishInvoke(const CallBase *cb, const BasicBlock *bb) { if (auto *iv = dyn_cast<InvokeInst>(cb)) { uint32_t e = edge(bb, iv->getNormalDest()); emit(OP_BR, 0, 0, (int32_t)e); } }
    bool intrinsic(const CallBase *cb, const Function *cf, int32_t dst) {
        auto A = [&](unsigned i) { return reg(cb->getArgOperand(i)); };
        unsigned w = cb->getType()->isVoidTy() ? 0 : width(cb->getType());
        unsigned k = cb->getType()->isVoidTy() ? 0 : nl(cb->getType());
        switch (cf->getIntrinsicID()) {
        case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::dbg_value: case Intrinsic::dbg_declare: case Intrinsic::dbg_label: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch: case Intrinsic::invariant_end: case Intrinsic::donothing: case Intrinsic::var_annotation: case Intrinsic::stackrestore: case Intrinsic::pseudoprobe: return true;
        case Intrinsic::dbg_assign: return true;
        case Intrinsic::invariant_start: case Intrinsic::stacksave: emit(OP_MOV, 64, dst, kreg(0)); return true;
        case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ptr_annotation: case Intrinsic::annotation: case Intrinsic::ssa_copy:
            for (unsigned i = 0; i < k; i++) emit(OP_MOV, w, dst + i, leaf(A(0), i)); return true;
        case Intrinsic::is_constant: emit(OP_MOV, 1, dst, kreg(0)); return true;
        case Intrinsic::objectsize: emit(OP_MOV, w, dst, kreg(maskw(w))); return true;
        case Intrinsic::smax: case Intrinsic::smin: case Intrinsic::umax: case Intrinsic::umin:
            for (unsigned i = 0; i < k; i++) emit(OP_MINMAX, w, dst + i, leaf(A(0), i), leaf(A(1), i), 0, cf->getIntrinsicID() == Intrinsic::smax ? 0 : cf->getIntrinsicID() == Intrinsic::smin ? 1 : cf->getIntrinsicID() == Intrinsic::umax ? 2 : 3); return true;
        case Intrinsic::ctpop: emit(OP_BITOP, w, dst, A(0), 0, 0, 0); return true;
        case Intrinsic::ctlz: emit(OP_BITOP, w, dst, A(0), 0, 0, 1); return true;
        case Intrinsic::cttz: emit(OP_BITOP, w, dst, A(0), 0, 0, 2); return true;
        case Intrinsic::bswap: emit(OP_BITOP, w, dst, A(0), 0, 0, 3); return true;
        case Intrinsic::abs: emit(OP_BITOP, w, dst, A(0), 0, 0, 4); return true;
        case Intrinsic::uadd_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: {
            int o; switch (cf->getIntrinsicID()) { case Intrinsic::uadd_with_overflow: o = 0; break; case Intrinsic::sadd_with_overflow: o = 1; break; case Intrinsic::usub_with_overflow: o = 2; break; case Intrinsic::ssub_with_overflow: o = 3; break; case Intrinsic::umul_with_overflow: o = 4; break; default: o = 5; }
            emit(OP_OVF, w, dst, A(0), A(1), 0, o); return true; }
        case Intrinsic::uadd_sat: emit(OP_SAT, w, dst, A(0), A(1), 0, 0); return true;
        case Intrinsic::usub_sat: emit(OP_SAT, w, dst, A(0), A(1), 0, 1); return true;
        case Intrinsic::fshl: emit(OP_FSH, w, dst, A(0), A(1), A(2), 0); return true;
        case Intrinsic::fshr: emit(OP_FSH, w, dst, A(0), A(1), A(2), 1); return true;
        case Intrinsic::ceil: emit(OP_FUN1, w, dst, A(0), 0, 0, 0); return true;
        case Intrinsic::floor: emit(OP_FUN1, w, dst, A(0), 0, 0, 1); return true;
        case Intrinsic::fabs: emit(OP_FUN1, w, dst, A(0), 0, 0, 2); return true;
        case Intrinsic::trunc: emit(OP_FUN1, w, dst, A(0), 0, 0, 3); return true;
        case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::round: emit(OP_FUN1, w, dst, A(0), 0, 0, 4); return true;
        case Intrinsic::eh_typeid_for: emit(OP_TYPEID, 32, dst, A(0)); return true;
        case Intrinsic::ptrmask: emit(OP_AND, 64, dst, A(0), A(1)); return true;
        case Intrinsic::threadlocal_address: emit(OP_MOV, 64, dst, A(0)); return true;
        default: return false; // memcpy & co: builtin by name
        }
    }
    void run() {
        const Function &F = *f->F;
        for (auto &a : F.args()) { slot[&a] = (int32_t)n; n += nl(a.getType()); }
        f->nargs = n; f->retLeaves = nl(F.getReturnType());
        for (auto &bb : F) for (auto &I : bb) if (!I.getType()->isVoidTy() && !I.getType()->isTokenTy()) { slot[&I] = (int32_t)n; n += nl(I.getType()); }
        for (auto &bb : F) { bbStart[&bb] = (uint32_t)f->code.size(); for (auto &I : bb) { if (isa<PHINode>(I)) continue; curLoc = m.loc(&I); try { inst(&I, &bb); } catch (std::string &s) { err(&I); } } }
        f->nregs = n; for (auto &x : edgeFix) f->edges[x.first].target = bbStart[x.second]; f->hit.assign(f->code.size(), 0);
    }
    void inst(const Instruction *I, const BasicBlock *bb) {
        int32_t dst = I->getType()->isVoidTy() ? -1 : slot[I];
        Type *ty = I->getType();
        if (auto *bo = dyn_cast<BinaryOperator>(I)) {
            Type *st = ty->getScalarType(); int32_t a = reg(bo->getOperand(0)), b = reg(bo->getOperand(1));
            if (st->isFloatingPointTy()) { unsigned k = nl(ty); if(st->isX86_FP80Ty()) { err(I); return; } for (unsigned i = 0; i < k; i++) emit(OP_FBIN, width(st), dst + i, leaf(a, i), leaf(b, i), 0, bo->getOpcode()); return; }
            if (st->isIntegerTy(128)) { emit(OP_WIDE, 128, dst, a, b, 0, bo->getOpcode()); return; }
            Op op; switch (bo->getOpcode()) { case Instruction::Add: op = OP_ADD; break; case Instruction::Sub: op = OP_SUB; break; case Instruction::Mul: op = OP_MUL; break; case Instruction::UDiv: op = OP_UDIV; break; case Instruction::SDiv: op = OP_SDIV; break; case Instruction::URem: op = OP_UREM; break; case Instruction::SRem: op = OP_SREM; break; case Instruction::And: op = OP_AND; break; case Instruction::Or: op = OP_OR; break; case Instruction::Xor: op = OP_XOR; break; case Instruction::Shl: op = OP_SHL; break; case Instruction::LShr: op = OP_LSHR; break; default: op = OP_ASHR; }
            unsigned k = nl(ty), w = width(ty); for (unsigned i = 0; i < k; i++) emit(op, w, dst + i, leaf(a, i), leaf(b, i)); return;
        }
        switch (I->getOpcode()) {
        case Instruction::FNeg: emit(OP_FUN1, width(ty), dst, reg(I->getOperand(0)), 0, 0, 5); return;
        case Instruction::ICmp: { auto *ic = cast<ICmpInst>(I); Type *ot = ic->getOperand(0)->getType(); int32_t a = reg(ic->getOperand(0)), b = reg(ic->getOperand(1));
            if (ot->isIntegerTy(128)) { emit(OP_WIDE, 1, dst, a, b, 0, 1000 + ic->getPredicate()); return; }
            Op op; switch (ic->getPredicate()) { case CmpInst::ICMP_EQ: op = OP_EQ; break; case CmpInst::ICMP_NE: op = OP_NE; break; case CmpInst::ICMP_ULT: op = OP_ULT; break; case CmpInst::ICMP_ULE: op = OP_ULE; break; case CmpInst::ICMP_UGT: op = OP_UGT; break; case CmpInst::ICMP_UGE: op = OP_UGE; break; case CmpInst::ICMP_SLT: op = OP_SLT; break; case CmpInst::ICMP_SLE: op = OP_SLE; break; case CmpInst::ICMP_SGT: op = OP_SGT; break; default: op = OP_SGE; }
            unsigned k = nl(ty), w = width(ot); for (unsigned i = 0; i < k; i++) emit(op, w, dst + i, leaf(a, i), leaf(b, i)); return; }
        case Instruction::FCmp: { auto *fc = cast<FCmpInst>(I); emit(OP_FCMP, width(fc->getOperand(0)->getType()), dst, reg(fc->getOperand(0)), reg(fc->getOperand(1)), 0, fc->getPredicate()); return; }
        case Instruction::Select: { auto *s = cast<SelectInst>(I); int32_t c = reg(s->getCondition()), a = reg(s->getTrueValue()), b = reg(s->getFalseValue()); std::vector<Leaf> l; m.leaves(ty, l); bool vc = s->getCondition()->getType()->isVectorTy();
            for (unsigned i = 0; i < l.size(); i++) emit(OP_SELECT, l[i].w, dst + i, leaf(a, i), leaf(b, i), vc ? leaf(c, i) : c); return; }
        case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: {
            Type *st = I->getOperand(0)->getType(); int32_t a = reg(I->getOperand(0)); unsigned k = nl(ty);
            if (ty->isIntegerTy(128)) { unsigned sw = width(st); if (I->getOpcode() == Instruction::ZExt) { emit(OP_ZEXT, 64, dst, a).w2 = sw; emit(OP_MOV, 64, dst + 1, kreg(0)); } else { emit(OP_SEXT, 64, dst, a).w2 = sw; emit(OP_ASHR, 64, dst + 1, dst, kreg(63)); } return; }
            if (st->isIntegerTy(128)) { emit(OP_TRUNC, width(ty), dst, a).w2 = 64; return; }
            Op op = I->getOpcode() == Instruction::ZExt ? OP_ZEXT : I->getOpcode() == Instruction::SExt ? OP_SEXT : OP_TRUNC; unsigned sw = width(st), w = width(ty);
            for (unsigned i = 0; i < k; i++) emit(op, w, dst + i, leaf(a, i)).w2 = sw; return; }
        case Instruction::PtrToInt: { int32_t a = reg(I->getOperand(0)); unsigned w = width(ty); if (w < 64) emit(OP_TRUNC, w, dst, a).w2 = 64; else emit(OP_MOV, 64, dst, a); return; }
        case Instruction::IntToPtr: { int32_t a = reg(I->getOperand(0)); unsigned w = width(I->getOperand(0)->getType()); if (w < 64) emit(OP_ZEXT, 64, dst, a).w2 = w; else emit(OP_MOV, 64, dst, a); return; }
        case Instruction::BitCast: case Instruction::Freeze: case Instruction::AddrSpaceCast: { std::vector<Leaf> l, l2; m.leaves(ty, l); m.leaves(I->getOperand(0)->getType(), l2); int32_t a = reg(I->getOperand(0));
            if (l.size() == l2.size()) { for (unsigned i = 0; i < l.size(); i++) emit(OP_MOV, l[i].w, dst + i, leaf(a, i)); return; }
            // vector <-> integer reinterpretation through shifts
            if (l.size() == 1 && l2.size() > 1 && l[0].w <= 64) { unsigned sw = l2[0].w; int32_t acc = (int32_t)n++; emit(OP_ZEXT, l[0].w, acc, leaf(a, 0)).w2 = sw; for (unsigned i = 1; i < l2.size(); i++) { int32_t t = (int32_t)n++, t2 = (int32_t)n++, t3 = (int32_t)n++; emit(OP_ZEXT, l[0].w, t, leaf(a, i)).w2 = sw; emit(OP_SHL, l[0].w, t2, t, kreg(i * sw)); emit(OP_OR, l[0].w, t3, acc, t2); acc = t3; } emit(OP_MOV, l[0].w, dst, acc); return; }
            if (l2.size() == 1 && l.size() > 1 && l2[0].w <= 64) { for (unsigned i = 0; i < l.size(); i++) { int32_t t = (int32_t)n++; emit(OP_LSHR, l2[0].w, t, a, kreg(i * l[0].w)); emit(OP_TRUNC, l[0].w, dst + i, t).w2 = l2[0].w; } return; }
            err(I); return; }
        case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::FPExt: case Instruction::FPTrunc: { if(ty->isX86_FP80Ty()||I->getOperand(0)->getType()->isX86_FP80Ty()||ty->isVectorTy()){ err(I); return; } emit(OP_FCAST, width(ty), dst, reg(I->getOperand(0)), 0, 0, I->getOpcode()).w2 = width(I->getOperand(0)->getType()); return; }
        case Instruction::GetElementPtr: gep(cast<GEPOperator>(I), dst); return;
        case Instruction::Load: { auto *l = cast<LoadInst>(I); std::vector<Leaf> lv; m.leaves(ty, lv); int32_t p = reg(l->getPointerOperand()); for (unsigned i = 0; i < lv.size(); i++) { Inst &x = emit(OP_LOAD, lv[i].w, dst + i, p, 0, 0, lv[i].off); x.w2 = (uint8_t)l->getOrdering(); x.b = l->isVolatile(); } return; }
        case Instruction::Store: { auto *s = cast<StoreInst>(I); std::vector<Leaf> lv; m.leaves(s->getValueOperand()->getType(), lv); int32_t v = reg(s->getValueOperand()), p = reg(s->getPointerOperand()); for (unsigned i = 0; i < lv.size(); i++) { Inst &x = emit(OP_STORE, lv[i].w, -1, leaf(v, i), p, 0, lv[i].off); x.w2 = (uint8_t)s->getOrdering(); x.c = s->isVolatile(); } return; }
        case Instruction::Alloca: { auto *a = cast<AllocaInst>(I); uint64_t sz = m.DL->getTypeAllocSize(a->getAllocatedType()).getFixedValue(); Inst &x = emit(OP_ALLOCA, 64, dst, reg(a->getArraySize()), 0, 0, sz); (void)x; return; }
        case Instruction::Br: { auto *b = cast<BranchInst>(I); if (b->isUnconditional()) { uint32_t e = edge(bb, b->getSuccessor(0)); emit(OP_BR, 0, 0, (int32_t)e); } else { int32_t c = reg(b->getCondition()); uint32_t e1 = edge(bb, b->getSuccessor(0)), e2 = edge(bb, b->getSuccessor(1)); emit(OP_CBR, 1, 0, (int32_t)e1, (int32_t)e2, c); } return; }
        case Instruction::Switch: { auto *s = cast<SwitchInst>(I); auto *si = new SwitchInfo(); for (auto &c : s->cases()) si->cases.push_back({c.getCaseValue()->getZExtValue(), edge(bb, c.getCaseSuccessor())}); si->def = edge(bb, s->getDefaultDest()); Inst &x = emit(OP_SWITCH, width(s->getCondition()->getType()), 0, reg(s->getCondition())); x.p = si; return; }
        case Instruction::Ret: { auto *r = cast<ReturnInst>(I); if (r->getReturnValue()) emit(OP_RET, 0, 0, reg(r->getReturnValue()), 0, 0, nl(r->getReturnValue()->getType())); else emit(OP_RET, 0, 0, 0, 0, 0, 0); return; }
        case Instruction::Unreachable: emit(OP_UNREACHABLE, 0, 0); return;
        case Instruction::Call: case Instruction::Invoke: call(cast<CallBase>(I), bb); return;
        case Instruction::LandingPad: { auto *lp = cast<LandingPadInst>(I); auto *li = new LPInfo(); li->cleanup = lp->isCleanup(); for (unsigned i = 0; i < lp->getNumClauses(); i++) { if (lp->isCatch(i)) li->clauses.push_back({0, m.constInt(lp->getClause(i))}); else li->clauses.push_back({1, 0}); } Inst &x = emit(OP_LPAD, 0, dst); x.p = li; return; }
        case Instruction::Resume: emit(OP_RESUME, 0, 0, reg(I->getOperand(0))); return;
        case Instruction::ExtractValue: { auto *e = cast<ExtractValueInst>(I); unsigned ix = aggIndex(m, e->getAggregateOperand()->getType(), e->getIndices()); int32_t a = reg(e->getAggregateOperand()); std::vector<Leaf> l; m.leaves(ty, l); for (unsigned i = 0; i < l.size(); i++) emit(OP_MOV, l[i].w, dst + i, leaf(a, ix + i)); return; }
        case Instruction::InsertValue: { auto *e = cast<InsertValueInst>(I); unsigned ix = aggIndex(m, ty, e->getIndices()); int32_t a = reg(e->getAggregateOperand()), v = reg(e->getInsertedValueOperand()); unsigned k = nl(e->getInsertedValueOperand()->getType()); std::vector<Leaf> l; m.leaves(ty, l); for (unsigned i = 0; i < l.size(); i++) emit(OP_MOV, l[i].w, dst + i, i >= ix && i < ix + k ? leaf(v, i - ix) : leaf(a, i)); return; }
        case Instruction::ExtractElement: { auto *ci = dyn_cast<ConstantInt>(I->getOperand(1)); if (!ci) { err(I); return; } emit(OP_MOV, width(ty), dst, leaf(reg(I->getOperand(0)), ci->getZExtValue())); return; }
        case Instruction::InsertElement: { auto *ci = dyn_cast<ConstantInt>(I->getOperand(2)); if (!ci) { err(I); return; } unsigned k = nl(ty), w = width(ty); int32_t a = reg(I->getOperand(0)), v = reg(I->getOperand(1)); for (unsigned i = 0; i < k; i++) emit(OP_MOV, w, dst + i, i == ci->getZExtValue() ? v : leaf(a, i)); return; }
        case Instruction::ShuffleVector: { auto *s = cast<ShuffleVectorInst>(I); unsigned k = nl(ty), w = width(ty), na = nl(s->getOperand(0)->getType()); int32_t a = reg(s->getOperand(0)), b = reg(s->getOperand(1)); for (unsigned i = 0; i < k; i++) { int mi = s->getMaskValue(i); emit(OP_MOV, w, dst + i, mi < 0 ? kreg(0) : (unsigned)mi < na ? leaf(a, mi) : leaf(b, mi - na)); } return; }
        case Instruction::AtomicCmpXchg: { auto *c = cast<AtomicCmpXchgInst>(I); unsigned w = width(c->getCompareOperand()->getType()); if (nl(c->getCompareOperand()->getType()) != 1) { err(I); return; } emit(OP_CMPXCHG, w, dst, reg(c->getPointerOperand()), reg(c->getCompareOperand()), reg(c->getNewValOperand()), 0).w2 = (uint8_t)((unsigned)c->getSuccessOrdering() | (unsigned)c->getFailureOrdering() << 4); return; }
        case Instruction::AtomicRMW: { auto *r = cast<AtomicRMWInst>(I); emit(OP_RMW, width(ty), dst, reg(r->getPointerOperand()), reg(r->getValOperand()), m.isQuiet(I), r->getOperation()).w2 = (uint8_t)r->getOrdering(); return; }
        case Instruction::Fence: emit(OP_FENCE, 0, 0, 0, 0, 0, (uint64_t)cast<FenceInst>(I)->getOrdering()); return;
        default: err(I); return;
        }
    }
};
} // namespace
void Mod::decode(Fn *f) { f->decoded = true; if (f->F->isDeclaration()) return; Dec d(*this, f); d.run(); }
