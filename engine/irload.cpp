#include "ir.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <unordered_map>
using namespace llvm;

namespace {
struct Loader {
    ::Module& M;
    llvm::Module& L;
    const DataLayout& DL;
    DenseMap<const GlobalValue*, uint64_t> gaddr;
    DenseMap<const Function*, int> fidx;

    Loader(::Module& m, llvm::Module& l) : M(m), L(l), DL(l.getDataLayout()) {}

    static int slots(Type* t) {
        if (t->isVoidTy()) return 0;
        if (auto* s = dyn_cast<StructType>(t)) { int n = 0; for (Type* e : s->elements()) n += slots(e); return n; }
        if (auto* a = dyn_cast<ArrayType>(t)) return a->getNumElements() * slots(a->getElementType());
        return 1;
    }
    // flattened components: width in bits and byte offset
    void flat(Type* t, uint64_t off, std::vector<std::pair<unsigned, uint64_t>>& out) {
        if (auto* s = dyn_cast<StructType>(t)) { auto* sl = DL.getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); i++) flat(s->getElementType(i), off + sl->getElementOffset(i), out); return; }
        if (auto* a = dyn_cast<ArrayType>(t)) { uint64_t es = DL.getTypeAllocSize(a->getElementType()); for (uint64_t i = 0; i < a->getNumElements(); i++) flat(a->getElementType(), off + i * es, out); return; }
        if (t->isVoidTy()) return;
        out.push_back({width(t), off});
    }
    unsigned width(Type* t) {
        if (t->isPointerTy()) return 64;
        if (t->isIntegerTy()) return t->getIntegerBitWidth();
        if (t->isFloatTy()) return 32;
        if (t->isDoubleTy()) return 64;
        return 255; // unsupported
    }
    static int slotOffset(Type* t, ArrayRef<unsigned> idx) {
        int n = 0;
        for (unsigned i : idx) {
            if (auto* s = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < i; k++) n += slots(s->getElementType(k)); t = s->getElementType(i); }
            else { auto* a = cast<ArrayType>(t); n += i * slots(a->getElementType()); t = a->getElementType(); }
        }
        return n;
    }
    bool constVals(const Constant* c, std::vector<uint64_t>& out) {
        Type* t = c->getType();
        if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) { for (int i = 0; i < slots(t); i++) out.push_back(0); return true; }
        if (auto* i = dyn_cast<ConstantInt>(c)) { if (i->getBitWidth() > 64) return false; out.push_back(i->getZExtValue()); return true; }
        if (auto* f = dyn_cast<ConstantFP>(c)) { APInt b = f->getValueAPF().bitcastToAPInt(); if (b.getBitWidth() > 64) return false; out.push_back(b.getZExtValue()); return true; }
        if (isa<ConstantPointerNull>(c)) { out.push_back(0); return true; }
        if (auto* a = dyn_cast<GlobalAlias>(c)) return constVals(a->getAliasee(), out);
        if (auto* g = dyn_cast<GlobalValue>(c)) { auto it = gaddr.find(g); if (it == gaddr.end()) return false; out.push_back(it->second); return true; }
        if (isa<ConstantStruct>(c) || isa<ConstantArray>(c)) { for (auto& o : c->operands()) if (!constVals(cast<Constant>(o), out)) return false; return true; }
        if (auto* ds = dyn_cast<ConstantDataSequential>(c)) { for (unsigned i = 0; i < ds->getNumElements(); i++) if (!constVals(ds->getElementAsConstant(i), out)) return false; return true; }
        if (auto* ce = dyn_cast<ConstantExpr>(c)) {
            std::vector<uint64_t> v;
            switch (ce->getOpcode()) {
            case Instruction::GetElementPtr: {
                auto* gep = cast<GEPOperator>(ce);
                APInt off(64, 0);
                if (!gep->accumulateConstantOffset(DL, off)) return false;
                if (!constVals(cast<Constant>(gep->getPointerOperand()), v)) return false;
                out.push_back(v[0] + off.getSExtValue()); return true; }
            case Instruction::IntToPtr: case Instruction::PtrToInt: case Instruction::BitCast: case Instruction::AddrSpaceCast:
                if (!constVals(ce->getOperand(0), v)) return false;
                out.push_back(v[0] & maskw(width(ce->getType()))); return true;
            case Instruction::Trunc:
                if (!constVals(ce->getOperand(0), v)) return false;
                out.push_back(v[0] & maskw(width(ce->getType()))); return true;
            case Instruction::Sub: case Instruction::Add: case Instruction::Xor: {
                std::vector<uint64_t> u; if (!constVals(ce->getOperand(0), v) || !constVals(ce->getOperand(1), u)) return false;
                uint64_t r = ce->getOpcode() == Instruction::Sub ? v[0] - u[0] : ce->getOpcode() == Instruction::Add ? v[0] + u[0] : v[0] ^ u[0];
                out.push_back(r & maskw(width(ce->getType()))); return true; }
            default: return false;
            }
        }
        return false;
    }
    bool initBytes(const Constant* c, std::vector<uint8_t>& buf, uint64_t off) {
        Type* t = c->getType();
        if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c) || isa<ConstantPointerNull>(c)) return true;
        if (auto* s = dyn_cast<ConstantStruct>(c)) { auto* sl = DL.getStructLayout(s->getType()); for (unsigned i = 0; i < s->getNumOperands(); i++) if (!initBytes(s->getOperand(i), buf, off + sl->getElementOffset(i))) return false; return true; }
        if (auto* a = dyn_cast<ConstantArray>(c)) { uint64_t es = DL.getTypeAllocSize(a->getType()->getElementType()); for (unsigned i = 0; i < a->getNumOperands(); i++) if (!initBytes(a->getOperand(i), buf, off + i * es)) return false; return true; }
        if (auto* d = dyn_cast<ConstantDataSequential>(c)) { uint64_t es = DL.getTypeAllocSize(d->getElementType()); for (unsigned i = 0; i < d->getNumElements(); i++) if (!initBytes(d->getElementAsConstant(i), buf, off + i * es)) return false; return true; }
        std::vector<uint64_t> v;
        if (!constVals(c, v) || v.size() != 1) return false;
        uint64_t n = DL.getTypeStoreSize(t);
        for (uint64_t i = 0; i < n; i++) buf[off + i] = v[0] >> (8 * i);
        return true;
    }

    // ---- function bodies
    struct FB {
        Func& F; DenseMap<const Value*, int> reg; DenseMap<const BasicBlock*, int> bbpc;
        std::unordered_map<uint64_t, int> cidx; int next = 0;
        struct Fix { int edge; const BasicBlock* from; const BasicBlock* to; };
        std::vector<Fix> fixes;
        FB(Func& f) : F(f) {}
        int cnst(uint64_t v) { auto it = cidx.find(v); if (it != cidx.end()) return ~it->second; int i = F.consts.size(); F.consts.push_back(v); cidx[v] = i; return ~i; }
        int edge(const BasicBlock* from, const BasicBlock* to) { int e = F.edges.size(); F.edges.push_back({}); fixes.push_back({e, from, to}); return e; }
    };
    bool operands(FB& fb, const Value* v, std::vector<int>& out) {
        if (auto* c = dyn_cast<Constant>(v)) { std::vector<uint64_t> vs; if (!constVals(c, vs)) return false; for (auto x : vs) out.push_back(fb.cnst(x)); return true; }
        auto it = fb.reg.find(v); if (it == fb.reg.end()) return false;
        for (int i = 0; i < slots(v->getType()); i++) out.push_back(it->second + i);
        return true;
    }
    int op1(FB& fb, const Value* v, bool& ok) { std::vector<int> o; if (!operands(fb, v, o) || o.size() != 1) { ok = false; return 0; } return o[0]; }

    void body(const Function& fn, Func& F) {
        FB fb(F);
        for (auto& a : fn.args()) { fb.reg[&a] = fb.next; std::vector<std::pair<unsigned, uint64_t>> fl; flat(a.getType(), 0, fl); fb.next += fl.size(); for (auto& x : fl) F.argw.push_back(x.first); }
        F.nargs = fb.next;
        for (auto& bb : fn) for (auto& i : bb) { int n = slots(i.getType()); if (n) { fb.reg[&i] = fb.next; fb.next += n; } }
        for (auto& bb : fn) {
            fb.bbpc[&bb] = F.code.size();
            for (auto& i : bb) if (!isa<PHINode>(i)) emit(fb, F, i);
        }
        for (auto& fx : fb.fixes) {
            Edge& e = F.edges[fx.edge];
            e.pc = fb.bbpc[fx.to];
            for (auto& phi : fx.to->phis()) {
                std::vector<int> src;
                if (!operands(fb, phi.getIncomingValueForBlock(fx.from), src)) { unsupported(F, "phi operand"); continue; }
                int d = fb.reg[&phi];
                for (size_t k = 0; k < src.size(); k++) e.copies.push_back({d + (int)k, src[k]});
            }
        }
        F.nregs = fb.next;
        F.defined = true;
        if (auto* sp = fn.getSubprogram()) if (sp->getFile()) { F.file = sp->getFile()->getFilename().str(); if (!F.file.empty() && F.file[0] != '/') F.file = sp->getFile()->getDirectory().str() + "/" + F.file; }
    }
    void unsupported(Func& F, const std::string& s) {
        ::Inst n{}; n.op = O_UNSUPPORTED; n.imm = F.unsupported.size(); F.unsupported.push_back(s); F.code.push_back(n);
    }
    static std::string str(const Instruction& i) { std::string s; raw_string_ostream o(s); i.print(o); return s; }

    void emit(FB& fb, Func& F, const Instruction& I) {
        bool ok = true;
        size_t start = F.code.size();
        uint32_t line = I.getDebugLoc() ? I.getDebugLoc().getLine() : 0;
        auto push = [&](Op op, int sub, unsigned w, int dst, int a, int b = 0, int c = 0, int64_t imm = 0, unsigned w2 = 0, int flag = 0) {
            if (w > 64 || w2 > 64) ok = false;
            ::Inst n{}; n.op = op; n.sub = sub; n.w = w; n.w2 = w2; n.flag = flag; n.dst = dst; n.a = a; n.b = b; n.c = c; n.imm = imm; n.line = line; F.code.push_back(n);
        };
        auto R = [&](const Value* v) { return fb.reg[v]; };
        auto O = [&](const Value* v) { return op1(fb, v, ok); };
        Type* T = I.getType();
        auto W = [&](const Value* v) { return width(v->getType()); };
        switch (I.getOpcode()) {
        case Instruction::Add: push(O_BIN, K_ADD, W(&I), R(&I), O(I.getOperand(0)), O(I.getOperand(1))); break;
        case Instruction::Sub: push(O_BIN, K_SUB, W(&I), R(&I), O(I.getOperand(0)), O(I.getOperand(1))); break;
        case Instruction::Mul: push(O_BIN, K_MUL, W(&I), R(&I), O(I.getOperand(0)), O(I.getOperand(1))); break;
        case Instruction::UDiv: push(O_BIN, K_UDIV, W(&I), R(&I), O(I.getOperand(0)), O(I.getOperand(1))); break;
        case Instruction::SDiv: push(O_BIN, K_SDIV, W(&I), R(&I), O(I.getOperand(0)), O(I.getOperand(1))); break;
        case Instruction::URem: push(O_BIN, K_UREM, W(&I), R(&I), O(I.getOperand(0)), O(I.getOperand(1))); break;
        case Instruction::SRem: push(O_BIN, K_SREM, W(&I), R(&I), O(I.getOperand(0)), O(I.getOperand(1))); break;
        case Instruction::And: push(O_BIN, K_AND, W(&I), R(&I), O(I.getOperand(0)), O(I.getOperand(1))); break;
        case Instruction::Or: push(O_BIN, K_OR, W(&I), R(&I), O(I.getOperand(0)), O(I.getOperand(1))); break;
        case Instruction::Xor: push(O_BIN, K_XOR, W(&I), R(&I), O(I.getOperand(0)), O(I.getOperand(1))); break;
        case Instruction::Shl: push(O_BIN, K_SHL, W(&I), R(&I), O(I.getOperand(0)), O(I.getOperand(1))); break;
        case Instruction::LShr: push(O_BIN, K_LSHR, W(&I), R(&I), O(I.getOperand(0)), O(I.getOperand(1))); break;
        case Instruction::AShr: push(O_BIN, K_ASHR, W(&I), R(&I), O(I.getOperand(0)), O(I.getOperand(1))); break;
        case Instruction::ICmp: {
            auto& c = cast<ICmpInst>(I);
            int a = O(I.getOperand(0)), b = O(I.getOperand(1)), k = K_EQ, neg = 0;
            switch (c.getPredicate()) {
            case CmpInst::ICMP_EQ: break; case CmpInst::ICMP_NE: neg = 1; break;
            case CmpInst::ICMP_ULT: k = K_ULT; break; case CmpInst::ICMP_ULE: k = K_ULE; break;
            case CmpInst::ICMP_UGT: k = K_ULT; std::swap(a, b); break; case CmpInst::ICMP_UGE: k = K_ULE; std::swap(a, b); break;
            case CmpInst::ICMP_SLT: k = K_SLT; break; case CmpInst::ICMP_SLE: k = K_SLE; break;
            case CmpInst::ICMP_SGT: k = K_SLT; std::swap(a, b); break; case CmpInst::ICMP_SGE: k = K_SLE; std::swap(a, b); break;
            default: ok = false; }
            push(O_ICMP, k, W(I.getOperand(0)), R(&I), a, b, 0, 0, 0, neg); break; }
        case Instruction::ZExt: push(O_ZEXT, 0, W(&I), R(&I), O(I.getOperand(0)), 0, 0, 0, W(I.getOperand(0))); break;
        case Instruction::SExt: push(O_SEXT, 0, W(&I), R(&I), O(I.getOperand(0)), 0, 0, 0, W(I.getOperand(0))); break;
        case Instruction::Trunc: push(O_TRUNCI, 0, W(&I), R(&I), O(I.getOperand(0)), 0, 0, 0, W(I.getOperand(0))); break;
        case Instruction::PtrToInt: case Instruction::IntToPtr: {
            unsigned ws = W(I.getOperand(0)), wd = W(&I);
            if (wd < ws) push(O_TRUNCI, 0, wd, R(&I), O(I.getOperand(0)), 0, 0, 0, ws);
            else if (wd > ws) push(O_ZEXT, 0, wd, R(&I), O(I.getOperand(0)), 0, 0, 0, ws);
            else push(O_MOV, 0, 64, R(&I), O(I.getOperand(0)));
            break; }
        case Instruction::BitCast: case Instruction::Freeze: {
            std::vector<int> s; if (!operands(fb, I.getOperand(0), s) || (int)s.size() != slots(T)) { ok = false; break; }
            for (size_t k = 0; k < s.size(); k++) push(O_MOV, 0, 64, R(&I) + k, s[k]); break; }
        case Instruction::Select: {
            std::vector<int> a, b; int c = O(I.getOperand(0));
            if (I.getOperand(0)->getType()->isVectorTy()) { ok = false; break; }
            if (!operands(fb, I.getOperand(1), a) || !operands(fb, I.getOperand(2), b)) { ok = false; break; }
            std::vector<std::pair<unsigned, uint64_t>> fl; flat(T, 0, fl);
            for (size_t k = 0; k < a.size(); k++) push(O_SELECT, 0, fl[k].first, R(&I) + k, c, a[k], b[k], 0, 0, T->isPointerTy());
            break; }
        case Instruction::Load: {
            std::vector<std::pair<unsigned, uint64_t>> fl; flat(T, 0, fl); int a = O(I.getOperand(0));
            for (size_t k = 0; k < fl.size(); k++) push(O_LOAD, 0, fl[k].first, R(&I) + k, a, 0, 0, fl[k].second);
            break; }
        case Instruction::Store: {
            std::vector<std::pair<unsigned, uint64_t>> fl; flat(I.getOperand(0)->getType(), 0, fl); std::vector<int> v; int a = O(I.getOperand(1));
            if (!operands(fb, I.getOperand(0), v)) { ok = false; break; }
            for (size_t k = 0; k < fl.size(); k++) push(O_STORE, 0, fl[k].first, 0, v[k], a, 0, fl[k].second);
            break; }
        case Instruction::AtomicRMW: {
            auto& r = cast<AtomicRMWInst>(I); unsigned w = W(&I); int p = O(r.getPointerOperand()), v = O(r.getValOperand());
            int k = -1;
            switch (r.getOperation()) { case AtomicRMWInst::Add: k = K_ADD; break; case AtomicRMWInst::Sub: k = K_SUB; break; case AtomicRMWInst::And: k = K_AND; break; case AtomicRMWInst::Or: k = K_OR; break; case AtomicRMWInst::Xor: k = K_XOR; break; case AtomicRMWInst::Xchg: k = -2; break; default: ok = false; }
            push(O_LOAD, 0, w, R(&I), p);
            if (k == -2) push(O_STORE, 0, w, 0, v, p);
            else { int t = fb.next++; push(O_BIN, k, w, t, R(&I), v); push(O_STORE, 0, w, 0, t, p); }
            break; }
        case Instruction::AtomicCmpXchg: {
            auto& r = cast<AtomicCmpXchgInst>(I); unsigned w = W(r.getCompareOperand()); int p = O(r.getPointerOperand()), c = O(r.getCompareOperand()), v = O(r.getNewValOperand());
            push(O_LOAD, 0, w, R(&I), p);
            push(O_BIN, K_EQ, 1, R(&I) + 1, R(&I), c);
            int t = fb.next++; push(O_SELECT, 0, w, t, R(&I) + 1, v, R(&I), 0, 0, false); push(O_STORE, 0, w, 0, t, p);
            break; }
        case Instruction::Fence: push(O_NOP, 0, 1, 0, 0); break;
        case Instruction::GetElementPtr: {
            auto& g = cast<GetElementPtrInst>(I);
            if (T->isVectorTy()) { ok = false; break; }
            int cur = O(g.getPointerOperand()); int64_t off = 0; int d = R(&I);
            std::vector<std::pair<int, int64_t>> dyn; std::vector<unsigned> dw;
            for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
                const Value* ix = gi.getOperand();
                if (StructType* st = gi.getStructTypeOrNull()) { off += DL.getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
                int64_t sc = gi.getSequentialElementStride(DL).getFixedValue();
                if (auto* ci = dyn_cast<ConstantInt>(ix)) off += ci->getSExtValue() * sc;
                else { dyn.push_back({O(ix), sc}); dw.push_back(W(ix)); }
            }
            push(O_ADDI, 0, 64, d, cur, 0, 0, off);
            for (size_t k = 0; k < dyn.size(); k++) push(O_IDX, 0, 64, d, d, dyn[k].first, 0, dyn[k].second, dw[k]);
            break; }
        case Instruction::Alloca: {
            auto& a = cast<AllocaInst>(I);
            push(O_ALLOCA, 0, 64, R(&I), O(a.getArraySize()), 0, 0, DL.getTypeAllocSize(a.getAllocatedType())); break; }
        case Instruction::Br: {
            auto& b = cast<BranchInst>(I);
            if (b.isUnconditional()) push(O_BR, 0, 1, 0, fb.edge(I.getParent(), b.getSuccessor(0)));
            else { int c = O(b.getCondition()); int e0 = fb.edge(I.getParent(), b.getSuccessor(0)); int e1 = fb.edge(I.getParent(), b.getSuccessor(1)); push(O_CBR, 0, 1, 0, c, e0, e1); }
            break; }
        case Instruction::Switch: {
            auto& s = cast<SwitchInst>(I); SwitchInfo si;
            DenseMap<const BasicBlock*, int> es;
            auto eg = [&](const BasicBlock* t) { auto it = es.find(t); if (it != es.end()) return it->second; int e = fb.edge(I.getParent(), t); es[t] = e; return e; };
            si.def = eg(s.getDefaultDest());
            for (auto& c : s.cases()) si.cases.push_back({c.getCaseValue()->getZExtValue(), eg(c.getCaseSuccessor())});
            int c = O(s.getCondition());
            push(O_SWITCH, 0, W(s.getCondition()), 0, c, 0, 0, F.switches.size()); F.switches.push_back(si); break; }
        case Instruction::Ret: {
            std::vector<int> v; auto* rv = cast<ReturnInst>(I).getReturnValue();
            if (rv && !operands(fb, rv, v)) { ok = false; break; }
            CallInfo ci; ci.args = v; push(O_RET, 0, 1, 0, 0, 0, 0, F.calls.size()); F.calls.push_back(ci); break; }
        case Instruction::Unreachable: push(O_UNREACHABLE, 0, 1, 0, 0); break;
        case Instruction::Resume: { std::vector<int> v; if (!operands(fb, I.getOperand(0), v)) { ok = false; break; } push(O_RESUME, 0, 1, 0, v[0]); break; }
        case Instruction::LandingPad: {
            auto& lp = cast<LandingPadInst>(I); LPInfo li; li.cleanup = lp.isCleanup();
            for (unsigned k = 0; k < lp.getNumClauses(); k++) {
                std::vector<uint64_t> v; constVals(lp.getClause(k), v);
                if (lp.isCatch(k)) li.catches.push_back(v.empty() ? ~0ull : v[0]); else li.filters.push_back(v);
            }
            push(O_LANDINGPAD, 0, 1, R(&I), 0, 0, 0, F.lps.size()); F.lps.push_back(li); break; }
        case Instruction::ExtractValue: {
            auto& e = cast<ExtractValueInst>(I); std::vector<int> v; if (!operands(fb, e.getAggregateOperand(), v)) { ok = false; break; }
            int o = slotOffset(e.getAggregateOperand()->getType(), e.getIndices());
            for (int k = 0; k < slots(T); k++) push(O_MOV, 0, 64, R(&I) + k, v[o + k]); break; }
        case Instruction::InsertValue: {
            auto& e = cast<InsertValueInst>(I); std::vector<int> v, x; if (!operands(fb, e.getAggregateOperand(), v) || !operands(fb, e.getInsertedValueOperand(), x)) { ok = false; break; }
            int o = slotOffset(T, e.getIndices());
            for (size_t k = 0; k < v.size(); k++) { int src = (int)k >= o && (int)k < o + (int)x.size() ? x[k - o] : v[k]; push(O_MOV, 0, 64, R(&I) + k, src); }
            break; }
        case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FNeg:
            push(O_FLOAT, I.getOpcode(), W(&I), R(&I), O(I.getOperand(0)), I.getNumOperands() > 1 ? O(I.getOperand(1)) : 0); break;
        case Instruction::FPExt: case Instruction::FPTrunc: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPToSI: case Instruction::FPToUI:
            push(O_FLOAT, I.getOpcode(), W(&I), R(&I), O(I.getOperand(0)), 0, 0, 0, W(I.getOperand(0))); break;
        case Instruction::FCmp:
            push(O_FLOAT, I.getOpcode(), W(I.getOperand(0)), R(&I), O(I.getOperand(0)), O(I.getOperand(1)), 0, cast<FCmpInst>(I).getPredicate()); break;
        case Instruction::Call: case Instruction::Invoke: call(fb, F, cast<CallBase>(I), ok, line); break;
        default: ok = false;
        }
        if (!ok) { F.code.resize(start); unsupported(F, str(I)); }
    }
    void call(FB& fb, Func& F, const CallBase& C, bool& ok, uint32_t line) {
        auto push = [&](Op op, int sub, unsigned w, int dst, int a, int b = 0, int c = 0, int64_t imm = 0, unsigned w2 = 0, int flag = 0) {
            if (w > 64) ok = false;
            ::Inst n{}; n.op = op; n.sub = sub; n.w = w; n.w2 = w2; n.flag = flag; n.dst = dst; n.a = a; n.b = b; n.c = c; n.imm = imm; n.line = line; F.code.push_back(n);
        };
        auto O = [&](unsigned i) { return op1(fb, C.getArgOperand(i), ok); };
        int d = C.getType()->isVoidTy() ? 0 : fb.reg[&C];
        if (C.isInlineAsm()) { // empty barriers only
            push(O_NOP, 0, 1, 0, 0); return; }
        if (const Function* cf = C.getCalledFunction(); cf && cf->isIntrinsic()) {
            unsigned w = C.getType()->isVoidTy() ? 1 : width(C.getType()->isStructTy() ? cast<StructType>(C.getType())->getElementType(0) : C.getType());
            bool inv = isa<InvokeInst>(C);
            switch (cf->getIntrinsicID()) {
            case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label:
            case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::prefetch: case Intrinsic::stackrestore: case Intrinsic::var_annotation: case Intrinsic::invariant_end:
                break;
            case Intrinsic::stacksave: case Intrinsic::invariant_start: push(O_MOV, 0, 64, d, fb.cnst(0)); break;
            case Intrinsic::memcpy: case Intrinsic::memcpy_inline: push(O_MEMCPY, 0, 64, 0, O(0), O(1), O(2), 0, width(C.getArgOperand(2)->getType())); break;
            case Intrinsic::memmove: push(O_MEMMOVE, 0, 64, 0, O(0), O(1), O(2)); break;
            case Intrinsic::memset: push(O_MEMSET, 0, 64, 0, O(0), O(1), O(2)); break;
            case Intrinsic::umin: push(O_MINMAX, 0, w, d, O(0), O(1)); break;
            case Intrinsic::umax: push(O_MINMAX, 1, w, d, O(0), O(1)); break;
            case Intrinsic::smin: push(O_MINMAX, 2, w, d, O(0), O(1)); break;
            case Intrinsic::smax: push(O_MINMAX, 3, w, d, O(0), O(1)); break;
            case Intrinsic::ctlz: push(O_CTLZ, 0, w, d, O(0)); break;
            case Intrinsic::cttz: push(O_CTTZ, 0, w, d, O(0)); break;
            case Intrinsic::ctpop: push(O_CTPOP, 0, w, d, O(0)); break;
            case Intrinsic::bswap: push(O_BSWAP, 0, w, d, O(0)); break;
            case Intrinsic::abs: push(O_ABS, 0, w, d, O(0)); break;
            case Intrinsic::fshl: push(O_FSHL, 0, w, d, O(0), O(1), O(2)); break;
            case Intrinsic::fshr: push(O_FSHR, 0, w, d, O(0), O(1), O(2)); break;
            case Intrinsic::uadd_with_overflow: push(O_OVF, 0, w, d, O(0), O(1)); break;
            case Intrinsic::usub_with_overflow: push(O_OVF, 1, w, d, O(0), O(1)); break;
            case Intrinsic::umul_with_overflow: push(O_OVF, 2, w, d, O(0), O(1)); break;
            case Intrinsic::sadd_with_overflow: push(O_OVF, 3, w, d, O(0), O(1)); break;
            case Intrinsic::ssub_with_overflow: push(O_OVF, 4, w, d, O(0), O(1)); break;
            case Intrinsic::smul_with_overflow: push(O_OVF, 5, w, d, O(0), O(1)); break;
            case Intrinsic::uadd_sat: push(O_SAT, 0, w, d, O(0), O(1)); break;
            case Intrinsic::usub_sat: push(O_SAT, 1, w, d, O(0), O(1)); break;
            case Intrinsic::sadd_sat: push(O_SAT, 2, w, d, O(0), O(1)); break;
            case Intrinsic::ssub_sat: push(O_SAT, 3, w, d, O(0), O(1)); break;
            case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy: case Intrinsic::ptr_annotation: push(O_MOV, 0, 64, d, O(0)); break;
            case Intrinsic::is_constant: push(O_MOV, 0, 64, d, fb.cnst(0)); break;
            case Intrinsic::objectsize: push(O_MOV, 0, 64, d, fb.cnst(~0ull)); break;
            case Intrinsic::eh_typeid_for: { int a = O(0); push(O_MOV, 1, 64, d, a); push(O_BIN, K_LSHR, 64, d, d, fb.cnst(32)); push(O_TRUNCI, 0, 32, d, d, 0, 0, 0, 64); break; }
            case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: push(O_TRAP, 0, 1, 0, 0, 0, 0, cf->getIntrinsicID() == Intrinsic::ubsantrap ? cast<ConstantInt>(C.getArgOperand(0))->getZExtValue() : 255); break;
            default: ok = false;
            }
            if (inv && ok) { push(O_BR, 0, 1, 0, fb.edge(C.getParent(), cast<InvokeInst>(C).getNormalDest())); }
            return;
        }
        CallInfo ci;
        const Value* callee = C.getCalledOperand()->stripPointerCasts();
        if (auto* ga = dyn_cast<GlobalAlias>(callee)) callee = ga->getAliaseeObject();
        if (auto* f = dyn_cast<Function>(callee)) ci.fn = fidx[f];
        else ci.target = op1(fb, C.getCalledOperand(), ok);
        for (unsigned i = 0; i < C.arg_size(); i++) {
            std::vector<int> v; if (!operands(fb, C.getArgOperand(i), v)) { ok = false; return; }
            uint32_t bv = C.isByValArgument(i) ? DL.getTypeAllocSize(C.getParamByValType(i)) : 0;
            for (int x : v) { ci.args.push_back(x); ci.byval.push_back(bv); }
        }
        ci.nret = slots(C.getType());
        if (auto* iv = dyn_cast<InvokeInst>(&C)) { ci.invoke = true; ci.normal = fb.edge(C.getParent(), iv->getNormalDest()); ci.unwind = fb.edge(C.getParent(), iv->getUnwindDest()); }
        push(O_CALL, 0, 1, d, 0, 0, 0, F.calls.size());
        F.calls.push_back(ci);
    }

    bool run(std::string& err) {
        uint32_t id = 1;
        for (auto& g : L.globals()) gaddr[&g] = objAddr(id++);
        for (auto& f : L.functions()) {
            if (f.isIntrinsic()) continue;
            gaddr[&f] = objAddr(id++);
            int i = M.funcs.size(); fidx[&f] = i; M.funcs.emplace_back();
            Func& F = M.funcs.back(); F.name = f.getName().str(); F.addr = gaddr[&f]; F.vararg = f.isVarArg(); F.id = i; F.nret = slots(f.getReturnType());
            M.byName[F.name] = i; M.byAddr[F.addr] = i;
        }
        for (auto& g : L.globals()) {
            Global G; G.name = g.getName().str(); G.addr = gaddr[&g]; G.constant = g.isConstant(); G.external = !g.hasInitializer();
            if (g.getName() == "llvm.global_ctors") {
                if (auto* a = dyn_cast<ConstantArray>(g.getInitializer())) for (auto& o : a->operands()) if (auto* f = dyn_cast<Function>(cast<ConstantStruct>(o)->getOperand(1)->stripPointerCasts())) M.ctors.push_back(fidx[f]);
                continue;
            }
            if (g.getName().starts_with("llvm.")) continue;
            G.size = g.getValueType()->isSized() ? DL.getTypeAllocSize(g.getValueType()).getFixedValue() : 0;
            if (G.external) { if (G.size < 512) G.size = 512; G.init.assign(G.size, 0); }
            else { G.init.assign(G.size, 0); if (!initBytes(g.getInitializer(), G.init, 0)) { err = "initializer of " + G.name; return false; } }
            M.globals.push_back(std::move(G));
            // type_info objects
            if (g.hasInitializer() && g.getName().starts_with("_ZTI")) {
                TypeInfo ti; ti.name = g.getName().str();
                if (auto* s = dyn_cast<ConstantStruct>(g.getInitializer())) {
                    std::string vt;
                    const Value* v = s->getOperand(0)->stripInBoundsConstantOffsets();
                    if (auto* gv = dyn_cast<GlobalVariable>(v->stripPointerCasts())) vt = gv->getName().str();
                    if (auto* ce = dyn_cast<ConstantExpr>(s->getOperand(0))) vt = ce->getOperand(0)->getName().str();
                    if (vt.find("__si_class_type_info") != std::string::npos) { std::vector<uint64_t> b; constVals(s->getOperand(2), b); ti.bases.push_back({b[0], 0}); }
                    else if (vt.find("__vmi_class_type_info") != std::string::npos) {
                        for (unsigned k = 4; k + 1 < s->getNumOperands(); k += 2) { std::vector<uint64_t> b, fl; constVals(s->getOperand(k), b); constVals(s->getOperand(k + 1), fl); ti.bases.push_back({b[0], (int64_t)fl[0] >> 8}); }
                    }
                }
                M.types[gaddr[&g]] = ti;
            }
        }
        for (auto& f : L.functions()) if (!f.isIntrinsic() && !f.isDeclaration()) body(f, M.funcs[fidx[&f]]);
        return true;
    }
};
}

bool loadModule(const std::string& path, ::Module& m, std::string& err) {
    static LLVMContext ctx;
    SMDiagnostic diag;
    auto mod = parseIRFile(path, diag, ctx);
    if (!mod) { err = diag.getMessage().str(); return false; }
    Loader l(m, *mod);
    return l.run(err);
}
