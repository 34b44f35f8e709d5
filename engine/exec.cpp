// symx: bounded symbolic execution of LLVM IR. Every branch, address, size and assertion is decided by the solver.
#include "expr.hpp"
#include "solver.hpp"
#include <llvm/BinaryFormat/Dwarf.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <algorithm>
#include <charconv>
#include <chrono>
#include <deque>
#include <fcntl.h>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <signal.h>
#include <sstream>
#include <string>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#include <vector>
using namespace llvm;
typedef std::string Str;

// ------------------------------------------------------------------ values
struct Val { Expr* e; u64 v; };
static inline Val C(u64 v) { return {nullptr, v}; }
static inline Val V(Expr* e) { if (isC(e) && e->w <= 64) return {nullptr, (u64)e->c}; return {e, 0}; }
static inline Expr* E(const Val& x, unsigned w) { return x.e ? x.e : mkConst(x.v, w); }

// ------------------------------------------------------------------ memory
static const u32 PSZ = 256;
struct Page { u32 rc; u16 cap; Expr** s; u8 c[1]; };
static Page* newPage(u32 cap, u8 fill) { Page* p = (Page*)malloc(sizeof(Page) + cap); p->rc = 1; p->cap = (u16)cap; p->s = nullptr; memset(p->c, fill, cap); return p; }
static Page* clonePage(Page* o) { Page* p = (Page*)malloc(sizeof(Page) + o->cap); p->rc = 1; p->cap = o->cap; memcpy(p->c, o->c, o->cap); p->s = nullptr; if (o->s) { p->s = (Expr**)malloc(sizeof(Expr*) * o->cap); memcpy(p->s, o->s, sizeof(Expr*) * o->cap); } return p; }
static void relPage(Page* p) { if (--p->rc == 0) { free(p->s); free(p); } }
enum ObjKind : u8 { OK_GLOBAL, OK_HEAP, OK_STACK, OK_FREED, OK_FUNC, OK_EXT };
struct Obj { u32 rc; u8 kind; bool ro; u64 size; u32 npg; const char* name; Page* pg[1]; };
static Obj* newObj(u64 size, u8 kind, u8 fill, const char* name)
{
    u32 n = (u32)((size + PSZ - 1) / PSZ);
    Obj* o = (Obj*)malloc(sizeof(Obj) + sizeof(Page*) * n);
    o->rc = 1; o->kind = kind; o->ro = false; o->size = size; o->npg = n; o->name = name;
    for (u32 i = 0; i < n; ++i) o->pg[i] = newPage((u32)std::min<u64>(PSZ, size - (u64)i * PSZ), fill);
    return o;
}
static Obj* cloneObj(Obj* o)
{
    Obj* n = (Obj*)malloc(sizeof(Obj) + sizeof(Page*) * o->npg);
    memcpy(n, o, sizeof(Obj) + sizeof(Page*) * o->npg); n->rc = 1;
    for (u32 i = 0; i < n->npg; ++i) ++n->pg[i]->rc;
    return n;
}
static void relObj(Obj* o) { if (o && --o->rc == 0) { for (u32 i = 0; i < o->npg; ++i) relPage(o->pg[i]); free(o); } }
struct ObjVec
{
    std::vector<Obj*> v;
    ObjVec() = default;
    ObjVec(const ObjVec& o) : v(o.v) { for (Obj* x : v) if (x) ++x->rc; }
    ObjVec& operator=(const ObjVec&) = delete;
    ~ObjVec() { for (Obj* x : v) relObj(x); }
    Obj* own(size_t i) { Obj* o = v[i]; if (o->rc > 1) { Obj* n = cloneObj(o); --o->rc; v[i] = n; o = n; } return o; }
    void pop() { relObj(v.back()); v.pop_back(); }
};
static const u32 STACK_BASE = 0x40000000u;
static inline u64 heapAddr(u32 id) { return (u64)(id + 1) << 32; }

// ------------------------------------------------------------------ compiled code
enum IOp : u16 { I_BIN, I_ICMP, I_FBIN, I_FCMP, I_FNEG, I_CAST, I_SELECT, I_GEP, I_LOAD, I_STORE, I_ALLOCA, I_BR, I_CBR, I_SWITCH, I_RET, I_CALL, I_UNREACH, I_LPAD, I_RESUME, I_MOV, I_EXTRELT, I_INSELT, I_RMW, I_CMPXCHG, I_NOP, I_UNSUP };
struct Leaf { u32 off; u16 w; };
struct Copy { i32 dst, src; };
struct Edge { u32 target; std::vector<Copy> copies; };
struct Func;
struct GepTerm { i32 op; u16 w; u64 scale; };
struct CallInfo { Function* callee = nullptr; Func* f = nullptr; int native = -1; std::vector<i32> args; std::vector<u16> argw; std::vector<u8> argn; bool invoke = false; u32 normal = 0, unwind = 0; unsigned nfixed = 0; unsigned retn = 0; Intrinsic::ID iid = Intrinsic::not_intrinsic; std::vector<std::vector<Leaf>> argLeaves; std::vector<u64> byval; };
struct LpadInfo { bool cleanup; std::vector<u64> catches; std::vector<std::pair<bool, std::vector<u64>>> clauses; };
struct SwitchInfo { std::vector<std::pair<u64, u32>> cases; u32 def; };
struct Inst { u16 op; u16 sub; u16 w, w2; u32 n; i32 dst; i32 a, b, c; u64 imm; void* aux; const Instruction* src; };
struct Func
{
    Function* F; Str name; std::vector<Inst> code; std::vector<Edge> edges; u32 nregs = 0; std::vector<u32> argReg; std::vector<u16> argN; bool compiled = false; bool visited = false; int native = -1; u64 addr = 0; std::vector<u32> retN;
};
struct Frame { u32 rc; Func* f; u32 pc; u32 stackBase; const Inst* call; Val va; std::vector<Val> r; };
struct Input { Str name; u32 var; u32 n; std::vector<u8> conc; bool isConc; };
struct Exc { u64 obj; u64 ti; };
struct State
{
    std::vector<Frame*> fr; ObjVec heap, stk;
    std::vector<Expr*> path; Model m; std::vector<short> known; u32 nvars = 0; std::vector<Input> inputs; std::vector<Str> notes;
    std::vector<Exc> caught; Exc cur{0, 0}; std::vector<u64> uncaughtStack; u64 steps = 0; u32 id = 0; u32 forks = 0;
    State() { m.stamp = newStamp(); }
    State(const State& o) : fr(o.fr), heap(o.heap), stk(o.stk), path(o.path), m(o.m), known(o.known), nvars(o.nvars), inputs(o.inputs), notes(o.notes), caught(o.caught), cur(o.cur), uncaughtStack(o.uncaughtStack), steps(o.steps), forks(o.forks + 1) { for (Frame* f : fr) ++f->rc; }
    ~State() { for (Frame* f : fr) if (--f->rc == 0) delete f; }
    Frame* top() { Frame* f = fr.back(); if (f->rc > 1) { --f->rc; f = new Frame(*f); f->rc = 1; fr.back() = f; } return f; }
};
struct Violation { Str kind, msg, where, sig, func; std::vector<Input> inputs; std::vector<std::vector<u8>> bytes; std::vector<Str> notes; };

// ------------------------------------------------------------------ globals
static LLVMContext ctx; static std::unique_ptr<Module> M; static const DataLayout* DL;
static std::vector<Val> cpool;
static std::unordered_map<const Constant*, i32> cpoolIdx;
static std::unordered_map<const GlobalValue*, u64> gaddr;
static std::unordered_map<const Function*, Func*> funcs;
static std::unordered_map<u64, Func*> funcByAddr;
static std::vector<State*> work;
static std::vector<Violation> viols;
static std::map<Str, u64> incompletes, reached, expected;
static u64 nPaths = 0, nSteps = 0, nForks = 0, nAsserts = 0, nAssertQ = 0, nErrPaths = 0;
static int jobCase = 0; static Str jobName;
static double maxSecs = 600; static u64 maxSteps = 400000000ull; static size_t maxViol = 8; static u64 memLimitMb = 6000;
static std::chrono::steady_clock::time_point tStart;
static bool verbose = false; static bool timedOut = false; static Str replayWant;
struct PathEnd {};  // thrown to terminate the current path
struct Retry {};    // re-execute current instruction (state changed)
static double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - tStart).count(); }
static void flatten(Type* t, u64 off, std::vector<Leaf>& out)
{
    if (t->isVoidTy()) return;
    if (auto* s = dyn_cast<StructType>(t)) { const StructLayout* sl = DL->getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); ++i) flatten(s->getElementType(i), off + sl->getElementOffset(i), out); return; }
    if (auto* a = dyn_cast<ArrayType>(t)) { u64 sz = DL->getTypeAllocSize(a->getElementType()); for (u64 i = 0; i < a->getNumElements(); ++i) flatten(a->getElementType(), off + i * sz, out); return; }
    if (auto* v = dyn_cast<FixedVectorType>(t)) { u64 bits = DL->getTypeSizeInBits(v->getElementType()); for (unsigned i = 0; i < v->getNumElements(); ++i) out.push_back({(u32)(off + i * bits / 8), (u16)bits}); return; }
    out.push_back({(u32)off, (u16)(t->isPointerTy() ? 64 : DL->getTypeSizeInBits(t).getFixedValue())});
}
static std::vector<Leaf> leavesOf(Type* t) { std::vector<Leaf> l; flatten(t, 0, l); return l; }
static unsigned leafCount(Type* t) { return (unsigned)leavesOf(t).size(); }

// ------------------------------------------------------------------ constants
static u64 addrOf(const GlobalValue* g);
static u128 constScalar(const Constant* c);
static void constLeaves(const Constant* c, std::vector<Val>& out)
{
    Type* t = c->getType();
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c) || isa<ConstantTokenNone>(c)) { for (auto& l : leavesOf(t)) out.push_back(l.w > 64 ? Val{mkConst(0, l.w), 0} : C(0)); return; }
    if (t->isStructTy() || t->isArrayTy() || t->isVectorTy())
    {
        unsigned n = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? (unsigned)t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
        for (unsigned i = 0; i < n; ++i)
        {
            Constant* e = c->getAggregateElement(i);
            if (!e) { fprintf(stderr, "symx: aggregate constant\n"); abort(); }
            constLeaves(e, out);
        }
        return;
    }
    unsigned w = t->isPointerTy() ? 64 : (unsigned)DL->getTypeSizeInBits(t).getFixedValue();
    u128 v = constScalar(c);
    out.push_back(w > 64 ? Val{mkConst(v, w), 0} : C((u64)v & mask64(w)));
}
static u128 apToU128(const APInt& a) { u128 v = a.getRawData()[0]; if (a.getBitWidth() > 64) v |= (u128)a.getRawData()[1] << 64; return v; }
static u64 gepConst(const GEPOperator* g)
{
    APInt off(64, 0);
    if (!g->accumulateConstantOffset(*DL, off)) { fprintf(stderr, "symx: gep const\n"); abort(); }
    return (u64)constScalar(cast<Constant>(g->getPointerOperand())) + off.getZExtValue();
}
static u128 constScalar(const Constant* c)
{
    if (auto* i = dyn_cast<ConstantInt>(c)) return apToU128(i->getValue());
    if (auto* f = dyn_cast<ConstantFP>(c)) return apToU128(f->getValueAPF().bitcastToAPInt());
    if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c)) return 0;
    if (auto* g = dyn_cast<GlobalValue>(c)) return addrOf(g);
    if (auto* ce = dyn_cast<ConstantExpr>(c))
    {
        unsigned w = ce->getType()->isPointerTy() ? 64 : (unsigned)DL->getTypeSizeInBits(ce->getType()).getFixedValue();
        switch (ce->getOpcode())
        {
        case Instruction::GetElementPtr: return gepConst(cast<GEPOperator>(ce));
        case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Trunc: case Instruction::AddrSpaceCast: return constScalar(ce->getOperand(0)) & maskw(w);
        case Instruction::ZExt: return constScalar(ce->getOperand(0));
        case Instruction::Add: return foldBin(X_ADD, constScalar(ce->getOperand(0)), constScalar(ce->getOperand(1)), w);
        case Instruction::Sub: return foldBin(X_SUB, constScalar(ce->getOperand(0)), constScalar(ce->getOperand(1)), w);
        case Instruction::And: return foldBin(X_AND, constScalar(ce->getOperand(0)), constScalar(ce->getOperand(1)), w);
        case Instruction::ICmp: {
            u128 a = constScalar(ce->getOperand(0)), b = constScalar(ce->getOperand(1));
            switch (ce->getPredicate()) { case CmpInst::ICMP_EQ: return a == b; case CmpInst::ICMP_NE: return a != b; case CmpInst::ICMP_ULT: return a < b; case CmpInst::ICMP_UGT: return a > b; default: break; }
            break;
        }
        default: break;
        }
        fprintf(stderr, "symx: constant expr %s\n", ce->getOpcodeName()); abort();
    }
    if (auto* gi = dyn_cast<DSOLocalEquivalent>(c)) return addrOf(gi->getGlobalValue());
    if (auto* nc = dyn_cast<NoCFIValue>(c)) return addrOf(nc->getGlobalValue());
    if (isa<BlockAddress>(c)) return 0;
    fprintf(stderr, "symx: constant kind\n"); abort();
}
static i32 poolOf(const Constant* c)
{
    auto it = cpoolIdx.find(c);
    if (it != cpoolIdx.end()) return it->second;
    std::vector<Val> l; constLeaves(c, l);
    i32 idx = ~(i32)cpool.size();
    for (auto& v : l) cpool.push_back(v);
    if (l.empty()) cpool.push_back(C(0));
    cpoolIdx[c] = idx; return idx;
}
static i32 poolImm(u64 v) { cpool.push_back(C(v)); return ~(i32)(cpool.size() - 1); }

// ------------------------------------------------------------------ initial memory
static State* init0;
static void storeConc(Obj* o, u64 off, u128 v, unsigned bytes) { for (unsigned i = 0; i < bytes; ++i) o->pg[(off + i) / PSZ]->c[(off + i) % PSZ] = (u8)(v >> (8 * i)); }
static u32 allocObj(State& s, u64 size, u8 kind, u8 fill, const char* name) { s.heap.v.push_back(newObj(size, kind, fill, name)); return (u32)s.heap.v.size() - 1; }
static Func* getFunc(const Function* F)
{
    auto it = funcs.find(F);
    if (it != funcs.end()) return it->second;
    Func* f = new Func; f->F = const_cast<Function*>(F); f->name = F->getName().str();
    funcs[F] = f; return f;
}
static u64 addrOf(const GlobalValue* g)
{
    if (auto* al = dyn_cast<GlobalAlias>(g)) return (u64)constScalar(al->getAliasee());
    auto it = gaddr.find(g);
    if (it != gaddr.end()) return it->second;
    if (auto* F = dyn_cast<Function>(g))
    {
        u32 id = allocObj(*init0, 16, OK_FUNC, 0, "function"); u64 a = heapAddr(id); gaddr[g] = a;
        Func* f = getFunc(F); f->addr = a; funcByAddr[a] = f; return a;
    }
    auto* gv = cast<GlobalVariable>(g);
    u64 sz = gv->getValueType()->isSized() ? (u64)DL->getTypeAllocSize(gv->getValueType()) : 64;
    if (!gv->hasInitializer()) sz = std::max<u64>(sz, 4096); // external data (vtables of libstdc++ classes etc.)
    u32 id = allocObj(*init0, sz, gv->hasInitializer() ? OK_GLOBAL : OK_EXT, 0, strdup(g->getName().str().c_str()));
    u64 a = heapAddr(id); gaddr[g] = a;
    return a;
}
static void initGlobals()
{
    for (auto& g : M->globals()) addrOf(&g);
    for (auto& g : M->globals())
    {
        if (!g.hasInitializer()) continue;
        const Constant* ini = g.getInitializer();
        u64 a = addrOf(&g); u32 id = (u32)(a >> 32) - 1;
        std::vector<Leaf> ll = leavesOf(g.getValueType());
        if (auto* cds = dyn_cast<ConstantDataSequential>(ini))
        {
            unsigned eb = (unsigned)cds->getElementByteSize();
            StringRef raw = cds->getRawDataValues();
            for (size_t i = 0; i < raw.size(); ++i) init0->heap.v[id]->pg[i / PSZ]->c[i % PSZ] = (u8)raw[i];
            (void)eb;
        }
        else if (!isa<ConstantAggregateZero>(ini) && !isa<UndefValue>(ini))
        {
            std::vector<Val> vals; constLeaves(ini, vals);
            for (size_t i = 0; i < ll.size(); ++i) storeConc(init0->heap.v[id], ll[i].off, vals[i].e ? vals[i].e->c : vals[i].v, (ll[i].w + 7) / 8);
        }
        if (g.isConstant()) init0->heap.v[id]->ro = true;
    }
}

// ------------------------------------------------------------------ compile
static int nativeId(const Str& name);
struct Compiler
{
    Func* f; std::unordered_map<const Value*, i32> reg; std::unordered_map<const BasicBlock*, u32> bstart; std::vector<std::pair<size_t, const BasicBlock*>> fixups;
    i32 op(const Value* v)
    {
        if (auto* c = dyn_cast<Constant>(v)) return poolOf(c);
        auto it = reg.find(v);
        if (it != reg.end()) return it->second;
        if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v) || isa<BasicBlock>(v)) return poolImm(0);
        i32 r = (i32)f->nregs; f->nregs += std::max(1u, leafCount(v->getType())); reg[v] = r; return r;
    }
    static unsigned width(Type* t) { if (t->isVectorTy()) t = cast<VectorType>(t)->getElementType(); if (t->isPointerTy()) return 64; return t->isSized() ? (unsigned)DL->getTypeSizeInBits(t).getFixedValue() : 0; }
    static unsigned elems(Type* t) { return t->isVectorTy() ? cast<FixedVectorType>(t)->getNumElements() : 1; }
    u32 edge(const BasicBlock* from, const BasicBlock* to)
    {
        Edge e; e.target = 0;
        for (auto& I : *to)
        {
            auto* p = dyn_cast<PHINode>(&I); if (!p) break;
            i32 d = op(p), s = op(p->getIncomingValueForBlock(from)); unsigned n = std::max(1u, leafCount(p->getType()));
            for (unsigned i = 0; i < n; ++i) { Copy c{d + (i32)i, s >= 0 ? s + (i32)i : s - (i32)i}; if (c.dst != c.src) e.copies.push_back(c); }
        }
        f->edges.push_back(e); fixups.push_back({f->edges.size() - 1, to}); return (u32)f->edges.size() - 1;
    }
    void run()
    {
        Function* F = f->F;
        for (auto& A : F->args()) { f->argReg.push_back((u32)op(&A)); f->argN.push_back((u16)std::max(1u, leafCount(A.getType()))); }
        for (auto& B : *F)
        {
            bstart[&B] = (u32)f->code.size();
            for (auto& I : B) one(&I, &B);
        }
        for (auto& x : fixups) f->edges[x.first].target = bstart[x.second];
        f->compiled = true;
    }
    void one(const Instruction* I, const BasicBlock* B)
    {
        if (isa<PHINode>(I)) return;
        Inst x{}; x.src = I; x.dst = I->getType()->isVoidTy() ? -1 : op(I); x.w = (u16)width(I->getType()); x.n = elems(I->getType());
        auto push = [&]() { f->code.push_back(x); };
        switch (I->getOpcode())
        {
        case Instruction::Add: x.sub = X_ADD; goto bin; case Instruction::Sub: x.sub = X_SUB; goto bin; case Instruction::Mul: x.sub = X_MUL; goto bin;
        case Instruction::UDiv: x.sub = X_UDIV; goto bin; case Instruction::SDiv: x.sub = X_SDIV; goto bin; case Instruction::URem: x.sub = X_UREM; goto bin; case Instruction::SRem: x.sub = X_SREM; goto bin;
        case Instruction::And: x.sub = X_AND; goto bin; case Instruction::Or: x.sub = X_OR; goto bin; case Instruction::Xor: x.sub = X_XOR; goto bin;
        case Instruction::Shl: x.sub = X_SHL; goto bin; case Instruction::LShr: x.sub = X_LSHR; goto bin; case Instruction::AShr: x.sub = X_ASHR; goto bin;
        bin: x.op = I_BIN; x.a = op(I->getOperand(0)); x.b = op(I->getOperand(1)); push(); return;
        case Instruction::FAdd: x.sub = X_FADD; goto fbin; case Instruction::FSub: x.sub = X_FSUB; goto fbin; case Instruction::FMul: x.sub = X_FMUL; goto fbin; case Instruction::FDiv: x.sub = X_FDIV; goto fbin; case Instruction::FRem: x.sub = X_FREM; goto fbin;
        fbin: x.op = x.w == 80 ? I_UNSUP : I_FBIN; x.a = op(I->getOperand(0)); x.b = op(I->getOperand(1)); push(); return;
        case Instruction::FNeg: x.op = I_FNEG; x.a = op(I->getOperand(0)); push(); return;
        case Instruction::ICmp: case Instruction::FCmp:
            x.op = I->getOpcode() == Instruction::ICmp ? I_ICMP : I_FCMP; x.sub = (u16)cast<CmpInst>(I)->getPredicate(); x.a = op(I->getOperand(0)); x.b = op(I->getOperand(1)); x.w = (u16)width(I->getOperand(0)->getType()); if (x.w == 80) x.op = I_UNSUP; push(); return;
        case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::FPExt: case Instruction::FPTrunc: case Instruction::FPToUI: case Instruction::FPToSI: case Instruction::UIToFP: case Instruction::SIToFP: case Instruction::AddrSpaceCast:
            x.op = I_CAST; x.sub = (u16)I->getOpcode(); x.a = op(I->getOperand(0)); x.w2 = (u16)width(I->getOperand(0)->getType()); if (x.w == 80 || x.w2 == 80) x.op = I_UNSUP; push(); return;
        case Instruction::BitCast: {
            Type *st = I->getOperand(0)->getType(), *dt = I->getType();
            x.a = op(I->getOperand(0));
            if (elems(st) == elems(dt)) { x.op = I_MOV; x.n = std::max(1u, leafCount(dt)); push(); return; }
            x.op = I_CAST; x.sub = Instruction::BitCast; x.w2 = (u16)width(st); x.imm = elems(st); push(); return;
        }
        case Instruction::Freeze: x.op = I_MOV; x.a = op(I->getOperand(0)); x.n = std::max(1u, leafCount(I->getType())); push(); return;
        case Instruction::Select: {
            x.op = I_SELECT; x.a = op(I->getOperand(0)); x.b = op(I->getOperand(1)); x.c = op(I->getOperand(2));
            auto* ws = new std::vector<u16>; for (auto& l : leavesOf(I->getType())) ws->push_back(l.w);
            x.aux = ws; x.n = (u32)ws->size(); x.imm = I->getOperand(0)->getType()->isVectorTy(); push(); return;
        }
        case Instruction::GetElementPtr: {
            auto* g = cast<GetElementPtrInst>(I);
            if (g->getType()->isVectorTy()) { x.op = I_UNSUP; push(); return; }
            x.op = I_GEP; x.a = op(g->getPointerOperand()); auto* t = new std::vector<GepTerm>; u64 cst = 0;
            for (auto gi = gep_type_begin(g), e = gep_type_end(g); gi != e; ++gi)
            {
                Value* ix = gi.getOperand();
                if (StructType* st = gi.getStructTypeOrNull()) { cst += DL->getStructLayout(st)->getElementOffset((unsigned)cast<ConstantInt>(ix)->getZExtValue()); continue; }
                u64 sz = DL->getTypeAllocSize(gi.getIndexedType());
                if (auto* ci = dyn_cast<ConstantInt>(ix)) cst += (u64)ci->getSExtValue() * sz;
                else t->push_back({op(ix), (u16)width(ix->getType()), sz});
            }
            x.imm = cst; x.aux = t; push(); return;
        }
        case Instruction::Load: { x.op = I_LOAD; x.a = op(I->getOperand(0)); x.aux = new std::vector<Leaf>(leavesOf(I->getType())); push(); return; }
        case Instruction::Store: { x.op = I_STORE; x.a = op(I->getOperand(1)); x.b = op(I->getOperand(0)); x.aux = new std::vector<Leaf>(leavesOf(I->getOperand(0)->getType())); push(); return; }
        case Instruction::Alloca: { auto* a = cast<AllocaInst>(I); x.op = I_ALLOCA; x.a = op(a->getArraySize()); x.w2 = (u16)width(a->getArraySize()->getType()); x.imm = DL->getTypeAllocSize(a->getAllocatedType()); push(); return; }
        case Instruction::Br: {
            auto* b = cast<BranchInst>(I);
            if (b->isUnconditional()) { x.op = I_BR; x.a = (i32)edge(B, b->getSuccessor(0)); push(); return; }
            x.op = I_CBR; x.a = op(b->getCondition()); x.b = (i32)edge(B, b->getSuccessor(0)); x.c = (i32)edge(B, b->getSuccessor(1)); push(); return;
        }
        case Instruction::Switch: {
            auto* s = cast<SwitchInst>(I); x.op = I_SWITCH; x.a = op(s->getCondition()); x.w = (u16)width(s->getCondition()->getType()); auto* si = new SwitchInfo;
            std::map<const BasicBlock*, u32> ed;
            auto ge = [&](const BasicBlock* t) { auto it = ed.find(t); if (it != ed.end()) return it->second; return ed[t] = edge(B, t); };
            for (auto& c : s->cases()) si->cases.push_back({c.getCaseValue()->getZExtValue(), ge(c.getCaseSuccessor())});
            si->def = ge(s->getDefaultDest()); x.aux = si; push(); return;
        }
        case Instruction::Ret: x.op = I_RET; if (I->getNumOperands()) { x.a = op(I->getOperand(0)); x.n = std::max(1u, leafCount(I->getOperand(0)->getType())); } else x.n = 0; push(); return;
        case Instruction::Unreachable: x.op = I_UNREACH; push(); return;
        case Instruction::Resume: x.op = I_RESUME; x.a = op(I->getOperand(0)); push(); return;
        case Instruction::LandingPad: {
            auto* l = cast<LandingPadInst>(I); auto* li = new LpadInfo; li->cleanup = l->isCleanup();
            for (unsigned i = 0; i < l->getNumClauses(); ++i)
            {
                std::vector<u64> ts;
                if (l->isCatch(i)) { u64 a = (u64)constScalar(l->getClause(i)); ts.push_back(a); li->clauses.push_back({true, ts}); }
                else { Constant* fc = l->getClause(i); if (auto* at = dyn_cast<ArrayType>(fc->getType())) for (u64 k = 0; k < at->getNumElements(); ++k) ts.push_back((u64)constScalar(fc->getAggregateElement((unsigned)k))); li->clauses.push_back({false, ts}); }
            }
            x.op = I_LPAD; x.aux = li; push(); return;
        }
        case Instruction::ExtractValue: {
            auto* e = cast<ExtractValueInst>(I); unsigned off = idxOff(e->getAggregateOperand()->getType(), e->getIndices());
            x.op = I_MOV; i32 s = op(e->getAggregateOperand()); x.a = s >= 0 ? s + (i32)off : s - (i32)off; x.n = std::max(1u, leafCount(I->getType())); push(); return;
        }
        case Instruction::InsertValue: {
            auto* e = cast<InsertValueInst>(I); unsigned off = idxOff(I->getType(), e->getIndices());
            x.op = I_MOV; x.a = op(e->getAggregateOperand()); x.n = leafCount(I->getType()); push();
            Inst y = x; y.dst = x.dst + (i32)off; y.a = op(e->getInsertedValueOperand()); y.n = leafCount(e->getInsertedValueOperand()->getType()); f->code.push_back(y); return;
        }
        case Instruction::ExtractElement: { x.op = I_EXTRELT; x.a = op(I->getOperand(0)); x.b = op(I->getOperand(1)); x.w2 = (u16)width(I->getOperand(1)->getType()); x.n = elems(I->getOperand(0)->getType()); push(); return; }
        case Instruction::InsertElement: { x.op = I_INSELT; x.a = op(I->getOperand(0)); x.b = op(I->getOperand(1)); x.c = op(I->getOperand(2)); x.w2 = (u16)width(I->getOperand(2)->getType()); push(); return; }
        case Instruction::ShuffleVector: {
            auto* s = cast<ShuffleVectorInst>(I); unsigned n0 = elems(s->getOperand(0)->getType()); i32 a = op(s->getOperand(0)), b = op(s->getOperand(1)); int k = 0;
            for (int m : s->getShuffleMask()) { Inst y = x; y.op = I_MOV; y.n = 1; y.dst = x.dst + k; if (m < 0) y.a = poolImm(0); else { i32 bs = (unsigned)m < n0 ? a : b; int o = (unsigned)m < n0 ? m : m - (int)n0; y.a = bs >= 0 ? bs + o : bs - o; } f->code.push_back(y); ++k; }
            return;
        }
        case Instruction::AtomicRMW: { auto* r = cast<AtomicRMWInst>(I); x.op = I_RMW; x.sub = (u16)r->getOperation(); x.a = op(r->getPointerOperand()); x.b = op(r->getValOperand()); push(); return; }
        case Instruction::AtomicCmpXchg: { auto* r = cast<AtomicCmpXchgInst>(I); x.op = I_CMPXCHG; x.w = (u16)width(r->getCompareOperand()->getType()); x.a = op(r->getPointerOperand()); x.b = op(r->getCompareOperand()); x.c = op(r->getNewValOperand()); push(); return; }
        case Instruction::Fence: return;
        case Instruction::Call: case Instruction::Invoke: {
            auto* cb = cast<CallBase>(I); Function* cf = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts());
            if (!cf) if (auto* al = dyn_cast<GlobalAlias>(cb->getCalledOperand())) cf = dyn_cast<Function>(al->getAliaseeObject());
            if (cf && cf->isIntrinsic())
            {
                switch (cf->getIntrinsicID())
                {
                case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::dbg_assign: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::prefetch: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::var_annotation: case Intrinsic::sideeffect: return;
                default: break;
                }
            }
            auto* ci = new CallInfo; ci->callee = cf; ci->iid = cf ? cf->getIntrinsicID() : Intrinsic::not_intrinsic;
            if (cf && !cf->isIntrinsic()) ci->f = getFunc(cf);
            x.op = I_CALL; x.aux = ci; if (!cf) x.a = op(cb->getCalledOperand());
            ci->nfixed = cb->getFunctionType()->getNumParams();
            for (unsigned i = 0; i < cb->arg_size(); ++i)
            {
                Value* av = cb->getArgOperand(i);
                ci->args.push_back(op(av)); ci->argw.push_back((u16)width(av->getType())); ci->argn.push_back((u8)std::max(1u, av->getType()->isMetadataTy() ? 1 : leafCount(av->getType())));
                ci->byval.push_back(cb->isByValArgument(i) ? (u64)DL->getTypeAllocSize(cb->getParamByValType(i)) : 0);
            }
            ci->retn = I->getType()->isVoidTy() ? 0 : std::max(1u, leafCount(I->getType()));
            if (auto* iv = dyn_cast<InvokeInst>(I)) { ci->invoke = true; ci->normal = edge(B, iv->getNormalDest()); ci->unwind = edge(B, iv->getUnwindDest()); }
            push(); return;
        }
        default: x.op = I_UNSUP; push(); return;
        }
    }
    static unsigned idxOff(Type* t, ArrayRef<unsigned> ix)
    {
        unsigned off = 0;
        for (unsigned i : ix)
        {
            if (auto* s = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < i; ++k) off += leafCount(s->getElementType(k)); t = s->getElementType(i); }
            else { auto* a = cast<ArrayType>(t); off += i * leafCount(a->getElementType()); t = a->getElementType(); }
        }
        return off;
    }
};

// ------------------------------------------------------------------ reporting
static Str whereOf(const Instruction* I)
{
    if (!I) return "?";
    Str s;
    if (const DebugLoc& d = I->getDebugLoc())
    {
        // prefer the innermost frame that lies in the repository or harness
        const DILocation* l = d.get(); const DILocation* best = l;
        for (const DILocation* k = l; k; k = k->getInlinedAt()) { Str fn = k->getScope()->getSubprogram() ? k->getFilename().str() : ""; if (fn.find("/repo/") != Str::npos || fn.find("/verif/") != Str::npos) { best = k; break; } }
        s = best->getFilename().str() + ":" + std::to_string(best->getLine());
    }
    return s.empty() ? I->getFunction()->getName().str() : s;
}
static Str backtrace(State& s)
{
    Str r;
    for (size_t i = s.fr.size(); i-- > 0 && i + 8 > s.fr.size();) { Frame* f = s.fr[i]; const Inst& in = f->f->code[f->pc < f->f->code.size() ? f->pc : 0]; r += demangle(f->f->name).substr(0, 100) + " @ " + whereOf(in.src) + "\n"; }
    return r;
}
static const Instruction* curSrc(State& s) { Frame* f = s.fr.back(); return f->pc < f->f->code.size() ? f->f->code[f->pc].src : nullptr; }
static Str repoWhere(State& s)
{
    // location in repo/harness code nearest to the fault, plus the function's name
    for (size_t i = s.fr.size(); i-- > 0;) { Frame* f = s.fr[i]; Str w = whereOf(f->f->code[std::min<size_t>(f->pc, f->f->code.size() - 1)].src); if (w.find("/repo/") != Str::npos || w.find("/verif/") != Str::npos) return w; }
    return whereOf(curSrc(s));
}
static void addIncomplete(const Str& why) { ++incompletes[why]; if (verbose) fprintf(stderr, "[incomplete] %s\n", why.c_str()); }
static void report(State& s, const Str& kind, const Str& msg, const Model& m)
{
    Str where = repoWhere(s);
    Str sig = kind + "|" + msg + "|" + (kind == "assert" ? "" : where);
    for (auto& v : viols) if (v.sig == sig) return;
    if (viols.size() >= maxViol) return;
    Violation v; v.kind = kind; v.msg = msg; v.where = where; v.sig = sig; v.func = backtrace(s); v.notes = s.notes;
    v.inputs = s.inputs;
    for (auto& in : s.inputs) { std::vector<u8> b; if (in.isConc) b = in.conc; else for (u32 i = 0; i < in.n; ++i) b.push_back(in.var + i < m.v.size() ? m.v[in.var + i] : 0); v.bytes.push_back(b); }
    viols.push_back(v);
    if (verbose) { fprintf(stderr, "[VIOL] %s %s at %s\n%s", kind.c_str(), msg.c_str(), where.c_str(), v.func.c_str()); for (size_t i = 0; i < v.inputs.size(); ++i) { fprintf(stderr, "   %s =", v.inputs[i].name.c_str()); for (u8 b : v.bytes[i]) fprintf(stderr, " %02x", b); fprintf(stderr, "\n"); } }
}
[[noreturn]] static void unsup(State& s, const Str& why) { addIncomplete("unsupported: " + why + " in " + demangle(s.fr.back()->f->name).substr(0, 120)); throw PathEnd(); }
[[noreturn]] static void fault(State& s, const Str& kind, const Str& msg) { report(s, kind, msg, s.m); ++nErrPaths; throw PathEnd(); }

// ------------------------------------------------------------------ path conditions
static bool inPath(State& s, Expr* e) { for (size_t i = s.path.size(); i-- > 0;) if (s.path[i] == e) return true; return false; }
static void addC(State& s, Expr* e)
{
    if (isC(e)) return;
    if (e->op == X_AND && e->w == 1) { addC(s, e->k[0]); addC(s, e->k[1]); return; }
    if (inPath(s, e)) return;
    s.path.push_back(e);
    if (e->op == X_EQ && e->k[0]->op == X_VAR && isC(e->k[1])) { u32 v = e->k[0]->imm; if (s.known.size() <= v) s.known.resize(v + 1, -1); s.known[v] = (short)(u64)e->k[1]->c; }
}
static inline bool modelTrue(State& s, Expr* e) { return evalExpr(e, s.m) != 0; }
// decides whether cond can be true; on success out is a model
static SatRes can(State& s, Expr* cond, Model& out)
{
    if (isC(cond)) { if (cond->c) { out = s.m; return S_SAT; } return S_UNSAT; }
    if (modelTrue(s, cond)) { out = s.m; return S_SAT; }
    if (inPath(s, mkNot(cond))) return S_UNSAT;
    return checkSat(s.path, cond, s.m, out);
}
static State* forkState(State& s)
{   // the new state gets its own top frame: the instruction being executed may still write to s's through a held pointer
    State* n = new State(s); ++nForks;
    if (!n->fr.empty()) { Frame* o = n->fr.back(); --o->rc; Frame* c = new Frame(*o); c->rc = 1; n->fr.back() = c; }
    return n;
}
// Returns the truth value on this path, pushing the other side when feasible.
static bool branch(State& s, Expr* c, bool atInst = true)
{
    (void)atInst;
    if (isC(c)) return c->c != 0;
    bool side = modelTrue(s, c);
    Expr* other = side ? mkNot(c) : c;
    Expr* mine = side ? c : mkNot(c);
    if (inPath(s, mine)) return side;
    Model om; SatRes r = can(s, other, om);
    if (r == S_UNKNOWN) { addIncomplete("solver gave up on a branch condition"); addC(s, mine); return side; }
    if (r == S_SAT)
    {
        State* n = forkState(s);
        addC(*n, other); n->m = om; work.push_back(n); // re-executes the same instruction with the added constraint
        addC(s, mine);
    }
    else if (!inPath(s, mine)) { /* implied: no need to add */ }
    return side;
}
static u64 concretize(State& s, const Val& v, unsigned w, const char* what)
{
    if (!v.e) return v.v;
    u64 x = (u64)evalExpr(v.e, s.m);
    Expr* eq = mkEq(v.e, mkConst(x, w));
    if (isC(eq) || inPath(s, eq)) return x;
    Model om; SatRes r = can(s, mkNot(eq), om);
    if (r == S_UNKNOWN) addIncomplete(Str("solver gave up enumerating ") + what);
    if (r == S_SAT) { State* n = forkState(s); addC(*n, mkNot(eq)); n->m = om; work.push_back(n); }
    addC(s, eq);
    return x;
}

// ------------------------------------------------------------------ memory access
static Obj* findObj(State& s, u64 a, u32& id, bool& stk)
{
    u32 hi = (u32)(a >> 32);
    if (hi == 0) return nullptr;
    if (hi >= STACK_BASE) { u32 i = hi - STACK_BASE; stk = true; id = i; return i < s.stk.v.size() ? s.stk.v[i] : nullptr; }
    id = hi - 1; stk = false;
    return id < s.heap.v.size() ? s.heap.v[id] : nullptr;
}
static Obj* ownObj(State& s, u32 id, bool stk) { return stk ? s.stk.own(id) : s.heap.own(id); }
static inline Expr* byteE(State& s, Obj* o, u64 off)
{
    Page* p = o->pg[off / PSZ]; u32 i = off % PSZ;
    Expr* e = p->s ? p->s[i] : nullptr;
    if (!e) return nullptr;
    if (e->op == X_VAR && e->imm < s.known.size() && s.known[e->imm] >= 0) return mkConst((u64)s.known[e->imm], 8);
    return e;
}
static Val readBytes(State& s, Obj* o, u64 off, unsigned w)
{
    unsigned nb = (w + 7) / 8;
    // fast path: all concrete
    bool sym = false;
    {
        u64 pi = off / PSZ, pe = (off + nb - 1) / PSZ;
        for (u64 p = pi; p <= pe; ++p) if (o->pg[p]->s) { sym = true; break; }
    }
    if (sym) { sym = false; for (unsigned i = 0; i < nb; ++i) { Page* p = o->pg[(off + i) / PSZ]; if (p->s && p->s[(off + i) % PSZ]) { sym = true; break; } } }
    if (!sym && nb <= 8)
    {
        u64 v = 0; Page* p = o->pg[off / PSZ]; u32 i0 = off % PSZ;
        if (i0 + nb <= p->cap) memcpy(&v, p->c + i0, nb);
        else for (unsigned i = 0; i < nb; ++i) v |= (u64)o->pg[(off + i) / PSZ]->c[(off + i) % PSZ] << (8 * i);
        return C(v & mask64(w));
    }
    Expr* r = nullptr;
    for (unsigned i = 0; i < nb; ++i)
    {
        Expr* b = byteE(s, o, off + i);
        if (!b) b = mkConst(o->pg[(off + i) / PSZ]->c[(off + i) % PSZ], 8);
        r = r ? mkConcat(b, r) : b;
    }
    if (r->w != w) r = mkExtract(r, 0, w);
    return V(r);
}
static void writeByte(Obj* o, u64 off, Expr* e, u8 c)
{
    Page*& p = o->pg[off / PSZ]; u32 i = off % PSZ;
    if (p->rc > 1) { --p->rc; p = clonePage(p); }
    if (e && isC(e)) { c = (u8)e->c; e = nullptr; }
    if (e) { if (!p->s) p->s = (Expr**)calloc(p->cap, sizeof(Expr*)); p->s[i] = e; }
    else { p->c[i] = c; if (p->s) p->s[i] = nullptr; }
}
static void writeBytes(Obj* o, u64 off, const Val& v, unsigned w)
{
    unsigned nb = (w + 7) / 8;
    if (!v.e)
    {
        Page*& p = o->pg[off / PSZ]; u32 i0 = off % PSZ;
        if (i0 + nb <= p->cap && nb <= 8)
        {
            if (p->rc > 1) { --p->rc; p = clonePage(p); }
            memcpy(p->c + i0, &v.v, nb); if (p->s) memset(p->s + i0, 0, nb * sizeof(Expr*)); return;
        }
        for (unsigned i = 0; i < nb; ++i) writeByte(o, off + i, nullptr, i < 8 ? (u8)(v.v >> (8 * i)) : 0);
        return;
    }
    Expr* e = v.e; if (e->w != nb * 8) e = mkZext(e, nb * 8);
    for (unsigned i = 0; i < nb; ++i) { Expr* b = mkExtract(e, 8 * i, 8); writeByte(o, off + i, b, 0); }
}
static Str objDesc(Obj* o) { char b[160]; snprintf(b, 160, "%s object of %llu bytes%s%s", o->kind == OK_HEAP ? "heap" : o->kind == OK_STACK ? "stack" : o->kind == OK_FREED ? "freed" : "global", (unsigned long long)o->size, o->name ? " " : "", o->name ? o->name : ""); return b; }
struct Loc { Obj* o; u32 id; bool stk; u64 off; Expr* symOff; };
// Resolves an access of n bytes. For a symbolic address, forks over objects / out-of-bounds; symOff is set when the offset stays symbolic.
static Loc resolve(State& s, const Val& addr, u64 n, bool write, const char* what)
{
    u64 a = addr.e ? (u64)evalExpr(addr.e, s.m) : addr.v;
    Loc l{nullptr, 0, false, 0, nullptr};
    l.o = findObj(s, a, l.id, l.stk);
    u64 off = a & 0xffffffffull;
    char buf[128];
    if (!l.o || l.o->kind == OK_FUNC) { snprintf(buf, 128, "%s of %llu bytes through an invalid pointer", what, (unsigned long long)n); fault(s, "memory", a < 0x1000 ? Str(what) + " through a null pointer" : Str(buf)); }
    if (l.o->kind == OK_FREED) fault(s, "memory", Str(what) + " of freed memory");
    if (off + n > l.o->size) { snprintf(buf, 128, "%s of %llu bytes at offset %lld of a ", what, (unsigned long long)n, (long long)off); fault(s, "memory", Str(what) + " outside " + objDesc(l.o)); }
    if (write && l.o->ro) fault(s, "memory", "write to constant data");
    if (!addr.e) { l.off = off; return l; }
    u64 base = a - off;
    Expr* offE = mkBin(X_SUB, addr.e, mkConst(base, 64));
    Expr* inb = mkCmp(X_ULE, offE, mkConst(l.o->size - n, 64));
    if (!isC(inb) && !inPath(s, inb))
    {
        Model om; SatRes r = can(s, mkNot(inb), om);
        if (r == S_UNKNOWN) { addIncomplete("solver gave up on a bounds check"); }
        if (r == S_SAT) { State* ns = forkState(s); addC(*ns, mkNot(inb)); ns->m = om; work.push_back(ns); }
        if (r != S_UNSAT) addC(s, inb);
    }
    l.symOff = offE; l.off = off;
    return l;
}
static unsigned knownLowZeros(Expr* e, unsigned lim = 12)
{
    // number of low bits that are constant; out via caller: we only use constants == value mod 2^k
    if (isC(e)) return lim;
    if (e->op == X_CONCAT) { if (isC(e->k[1])) return std::min<unsigned>(lim, e->k[1]->w + (e->k[1]->w >= lim ? 0 : 0)); return knownLowZeros(e->k[1], std::min<unsigned>(lim, e->k[1]->w)); }
    if (e->op == X_ADD || e->op == X_SUB) return std::min(knownLowZeros(e->k[0], lim), knownLowZeros(e->k[1], lim));
    if (e->op == X_ZEXT || e->op == X_SEXT) return knownLowZeros(e->k[0], std::min<unsigned>(lim, e->k[0]->w));
    if (e->op == X_MUL && isC(e->k[1])) { unsigned k = 0; u128 c = e->k[1]->c; while (k < lim && !((c >> k) & 1)) ++k; return k; }
    if (e->op == X_ITE) { if (isC(e->k[1]) && isC(e->k[2])) { u128 d = e->k[1]->c ^ e->k[2]->c; unsigned k = 0; while (k < lim && !((d >> k) & 1)) ++k; return k; } return std::min(knownLowZeros(e->k[1], lim), knownLowZeros(e->k[2], lim)); }
    return 0;
}
static bool offRange(State& s, Expr* off, u64 maxOff, u64& lo, u64& hi, u64& stride)
{
    lo = off->lo; hi = std::min(off->hi, maxOff);
    unsigned k = knownLowZeros(off);
    stride = 1ull << k;
    u64 mv = (u64)evalExpr(off, s.m);
    auto align = [&]() { u64 r = mv & (stride - 1); if ((lo & (stride - 1)) != r) lo = (lo & ~(stride - 1)) + r + ((lo & (stride - 1)) > r ? stride : 0); hi = hi - ((hi - r) & (stride - 1)); };
    align();
    if ((hi - lo) / stride + 1 > 256)
    {
        // tighten with the solver (binary search)
        u64 l = mv, h = hi;
        while (l < h) { u64 m = l + (h - l) / 2; Model om; SatRes r = can(s, mkCmp(X_ULT, mkConst(m, 64), off), om); if (r == S_SAT) l = std::max(m + 1, (u64)evalExpr(off, om)); else if (r == S_UNSAT) h = m; else return false; }
        hi = l;
        u64 l2 = lo, h2 = mv;
        while (l2 < h2) { u64 m = l2 + (h2 - l2) / 2; Model om; SatRes r = can(s, mkCmp(X_ULE, off, mkConst(m, 64)), om); if (r == S_SAT) h2 = std::min(m, (u64)evalExpr(off, om)); else if (r == S_UNSAT) l2 = m + 1; else return false; }
        lo = h2; align();
    }
    return true;
}
static Expr* muxTree(Expr* idx, const std::vector<Expr*>& v, size_t base, int bit)
{
    if (bit < 0) return v[std::min(base, v.size() - 1)];
    Expr* l = muxTree(idx, v, base, bit - 1);
    if (base + ((size_t)1 << bit) >= v.size()) return l;
    Expr* r = muxTree(idx, v, base + ((size_t)1 << bit), bit - 1);
    return mkIte(mkExtract(idx, (unsigned)bit, 1), r, l);
}
// A load from a constant table whose index depends on one input byte only: when the composed table is GF(2)-affine in
// the bits of that byte (reading back hexadecimal digits, for example), the value becomes an XOR of those bits.
static bool tableOfByte(State& s, Loc& l, unsigned nb, unsigned w, Val& out)
{
    if (l.symOff->op == X_VAR) return false;
    const VarSet* vs = varsOf(l.symOff); int var = -1;
    for (size_t i = 0; i < vs->w.size(); ++i) if (vs->w[i]) { if (var >= 0 || (vs->w[i] & (vs->w[i] - 1))) return false; var = (int)(i * 64) + __builtin_ctzll(vs->w[i]); }
    if (var < 0) return false;
    static std::unordered_map<Expr*, std::vector<u64>> cache;
    auto it = cache.find(l.symOff);
    if (it == cache.end())
    {
        std::vector<u64> offs(256); Model m; m.v = s.m.v; if (m.v.size() <= (size_t)var) return false;
        for (int x = 0; x < 256; ++x) { m.v[var] = (u8)x; m.stamp = newStamp(); offs[x] = (u64)evalExpr(l.symOff, m); }
        it = cache.emplace(l.symOff, std::move(offs)).first;
    }
    std::vector<u128> tab(256);
    for (int x = 0; x < 256; ++x)
    {
        if (it->second[x] > l.o->size - nb) return false;
        Val v = readBytes(s, l.o, it->second[x], w); if (v.e && !isC(v.e)) return false;
        tab[x] = v.e ? v.e->c : (u128)v.v;
    }
    if (!affineTable(tab)) return false;
    Expr* r = mkConst(tab[0], w); Expr* e = mkVar((u32)var);
    for (unsigned b = 0; b < 8; ++b) if (tab[(size_t)1 << b] != tab[0]) r = mkBin(X_XOR, r, mkIte(mkExtract(e, b, 1), mkConst(tab[(size_t)1 << b] ^ tab[0], w), mkConst(0, w)));
    out = V(r); return true;
}
static Val loadVal(State& s, const Val& addr, u64 extra, unsigned w)
{
    unsigned nb = (w + 7) / 8;
    Val a = addr;
    if (extra) a = a.e ? V(mkBin(X_ADD, a.e, mkConst(extra, 64))) : C(a.v + extra);
    Loc l = resolve(s, a, nb, false, "read");
    if (!l.symOff || isC(l.symOff)) return readBytes(s, l.o, l.off, w);
    { Val tv; if (tableOfByte(s, l, nb, w, tv)) return tv; }
    u64 lo, hi, st;
    if (!offRange(s, l.symOff, l.o->size - nb, lo, hi, st)) { addIncomplete("solver gave up on an address range"); u64 o = concretize(s, V(l.symOff), 64, "an address"); return readBytes(s, l.o, o, w); }
    u64 cnt = (hi - lo) / st + 1;
    if (cnt == 1) return readBytes(s, l.o, lo, w);
    if (cnt > 2048) { u64 o = concretize(s, V(l.symOff), 64, "an address"); return readBytes(s, l.o, o, w); }
    std::vector<Expr*> vals; bool conc = true; std::vector<u128> tab;
    for (u64 o = lo; o <= hi; o += st) { Expr* e = E(readBytes(s, l.o, o, w), w); vals.push_back(e); if (isC(e)) tab.push_back(e->c); else conc = false; }
    unsigned k = (unsigned)__builtin_ctzll(st);
    Expr* rel = mkBin(X_SUB, l.symOff, mkConst(lo, 64));
    unsigned nbits = 64 - (unsigned)__builtin_clzll(cnt - 1);
    Expr* idx = mkExtract(rel, k, nbits);
    if (conc && cnt >= 16)
    {
        // GF(2)-affine tables (CRC tables) become XORs of index bits
        if ((cnt & (cnt - 1)) == 0 && affineTable(tab))
        {
            Expr* r = mkConst(tab[0], w);
            for (unsigned b = 0; b < nbits; ++b) r = mkBin(X_XOR, r, mkIte(mkExtract(idx, b, 1), mkConst(tab[(size_t)1 << b] ^ tab[0], w), mkConst(0, w)));
            return V(r);
        }
    }
    return V(muxTree(idx, vals, 0, (int)nbits - 1));
}
static void storeVal(State& s, const Val& addr, u64 extra, const Val& v, unsigned w)
{
    unsigned nb = (w + 7) / 8;
    Val a = addr;
    if (extra) a = a.e ? V(mkBin(X_ADD, a.e, mkConst(extra, 64))) : C(a.v + extra);
    Loc l = resolve(s, a, nb, true, "write");
    Obj* o;
    if (!l.symOff || isC(l.symOff)) { o = ownObj(s, l.id, l.stk); writeBytes(o, l.off, v, w); return; }
    u64 lo, hi, st; bool ok = offRange(s, l.symOff, l.o->size - nb, lo, hi, st);
    u64 cnt = ok ? (hi - lo) / st + 1 : ~0ull;
    if (cnt > 24) { u64 off = concretize(s, V(l.symOff), 64, "a write address"); o = ownObj(s, l.id, l.stk); writeBytes(o, off, v, w); return; }
    o = ownObj(s, l.id, l.stk);
    for (u64 off = lo; off <= hi; off += st)
    {
        Expr* c = mkEq(l.symOff, mkConst(off, 64));
        Expr* old = E(readBytes(s, o, off, w), w);
        writeBytes(o, off, V(mkIte(c, E(v, w), old)), w);
    }
}
static u8 memByteC(State& s, u64 addr) // concrete byte (constants, typeinfo)
{
    u32 id; bool stk; Obj* o = findObj(s, addr, id, stk); u64 off = addr & 0xffffffffull;
    if (!o || o->kind == OK_FREED || off >= o->size) return 0;
    return o->pg[off / PSZ]->c[off % PSZ];
}
static u64 mem64(State& s, u64 addr) { u64 v = 0; for (int i = 0; i < 8; ++i) v |= (u64)memByteC(s, addr + i) << (8 * i); return v; }
static Str cstr(State& s, u64 addr) { Str r; while (r.size() < 4096) { u8 c = memByteC(s, addr + r.size()); if (!c) break; r.push_back((char)c); } return r; }
static void memCopy(State& s, const Val& dst, const Val& src, u64 n)
{
    if (n == 0) return;
    // fork on symbolic pointers: concretise them
    Val d = dst, sr = src;
    if (d.e) { Loc l = resolve(s, d, n, true, "write"); (void)l; d = C(concretize(s, d, 64, "a copy destination")); }
    if (sr.e) { Loc l = resolve(s, sr, n, false, "read"); (void)l; sr = C(concretize(s, sr, 64, "a copy source")); }
    Loc ls = resolve(s, sr, n, false, "read");
    Loc ld = resolve(s, d, n, true, "write");
    std::vector<u8> cb(n); std::vector<Expr*> eb(n);
    for (u64 i = 0; i < n; ++i) { Page* p = ls.o->pg[(ls.off + i) / PSZ]; u32 k = (ls.off + i) % PSZ; cb[i] = p->c[k]; eb[i] = p->s ? p->s[k] : nullptr; }
    Obj* o = ownObj(s, ld.id, ld.stk);
    for (u64 i = 0; i < n; ++i) writeByte(o, ld.off + i, eb[i], cb[i]);
}

// ------------------------------------------------------------------ exceptions and type info
static Str tiName(u64 ti) { for (auto& g : gaddr) if (g.second == ti) return g.first->getName().str(); return "?"; }
static std::unordered_map<u64, Str> tiNames;
static const char* stdBase(const Str& n)
{
    static const std::map<Str, const char*> B = {{"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"}, {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"}, {"_ZTISt8bad_cast", "_ZTISt9exception"}, {"_ZTISt18bad_variant_access", "_ZTISt9exception"}, {"_ZTISt19bad_optional_access", "_ZTISt9exception"}, {"_ZTISt17bad_function_call", "_ZTISt9exception"}, {"_ZTISt12system_error", "_ZTISt13runtime_error"}};
    auto it = B.find(n); return it == B.end() ? nullptr : it->second;
}
static const Str& tiN(u64 ti) { auto it = tiNames.find(ti); if (it != tiNames.end()) return it->second; return tiNames[ti] = tiName(ti); }
// all base type infos with offsets (non-virtual inheritance)
static void tiBases(State& s, u64 ti, i64 off, std::vector<std::pair<u64, i64>>& out)
{
    out.push_back({ti, off});
    const Str& n = tiN(ti);
    if (const char* b = stdBase(n)) { for (auto& g : gaddr) if (g.first->getName() == b) { tiBases(s, g.second, off, out); return; } 
        // base not referenced in module: still follow the chain by name
        return; }
    u64 vt = mem64(s, ti); if (!vt) return;
    u32 id = (u32)(vt >> 32) - 1; if (id >= s.heap.v.size()) return;
    const char* vn = s.heap.v[id]->name; if (!vn) return;
    Str v = vn;
    if (v == "_ZTVN10__cxxabiv120__si_class_type_infoE") tiBases(s, mem64(s, ti + 16), off, out);
    else if (v == "_ZTVN10__cxxabiv121__vmi_class_type_infoE")
    {
        u32 cnt = (u32)(mem64(s, ti + 16) >> 32);
        for (u32 i = 0; i < cnt; ++i) { u64 b = mem64(s, ti + 24 + 16 * i); i64 of = (i64)mem64(s, ti + 32 + 16 * i); if (of & 1) continue; tiBases(s, b, off + (of >> 8), out); }
    }
}
static bool tiMatch(State& s, u64 thrown, u64 want, i64& adj)
{
    adj = 0;
    if (want == 0) return true; // catch (...)
    std::vector<std::pair<u64, i64>> b; tiBases(s, thrown, 0, b);
    for (auto& x : b) if (x.first == want) { adj = x.second; return true; }
    // named std chain when intermediate typeinfos are absent from the module
    Str n = tiN(thrown); const Str& w = tiN(want);
    for (auto& x : b) { Str m = tiN(x.first); while (const char* p = stdBase(m)) { if (w == p) return true; m = p; } }
    return false;
}
static void popFrame(State& s) { Frame* f = s.fr.back(); while (s.stk.v.size() > f->stackBase) s.stk.pop(); s.fr.pop_back(); if (--f->rc == 0) delete f; }
static void setReg(State& s, i32 r, const Val& v) { s.top()->r[(size_t)r] = v; }
static void takeEdge(State& s, u32 e);
static void unwind(State& s)
{
    // the current top frame holds the call/throw instruction
    for (;;)
    {
        if (s.fr.empty()) break;
        Frame* f = s.fr.back(); const Inst& in = f->f->code[f->pc];
        if (in.op == I_CALL && ((CallInfo*)in.aux)->invoke)
        {
            CallInfo* ci = (CallInfo*)in.aux;
            u32 tgt = f->f->edges[ci->unwind].target;
            const Inst& lp = f->f->code[tgt];
            if (lp.op == I_LPAD)
            {
                LpadInfo* li = (LpadInfo*)lp.aux; bool stop = li->cleanup; u64 sel = 0; i64 adj = 0;
                for (auto& c : li->clauses)
                {
                    if (c.first) { if (tiMatch(s, s.cur.ti, c.second[0], adj)) { sel = c.second[0] ? c.second[0] >> 32 : 0x7fffffff; stop = true; break; } }
                    else { bool any = false; for (u64 t : c.second) if (tiMatch(s, s.cur.ti, t, adj)) any = true; if (!any) { sel = 0xffffffffu; stop = true; break; } }
                }
                if (stop)
                {
                    takeEdge(s, ci->unwind);
                    Frame* t = s.top();
                    t->r[(size_t)lp.dst] = C(s.cur.obj + (sel ? adj : 0)); t->r[(size_t)lp.dst + 1] = C(sel);
                    ++t->pc; // past the landingpad
                    return;
                }
            }
        }
        if (s.fr.size() == 1) { fault(s, "uncaught exception", "exception of type " + demangle(tiN(s.cur.ti).size() > 4 ? "_Z" + tiN(s.cur.ti).substr(4) : "?") + " escapes"); }
        popFrame(s);
    }
    throw PathEnd();
}
static u64 stdTi(const char* name)
{
    if (auto* g = M->getNamedGlobal(name)) return addrOf(g);
    static std::map<Str, u64> made; auto it = made.find(name);
    if (it != made.end()) return it->second;
    return made[name] = 0;
}
static void throwStd(State& s, const char* tiname)
{
    u64 ti = stdTi(tiname);
    if (!ti) { addIncomplete(Str("std exception type not in module: ") + tiname); throw PathEnd(); }
    u32 id = allocObj(s, 64, OK_HEAP, 0, "exception"); s.cur = {heapAddr(id), ti};
    unwind(s);
    throw Retry();
}

// ------------------------------------------------------------------ control
static void takeEdge(State& s, u32 ei)
{
    Frame* f = s.top(); Edge& e = f->f->edges[ei];
    if (e.copies.size() == 1) { Copy& c = e.copies[0]; f->r[(size_t)c.dst] = c.src >= 0 ? f->r[(size_t)c.src] : cpool[(size_t)~c.src]; }
    else if (!e.copies.empty())
    {
        Val tmp[64]; std::vector<Val> big; Val* t = tmp; if (e.copies.size() > 64) { big.resize(e.copies.size()); t = big.data(); }
        size_t i = 0; for (auto& c : e.copies) t[i++] = c.src >= 0 ? f->r[(size_t)c.src] : cpool[(size_t)~c.src];
        i = 0; for (auto& c : e.copies) f->r[(size_t)c.dst] = t[i++];
    }
    f->pc = e.target;
}
static inline Val opv(Frame* f, i32 i, u32 k = 0) { return i >= 0 ? f->r[(size_t)i + k] : cpool[(size_t)(~i) + k]; }
static void pushFrame(State& s, Func* f, const Inst* call)
{
    if (!f->compiled) { Compiler c; c.f = f; c.run(); }
    f->visited = true;
    Frame* n = new Frame; n->rc = 1; n->f = f; n->pc = 0; n->stackBase = (u32)s.stk.v.size(); n->call = call; n->va = C(0); n->r.assign(f->nregs, C(0));
    s.fr.push_back(n);
    if (s.fr.size() > 400) fault(s, "stack overflow", "call depth exceeds 400");
}
static u64 allocStack(State& s, u64 size, u8 fill) { s.stk.v.push_back(newObj(size, OK_STACK, fill, nullptr)); return (u64)(STACK_BASE + s.stk.v.size() - 1) << 32; }

static Val binVal(State& s, u8 op, const Val& a, const Val& b, unsigned w)
{
    if (op >= X_UDIV && op <= X_SREM)
    {
        Expr* z = b.e ? mkEq(b.e, mkConst(0, w)) : mkConst(b.v == 0 && w <= 64, 1);
        if (branch(s, z)) fault(s, "division", "division by zero");
        if ((op == X_SDIV || op == X_SREM))
        {
            Expr* ov = mkAnd1(mkEq(E(b, w), mkConst(~(u128)0, w)), mkEq(E(a, w), mkConst((u128)1 << (w - 1), w)));
            if (branch(s, ov)) fault(s, "division", "signed division overflow");
        }
    }
    if (!a.e && !b.e && w <= 64)
    {
        u64 m = mask64(w), x = a.v, y = b.v;
        switch (op)
        {
        case X_ADD: return C((x + y) & m); case X_SUB: return C((x - y) & m); case X_MUL: return C((x * y) & m); case X_AND: return C(x & y); case X_OR: return C(x | y); case X_XOR: return C(x ^ y);
        case X_SHL: return C(y >= w ? 0 : (x << y) & m); case X_LSHR: return C(y >= w ? 0 : x >> y);
        case X_UDIV: return C(x / y); case X_UREM: return C(x % y);
        default: return C((u64)foldBin(op, x, y, w));
        }
    }
    return V(mkBin(op, E(a, w), E(b, w)));
}
static Val icmpVal(unsigned pred, const Val& a, const Val& b, unsigned w)
{
    if (!a.e && !b.e && w <= 64)
    {
        u64 x = a.v, y = b.v; i64 sx = sx64(x, w), sy = sx64(y, w);
        switch (pred) { case CmpInst::ICMP_EQ: return C(x == y); case CmpInst::ICMP_NE: return C(x != y); case CmpInst::ICMP_UGT: return C(x > y); case CmpInst::ICMP_UGE: return C(x >= y); case CmpInst::ICMP_ULT: return C(x < y); case CmpInst::ICMP_ULE: return C(x <= y); case CmpInst::ICMP_SGT: return C(sx > sy); case CmpInst::ICMP_SGE: return C(sx >= sy); case CmpInst::ICMP_SLT: return C(sx < sy); default: return C(sx <= sy); }
    }
    Expr *x = E(a, w), *y = E(b, w);
    switch (pred) { case CmpInst::ICMP_EQ: return V(mkEq(x, y)); case CmpInst::ICMP_NE: return V(mkNot(mkEq(x, y))); case CmpInst::ICMP_UGT: return V(mkCmp(X_ULT, y, x)); case CmpInst::ICMP_UGE: return V(mkCmp(X_ULE, y, x)); case CmpInst::ICMP_ULT: return V(mkCmp(X_ULT, x, y)); case CmpInst::ICMP_ULE: return V(mkCmp(X_ULE, x, y)); case CmpInst::ICMP_SGT: return V(mkCmp(X_SLT, y, x)); case CmpInst::ICMP_SGE: return V(mkCmp(X_SLE, y, x)); case CmpInst::ICMP_SLT: return V(mkCmp(X_SLT, x, y)); default: return V(mkCmp(X_SLE, x, y)); }
}
static Val iteVal(const Val& c, const Val& a, const Val& b, unsigned w)
{
    if (!c.e) return (c.v & 1) ? a : b;
    if (!a.e && !b.e && a.v == b.v) return a;
    return V(mkIte(c.e, E(a, w), E(b, w)));
}

#include "natives.inc"

static void doReturn(State& s, const Val* rv, u32 n)
{
    const Inst* call = s.fr.back()->call;
    popFrame(s);
    if (s.fr.empty()) { ++nPaths; throw PathEnd(); }
    Frame* f = s.top();
    if (!call) { ++f->pc; return; }
    if (call->dst >= 0) for (u32 i = 0; i < n; ++i) f->r[(size_t)call->dst + i] = rv[i];
    CallInfo* ci = (CallInfo*)call->aux;
    if (ci->invoke) takeEdge(s, ci->normal); else ++f->pc;
}
static void finishCall(State& s, const Inst& in, const Val* rv, u32 n)
{
    Frame* f = s.top();
    if (in.dst >= 0) for (u32 i = 0; i < n; ++i) f->r[(size_t)in.dst + i] = rv[i];
    CallInfo* ci = (CallInfo*)in.aux;
    if (ci->invoke) takeEdge(s, ci->normal); else ++f->pc;
}
static void callFunc(State& s, const Inst& in, Func* f)
{
    CallInfo* ci = (CallInfo*)in.aux;
    int nid = f->native; if (nid == -1) nid = f->native = nativeId(f->name);
    if (nid >= 0)
    {
        Val rv[4] = {C(0), C(0), C(0), C(0)};
        f->visited = true;
        if (callNative(s, in, *ci, nid, rv)) finishCall(s, in, rv, ci->retn);
        return;
    }
    if (f->F->isDeclaration()) unsup(s, "external function " + demangle(f->name));
    Frame* cur = s.fr.back();
    std::vector<Val> args; for (size_t i = 0; i < ci->args.size(); ++i) for (u32 k = 0; k < ci->argn[i]; ++k) args.push_back(opv(cur, ci->args[i], k));
    // byval arguments are copied by the callee's frame
    std::vector<std::pair<size_t, u64>> bv; { size_t p = 0; for (size_t i = 0; i < ci->args.size(); ++i) { if (ci->byval[i]) bv.push_back({p, ci->byval[i]}); p += ci->argn[i]; } }
    pushFrame(s, f, &in);
    for (auto& b : bv) { u64 a = allocStack(s, b.second, 0xAA); memCopy(s, C(a), args[b.first], b.second); args[b.first] = C(a); }
    Frame* nf = s.top(); size_t p = 0;
    for (size_t i = 0; i < f->argReg.size(); ++i) for (u32 k = 0; k < f->argN[i]; ++k) { if (p < args.size()) nf->r[f->argReg[i] + k] = args[p]; ++p; }
    if (f->F->isVarArg() && p < args.size())
    {
        u64 n = args.size() - p; u64 a = allocStack(s, n * 8 + 8, 0); Frame* q = s.top(); q->va = C(a);
        u32 id = (u32)(a >> 32) - STACK_BASE; Obj* o = s.stk.own(id);
        for (u64 i = 0; i < n; ++i) writeBytes(o, i * 8, args[p + i].e ? V(mkZext(args[p + i].e, 64)) : args[p + i], 64);
    }
}

static void step(State& s)
{
    Frame* f = s.top();
    const Inst& in = f->f->code[f->pc];
    ++s.steps; ++nSteps;
    auto R = [&](u32 k) -> Val& { return f->r[(size_t)in.dst + k]; };
    switch (in.op)
    {
    case I_NOP: ++f->pc; return;
    case I_BIN: {
        for (u32 k = 0; k < in.n; ++k) { Val r = binVal(s, (u8)in.sub, opv(f, in.a, k), opv(f, in.b, k), in.w); R(k) = r; }
        ++f->pc; return;
    }
    case I_ICMP: for (u32 k = 0; k < in.n; ++k) R(k) = icmpVal(in.sub, opv(f, in.a, k), opv(f, in.b, k), in.w); ++f->pc; return;
    case I_FBIN:
        for (u32 k = 0; k < in.n; ++k) { Val a = opv(f, in.a, k), b = opv(f, in.b, k); if (!a.e && !b.e) R(k) = C((u64)foldFp((u8)in.sub, in.w, 0, a.v, in.w, b.v, in.w)); else R(k) = V(mkFp((u8)in.sub, in.w, 0, E(a, in.w), E(b, in.w))); }
        ++f->pc; return;
    case I_FNEG: for (u32 k = 0; k < in.n; ++k) { Val a = opv(f, in.a, k); R(k) = V(mkFp(X_FNEG, in.w, 0, E(a, in.w))); } ++f->pc; return;
    case I_FCMP: for (u32 k = 0; k < in.n; ++k) { Val a = opv(f, in.a, k), b = opv(f, in.b, k); R(k) = V(mkFp(X_FCMP, 1, in.sub, E(a, in.w), E(b, in.w))); } ++f->pc; return;
    case I_CAST: {
        if (in.sub == Instruction::BitCast)
        {
            // vector <-> scalar of different element counts: go through bits (total <= 128)
            Expr* all = nullptr; for (u32 k = 0; k < in.imm; ++k) { Expr* e = E(opv(f, in.a, k), in.w2); all = all ? mkConcat(e, all) : e; }
            for (u32 k = 0; k < in.n; ++k) R(k) = V(mkExtract(all, k * in.w, in.w));
            ++f->pc; return;
        }
        for (u32 k = 0; k < in.n; ++k)
        {
            Val a = opv(f, in.a, k); Val r;
            switch (in.sub)
            {
            case Instruction::ZExt: r = !a.e && in.w <= 64 ? C(a.v) : V(mkZext(E(a, in.w2), in.w)); break;
            case Instruction::SExt: r = !a.e && in.w <= 64 ? C((u64)sx64(a.v, in.w2) & mask64(in.w)) : V(mkSext(E(a, in.w2), in.w)); break;
            case Instruction::Trunc: r = !a.e ? C(a.v & mask64(in.w)) : V(mkExtract(a.e, 0, in.w)); break;
            case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast:
                if (in.w == in.w2) r = a; else if (in.w < in.w2) r = !a.e ? C(a.v & mask64(in.w)) : V(mkExtract(a.e, 0, in.w)); else r = V(mkZext(E(a, in.w2), in.w)); break;
            default: {
                u8 o = in.sub == Instruction::FPExt ? X_FPEXT : in.sub == Instruction::FPTrunc ? X_FPTRUNC : in.sub == Instruction::FPToUI ? X_FPTOUI : in.sub == Instruction::FPToSI ? X_FPTOSI : in.sub == Instruction::UIToFP ? X_UITOFP : X_SITOFP;
                if (!a.e && in.w <= 64) r = C((u64)foldFp(o, in.w, 0, a.v, in.w2, 0, 0)); else r = V(mkFp(o, in.w, 0, E(a, in.w2)));
            }
            }
            R(k) = r;
        }
        ++f->pc; return;
    }
    case I_SELECT: {
        auto& ws = *(std::vector<u16>*)in.aux;
        if (!in.imm)
        {
            // a choice that depends on a checksum comparison is decided by forking: the comparison then stays out of later values
            Val c = opv(f, in.a, 0); Expr* q = c.e ? (c.e->op == X_NOT ? c.e->k[0] : c.e) : nullptr;
            if (q && q->op == X_LINEQ && linRowCount(q) >= 8) { bool t = branch(s, c.e); for (u32 k = 0; k < in.n; ++k) R(k) = opv(f, t ? in.b : in.c, k); ++f->pc; return; }
        }
        for (u32 k = 0; k < in.n; ++k) { Val c = opv(f, in.a, in.imm ? k : 0); R(k) = iteVal(c, opv(f, in.b, k), opv(f, in.c, k), ws[k]); }
        ++f->pc; return;
    }
    case I_GEP: {
        Val b = opv(f, in.a); auto& t = *(std::vector<GepTerm>*)in.aux; u64 off = in.imm; Expr* se = nullptr;
        for (auto& x : t)
        {
            Val i = opv(f, x.op);
            if (!i.e) off += (u64)sx64(i.v, x.w) * x.scale;
            else { Expr* e = x.w == 64 ? i.e : mkSext(i.e, 64); e = mkBin(X_MUL, e, mkConst(x.scale, 64)); se = se ? mkBin(X_ADD, se, e) : e; }
        }
        if (!b.e && !se) R(0) = C(b.v + off);
        else { Expr* e = E(b, 64); if (se) e = mkBin(X_ADD, e, se); e = mkBin(X_ADD, e, mkConst(off, 64)); R(0) = V(e); }
        ++f->pc; return;
    }
    case I_LOAD: {
        auto& ll = *(std::vector<Leaf>*)in.aux; Val a = opv(f, in.a);
        for (size_t k = 0; k < ll.size(); ++k) { Val r = loadVal(s, a, ll[k].off, ll[k].w); R((u32)k) = r; }
        ++f->pc; return;
    }
    case I_STORE: {
        auto& ll = *(std::vector<Leaf>*)in.aux; Val a = opv(f, in.a);
        for (size_t k = 0; k < ll.size(); ++k) storeVal(s, a, ll[k].off, opv(f, in.b, (u32)k), ll[k].w);
        ++f->pc; return;
    }
    case I_ALLOCA: { u64 n = concretize(s, opv(f, in.a), in.w2, "an alloca size"); R(0) = C(allocStack(s, n * in.imm, 0xAA)); ++f->pc; return; }
    case I_BR: takeEdge(s, (u32)in.a); return;
    case I_CBR: {
        Val c = opv(f, in.a);
        if (!c.e) { takeEdge(s, (u32)((c.v & 1) ? in.b : in.c)); return; }
        bool t = branch(s, c.e); takeEdge(s, (u32)(t ? in.b : in.c)); return;
    }
    case I_SWITCH: {
        auto& si = *(SwitchInfo*)in.aux; Val v = opv(f, in.a);
        if (!v.e) { u32 d = si.def; for (auto& c : si.cases) if (c.first == v.v) { d = c.second; break; } takeEdge(s, d); return; }
        // group the cases by destination
        u64 mv = (u64)evalExpr(v.e, s.m); u32 d = si.def; for (auto& c : si.cases) if (c.first == mv) { d = c.second; break; }
        Expr* g = nullptr;
        if (d == si.def) { g = mkConst(1, 1); for (auto& c : si.cases) if (c.second != d) g = mkAnd1(g, mkNot(mkEq(v.e, mkConst(c.first, in.w)))); }
        else { g = mkConst(0, 1); for (auto& c : si.cases) if (c.second == d) g = mkOr1(g, mkEq(v.e, mkConst(c.first, in.w))); }
        bool t = branch(s, g); if (!t) throw Retry();
        takeEdge(s, d); return;
    }
    case I_RET: { Val rv[64]; if (in.n > 64) unsup(s, "wide return"); for (u32 k = 0; k < in.n; ++k) rv[k] = opv(f, in.a, k); doReturn(s, rv, in.n); return; }
    case I_UNREACH: fault(s, "undefined behaviour", "execution reaches code marked unreachable");
    case I_RESUME: {
        // pop this frame and continue unwinding in the caller
        if (s.fr.size() == 1) fault(s, "uncaught exception", "exception of type " + demangle(tiN(s.cur.ti).size() > 4 ? "_Z" + tiN(s.cur.ti).substr(4) : "?") + " escapes");
        popFrame(s); unwind(s); return;
    }
    case I_LPAD: unsup(s, "landingpad reached by fallthrough");
    case I_MOV: {
        if (in.n == 1) { R(0) = opv(f, in.a); ++f->pc; return; }
        std::vector<Val> t; for (u32 k = 0; k < in.n; ++k) t.push_back(opv(f, in.a, k));
        for (u32 k = 0; k < in.n; ++k) R(k) = t[k];
        ++f->pc; return;
    }
    case I_EXTRELT: {
        Val i = opv(f, in.b);
        if (!i.e) { R(0) = opv(f, in.a, (u32)(i.v % in.n)); ++f->pc; return; }
        Expr* r = E(opv(f, in.a, 0), in.w); for (u32 k = 1; k < in.n; ++k) r = mkIte(mkEq(i.e, mkConst(k, in.w2)), E(opv(f, in.a, k), in.w), r);
        R(0) = V(r); ++f->pc; return;
    }
    case I_INSELT: {
        Val i = opv(f, in.c); std::vector<Val> t; Val nv = opv(f, in.b);
        for (u32 k = 0; k < in.n; ++k) { Val o = opv(f, in.a, k); if (!i.e) t.push_back(i.v == k ? nv : o); else t.push_back(iteVal(V(mkEq(i.e, mkConst(k, in.w2))), nv, o, in.w)); }
        for (u32 k = 0; k < in.n; ++k) R(k) = t[k];
        ++f->pc; return;
    }
    case I_RMW: {
        Val a = opv(f, in.a), v = opv(f, in.b); Val old = loadVal(s, a, 0, in.w); Val nv;
        switch (in.sub)
        {
        case AtomicRMWInst::Xchg: nv = v; break; case AtomicRMWInst::Add: nv = binVal(s, X_ADD, old, v, in.w); break; case AtomicRMWInst::Sub: nv = binVal(s, X_SUB, old, v, in.w); break;
        case AtomicRMWInst::And: nv = binVal(s, X_AND, old, v, in.w); break; case AtomicRMWInst::Or: nv = binVal(s, X_OR, old, v, in.w); break; default: unsup(s, "atomicrmw");
        }
        storeVal(s, a, 0, nv, in.w); R(0) = old; ++f->pc; return;
    }
    case I_CMPXCHG: {
        Val a = opv(f, in.a); Val old = loadVal(s, a, 0, in.w); Val eq = icmpVal(CmpInst::ICMP_EQ, old, opv(f, in.b), in.w);
        storeVal(s, a, 0, iteVal(eq, opv(f, in.c), old, in.w), in.w); R(0) = old; R(1) = eq; ++f->pc; return;
    }
    case I_CALL: {
        CallInfo* ci = (CallInfo*)in.aux;
        if (ci->iid != Intrinsic::not_intrinsic) { callIntrinsic(s, in, *ci); return; }
        Func* cf = ci->f;
        if (!cf)
        {
            Val t = opv(f, in.a); u64 a = concretize(s, t, 64, "a function pointer");
            auto it = funcByAddr.find(a); if (it == funcByAddr.end()) fault(s, "memory", "call through an invalid function pointer");
            cf = it->second;
        }
        callFunc(s, in, cf); return;
    }
    default: { Str n = in.src->getOpcodeName(); unsup(s, "instruction " + n); }
    }
}
static void runState(State* s)
{
    u64 last = nSteps;
    try
    {
        for (;;)
        {
            try { for (;;) { step(*s); if (((++last) & 0x3fff) == 0) { if (elapsed() > maxSecs) { timedOut = true; addIncomplete("time budget exhausted"); throw PathEnd(); } } if (s->steps > maxSteps) { fault(*s, "nontermination", "step limit exceeded"); } } }
            catch (Retry&) { if (elapsed() > maxSecs) { timedOut = true; addIncomplete("time budget exhausted"); throw PathEnd(); } }
        }
    }
    catch (PathEnd&) {}
    delete s;
}
static size_t rssMb() { FILE* f = fopen("/proc/self/statm", "r"); if (!f) return 0; long a = 0, b = 0; if (fscanf(f, "%ld %ld", &a, &b) != 2) b = 0; fclose(f); return (size_t)b * 4096 / 1048576; }
static void explore(State* s0)
{
    work.push_back(s0); u64 k = 0;
    while (!work.empty())
    {
        if (elapsed() > maxSecs) { timedOut = true; addIncomplete("time budget exhausted"); break; }
        if ((++k & 63) == 0 && rssMb() > memLimitMb) { timedOut = true; addIncomplete("memory budget exhausted"); break; }
        if (viols.size() >= maxViol) break;
        State* s = work.back(); work.pop_back();
        runState(s);
    }
    for (State* s : work) delete s;
    work.clear();
}
// Runs one function to completion on a single concrete path (global constructors, sx_setup)
static bool runConcrete(State& s, Func* f)
{
    size_t depth = s.fr.size();
    pushFrame(s, f, nullptr);
    try { while (s.fr.size() > depth) { 
            if (s.fr.size() == depth + 1 && s.fr.back()->f->code[s.fr.back()->pc].op == I_RET) { popFrame(s); break; }
            try { step(s); } catch (Retry&) {} if (!work.empty()) { fprintf(stderr, "symx: fork during initialisation\n"); return false; } } }
    catch (PathEnd&) { fprintf(stderr, "symx: initialisation failed in %s\n", f->name.c_str()); for (auto& v : viols) fprintf(stderr, "  %s %s %s\n%s", v.kind.c_str(), v.msg.c_str(), v.where.c_str(), v.func.c_str()); for (auto& i : incompletes) fprintf(stderr, "  %s\n", i.first.c_str()); return false; }
    return true;
}
static Str jesc(const Str& s) { Str r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if ((u8)c < 0x20 || (u8)c >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", (u8)c); r += b; } else r += c; } return r; }
static void writeResult(FILE* o, const Str& outdir)
{
    (void)outdir;
    fprintf(o, "{\"job\":\"%s\",\"case\":%d,\"paths\":%llu,\"err_paths\":%llu,\"steps\":%llu,\"forks\":%llu,\"asserts\":%llu,\"assert_queries\":%llu,\"queries\":%llu,\"z3calls\":%llu,\"cache_hits\":%llu,\"unsat\":%llu,\"sat\":%llu,\"unknown\":%llu,\"fp_escalations\":%llu,\"z3_s\":%.3f,\"wall_s\":%.3f,\"rss_mb\":%zu,\"exprs\":%llu,\n", jesc(jobName).c_str(), jobCase, (unsigned long long)nPaths, (unsigned long long)nErrPaths, (unsigned long long)nSteps, (unsigned long long)nForks, (unsigned long long)nAsserts, (unsigned long long)nAssertQ, (unsigned long long)g_sst.queries, (unsigned long long)g_sst.z3calls, (unsigned long long)g_sst.cacheHits, (unsigned long long)g_sst.unsat, (unsigned long long)g_sst.sat, (unsigned long long)g_sst.unknown, (unsigned long long)g_sst.fpEsc, g_sst.z3secs, elapsed(), rssMb(), (unsigned long long)g_nexpr);
    auto mapj = [&](const char* n, std::map<Str, u64>& m) { fprintf(o, "\"%s\":{", n); bool first = true; for (auto& x : m) { fprintf(o, "%s\"%s\":%llu", first ? "" : ",", jesc(x.first).c_str(), (unsigned long long)x.second); first = false; } fprintf(o, "},\n"); };
    mapj("incomplete", incompletes); mapj("reached", reached); mapj("expected", expected);
    fprintf(o, "\"functions\":[");
    bool first = true; std::set<Str> fnames; std::set<const void*> seenSp;
    auto addSp = [&](const DISubprogram* sp) { if (!sp || !seenSp.insert(sp).second) return; if (sp->getFilename().find("/repo/") == StringRef::npos) return; Str ln = sp->getLinkageName().str(); Str nm = ln.empty() ? sp->getName().str() : demangle(ln); fnames.insert(nm.substr(0, 160)); };
    for (auto& fp : funcs)
    {
        Func* f = fp.second; if (!f->visited) continue;
        addSp(f->F->getSubprogram());
        for (auto& B : *f->F) for (auto& I : B) for (const DILocation* l = I.getDebugLoc().get(); l; l = l->getInlinedAt()) addSp(l->getScope()->getSubprogram());
    }
    for (auto& nm : fnames) { fprintf(o, "%s\"%s\"", first ? "" : ",", jesc(nm).c_str()); first = false; }
    fprintf(o, "],\n\"violations\":[");
    first = true;
    for (auto& v : viols)
    {
        fprintf(o, "%s{\"kind\":\"%s\",\"msg\":\"%s\",\"where\":\"%s\",\"stack\":\"%s\",\"inputs\":[", first ? "" : ",", jesc(v.kind).c_str(), jesc(v.msg).c_str(), jesc(v.where).c_str(), jesc(v.func).c_str()); first = false;
        for (size_t i = 0; i < v.inputs.size(); ++i) { fprintf(o, "%s[\"%s\",\"", i ? "," : "", jesc(v.inputs[i].name).c_str()); for (u8 b : v.bytes[i]) fprintf(o, "%02x", b); fprintf(o, "\"]"); }
        fprintf(o, "]}");
    }
    fprintf(o, "]}\n");
}

int main(int argc, char** argv)
{
    // usage: symx module.bc --out DIR --jobs N [--time S] [--mem MB] job[:case] ...
    Str bc, out = "."; int par = 8; std::vector<std::pair<Str, int>> jobs; bool single = false; double total = 1e9;
    for (int i = 1; i < argc; ++i)
    {
        Str a = argv[i];
        if (a == "--out") out = argv[++i];
        else if (a == "--jobs") par = atoi(argv[++i]);
        else if (a == "--time") maxSecs = atof(argv[++i]);
        else if (a == "--total") total = atof(argv[++i]);
        else if (a == "--mem") memLimitMb = (u64)atoll(argv[++i]);
        else if (a == "--qt") g_queryTimeoutMs = (unsigned)atoi(argv[++i]);
        else if (a == "--maxviol") maxViol = (size_t)atoi(argv[++i]);
        else if (a == "-v") verbose = true;
        else if (a == "--single") single = true;
        else if (bc.empty()) bc = a;
        else { size_t p = a.rfind(':'); if (p != Str::npos && p + 1 < a.size() && isdigit((u8)a[p + 1])) jobs.push_back({a.substr(0, p), atoi(a.c_str() + p + 1)}); else jobs.push_back({a, 0}); }
    }
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    rlimit rl{RLIM_INFINITY, RLIM_INFINITY}; setrlimit(RLIMIT_STACK, &rl);
    SMDiagnostic err; M = parseIRFile(bc, err, ctx);
    // a harness that defines sx_model_crc32 answers the calls of the CRC function itself (its own property is decided elsewhere)
    for (auto [name, by] : {std::pair<const char*, const char*>{"_ZN7novatel4edie3oem19CalculateBlockCrc32EPKhjj", "sx_model_crc32"}, {"_ZN7novatel4edie19CalculateBlockCrc32ILj3988292384ELb1EEEjPKhjj", "sx_model_crc32_base"}})
        if (Function *model = M ? M->getFunction(by) : nullptr, *real = M ? M->getFunction(name) : nullptr; model && real && !model->isDeclaration())
        {
            std::vector<CallBase*> calls; for (User* u : real->users()) if (auto* c = dyn_cast<CallBase>(u)) if (c->getCalledFunction() == real && c->getFunction() != model) calls.push_back(c);
            for (CallBase* c : calls) c->setCalledFunction(model);
        }
    if (!M) { err.print("symx", errs()); return 2; }
    DL = &M->getDataLayout();
    init0 = new State; tStart = std::chrono::steady_clock::now();
    for (auto& F : *M) if (!F.isIntrinsic()) addrOf(&F);
    initGlobals();
    for (auto& g : M->globals()) if (g.getName().starts_with("_ZTI")) tiNames[addrOf(&g)] = g.getName().str();
    maxSteps = ~0ull;
    // global constructors
    if (auto* gc = M->getNamedGlobal("llvm.global_ctors"))
        if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer()))
        {
            std::vector<std::pair<u64, Function*>> cs;
            for (unsigned i = 0; i < ca->getNumOperands(); ++i) { auto* cst = cast<ConstantStruct>(ca->getOperand(i)); if (auto* F = dyn_cast<Function>(cst->getOperand(1)->stripPointerCasts())) cs.push_back({cast<ConstantInt>(cst->getOperand(0))->getZExtValue(), F}); }
            std::stable_sort(cs.begin(), cs.end(), [](auto& a, auto& b) { return a.first < b.first; });
            for (auto& c : cs) if (!runConcrete(*init0, getFunc(c.second))) return 3;
        }
    if (auto* F = M->getFunction("sx_setup")) if (!F->isDeclaration()) if (!runConcrete(*init0, getFunc(F))) return 3;
    for (auto& f : funcs) f.second->visited = false;
    if (verbose) fprintf(stderr, "init: %.2fs, %llu steps, %zu objects\n", elapsed(), (unsigned long long)nSteps, init0->heap.v.size());
    nSteps = nForks = 0; maxSteps = 200000000ull;
    auto runJob = [&](const Str& name, int cs, double budget) {
        jobName = name; jobCase = cs; maxSecs = budget; tStart = std::chrono::steady_clock::now();
        Function* F = M->getFunction(name);
        if (!F || F->isDeclaration()) { addIncomplete("no such harness " + name); }
        else { State* s = new State(*init0); pushFrame(*s, getFunc(F), nullptr); explore(s); }
        Str fn = out + "/" + name + "." + std::to_string(cs) + ".json"; FILE* o = fopen((fn + ".tmp").c_str(), "w"); if (o) { writeResult(o, out); fclose(o); rename((fn + ".tmp").c_str(), fn.c_str()); }
    };
    if (single) { runJob(jobs[0].first, jobs[0].second, maxSecs); return 0; }
    size_t next = 0; std::map<pid_t, size_t> live; auto t0 = std::chrono::steady_clock::now(); int bad = 0;
    auto since = [&]() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };
    while (next < jobs.size() || !live.empty())
    {
        while (next < jobs.size() && (int)live.size() < par)
        {
            double left = total - since(); if (left < 1) left = 1;
            double b = std::min(maxSecs, left);
            fflush(stdout); fflush(stderr);
            pid_t p = fork();
            if (p == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); alarm((unsigned)(b + 90)); runJob(jobs[next].first, jobs[next].second, b); _exit(0); }
            live[p] = next++;
        }
        int st; pid_t p = wait(&st);
        if (p > 0 && live.count(p)) { if (!WIFEXITED(st) || WEXITSTATUS(st)) { fprintf(stderr, "symx: job %s:%d died (status %x)\n", jobs[live[p]].first.c_str(), jobs[live[p]].second, st); ++bad; } live.erase(p); }
    }
    return bad ? 4 : 0;
}
