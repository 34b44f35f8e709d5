// Native models: harness API, allocation, exception runtime, byte-wise libc primitives, floating-point text conversion of concrete values.
enum NativeId { N_BYTES, N_ASSUME, N_ASSERT, N_CASE, N_REACH, N_EXPECT, N_RANGE, N_ENUM, N_CONCRETIZE, N_NOTE, N_ISCONC, N_EQ, N_FAIL,
    N_NEW, N_NEWNT, N_DELETE, N_MALLOC, N_CALLOC, N_FREE, N_REALLOC, N_MEMCPY, N_MEMMOVE, N_MEMSET, N_BCMP, N_MEMCMP,
    N_ALLOCEXC, N_FREEEXC, N_THROW, N_BEGINCATCH, N_ENDCATCH, N_RETHROW, N_GETEXCPTR, N_DYNCAST, N_BADCAST, N_TERMINATE, N_ATEXIT, N_PUREVIRT,
    N_FCD, N_FCF, N_TCD, N_TCF, N_ROUND2I, N_ROUND2IF, N_FP1, N_FP1F, N_FP2, N_SPRINT, N_EXC_NOW, N_LDEXP };
static const int NOT_NATIVE = -2;
static void finishCall(State& s, const Inst& in, const Val* rv, u32 n);
static std::map<Str, int> fpFn = {{"floor", X_FFLOOR}, {"ceil", X_FCEIL}, {"round", X_FROUND}, {"trunc", X_FTRUNC}, {"rint", X_FRINT}, {"nearbyint", X_FRINT}, {"sqrt", X_FSQRT}, {"fabs", X_FABS}, {"exp", 0x101}, {"log", 0x102}, {"log10", 0x103}, {"exp2", 0x108}};
static std::map<Str, int> fpFn2 = {{"pow", 0}, {"fmod", 4}, {"copysign", 5}, {"fmin", 6}, {"fmax", 7}};
static int nativeId(const Str& n)
{
    static const std::unordered_map<Str, int> T = {
        {"sx_bytes", N_BYTES}, {"sx_assume", N_ASSUME}, {"sx_assert_", N_ASSERT}, {"sx_case", N_CASE}, {"sx_reach", N_REACH}, {"sx_expect", N_EXPECT}, {"sx_range", N_RANGE}, {"sx_enum", N_ENUM}, {"sx_concretize", N_CONCRETIZE}, {"sx_note", N_NOTE}, {"sx_is_concrete", N_ISCONC}, {"sx_eq", N_EQ},
        {"_Znwm", N_NEW}, {"_Znam", N_NEW}, {"_ZnwmRKSt9nothrow_t", N_NEWNT}, {"_ZnamRKSt9nothrow_t", N_NEWNT}, {"_ZdlPv", N_DELETE}, {"_ZdlPvm", N_DELETE}, {"_ZdaPv", N_DELETE}, {"_ZdaPvm", N_DELETE}, {"_ZdlPvRKSt9nothrow_t", N_DELETE}, {"malloc", N_MALLOC}, {"calloc", N_CALLOC}, {"free", N_FREE}, {"realloc", N_REALLOC},
        {"memcpy", N_MEMCPY}, {"memmove", N_MEMMOVE}, {"memset", N_MEMSET}, {"bcmp", N_BCMP}, {"memcmp", N_MEMCMP},
        {"__cxa_allocate_exception", N_ALLOCEXC}, {"__cxa_free_exception", N_FREEEXC}, {"__cxa_throw", N_THROW}, {"__cxa_begin_catch", N_BEGINCATCH}, {"__cxa_end_catch", N_ENDCATCH}, {"__cxa_rethrow", N_RETHROW}, {"__cxa_get_exception_ptr", N_GETEXCPTR}, {"__dynamic_cast", N_DYNCAST}, {"_ZSt9terminatev", N_TERMINATE}, {"abort", N_TERMINATE}, {"exit", N_TERMINATE}, {"_exit", N_TERMINATE}, {"__assert_fail", N_TERMINATE}, {"_ZSt21__glibcxx_assert_failPKciS0_S0_", N_TERMINATE}, {"__cxa_atexit", N_ATEXIT}, {"__cxa_thread_atexit", N_ATEXIT}, {"atexit", N_ATEXIT}, {"__cxa_pure_virtual", N_PUREVIRT},
        {"sx_from_chars_d", N_FCD}, {"sx_from_chars_f", N_FCF}, {"sx_to_chars_d", N_TCD}, {"sx_to_chars_f", N_TCF},
        {"llround", N_ROUND2I}, {"lround", N_ROUND2I}, {"llroundf", N_ROUND2IF}, {"lroundf", N_ROUND2IF}, {"sx_sprint_f", N_SPRINT}, {"sx_exc_now", N_EXC_NOW}, {"ldexp", N_LDEXP}};
    auto it = T.find(n); if (it != T.end()) return it->second;
    if (fpFn.count(n)) return N_FP1;
    if (fpFn2.count(n)) return N_FP2;
    if (!n.empty() && n.back() == 'f' && fpFn.count(n.substr(0, n.size() - 1))) return N_FP1F;
    return NOT_NATIVE;
}
static Str shortMsg(const Str& s) { return s.substr(0, 200); }
static u64 newHeap(State& s, u64 n, u8 fill, const char* nm = nullptr) { if (n > (1ull << 31)) return 0; return heapAddr(allocObj(s, n, OK_HEAP, fill, nm)); }
static void freeHeap(State& s, u64 a)
{
    if (!a) return;
    u32 id; bool stk = false; Obj* o = findObj(s, a, id, stk);
    if (o && !stk && o->kind == OK_FREED) fault(s, "memory", "double free");
    if (!o || stk || o->kind != OK_HEAP || (a & 0xffffffffull)) fault(s, "memory", "invalid free");
    relObj(s.heap.v[id]); s.heap.v[id] = newObj(0, OK_FREED, 0, nullptr);
}
static void doAssert(State& s, const Val& c, const Str& msg)
{
    ++nAsserts;
    if (!c.e) { if (!c.v) fault(s, "assert", msg); return; }
    Expr* bad = mkNot(c.e); ++nAssertQ;
    Model om; SatRes r = can(s, bad, om);
    if (r == S_SAT) { report(s, "assert", msg, om); ++nErrPaths; r = can(s, c.e, om); if (r != S_SAT) throw PathEnd(); s.m = om; addC(s, c.e); return; }
    if (r == S_UNKNOWN) { addIncomplete("solver gave up on assertion: " + shortMsg(msg)); if (!modelTrue(s, c.e)) throw PathEnd(); addC(s, c.e); }
}
static void doAssume(State& s, const Val& c)
{
    if (!c.e) { if (!c.v) throw PathEnd(); return; }
    if (modelTrue(s, c.e)) { addC(s, c.e); return; }
    Model om; SatRes r = can(s, c.e, om);
    if (r == S_UNKNOWN) addIncomplete("solver gave up on an assumption");
    if (r != S_SAT) throw PathEnd();
    s.m = om; addC(s, c.e);
}
static Expr* newBytes(State& s, u32 n, const Str& name) // little-endian value of n<=8 bytes
{
    Input in; in.name = name; in.var = s.nvars; in.n = n; in.isConc = false; s.inputs.push_back(in);
    Expr* r = nullptr; for (u32 i = 0; i < n; ++i) { Expr* b = mkVar(s.nvars + i); r = r ? mkConcat(b, r) : b; }
    s.nvars += n; return r;
}
// concrete bytes of [a, a+n) under the current path, forking if symbolic
static Str concBytes(State& s, u64 a, u64 n)
{
    Str r; for (u64 i = 0; i < n; ++i) { Val b = loadVal(s, C(a + i), 0, 8); r.push_back((char)concretize(s, b, 8, "text of a floating-point number")); }
    return r;
}
static Expr* eqBytes(State& s, u64 a, u64 b, u64 n)
{
    Expr* r = mkConst(1, 1);
    u64 i = 0;
    for (; i < n; ++i) { Val x = loadVal(s, C(a + i), 0, 8), y = loadVal(s, C(b + i), 0, 8); if (!x.e && !y.e) { if (x.v != y.v) return mkConst(0, 1); continue; } Expr* q = mkEq(E(x, 8), E(y, 8)); if (isC(q) && !q->c) return q; r = mkAnd1(r, q); }
    return r;
}
static bool callNative(State& s, const Inst& in, CallInfo& ci, int nid, Val* rv)
{
    Frame* f = s.fr.back();
    auto A = [&](size_t i) { return opv(f, ci.args[i]); };
    auto AC = [&](size_t i, const char* what) { return concretize(s, A(i), ci.argw[i], what); };
    switch (nid)
    {
    case N_BYTES: {
        u64 p = AC(0, "a pointer"), n = AC(1, "a size"); Str nm = cstr(s, AC(2, "a name"));
        if (n == 0) return true;
        Loc l = resolve(s, C(p), n, true, "write"); Obj* o = ownObj(s, l.id, l.stk);
        Input ip; ip.name = nm; ip.var = s.nvars; ip.n = (u32)n; ip.isConc = false; s.inputs.push_back(ip);
        for (u64 i = 0; i < n; ++i) writeByte(o, l.off + i, mkVar(s.nvars + (u32)i), 0);
        s.nvars += (u32)n; return true;
    }
    case N_RANGE: {
        u64 lo = AC(0, "a bound"), hi = AC(1, "a bound"); Str nm = cstr(s, AC(2, "a name"));
        u32 n = 1; while (n < 8 && (hi >> (8 * n))) ++n;
        Expr* e = newBytes(s, n, nm); Expr* z = mkZext(e, 64);
        while (s.m.v.size() < s.nvars) s.m.v.push_back(0);
        for (u32 i = 0; i < n; ++i) s.m.v[s.nvars - n + i] = (u8)(lo >> (8 * i));
        s.m.stamp = newStamp();
        addC(s, mkCmp(X_ULE, mkConst(lo, 64), z)); addC(s, mkCmp(X_ULE, z, mkConst(hi, 64)));
        rv[0] = V(z); return true;
    }
    case N_ENUM: {
        u64 n = AC(0, "a count"); Str nm = cstr(s, AC(1, "a name"));
        auto put = [&](State& t, u64 v) { Input ip; ip.name = nm; ip.var = 0; ip.n = 2; ip.isConc = true; ip.conc = {(u8)v, (u8)(v >> 8)}; t.inputs.push_back(ip); };
        for (u64 v = n; v-- > 1;) { State* t = forkState(s); put(*t, v); Val r = C(v); finishCall(*t, in, &r, 1); work.push_back(t); }
        put(s, 0); rv[0] = C(0); return true;
    }
    case N_ASSUME: doAssume(s, A(0).e ? V(mkExtract(A(0).e, 0, 1)) : C(A(0).v & 1)); return true;
    case N_ASSERT: { Val c = A(0).e ? V(mkExtract(A(0).e, 0, 1)) : C(A(0).v & 1); doAssert(s, c, cstr(s, AC(1, "a message"))); return true; }
    case N_CASE: rv[0] = C((u64)jobCase); return true;
    case N_REACH: ++reached[cstr(s, AC(0, "a tag"))]; return true;
    case N_EXPECT: ++expected[cstr(s, A(0).v)]; return true;
    case N_NOTE: if (cstr(s, A(0).v) == "smt-only") g_noLin = true; s.notes.push_back(cstr(s, A(0).v)); return true;
    case N_CONCRETIZE: rv[0] = C(AC(0, "a requested value")); return true;
    case N_ISCONC: { u64 p = AC(0, "a pointer"), n = AC(1, "a size"); bool c = true; for (u64 i = 0; i < n && c; ++i) if (loadVal(s, C(p + i), 0, 8).e) c = false; rv[0] = C(c); return true; }
    case N_EQ: { u64 a = AC(0, "a pointer"), b = AC(1, "a pointer"), n = AC(2, "a size"); rv[0] = n ? V(eqBytes(s, a, b, n)) : C(1); return true; }
    case N_EXC_NOW: rv[0] = C(s.caught.size()); return true;

    case N_NEW: case N_NEWNT: case N_MALLOC: {
        u64 n = AC(0, "an allocation size"); u64 a = newHeap(s, n, 0xBE);
        if (!a && nid == N_NEW) { throwStd(s, "_ZTISt9bad_alloc"); }
        rv[0] = C(a); return true;
    }
    case N_CALLOC: { u64 n = AC(0, "an allocation size") * AC(1, "an allocation size"); rv[0] = C(newHeap(s, n, 0)); return true; }
    case N_DELETE: case N_FREE: freeHeap(s, AC(0, "a pointer")); return true;
    case N_REALLOC: {
        u64 p = AC(0, "a pointer"), n = AC(1, "an allocation size"); u64 a = newHeap(s, n, 0xBE);
        if (p) { u32 id; bool stk = false; Obj* o = findObj(s, p, id, stk); if (!o || o->kind != OK_HEAP) fault(s, "memory", "invalid realloc"); memCopy(s, C(a), C(p), std::min<u64>(o->size, n)); freeHeap(s, p); }
        rv[0] = C(a); return true;
    }
    case N_MEMCPY: case N_MEMMOVE: { u64 n = AC(2, "a copy length"); memCopy(s, A(0), A(1), n); rv[0] = A(0); return true; }
    case N_MEMSET: {
        u64 n = AC(2, "a fill length"); u64 d = n ? AC(0, "a fill destination") : 0; Val v = A(1);
        if (n) { Loc l = resolve(s, C(d), n, true, "write"); Obj* o = ownObj(s, l.id, l.stk); Expr* e = v.e ? mkExtract(v.e, 0, 8) : nullptr; for (u64 i = 0; i < n; ++i) writeByte(o, l.off + i, e, (u8)v.v); }
        rv[0] = A(0); return true;
    }
    case N_BCMP: {
        u64 n = AC(2, "a compare length"); if (!n) return true;
        u64 a = AC(0, "a pointer"), b = AC(1, "a pointer"); resolve(s, C(a), n, false, "read"); resolve(s, C(b), n, false, "read");
        Expr* e = eqBytes(s, a, b, n); rv[0] = V(mkIte(e, mkConst(0, 32), mkConst(1, 32))); return true;
    }
    case N_MEMCMP: {
        u64 n = AC(2, "a compare length"); if (!n) return true;
        u64 a = AC(0, "a pointer"), b = AC(1, "a pointer"); resolve(s, C(a), n, false, "read"); resolve(s, C(b), n, false, "read");
        u64 k = 0; Val x{}, y{};
        for (; k < n; ++k) { x = loadVal(s, C(a + k), 0, 8); y = loadVal(s, C(b + k), 0, 8); if (x.e || y.e) break; if (x.v != y.v) { rv[0] = C(x.v < y.v ? 0xffffffffu : 1); return true; } }
        Expr* r = mkConst(0, 32);
        for (u64 i = n; i-- > k;)
        {
            x = loadVal(s, C(a + i), 0, 8); y = loadVal(s, C(b + i), 0, 8); Expr *ex = E(x, 8), *ey = E(y, 8);
            r = mkIte(mkEq(ex, ey), r, mkIte(mkCmp(X_ULT, ex, ey), mkConst(0xffffffffu, 32), mkConst(1, 32)));
        }
        rv[0] = V(r); return true;
    }
    case N_ALLOCEXC: rv[0] = C(newHeap(s, AC(0, "a size"), 0, "exception")); return true;
    case N_FREEEXC: freeHeap(s, AC(0, "a pointer")); return true;
    case N_THROW: { u64 o = AC(0, "a pointer"), ti = AC(1, "a typeinfo"); s.cur = {o, ti}; unwind(s); return false; }
    case N_RETHROW: { if (s.caught.empty()) fault(s, "terminate", "rethrow without an active exception"); s.cur = s.caught.back(); unwind(s); return false; }
    case N_BEGINCATCH: { u64 p = AC(0, "a pointer"); s.caught.push_back(s.cur); rv[0] = C(p); return true; }
    case N_GETEXCPTR: rv[0] = A(0); return true;
    case N_ENDCATCH: if (!s.caught.empty()) s.caught.pop_back(); return true;
    case N_DYNCAST: {
        u64 src = AC(0, "a pointer"), dst = AC(2, "a typeinfo");
        u64 vp = (u64)concretize(s, loadVal(s, C(src), 0, 64), 64, "a vptr");
        i64 top = (i64)mem64(s, vp - 16); u64 ti = mem64(s, vp - 8); u64 whole = src + (u64)top; std::vector<std::pair<u64, i64>> b; tiBases(s, ti, 0, b);
        rv[0] = C(0); for (auto& x : b) if (x.first == dst) { rv[0] = C(whole + (u64)x.second); break; }
        return true;
    }
    case N_BADCAST: throwStd(s, "_ZTISt8bad_cast"); return false;
    case N_TERMINATE: fault(s, "terminate", "the program is terminated");
    case N_PUREVIRT: fault(s, "terminate", "pure virtual call");
    case N_ATEXIT: rv[0] = C(0); return true;
    case N_FCD: case N_FCF: { // (const char* first, const char* last, double* out, int* ec) -> ptr ; concrete text only
        u64 a = AC(0, "a pointer"), b = AC(1, "a pointer"); u64 n = b > a ? b - a : 0; if (n > 400) n = 400;
        Str t = concBytes(s, a, n); double d = 0; float fl = 0; std::from_chars_result r{};
        if (nid == N_FCD) r = std::from_chars(t.data(), t.data() + t.size(), d); else r = std::from_chars(t.data(), t.data() + t.size(), fl);
        if (r.ec == std::errc())
        {
            if (nid == N_FCD) { u64 bits; memcpy(&bits, &d, 8); storeVal(s, A(2), 0, C(bits), 64); } else { u32 bits; memcpy(&bits, &fl, 4); storeVal(s, A(2), 0, C(bits), 32); }
        }
        storeVal(s, A(3), 0, C((u32)r.ec), 32); rv[0] = C(a + (u64)(r.ptr - t.data())); return true;
    }
    case N_TCD: case N_TCF: { // (char* first, char* last, double v, int fmt, int prec, int* ec) -> ptr ; prec -1000: shortest with fmt; -1001 plain
        u64 a = AC(0, "a pointer"), b = AC(1, "a pointer"); u64 bits = AC(2, "a floating-point value to print"); int fm = (int)AC(3, "a format"); i64 prec = sx64(AC(4, "a precision"), 32);
        char buf[2048]; u64 room = b > a ? std::min<u64>(b - a, sizeof buf) : 0; std::to_chars_result r{}; double d; float fl; u32 b32 = (u32)bits; memcpy(&d, &bits, 8); memcpy(&fl, &b32, 4);
        std::chars_format cf = (std::chars_format)fm;
        if (nid == N_TCD) r = prec == -1001 ? std::to_chars(buf, buf + room, d) : prec == -1000 ? std::to_chars(buf, buf + room, d, cf) : std::to_chars(buf, buf + room, d, cf, (int)prec);
        else r = prec == -1001 ? std::to_chars(buf, buf + room, fl) : prec == -1000 ? std::to_chars(buf, buf + room, fl, cf) : std::to_chars(buf, buf + room, fl, cf, (int)prec);
        if (r.ec == std::errc()) { u64 n = (u64)(r.ptr - buf); if (n) resolve(s, C(a), n, true, "write"); for (u64 i = 0; i < n; ++i) storeVal(s, C(a + i), 0, C((u8)buf[i]), 8); rv[0] = C(a + n); }
        else rv[0] = C(b);
        storeVal(s, A(5), 0, C((u32)r.ec), 32); return true;
    }
    case N_SPRINT: unsup(s, "sprintf");
    case N_ROUND2I: case N_ROUND2IF: {
        unsigned w = nid == N_ROUND2I ? 64 : 32; Expr* e = E(A(0), w); e = mkFp(X_FROUND, w, 0, e); rv[0] = V(mkFp(X_FPTOSI, 64, 0, e)); return true;
    }
    case N_FP1: case N_FP1F: {
        Str nm = ci.callee ? ci.callee->getName().str() : Str(); unsigned w = ci.argw[0]; if (nid == N_FP1F) nm.pop_back();
        int o = fpFn[nm]; rv[0] = V(o >= 0x100 ? mkFp(X_FFN, w, (u32)(o & 0xff), E(A(0), w)) : mkFp((u8)o, w, 0, E(A(0), w))); return true;
    }
    case N_FP2: { unsigned w = ci.argw[0]; rv[0] = V(mkFp(X_FFN, w, (u32)fpFn2[ci.callee->getName().str()], E(A(0), w), E(A(1), w))); return true; }
    case N_LDEXP: { rv[0] = V(mkFp(X_FFN, 64, 9, E(A(0), 64), E(A(1), 32))); return true; }
    }
    unsup(s, "native model");
}
static Expr* popcntE(Expr* a) { unsigned w = a->w; Expr* r = mkConst(0, w); for (unsigned i = 0; i < w; ++i) r = mkBin(X_ADD, r, mkZext(mkExtract(a, i, 1), w)); return r; }
static Expr* clzE(Expr* a, bool trailing)
{
    unsigned w = a->w; Expr* r = mkConst(w, w);
    if (trailing) { for (unsigned i = w; i-- > 0;) r = mkIte(mkExtract(a, i, 1), mkConst(i, w), r); }
    else for (unsigned i = 0; i < w; ++i) r = mkIte(mkExtract(a, i, 1), mkConst(w - 1 - i, w), r);
    return r;
}
static void callIntrinsic(State& s, const Inst& in, CallInfo& ci)
{
    Frame* f = s.fr.back(); Val rv[16]; for (auto& r : rv) r = C(0);
    auto A = [&](size_t i, u32 k = 0) { return opv(f, ci.args[i], k); };
    unsigned n = std::max(1u, ci.retn); if (n > 16) unsup(s, "wide vector intrinsic");
    unsigned w = ci.args.empty() ? 0 : ci.argw[0];
    auto each = [&](auto fn) { for (u32 k = 0; k < n; ++k) rv[k] = fn(k); };
    switch (ci.iid)
    {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { u64 len = concretize(s, A(2), ci.argw[2], "a copy length"); memCopy(s, A(0), A(1), len); break; }
    case Intrinsic::memset: case Intrinsic::memset_inline: {
        u64 len = concretize(s, A(2), ci.argw[2], "a fill length"); Val v = A(1);
        if (len) { u64 d = concretize(s, A(0), 64, "a fill destination"); Loc l = resolve(s, C(d), len, true, "write"); Obj* o = ownObj(s, l.id, l.stk); for (u64 i = 0; i < len; ++i) writeByte(o, l.off + i, v.e, (u8)v.v); }
        break;
    }
    case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
        Expr *a = E(A(0), w), *b = E(A(1), w); u8 o = ci.iid == Intrinsic::uadd_with_overflow || ci.iid == Intrinsic::sadd_with_overflow ? X_ADD : ci.iid == Intrinsic::usub_with_overflow || ci.iid == Intrinsic::ssub_with_overflow ? X_SUB : X_MUL;
        bool sg = ci.iid == Intrinsic::sadd_with_overflow || ci.iid == Intrinsic::ssub_with_overflow || ci.iid == Intrinsic::smul_with_overflow;
        if (w > 64) unsup(s, "wide overflow intrinsic");
        unsigned W = o == X_MUL ? 2 * w : w + 1; if (W > 128) W = 128;
        Expr* r = mkBin(o, a, b); Expr* x = sg ? mkSext(a, W) : mkZext(a, W); Expr* y = sg ? mkSext(b, W) : mkZext(b, W); Expr* full = mkBin(o, x, y);
        rv[0] = V(r); rv[1] = V(mkNot(mkEq(full, sg ? mkSext(r, W) : mkZext(r, W)))); break;
    }
    case Intrinsic::uadd_sat: each([&](u32 k) { Expr *a = E(A(0, k), w), *b = E(A(1, k), w), *r = mkBin(X_ADD, a, b); return V(mkIte(mkCmp(X_ULT, r, a), mkConst(~(u128)0 & maskw(w), w), r)); }); break;
    case Intrinsic::usub_sat: each([&](u32 k) { Expr *a = E(A(0, k), w), *b = E(A(1, k), w); return V(mkIte(mkCmp(X_ULT, a, b), mkConst(0, w), mkBin(X_SUB, a, b))); }); break;
    case Intrinsic::ctpop: each([&](u32 k) { Val a = A(0, k); return !a.e && w <= 64 ? C((u64)__builtin_popcountll(a.v)) : V(popcntE(E(a, w))); }); break;
    case Intrinsic::ctlz: each([&](u32 k) { return V(clzE(E(A(0, k), w), false)); }); break;
    case Intrinsic::cttz: each([&](u32 k) { return V(clzE(E(A(0, k), w), true)); }); break;
    case Intrinsic::bswap: each([&](u32 k) { Expr* a = E(A(0, k), w); Expr* r = nullptr; for (unsigned i = 0; i < w; i += 8) { Expr* b = mkExtract(a, i, 8); r = r ? mkConcat(r, b) : b; } return V(r); }); break;
    case Intrinsic::bitreverse: each([&](u32 k) { Expr* a = E(A(0, k), w); Expr* r = nullptr; for (unsigned i = 0; i < w; ++i) { Expr* b = mkExtract(a, i, 1); r = r ? mkConcat(r, b) : b; } return V(r); }); break;
    case Intrinsic::fshl: case Intrinsic::fshr: each([&](u32 k) {
        Expr *a = E(A(0, k), w), *b = E(A(1, k), w), *c = E(A(2, k), w);
        if (isC(c)) { unsigned sh = (unsigned)((u64)c->c % w); if (ci.iid == Intrinsic::fshr) { if (!sh) return V(b); sh = w - sh; } if (!sh) return V(a); Expr* hi = mkExtract(a, 0, w - sh); Expr* lo = mkExtract(b, w - sh, sh); return V(mkConcat(hi, lo)); }
        if (w > 64) unsup(s, "wide funnel shift");
        Expr* sh = mkZext(mkBin(X_UREM, c, mkConst(w, w)), 2 * w); Expr* cat = mkConcat(a, b);
        return ci.iid == Intrinsic::fshl ? V(mkExtract(mkBin(X_SHL, cat, sh), w, w)) : V(mkExtract(mkBin(X_LSHR, cat, sh), 0, w)); });
        break;
    case Intrinsic::umin: each([&](u32 k) { Val a = A(0, k), b = A(1, k); return iteVal(icmpVal(CmpInst::ICMP_ULT, a, b, w), a, b, w); }); break;
    case Intrinsic::umax: each([&](u32 k) { Val a = A(0, k), b = A(1, k); return iteVal(icmpVal(CmpInst::ICMP_UGT, a, b, w), a, b, w); }); break;
    case Intrinsic::smin: each([&](u32 k) { Val a = A(0, k), b = A(1, k); return iteVal(icmpVal(CmpInst::ICMP_SLT, a, b, w), a, b, w); }); break;
    case Intrinsic::smax: each([&](u32 k) { Val a = A(0, k), b = A(1, k); return iteVal(icmpVal(CmpInst::ICMP_SGT, a, b, w), a, b, w); }); break;
    case Intrinsic::abs: each([&](u32 k) { Expr* a = E(A(0, k), w); return V(mkIte(mkCmp(X_SLT, a, mkConst(0, w)), mkBin(X_SUB, mkConst(0, w), a), a)); }); break;
    case Intrinsic::fabs: each([&](u32 k) { return V(mkFp(X_FABS, w, 0, E(A(0, k), w))); }); break;
    case Intrinsic::floor: each([&](u32 k) { return V(mkFp(X_FFLOOR, w, 0, E(A(0, k), w))); }); break;
    case Intrinsic::ceil: each([&](u32 k) { return V(mkFp(X_FCEIL, w, 0, E(A(0, k), w))); }); break;
    case Intrinsic::round: each([&](u32 k) { return V(mkFp(X_FROUND, w, 0, E(A(0, k), w))); }); break;
    case Intrinsic::trunc: each([&](u32 k) { return V(mkFp(X_FTRUNC, w, 0, E(A(0, k), w))); }); break;
    case Intrinsic::rint: case Intrinsic::nearbyint: each([&](u32 k) { return V(mkFp(X_FRINT, w, 0, E(A(0, k), w))); }); break;
    case Intrinsic::sqrt: each([&](u32 k) { return V(mkFp(X_FSQRT, w, 0, E(A(0, k), w))); }); break;
    case Intrinsic::llround: case Intrinsic::lround: each([&](u32 k) { return V(mkFp(X_FPTOSI, in.w, 0, mkFp(X_FROUND, w, 0, E(A(0, k), w)))); }); break;
    case Intrinsic::copysign: each([&](u32 k) { return V(mkFp(X_FFN, w, 5, E(A(0, k), w), E(A(1, k), w))); }); break;
    case Intrinsic::pow: each([&](u32 k) { return V(mkFp(X_FFN, w, 0, E(A(0, k), w), E(A(1, k), w))); }); break;
    case Intrinsic::exp2: each([&](u32 k) { return V(mkFp(X_FFN, w, 8, E(A(0, k), w))); }); break;
    case Intrinsic::minnum: each([&](u32 k) { return V(mkFp(X_FFN, w, 6, E(A(0, k), w), E(A(1, k), w))); }); break;
    case Intrinsic::maxnum: each([&](u32 k) { return V(mkFp(X_FFN, w, 7, E(A(0, k), w), E(A(1, k), w))); }); break;
    case Intrinsic::fmuladd: each([&](u32 k) { return V(mkFp(X_FADD, w, 0, mkFp(X_FMUL, w, 0, E(A(0, k), w), E(A(1, k), w)), E(A(2, k), w))); }); break;
    case Intrinsic::ldexp: each([&](u32 k) { return V(mkFp(X_FFN, w, 9, E(A(0, k), w), E(A(1, k), 32))); }); break;
    case Intrinsic::is_fpclass: {
        u64 mask = A(1).v; each([&](u32 k) {
            Expr* a = E(A(0, k), w); unsigned mb = w == 64 ? 52 : 23, eb = w - 1 - mb; Expr* ex = mkExtract(a, mb, eb); Expr* mn = mkExtract(a, 0, mb); Expr* sg = mkExtract(a, w - 1, 1);
            Expr* exA = mkEq(ex, mkConst(maskw(eb), eb)); Expr* exZ = mkEq(ex, mkConst(0, eb)); Expr* mz = mkEq(mn, mkConst(0, mb)); Expr* q = mkExtract(a, mb - 1, 1); Expr* r = mkConst(0, 1);
            auto orIf = [&](unsigned bit, Expr* e) { if (mask >> bit & 1) r = mkOr1(r, e); };
            Expr* nan = mkAnd1(exA, mkNot(mz)); orIf(0, mkAnd1(nan, mkNot(q))); orIf(1, mkAnd1(nan, q)); Expr* inf = mkAnd1(exA, mz); orIf(2, mkAnd1(inf, sg)); orIf(9, mkAnd1(inf, mkNot(sg)));
            Expr* nrm = mkAnd1(mkNot(exA), mkNot(exZ)); orIf(3, mkAnd1(nrm, sg)); orIf(8, mkAnd1(nrm, mkNot(sg))); Expr* sub = mkAnd1(exZ, mkNot(mz)); orIf(4, mkAnd1(sub, sg)); orIf(7, mkAnd1(sub, mkNot(sg))); Expr* zr = mkAnd1(exZ, mz); orIf(5, mkAnd1(zr, sg)); orIf(6, mkAnd1(zr, mkNot(sg)));
            return V(r); });
        break;
    }
    case Intrinsic::fptosi_sat: case Intrinsic::fptoui_sat: unsup(s, "saturating conversion");
    case Intrinsic::objectsize: rv[0] = C(~0ull & mask64(in.w)); break;
    case Intrinsic::is_constant: rv[0] = C(0); break;
    case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::threadlocal_address: case Intrinsic::ptr_annotation: case Intrinsic::annotation: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy: each([&](u32 k) { return A(0, k); }); break;
    case Intrinsic::ptrmask: { rv[0] = V(mkBin(X_AND, E(A(0), 64), E(A(1), 64))); break; }
    case Intrinsic::eh_typeid_for: rv[0] = C(A(0).v ? A(0).v >> 32 : 0x7fffffff); break;
    case Intrinsic::stacksave: case Intrinsic::stackrestore: break;
    case Intrinsic::returnaddress: case Intrinsic::frameaddress: break;
    case Intrinsic::load_relative: { u64 base = A(0).v; u64 off = A(1).v; i64 rel = (i64)(int32_t)(u32)(mem64(s, base + off) & 0xffffffffu); rv[0] = C(base + (u64)rel); break; }
    case Intrinsic::vector_reduce_add: { Val r = A(0, 0); for (u32 k = 1; k < ci.argn[0]; ++k) r = V(mkBin(X_ADD, E(r, w), E(A(0, k), w))); rv[0] = r; break; }
    case Intrinsic::vector_reduce_or: { Val r = A(0, 0); for (u32 k = 1; k < ci.argn[0]; ++k) r = V(mkBin(X_OR, E(r, w), E(A(0, k), w))); rv[0] = r; break; }
    case Intrinsic::vector_reduce_and: { Val r = A(0, 0); for (u32 k = 1; k < ci.argn[0]; ++k) r = V(mkBin(X_AND, E(r, w), E(A(0, k), w))); rv[0] = r; break; }
    case Intrinsic::vector_reduce_xor: { Val r = A(0, 0); for (u32 k = 1; k < ci.argn[0]; ++k) r = V(mkBin(X_XOR, E(r, w), E(A(0, k), w))); rv[0] = r; break; }
    case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: fault(s, "trap", "trap instruction reached");
    case Intrinsic::vastart: {
        u64 p = A(0).v; Val va = f->va; storeVal(s, C(p), 0, C(48), 32); storeVal(s, C(p + 4), 0, C(176), 32); storeVal(s, C(p + 8), 0, va, 64); storeVal(s, C(p + 16), 0, C(0), 64); break;
    }
    case Intrinsic::vacopy: memCopy(s, A(0), A(1), 24); break;
    case Intrinsic::vaend: break;
    case Intrinsic::init_trampoline: default: unsup(s, "intrinsic " + (ci.callee ? ci.callee->getName().str() : Str("?")));
    }
    finishCall(s, in, rv, ci.retn);
}
