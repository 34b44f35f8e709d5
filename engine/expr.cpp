#include <functional>
#include "expr.hpp"
#include <algorithm>
#include <map>
#include <unordered_set>

u64 g_nexpr = 0;
static std::vector<Expr*> g_tab(1 << 20, nullptr);
static u64 g_mask = (1 << 20) - 1, g_cnt = 0;
static u8* g_arena = nullptr; static size_t g_left = 0;
static const VarSet g_emptyVs;

static Expr* allocExpr()
{
    if (g_left < sizeof(Expr)) { g_left = sizeof(Expr) * 8192; g_arena = (u8*)malloc(g_left); }
    Expr* e = (Expr*)g_arena; g_arena += sizeof(Expr); g_left -= sizeof(Expr);
    return e;
}
static u32 hashE(u8 op, u16 w, u32 imm, u128 c, Expr* a, Expr* b, Expr* d)
{
    u64 h = op * 0x9E3779B97F4A7C15ull + w * 0xC2B2AE3D27D4EB4Full + imm * 0x165667B19E3779F9ull;
    auto mix = [&](u64 x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; };
    mix((u64)c); mix((u64)(c >> 64)); mix(a ? a->id + 1 : 0); mix(b ? b->id + 1 : 0); mix(d ? d->id + 1 : 0);
    return (u32)(h ^ (h >> 29));
}
static void bounds(Expr* e);
static Expr* cons(u8 op, u16 w, u32 imm, u128 c, Expr* a = nullptr, Expr* b = nullptr, Expr* d = nullptr)
{
    u32 h = hashE(op, w, imm, c, a, b, d);
    u64 i = h & g_mask;
    while (Expr* e = g_tab[i])
    {
        if (e->h == h && e->op == op && e->w == w && e->imm == imm && e->c == c && e->k[0] == a && e->k[1] == b && e->k[2] == d) return e;
        i = (i + 1) & g_mask;
    }
    Expr* e = allocExpr();
    e->op = op; e->w = w; e->imm = imm; e->c = c; e->k[0] = a; e->k[1] = b; e->k[2] = d; e->h = h; e->id = (u32)g_nexpr++;
    e->estamp = 0; e->zslot = 0; e->vs = nullptr; e->ev = 0;
    u8 f = 0;
    for (Expr* k : e->k) if (k) f |= k->flags;
    if (op == X_XOR && !isC(b)) f |= XF_HASXOR;
    if (isFpOp(op)) f |= XF_HASFP;
    e->flags = f;
    bounds(e);
    g_tab[i] = e;
    if (++g_cnt * 10 > g_tab.size() * 6)
    {
        std::vector<Expr*> nt(g_tab.size() * 2, nullptr); u64 nm = nt.size() - 1;
        for (Expr* x : g_tab) if (x) { u64 j = x->h & nm; while (nt[j]) j = (j + 1) & nm; nt[j] = x; }
        g_tab.swap(nt); g_mask = nm;
    }
    return e;
}
static void bounds(Expr* e)
{
    u64 m = mask64(e->w > 64 ? 64 : e->w);
    e->lo = 0; e->hi = m;
    if (e->w > 64) { return; }
    Expr *a = e->k[0], *b = e->k[1];
    switch (e->op)
    {
    case X_CONST: e->lo = e->hi = (u64)e->c; break;
    case X_ADD: { u64 l, h; if (!__builtin_add_overflow(a->hi, b->hi, &h) && h <= m) { l = a->lo + b->lo; e->lo = l; e->hi = h; }
                  else if (isC(b)) { // wrap-around subtraction of a constant: a + (2^w - k)
                      u64 k = (m - b->hi) + 1; if (k && a->lo >= k) { e->lo = a->lo - k; e->hi = a->hi - k; } } break; }
    case X_SUB: if (a->lo >= b->hi) { e->lo = a->lo - b->hi; e->hi = a->hi - b->lo; } break;
    case X_MUL: { u64 h; if (!__builtin_mul_overflow(a->hi, b->hi, &h) && h <= m) { e->lo = a->lo * b->lo; e->hi = h; } break; }
    case X_UDIV: if (b->lo > 0) { e->lo = a->lo / b->hi; e->hi = a->hi / b->lo; } break;
    case X_UREM: if (b->lo > 0) { e->hi = std::min(a->hi, b->hi - 1); } break;
    case X_AND: e->hi = std::min(a->hi, b->hi); break;
    case X_OR: case X_XOR: { u64 x = a->hi | b->hi; e->hi = x ? (mask64(64 - __builtin_clzll(x)) & m) : 0; if (e->op == X_OR) e->lo = std::max(a->lo, b->lo); break; }
    case X_LSHR: if (isC(b) && b->c < 64) { e->lo = a->lo >> (u64)b->c; e->hi = a->hi >> (u64)b->c; } else e->hi = a->hi; break;
    case X_CONCAT: { unsigned wl = b->w; e->lo = (wl >= 64 ? 0 : a->lo << wl) | b->lo; e->hi = (wl >= 64 ? 0 : a->hi << wl) | b->hi; break; }
    case X_EXTRACT: if (a->w <= 64) { if (e->imm == 0 && a->hi <= m) { e->lo = a->lo; e->hi = a->hi; } else if ((a->hi >> e->imm) <= m) { e->lo = a->lo >> e->imm; e->hi = a->hi >> e->imm; } } break;
    case X_ZEXT: e->lo = a->lo; e->hi = a->hi; break;
    case X_ITE: e->lo = std::min(b->lo, e->k[2]->lo); e->hi = std::max(b->hi, e->k[2]->hi); break;
    default: break;
    }
}

Expr* mkConst(u128 v, unsigned w) { return cons(X_CONST, w, 0, v & maskw(w)); }
Expr* mkVar(u32 id) { return cons(X_VAR, 8, id, 0); }

u128 foldBin(u8 op, u128 a, u128 b, unsigned w)
{
    u128 m = maskw(w);
    a &= m; b &= m;
    switch (op)
    {
    case X_ADD: return (a + b) & m;
    case X_SUB: return (a - b) & m;
    case X_MUL: return (a * b) & m;
    case X_UDIV: return b ? a / b : m;
    case X_UREM: return b ? a % b : a;
    case X_SDIV: { i128 x = sx128(a, w), y = sx128(b, w); if (!y) return x < 0 ? 1 : m; if (y == -1) return (u128)(-x) & m; return (u128)(x / y) & m; }
    case X_SREM: { i128 x = sx128(a, w), y = sx128(b, w); if (!y) return a; if (y == -1) return 0; return (u128)(x % y) & m; }
    case X_AND: return a & b;
    case X_OR: return a | b;
    case X_XOR: return a ^ b;
    case X_SHL: return b >= w ? 0 : (a << (unsigned)b) & m;
    case X_LSHR: return b >= w ? 0 : a >> (unsigned)b;
    case X_ASHR: { i128 x = sx128(a, w); unsigned s = b >= w ? w - 1 : (unsigned)b; return (u128)(x >> s) & m; }
    case X_EQ: return a == b;
    case X_ULT: return a < b;
    case X_ULE: return a <= b;
    case X_SLT: return sx128(a, w) < sx128(b, w);
    case X_SLE: return sx128(a, w) <= sx128(b, w);
    }
    abort();
}
static inline bool commut(u8 op) { return op == X_ADD || op == X_MUL || op == X_AND || op == X_OR || op == X_XOR || op == X_EQ; }

// ---- segments: view a value as a concatenation of pieces (low to high); piece e==null means zero bits
struct Seg { Expr* e; unsigned w; };
static void segsOf(Expr* e, std::vector<Seg>& out, int depth = 0)
{
    if (e->op == X_CONCAT && depth < 40) { segsOf(e->k[1], out, depth + 1); segsOf(e->k[0], out, depth + 1); return; }
    if (e->op == X_ZEXT) { segsOf(e->k[0], out, depth + 1); out.push_back({nullptr, (unsigned)(e->w - e->k[0]->w)}); return; }
    if (isC(e) && e->c == 0) { out.push_back({nullptr, e->w}); return; }
    out.push_back({e, e->w});
}
static bool hasZeroSeg(Expr* e) { return (e->op == X_ZEXT) || (e->op == X_CONCAT && (hasZeroSeg(e->k[0]) || hasZeroSeg(e->k[1]))) || (isC(e) && e->c == 0); }
static Expr* fromSegs(const std::vector<Seg>& s)
{
    Expr* r = nullptr;
    for (auto& x : s)
    {
        if (!x.w) continue;
        Expr* p = x.e ? x.e : mkConst(0, x.w);
        r = r ? mkConcat(p, r) : p;
    }
    return r;
}
// try to combine a|b (or a^b, a+b) when their non-zero segments never overlap
static Expr* disjointOr(Expr* a, Expr* b)
{
    if (!hasZeroSeg(a) || !hasZeroSeg(b)) return nullptr;
    std::vector<Seg> sa, sb, out;
    segsOf(a, sa); segsOf(b, sb);
    if (sa.size() > 40 || sb.size() > 40) return nullptr;
    size_t i = 0, j = 0; unsigned oi = 0, oj = 0;
    while (i < sa.size() && j < sb.size())
    {
        unsigned w = std::min(sa[i].w - oi, sb[j].w - oj);
        Expr *x = sa[i].e, *y = sb[j].e;
        if (x && y) return nullptr;
        if (x) out.push_back({mkExtract(x, oi, w), w});
        else if (y) out.push_back({mkExtract(y, oj, w), w});
        else out.push_back({nullptr, w});
        oi += w; oj += w;
        if (oi == sa[i].w) { ++i; oi = 0; }
        if (oj == sb[j].w) { ++j; oj = 0; }
    }
    return fromSegs(out);
}

static Expr* mkExtract2(Expr* a, unsigned lo, unsigned w);
struct ExKey { Expr* a; u32 lw; bool operator==(const ExKey& o) const { return a == o.a && lw == o.lw; } };
struct ExHash { size_t operator()(const ExKey& k) const { return ((size_t)k.a->h * 0x9E3779B97F4A7C15ull) ^ ((size_t)k.lw * 0xC2B2AE3D27D4EB4Full); } };
static std::unordered_map<ExKey, Expr*, ExHash> g_exMemo; // extraction is pushed through shared operators: memoise
Expr* mkExtract(Expr* a, unsigned lo, unsigned w)
{
    if (lo == 0 && w == a->w) return a;
    if (a->op < X_ADD || a->op == X_EXTRACT || (a->op >= X_CONCAT && a->op <= X_SEXT)) return mkExtract2(a, lo, w);
    ExKey k{a, lo << 8 | w}; auto it = g_exMemo.find(k); if (it != g_exMemo.end()) return it->second;
    Expr* r = mkExtract2(a, lo, w); g_exMemo.emplace(k, r); return r;
}
static Expr* mkExtract2(Expr* a, unsigned lo, unsigned w)
{
    switch (a->op)
    {
    case X_CONST: return mkConst(a->c >> lo, w);
    case X_EXTRACT: return mkExtract(a->k[0], a->imm + lo, w);
    case X_CONCAT: {
        unsigned wl = a->k[1]->w;
        if (lo >= wl) return mkExtract(a->k[0], lo - wl, w);
        if (lo + w <= wl) return mkExtract(a->k[1], lo, w);
        return mkConcat(mkExtract(a->k[0], 0, lo + w - wl), mkExtract(a->k[1], lo, wl - lo));
    }
    case X_ZEXT: {
        unsigned wl = a->k[0]->w;
        if (lo >= wl) return mkConst(0, w);
        if (lo + w <= wl) return mkExtract(a->k[0], lo, w);
        return mkZext(mkExtract(a->k[0], lo, wl - lo), w);
    }
    case X_SEXT: {
        unsigned wl = a->k[0]->w;
        if (lo + w <= wl) return mkExtract(a->k[0], lo, w);
        if (lo >= wl) return mkSext(mkExtract(a->k[0], wl - 1, 1), w);
        return mkSext(mkExtract(a->k[0], lo, wl - lo), w);
    }
    case X_XOR: if (a->w == 64 && (a->k[0]->op == X_XOR || a->k[1]->op == X_XOR)) break; // long checksum chains: keep the extraction (the linear form sees through it)
        [[fallthrough]];
    case X_AND: case X_OR: return mkBin(a->op, mkExtract(a->k[0], lo, w), mkExtract(a->k[1], lo, w));
    case X_ADD: case X_SUB: case X_MUL:
        if (lo == 0) return mkBin(a->op, mkExtract(a->k[0], 0, w), mkExtract(a->k[1], 0, w));
        break;
    case X_ITE:
        if (isC(a->k[1]) || isC(a->k[2]) || w <= 8) return mkIte(a->k[0], mkExtract(a->k[1], lo, w), mkExtract(a->k[2], lo, w));
        break;
    default: break;
    }
    if (a->w <= 64 && lo < 64 && (a->hi >> lo) == 0) return mkConst(0, w);
    return cons(X_EXTRACT, w, lo, 0, a);
}
Expr* mkConcat(Expr* h, Expr* l)
{
    unsigned w = h->w + l->w;
    if (w > 128) { fprintf(stderr, "concat too wide\n"); abort(); }
    if (isC(h) && isC(l)) return mkConst((h->c << l->w) | l->c, w);
    if (isC(h) && h->c == 0) return mkZext(l, w);
    if (h->op == X_EXTRACT && l->op == X_EXTRACT && h->k[0] == l->k[0] && h->imm == l->imm + l->w) return mkExtract(h->k[0], l->imm, w);
    if (h->op == X_EXTRACT && h->k[0] == l && h->imm == l->w) return mkExtract(h->k[0], 0, w);
    if (h->op == X_ZEXT) return mkZext(mkConcat(h->k[0], l), w);
    // right-nest: concat(concat(a,b), l) -> concat(a, concat(b,l)) to let adjacent extracts meet
    if (h->op == X_CONCAT)
    {
        Expr *hb = h->k[1];
        bool adj = (hb->op == X_EXTRACT && l->op == X_EXTRACT && hb->k[0] == l->k[0] && hb->imm == l->imm + l->w) || (isC(hb) && isC(l));
        (void)adj;
        return mkConcat(h->k[0], mkConcat(hb, l));
    }
    if (l->op == X_CONCAT)
    {
        Expr* lh = l->k[0];
        bool adj = (h->op == X_EXTRACT && lh->op == X_EXTRACT && h->k[0] == lh->k[0] && h->imm == lh->imm + lh->w) || (isC(h) && isC(lh));
        if (adj) return mkConcat(mkConcat(h, lh), l->k[1]);
    }
    // sign extension spelled as concat(sext(top), x) is left alone
    return cons(X_CONCAT, w, 0, 0, h, l);
}
Expr* mkZext(Expr* a, unsigned w)
{
    if (a->w == w) return a;
    if (isC(a)) return mkConst(a->c, w);
    if (a->op == X_ZEXT) return mkZext(a->k[0], w);
    if (a->op == X_ITE && isC(a->k[1]) && isC(a->k[2])) return mkIte(a->k[0], mkZext(a->k[1], w), mkZext(a->k[2], w));
    return cons(X_ZEXT, w, 0, 0, a);
}
Expr* mkSext(Expr* a, unsigned w)
{
    if (a->w == w) return a;
    if (isC(a)) return mkConst((u128)sx128(a->c, a->w), w);
    if (a->op == X_SEXT) return mkSext(a->k[0], w);
    if (a->op == X_ZEXT) return mkZext(a->k[0], w);
    if (a->op == X_CONCAT && isC(a->k[0]) && !((a->k[0]->c >> (a->k[0]->w - 1)) & 1)) return mkZext(a, w);
    if (a->w <= 64 && a->w > 1 && a->hi < (1ull << (a->w - 1))) return mkZext(a, w);
    if (a->op == X_ITE && isC(a->k[1]) && isC(a->k[2])) return mkIte(a->k[0], mkSext(a->k[1], w), mkSext(a->k[2], w));
    return cons(X_SEXT, w, 0, 0, a);
}
Expr* mkNot(Expr* a)
{
    if (isC(a)) return mkConst(!a->c, 1);
    if (a->op == X_NOT) return a->k[0];
    if (a->op == X_ULT) return mkCmp(X_ULE, a->k[1], a->k[0]);
    if (a->op == X_ULE) return mkCmp(X_ULT, a->k[1], a->k[0]);
    if (a->op == X_SLT) return mkCmp(X_SLE, a->k[1], a->k[0]);
    if (a->op == X_SLE) return mkCmp(X_SLT, a->k[1], a->k[0]);
    return cons(X_NOT, 1, 0, 0, a);
}
static bool isNotOf(Expr* a, Expr* b)
{
    if (isC(a) || isC(b)) return false;
    return mkNot(a) == b;
}
Expr* mkAnd1(Expr* a, Expr* b) { return mkBin(X_AND, a, b); }
Expr* mkOr1(Expr* a, Expr* b) { return mkBin(X_OR, a, b); }
Expr* mkIte(Expr* c, Expr* a, Expr* b)
{
    if (isC(c)) return c->c ? a : b;
    if (a == b) return a;
    if (c->op == X_NOT) return mkIte(c->k[0], b, a);
    if (a->w == 1)
    {
        if (isC(a) && isC(b)) return a->c ? c : mkNot(c);
        if (isC(a)) return a->c ? mkOr1(c, b) : mkAnd1(mkNot(c), b);
        if (isC(b)) return b->c ? mkOr1(mkNot(c), a) : mkAnd1(c, a);
        if (a == c) return mkOr1(c, b);
        if (b == c) return mkAnd1(c, a);
    }
    if (a->op == X_ITE && a->k[0] == c) a = a->k[1];
    if (b->op == X_ITE && b->k[0] == c) b = b->k[2];
    if (a == b) return a;
    if (b->op == X_ITE && b->k[1] == a) return mkIte(mkOr1(c, b->k[0]), a, b->k[2]);
    if (b->op == X_ITE && b->k[2] == a) return mkIte(mkAnd1(mkNot(c), b->k[0]), b->k[1], a);
    if (a->op == X_ZEXT && b->op == X_ZEXT && a->k[0]->w == b->k[0]->w) return mkZext(mkIte(c, a->k[0], b->k[0]), a->w);
    if (a->op == X_ZEXT && isC(b) && (b->c >> a->k[0]->w) == 0) return mkZext(mkIte(c, a->k[0], mkConst(b->c, a->k[0]->w)), a->w);
    if (b->op == X_ZEXT && isC(a) && (a->c >> b->k[0]->w) == 0) return mkZext(mkIte(c, mkConst(a->c, b->k[0]->w), b->k[0]), a->w);
    return cons(X_ITE, a->w, 0, 0, c, a, b);
}
static int popruns(u128 m, unsigned w) { int r = 0; bool prev = false; for (unsigned i = 0; i < w; ++i) { bool b = (m >> i) & 1; if (b && !prev) ++r; prev = b; } return r; }

static Expr* andConst(Expr* a, u128 m)
{
    unsigned w = a->w;
    if (m == 0) return mkConst(0, w);
    if (m == maskw(w)) return a;
    if (popruns(m, w) > 8) return nullptr;
    std::vector<Seg> s;
    unsigned i = 0;
    while (i < w)
    {
        bool b = (m >> i) & 1; unsigned j = i;
        while (j < w && (((m >> j) & 1) != 0) == b) ++j;
        s.push_back({b ? mkExtract(a, i, j - i) : nullptr, j - i});
        i = j;
    }
    return fromSegs(s);
}
Expr* mkBin(u8 op, Expr* a, Expr* b)
{
    unsigned w = a->w;
    if (op >= X_EQ && op <= X_SLE) return mkCmp(op, a, b);
    if (isC(a) && isC(b)) return mkConst(foldBin(op, a->c, b->c, w), w);
    if (commut(op) && (isC(a) || (!isC(b) && a->id > b->id))) std::swap(a, b);
    bool cb = isC(b);
    switch (op)
    {
    case X_ADD:
        if (cb && b->c == 0) return a;
        if (cb && a->op == X_ADD && isC(a->k[1])) return mkBin(X_ADD, a->k[0], mkConst(a->k[1]->c + b->c, w));
        if (a->op == X_ADD && isC(a->k[1])) return mkBin(X_ADD, mkBin(X_ADD, a->k[0], b), a->k[1]);
        if (b->op == X_ADD && isC(b->k[1])) return mkBin(X_ADD, mkBin(X_ADD, a, b->k[0]), b->k[1]);
        if (w == 1) return mkBin(X_XOR, a, b);
        if (cb && a->op == X_SUB && isC(a->k[0])) return mkBin(X_SUB, mkConst(a->k[0]->c + b->c, w), a->k[1]);
        if (a->op == X_SUB && a->k[1] == b) return a->k[0];
        if (b->op == X_SUB && b->k[1] == a) return b->k[0];
        if (cb && w > 1)
        {
            // a constant added to the constant low part only: no arithmetic above it
            Expr* x = a->op == X_ZEXT ? a->k[0] : a;
            if (x->op == X_CONCAT && isC(x->k[1]) && x->k[1]->w < w)
            {
                unsigned lw = x->k[1]->w; u128 lm = ((u128)1 << lw) - 1, wm = w >= 128 ? ~(u128)0 : ((u128)1 << w) - 1;
                u128 sum = x->k[1]->c + (b->c & lm); u128 hi = ((b->c >> lw) + (sum >> lw)) & (wm >> lw);
                if (!hi) { Expr* r = mkConcat(x->k[0], mkConst(sum & lm, lw)); return x == a ? r : mkZext(r, w); }
            }
        }
        if (a == b && w > 1) return mkBin(X_SHL, a, mkConst(1, w));
        if (cb && a->op == X_ITE && isC(a->k[1]) && isC(a->k[2])) return mkIte(a->k[0], mkConst(a->k[1]->c + b->c, w), mkConst(a->k[2]->c + b->c, w));
        if (Expr* r = disjointOr(a, b)) return r;
        break;
    case X_SUB:
        if (a == b) return mkConst(0, w);
        if (cb) return mkBin(X_ADD, a, mkConst(-b->c, w));
        if (w == 1) return mkBin(X_XOR, a, b);
        if (isC(a) && a->c == 0 && b->op == X_ZEXT && b->k[0]->w == 1) return mkSext(b->k[0], w);
        if (isC(a) && a->c == 0 && b->op == X_SEXT && b->k[0]->w == 1) return mkZext(b->k[0], w);
        if (isC(a) && a->c == 0 && w <= 64 && b->hi <= 1) return mkSext(mkExtract(b, 0, 1), w);
        if (a->op == X_ADD && a->k[0] == b) return a->k[1];
        if (a->op == X_ADD && a->k[1] == b) return a->k[0];
        if (a->op == X_ADD && isC(a->k[1])) return mkBin(X_ADD, mkBin(X_SUB, a->k[0], b), a->k[1]);
        if (b->op == X_ADD && isC(b->k[1])) return mkBin(X_ADD, mkBin(X_SUB, a, b->k[0]), mkConst(-b->k[1]->c, w));
        if (b->op == X_SUB && b->k[0] == a) return b->k[1];
        break;
    case X_MUL:
        if (cb)
        {
            if (b->c == 0) return b;
            if (b->c == 1) return a;
            if ((b->c & (b->c - 1)) == 0) { unsigned s = 0; while (!((b->c >> s) & 1)) ++s; return mkBin(X_SHL, a, mkConst(s, w)); }
            if (a->op == X_ZEXT && a->k[0]->w == 1) return mkIte(a->k[0], b, mkConst(0, w));
            if (a->op == X_MUL && isC(a->k[1])) return mkBin(X_MUL, a->k[0], mkConst(a->k[1]->c * b->c, w));
            if (a->op == X_ITE && isC(a->k[1]) && isC(a->k[2])) return mkIte(a->k[0], mkConst(a->k[1]->c * b->c, w), mkConst(a->k[2]->c * b->c, w));
            if (a->op == X_ADD && isC(a->k[1])) return mkBin(X_ADD, mkBin(X_MUL, a->k[0], b), mkConst(a->k[1]->c * b->c, w));
        }
        break;
    case X_UDIV:
        if (cb && b->c == 1) return a;
        if (cb && b->c && (b->c & (b->c - 1)) == 0) { unsigned s = 0; while (!((b->c >> s) & 1)) ++s; return mkBin(X_LSHR, a, mkConst(s, w)); }
        if (cb && w <= 64 && a->hi < b->lo) return mkConst(0, w);
        if (w <= 64 && w > 8 && b->lo > 0) { unsigned nb = 64 - __builtin_clzll(std::max(a->hi, b->hi) | 1); if (nb < w) return mkZext(mkBin(X_UDIV, mkExtract(a, 0, nb), mkExtract(b, 0, nb)), w); }
        break;
    case X_UREM:
        if (cb && b->c == 1) return mkConst(0, w);
        if (cb && b->c && (b->c & (b->c - 1)) == 0) return mkBin(X_AND, a, mkConst(b->c - 1, w));
        if (w <= 64 && b->lo > 0 && a->hi < b->lo) return a;
        if (cb && w <= 64 && b->c && a->op == X_ADD) // (k*z + y) mod c with c dividing k
            for (int t = 0; t < 2; ++t)
            {
                Expr *x = a->k[t], *y = a->k[1 - t]; Expr* q = x; while (q->op == X_ZEXT) q = q->k[0];
                if (q->op != X_MUL || q->w > 64) continue;
                Expr *k = isC(q->k[1]) ? q->k[1] : isC(q->k[0]) ? q->k[0] : nullptr; if (!k || k->c % b->c) continue; Expr* z = k == q->k[1] ? q->k[0] : q->k[1];
                if ((u128)z->hi * k->c > maskw(q->w) || (u128)x->hi + y->hi > maskw(w)) continue;
                return mkBin(X_UREM, y, b);
            }
        if (w <= 64 && w > 8 && b->lo > 0) { unsigned nb = 64 - __builtin_clzll(std::max(a->hi, b->hi) | 1); if (nb < w) return mkZext(mkBin(X_UREM, mkExtract(a, 0, nb), mkExtract(b, 0, nb)), w); }
        break;
    case X_SDIV: case X_SREM:
        if (w <= 64 && w > 1 && a->hi < (1ull << (w - 1)) && b->hi < (1ull << (w - 1)) && b->lo > 0) return mkBin(op == X_SDIV ? X_UDIV : X_UREM, a, b);
        if (op == X_SDIV && cb && b->c == 1) return a;
        break;
    case X_AND:
        if (cb) { if (Expr* r = andConst(a, b->c)) return r; }
        if (a == b) return a;
        if (w == 1)
        {
            if (isNotOf(a, b)) return mkConst(0, 1);
            if (b->op == X_AND && (b->k[0] == a || b->k[1] == a)) return b;
            if (a->op == X_AND && (a->k[0] == b || a->k[1] == b)) return a;
            if (a->op == X_OR && (a->k[0] == b || a->k[1] == b)) return b;
            if (b->op == X_OR && (b->k[0] == a || b->k[1] == a)) return a;
        }
        if (cb && a->op == X_AND && isC(a->k[1])) return mkBin(X_AND, a->k[0], mkConst(a->k[1]->c & b->c, w));
        if (a->op == X_SEXT && a->k[0]->w == 1) return mkIte(a->k[0], b, mkConst(0, w));
        if (b->op == X_SEXT && b->k[0]->w == 1) return mkIte(b->k[0], a, mkConst(0, w));
        if (a->op == X_ZEXT) { Expr* r = mkBin(X_AND, a->k[0], mkExtract(b, 0, a->k[0]->w)); return mkZext(r, w); }
        if (b->op == X_ZEXT) { Expr* r = mkBin(X_AND, b->k[0], mkExtract(a, 0, b->k[0]->w)); return mkZext(r, w); }
        break;
    case X_OR:
        if (cb && b->c == 0) return a;
        if (cb && b->c == maskw(w)) return b;
        if (a == b) return a;
        if (w == 1)
        {
            if (isNotOf(a, b)) return mkConst(1, 1);
            if (b->op == X_OR && (b->k[0] == a || b->k[1] == a)) return b;
            if (a->op == X_OR && (a->k[0] == b || a->k[1] == b)) return a;
            if (a->op == X_AND && (a->k[0] == b || a->k[1] == b)) return b;
            if (b->op == X_AND && (b->k[0] == a || b->k[1] == a)) return a;
        }
        if (cb)
        {
            // or with constant: bits of const set -> ones
            if (popruns(b->c, w) <= 8)
            {
                std::vector<Seg> s; unsigned i = 0;
                while (i < w)
                {
                    bool bt = (b->c >> i) & 1; unsigned j = i;
                    while (j < w && (((b->c >> j) & 1) != 0) == bt) ++j;
                    s.push_back({bt ? mkConst(~(u128)0, j - i) : mkExtract(a, i, j - i), j - i});
                    i = j;
                }
                return fromSegs(s);
            }
        }
        if (Expr* r = disjointOr(a, b)) return r;
        break;
    case X_XOR:
        if (cb && b->c == 0) return a;
        if (a == b) return mkConst(0, w);
        if (w == 1 && cb && b->c == 1) return mkNot(a);
        if (w == 1 && a->op == X_NOT) return mkNot(mkBin(X_XOR, a->k[0], b));
        if (w == 1 && b->op == X_NOT) return mkNot(mkBin(X_XOR, a, b->k[0]));
        if (cb && a->op == X_XOR && isC(a->k[1])) return mkBin(X_XOR, a->k[0], mkConst(a->k[1]->c ^ b->c, w));
        if (a->op == X_XOR && isC(a->k[1])) return mkBin(X_XOR, mkBin(X_XOR, a->k[0], b), a->k[1]);
        if (b->op == X_XOR && isC(b->k[1])) return mkBin(X_XOR, mkBin(X_XOR, a, b->k[0]), b->k[1]);
        if (a->op == X_XOR && (a->k[0] == b)) return a->k[1];
        if (a->op == X_XOR && (a->k[1] == b)) return a->k[0];
        if (b->op == X_XOR && (b->k[0] == a)) return b->k[1];
        if (b->op == X_XOR && (b->k[1] == a)) return b->k[0];
        if (cb && a->op == X_ITE && isC(a->k[1]) && isC(a->k[2])) return mkIte(a->k[0], mkConst(a->k[1]->c ^ b->c, w), mkConst(a->k[2]->c ^ b->c, w));
        if (!cb) { if (Expr* r = disjointOr(a, b)) return r; }
        if (cb && (a->op == X_CONCAT)) return mkConcat(mkBin(X_XOR, a->k[0], mkConst(b->c >> a->k[1]->w, a->k[0]->w)), mkBin(X_XOR, a->k[1], mkConst(b->c, a->k[1]->w)));
        if (cb && (a->op == X_ZEXT) && (b->c >> a->k[0]->w) == 0) return mkZext(mkBin(X_XOR, a->k[0], mkConst(b->c, a->k[0]->w)), w);
        break;
    case X_SHL:
        if (cb)
        {
            if (b->c == 0) return a;
            if (b->c >= w) return mkConst(0, w);
            unsigned s = (unsigned)b->c;
            return mkConcat(mkExtract(a, 0, w - s), mkConst(0, s));
        }
        if (isC(a) && a->c == 0) return a;
        break;
    case X_LSHR:
        if (cb)
        {
            if (b->c == 0) return a;
            if (b->c >= w) return mkConst(0, w);
            unsigned s = (unsigned)b->c;
            return mkZext(mkExtract(a, s, w - s), w);
        }
        if (isC(a) && a->c == 0) return a;
        break;
    case X_ASHR:
        if (cb)
        {
            if (b->c == 0) return a;
            unsigned s = b->c >= w ? w - 1 : (unsigned)b->c;
            return mkSext(mkExtract(a, s, w - s), w);
        }
        break;
    default: break;
    }
    return cons(op, w, 0, 0, a, b);
}

bool g_noLin = false; // harness asked for the solver's verdict instead of the normal form
// ---------------------------------------------------------------- GF(2) linear forms
typedef std::vector<u64> Lin; // bit 0 is the constant, bit i+1 is atom i
static std::map<std::pair<Expr*, unsigned>, u32> g_atomIds;
static std::unordered_map<Expr*, std::vector<Lin>> g_linMemo;
static void linXor(Lin& a, const Lin& b) { if (a.size() < b.size()) a.resize(b.size(), 0); for (size_t i = 0; i < b.size(); ++i) a[i] ^= b[i]; }
static Lin linConst(bool v) { return v ? Lin{1} : Lin{}; }
static void linTrim(Lin& a) { while (!a.empty() && a.back() == 0) a.pop_back(); }
static std::vector<std::pair<Expr*, unsigned>> g_atomOf;
static Lin linAtom(Expr* e, unsigned bit)
{
    auto ins = g_atomIds.emplace(std::make_pair(e, bit), (u32)g_atomIds.size()); auto it = ins.first; if (ins.second) g_atomOf.push_back({e, bit});
    u32 i = it->second + 1; Lin l(i / 64 + 1, 0); l[i / 64] |= 1ull << (i % 64); return l;
}
static bool linIsConst(const Lin& a, bool& v) { Lin t = a; linTrim(t); if (t.empty()) { v = false; return true; } if (t.size() == 1 && t[0] == 1) { v = true; return true; } return false; }
static const std::vector<Lin>& linOf(Expr* e)
{
    auto it = g_linMemo.find(e);
    if (it != g_linMemo.end()) return it->second;
    // iterative post-order to avoid deep recursion
    std::vector<Expr*> st{e};
    while (!st.empty())
    {
        Expr* x = st.back();
        if (g_linMemo.count(x)) { st.pop_back(); continue; }
        bool structural = x->op == X_XOR || x->op == X_NOT || x->op == X_CONCAT || x->op == X_EXTRACT || x->op == X_ZEXT || x->op == X_SEXT || x->op == X_ITE || x->op == X_AND || x->op == X_OR || x->op == X_ADD || (x->op == X_EQ && x->k[0]->w == 1);
        bool ready = true;
        if (structural) for (Expr* k : x->k) if (k && !g_linMemo.count(k)) { st.push_back(k); ready = false; }
        if (!ready) continue;
        std::vector<Lin> r(x->w);
        auto kid = [&](int i) -> const std::vector<Lin>& { return g_linMemo.find(x->k[i])->second; };
        auto atoms = [&]() { for (unsigned i = 0; i < x->w; ++i) r[i] = linAtom(x, i); };
        switch (x->op)
        {
        case X_CONST: for (unsigned i = 0; i < x->w; ++i) r[i] = linConst((x->c >> i) & 1); break;
        case X_XOR: { auto &a = kid(0), &b = kid(1); for (unsigned i = 0; i < x->w; ++i) { r[i] = a[i]; linXor(r[i], b[i]); linTrim(r[i]); } break; }
        case X_NOT: { r[0] = kid(0)[0]; linXor(r[0], linConst(true)); linTrim(r[0]); break; }
        case X_CONCAT: { auto &h = kid(0), &l = kid(1); for (unsigned i = 0; i < x->w; ++i) r[i] = i < l.size() ? l[i] : h[i - l.size()]; break; }
        case X_EXTRACT: { auto& a = kid(0); for (unsigned i = 0; i < x->w; ++i) r[i] = a[i + x->imm]; break; }
        case X_ZEXT: { auto& a = kid(0); for (unsigned i = 0; i < x->w; ++i) r[i] = i < a.size() ? a[i] : Lin{}; break; }
        case X_SEXT: { auto& a = kid(0); for (unsigned i = 0; i < x->w; ++i) r[i] = i < a.size() ? a[i] : a.back(); break; }
        case X_AND: case X_OR: {
            auto &a = kid(0), &b = kid(1); bool an = x->op == X_AND;
            for (unsigned i = 0; i < x->w; ++i)
            {
                bool v; if (linIsConst(a[i], v)) r[i] = v == an ? b[i] : linConst(!an); else if (linIsConst(b[i], v)) r[i] = v == an ? a[i] : linConst(!an); else if (a[i] == b[i]) r[i] = a[i]; else r[i] = linAtom(x, i);
            }
            break; }
        case X_ADD: { // no carries when at most one operand has a bit that may be set
            auto &a = kid(0), &b = kid(1); bool ok = true; for (unsigned i = 0; i < x->w && ok; ++i) if (!a[i].empty() && !b[i].empty()) ok = false;
            if (ok) for (unsigned i = 0; i < x->w; ++i) r[i] = a[i].empty() ? b[i] : a[i]; else atoms();
            break; }
        case X_EQ: if (x->k[0]->w == 1) { r[0] = kid(0)[0]; linXor(r[0], kid(1)[0]); linXor(r[0], linConst(true)); linTrim(r[0]); } else atoms(); break;
        case X_ITE: {
            auto &c = kid(0), &a = kid(1), &b = kid(2);
            bool ok = true; std::vector<Lin> t(x->w);
            for (unsigned i = 0; i < x->w && ok; ++i)
            {
                Lin d = a[i]; linXor(d, b[i]); bool v;
                if (!linIsConst(d, v)) { ok = false; break; }
                t[i] = b[i]; if (v) linXor(t[i], c[0]); linTrim(t[i]);
            }
            if (ok) r = std::move(t); else atoms();
            break;
        }
        default: atoms(); break;
        }
        g_linMemo.emplace(x, std::move(r));
        st.pop_back();
    }
    return g_linMemo.find(e)->second;
}
struct LinKeyHash { size_t operator()(const std::vector<Lin>& v) const { u64 h = 1469598103934665603ull; for (auto& l : v) { for (u64 x : l) { h ^= x; h *= 1099511628211ull; } h = h * 31 + 7; } return h; } };
static std::unordered_map<std::vector<Lin>, Expr*, LinKeyHash> g_linEq;
static std::unordered_map<Expr*, std::vector<Lin>> g_linRows;
size_t linRowCount(Expr* e) { auto it = g_linRows.find(e); return it == g_linRows.end() ? 0 : it->second.size(); }
// Proposes values for the free bytes that make a linear equation hold, starting from a base assignment (the caller checks the proposal).
bool linPropose(Expr* e, const Model& base, const std::function<bool(u32)>& freeVar, std::vector<u8>& v)
{
    auto it = g_linRows.find(e); if (it == g_linRows.end()) return false;
    std::vector<std::pair<Lin, bool>> rows; std::vector<u32> piv;
    for (auto& l : it->second)
    {
        bool rhs = false; Lin f;
        for (size_t w = 0; w < l.size(); ++w) for (u64 x = l[w]; x; x &= x - 1)
        {
            u32 k = (u32)(w * 64 + __builtin_ctzll(x)); if (k == 0) { rhs = !rhs; continue; }
            auto& a = g_atomOf[k - 1]; if ((evalExpr(a.first, base) >> a.second) & 1) rhs = !rhs;
            if (a.first->op == X_VAR && freeVar(a.first->imm)) { if (f.size() <= w) f.resize(w + 1, 0); f[w] |= 1ull << (k % 64); }
        }
        for (size_t r = 0; r < rows.size(); ++r) if (piv[r] / 64 < f.size() && (f[piv[r] / 64] >> (piv[r] % 64) & 1)) { linXor(f, rows[r].first); rhs ^= rows[r].second; }
        linTrim(f);
        if (f.empty()) { if (rhs) return false; continue; }
        u32 p = (u32)((f.size() - 1) * 64 + 63 - __builtin_clzll(f.back()));
        for (auto& r : rows) if (p / 64 < r.first.size() && (r.first[p / 64] >> (p % 64) & 1)) { linXor(r.first, f); r.second ^= rhs; }
        rows.push_back({f, rhs}); piv.push_back(p);
    }
    for (size_t r = 0; r < rows.size(); ++r) if (rows[r].second) { auto& a = g_atomOf[piv[r] - 1]; if (v.size() <= a.first->imm) v.resize(a.first->imm + 1, 0); v[a.first->imm] ^= (u8)(1u << a.second); }
    return true;
}
// A set of GF(2)-linear facts in echelon form.
struct LinBasis
{
    std::vector<Lin> rows; std::vector<u32> piv; bool bad = false;
    void reduce(Lin& f) const { for (size_t r = 0; r < rows.size(); ++r) if (piv[r] / 64 < f.size() && (f[piv[r] / 64] >> (piv[r] % 64) & 1)) linXor(f, rows[r]); linTrim(f); }
    void add(Lin f) // the fact f == 0
    {
        reduce(f); if (f.empty()) return; if (f.size() == 1 && f[0] == 1) { bad = true; return; }
        u32 p = (u32)((f.size() - 1) * 64 + 63 - __builtin_clzll(f.back()));
        for (auto& r : rows) if (p / 64 < r.size() && (r[p / 64] >> (p % 64) & 1)) { linXor(r, f); linTrim(r); }
        rows.push_back(std::move(f)); piv.push_back(p);
    }
};
static bool linFacts(Expr* e, std::vector<Lin>& out) // e holds <=> every out == 0
{
    auto it = g_linRows.find(e); if (it != g_linRows.end()) { out = it->second; return true; }
    if (e->w != 1 || e->op == X_VAR) return false;
    Lin l = linOf(e)[0]; linXor(l, linConst(true)); linTrim(l); out.assign(1, l); return true;
}
// Does the linear part of the facts already contradict cond? dom(x): the values byte x may take under its own constraints
bool linRefutes(const std::vector<Expr*>& facts, Expr* cond, const std::function<const std::vector<bool>*(u32)>& dom, const std::vector<u32>& vars)
{
    LinBasis b; std::vector<Lin> f; std::vector<Expr*> negs;
    auto take = [&](Expr* e0)
    {
        std::vector<Expr*> st{e0};
        while (!st.empty())
        {
            Expr* e = st.back(); st.pop_back(); if (!(e->flags & XF_HASXOR)) continue;
            if (e->op == X_AND && e->w == 1) { st.push_back(e->k[0]); st.push_back(e->k[1]); continue; }
            if (e->op == X_NOT && e->k[0]->op == X_OR && e->k[0]->w == 1) { st.push_back(mkNot(e->k[0]->k[0])); st.push_back(mkNot(e->k[0]->k[1])); continue; }
            if (e->op == X_NOT && linRowCount(e->k[0])) negs.push_back(e->k[0]);
            if (linFacts(e, f)) for (auto& l : f) b.add(l);
        }
    };
    for (Expr* e : facts) if (e != cond) take(e);
    take(cond);
    for (u32 x : vars)
    {
        const std::vector<bool>* d = dom(x); if (!d) continue;
        // affine hull of the allowed values: every XOR of bits that is constant on them
        int v0 = -1; u8 bas[8]; int nb = 0; for (int v = 0; v < 256; ++v) if ((*d)[v]) { if (v0 < 0) { v0 = v; continue; } u8 t = (u8)(v ^ v0); for (int i = 0; i < nb; ++i) { u8 h = (u8)(1u << (31 - __builtin_clz(bas[i]))); if (t & h) t ^= bas[i]; } if (t) bas[nb++] = t; if (nb == 8) break; }
        if (v0 < 0 || nb == 8) continue;
        Expr* ve = mkVar(x);
        for (int m = 1; m < 256; ++m)
        {
            bool c = true; for (int i = 0; i < nb && c; ++i) c = !(__builtin_popcount((unsigned)(bas[i] & m)) & 1); if (!c) continue;
            Lin l = linConst(__builtin_popcount((unsigned)(v0 & m)) & 1); for (int i = 0; i < 8; ++i) if (m >> i & 1) linXor(l, linAtom(ve, (unsigned)i)); linTrim(l); b.add(l);
        }
    }
    if (b.bad) return true;
    for (Expr* n : negs) { linFacts(n, f); bool all = true; for (auto l : f) { b.reduce(l); if (!l.empty()) { all = false; break; } } if (all) return true; }
    return false;
}
static Expr* linEq(Expr* a, Expr* b)
{
    const std::vector<Lin>& la = linOf(a);
    const std::vector<Lin>& lb = linOf(b);
    std::vector<Lin> d;
    for (size_t i = 0; i < la.size(); ++i)
    {
        Lin x = la[i]; linXor(x, lb[i]); linTrim(x);
        bool v;
        if (linIsConst(x, v)) { if (v) return mkConst(0, 1); continue; }
        d.push_back(std::move(x));
    }
    if (d.empty()) return mkConst(1, 1);
    if (getenv("SX_LINDBG")) for (auto& x : d) { fprintf(stderr, "lin:"); for (auto& at : g_atomIds) { u32 k = at.second + 1; if (k / 64 < x.size() && (x[k / 64] >> (k % 64) & 1)) fprintf(stderr, " [%s].%u", exprStr(at.first.first, 6).c_str(), at.first.second); } fprintf(stderr, "\n"); }
    std::sort(d.begin(), d.end()); d.erase(std::unique(d.begin(), d.end()), d.end());
    auto it = g_linEq.find(d);
    if (it != g_linEq.end()) return it->second;
    Expr* e = cons(X_LINEQ, 1, 0, 0, a, b);
    g_linRows.emplace(e, d); g_linEq.emplace(std::move(d), e);
    return e;
}
bool affineTable(const std::vector<u128>& t)
{
    size_t n = t.size();
    for (size_t i = 1; i < n; ++i)
    {
        size_t top = (size_t)1 << (63 - __builtin_clzll(i));
        if (t[i] != (t[i ^ top] ^ t[top] ^ t[0])) return false;
    }
    return true;
}

Expr* mkEq(Expr* a, Expr* b)
{
    for (int t = 0; t < 2; ++t, std::swap(a, b)) // the low bits of a remainder by an even number are those of the dividend
        if (isC(b) && a->w <= 64)
        {
            Expr* u = a; while (u->op == X_ZEXT || (u->op == X_EXTRACT && u->imm == 0)) u = u->k[0];
            if (u->op != X_UREM || !isC(u->k[1]) || !u->k[1]->c || u->w > 64) continue;
            unsigned tz = std::min<unsigned>((unsigned)__builtin_ctzll((u64)u->k[1]->c), a->w); if (!tz) continue;
            for (unsigned k = 0; k < tz; ++k) { Expr* lowBit = mkExtract(u->k[0], k, 1); if (isC(lowBit) && lowBit->c != ((b->c >> k) & 1)) return mkConst(0, 1); }
        }
    if (a == b) return mkConst(1, 1);
    if (isC(a) && isC(b)) return mkConst(a->c == b->c, 1);
    if (isC(a) || (!isC(b) && a->id > b->id)) std::swap(a, b);
    unsigned w = a->w;
    if (w <= 64 && (a->hi < b->lo || b->hi < a->lo)) return mkConst(0, 1);
    if (w == 1)
    {
        if (isC(b)) return b->c ? a : mkNot(a);
        return mkNot(mkBin(X_XOR, a, b));
    }
    if (isC(b))
    {
        switch (a->op)
        {
        case X_CONCAT: {
            Expr *h = a->k[0], *l = a->k[1];
            Expr* eh = mkEq(h, mkConst(b->c >> l->w, h->w));
            if (isC(eh) && !eh->c) return eh;
            return mkAnd1(eh, mkEq(l, mkConst(b->c, l->w)));
        }
        case X_ZEXT: if (b->c >> a->k[0]->w) return mkConst(0, 1); return mkEq(a->k[0], mkConst(b->c, a->k[0]->w));
        case X_SEXT: { u128 t = b->c & maskw(a->k[0]->w); if (((u128)sx128(t, a->k[0]->w) & maskw(w)) != b->c) return mkConst(0, 1); return mkEq(a->k[0], mkConst(t, a->k[0]->w)); }
        case X_ADD: if (isC(a->k[1])) return mkEq(a->k[0], mkConst(b->c - a->k[1]->c, w)); break;
        case X_SUB: if (isC(a->k[0])) return mkEq(a->k[1], mkConst(a->k[0]->c - b->c, w)); break;
        case X_XOR: if (isC(a->k[1])) return mkEq(a->k[0], mkConst(b->c ^ a->k[1]->c, w)); if (b->c == 0) return mkEq(a->k[0], a->k[1]); break;
        case X_ITE:
            if (isC(a->k[1]) || isC(a->k[2]) || a->k[1]->op == X_ITE || a->k[2]->op == X_ITE)
            {
                Expr *e1 = mkEq(a->k[1], b), *e2 = mkEq(a->k[2], b);
                return mkIte(a->k[0], e1, e2);
            }
            break;
        case X_OR: if (b->c == 0) return mkAnd1(mkEq(a->k[0], b), mkEq(a->k[1], b)); break;
        default: break;
        }
    }
    else
    {
        if (a->op == X_ZEXT && b->op == X_ZEXT && a->k[0]->w == b->k[0]->w) return mkEq(a->k[0], b->k[0]);
        if (a->op == X_ZEXT && b->op == X_ZEXT) { unsigned m = std::max(a->k[0]->w, b->k[0]->w); return mkEq(mkExtract(a, 0, m), mkExtract(b, 0, m)); }
        if (a->op == X_SEXT && b->op == X_SEXT && a->k[0]->w == b->k[0]->w) return mkEq(a->k[0], b->k[0]);
        if (a->op == X_ADD && b->op == X_ADD && isC(a->k[1]) && isC(b->k[1]) ) return mkEq(a->k[0], mkBin(X_ADD, b->k[0], mkConst(b->k[1]->c - a->k[1]->c, w)));
        if (a->op == X_ADD && (a->k[0] == b)) return mkEq(a->k[1], mkConst(0, w));
        if (b->op == X_ADD && (b->k[0] == a)) return mkEq(b->k[1], mkConst(0, w));
        if (a->op == X_ADD && (a->k[1] == b)) return mkEq(a->k[0], mkConst(0, w));
        if (b->op == X_ADD && (b->k[1] == a)) return mkEq(b->k[0], mkConst(0, w));
        if (a->op == X_ITE && b->op == X_ITE && a->k[0] == b->k[0]) return mkIte(a->k[0], mkEq(a->k[1], b->k[1]), mkEq(a->k[2], b->k[2]));
        if (a->op == X_ITE && (a->k[1] == b || a->k[2] == b)) return mkIte(a->k[0], mkEq(a->k[1], b), mkEq(a->k[2], b));
        if (b->op == X_ITE && (b->k[1] == a || b->k[2] == a)) return mkIte(b->k[0], mkEq(b->k[1], a), mkEq(b->k[2], a));
        if (a->op == X_CONCAT && b->op == X_CONCAT && a->k[1]->w == b->k[1]->w) return mkAnd1(mkEq(a->k[0], b->k[0]), mkEq(a->k[1], b->k[1]));
        if ((a->op == X_CONCAT || b->op == X_CONCAT) && !((a->flags | b->flags) & XF_HASXOR))
        {
            Expr* cc = a->op == X_CONCAT ? a : b; Expr* o = cc == a ? b : a;
            if (o->op == X_ZEXT || o->op == X_CONCAT || o->op == X_EXTRACT || o->op == X_VAR || o->op == X_ITE)
            {
                unsigned wl = cc->k[1]->w;
                return mkAnd1(mkEq(cc->k[0], mkExtract(o, wl, w - wl)), mkEq(cc->k[1], mkExtract(o, 0, wl)));
            }
        }
    }
    if (((a->flags | b->flags) & XF_HASXOR) && w >= 4 && !g_noLin) return linEq(a, b);
    return cons(X_EQ, 1, 0, 0, a, b);
}
Expr* mkCmp(u8 op, Expr* a, Expr* b)
{
    unsigned w = a->w;
    if (op == X_EQ) return mkEq(a, b);
    if (isC(a) && isC(b)) return mkConst(foldBin(op, a->c, b->c, w), 1);
    if (a == b) return mkConst(op == X_ULE || op == X_SLE, 1);
    if (op == X_SLT || op == X_SLE)
    {
        if (w > 1 && w <= 64 && a->hi < (1ull << (w - 1)) && b->hi < (1ull << (w - 1))) op = op == X_SLT ? X_ULT : X_ULE;
        else if (w > 1 && w <= 64)
        {
            u64 s = 1ull << (w - 1);
            if (a->lo >= s && b->lo >= s) op = op == X_SLT ? X_ULT : X_ULE;
            else if (a->hi < s && b->lo >= s) return mkConst(0, 1);
            else if (a->lo >= s && b->hi < s) return mkConst(1, 1);
            else if (op == X_SLT && isC(b) && b->c == 0) return mkExtract(a, w - 1, 1);
            else if (op == X_SLE && isC(a) && a->c == 0) return mkNot(mkExtract(b, w - 1, 1));
            else if (op == X_SLT && isC(a) && a->c == maskw(w)) return mkNot(mkExtract(b, w - 1, 1));
            else if (op == X_SLE && isC(b) && b->c == maskw(w)) return mkExtract(a, w - 1, 1);
            else if (a->op == X_SEXT && b->op == X_SEXT && a->k[0]->w == b->k[0]->w) return mkCmp(op, a->k[0], b->k[0]);
            else if (a->op == X_SEXT && isC(b)) { unsigned n = a->k[0]->w; i128 v = sx128(b->c, w); if (v >= -((i128)1 << (n - 1)) && v < ((i128)1 << (n - 1))) return mkCmp(op, a->k[0], mkConst((u128)v, n)); return mkConst(v > 0, 1); }
            else if (b->op == X_SEXT && isC(a)) { unsigned n = b->k[0]->w; i128 v = sx128(a->c, w); if (v >= -((i128)1 << (n - 1)) && v < ((i128)1 << (n - 1))) return mkCmp(op, mkConst((u128)v, n), b->k[0]); return mkConst(v < 0, 1); }
        }
    }
    if (op == X_ULT || op == X_ULE)
    {
        if (w <= 64)
        {
            if (op == X_ULT) { if (a->hi < b->lo) return mkConst(1, 1); if (a->lo >= b->hi) return mkConst(0, 1); }
            else { if (a->hi <= b->lo) return mkConst(1, 1); if (a->lo > b->hi) return mkConst(0, 1); }
            // narrow to the bits that matter
            u64 mx = std::max(a->hi, b->hi);
            unsigned nb = mx ? 64 - __builtin_clzll(mx) : 1;
            if (nb < w && (a->op == X_ZEXT || b->op == X_ZEXT || a->op == X_CONCAT || b->op == X_CONCAT)) return mkCmp(op, mkExtract(a, 0, nb), mkExtract(b, 0, nb));
        }
        if (w == 1) return op == X_ULT ? mkAnd1(mkNot(a), b) : mkOr1(mkNot(a), b);
        // canonical: constant bounds as ULT/ULE mix -> use ULT(x,c) and ULT(c,x)
        if (op == X_ULE && isC(b)) { if (b->c == maskw(w)) return mkConst(1, 1); return mkCmp(X_ULT, a, mkConst(b->c + 1, w)); }
        if (op == X_ULE && isC(a)) { if (a->c == 0) return mkConst(1, 1); return mkCmp(X_ULT, mkConst(a->c - 1, w), b); }
        if (op == X_ULT && isC(b) && b->c == 1) return mkEq(a, mkConst(0, w));
        if (op == X_ULT && isC(a) && a->c == 0) return mkNot(mkEq(b, mkConst(0, w)));
        if (op == X_ULT && isC(a) && a->c == maskw(w) - 1) return mkEq(b, mkConst(maskw(w), w));
        if (op == X_ULT && isC(b) && b->c == maskw(w)) return mkNot(mkEq(a, b));
        if (isC(b) && a->op == X_ITE && isC(a->k[1]) && isC(a->k[2])) return mkIte(a->k[0], mkCmp(op, a->k[1], b), mkCmp(op, a->k[2], b));
        if (isC(a) && b->op == X_ITE && isC(b->k[1]) && isC(b->k[2])) return mkIte(b->k[0], mkCmp(op, a, b->k[1]), mkCmp(op, a, b->k[2]));
        if (isC(b) && (b->c & (b->c - 1)) == 0 && op == X_ULT) { unsigned s = 0; while (!((b->c >> s) & 1)) ++s; return mkEq(mkExtract(a, s, w - s), mkConst(0, w - s)); }
    }
    return cons(op, 1, 0, 0, a, b);
}

// ---------------------------------------------------------------- floating point
static double asD(u128 v) { u64 x = (u64)v; double d; memcpy(&d, &x, 8); return d; }
static float asF(u128 v) { u32 x = (u32)v; float f; memcpy(&f, &x, 4); return f; }
static u128 fromD(double d) { u64 x; memcpy(&x, &d, 8); return x; }
static u128 fromF(float f) { u32 x; memcpy(&x, &f, 4); return x; }
u128 foldFp(u8 op, unsigned w, u32 imm, u128 a, unsigned wa, u128 b, unsigned wb)
{
    (void)wb;
    auto dbl = [&](u128 v) { return wa == 64 ? asD(v) : (double)asF(v); };
    switch (op)
    {
    case X_FADD: return w == 64 ? fromD(asD(a) + asD(b)) : fromF(asF(a) + asF(b));
    case X_FSUB: return w == 64 ? fromD(asD(a) - asD(b)) : fromF(asF(a) - asF(b));
    case X_FMUL: return w == 64 ? fromD(asD(a) * asD(b)) : fromF(asF(a) * asF(b));
    case X_FDIV: return w == 64 ? fromD(asD(a) / asD(b)) : fromF(asF(a) / asF(b));
    case X_FREM: return w == 64 ? fromD(fmod(asD(a), asD(b))) : fromF(fmodf(asF(a), asF(b)));
    case X_FNEG: return a ^ ((u128)1 << (w - 1));
    case X_FABS: return a & ~((u128)1 << (w - 1));
    case X_FSQRT: return w == 64 ? fromD(sqrt(asD(a))) : fromF(sqrtf(asF(a)));
    case X_FFLOOR: return w == 64 ? fromD(floor(asD(a))) : fromF(floorf(asF(a)));
    case X_FCEIL: return w == 64 ? fromD(ceil(asD(a))) : fromF(ceilf(asF(a)));
    case X_FROUND: return w == 64 ? fromD(round(asD(a))) : fromF(roundf(asF(a)));
    case X_FTRUNC: return w == 64 ? fromD(trunc(asD(a))) : fromF(truncf(asF(a)));
    case X_FRINT: return w == 64 ? fromD(rint(asD(a))) : fromF(rintf(asF(a)));
    case X_FCMP: {
        double x = dbl(a), y = dbl(b); bool un = std::isnan(x) || std::isnan(y);
        switch (imm)
        {
        case 0: return 0; case 1: return !un && x == y; case 2: return !un && x > y; case 3: return !un && x >= y; case 4: return !un && x < y; case 5: return !un && x <= y; case 6: return !un && x != y; case 7: return !un;
        case 8: return un; case 9: return un || x == y; case 10: return un || x > y; case 11: return un || x >= y; case 12: return un || x < y; case 13: return un || x <= y; case 14: return un || x != y; default: return 1;
        }
    }
    // out-of-range conversions: x86-64 cvttsd2si behaviour (the result is poison in LLVM)
    case X_FPTOSI: { double x = dbl(a); if (std::isnan(x)) return w == 64 ? (u128)1 << 63 : ((u128)0x80000000u & maskw(w));
                     if (w <= 32) { if (x > -2147483649.0 && x < 2147483648.0) return (u128)(i128)(i64)x & maskw(w); return (u128)0x80000000u & maskw(w); }
                     if (x >= 9223372036854775808.0 || x < -9223372036854775808.0) return (u128)1 << 63; return (u128)(u64)(i64)x; }
    case X_FPTOUI: { double x = dbl(a); if (std::isnan(x)) return w == 64 ? (u128)1 << 63 : 0;
                     if (w <= 32) { if (x > -9.3e18 && x < 9.2e18) return (u128)(u64)(i64)x & maskw(w); return 0; }
                     if (x >= 18446744073709551616.0) return ~0ull; if (x < 0) { if (x < -9223372036854775808.0) return (u128)1 << 63; return (u128)(u64)(i64)x; } return (u128)(u64)x; }
    case X_UITOFP: { return w == 64 ? fromD((double)(u64)a) : fromF((float)(u64)a); }
    case X_SITOFP: { i64 v = sx64((u64)a, wa); return w == 64 ? fromD((double)v) : fromF((float)v); }
    case X_FPEXT: return fromD((double)asF(a));
    case X_FPTRUNC: return fromF((float)asD(a));
    case X_FFN: { double x = dbl(a); double r;
        switch (imm & 0xff) { case 0: r = pow(x, dbl(b)); break; case 1: r = exp(x); break; case 2: r = log(x); break; case 3: r = log10(x); break; case 4: r = fmod(x, dbl(b)); break; case 5: r = copysign(x, dbl(b)); break; case 6: r = fmin(x, dbl(b)); break; case 7: r = fmax(x, dbl(b)); break; case 8: r = exp2(x); break; case 9: r = ldexp(x, (int)(i64)sx64((u64)b, 32)); break; default: abort(); }
        return w == 64 ? fromD(r) : fromF((float)r); }
    }
    abort();
}
// doubles known to hold an integer of magnitude below 2^52: sums, differences and products with constants stay exact
static bool srange(Expr* x, i64& lo, i64& hi, int depth = 6)
{
    if (x->w > 64) return false;
    if (isC(x)) { lo = hi = sx64((u64)x->c, x->w); return true; }
    i64 tlo = x->w == 64 ? INT64_MIN : -(i64)(1ull << (x->w - 1)), thi = x->w == 64 ? INT64_MAX : (i64)((1ull << (x->w - 1)) - 1);
    if (x->hi <= (u64)thi) { lo = 0; hi = (i64)x->hi; return true; }
    if (depth)
    {
        i64 a, b, c, d;
        if (x->op == X_SEXT) return srange(x->k[0], lo, hi, depth - 1);
        if ((x->op == X_ADD || x->op == X_SUB) && srange(x->k[0], a, b, depth - 1) && srange(x->k[1], c, d, depth - 1))
        {
            i128 l = x->op == X_ADD ? (i128)a + c : (i128)a - d, h = x->op == X_ADD ? (i128)b + d : (i128)b - c;
            if (l >= tlo && h <= thi) { lo = (i64)l; hi = (i64)h; return true; }
        }
        if (x->op == X_ITE && srange(x->k[1], a, b, depth - 1) && srange(x->k[2], c, d, depth - 1)) { lo = std::min(a, c); hi = std::max(b, d); return true; }
    }
    lo = tlo; hi = thi; return true;
}
static const i64 IVMAX = (i64)1 << 52;
static bool intVal(Expr* x, Expr*& i, i64& lo, i64& hi)
{
    if (x->w != 64) return false;
    if (isC(x)) { double v = asD(x->c); if (!(v > -4503599627370496.0 && v < 4503599627370496.0) || v != floor(v) || (v == 0 && std::signbit(v))) return false; lo = hi = (i64)v; i = mkConst((u64)lo, 64); return true; }
    if (x->op == X_UITOFP && x->k[0]->w <= 64 && x->k[0]->hi < (u64)IVMAX) { lo = 0; hi = (i64)x->k[0]->hi; i = mkZext(x->k[0], 64); return true; }
    if (x->op == X_SITOFP && x->k[0]->w <= 64 && srange(x->k[0], lo, hi) && lo > -IVMAX && hi < IVMAX) { i = mkSext(x->k[0], 64); return true; }
    return false;
}
static Expr* fromInt(Expr* e, i64 lo, i64 hi) // e: 64-bit, in [lo, hi]
{
    unsigned w = 2; while (w < 64 && (lo < -(i64)(1ull << (w - 1)) || hi > (i64)((1ull << (w - 1)) - 1))) ++w;
    if (lo >= 0) return mkFp(X_UITOFP, 64, 0, mkExtract(e, 0, w - 1));
    return mkFp(X_SITOFP, 64, 0, mkExtract(e, 0, w));
}
// a monotone function of one integer, against a constant: the integers for which the comparison holds form an interval, found by bisection
static Expr* monotoneCmp(u32 imm, Expr* x, u128 kc, bool swapped) // swapped: constant on the left
{
    struct Op { Expr* e; int side; }; std::vector<Op> chain; Expr* b = x; bool inc = true;
    while (b->op != X_SITOFP && b->op != X_UITOFP)
    {
        if (chain.size() > 6) return nullptr;
        auto fin = [&](Expr* c) { if (!isC(c)) return false; double v = c->w == 64 ? asD(c->c) : asF(c->c); return std::isfinite(v) && v != 0 && fabs(v) < 1e30 && fabs(v) > 1e-30; };
        auto neg = [&](Expr* c) { return (bool)(c->c >> (c->w - 1) & 1); };
        switch (b->op)
        {
        case X_FADD: case X_FMUL: { int s = isC(b->k[1]) ? 0 : 1; if (!fin(b->k[1 - s])) return nullptr; if (b->op == X_FMUL && neg(b->k[1 - s])) inc = !inc; chain.push_back({b, s}); b = b->k[s]; break; }
        case X_FDIV: if (!fin(b->k[1])) return nullptr; if (neg(b->k[1])) inc = !inc; chain.push_back({b, 0}); b = b->k[0]; break;
        case X_FSUB: { int s = isC(b->k[1]) ? 0 : 1; if (!fin(b->k[1 - s])) return nullptr; if (s) inc = !inc; chain.push_back({b, s}); b = b->k[s]; break; }
        case X_XOR: if (!isC(b->k[1]) || b->k[1]->c != (u128)1 << (b->w - 1)) return nullptr; inc = !inc; chain.push_back({b, 0}); b = b->k[0]; break;
        case X_FFLOOR: case X_FCEIL: case X_FROUND: case X_FTRUNC: case X_FRINT: case X_FPEXT: case X_FPTRUNC: chain.push_back({b, 0}); b = b->k[0]; break;
        default: return nullptr;
        }
    }
    if (b->k[0]->w > 64) return nullptr;
    i64 lo, hi; if (b->op == X_UITOFP) { if (b->k[0]->hi >= (1ull << 62)) return nullptr; lo = 0; hi = (i64)b->k[0]->hi; } else { if (!srange(b->k[0], lo, hi) || lo < -((i64)1 << 62) || hi > ((i64)1 << 62)) return nullptr; }
    double K = x->w == 64 ? asD(kc) : asF(kc); if (std::isnan(K)) return nullptr;
    auto f = [&](i64 v) { u128 c = foldFp(b->op, b->w, 0, (u128)(u64)v & maskw(b->k[0]->w), b->k[0]->w, 0, 0); for (size_t i = chain.size(); i-- > 0;) { Expr* e = chain[i].e; if (e->op == X_XOR) { c ^= (u128)1 << (e->w - 1); continue; } Expr* o = e->k[1] ? e->k[1 - chain[i].side] : nullptr; c = chain[i].side == 0 ? foldFp(e->op, e->w, e->imm, c, e->k[0]->w, o ? o->c : 0, o ? o->w : 0) : foldFp(e->op, e->w, e->imm, o->c, o->w, c, e->k[1]->w); } return x->w == 64 ? asD(c) : (double)asF(c); };
    // the first integer from which on (increasing: f >= K or f > K; decreasing: f <= K or f < K)
    auto first = [&](bool strict) { i128 l = lo, h = (i128)hi + 1; while (l < h) { i128 m = (l + h) >> 1; double v = f((i64)m); bool past = inc ? (strict ? v > K : v >= K) : (strict ? v < K : v <= K); if (past) h = m; else l = m + 1; } return l; };
    i128 t1 = first(false), t2 = first(true); // [lo,t1) before K, [t1,t2) equal to K, [t2,hi] past K
    Expr* i = b->op == X_UITOFP ? mkZext(b->k[0], 64) : mkSext(b->k[0], 64);
    auto below = [&](i128 t) { return t <= lo ? mkConst(0, 1) : t > hi ? mkConst(1, 1) : mkCmp(X_SLT, i, mkConst((u64)(i64)t, 64)); };
    Expr *lt = inc ? below(t1) : mkNot(below(t2)), *le = inc ? below(t2) : mkNot(below(t1)), *eq = mkAnd1(below(t2), mkNot(below(t1)));
    switch (imm) { case 1: return eq; case 6: return mkNot(eq); case 7: return mkConst(1, 1); case 4: return swapped ? mkNot(le) : lt; case 5: return swapped ? mkNot(lt) : le; default: return nullptr; }
}
Expr* mkFp(u8 op, unsigned w, u32 imm, Expr* a, Expr* b)
{
    if (isC(a) && (!b || isC(b))) return mkConst(foldFp(op, w, imm, a->c, a->w, b ? b->c : 0, b ? b->w : 0), w);
    if (w == 64 && (op == X_FADD || op == X_FSUB || op == X_FMUL))
    {
        Expr *ia, *ib; i64 al, ah, bl, bh;
        if (intVal(a, ia, al, ah) && intVal(b, ib, bl, bh))
        {
            if (op == X_FADD && al + bl > -IVMAX && ah + bh < IVMAX) return fromInt(mkBin(X_ADD, ia, ib), al + bl, ah + bh);
            if (op == X_FSUB && al - bh > -IVMAX && ah - bl < IVMAX) return fromInt(mkBin(X_SUB, ia, ib), al - bh, ah - bl);
            // (a product with a negative factor could be -0.0)
            if (op == X_FMUL && (isC(a) || isC(b)) && (isC(a) ? al : bl) > 0)
            {
                i128 k = isC(a) ? al : bl, l = k * (isC(a) ? bl : al), h = k * (isC(a) ? bh : ah);
                if (l > -IVMAX && h < IVMAX) return fromInt(mkBin(X_MUL, ia, ib), (i64)l, (i64)h);
            }
        }
    }
    // a sign passes through multiplication or division by a finite constant, and through conversions
    auto negOf = [&](Expr* x) -> Expr* { return x->op == X_XOR && isC(x->k[1]) && x->k[1]->c == (u128)1 << (x->w - 1) ? x->k[0] : nullptr; };
    auto finiteC = [&](Expr* x) { if (!isC(x)) return false; double v = x->w == 64 ? asD(x->c) : asF(x->c); return std::isfinite(v) && v != 0; };
    if (op == X_FDIV && negOf(a) && finiteC(b)) return mkFp(X_FNEG, w, 0, mkFp(X_FDIV, w, imm, negOf(a), b));
    if (op == X_FMUL && ((negOf(a) && finiteC(b)) || (negOf(b) && finiteC(a)))) return mkFp(X_FNEG, w, 0, finiteC(b) ? mkFp(X_FMUL, w, imm, negOf(a), b) : mkFp(X_FMUL, w, imm, a, negOf(b)));
    if ((op == X_FPEXT || op == X_FPTRUNC) && negOf(a)) return mkFp(X_FNEG, w, 0, mkFp(op, w, imm, negOf(a)));
    if (op == X_FDIV && isC(b)) // division by a power of two is a multiplication
    {
        double v = w == 64 ? asD(b->c) : asF(b->c); int ex; double m = frexp(v, &ex);
        if (m == 0.5 && ex > -100 && ex < 100) return mkFp(X_FMUL, w, 0, a, mkConst(w == 64 ? fromD(1 / v) : fromF((float)(1 / v)), w));
    }
    switch (op)
    {
    case X_FADD: case X_FMUL:
        if (op == X_FMUL)
        {
            Expr* cst = isC(b) ? b : isC(a) ? a : nullptr; Expr* o = cst == b ? a : b;
            if (cst) { double v = w == 64 ? asD(cst->c) : asF(cst->c); if (v == 1.0) return o; if (v == -1.0) return mkFp(X_FNEG, w, 0, o);
                if (w == 64 && o->op == X_UITOFP && o->k[0]->w <= 64 && v > 1 && v < 4294967296.0 && v == floor(v) && o->k[0]->hi < (1ull << 53) / (u64)v) return mkFp(X_UITOFP, w, 0, mkBin(X_MUL, mkZext(o->k[0], 64), mkConst((u64)v, 64))); } // exact integer product
        }
        if (a->id > b->id) std::swap(a, b);
        break;
    case X_FNEG: return mkBin(X_XOR, a, mkConst((u128)1 << (w - 1), w));
    case X_FABS: return mkBin(X_AND, a, mkConst(maskw(w - 1), w));
    case X_FCMP: {
        if (imm == 0) return mkConst(0, 1);
        if (imm == 15) return mkConst(1, 1);
        // canonical direction: use less-than forms
        switch (imm) { case 2: return mkFp(op, 1, 4, b, a); case 3: return mkFp(op, 1, 5, b, a); case 10: return mkFp(op, 1, 12, b, a); case 11: return mkFp(op, 1, 13, b, a); default: break; }
        if (imm >= 8) return mkNot(mkFp(op, 1, imm == 12 ? 3 : imm == 13 ? 2 : imm == 8 ? 7 : imm == 9 ? 6 : imm == 14 ? 1 : imm, a, b));
        // comparisons of exactly converted integers
        auto exact = [](Expr* x) -> Expr* {
            unsigned mant = x->w == 64 ? 53 : 24;
            if (x->op == X_UITOFP && (x->k[0]->w <= mant || (x->k[0]->w <= 64 && x->k[0]->hi < (1ull << mant)))) return x->k[0];
            return nullptr;
        };
        {
            Expr *x, *y; i64 xl, xh, yl, yh; Expr *p = a, *q = b;
            // dividing integers below 2^46 by the same constant of moderate size keeps their order, strictly
            if (a->op == X_FDIV && b->op == X_FDIV && a->k[1] == b->k[1] && isC(a->k[1]) && a->w == 64 && asD(a->k[1]->c) >= 1 && asD(a->k[1]->c) < 1e9) { p = a->k[0]; q = b->k[0]; }
            i64 lim = p == a ? IVMAX : (i64)1 << 46;
            if (a->w == 64 && (p != a || a->op == X_SITOFP || b->op == X_SITOFP) && intVal(p, x, xl, xh) && intVal(q, y, yl, yh) && xl > -lim && yl > -lim && xh < lim && yh < lim)
                switch (imm) { case 1: return mkEq(x, y); case 4: return mkCmp(X_SLT, x, y); case 5: return mkCmp(X_SLE, x, y); case 6: return mkNot(mkEq(x, y)); case 7: return mkConst(1, 1); }
        }
        Expr *ia = exact(a), *ib = exact(b);
        auto constInt = [](Expr* x, Expr*& out, bool& isInt, bool& neg, bool& huge, double& v) { if (!isC(x)) return false; v = x->w == 64 ? asD(x->c) : asF(x->c); if (std::isnan(v)) return false; neg = v < 0; huge = v >= 9e18; isInt = !neg && !huge && v == floor(v); out = nullptr; return true; };
        if (ia && ib)
        {
            Expr *x = mkZext(ia, 64), *y = mkZext(ib, 64);
            switch (imm) { case 1: return mkEq(x, y); case 4: return mkCmp(X_ULT, x, y); case 5: return mkCmp(X_ULE, x, y); case 6: return mkNot(mkEq(x, y)); case 7: return mkConst(1, 1); }
        }
        if (ia || ib)
        {
            Expr* o; bool isInt, neg, huge; double v;
            if (ia && constInt(b, o, isInt, neg, huge, v))
            {
                Expr* x = mkZext(ia, 64);
                u64 fl = neg || huge ? 0 : (u64)floor(v);
                switch (imm)
                {
                case 1: return isInt ? mkEq(x, mkConst(fl, 64)) : mkConst(0, 1);
                case 6: return isInt ? mkNot(mkEq(x, mkConst(fl, 64))) : mkConst(1, 1);
                case 4: if (neg) return mkConst(0, 1); if (huge) return mkConst(1, 1); return isInt ? mkCmp(X_ULT, x, mkConst(fl, 64)) : mkCmp(X_ULE, x, mkConst(fl, 64));
                case 5: if (neg) return mkConst(0, 1); if (huge) return mkConst(1, 1); return mkCmp(X_ULE, x, mkConst(fl, 64));
                case 7: return mkConst(1, 1);
                }
            }
            else if (ib && constInt(a, o, isInt, neg, huge, v))
            {
                Expr* x = mkZext(ib, 64);
                u64 fl = neg || huge ? 0 : (u64)floor(v);
                switch (imm)
                {
                case 1: return isInt ? mkEq(x, mkConst(fl, 64)) : mkConst(0, 1);
                case 6: return isInt ? mkNot(mkEq(x, mkConst(fl, 64))) : mkConst(1, 1);
                case 4: if (neg) return mkConst(1, 1); if (huge) return mkConst(0, 1); return mkCmp(X_ULT, mkConst(fl, 64), x); // v < x  <=> floor(v) < x
                case 5: if (neg) return mkConst(1, 1); if (huge) return mkConst(0, 1); return isInt ? mkCmp(X_ULE, mkConst(fl, 64), x) : mkCmp(X_ULT, mkConst(fl, 64), x);
                case 7: return mkConst(1, 1);
                }
            }
        }
        if (isC(b) && (a->flags & XF_HASFP)) { if (Expr* r = monotoneCmp(imm, a, b->c, false)) return r; }
        if (isC(a) && (b->flags & XF_HASFP)) { if (Expr* r = monotoneCmp(imm, b, a->c, true)) return r; }
        // push into ITE with constant arms
        if (a->op == X_ITE && isC(b) && (isC(a->k[1]) || isC(a->k[2]))) return mkIte(a->k[0], mkFp(op, 1, imm, a->k[1], b), mkFp(op, 1, imm, a->k[2], b));
        if (b->op == X_ITE && isC(a) && (isC(b->k[1]) || isC(b->k[2]))) return mkIte(b->k[0], mkFp(op, 1, imm, a, b->k[1]), mkFp(op, 1, imm, a, b->k[2]));
        if (a == b && (imm == 1 || imm == 5 || imm == 7)) { if (Expr* r = monotoneCmp(7, a, 0, false)) return r; }
        if (a == b && imm != 1 && imm != 5 && imm != 7) return mkConst(0, 1); // x<x, x!=x (ordered)
        if (a == b) { // ordered self comparison: not NaN
            unsigned m = a->w == 64 ? 52 : 23, ew = a->w - 1 - m;
            Expr *man = mkExtract(a, 0, m), *ex = mkExtract(a, m, ew);
            return mkNot(mkAnd1(mkEq(ex, mkConst(maskw(ew), ew)), mkNot(mkEq(man, mkConst(0, m)))));
        }
        // NaN test / order test directly on bits (IEEE total order trick), exact and cheap for the bit-blaster
        {
            unsigned m = a->w == 64 ? 52 : 23, ew = a->w - 1 - m, W = a->w;
            auto nan = [&](Expr* x) { return mkAnd1(mkEq(mkExtract(x, m, ew), mkConst(maskw(ew), ew)), mkNot(mkEq(mkExtract(x, 0, m), mkConst(0, m)))); };
            auto zero = [&](Expr* x) { return mkEq(mkExtract(x, 0, W - 1), mkConst(0, W - 1)); };
            Expr* ord = mkAnd1(mkNot(nan(a)), mkNot(nan(b)));
            if (imm == 7) return ord;
            Expr *sa = mkExtract(a, W - 1, 1), *sb = mkExtract(b, W - 1, 1), *ma = mkExtract(a, 0, W - 1), *mb = mkExtract(b, 0, W - 1);
            Expr* bothz = mkAnd1(zero(a), zero(b));
            Expr* eq = mkOr1(bothz, mkAnd1(mkEq(ma, mb), mkEq(sa, sb)));
            if (imm == 1) return mkAnd1(ord, eq);
            if (imm == 6) return mkAnd1(ord, mkNot(eq));
            Expr* lt = mkIte(sa, mkIte(sb, mkCmp(X_ULT, mb, ma), mkNot(bothz)), mkIte(sb, mkConst(0, 1), mkCmp(X_ULT, ma, mb)));
            if (imm == 4) return mkAnd1(ord, lt);
            if (imm == 5) return mkAnd1(ord, mkOr1(lt, eq));
        }
        break;
    }
    case X_FPTOUI: case X_FPTOSI: {
        unsigned mant = a->w == 64 ? 53 : 24;
        if (a->op == X_UITOFP && a->k[0]->w <= 64 && a->k[0]->hi < (1ull << mant))
        {
            Expr* x = a->k[0];
            if (op == X_FPTOUI ? (w >= 64 || x->hi <= mask64(w)) : (x->hi <= mask64(w - 1))) return x->w >= w ? mkExtract(x, 0, w) : mkZext(x, w);
        }
        if (a->op == X_FADD && a->w == 64) // rounding an exact integer: x + 0.5 truncates to x
            for (int i = 0; i < 2; ++i)
                if (isC(a->k[i]) && asD(a->k[i]->c) == 0.5 && a->k[1 - i]->op == X_UITOFP && a->k[1 - i]->k[0]->w <= 64 && a->k[1 - i]->k[0]->hi < (1ull << 51)) return mkFp(op, w, imm, a->k[1 - i]);
        if (op == X_FPTOSI && a->op == X_SITOFP && a->k[0]->w <= mant && a->k[0]->w <= w) return mkSext(a->k[0], w);
        if (a->op == X_ITE && isC(a->k[1]) && isC(a->k[2])) return mkIte(a->k[0], mkFp(op, w, imm, a->k[1]), mkFp(op, w, imm, a->k[2]));
        break;
    }
    case X_SITOFP:
        if (a->w <= 64 && a->w > 1 && a->hi < (1ull << (a->w - 1))) return mkFp(X_UITOFP, w, imm, a);
        if (a->op == X_SEXT) return mkFp(X_SITOFP, w, imm, a->k[0]);
        if (a->w <= 64 && a->w > 2) // the narrowest form of the integer
        {
            i64 lo, hi; srange(a, lo, hi); unsigned n = 2; while (n < a->w && (lo < -(i64)(1ull << (n - 1)) || hi > (i64)((1ull << (n - 1)) - 1))) ++n;
            if (lo >= 0) { while (n > 1 && hi <= (i64)((1ull << (n - 1)) - 1)) --n; return mkFp(X_UITOFP, w, imm, mkExtract(a, 0, n < a->w ? n : a->w)); }
            if (n < a->w) return mkFp(X_SITOFP, w, imm, mkExtract(a, 0, n));
        }
        break;
    case X_UITOFP:
        if (a->op == X_ZEXT) return mkFp(X_UITOFP, w, imm, a->k[0]);
        if (a->w <= 64 && a->w > 1 && a->hi < (1ull << (a->w - 1))) { unsigned n = 1; while (a->hi >> n) ++n; if (n < a->w) return mkFp(X_UITOFP, w, imm, mkExtract(a, 0, n)); }
        if (a->op == X_ITE && isC(a->k[1]) && isC(a->k[2])) return mkIte(a->k[0], mkFp(op, w, imm, a->k[1]), mkFp(op, w, imm, a->k[2]));
        break;
    case X_FPTRUNC: if (a->op == X_FPEXT && w == a->k[0]->w) return a->k[0]; // exact (NaN payloads quieted only)
        break;
    case X_FPEXT:
        if (a->op == X_UITOFP && a->k[0]->w <= 64 && a->k[0]->hi < (1ull << 24)) return mkFp(X_UITOFP, w, 0, a->k[0]);
        if (a->op == X_SITOFP && a->k[0]->w <= 24) return mkFp(X_SITOFP, w, 0, a->k[0]);
        break;
    default: break;
    }
    return cons(op, w, imm, 0, a, b);
}

// ---------------------------------------------------------------- evaluation
static u32 g_stamp = 0;
u32 newStamp() { return ++g_stamp; }
u128 evalExpr(Expr* root, const Model& m)
{
    if (isC(root)) return root->c;
    if (root->estamp == m.stamp) return root->ev;
    static std::vector<Expr*> st; size_t base = st.size();
    st.push_back(root);
    while (st.size() > base)
    {
        Expr* e = st.back();
        if (e->estamp == m.stamp) { st.pop_back(); continue; }
        if (e->op == X_CONST) { e->ev = e->c; e->estamp = m.stamp; st.pop_back(); continue; }
        if (e->op == X_VAR) { e->ev = e->imm < m.v.size() ? m.v[e->imm] : 0; e->estamp = m.stamp; st.pop_back(); continue; }
        bool ready = true;
        for (Expr* k : e->k) if (k && k->estamp != m.stamp && k->op != X_CONST) { st.push_back(k); ready = false; }
        if (!ready) continue;
        auto V = [&](int i) -> u128 { return e->k[i]->op == X_CONST ? e->k[i]->c : e->k[i]->ev; };
        u128 r;
        switch (e->op)
        {
        case X_CONCAT: r = (V(0) << e->k[1]->w) | V(1); break;
        case X_EXTRACT: r = (V(0) >> e->imm) & maskw(e->w); break;
        case X_ZEXT: r = V(0); break;
        case X_SEXT: r = (u128)sx128(V(0), e->k[0]->w) & maskw(e->w); break;
        case X_NOT: r = !V(0); break;
        case X_ITE: r = V(0) ? V(1) : V(2); break;
        case X_LINEQ: r = V(0) == V(1); break;
        default:
            if (isFpOp(e->op)) r = foldFp(e->op, e->w, e->imm, V(0), e->k[0]->w, e->k[1] ? V(1) : 0, e->k[1] ? e->k[1]->w : 0);
            else r = foldBin(e->op, V(0), V(1), e->k[0]->w);
        }
        e->ev = r; e->estamp = m.stamp; st.pop_back();
    }
    return root->ev;
}

// ---------------------------------------------------------------- variable sets
struct VsHash { size_t operator()(const std::vector<u64>& v) const { u64 h = 14695981039346656037ull; for (u64 x : v) { h ^= x; h *= 1099511628211ull; h ^= h >> 31; } return h; } };
static std::unordered_map<std::vector<u64>, const VarSet*, VsHash> g_vs;
struct PPHash { size_t operator()(const std::pair<const VarSet*, const VarSet*>& p) const { return ((u64)(uintptr_t)p.first * 0x9E3779B97F4A7C15ull) ^ (u64)(uintptr_t)p.second; } };
static std::unordered_map<std::pair<const VarSet*, const VarSet*>, const VarSet*, PPHash> g_vsu;
static const VarSet* intern(const std::vector<u64>& w)
{
    auto it = g_vs.find(w);
    if (it != g_vs.end()) return it->second;
    VarSet* v = new VarSet{w}; g_vs.emplace(w, v); return v;
}
const VarSet* vsUnion(const VarSet* a, const VarSet* b)
{
    if (a == b || b->w.empty()) return a;
    if (a->w.empty()) return b;
    std::pair<const VarSet*, const VarSet*> key(a, b);
    auto it = g_vsu.find(key);
    if (it != g_vsu.end()) return it->second;
    std::vector<u64> w = a->w; if (w.size() < b->w.size()) w.resize(b->w.size(), 0);
    for (size_t i = 0; i < b->w.size(); ++i) w[i] |= b->w[i];
    const VarSet* r = intern(w); g_vsu.emplace(key, r); return r;
}
const VarSet* varsOf(Expr* root)
{
    if (root->vs) return root->vs;
    std::vector<Expr*> st{root};
    while (!st.empty())
    {
        Expr* e = st.back();
        if (e->vs) { st.pop_back(); continue; }
        if (e->op == X_CONST) { e->vs = intern({}); st.pop_back(); continue; }
        if (e->op == X_VAR) { std::vector<u64> w(e->imm / 64 + 1, 0); w[e->imm / 64] |= 1ull << (e->imm % 64); e->vs = intern(w); st.pop_back(); continue; }
        bool ready = true;
        for (Expr* k : e->k) if (k && !k->vs) { st.push_back(k); ready = false; }
        if (!ready) continue;
        const VarSet* v = intern({});
        for (Expr* k : e->k) if (k) v = vsUnion(v, k->vs);
        e->vs = v; st.pop_back();
    }
    return root->vs;
}
bool vsIntersects(const VarSet* a, const VarSet* b)
{
    size_t n = std::min(a->w.size(), b->w.size());
    for (size_t i = 0; i < n; ++i) if (a->w[i] & b->w[i]) return true;
    return false;
}
std::string exprStr(Expr* e, int d)
{
    static const char* N[] = {"c", "v", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr", "concat", "extract", "zext", "sext", "eq", "ult", "ule", "slt", "sle", "not", "ite", "lineq", "fadd", "fsub", "fmul", "fdiv", "frem", "fneg", "fabs", "fcmp", "fptoui", "fptosi", "uitofp", "sitofp", "fpext", "fptrunc", "fsqrt", "ffloor", "fceil", "fround", "ftrunc", "frint", "ffn"};
    char buf[64];
    if (e->op == X_CONST) { snprintf(buf, 64, "%llx:%d", (unsigned long long)e->c, e->w); return buf; }
    if (e->op == X_VAR) { snprintf(buf, 64, "v%u", e->imm); return buf; }
    if (d <= 0) return "..";
    snprintf(buf, 64, "(%s:%d", N[e->op], e->w); std::string s = buf;
    if (e->op == X_EXTRACT || e->op == X_FCMP) { snprintf(buf, 64, "@%u", e->imm); s += buf; }
    for (Expr* k : e->k) if (k) s += " " + exprStr(k, d - 1);
    return s + ")";
}
