#include "solver.hpp"
#include <algorithm>
#include <chrono>
#include <map>
#include <set>
#include <unordered_map>
#include <z3++.h>
SolverStats g_sst;
unsigned g_queryTimeoutMs = 20000;

struct Z3Env
{
    z3::context c;
    std::unique_ptr<z3::solver> s;
    std::vector<Z3_ast> slot;           // zslot-1 -> ast (ref counted)
    std::vector<Expr*> slotExpr;
    std::unordered_map<Expr*, unsigned> proxies; // asserted constraint -> proxy index
    std::vector<z3::expr> proxyAst;
    std::vector<z3::expr> varAst;       // per symbolic byte
    bool fpReal;
    unsigned asserted = 0; std::set<std::pair<u32, u32>> congr; // FP nodes whose congruence is asserted
    explicit Z3Env(bool fp) : fpReal(fp) { reset(); }
    void reset()
    {
        if (fpReal) s = std::make_unique<z3::solver>(c);
        else s = std::make_unique<z3::solver>(c, "QF_FD");
        proxies.clear(); proxyAst.clear(); asserted = 0; congr.clear();
    }
    z3::expr var(u32 i)
    {
        while (varAst.size() <= i) { char b[32]; snprintf(b, 32, "v%zu", varAst.size()); varAst.push_back(c.bv_const(b, 8)); }
        return varAst[i];
    }
    std::unordered_map<Expr*, z3::expr*> memo;
    z3::expr num(u128 v, unsigned w)
    {
        if (w <= 64) return c.bv_val((uint64_t)v, w);
        return z3::concat(c.bv_val((uint64_t)(v >> 64), w - 64), c.bv_val((uint64_t)v, 64));
    }
    z3::sort fsort(unsigned w) { return w == 64 ? c.fpa_sort(11, 53) : c.fpa_sort(8, 24); }
    z3::expr toFp(const z3::expr& bv) { return z3::expr(c, Z3_mk_fpa_to_fp_bv(c, bv, fsort(bv.get_sort().bv_size()))); }
    z3::expr fromFp(const z3::expr& f) { return z3::expr(c, Z3_mk_fpa_to_ieee_bv(c, f)); }
    z3::expr rne() { return z3::expr(c, Z3_mk_fpa_rne(c)); }
    z3::expr rtz() { return z3::expr(c, Z3_mk_fpa_rtz(c)); }
    // all 1-bit expressions are represented as Bool, wider ones as BV
    z3::expr bit2bv(const z3::expr& b) { return z3::ite(b, c.bv_val(1, 1), c.bv_val(0, 1)); }
    z3::expr get(Expr* e) // as its natural representation
    {
        auto it = memo.find(e);
        if (it != memo.end()) return *it->second;
        std::vector<Expr*> st{e};
        while (!st.empty())
        {
            Expr* x = st.back();
            if (memo.count(x)) { st.pop_back(); continue; }
            bool opaque = isFpOp(x->op) && !fpReal;
            bool ready = true;
            if (!opaque) for (Expr* k : x->k) if (k && !memo.count(k)) { st.push_back(k); ready = false; }
            if (!ready) continue;
            memo.emplace(x, new z3::expr(build(x)));
            st.pop_back();
        }
        return *memo.find(e)->second;
    }
    z3::expr bv(Expr* e) { z3::expr r = *memo.find(e)->second; return e->w == 1 ? bit2bv(r) : r; }
    z3::expr bl(Expr* e) { return *memo.find(e)->second; }
    z3::expr mk(Z3_ast a) { c.check_error(); return z3::expr(c, a); }
    z3::expr fpvar(Expr* e) { char b[32]; snprintf(b, 32, "f%u", e->id); return e->w == 1 ? c.bool_const(b) : c.bv_const(b, e->w); }
    z3::expr build(Expr* e)
    {
        unsigned w = e->w;
        auto ret = [&](z3::expr x) { return w == 1 ? (x == c.bv_val(1, 1)) : x; };
        Expr *a = e->k[0], *b = e->k[1];
        switch (e->op)
        {
        case X_CONST: return w == 1 ? c.bool_val(e->c != 0) : num(e->c, w);
        case X_VAR: return var(e->imm);
        case X_ADD: return ret(bv(a) + bv(b));
        case X_SUB: return ret(bv(a) - bv(b));
        case X_MUL: return ret(bv(a) * bv(b));
        case X_UDIV: return ret(z3::udiv(bv(a), bv(b)));
        case X_SDIV: return ret(bv(a) / bv(b));
        case X_UREM: return ret(z3::urem(bv(a), bv(b)));
        case X_SREM: return ret(z3::srem(bv(a), bv(b)));
        case X_AND: return w == 1 ? (bl(a) && bl(b)) : (bv(a) & bv(b));
        case X_OR: return w == 1 ? (bl(a) || bl(b)) : (bv(a) | bv(b));
        case X_XOR: return w == 1 ? mk(Z3_mk_xor(c, bl(a), bl(b))) : (bv(a) ^ bv(b));
        case X_SHL: return ret(z3::shl(bv(a), bv(b)));
        case X_LSHR: return ret(z3::lshr(bv(a), bv(b)));
        case X_ASHR: return ret(z3::ashr(bv(a), bv(b)));
        case X_CONCAT: return z3::concat(bv(a), bv(b));
        case X_EXTRACT: return ret(bv(a).extract(e->imm + w - 1, e->imm));
        case X_ZEXT: return z3::zext(bv(a), w - a->w);
        case X_SEXT: return z3::sext(bv(a), w - a->w);
        case X_EQ: case X_LINEQ: return a->w == 1 ? (bl(a) == bl(b)) : (bv(a) == bv(b));
        case X_ULT: return z3::ult(bv(a), bv(b));
        case X_ULE: return z3::ule(bv(a), bv(b));
        case X_SLT: return bv(a) < bv(b);
        case X_SLE: return bv(a) <= bv(b);
        case X_NOT: return !bl(a);
        case X_ITE: return w == 1 ? z3::ite(bl(a), bl(b), bl(e->k[2])) : z3::ite(bl(a), bv(b), bv(e->k[2]));
        default: break;
        }
        if (!fpReal) return fpvar(e);
        switch (e->op)
        {
        case X_FADD: return fromFp(mk(Z3_mk_fpa_add(c, rne(), toFp(bv(a)), toFp(bv(b)))));
        case X_FSUB: return fromFp(mk(Z3_mk_fpa_sub(c, rne(), toFp(bv(a)), toFp(bv(b)))));
        case X_FMUL: return fromFp(mk(Z3_mk_fpa_mul(c, rne(), toFp(bv(a)), toFp(bv(b)))));
        case X_FDIV: return fromFp(mk(Z3_mk_fpa_div(c, rne(), toFp(bv(a)), toFp(bv(b)))));
        case X_FSQRT: return fromFp(mk(Z3_mk_fpa_sqrt(c, rne(), toFp(bv(a)))));
        case X_FFLOOR: return fromFp(mk(Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rtn(c), toFp(bv(a)))));
        case X_FCEIL: return fromFp(mk(Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rtp(c), toFp(bv(a)))));
        case X_FROUND: return fromFp(mk(Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rna(c), toFp(bv(a)))));
        case X_FTRUNC: return fromFp(mk(Z3_mk_fpa_round_to_integral(c, rtz(), toFp(bv(a)))));
        case X_FRINT: return fromFp(mk(Z3_mk_fpa_round_to_integral(c, rne(), toFp(bv(a)))));
        case X_FPEXT: case X_FPTRUNC: return fromFp(mk(Z3_mk_fpa_to_fp_float(c, rne(), toFp(bv(a)), fsort(w))));
        case X_UITOFP: return fromFp(mk(Z3_mk_fpa_to_fp_unsigned(c, rne(), bv(a), fsort(w))));
        case X_SITOFP: return fromFp(mk(Z3_mk_fpa_to_fp_signed(c, rne(), bv(a), fsort(w))));
        case X_FPTOUI: return mk(Z3_mk_fpa_to_ubv(c, rtz(), toFp(bv(a)), w));
        case X_FPTOSI: return mk(Z3_mk_fpa_to_sbv(c, rtz(), toFp(bv(a)), w));
        default: return fpvar(e);
        }
    }
};
static Z3Env* env() { static Z3Env* e = new Z3Env(false); return e; }
static Z3Env* fenv() { static Z3Env* e = new Z3Env(true); return e; }

struct CacheEnt { SatRes r; std::vector<std::pair<u32, u8>> asg; };
struct VHash { size_t operator()(const std::vector<u32>& v) const { u64 h = 1469598103934665603ull; for (u32 x : v) { h ^= x; h *= 1099511628211ull; h ^= h >> 29; } return h; } };
static std::unordered_map<std::vector<u32>, CacheEnt, VHash> g_cache;

static void collectVars(const VarSet* vs, std::vector<u32>& out) { for (size_t i = 0; i < vs->w.size(); ++i) { u64 x = vs->w[i]; while (x) { out.push_back((u32)(i * 64 + __builtin_ctzll(x))); x &= x - 1; } } }

static void collectFp(Expr* e, std::vector<Expr*>& out, std::unordered_map<Expr*, bool>& seen)
{
    std::vector<Expr*> st{e};
    while (!st.empty())
    {
        Expr* x = st.back(); st.pop_back();
        if (!(x->flags & XF_HASFP) || !seen.emplace(x, true).second) continue;
        if (isFpOp(x->op)) out.push_back(x);
        for (Expr* k : x->k) if (k) st.push_back(k);
    }
}

static bool g_fpQuick = true, g_inQuick = false;
static SatRes solveSlice(std::vector<Expr*>& sl, Expr* cond, const VarSet* vs, const Model& base, Model& out);
static std::vector<Expr*> sliceOf(const std::vector<Expr*>& path, Expr* cond, bool cheapOnly, const VarSet*& vs)
{
    std::vector<Expr*> sl{cond}; vs = varsOf(cond);
    std::vector<char> used(path.size(), 0);
    bool ch = true;
    while (ch)
    {
        ch = false;
        for (size_t i = path.size(); i-- > 0;)
            if (!used[i] && !(cheapOnly && (path[i]->flags & XF_HASXOR)) && vsIntersects(vs, varsOf(path[i]))) { used[i] = 1; const VarSet* n = vsUnion(vs, varsOf(path[i])); if (n != vs) { vs = n; ch = true; } sl.push_back(path[i]); }
    }
    return sl;
}
// the values one byte may take under the constraints that mention it alone
struct Domains
{
    std::unordered_map<u32, std::vector<bool>> d; std::vector<Expr*> rest;
    static const std::vector<bool>& tableOf(Expr* e, u32 x)
    {
        static std::unordered_map<Expr*, std::vector<bool>> memo; auto it = memo.find(e); if (it != memo.end()) return it->second;
        std::vector<bool> t(256); Model m; m.v.assign(x + 1, 0); for (int v = 0; v < 256; ++v) { m.v[x] = (u8)v; m.stamp = newStamp(); t[v] = evalExpr(e, m) != 0; }
        return memo.emplace(e, std::move(t)).first->second;
    }
    explicit Domains(const std::vector<Expr*>& sl)
    {
        for (Expr* e : sl)
        {
            std::vector<u32> b; collectVars(varsOf(e), b);
            if (b.size() != 1) { rest.push_back(e); continue; }
            auto& t = d[b[0]]; if (t.empty()) t.assign(256, true);
            const auto& k = tableOf(e, b[0]); for (int v = 0; v < 256; ++v) if (!k[v]) t[v] = false;
        }
    }
    const std::vector<bool>* of(u32 x) const { auto it = d.find(x); return it == d.end() ? nullptr : &it->second; }
    int size(u32 x) const { auto t = of(x); if (!t) return 256; int n = 0; for (bool b : *t) n += b; return n; }
};
// a model of sl near base: linear algebra for the checksum equations, random values otherwise; nothing is accepted unless it satisfies all of sl
static bool propose(const std::vector<Expr*>& sl, const Domains& dm, const Model& base, Model& out)
{
    static u64 rs = 88172645463325252ull; auto rnd = [&]() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; };
    std::unordered_map<u32, bool> bound; std::vector<Expr*> eqs, rest;
    for (Expr* e : dm.rest) { if (e->op == X_LINEQ) { eqs.push_back(e); continue; } if (e->flags & XF_HASXOR) { rest.push_back(e); continue; } std::vector<u32> b; collectVars(varsOf(e), b); for (u32 x : b) bound[x] = true; }
    if (eqs.empty() && rest.empty()) return false;
    auto good = [&](Model& m) { for (Expr* e : sl) if (!evalExpr(e, m)) return false; out = m; return true; };
    std::vector<u32> cv; { const VarSet* v = nullptr; for (Expr* e : eqs) v = v ? vsUnion(v, varsOf(e)) : varsOf(e); for (Expr* e : rest) v = v ? vsUnion(v, varsOf(e)) : varsOf(e); collectVars(v, cv); }
    std::unordered_map<u32, int> dsz; for (u32 x : cv) dsz[x] = dm.size(x);
    auto pick = [&](u32 x) -> u8 { auto t = dm.of(x); if (!t) return (u8)rnd(); for (int i = 0; i < 600; ++i) { u8 v = (u8)rnd(); if ((*t)[v]) return v; } return 0; };
    for (int t = 0; t < 24; ++t)
    {
        Model m; m.v = base.v; m.stamp = newStamp(); int lim = t % 3 == 0 ? 256 : t % 3 == 1 ? 120 : 1;
        for (u32 x : cv) { if (m.v.size() <= x) m.v.resize(x + 1, 0); if (t >= 2 && !bound.count(x)) m.v[x] = pick(x); else if (t >= 5 && (rnd() & 3) == 0) m.v[x] = pick(x); }
        for (Expr* e : eqs) { Model b; b.v = m.v; b.stamp = newStamp(); if (!linPropose(e, b, [&](u32 x) { return (lim == 1 || !bound.count(x)) && dsz[x] >= lim; }, m.v)) break; m.stamp = newStamp(); }
        if (good(m)) return true;
    }
    return false;
}
static bool hasDiv(Expr* e)
{
    static std::unordered_map<Expr*, bool> memo; auto it = memo.find(e); if (it != memo.end()) return it->second;
    if (e->op == X_CONST || e->op == X_VAR) return false;
    bool r = e->op == X_UREM || e->op == X_UDIV || e->op == X_SREM || e->op == X_SDIV; for (Expr* k : e->k) if (k && hasDiv(k)) { r = true; break; }
    memo.emplace(e, r); return r;
}
SatRes checkSat(const std::vector<Expr*>& path, Expr* cond, const Model& base, Model& out)
{
    ++g_sst.queries;
    if (isC(cond)) { if (!cond->c) return S_UNSAT; out = base; return S_SAT; }
    // a conjunction with a checksum condition: first see whether one conjunct already fails
    if (cond->op == X_AND && cond->w == 1 && (cond->flags & XF_HASXOR)) for (int i = 0; i < 2; ++i) if (!(cond->k[i]->flags & XF_HASXOR)) { Model m; if (checkSat(path, cond->k[i], base, m) == S_UNSAT) return S_UNSAT; }
    // a disjunction of checksum conditions: one question per alternative
    if ((cond->flags & XF_HASXOR) && cond->w == 1 && (cond->op == X_OR || (cond->op == X_NOT && cond->k[0]->op == X_AND)))
    {
        std::vector<Expr*> alt, st{cond};
        while (!st.empty())
        {
            Expr* e = st.back(); st.pop_back();
            if (e->op == X_OR && e->w == 1) { st.push_back(e->k[0]); st.push_back(e->k[1]); }
            else if (e->op == X_NOT && e->k[0]->op == X_AND) { st.push_back(mkNot(e->k[0]->k[0])); st.push_back(mkNot(e->k[0]->k[1])); }
            else alt.push_back(e);
        }
        if (alt.size() > 1 && alt.size() <= 64)
        {
            bool unk = false; std::sort(alt.begin(), alt.end(), [](Expr* a, Expr* b) { return (a->flags & XF_HASXOR) < (b->flags & XF_HASXOR); });
            for (Expr* e : alt) { SatRes r = checkSat(path, e, base, out); if (r == S_SAT) return r; if (r == S_UNKNOWN) unk = true; }
            return unk ? S_UNKNOWN : S_UNSAT;
        }
    }
    const VarSet* vs; std::vector<Expr*> sl = sliceOf(path, cond, false, vs);
    bool xorY = false; for (Expr* e : sl) if (e->flags & XF_HASXOR) xorY = true;
    if (xorY)
    {
        Model m1 = base;
        if (!(cond->flags & XF_HASXOR))
        {
            const VarSet* cs; std::vector<Expr*> cheap = sliceOf(path, cond, true, cs);
            SatRes r = solveSlice(cheap, cond, cs, base, m1);
            if (r == S_UNSAT) return r;
            if (r == S_SAT) { bool ok = true; for (Expr* e : sl) if (!evalExpr(e, m1)) { ok = false; break; } if (ok) { out = m1; return S_SAT; } } else m1 = base;
        }
        Domains dm(sl);
        std::vector<u32> vars; collectVars(vs, vars);
        if (linRefutes(sl, cond, [&](u32 x) { return dm.of(x); }, vars)) { ++g_sst.unsat; return S_UNSAT; }
        if (propose(sl, dm, m1, out)) { ++g_sst.guessed; return S_SAT; }
    }
    else
    {
        // constraints with divisions are hard: first without those
        bool div = false; for (Expr* e : sl) if (e != cond && hasDiv(e)) div = true;
        if (div && !hasDiv(cond))
        {
            std::vector<Expr*> cheap; const VarSet* cv = nullptr; for (Expr* e : sl) if (!hasDiv(e)) { cheap.push_back(e); cv = cv ? vsUnion(cv, varsOf(e)) : varsOf(e); }
            Model m; SatRes r = solveSlice(cheap, cond, cv, base, m);
            if (r == S_UNSAT) return r;
            if (r == S_SAT) { bool ok = true; for (Expr* e : sl) if (!evalExpr(e, m)) { ok = false; break; } if (ok) { out = m; return r; } }
        }
    }
    return solveSlice(sl, cond, vs, base, out);
}
static SatRes solveSlice(std::vector<Expr*>& sl, Expr* cond, const VarSet* vs, const Model& base, Model& out)
{
    std::vector<u32> key; key.reserve(sl.size());
    for (Expr* e : sl) key.push_back(e->id);
    std::sort(key.begin() + 1, key.end());
    auto apply = [&](const CacheEnt& ce) { out.v = base.v; for (auto& p : ce.asg) { if (out.v.size() <= p.first) out.v.resize(p.first + 1, 0); out.v[p.first] = p.second; } out.stamp = newStamp(); };
    auto it = g_cache.find(key);
    if (it != g_cache.end()) { ++g_sst.cacheHits; if (it->second.r == S_SAT) apply(it->second); return it->second.r; }

    auto t0 = std::chrono::steady_clock::now();
    if (getenv("SX_DBGQ")) { fprintf(stderr, "query slice=%zu cond=%s\n", sl.size(), exprStr(cond, 6).c_str()); if (getenv("SX_SLOWD")) for (Expr* e : sl) fprintf(stderr, "   | %s\n", exprStr(e, atoi(getenv("SX_SLOWD"))).c_str()); }
    CacheEnt ce; ce.r = S_UNKNOWN;
    std::vector<u32> vars; collectVars(vs, vars);
    if (vars.size() == 1)
    {
        // constraints on one byte only: decided by the set of values each of them admits
        u32 x = vars[0]; std::vector<bool> t(256, true); for (Expr* e : sl) { const auto& k = Domains::tableOf(e, x); for (int v = 0; v < 256; ++v) if (!k[v]) t[v] = false; }
        int v = -1; u8 cur = base.v.size() > x ? base.v[x] : 0; if (t[cur]) v = cur; else for (int i = 0; i < 256 && v < 0; ++i) if (t[i]) v = i;
        ++g_sst.domain; ce.r = v < 0 ? S_UNSAT : S_SAT; if (v >= 0) { ce.asg.push_back({x, (u8)v}); apply(ce); ++g_sst.sat; } else ++g_sst.unsat;
        SatRes r = ce.r; g_cache.emplace(std::move(key), std::move(ce)); return r;
    }
    Z3Env* z = env();
    if (z->asserted > 40 || z->memo.size() > 2000000) { z->reset(); }
    try
    {
        bool anyFp = false; for (Expr* e : sl) if (e->flags & XF_HASFP) anyFp = true;
        z3::expr_vector as(z->c);
        for (Expr* e : sl)
        {
            auto pi = z->proxies.find(e);
            if (pi == z->proxies.end())
            {
                char b[32]; snprintf(b, 32, "p%u_%zu", e->id, z->proxyAst.size());
                z3::expr p = z->c.bool_const(b);
                z->s->add(z3::implies(p, z->get(e)));
                z->proxyAst.push_back(p); ++z->asserted;
                pi = z->proxies.emplace(e, (unsigned)z->proxyAst.size() - 1).first;
            }
            as.push_back(z->proxyAst[pi->second]);
        }
        z3::params p(z->c); p.set("timeout", g_queryTimeoutMs); z->s->set(p);
        std::vector<Expr*> fps; std::unordered_map<Expr*, bool> seen;
        if (anyFp) for (Expr* e : sl) collectFp(e, fps, seen);
        if (g_fpQuick && sl.size() > 1 && (cond->flags & XF_HASFP) && !g_inQuick)
        {
            // an equality of floating-point values rarely needs the path: first without it
            g_inQuick = true; std::vector<Expr*> one{cond}; Model tmp; SatRes q = solveSlice(one, cond, varsOf(cond), base, tmp); g_inQuick = false;
            if (q == S_UNSAT) { g_cache.emplace(std::move(key), CacheEnt{S_UNSAT, {}}); return S_UNSAT; }
        }
        for (int iter = 0; iter < (anyFp ? (g_inQuick ? 3 : 12) : 1); ++iter)
        {
            ++g_sst.z3calls;
            z3::check_result r = z->s->check(as);
            if (r == z3::unsat) { ce.r = S_UNSAT; break; }
            if (r == z3::unknown) break;
            z3::model m = z->s->get_model();
            ce.asg.clear();
            for (u32 v : vars) { z3::expr x = m.eval(z->var(v), true); ce.asg.push_back({v, (u8)x.get_numeral_uint64()}); }
            if (!anyFp) { ce.r = S_SAT; break; }
            Model t; apply(ce); t = out;
            bool ok = true;
            for (Expr* e : sl) if (!evalExpr(e, t)) { ok = false; break; }
            if (ok) { ce.r = S_SAT; break; }
            // refine: equal arguments give equal results ...
            if (iter == 0 && fps.size() <= 400)
            {
                size_t budget = 6000;
                for (size_t i = 0; i < fps.size(); ++i)
                    for (size_t j = 0; j < i && budget; ++j)
                    {
                        Expr *f = fps[i], *g = fps[j]; bool fi = f->op == X_SITOFP || f->op == X_UITOFP, gi = g->op == X_SITOFP || g->op == X_UITOFP;
                        if (f->w != g->w || (fi && gi ? false : f->op != g->op || f->imm != g->imm)) continue;
                        if (!z->congr.insert(std::make_pair(f->id, g->id)).second) continue;
                        --budget; z3::expr same = z->c.bool_val(true), fe = z->get(f), ge = z->get(g);
                        auto ext = [&](Expr* x) { z->get(x->k[0]); z3::expr v = z->bv(x->k[0]); unsigned n = 130 - x->k[0]->w; return x->op == X_SITOFP ? z3::sext(v, n) : z3::zext(v, n); };
                        auto eqs = [&](Expr* x, Expr* y) { return z->get(x) == z->get(y); };
                        if (fi && gi) same = ext(f) == ext(g);
                        else
                        {
                            bool shape = true; for (int k = 0; k < 3; ++k) if (!f->k[k] != !g->k[k] || (f->k[k] && f->k[k]->w != g->k[k]->w)) shape = false;
                            if (!shape) continue;
                            for (int k = 0; k < 3; ++k) if (f->k[k] && f->k[k] != g->k[k]) same = same && eqs(f->k[k], g->k[k]);
                            if (f->op == X_FADD || f->op == X_FMUL) same = same || (eqs(f->k[0], g->k[1]) && eqs(f->k[1], g->k[0]));
                        }
                        z->s->add(z3::implies(same, fe == ge));
                    }
            }
            // ... and pin each opaque FP node's value for these argument values
            for (Expr* f : fps)
            {
                z3::expr cnd = z->c.bool_val(true);
                for (Expr* k : f->k) if (k) { z->get(k); u128 kv = evalExpr(k, t); cnd = cnd && (k->w == 1 ? (kv ? z->get(k) : !z->get(k)) : (z->get(k) == z->num(kv, k->w))); }
                u128 fv = evalExpr(f, t); z3::expr fe = z->get(f);
                z->s->add(z3::implies(cnd, f->w == 1 ? (fv ? fe : !fe) : (fe == z->num(fv, f->w))));
            }
            ce.r = S_UNKNOWN;
        }
        if (ce.r == S_UNKNOWN && anyFp && g_inQuick) { return S_UNKNOWN; }
        if (ce.r == S_UNKNOWN && anyFp)
        {
            // exact floating-point reasoning
            ++g_sst.fpEsc;
            Z3Env* f = fenv();
            f->s = std::make_unique<z3::solver>(f->c);
            z3::params fp(f->c); fp.set("timeout", g_queryTimeoutMs * 3); f->s->set(fp);
            for (Expr* e : sl) f->s->add(f->get(e));
            ++g_sst.z3calls;
            z3::check_result r = f->s->check();
            if (r == z3::unsat) ce.r = S_UNSAT;
            else if (r == z3::sat)
            {
                z3::model m = f->s->get_model();
                ce.asg.clear();
                for (u32 v : vars) { z3::expr x = m.eval(f->var(v), true); ce.asg.push_back({v, (u8)x.get_numeral_uint64()}); }
                apply(ce); Model t = out; bool ok = true;
                for (Expr* e : sl) if (!evalExpr(e, t)) { ok = false; break; }
                if (ok) ce.r = S_SAT;
            }
        }
        else if (ce.r == S_UNKNOWN)
        {
            // second opinion: a fresh non-incremental QF_BV solver
            z3::solver q(z->c, "QF_BV");
            z3::params qp(z->c); qp.set("timeout", g_queryTimeoutMs); q.set(qp);
            for (Expr* e : sl) q.add(z->get(e));
            ++g_sst.z3calls;
            z3::check_result r = q.check();
            if (r == z3::unsat) ce.r = S_UNSAT;
            else if (r == z3::sat) { z3::model m = q.get_model(); ce.asg.clear(); for (u32 v : vars) { z3::expr x = m.eval(z->var(v), true); ce.asg.push_back({v, (u8)x.get_numeral_uint64()}); } ce.r = S_SAT; }
        }
    }
    catch (z3::exception& ex) { fprintf(stderr, "z3: %s\n", ex.msg()); ce.r = S_UNKNOWN; }
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    g_sst.z3secs += dt;
    if (getenv("SX_SLOWQ") && dt > atof(getenv("SX_SLOWQ"))) fprintf(stderr, "slow query %.2fs r=%d slice=%zu cond=%s\n", dt, ce.r, sl.size(), exprStr(cond, 5).c_str());
    if (getenv("SX_SLOWQ") && getenv("SX_SLOWD") && dt > atof(getenv("SX_SLOWQ"))) for (Expr* e : sl) fprintf(stderr, "   | %s\n", exprStr(e, atoi(getenv("SX_SLOWD"))).c_str());
    if (ce.r == S_SAT)
    {
        apply(ce);
        // soundness guard: every model is re-evaluated against the slice
        for (Expr* e : sl) if (!evalExpr(e, out)) { fprintf(stderr, "symx: model check failed for %s\n", exprStr(e, 4).c_str()); ce.r = S_UNKNOWN; break; }
    }
    if (ce.r == S_SAT) ++g_sst.sat; else if (ce.r == S_UNSAT) ++g_sst.unsat; else ++g_sst.unknown;
    if (ce.r != S_UNKNOWN) g_cache.emplace(std::move(key), std::move(ce));
    else return S_UNKNOWN;
    return g_cache.empty() ? S_UNKNOWN : (ce.r);
}
