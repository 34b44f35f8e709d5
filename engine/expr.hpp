// symx: hash-consed bit-vector expressions (width 1..128) with an aggressive local simplifier,
// unsigned interval bounds, concrete evaluation, and a GF(2)-linear normal form used for CRC equalities.
#pragma once
#include <functional>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <unordered_map>
#include <vector>

typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64; typedef int64_t i64; typedef int32_t i32;
typedef unsigned __int128 u128; typedef __int128 i128;

enum Op : u8 {
    X_CONST, X_VAR,
    X_ADD, X_SUB, X_MUL, X_UDIV, X_SDIV, X_UREM, X_SREM,
    X_AND, X_OR, X_XOR, X_SHL, X_LSHR, X_ASHR,
    X_CONCAT /*k0 high, k1 low*/, X_EXTRACT /*imm=lo*/, X_ZEXT, X_SEXT,
    X_EQ, X_ULT, X_ULE, X_SLT, X_SLE, X_NOT /*1 bit*/, X_ITE,
    X_LINEQ /*equality of two GF(2)-linear values; k0,k1 originals, identity by canonical key*/,
    // floating point (operands/results are bit patterns)
    X_FADD, X_FSUB, X_FMUL, X_FDIV, X_FREM, X_FNEG, X_FABS, X_FCMP /*imm=llvm predicate*/,
    X_FPTOUI, X_FPTOSI, X_UITOFP, X_SITOFP, X_FPEXT, X_FPTRUNC,
    X_FSQRT, X_FFLOOR, X_FCEIL, X_FROUND, X_FTRUNC, X_FRINT, X_FFN /*imm=function id: opaque*/,
};
inline bool isFpOp(u8 o) { return o >= X_FADD; }

struct VarSet { std::vector<u64> w; };

struct Expr
{
    u8 op; u8 flags; u16 w; u32 id; u32 imm; u32 h;
    u128 c;
    Expr* k[3];
    u64 lo, hi;        // unsigned bounds (valid when w<=64)
    u32 estamp; u32 zslot;
    u128 ev;
    const VarSet* vs;
};
enum { XF_HASXOR = 1, XF_HASFP = 2 };

inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline u64 mask64(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline i128 sx128(u128 v, unsigned w) { if (w >= 128) return (i128)v; u128 m = (u128)1 << (w - 1); v &= maskw(w); return (i128)((v ^ m) - m); }
inline i64 sx64(u64 v, unsigned w) { if (w >= 64) return (i64)v; u64 m = 1ull << (w - 1); v &= mask64(w); return (i64)((v ^ m) - m); }

Expr* mkConst(u128 v, unsigned w);
Expr* mkVar(u32 varId);                       // 8-bit symbolic byte
Expr* mkBin(u8 op, Expr* a, Expr* b);
Expr* mkNot(Expr* a);
Expr* mkIte(Expr* c, Expr* a, Expr* b);
Expr* mkExtract(Expr* a, unsigned lo, unsigned w);
Expr* mkConcat(Expr* hi, Expr* lo);
Expr* mkZext(Expr* a, unsigned w);
Expr* mkSext(Expr* a, unsigned w);
Expr* mkEq(Expr* a, Expr* b);
Expr* mkCmp(u8 op, Expr* a, Expr* b);
Expr* mkFp(u8 op, unsigned w, u32 imm, Expr* a, Expr* b = nullptr);
Expr* mkAnd1(Expr* a, Expr* b);
Expr* mkOr1(Expr* a, Expr* b);
inline bool isC(const Expr* e) { return e->op == X_CONST; }
u128 foldFp(u8 op, unsigned w, u32 imm, u128 a, unsigned wa, u128 b, unsigned wb);
u128 foldBin(u8 op, u128 a, u128 b, unsigned w);
bool affineTable(const std::vector<u128>& tab); // size must be a power of two
extern u64 g_nexpr; extern bool g_noLin;

// Model: values of symbolic bytes. Evaluation caches the value per (model stamp).
struct Model { std::vector<u8> v; u32 stamp; };
u32 newStamp();
u128 evalExpr(Expr* e, const Model& m);
const VarSet* varsOf(Expr* e);
bool vsIntersects(const VarSet* a, const VarSet* b);
const VarSet* vsUnion(const VarSet* a, const VarSet* b);
size_t linRowCount(Expr* e);
bool linRefutes(const std::vector<Expr*>& facts, Expr* cond, const std::function<const std::vector<bool>*(u32)>& dom, const std::vector<u32>& vars);
bool linPropose(Expr* e, const Model& base, const std::function<bool(u32)>& freeVar, std::vector<u8>& v);
std::string exprStr(Expr* e, int depth = 6);
