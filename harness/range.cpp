// R01-R07: range decompression, through the public interface only (binary RANGECMP* message in, binary RANGE message out).
#include "oem.hpp"
#include "novatel_edie/decoders/oem/rangecmp/range_decompressor.hpp"
#include "novatel_edie/decoders/oem/rangecmp/channel_tracking_status.hpp"
#include <cmath>
#include <limits>

// ---------------------------------------------------------------- R01
struct Rec { SxBuf b; explicit Rec(size_t n) : b(n ? n : 1, "record") {} uint64_t bits(size_t pos, unsigned n) { uint64_t v = 0; for (unsigned i = 0; i < n; ++i) v |= (uint64_t)((b[(pos + i) / 8] >> ((pos + i) % 8)) & 1) << i; return v; } };
template <typename T, unsigned N> static void fixedField(size_t off, size_t len)
{
    SxBuf b(len, "record"); unsigned char* p = b.p; uint32_t left = (uint32_t)len, o = (uint32_t)off; bool ok = true; T v{};
    uint64_t want = 0; bool fits = off + N <= 8 * len;
    if (fits) for (unsigned i = 0; i < N; ++i) want |= (uint64_t)((b[(off + i) / 8] >> ((off + i) % 8)) & 1) << i;
    try { v = ExtractBitfield<T, N>(&p, left, o); } catch (const std::exception&) { ok = false; }
    sx_assert(ok == fits, "a field is read exactly when it fits");
    if (!ok) { sx_reach("short"); return; }
    sx_assert(v == (T)want, "the bits of the field");
    sx_assert((size_t)(p - b.p) * 8 + o == off + N && o < 8 && left == len - (size_t)(p - b.p), "the position after the field");
    sx_reach("read");
}
template <typename T, unsigned N> static void fixedAll() { for (size_t off = 0; off < 8; ++off) for (size_t len : {(size_t)((N + 7) / 8), (size_t)((N + 7) / 8 + 1), (size_t)((N + off + 7) / 8 + 3), (size_t)((N + 7) / 8 > 1 ? (N + 7) / 8 - 1 : (N + 7) / 8)}) if (len && off < 8 * len) fixedField<T, N>(off, len); }
template <unsigned N> struct FT_ { static void go(unsigned n) { if (n == N) { fixedAll<uint64_t, N>(); if constexpr (N < 64) fixedAll<int64_t, N>(); if constexpr (N <= 32) fixedAll<uint32_t, N>(); if constexpr (N < 32) fixedAll<int32_t, N>(); if constexpr (N <= 8) fixedAll<uint8_t, N>(); if constexpr (N <= 16) fixedAll<uint16_t, N>(); if constexpr (N == 1) fixedAll<bool, N>(); if constexpr (N == 11) fixedAll<float, N>(); return; } if constexpr (N > 1) FT_<N - 1>::go(n); } };
HARNESS(r01_fixed) { sx_expect("read"); if (sx_case() > 1) sx_expect("short"); FT_<64>::go((unsigned)sx_case()); }
// the number of bits given at run time
HARNESS(r01_counted)
{
    unsigned n = (unsigned)sx_case(); sx_expect("read"); size_t off = sx_enum(8, "offset"), len = (n + off) / 8 + sx_enum(3, "bytes"); if (!len) return;
    Rec r(len); unsigned char* p = r.b.p; uint32_t left = (uint32_t)len, o = (uint32_t)off; bool ok = true, fits = off + n <= 8 * len; uint64_t v = 0;
    if (off >= 8 * len) return;
    try { v = ExtractBitfield<uint64_t>(&p, left, o, n); } catch (const std::exception&) { ok = false; }
    sx_assert(ok == fits, "a counted field is read exactly when it fits");
    if (!ok) return;
    sx_assert(v == r.bits(off, n), "the bits of a counted field"); sx_assert((size_t)(p - r.b.p) * 8 + o == off + n && o < 8 && left == len - (size_t)(p - r.b.p), "the position after a counted field"); sx_reach("read");
    if (n <= 16) { p = r.b.p; left = (uint32_t)len; o = (uint32_t)off; sx_assert(ExtractBitfield<uint16_t>(&p, left, o, n) == (uint16_t)r.bits(off, n), "a short counted field"); }
    else { p = r.b.p; left = (uint32_t)len; o = (uint32_t)off; bool th = false; try { ExtractBitfield<uint16_t>(&p, left, o, n); } catch (const std::exception&) { th = true; } sx_assert(th && p == r.b.p && left == len && o == off, "a field wider than its type is refused"); }
}
// several fields in a row
HARNESS(r01_sequence)
{
    static const unsigned W[] = {1, 3, 4, 5, 11, 14, 16, 18, 19, 20, 23, 26, 28, 37, 57, 60, 63, 64};
    constexpr unsigned NW = sizeof W / sizeof *W; sx_expect("end");
    unsigned a = W[(unsigned)sx_case() % NW], len = 26; Rec r(len); unsigned char* p = r.b.p; uint32_t left = len, o = 0; size_t at = 0;
    uint64_t v = ExtractBitfield<uint64_t>(&p, left, o, a); sx_assert(v == r.bits(at, a), "first field"); at += a;
    float f = ExtractBitfield<float, 11>(&p, left, o); sx_assert(f == (float)r.bits(at, 11), "second field"); at += 11;
    unsigned c = W[sx_enum(NW, "width")]; v = ExtractBitfield<uint64_t>(&p, left, o, c); sx_assert(v == r.bits(at, c), "third field"); at += c;
    int64_t q = ExtractBitfield<int64_t, 37>(&p, left, o); sx_assert((uint64_t)q == r.bits(at, 37), "fourth field"); at += 37;
    v = ExtractBitfield<uint8_t, 4>(&p, left, o); sx_assert(v == r.bits(at, 4), "fifth field"); sx_reach("end");
}
// masks used by the fixed layouts
HARNESS(r01_masks)
{
    sx_expect("end"); uint64_t v = sx_any<uint64_t>("value"); uint32_t w = (uint32_t)v;
    sx_assert(PopCount(v & 0xFFFF) <= 16 && (v & 0xFFFF) >> 16 == 0, "sane");
    sx_assert((GetBitfield<uint32_t, 0x0000007FFFFFFC00ull>(v)) == (uint32_t)((v >> 10) & 0x1FFFFFFF), "a field of 29 bits");
    sx_assert((GetBitfield<uint8_t, 0xF000000000000000ull>(v)) == (uint8_t)(v >> 60), "the top field");
    sx_assert((GetBitfield<int32_t, 0x0FFFFFFFull>(v)) == (int32_t)(v & 0x0FFFFFFF), "the bottom field");
    int32_t i = (int32_t)(w & 0x0FFFFFFF); HandleSignExtension<0xF0000000u>(i); sx_assert(i == ((int32_t)(w << 4) >> 4), "sign of 28 bits");
    int32_t j = (int32_t)(w & 0x3FFF); HandleSignExtension<0xFFFFC000u>(j); sx_assert(j == ((int32_t)(w << 18) >> 18), "sign of 14 bits");
    int64_t k = (int64_t)(v & 0xFFFFF); HandleSignExtension<0xFFFFFFFFFFF00000ull>(k); sx_assert(k == ((int64_t)(v << 44) >> 44), "sign of 20 bits");
    uint16_t s = (uint16_t)sx_range(1, 0xFFFF, "set"); uint16_t s0 = s; uint32_t b = PopLsb(s); sx_assert(b < 16 && ((s0 >> b) & 1) && (s0 & ((1u << b) - 1)) == 0 && s == (s0 & ~(1u << b)), "the lowest set bit is taken"); 
    sx_assert(Lsb<uint16_t>(0) == 16 && PopCount<uint16_t>(0) == 0, "nothing set"); sx_reach("end");
}

// ---------------------------------------------------------------- messages
struct Obs { uint16_t prn; uint16_t glo; double psr; float psrStd; double adr; float adrStd, dopp, cno, lock; uint32_t status; };
static MessageDatabase::Ptr rangeDb()
{
    Fields o{simple("PRN", "%hu", DATA_TYPE::USHORT), simple("glofreq", "%hd", DATA_TYPE::SHORT), simple("psr", "%lf", DATA_TYPE::DOUBLE), simple("psr_std", "%f", DATA_TYPE::FLOAT), simple("adr", "%lf", DATA_TYPE::DOUBLE), simple("adr_std", "%f", DATA_TYPE::FLOAT), simple("dopp", "%f", DATA_TYPE::FLOAT), simple("C/No", "%f", DATA_TYPE::FLOAT), simple("locktime", "%f", DATA_TYPE::FLOAT), simple("ch-tr-status", "%lx", DATA_TYPE::ULONG)};
    return mkDb({mkMsg(43, "RANGE", {{0x11111111, {farr("obs", 325, o)}}}), mkMsg(2050, "RANGECMP4", {{0x22222222, {arr("data", FIELD_TYPE::VARIABLE_LENGTH_ARRAY, "%Z", DATA_TYPE::UCHAR, 64, 4)}}}), mkMsg(140, "RANGECMP", {{0x33333333, {arr("data", FIELD_TYPE::VARIABLE_LENGTH_ARRAY, "%Z", DATA_TYPE::UCHAR, 64, 4)}}})});
}
struct Dec
{
    RangeDecompressor d{rangeDb()}; STATUS st = STATUS::UNKNOWN; std::vector<Obs> obs; MetaDataStruct meta; size_t room = 0; int exact = -1; // exact: size of the buffer
    STATUS run(uint16_t id, const Bytes& body, uint16_t week, uint32_t ms, unsigned source = 0)
    {
        size_t n = exact >= 0 ? (size_t)exact : 28 + (body.size() > 4 + 44 * room ? body.size() : 4 + 44 * room) + 4; SxBuf b(n); memset(b.p, 0xEE, n);
        Bytes m{0xAA, 0x44, 0x12, 28, (unsigned char)id, (unsigned char)(id >> 8), (unsigned char)source, 0x20, (unsigned char)body.size(), (unsigned char)(body.size() >> 8), 0, 0, 0, 180, (unsigned char)week, (unsigned char)(week >> 8), (unsigned char)ms, (unsigned char)(ms >> 8), (unsigned char)(ms >> 16), (unsigned char)(ms >> 24), 0, 0, 0, 0, 0, 0, 0, 0};
        m.insert(m.end(), body.begin(), body.end()); if (m.size() > n) m.resize(n); memcpy(b.p, m.data(), m.size());
        meta = MetaDataStruct(); meta.eFormat = HEADER_FORMAT::BINARY; meta.uiLength = (uint32_t)m.size() + 4; obs.clear();
        st = d.Decompress(b.p, (uint32_t)n, meta, ENCODE_FORMAT::BINARY);
        if (st != STATUS::SUCCESS) return st;
        sx_assert(meta.uiLength <= n && meta.usMessageId == 43 && le(b.p + 4, 2) == 43, "the result is a RANGE message inside the buffer");
        size_t h = b.p[3]; uint32_t k = (uint32_t)le(b.p + h, 4); sx_assert(k <= 325 && le(b.p + 8, 2) == 4 + 44 * (uint64_t)k && h + 4 + 44 * k + 4 <= n, "its length is that of its observations");
        for (uint32_t i = 0; i < k; ++i) { const unsigned char* p = b.p + h + 4 + 44 * i; Obs o; memcpy(&o.prn, p, 2); memcpy(&o.glo, p + 2, 2); memcpy(&o.psr, p + 4, 8); memcpy(&o.psrStd, p + 12, 4); memcpy(&o.adr, p + 16, 8); memcpy(&o.adrStd, p + 24, 4); memcpy(&o.dopp, p + 28, 4); memcpy(&o.cno, p + 32, 4); memcpy(&o.lock, p + 36, 4); memcpy(&o.status, p + 40, 4); obs.push_back(o); }
        return st;
    }
};
struct Bits // a little-endian bit string
{
    Bytes b; unsigned o = 0;
    void put(uint64_t v, unsigned n) { while (n) { if (!o) b.push_back(0); unsigned k = 8 - o < n ? 8 - o : n; b.back() = (unsigned char)(b.back() | (unsigned char)((v & ((1u << k) - 1)) << o)); v >>= k; n -= k; o = (o + k) % 8; } }
    Bytes body() const { Bytes r; for (int i = 0; i < 4; ++i) r.push_back((unsigned char)(b.size() >> (8 * i))); r.insert(r.end(), b.begin(), b.end()); return r; }
};
enum Sys { GPS = 0, GLO = 1, SBAS = 2, GAL = 5, BDS = 6, QZSS = 7, NAVIC = 9 };
struct Sig { int sys; unsigned code4, code2, cts; double freq; double scale; }; // code4: RANGECMP4/5 number, code2: RANGECMP2 number, cts: number in the status word; freq 0: by GLONASS channel (L1 code 1, L2 others)
static const double L1 = 1575420000.0, L2 = 1227600000.0, L5 = 1176450000.0, E5B = 1207140000.0, E6 = 1278750000.0, ALT = 1191795000.0, B1 = 1561098000.0, B3 = 1268520000.0;
static const Sig SIG[] = {
    {GPS, 1, 1, 0, L1, 1.0}, {GPS, 4, 4, 9, L2, 154.0 / 120.0}, {GPS, 5, 5, 17, L2, 154.0 / 120.0}, {GPS, 6, 6, 5, L2, 154.0 / 120.0}, {GPS, 7, 7, 14, L5, 154.0 / 115.0}, {GPS, 15, 15, 16, L1, 1.0}, // 0-5
    {GLO, 1, 1, 0, -1, 1.0}, {GLO, 3, 3, 1, -2, 9.0 / 7.0}, {GLO, 4, 4, 5, -2, 9.0 / 7.0}, {GLO, 6, 6, 6, 1202025000.0, 313.0 / 235.0}, // 6-9
    {SBAS, 1, 1, 0, L1, 1.0}, {SBAS, 2, 2, 6, L5, 154.0 / 115.0}, // 10-11
    {GAL, 1, 1, 2, L1, 1.0}, {GAL, 2, 2, 12, L5, 154.0 / 115.0}, {GAL, 3, 3, 17, E5B, 154.0 / 118.0}, {GAL, 4, 4, 20, ALT, 154.0 / 116.5}, {GAL, 5, 5, 7, E6, 154.0 / 125.0}, {GAL, 12, 12, 6, E6, 154.0 / 125.0}, // 12-17
    {BDS, 1, 1, 0, B1, 1.0}, {BDS, 2, 2, 4, B1, 1.0}, {BDS, 3, 3, 1, E5B, 1526.0 / 1180.0}, {BDS, 4, 4, 5, E5B, 1526.0 / 1180.0}, {BDS, 5, 13, 2, B3, 1526.0 / 1240.0}, {BDS, 6, 16, 6, B3, 1526.0 / 1240.0}, {BDS, 7, 19, 7, L1, 1526.0 / 1540.0}, {BDS, 9, 20, 9, L5, 1526.0 / 1150.0}, {BDS, 11, 21, 11, E5B, 1526.0 / 1180.0}, // 18-26
    {QZSS, 1, 1, 0, L1, 1.0}, {QZSS, 2, 2, 24, L1, 1.0}, {QZSS, 3, 3, 17, L2, 154.0 / 120.0}, {QZSS, 4, 4, 14, L5, 154.0 / 115.0}, {QZSS, 8, 8, 16, L1, 1.0}, {QZSS, 10, 10, 28, E6, 154.0 / 125.0}, {QZSS, 11, 11, 27, E6, 154.0 / 125.0}, // 27-33
    {NAVIC, 1, 1, 0, L5, 1.0}}; // 34
constexpr int NSIG = sizeof SIG / sizeof *SIG;
static unsigned ctsSys(int s) { switch (s) { case GPS: return 0; case GLO: return 1; case SBAS: return 2; case GAL: return 3; case BDS: return 4; case QZSS: return 5; case NAVIC: return 6; default: return 7; } }
static double wavelength(const Sig& s, int chan) { const double c = 299792458.0; if (s.freq > 0) return c / s.freq; return s.freq == -1 ? c / (1602000000.0 + (chan - 7) * 562500.0) : c / (1246000000.0 + (chan - 7) * 437500.0); }
static const double STD16[] = {0.020, 0.030, 0.045, 0.066, 0.099, 0.148, 0.220, 0.329, 0.491, 0.732, 1.092, 1.629, 2.430, 3.625, 5.409, 5.409};
template <typename T> static bool bits(T a, T b) { return sx_eq(&a, &b, sizeof a); }
static int64_t sgn(uint64_t v, unsigned n) { return (int64_t)(v << (64 - n)) >> (64 - n); }

// ---------------------------------------------------------------- R03
HARNESS(r03_cmp) // RANGECMP
{
    sx_expect("done"); const Sig& s = SIG[sx_case() % NSIG]; bool glo = s.sys == GLO; unsigned chan = glo ? (unsigned)sx_enum(21, "channel") : (unsigned)sx_range(0, 63, "channel");
    uint32_t status = (sx_any<uint32_t>("status") & ~0x03E70000u) | ctsSys(s.sys) << 16 | s.cts << 21;
    uint64_t dop = sx_any<uint32_t>("doppler") & 0x0FFFFFFF, psr = sx_any<uint64_t>("pseudorange") & 0xFFFFFFFFFull; uint32_t adr = sx_any<uint32_t>("phase"); unsigned std1 = (unsigned)sx_any<uint8_t>("deviations"), prn = sx_any<uint8_t>("prn");
    uint32_t lock = sx_any<uint32_t>("lock") & 0x1FFFFF, cno = sx_any<uint8_t>("cno") & 31;
    Bits b; b.put(status, 32); b.put(dop, 28); b.put(psr, 36); b.put(adr, 32); b.put(std1, 8); b.put(prn, 8); b.put(lock, 21); b.put(cno, 5); b.put(chan, 6); b.put(0, 16);
    Bytes body{1, 0, 0, 0}; body.insert(body.end(), b.b.begin(), b.b.end());
    Dec d; d.room = 1; sx_assert(d.run(140, body, 2000, 1000) == STATUS::SUCCESS && d.obs.size() == 1, "one observation"); const Obs& o = d.obs[0];
    static const double T[] = {0.050, 0.075, 0.113, 0.169, 0.253, 0.380, 0.570, 0.854, 1.281, 2.375, 4.750, 9.500, 19.000, 38.000, 76.000, 152.000};
    sx_assert(o.status == status && o.prn == prn && o.glo == chan, "status, satellite and channel are those given");
    sx_assert(bits(o.psr, (double)psr / 128.0), "pseudorange"); sx_assert(bits(o.dopp, (float)(int32_t)sgn(dop, 28) / 256.0f), "Doppler");
    sx_assert(bits(o.psrStd, (float)T[std1 & 15]), "pseudorange deviation"); sx_assert(bits(o.adrStd, (float)((std1 >> 4) + 1) / 512.0f), "phase deviation");
    sx_assert(bits(o.lock, (float)(lock / 32.0)), "lock time"); sx_assert(bits(o.cno, (float)(cno + 20)), "C/No");
    double a = adr / 256.0, rolls = (o.psr / wavelength(s, (int)chan) + a) / 8388608; a -= (double)(8388608ull * (uint64_t)std::round(rolls));
    sx_assert(bits(o.adr, a), "carrier phase"); sx_reach("done");
}
HARNESS(r03_cmp2) // RANGECMP2
{
    sx_expect("done"); const Sig& s = SIG[sx_case() % NSIG]; bool glo = s.sys == GLO; unsigned chan = glo ? (unsigned)sx_enum(16, "channel") : (unsigned)sx_range(0, 15, "channel");
    unsigned id = (unsigned)sx_any<uint8_t>("satellite"), ch = (unsigned)sx_range(0, 31, "sv channel"); uint64_t base = sx_any<uint32_t>("base range") & 0x1FFFFFFF, dbase = sx_any<uint32_t>("base Doppler") & 0x1FFFFF;
    unsigned fl = sx_any<uint8_t>("flags") & 7, corr = (unsigned)sx_range(0, 7, "correlator"), prim = sx_any<uint8_t>("primary") & 3; uint32_t lock = (uint32_t)sx_range(0, 131070, "lock");
    unsigned cno = sx_any<uint8_t>("cno") & 31, ps = sx_any<uint8_t>("psr std") & 15, as = sx_any<uint8_t>("adr std") & 15; uint64_t pd = sx_any<uint16_t>("range diff") & 0x3FFF, ph = sx_any<uint32_t>("phase diff") & 0xFFFFF, dd = sx_any<uint32_t>("Doppler diff") & 0x1FFFF;
    Bits b; b.put(ch, 8); b.put(id, 8); b.put(chan, 4); b.put((uint64_t)s.sys, 5); b.put(0, 1); b.put(base, 29); b.put(dbase, 21); b.put(1, 4);
    b.put(s.code2, 5); b.put(fl, 3); b.put(lock, 17); b.put(corr, 4); b.put(prim, 2); b.put(0, 1); b.put(cno, 5); b.put(ps, 4); b.put(as, 4); b.put(pd, 14); b.put(ph, 20); b.put(dd, 17);
    Dec d; d.room = 1; sx_assert(d.run(1273, b.body(), 2000, 1000) == STATUS::SUCCESS && d.obs.size() == 1, "one observation"); const Obs& o = d.obs[0];
    sx_assert(o.prn == id + (glo ? 37 : 0) && o.glo == chan, "satellite and channel");
    uint32_t st = (prim & 1 ? 4u : 11u) | ch << 5 | fl << 10 | corr << 13 | ctsSys(s.sys) << 16 | s.cts << 21 | (prim & 1) << 27 | (prim >> 1) << 28; sx_assert(o.status == st, "channel status");
    static const double A[] = {0.00391, 0.00521, 0.00696, 0.00929, 0.01239, 0.01654, 0.02208, 0.02947, 0.03933, 0.05249, 0.07006, 0.09350, 0.12480, 0.16656, 0.22230, 0.22230};
    int32_t bs = (int32_t)sgn(base, 29), ds = (int32_t)sgn(dbase, 21), df = (int32_t)sgn(dd, 17);
    sx_assert(bits(o.psr, (double)bs + (double)pd / 128.0), "pseudorange"); sx_assert(bits(o.psrStd, (float)STD16[ps]), "pseudorange deviation"); sx_assert(bits(o.adrStd, (float)A[as]), "phase deviation");
    sx_assert(bits(o.adr, -(((double)bs + (double)ph / 2048.0) / wavelength(s, (int)chan))), "carrier phase"); sx_assert(bits(o.dopp, (float)(((double)ds + (double)df / 256.0) / s.scale)), "Doppler");
    sx_assert(bits(o.cno, (float)(20 + cno)), "C/No"); sx_assert(bits(o.lock, (float)((double)lock / 1000.0)), "lock time"); sx_reach("done");
}
// the blocks of RANGECMP4 and RANGECMP5
struct Blk { unsigned parity, half, cno, lock, ps, as; uint64_t psr; uint32_t phr, dop; };
static Blk anyBlk(unsigned stdBits) { Blk b; b.parity = sx_any<uint8_t>("flags") & 3; b.half = b.parity >> 1; b.parity &= 1; b.cno = sx_any<uint16_t>("cno") & 2047; b.lock = sx_any<uint8_t>("lock") & 15; b.ps = sx_any<uint8_t>("psr std") & ((1u << stdBits) - 1); b.as = sx_any<uint8_t>("adr std") & ((1u << stdBits) - 1); b.psr = sx_any<uint64_t>("psr"); b.phr = sx_any<uint32_t>("phase"); b.dop = sx_any<uint32_t>("Doppler"); return b; }
static void putBlk(Bits& o, const Blk& b, unsigned stdBits, unsigned psr, unsigned phr, unsigned dop) { o.put(b.parity, 1); o.put(b.half, 1); o.put(b.cno, 11); o.put(b.lock, 4); o.put(b.ps, stdBits); o.put(b.as, stdBits); o.put(b.psr & ((1ull << psr) - 1), psr); o.put(b.phr & ((1ull << phr) - 1), phr); o.put(b.dop & ((1ull << dop) - 1), dop); }
static void putHead(Bits& o, int sys, unsigned prn, uint16_t signals, unsigned included, unsigned nsig) { o.put(1u << sys, 16); o.put(1ull << (prn - 1), 64); o.put(signals, 16); o.put(included, nsig); }
struct Vals { double psr, phr, dop; bool vpsr, vphr, vdop; };
static const float LOCK4[] = {0.0f, 0.016f, 0.032f, 0.064f, 0.128f, 0.256f, 0.512f, 1.024f, 2.048f, 4.096f, 8.192f, 16.384f, 32.768f, 65.536f, 131.072f, 262.144f};
static void checkObs(const Obs& o, const Sig& s, unsigned prn, unsigned outPrn, unsigned chan, const Blk& b, const Vals& v, bool five, bool group, bool lock)
{
    static const double A4[] = {0.003, 0.005, 0.007, 0.009, 0.012, 0.016, 0.022, 0.029, 0.039, 0.052, 0.070, 0.093, 0.124, 0.166, 0.222, 0.222};
    static const double P5[] = {0.020, 0.030, 0.045, 0.066, 0.099, 0.148, 0.220, 0.329, 0.491, 0.732, 1.092, 1.629, 2.430, 3.625, 5.409, 6.876, 8.741, 11.111, 14.125, 17.957, 22.828, 29.020, 36.891, 46.898, 59.619, 75.791, 96.349, 122.484, 155.707, 197.943, 251.634, 251.634};
    static const double A5[] = {0.00391, 0.00458, 0.00536, 0.00628, 0.00735, 0.00861, 0.01001, 0.01182, 0.01385, 0.01621, 0.01900, 0.02223, 0.02607, 0.03054, 0.03577, 0.04190, 0.04908, 0.05749, 0.06734, 0.07889, 0.09240, 0.10824, 0.12679, 0.14851, 0.17396, 0.20378, 0.23870, 0.27961, 0.32753, 0.38366, 0.44940, 0.44940};
    (void)prn; double w = wavelength(s, (int)chan); double nan = std::numeric_limits<double>::quiet_NaN(); float nanf_ = std::numeric_limits<float>::quiet_NaN();
    sx_assert(o.prn == outPrn && o.glo == chan, "satellite and channel");
    sx_assert(bits(o.psr, v.vpsr ? v.psr : nan), "pseudorange"); sx_assert(bits(o.adr, v.vphr ? -v.phr / w : nan), "carrier phase"); sx_assert(bits(o.dopp, v.vdop ? (float)(-v.dop / w) : nanf_), "Doppler");
    sx_assert(bits(o.cno, (float)b.cno * 0.05f), "C/No"); sx_assert(bits(o.psrStd, (float)(five ? P5[b.ps] : STD16[b.ps])), "pseudorange deviation"); sx_assert(bits(o.adrStd, (float)(five ? A5[b.as] : A4[b.as])), "phase deviation");
    if (lock) sx_assert(bits(o.lock, LOCK4[b.lock]), "lock time of a new signal");
    bool prim = s.code4 == 1 || ((s.sys == BDS || s.sys == QZSS) && s.code4 == 2);
    uint32_t st = (prim ? 4u : 11u) | (uint32_t)v.vphr << 10 | b.parity << 11 | (uint32_t)v.vpsr << 12 | ctsSys(s.sys) << 16 | (uint32_t)group << 20 | s.cts << 21 | (uint32_t)prim << 27 | b.half << 28; sx_assert(o.status == st, "channel status");
}
static Vals refVals(const Blk& b, bool sec, bool five, double psr0, double dop0)
{
    unsigned np = sec ? 20 : 37, nd = five ? (sec ? 16 : 28) : (sec ? 14 : 26); Vals v;
    uint64_t raw = b.psr & ((1ull << np) - 1); int64_t p = sec ? sgn(raw, 20) : (int64_t)raw; int32_t h = (int32_t)sgn(b.phr, 23), d = (int32_t)sgn(b.dop, nd);
    v.vpsr = sec ? raw != 1ull << 19 : raw != (1ull << 37) - 1; v.vphr = (b.phr & 0x7FFFFF) != 0x400000; v.vdop = (b.dop & ((1u << nd) - 1)) != 1u << (nd - 1);
    v.psr = (double)p * 0.0005 + psr0; v.phr = (double)h * 0.0001 + v.psr; v.dop = (double)d * 0.0001 + dop0; return v;
}
static unsigned somePrn(int sys) { static const unsigned P[] = {1, 32, 33}; static const unsigned S[] = {1, 39, 54}; return sys == SBAS ? S[sx_enum(3, "satellite")] : P[sx_enum(3, "satellite")]; }
static unsigned outPrn(int sys, unsigned prn) { return sys == GLO ? (prn >= 43 ? 0 : prn + 37) : sys == SBAS ? (prn <= 39 ? prn + 119 : prn + 129) : sys == QZSS ? prn + 192 : prn; }
static void r03_ref(bool five)
{
    // one satellite with one or two signals, the second relative to the first
    sx_expect("done"); unsigned sb = five ? 5 : 4; int c = sx_case() % NSIG; bool two = sx_case() >= NSIG; const Sig& s = SIG[c]; const Sig* t = nullptr;
    if (two) { if (c + 1 < NSIG && SIG[c + 1].sys == s.sys) t = &SIG[c + 1]; else { sx_reach("done"); return; } }
    unsigned prn = two ? 5 : somePrn(s.sys), chan = s.sys == GLO ? (unsigned)sx_enum(two ? 3 : 21, "channel") : 0; Blk a = anyBlk(sb), b = anyBlk(sb);
    Bits o; putHead(o, s.sys, prn, (uint16_t)(1u << s.code4 | (two ? 1u << t->code4 : 0)), two ? 3 : 1, two ? 2 : 1); o.put(0, 1); o.put(3, 3); if (s.sys == GLO) o.put(chan, 5);
    const Sig *p = &s, *q = t; if (two && t->code4 < s.code4) { p = t; q = &s; }
    putBlk(o, a, sb, 37, 23, five ? 28 : 26); if (two) putBlk(o, b, sb, 20, 23, five ? 16 : 14);
    Dec d; d.room = 2; uint16_t id = five ? 2537 : sx_case() & 1 ? 2050 : 1734; sx_assert(d.run(id, o.body(), 2000, 1000) == STATUS::SUCCESS && d.obs.size() == (two ? 2u : 1u), "every observation");
    Vals va = refVals(a, false, five, 0, 0); checkObs(d.obs[0], *p, prn, outPrn(s.sys, prn), chan, a, va, five, two, true);
    if (two) { Vals vb = refVals(b, true, five, va.psr, va.dop); checkObs(d.obs[1], *q, prn, outPrn(s.sys, prn), chan, b, vb, five, true, true); }
    sx_reach("done");
}
HARNESS(r03_cmp4) { r03_ref(false); }
HARNESS(r03_cmp5) { r03_ref(true); }
HARNESS(r03_cmp4_diff)
{
    sx_expect("done"); const Sig& s = SIG[sx_case() % NSIG]; bool two = sx_case() >= NSIG; const Sig* t = nullptr; int c = sx_case() % NSIG;
    if (two) { if (c + 1 < NSIG && SIG[c + 1].sys == s.sys && SIG[c + 1].code4 > s.code4) t = &SIG[c + 1]; else { sx_reach("done"); return; } }
    unsigned prn = 7, chan = s.sys == GLO ? 9 : 0, id = (unsigned)sx_range(0, 7, "id"); static const uint32_t MS[] = {250, 500, 999}; uint32_t ms = MS[sx_enum(3, "time")];
    Blk ra = anyBlk(4), rb = anyBlk(4), a = anyBlk(4), b = anyBlk(4); Bits o, q; uint16_t set = (uint16_t)(1u << s.code4 | (two ? 1u << t->code4 : 0));
    ra.lock = rb.lock = a.lock = b.lock = 15;
    putHead(o, s.sys, prn, set, two ? 3 : 1, two ? 2 : 1); o.put(0, 1); o.put(id, 3); if (s.sys == GLO) o.put(chan, 5); putBlk(o, ra, 4, 37, 23, 26); if (two) putBlk(o, rb, 4, 20, 23, 14);
    putHead(q, s.sys, prn, set, two ? 3 : 1, two ? 2 : 1); q.put(1, 1); q.put(id, 3); putBlk(q, a, 4, 19, 16, 18); if (two) putBlk(q, b, 4, 19, 16, 14);
    Dec d; d.room = 2; sx_assert(d.run(2050, o.body(), 2000, 5000) == STATUS::SUCCESS, "reference"); sx_assert(d.run(2050, q.body(), 2000, 5000 + ms) == STATUS::SUCCESS && d.obs.size() == (two ? 2u : 1u), "every observation");
    Vals r1 = refVals(ra, false, false, 0, 0), r2 = refVals(rb, true, false, r1.psr, r1.dop); double sec = (double)ms / 1000.0;
    for (int i = 0; i < (two ? 2 : 1); ++i)
    {
        const Blk& k = i ? b : a; const Vals& r = i ? r2 : r1; Vals v; unsigned nd = i ? 14 : 18; int32_t p = (int32_t)sgn(k.psr, 19), h = (int32_t)sgn(k.phr, 16), dp = (int32_t)sgn(k.dop, nd);
        v.vpsr = (k.psr & 0x7FFFF) != 0x40000; v.vphr = (k.phr & 0xFFFF) != 0x8000; v.vdop = (k.dop & ((1u << nd) - 1)) != 1u << (nd - 1);
        v.psr = (double)p * 0.0005 + r.psr + r.dop * sec; v.phr = (double)h * 0.0001 + r.phr + r.dop * sec; v.dop = (double)dp * 0.0001 + r.dop;
        checkObs(d.obs[i], i ? *t : s, prn, outPrn(s.sys, prn), chan, k, v, false, two, false);
    }
    sx_reach("done");
}

// ---------------------------------------------------------------- R04
static Bytes cmp2(int sys, unsigned id, unsigned sig, uint32_t lock) { Bits b; b.put(3, 8); b.put(id, 8); b.put(5, 4); b.put((uint64_t)sys, 5); b.put(0, 1); b.put(20000000, 29); b.put(0, 21); b.put(1, 4); b.put(sig, 5); b.put(7, 3); b.put(lock, 17); b.put(2, 4); b.put(1, 2); b.put(0, 1); b.put(10, 5); b.put(1, 4); b.put(1, 4); b.put(5, 14); b.put(6, 20); b.put(7, 17); return b.body(); }
static Bytes cmp4(int sys, unsigned prn, unsigned sig, unsigned lock) { Bits o; Blk b{1, 0, 900, lock, 1, 1, 40000000000ull, 100, 200}; putHead(o, sys, prn, (uint16_t)(1u << sig), 1, 1); o.put(0, 1); o.put(3, 3); if (sys == GLO) o.put(9, 5); putBlk(o, b, 4, 37, 23, 26); return o.body(); }
struct When { uint16_t week; uint32_t ms; };
static const int64_t WEEK = 604800000;
static When anyWhen(const char* n) { When w{(uint16_t)(2000 + sx_enum(2, n)), (uint32_t)(sx_any<uint32_t>(n) | 1)}; sx_assume(w.ms < WEEK); return w; } // (odd: whole seconds, which also discard references, belong to R05)
static int64_t at(const When& w) { return (int64_t)w.week * WEEK + w.ms; }
static float secs(int64_t ms) { return (float)((double)ms / 1000.0); }
HARNESS(r04_cmp2)
{
    // three messages of one signal with any reported values, times in order, across the end of a week or not; a second signal in between
    sx_expect("extended"); sx_expect("plain"); const Sig& s = SIG[sx_case() % NSIG]; Dec d; d.room = 1; bool sat = false; int64_t since = 0; When prev{1999, 0};
    for (int i = 0; i < 3; ++i)
    {
        When w = anyWhen("time"); sx_assume(at(w) >= at(prev)); prev = w; uint32_t lock = sx_enum(2, "saturated") ? 131071 : (uint32_t)sx_range(0, 131070, "lock");
        sx_assert(d.run(1273, cmp2(s.sys, 9, s.code2, lock), w.week, w.ms) == STATUS::SUCCESS && d.obs.size() == 1, "observation");
        if (lock != 131071) { sat = false; sx_assert(bits(d.obs[0].lock, secs((int64_t)lock)), "a reported lock time is returned as it is"); sx_reach("plain"); }
        else if (!sat) { sat = true; since = at(w); sx_assert(bits(d.obs[0].lock, secs(131071)), "the first saturated lock time is returned as it is"); }
        else { sx_assert(bits(d.obs[0].lock, secs(131071 + (at(w) - since))), "a saturated lock time grows with the time between the messages"); sx_reach("extended"); }
        if (i == 0 && sx_enum(2, "other")) { sx_assert(d.run(1273, cmp2(s.sys, 10, s.code2, 131071), w.week, w.ms) == STATUS::SUCCESS && bits(d.obs[0].lock, secs(131071)), "another satellite keeps its own lock time"); sx_assert(d.run(1273, cmp2(s.sys, 9, s.code2, 131071), w.week, w.ms, 1) == STATUS::SUCCESS && bits(d.obs[0].lock, secs(131071)), "another antenna keeps its own lock time"); }
    }
}
HARNESS(r04_reset)
{
    sx_expect("end"); Dec d; d.room = 1; When w = anyWhen("time"), x = anyWhen("time"); sx_assume(at(x) >= at(w)); unsigned l = (unsigned)sx_enum(16, "lock");
    d.run(1273, cmp2(GPS, 9, 1, 131071), w.week, w.ms); d.run(2050, cmp4(GPS, 9, 1, l), w.week, w.ms); d.d.Reset();
    sx_assert(d.run(1273, cmp2(GPS, 9, 1, 131071), x.week, x.ms) == STATUS::SUCCESS && bits(d.obs[0].lock, secs(131071)), "reset forgets saturated lock times");
    sx_assert(d.run(2050, cmp4(GPS, 9, 1, l), x.week, x.ms) == STATUS::SUCCESS && bits(d.obs[0].lock, LOCK4[l]), "reset forgets relative lock times"); sx_reach("end");
}
static int64_t low4(unsigned b) { return b ? (int64_t)8 << b : 0; }
HARNESS(r04_cmp4)
{
    // a signal locked since some moment, reported with the class of its true lock time: three messages
    sx_expect("risen"); const int c = sx_case(); const unsigned b0 = (unsigned)(c % 16); Dec d; d.room = 1; When prev = anyWhen("time"); int64_t lock0 = (int64_t)sx_range(0, 700000, "lock");
    sx_assume(lock0 >= low4(b0)); if (b0 < 15) sx_assume(lock0 < low4(b0 + 1)); const int64_t start = at(prev) - lock0; int64_t base = low4(b0), since = at(prev), last = base; bool risen = b0 == 0; unsigned pb = b0; if (b0 == 0 || b0 == 15) sx_reach("risen");
    sx_assert(d.run(2050, cmp4(GPS, 9, 1, b0), prev.week, prev.ms) == STATUS::SUCCESS && bits(d.obs[0].lock, secs(base)), "the lower limit of the class is taken first");
    for (int i = 0; i < 2; ++i)
    {
        When w = anyWhen("time"); sx_assume(at(w) >= at(prev)); int64_t truth = at(w) - start; unsigned b = b0 == 15 ? 15 : pb + (unsigned)sx_enum(i ? 3 : 16 - pb < 4 ? 16 - pb : 4, "class"); if (b > 15) return;
        sx_assume(truth >= low4(b)); if (b < 15) sx_assume(truth < low4(b + 1));
        if (b > pb && !risen) { risen = true; base = low4(b); since = at(w); sx_reach("risen"); }
        int64_t want = base + (at(w) - since);
        sx_assert(d.run(2050, cmp4(GPS, 9, 1, b), w.week, w.ms) == STATUS::SUCCESS && bits(d.obs[0].lock, secs(want)), "the lock time grows with the time between the messages");
        sx_assert(want >= last && want <= truth, "the lock time never goes backwards and is never more than the true one"); last = want; prev = w; pb = b;
    }
}
HARNESS(r04_cmp4_fall)
{
    // the class falls after having risen at most twice: the lock time restarts at the lower limit of the new class
    sx_expect("end"); const unsigned b0 = (unsigned)sx_case() % 16; Dec d; d.room = 1; When w = anyWhen("time"), x = anyWhen("time"), y = anyWhen("time"); sx_assume(at(x) >= at(w)); sx_assume(at(y) >= at(x));
    d.run(2050, cmp4(GPS, 9, 1, b0), w.week, w.ms); unsigned top = b0; if (b0 < 15 && sx_enum(2, "rise")) { top = b0 + 1; d.run(2050, cmp4(GPS, 9, 1, top), w.week, w.ms + 2); if (top < 15 && sx_enum(2, "rise")) { ++top; d.run(2050, cmp4(GPS, 9, 1, top), w.week, w.ms + 4); } }
    if (!top) { sx_reach("end"); return; } sx_assume(at(x) >= at(w) + 4); sx_assume(at(x) <= at(w) + 8); const unsigned b2 = (unsigned)sx_enum(top, "class");
    sx_assert(d.run(2050, cmp4(GPS, 9, 1, b2), x.week, x.ms) == STATUS::SUCCESS && bits(d.obs[0].lock, secs(low4(b2))), "the lock time restarts when the class falls");
    if (at(y) - at(x) < low4(b2 + 1) - low4(b2)) sx_assert(d.run(2050, cmp4(GPS, 9, 1, b2), y.week, y.ms) == STATUS::SUCCESS && bits(d.obs[0].lock, secs(low4(b2) + (at(y) - at(x)))), "and grows from there");
    sx_assert(d.run(2050, cmp4(GPS, 10, 1, 7), y.week, y.ms) == STATUS::SUCCESS && bits(d.obs[0].lock, secs(low4(7))), "another satellite has its own lock time"); sx_reach("end");
}

// ---------------------------------------------------------------- R05
static Bytes ref4(int sys, unsigned prn, unsigned sig, unsigned id) { Bits o; Blk b{1, 0, 900, 15, 1, 1, 40000000000ull, 100, 200}; putHead(o, sys, prn, (uint16_t)(1u << sig), 1, 1); o.put(0, 1); o.put(id, 3); if (sys == GLO) o.put(9, 5); putBlk(o, b, 4, 37, 23, 26); return o.body(); }
static Bytes dif4(int sys, unsigned prn, unsigned sig, unsigned id) { Bits o; Blk b{1, 0, 800, 15, 1, 1, 5, 6, 7}; putHead(o, sys, prn, (uint16_t)(1u << sig), 1, 1); o.put(1, 1); o.put(id, 3); putBlk(o, b, 4, 19, 16, 18); return o.body(); }
HARNESS(r05_match)
{
    // a reference, then something that may discard it, then a differential block
    sx_expect("decoded"); sx_expect("rejected"); Dec d; d.room = 2; const Sig& s = SIG[sx_case() % NSIG]; unsigned rid = (unsigned)sx_range(0, 7, "reference id"), did = (unsigned)sx_range(0, 7, "differential id"), src = (unsigned)sx_enum(2, "antenna"), src2 = (unsigned)sx_enum(2, "antenna");
    unsigned rp = 5, dp = sx_enum(2, "satellite") ? 5 : 6; const unsigned first = (unsigned)sx_enum(2, "first"); bool held = false;
    if (first) { sx_assert(d.run(2050, ref4(s.sys, rp, s.code4, rid), 2000, 7250, src) == STATUS::SUCCESS && d.obs.size() == 1, "reference"); held = true; }
    switch (sx_enum(6, "between"))
    {
    case 0: break;
    case 1: d.d.Reset(); held = false; break;
    case 2: d.run(2050, ref4(s.sys, 11, s.code4, did), 2000, 8000, src); held = false; break;          // a whole second
    case 3: d.run(2050, ref4(s.sys, 11, s.code4, did), 2000, 8000, 1 - src); break;                    // of the other antenna
    case 4: d.run(2050, ref4(s.sys, 11, s.code4, did), 2000, 8500, src); break;                        // not a whole second
    default: { unsigned id2 = (unsigned)sx_range(0, 7, "new id"); d.run(2050, ref4(s.sys, rp, s.code4, id2), 2000, 7500, src); rid = id2; held = true; break; } // replaced
    }
    STATUS st = d.run(2050, dif4(s.sys, dp, s.code4, did), 2000, 8600, src2); bool want = held && rp == dp && src == src2 && rid == did;
    sx_assert(st == STATUS::SUCCESS && d.obs.size() == (want ? 1u : 0u), "a differential block is decoded exactly against its own reference");
    if (want) { sx_assert(bits(d.obs[0].psr, 5 * 0.0005 + 40000000000.0 * 0.0005 + 200 * 0.0001 * 0.6), "with the values of that reference"); sx_reach("decoded"); } else sx_reach("rejected");
}
HARNESS(r05_skip)
{
    // rejected blocks do not disturb the others: three satellites, any of which has a reference
    sx_expect("end"); Dec d; d.room = 3; unsigned held = (unsigned)sx_case() % 8; 
    for (unsigned i = 0; i < 3; ++i) if (held >> i & 1) d.run(2050, ref4(GPS, 2 + 10 * i, 1, 4), 2000, 1100 + i);
    Bits o; o.put(1, 16); o.put(1ull << 1 | 1ull << 11 | 1ull << 21, 64); o.put(2, 16); o.put(7, 3); uint32_t p[3];
    for (unsigned i = 0; i < 3; ++i) { Blk b{1, 0, 100 + i, 15, i, i, p[i] = (uint32_t)sx_range(0, 1000, "psr"), 10 + i, 20 + i}; o.put(1, 1); o.put(4, 3); putBlk(o, b, 4, 19, 16, 18); }
    sx_assert(d.run(2050, o.body(), 2000, 1500) == STATUS::SUCCESS, "message"); size_t k = 0;
    for (unsigned i = 0; i < 3; ++i) if (held >> i & 1) { sx_assert(k < d.obs.size() && d.obs[k].prn == 2 + 10 * i && bits(d.obs[k].cno, (float)(100 + i) * 0.05f) && bits(d.obs[k].psr, (double)p[i] * 0.0005 + 40000000000.0 * 0.0005 + 200 * 0.0001 * 0.5), "the blocks with a reference are decoded at their own position"); ++k; }
    sx_assert(k == d.obs.size(), "and no others"); sx_reach("end");
}
HARNESS(r05_skip_signals)
{
    // two signals of one satellite: the reference of the first, of the second, of both or of none
    sx_expect("end"); Dec d; d.room = 3; unsigned held = (unsigned)sx_case() % 4; if (held & 1) d.run(2050, ref4(GPS, 3, 1, 4), 2000, 1100); if (held & 2) d.run(2050, ref4(GPS, 3, 5, 4), 2000, 1101); d.run(2050, ref4(GPS, 8, 1, 4), 2000, 1102);
    Bits o; o.put(1, 16); o.put(1ull << 2 | 1ull << 7, 64); o.put(1u << 1 | 1u << 5, 16); o.put(3, 2); o.put(1, 2); uint32_t p[3];
    Blk b0{1, 0, 100, 15, 0, 0, p[0] = (uint32_t)sx_range(0, 1000, "psr"), 10, 20}, b1{1, 0, 101, 15, 0, 0, p[1] = (uint32_t)sx_range(0, 1000, "psr"), 11, 21}, b2{1, 0, 102, 15, 0, 0, p[2] = (uint32_t)sx_range(0, 1000, "psr"), 12, 22};
    o.put(1, 1); o.put(4, 3); putBlk(o, b0, 4, 19, 16, 18); putBlk(o, b1, 4, 19, 16, 14); o.put(1, 1); o.put(4, 3); putBlk(o, b2, 4, 19, 16, 18);
    sx_assert(d.run(2050, o.body(), 2000, 1500) == STATUS::SUCCESS, "message"); size_t k = 0; const unsigned prn[3] = {3, 3, 8};
    for (unsigned i = 0; i < 3; ++i) if (i == 2 || (held >> i & 1)) { sx_assert(k < d.obs.size() && d.obs[k].prn == prn[i] && bits(d.obs[k].cno, (float)(100 + i) * 0.05f) && bits(d.obs[k].psr, (double)p[i] * 0.0005 + 40000000000.0 * 0.0005 + 200 * 0.0001 * 0.5), "the signals with a reference are decoded at their own position"); ++k; }
    sx_assert(k == d.obs.size(), "and no others"); sx_reach("end");
}

// ---------------------------------------------------------------- R06
HARNESS(r06_word) { sx_expect("end"); uint32_t w = sx_any<uint32_t>("word"); ChannelTrackingStatus c(w); sx_assert(c.GetAsWord() == (w & ~0x04080000u), "every defined bit survives"); ChannelTrackingStatus e(c.GetAsWord()); sx_assert(e.GetAsWord() == c.GetAsWord(), "and again"); sx_reach("end"); }
HARNESS(r06_prn)
{
    sx_expect("end"); uint32_t w = sx_any<uint32_t>("word"), prn = (uint32_t)sx_range(0, 255, "prn"); ChannelTrackingStatus c(w); uint32_t sys = (w >> 16) & 7, p = c.CalculatePrn(prn);
    uint32_t want = sys == 1 ? (prn >= 43 && prn <= 64 ? 0 : prn + 37) : sys == 2 ? (prn >= 1 && prn <= 39 ? prn + 119 : prn >= 54 && prn <= 62 ? prn + 129 : 0) : sys == 5 ? prn + 192 : prn;
    sx_assert(p == want, "the satellite number documented for the system"); static const int S[] = {GPS, GLO, SBAS, GAL, BDS, QZSS, NAVIC, -1}; sx_assert((int)c.GetSystem() == S[sys], "the system of the word"); sx_reach("end");
}
HARNESS(r06_wavelength)
{
    sx_expect("end"); const Sig& s = SIG[sx_case() % NSIG]; uint32_t w = (sx_any<uint32_t>("word") & ~0x03E70000u) | ctsSys(s.sys) << 16 | s.cts << 21; int chan = (int)sx_enum(21, "channel"); ChannelTrackingStatus c(w);
    sx_assert(bits(c.GetSignalWavelength((int16_t)chan), wavelength(s, chan)), "the wavelength of the signal"); sx_reach("end");
}
HARNESS(r06_cmp2)
{
    sx_expect("end"); const Sig& s = SIG[sx_case() % NSIG]; rangecmp2::SatelliteBlock a; rangecmp2::SignalBlock b; a.ucSvChanNumber = (uint8_t)sx_range(0, 31, "channel"); a.ucSatelliteIdentifier = sx_any<uint8_t>("satellite");
    a.ulCombinedField = (sx_any<uint64_t>("block") & ~0x1F0ull) | (uint64_t)s.sys << 4; uint32_t f = (sx_any<uint32_t>("signal") & ~0x1000001Fu) | s.code2; b.uiCombinedField1 = f; b.ullCombinedField2 = sx_any<uint64_t>("signal");
    ChannelTrackingStatus c(a, b); uint32_t prim = (f >> 29) & 1, want = (prim ? 4u : 11u) | (uint32_t)a.ucSvChanNumber << 5 | ((f >> 5) & 7) << 10 | ((f >> 25) & 7) << 13 | ctsSys(s.sys) << 16 | (uint32_t)((a.ulCombinedField >> 60) > 1) << 20 | s.cts << 21 | prim << 27 | ((f >> 30) & 1) << 28;
    sx_assert(c.GetAsWord() == want, "the status documented for the compressed headers"); sx_reach("end");
}
template <typename B> static void r06_blk()
{
    sx_expect("end"); const Sig& s = SIG[sx_case() % NSIG]; B b; uint8_t f = sx_any<uint8_t>("flags"); b.bParityKnown = f & 1; b.bHalfCycleAdded = f & 2; b.bValidPsr = f & 4; b.bValidPhr = f & 8;
    ChannelTrackingStatus c((SYSTEM)s.sys, (rangecmp4::SIGNAL_TYPE)s.code4, b); bool prim = s.code4 == 1 || ((s.sys == BDS || s.sys == QZSS) && s.code4 == 2);
    uint32_t want = (prim ? 4u : 11u) | (uint32_t)((f >> 3) & 1) << 10 | (uint32_t)(f & 1) << 11 | (uint32_t)((f >> 2) & 1) << 12 | ctsSys(s.sys) << 16 | s.cts << 21 | (uint32_t)prim << 27 | (uint32_t)((f >> 1) & 1) << 28;
    sx_assert(c.GetAsWord() == want && (int)c.GetSystem() == s.sys, "the status documented for the compressed block"); sx_reach("end");
}
HARNESS(r06_cmp4) { r06_blk<rangecmp4::MeasurementSignalBlock>(); }
HARNESS(r06_cmp5) { r06_blk<rangecmp5::MeasurementSignalBlock>(); }

// ---------------------------------------------------------------- R07
HARNESS(r07_status)
{
    sx_expect("same"); sx_expect("different"); uint32_t w[2], p[2], m[2]; for (int i = 0; i < 2; ++i) { w[i] = sx_any<uint32_t>("word"); p[i] = (uint32_t)sx_range(0, 292, "prn"); m[i] = (uint32_t)sx_range(0, 1, "antenna"); }
    ChannelTrackingStatus a(w[0]), b(w[1]); bool same = ((w[0] ^ w[1]) & 0x03E70000u) == 0 && p[0] == p[1] && m[0] == m[1];
    bool k = a.MakeKey(p[0], (MEASUREMENT_SOURCE)m[0]) == b.MakeKey(p[1], (MEASUREMENT_SOURCE)m[1]); sx_assert(k == same, "keys are equal exactly for the same signal"); if (same) sx_reach("same"); else sx_reach("different");
}
HARNESS(r07_block)
{
    sx_expect("same"); sx_expect("different"); uint32_t s[2], p[2], g[2], m[2]; for (int i = 0; i < 2; ++i) { s[i] = (uint32_t)sx_range(0, 15, "system"); p[i] = (uint32_t)sx_range(1, 64, "prn"); g[i] = (uint32_t)sx_range(0, 15, "signal"); m[i] = (uint32_t)sx_range(0, 1, "antenna"); }
    bool same = s[0] == s[1] && p[0] == p[1] && g[0] == g[1] && m[0] == m[1]; auto k = [&](int i) { return rangecmp4::MakeKey((SYSTEM)s[i], p[i], (rangecmp4::SIGNAL_TYPE)g[i], (MEASUREMENT_SOURCE)m[i]); };
    sx_assert((k(0) == k(1)) == same, "keys are equal exactly for the same signal"); if (same) sx_reach("same"); else sx_reach("different");
}
HARNESS(r07_cmp2)
{
    // the saturation of one observation is seen by another exactly when both are of the same signal
    sx_expect("same"); sx_expect("different"); int c0 = sx_case() % NSIG, c1 = sx_enum(2, "signal") ? c0 : (int)sx_enum(NSIG, "signal"); unsigned p0 = (unsigned)sx_range(0, 255, "satellite"), p1 = (unsigned)sx_range(0, 255, "satellite"), m0 = (unsigned)sx_enum(2, "antenna"), m1 = (unsigned)sx_enum(2, "antenna"); Dec d; d.room = 1;
    sx_assert(d.run(1273, cmp2(SIG[c0].sys, p0, SIG[c0].code2, 131071), 2000, 1000, m0) == STATUS::SUCCESS, "first"); sx_assert(d.run(1273, cmp2(SIG[c1].sys, p1, SIG[c1].code2, 131071), 2000, 3000, m1) == STATUS::SUCCESS, "second");
    bool same = c0 == c1 && p0 == p1 && m0 == m1; sx_assert(bits(d.obs[0].lock, secs(same ? 133071 : 131071)), "lock times are shared exactly by the same signal"); if (same) sx_reach("same"); else sx_reach("different");
}
HARNESS(r07_cmp4)
{
    sx_expect("same"); sx_expect("different"); static const unsigned P[] = {1, 2, 32, 33, 63, 64}; int c0 = sx_case() % NSIG, c1 = sx_enum(2, "signal") ? c0 : (int)sx_enum(NSIG, "signal"); unsigned p0 = P[sx_enum(6, "satellite")], p1 = P[sx_enum(6, "satellite")]; Dec d; d.room = 1;
    auto bad = [](int s, unsigned p) { return SIG[s].sys == SBAS && p > 39 && (p < 54 || p > 62); }; if (bad(c0, p0) || bad(c1, p1)) return;
    sx_assert(d.run(2050, ref4(SIG[c0].sys, p0, SIG[c0].code4, 2), 2000, 1100) == STATUS::SUCCESS && d.obs.size() == 1, "first"); sx_assert(d.run(2050, dif4(SIG[c1].sys, p1, SIG[c1].code4, 2), 2000, 3100) == STATUS::SUCCESS, "second");
    bool same = c0 == c1 && p0 == p1; sx_assert(d.obs.size() == (same ? 1u : 0u), "references are used exactly by the same signal");
    if (same) { sx_assert(bits(d.obs[0].lock, secs(264144)), "and so is the lock time"); sx_reach("same"); }
    else { sx_assert(d.run(2050, ref4(SIG[c1].sys, p1, SIG[c1].code4, 2), 2000, 4100) == STATUS::SUCCESS && bits(d.obs[0].lock, secs(262144)), "lock times are not shared by different signals"); sx_reach("different"); }
}

// ---------------------------------------------------------------- R02
static Dec& sized(Dec& d, const Bytes& body, int extra) { d.exact = (int)(28 + body.size()) + extra; return d; }
static void anyStatus(STATUS s) { sx_assert(s == STATUS::SUCCESS || s == STATUS::DECOMPRESSION_FAILURE || s == STATUS::BUFFER_FULL || s == STATUS::MALFORMED_INPUT, "fails or succeeds"); if (s == STATUS::SUCCESS) sx_reach("success"); else sx_reach("failure"); }
HARNESS(r02_count) // any declared count, few bytes
{
    static const uint16_t ID[] = {140, 1273, 1734, 2050, 2537}; unsigned n = (unsigned)sx_case() / 5; sx_expect("failure"); Bytes body; uint32_t c = sx_any<uint32_t>("count"); for (unsigned i = 0; i < n; ++i) body.push_back(i < 4 ? (unsigned char)(c >> (8 * i)) : (unsigned char)0);
    Dec d; int extra = sx_enum(2, "room") ? 100 : 0; anyStatus(sized(d, body, extra).run(ID[sx_case() % 5], body, 2000, 1000));
}
HARNESS(r02_cmp) // RANGECMP with any content
{
    sx_expect("failure"); sx_expect("success"); unsigned n = (unsigned)sx_case(); Bytes body{(unsigned char)sx_enum(4, "count"), 0, 0, 0}; SxBuf x(n, "data"); for (unsigned i = 0; i < n; ++i) body.push_back(x[i]);
    unsigned long long extra = 4 + 44 * sx_enum(3, "room"); Dec d; anyStatus(sized(d, body, (int)extra).run(140, body, 2000, 1000));
}
HARNESS(r02_cmp2)
{
    sx_expect("failure"); unsigned n = (unsigned)sx_case() / 4; Bytes body; uint32_t c = (uint32_t)sx_range(n > 24 ? n - 12 : 0, n + 1, "bytes"); for (int i = 0; i < 4; ++i) body.push_back((unsigned char)(c >> (8 * i)));
    static const unsigned SY[] = {0, 1, 5, 6, 7, 8, 13, 31}; Bits b; b.put(sx_any<uint8_t>("sv channel"), 8); b.put(sx_any<uint8_t>("satellite"), 8); b.put(sx_case() % 2 * 15, 4); b.put(SY[sx_case() % 4 * 2 + sx_enum(2, "system")], 5); b.put(sx_any<uint64_t>("ranges"), 51); b.put(sx_enum(4, "signals") == 3 ? 15 : sx_enum(3, "signals"), 4);
    while (b.b.size() < n) { b.put(sx_enum(2, "signal") ? 1 : 30, 5); b.put(sx_any<uint64_t>("signal"), 27); b.put(sx_any<uint64_t>("signal"), 64); } b.b.resize(n); body.insert(body.end(), b.b.begin(), b.b.end());
    Dec d; anyStatus(sized(d, body, 44 * (int)sx_enum(2, "room") + 4).run(1273, body, 2000, 1000));
}
static void r02_bits(uint16_t id) // structures of satellites and signals, cut at any byte, any measurements of the first
{
    static const uint64_t SAT[] = {0, 1, 1ull << 63, 0x8000000000000003ull, ~0ull}; static const uint16_t SG[] = {0, 2, 0x8002, 0xFFFF}; static const uint16_t SYS[] = {0, 1, 2, 4, 0x8000, 0xFFFF};
    sx_expect("failure"); int c = sx_case(); uint64_t sat = SAT[c % 5]; uint16_t sg = SG[c / 5 % 4], sys = SYS[c / 20 % 6]; Bits o; o.put(sys, 16); o.put(sat, 64); o.put(sg, 16);
    uint32_t fill = (uint32_t)sx_enum(3, "content"); uint32_t full = (uint32_t)sx_enum(2, "cut") ? 60 : (uint32_t)sx_enum(30, "cut") + 2; uint8_t any = sx_any<uint8_t>("content");
    while (o.b.size() < 60) o.put(fill == 2 ? any : fill ? 0xFF : 0, 8);
    o.b.resize(full); Bytes body = o.body(); if (sx_enum(2, "declared")) body[0] = (unsigned char)sx_range(0, 80, "bytes");
    Dec d; anyStatus(sized(d, body, 4 + 44 * (int)sx_enum(2, "room")).run(id, body, 2000, c % 2 ? 1000 : 1500));
}
HARNESS(r02_cmp4) { r02_bits(2050); }
HARNESS(r02_cmp5) { r02_bits(2537); }
HARNESS(r02_many) // more observations than a RANGE message holds
{
    sx_expect("failure"); Bytes body; uint16_t id = 0;
    switch (sx_case())
    {
    case 0: id = 140; body.assign(4 + 24 * 330, 0); body[0] = 0x46; body[1] = 1; break; // 326
    case 1: { id = 1273; Bits b; for (int s = 0; s < 37; ++s) { b.put(0, 8); b.put(1, 8); b.put(0, 60); b.put(15, 4); for (int g = 0; g < 15; ++g) { b.put(1, 32); b.put(0, 64); } } body = b.body(); break; }
    case 2: { id = 2050; Bits b; b.put(1, 16); b.put(~0ull, 64); b.put(0xFFFF, 16); for (int i = 0; i < 64 * 16; ++i) b.put(1, 1); while (b.b.size() < 6000) b.put(0, 8); body = b.body(); break; }
    default: { id = 2537; Bits b; b.put(1, 16); b.put(~0ull, 64); b.put(0xFFFF, 16); for (int i = 0; i < 64 * 16; ++i) b.put(1, 1); while (b.b.size() < 6000) b.put(0, 8); body = b.body(); break; }
    }
    Dec d; d.room = 325; anyStatus(d.run(id, body, 2000, 1000));
}
HARNESS(r02_room) // every size of the buffer
{
    sx_expect("failure"); sx_expect("success"); Bytes body = sx_case() == 0 ? cmp2(GPS, 9, 1, 5) : sx_case() == 1 ? cmp4(GPS, 9, 1, 5) : Bytes(28, 0); if (sx_case() == 2) body[0] = 1;
    Dec d; d.exact = 28 + (int)sx_enum(70, "room"); anyStatus(d.run(sx_case() == 0 ? 1273 : sx_case() == 1 ? 2050 : 140, body, 2000, 1000));
}
HARNESS(r02_skip) // a differential message without references, cut at every byte
{
    sx_expect("failure"); sx_expect("success"); Bits o; o.put(1, 16); o.put(3, 64); o.put(1u << 1 | 1u << 5, 16); o.put(sx_range(0, 15, "included"), 4); for (int i = 0; i < 2; ++i) { o.put(1, 1); o.put(2, 3); for (int k = 0; k < 24; ++k) o.put(sx_any<uint8_t>("data"), 8); }
    o.b.resize(12 + (unsigned)sx_case()); Bytes body = o.body(); Dec d; anyStatus(sized(d, body, 8).run(2050, body, 2000, 1500));
}
