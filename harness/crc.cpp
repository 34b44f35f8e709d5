// C01-C03: CRC engines against the bit-serial definition.
#include "sx.hpp"
#include "novatel_edie/common/crc.hpp"
#include "novatel_edie/decoders/oem/crc.hpp"
using namespace novatel::edie;

// reference: shift the message bits one at a time through the polynomial
template <typename T> static T refByte(T crc, unsigned char b, T poly, bool rev)
{
    const unsigned W = sizeof(T) * 8;
    for (unsigned i = 0; i < 8; ++i)
    {
        if (rev)
        {
            T bit = (T)((crc ^ (T)(b >> i)) & 1);
            crc = (T)((T)(crc >> 1) ^ (T)((T)(0 - bit) & poly));
        }
        else
        {
            T bit = (T)(((crc >> (W - 1)) ^ (T)(b >> (7 - i))) & 1);
            crc = (T)((T)(crc << 1) ^ (T)((T)(0 - bit) & poly));
        }
    }
    return crc;
}
template <typename T> static T refBlock(T crc, const unsigned char* p, size_t n, T poly, bool rev)
{
    for (size_t i = 0; i < n; ++i) crc = refByte<T>(crc, p[i], poly, rev);
    return crc;
}
template <typename T, T Poly, bool Rev> static void step()
{
    T c0 = sx_any<T>("crc"); unsigned char b = sx_any<unsigned char>("byte");
    T c = c0; CalculateCharacterCrc<T, Poly, Rev>(c, b);
    sx_assert(c == refByte<T>(c0, b, Poly, Rev), "byte step equals the bitwise definition");
    sx_reach("step"); 
}
template <typename T, T Poly, bool Rev> static void block(size_t n)
{
    T init = sx_any<T>("initial"); SxBuf d(n, "data");
    T want = refBlock<T>(init, d.p, n, Poly, Rev);
    sx_assert((CalculateBlockCrc<T, Poly, Rev>(d.p, (uint32_t)n, init)) == want, "block CRC equals the bitwise definition");
    sx_assert((CalculateBlockCrc<T, Poly, Rev>(std::string_view((const char*)d.p, n), init)) == want, "text CRC equals the bitwise definition");
    T c = init; for (size_t i = 0; i < n; ++i) CalculateCharacterCrc<T, Poly, Rev>(c, d.p[i]);
    sx_assert(c == want, "byte-at-a-time CRC equals the bitwise definition");
    sx_reach("block");
}
#define CFG(X) X(uint8_t, 0x2F, false) X(uint8_t, 0xF4, true) X(uint8_t, 0x07, false) X(uint8_t, 0xE0, true) \
    X(uint16_t, 0x1021, false) X(uint16_t, 0x8408, true) X(uint16_t, 0x8005, false) X(uint16_t, 0xA001, true) \
    X(uint32_t, 0x741B8CD7, false) X(uint32_t, 0xEB31D82E, true) X(uint32_t, 0x04C11DB7, false) X(uint32_t, 0xEDB88320, true) \
    X(uint64_t, 0x42F0E1EBA9EA3693, false) X(uint64_t, 0xC96C5795D7870F42, true) X(uint64_t, 0x000000000000001B, false) X(uint64_t, 0xD800000000000000, true)
template <typename F> static void all(F) {}
HARNESS(c01_step)
{
    sx_expect("step"); int k = sx_case(), i = 0;
#define X(T, P, R) if (k == i++) step<T, P, R>();
    CFG(X)
#undef X
}
HARNESS(c01_smt) // the same at small sizes with the GF(2) normal form switched off: Z3 decides every equality. case = configuration + 16 * length
{
    sx_note("smt-only"); sx_expect("block"); int k = sx_case() % 16, i = 0; size_t n = (size_t)(sx_case() / 16);
#define X(T, P, R) if (k == i++) { step<T, P, R>(); if (n) block<T, P, R>(n); else sx_reach("block"); }
    CFG(X)
#undef X
}
HARNESS(c01_block) // case = configuration + 16 * length
{
    sx_expect("block"); int k = sx_case() % 16, i = 0; size_t n = (size_t)(sx_case() / 16);
#define X(T, P, R) if (k == i++) block<T, P, R>(n);
    CFG(X)
#undef X
}
HARNESS(c01_crc32_api) // the 32-bit convenience functions
{
    sx_expect("api"); size_t n = (size_t)sx_case();
    SxBuf d(n, "data"); uint32_t init = sx_any<uint32_t>("initial");
    sx_assert(CalculateBlockCrc32(d.p, (uint32_t)n, init) == refBlock<uint32_t>(init, d.p, n, 0xEDB88320u, true), "CalculateBlockCrc32");
    sx_assert(CalculateBlockCrc32(std::string_view((const char*)d.p, n)) == refBlock<uint32_t>(0, d.p, n, 0xEDB88320u, true), "CalculateBlockCrc32(string_view)");
    sx_assert((CalculateBlockCrc32<0x741B8CD7u, false>(d.p, (uint32_t)n, init)) == refBlock<uint32_t>(init, d.p, n, 0x741B8CD7u, false), "CalculateBlockCrc32 Koopman");
    uint32_t c = init; for (size_t i = 0; i < n; ++i) CalculateCharacterCrc32(c, d.p[i]);
    sx_assert(c == refBlock<uint32_t>(init, d.p, n, 0xEDB88320u, true), "CalculateCharacterCrc32");
    sx_reach("api");
}
template <typename T, T Poly, bool Rev> static void split(size_t n)
{
    T init = sx_any<T>("initial"); SxBuf d(n, "data");
    T whole = CalculateBlockCrc<T, Poly, Rev>(d.p, (uint32_t)n, init);
    for (size_t a = 0; a <= n; ++a)
    {
        T c = CalculateBlockCrc<T, Poly, Rev>(d.p, (uint32_t)a, init);
        c = CalculateBlockCrc<T, Poly, Rev>(d.p + a, (uint32_t)(n - a), c);
        sx_assert(c == whole, "two consecutive pieces give the CRC of the whole");
        T s = CalculateBlockCrc<T, Poly, Rev>(std::string_view((const char*)d.p, a), init);
        s = CalculateBlockCrc<T, Poly, Rev>(std::string_view((const char*)d.p + a, n - a), s);
        sx_assert(s == whole, "two consecutive text pieces give the CRC of the whole");
    }
    for (size_t a = 0; a <= n; a += 3) for (size_t b = a; b <= n; b += 5)
    {
        T c = CalculateBlockCrc<T, Poly, Rev>(d.p, (uint32_t)a, init);
        c = CalculateBlockCrc<T, Poly, Rev>(d.p + a, (uint32_t)(b - a), c);
        c = CalculateBlockCrc<T, Poly, Rev>(d.p + b, (uint32_t)(n - b), c);
        sx_assert(c == whole, "three consecutive pieces give the CRC of the whole");
    }
    T e = CalculateBlockCrc<T, Poly, Rev>(d.p, 0, init);
    sx_assert(e == init, "an empty piece leaves the value unchanged");
    sx_reach("split");
}
HARNESS(c02_smt)
{
    sx_note("smt-only"); sx_expect("split"); int k = sx_case() % 16, i = 0; size_t n = (size_t)(sx_case() / 16);
#define X(T, P, R) if (k == i++) split<T, P, R>(n);
    CFG(X)
#undef X
}
HARNESS(c02_split)
{
    sx_expect("split"); int k = sx_case() % 16, i = 0; size_t n = (size_t)(sx_case() / 16);
#define X(T, P, R) if (k == i++) split<T, P, R>(n);
    CFG(X)
#undef X
}
HARNESS(c02_oem_split) // case = total length; every cut
{
    sx_expect("split"); size_t n = (size_t)sx_case(); uint32_t init = sx_any<uint32_t>("initial"); SxBuf d(n, "data");
    uint32_t whole = oem::CalculateBlockCrc32(d.p, (uint32_t)n, init);
    for (size_t a = 0; a <= n; a += (n > 120 ? 7 : 1))
    {
        uint32_t c = oem::CalculateBlockCrc32(d.p, (uint32_t)a, init);
        c = oem::CalculateBlockCrc32(d.p + a, (uint32_t)(n - a), c);
        sx_assert(c == whole, "two consecutive pieces give the receiver CRC of the whole");
    }
    sx_assert(oem::CalculateBlockCrc32(d.p, 0, init) == init, "an empty piece leaves the receiver CRC unchanged");
    sx_reach("split");
}
static void oemLen(size_t n)
{
    sx_expect("oem"); uint32_t init = sx_any<uint32_t>("initial"); SxBuf d(n, "data");
    sx_assert(oem::CalculateBlockCrc32(d.p, (uint32_t)n, init) == refBlock<uint32_t>(init, d.p, n, 0xEDB88320u, true), "receiver CRC equals the bitwise definition");
    sx_assert(oem::CalculateBlockCrc32(d.p, (uint32_t)n) == refBlock<uint32_t>(0, d.p, n, 0xEDB88320u, true), "receiver CRC with the default starting value");
    sx_reach("oem");
}
HARNESS(c03_oem) { oemLen((size_t)sx_case()); } // case = length
// the same definition applied to whole bytes: 256 bit-serial results (c03_oem, c01_step prove the byte step for every state)
HARNESS(c03_smt) { sx_note("smt-only"); oemLen((size_t)sx_case()); }
HARNESS(c03_long) // case = length
{
    sx_expect("oem"); size_t n = (size_t)sx_case(); uint32_t init = sx_any<uint32_t>("initial"); SxBuf d(n, "data");
    uint32_t tab[256]; for (unsigned i = 0; i < 256; ++i) tab[i] = refByte<uint32_t>(0, (unsigned char)i, 0xEDB88320u, true);
    uint32_t c = init; for (size_t i = 0; i < n; ++i) c = (c >> 8) ^ tab[(c ^ d.p[i]) & 255];
    sx_assert(oem::CalculateBlockCrc32(d.p, (uint32_t)n, init) == c, "receiver CRC equals the bitwise definition");
    sx_assert(oem::CalculateBlockCrc32(std::string_view((const char*)d.p, n)) == oem::CalculateBlockCrc32(d.p, (uint32_t)n), "text overload, same bytes");
    sx_reach("oem");
}
HARNESS(c03_text)
{
    sx_expect("oem"); size_t n = (size_t)sx_case(); SxBuf d(n, "data");
    sx_assert(oem::CalculateBlockCrc32(std::string_view((const char*)d.p, n)) == refBlock<uint32_t>(0, d.p, n, 0xEDB88320u, true), "receiver CRC of text");
    uint32_t init = sx_any<uint32_t>("initial"), c = init; for (size_t i = 0; i < n; ++i) oem::CalculateCharacterCrc32(c, d.p[i]);
    sx_assert(c == refBlock<uint32_t>(init, d.p, n, 0xEDB88320u, true), "receiver byte-at-a-time CRC");
    sx_reach("oem");
}
