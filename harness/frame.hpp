// Stream construction and oracles shared by the framing harnesses.
#pragma once
#include "sx.hpp"
#include "novatel_edie/decoders/common/framer.hpp"
#include "novatel_edie/decoders/common/framer_manager.hpp"
#include "novatel_edie/decoders/oem/common.hpp"
#include "novatel_edie/decoders/oem/framer.hpp"
#include "novatel_edie/decoders/oem/framer_abb_ascii.hpp"
#include "novatel_edie/decoders/oem/framer_ascii.hpp"
#include "novatel_edie/decoders/oem/framer_ascii_short.hpp"
#include "novatel_edie/decoders/oem/framer_binary.hpp"
#include "novatel_edie/decoders/oem/framer_binary_short.hpp"
using namespace novatel::edie;
using Bytes = std::vector<unsigned char>;

inline const uint32_t* crcTable()
{
    static uint32_t t[256]; static bool done = false;
    if (!done) { for (uint32_t i = 0; i < 256; ++i) { uint32_t c = i; for (int k = 0; k < 8; ++k) c = c & 1 ? (c >> 1) ^ 0xEDB88320u : c >> 1; t[i] = c; } done = true; }
    return t;
}
inline uint32_t refCrc(const unsigned char* p, size_t n) { uint32_t c = 0; for (size_t i = 0; i < n; ++i) c = (c >> 8) ^ crcTable()[(c ^ p[i]) & 255]; return c; }

inline void add(Bytes& b, std::initializer_list<int> l) { for (int x : l) b.push_back((unsigned char)x); }
inline void addText(Bytes& b, const char* s) { while (*s) b.push_back((unsigned char)*s++); }
// bytes that no framer takes as the start of a message; the harnesses that rescan rejected messages use them to keep one path per rescan
inline bool isSync(unsigned char c) { return (c == 0xAA) | (c == '#') | (c == '%') | (c == '$') | (c == '<') | (c == '{'); }
inline bool g_plain = false;
inline bool g_light = false; // header bytes of binary messages fixed
inline bool g_mgr = false; // several framers scan the message: header and checksum bytes of binary messages cannot start another message
inline bool g_fixed = false; // characters of text messages fixed
inline void addHead(Bytes& b, size_t n, const char* name);
inline void addSym(Bytes& b, size_t n, const char* name) { size_t o = b.size(); b.resize(o + n); if (n) sx_bytes(&b[o], n, name); if (g_plain) for (size_t i = 0; i < n; ++i) sx_assume(!isSync(b[o + i])); }
inline void addHead(Bytes& b, size_t n, const char* name) { if (g_mgr) { g_plain = true; addSym(b, n, name); g_plain = false; } else if (!g_light) addSym(b, n, name); else for (size_t i = 0; i < n; ++i) b.push_back((unsigned char)(3 * i + 1)); }
inline void addLe32(Bytes& b, uint32_t v) { for (int i = 0; i < 4; ++i) b.push_back((unsigned char)(v >> (8 * i))); }
inline unsigned char hexDigit(uint32_t v) { return (unsigned char)(v < 10 ? '0' + v : 'a' + v - 10); }
inline void addHex(Bytes& b, uint32_t v, int n) { for (int i = n; i-- > 0;) b.push_back(hexDigit(v >> (4 * i) & 15)); }
// symbolic printable text over a restricted set of characters (forks once per character class only inside the code under test)
inline void addChars(Bytes& b, size_t n, const char* name, const char* exclude = "*")
{
    if (g_fixed) { for (size_t i = 0; i < n; ++i) b.push_back((unsigned char)('A' + i)); return; }
    size_t o = b.size(); addSym(b, n, name);
    for (size_t i = 0; i < n; ++i) { sx_assume(b[o + i] >= 32 && b[o + i] < 127); for (const char* e = exclude; *e; ++e) sx_assume(b[o + i] != (unsigned char)*e); }
}
// the digits of a given checksum: symbolic digits constrained to spell it
inline void addSum(Bytes& b, uint32_t c, int n) { uint32_t v = 0; if (g_fixed) { addHex(b, c, n); return; } sx_bytes(&v, (size_t)n / 2, "checksum"); sx_assume(v == c); addHex(b, v, n); }
enum Kind { K_BIN, K_SHORTBIN, K_PROP, K_ASCII, K_SHORTASCII, K_NMEA, K_ABB, K_ABBRESP, K_JSON, K_COUNT };
// a checksum field: any bytes, or (plain) lower-case digits of any value
inline void addDigits(Bytes& b, size_t n)
{
    if (!g_plain) { addSym(b, n, "crc"); return; }
    uint32_t v = 0; sx_bytes(&v, 4, "crc value"); addHex(b, v, (int)n);
}
inline HEADER_FORMAT formatOf(int k)
{
    static const HEADER_FORMAT F[] = {HEADER_FORMAT::BINARY, HEADER_FORMAT::SHORT_BINARY, HEADER_FORMAT::PROPRIETARY_BINARY, HEADER_FORMAT::ASCII, HEADER_FORMAT::SHORT_ASCII, HEADER_FORMAT::NMEA, HEADER_FORMAT::ABB_ASCII, HEADER_FORMAT::ABB_ASCII, HEADER_FORMAT::JSON};
    return F[k];
}
// a complete message of the given kind with p symbolic payload bytes; valid: checksum computed, otherwise the checksum is symbolic
inline Bytes frameOf(int kind, size_t p, bool valid = true)
{ if (kind == K_NMEA && p < 6) p = 6; /* shorter sentences are noise by the standard's minimum length */
    Bytes b;
    switch (kind)
    {
    case K_BIN: case K_PROP: add(b, {0xAA, kind == K_BIN ? 0x44 : 0x45, 0x12, 28}); addHead(b, 4, "id,type,port"); add(b, {(int)p & 255, (int)p >> 8}); addHead(b, 18, "header"); addSym(b, p, "payload"); break;
    case K_SHORTBIN: add(b, {0xAA, 0x44, 0x13, (int)p}); addHead(b, 8, "header"); addSym(b, p, "payload"); break;
    case K_ASCII: case K_SHORTASCII: addText(b, kind == K_ASCII ? "#" : "%"); addChars(b, p, "text"); break;
    case K_NMEA: addText(b, "$"); addChars(b, p, "text"); break;
    case K_ABB: addText(b, "<"); { size_t o = b.size(); addSym(b, 1, "first letter"); sx_assume(b[o] >= 'A' && b[o] <= 'Z' && b[o] != 'O' && b[o] != 'E'); } addText(b, "\r\n< "); addChars(b, p, "text", ""); addText(b, "\r\n"); return b;
    case K_ABBRESP: addText(b, "<OK"); addChars(b, p, "text", ""); addText(b, "\r\n"); return b;
    case K_JSON: addText(b, "{"); addChars(b, p, "text", "{}"); addText(b, "}"); return b;
    }
    if (kind <= K_PROP && valid && g_mgr) { uint32_t c = refCrc(b.data(), b.size()), v = 0; size_t o = b.size(); g_plain = true; addSym(b, 4, "checksum"); g_plain = false; memcpy(&v, &b[o], 4); sx_assume(v == c); }
    else if (kind <= K_PROP) { if (valid) addLe32(b, refCrc(b.data(), b.size())); else addSym(b, 4, "crc"); }
    else if (kind == K_NMEA) { unsigned char x = 0; for (size_t i = 1; i < b.size(); ++i) x ^= b[i]; addText(b, "*"); if (valid) addSum(b, x, 2); else addDigits(b, 2); addText(b, "\r\n"); }
    else { uint32_t c = refCrc(b.data() + 1, b.size() - 1); addText(b, "*"); if (valid) addSum(b, c, 8); else addDigits(b, 8); addText(b, "\r\n"); }
    return b;
}
inline bool isHex(unsigned char c) { return ((c >= '0') & (c <= '9')) | ((c >= 'a') & (c <= 'f')) | ((c >= 'A') & (c <= 'F')); }
inline uint32_t hexVal(unsigned char c) { return c <= '9' ? c - '0' : (uint32_t)((c | 32) - 'a' + 10); }
inline void wantAscii(const unsigned char* f, size_t n, size_t digits, uint32_t crc, const char* what)
{
    bool ok = (f[n - 1] == '\n') & (f[n - 2] == '\r') & (f[n - 3 - digits] == '*'); sx_assert(ok, what);
    uint32_t v = 0; bool h = true; for (size_t i = n - 2 - digits; i < n - 2; ++i) { h &= isHex(f[i]); v = v << 4 | hexVal(f[i]); }
    sx_assert(h, "the checksum field of a text frame consists of hexadecimal digits"); sx_assert(v == crc, "the checksum in a text frame equals the checksum of its content");
}
// the frame handed out as a success is well formed for its reported format
inline void wellFormed(const unsigned char* f, size_t n, HEADER_FORMAT fmt)
{
    switch (fmt)
    {
    case HEADER_FORMAT::BINARY: case HEADER_FORMAT::PROPRIETARY_BINARY:
        sx_assert(n >= 32, "a binary frame has a header and a checksum");
        sx_assert((f[0] == 0xAA) & (f[1] == (fmt == HEADER_FORMAT::BINARY ? 0x44 : 0x45)) & (f[2] == 0x12), "binary sync bytes match the reported format");
        sx_assert(n == 28u + (f[8] | (uint32_t)f[9] << 8) + 4u, "binary frame length follows from its header");
        sx_assert(refCrc(f, n - 4) == (f[n - 4] | (uint32_t)f[n - 3] << 8 | (uint32_t)f[n - 2] << 16 | (uint32_t)f[n - 1] << 24), "binary frame checksum is the CRC of its content"); sx_reach("binary"); break;
    case HEADER_FORMAT::SHORT_BINARY:
        sx_assert(n >= 16, "a short binary frame has a header and a checksum"); sx_assert((f[0] == 0xAA) & (f[1] == 0x44) & (f[2] == 0x13), "short binary sync bytes match the reported format");
        sx_assert(n == 12u + f[3] + 4u, "short binary frame length follows from its header");
        sx_assert(refCrc(f, n - 4) == (f[n - 4] | (uint32_t)f[n - 3] << 8 | (uint32_t)f[n - 2] << 16 | (uint32_t)f[n - 1] << 24), "short binary frame checksum is the CRC of its content"); sx_reach("short binary"); break;
    case HEADER_FORMAT::ASCII: case HEADER_FORMAT::SHORT_ASCII:
        sx_assert(n >= 12, "a text frame has a sync byte, a checksum and a line end"); sx_assert(f[0] == (fmt == HEADER_FORMAT::ASCII ? '#' : '%'), "text sync byte matches the reported format");
        wantAscii(f, n, 8, refCrc(f + 1, n - 12), "a text frame ends with its checksum and line end"); sx_reach("ascii"); break;
    case HEADER_FORMAT::NMEA: {
        sx_assert(n >= 6, "an NMEA frame has a sync byte, a checksum and a line end"); sx_assert(f[0] == '$', "NMEA sync byte"); unsigned char x = 0; for (size_t i = 1; i + 5 < n; ++i) x ^= f[i];
        wantAscii(f, n, 2, x, "an NMEA frame ends with its checksum and line end"); sx_reach("nmea"); break; }
    case HEADER_FORMAT::ABB_ASCII: sx_assert(n >= 3 && f[0] == '<', "abbreviated frames start with their sync byte"); sx_assert((f[n - 2] == '\r') & (f[n - 1] == '\n'), "abbreviated frames end with a line end"); sx_reach("abbreviated"); break;
    case HEADER_FORMAT::JSON: {
        sx_assert(n >= 2 && f[0] == '{', "JSON frames start with a brace"); int open = 0; for (size_t i = 0; i < n; ++i) { open += f[i] == '{'; open -= f[i] == '}'; if (i + 1 < n) sx_assert(open > 0, "a JSON frame ends where its braces balance"); }
        sx_assert(open == 0 && f[n - 1] == '}', "a JSON frame ends where its braces balance"); sx_reach("json"); break; }
    default: sx_assert(false, "a success carries a known format");
    }
}
struct Event { STATUS st; HEADER_FORMAT fmt; size_t len; };
enum { W_FORM = 1, W_CONS = 2, W_BOUND = 4 };
enum FramerSel { S_OEM, S_ASCII, S_SHORTASCII, S_BIN, S_SHORTBIN, S_ABB, S_OEMJSON, S_COUNT };
// uniform access to each framer
struct AnyFramer
{
    std::shared_ptr<UCharFixedBuffer> buf; std::unique_ptr<oem::Framer> oem_; std::unique_ptr<FramerBase> other; int sel; oem::MetaDataStruct md;
    AnyFramer(int s, size_t cap) : buf(std::make_shared<UCharFixedBuffer>(cap)), sel(s)
    {
        switch (s)
        {
        case S_ASCII: other = std::make_unique<oem::FramerAscii>(buf); break;
        case S_SHORTASCII: other = std::make_unique<oem::FramerAsciiShort>(buf); break;
        case S_BIN: other = std::make_unique<oem::FramerBinary>(buf); break;
        case S_SHORTBIN: other = std::make_unique<oem::FramerBinaryShort>(buf); break;
        case S_ABB: other = std::make_unique<oem::FramerAbbAscii>(buf); break;
        default: oem_ = std::make_unique<oem::Framer>(buf); if (s == S_OEMJSON) oem_->SetFrameJson(true);
        }
    }
    FramerBase& base() { return oem_ ? (FramerBase&)*oem_ : *other; }
    bool freshMeta = false; // a new metadata object for every call
    STATUS get(unsigned char* p, uint32_t n)
    {
        if (freshMeta) md = oem::MetaDataStruct{};
        switch (sel)
        {
        case S_ASCII: return static_cast<oem::FramerAscii&>(*other).GetFrame(p, n, md);
        case S_SHORTASCII: return static_cast<oem::FramerAsciiShort&>(*other).GetFrame(p, n, md);
        case S_BIN: return static_cast<oem::FramerBinary&>(*other).GetFrame(p, n, md);
        case S_SHORTBIN: return static_cast<oem::FramerBinaryShort&>(*other).GetFrame(p, n, md);
        case S_ABB: return static_cast<oem::FramerAbbAscii&>(*other).GetFrame(p, n, md);
        default: return oem_->GetFrame(p, n, md);
        }
    }
};
// reads until the framer wants more data; checks every returned piece. pos: bytes of `stream` already accounted for; avail: bytes written so far
inline void drain(AnyFramer& f, const Bytes& stream, size_t avail, size_t& pos, uint32_t outsz, int what, std::vector<Event>* ev = nullptr)
{
    for (size_t guard = 0;; ++guard)
    {
        if (guard > stream.size() + 3) { sx_assert(false, "the framer keeps returning without consuming its input"); return; }
        SxBuf out(outsz); memset(out.p, 0xCD, outsz);
        STATUS st = f.get(out.p, outsz); size_t len = f.md.uiLength; HEADER_FORMAT fmt = f.md.eFormat;
        if (ev) ev->push_back({st, fmt, len});
        if (st == STATUS::BUFFER_EMPTY) { if (what & W_CONS) sx_assert(pos == avail, "empty is reported only when every byte was returned"); return; }
        if (st == STATUS::INCOMPLETE) { if (what & W_CONS) sx_assert(pos < avail, "incomplete is reported only while bytes are held"); return; }
        if (st == STATUS::BUFFER_FULL) { sx_reach("full"); return; }
        sx_assert(st == STATUS::SUCCESS || st == STATUS::UNKNOWN, "framers report success, unknown bytes, incomplete, full or empty");
        if (what & (W_CONS | W_BOUND)) sx_assert(len > 0 && len <= avail - pos, "the reported length covers only bytes that were supplied and not yet returned");
        if (what & W_BOUND) sx_assert(len <= outsz, "the reported length fits the caller's buffer");
        if (what & W_CONS) { sx_assert(len <= outsz && sx_eq(out.p, stream.data() + pos, len), "the bytes returned are the next bytes of the input"); }
        if (what & W_CONS) for (size_t i = len; i < outsz; ++i) sx_assert(out.p[i] == 0xCD, "no byte beyond the reported length is written");
        if (st == STATUS::SUCCESS) { if (what & W_FORM) { sx_assert(len <= outsz, "length fits"); wellFormed(out.p, len, fmt); } sx_reach("frame"); }
        else if (what & W_FORM) sx_assert(fmt == HEADER_FORMAT::UNKNOWN, "unknown bytes carry the unknown format");
        pos += len;
    }
}
