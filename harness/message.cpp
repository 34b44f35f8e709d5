// M01-M08: message bodies. The wire form and the expected values are built from the definition by this file alone.
#include "oem.hpp"
#include "novatel_edie/decoders/oem/encoder.hpp"
#include "novatel_edie/decoders/oem/header_decoder.hpp"
#include "novatel_edie/decoders/oem/message_decoder.hpp"
#include <functional>
#include <simdjson.h>
using HF = HEADER_FORMAT; using EF = ENCODE_FORMAT; using FT = FIELD_TYPE; using DT = DATA_TYPE;
struct Kind { FT f; DT t; const char* conv; unsigned len; uint8_t cnt; };
// the first NS kinds are single values
static const Kind K[] = {
    {FT::SIMPLE, DT::UCHAR, "%UB", 1, 0}, {FT::SIMPLE, DT::CHAR, "%B", 1, 0}, {FT::SIMPLE, DT::HEXBYTE, "%XB", 1, 0}, {FT::SIMPLE, DT::USHORT, "%hu", 1, 0}, {FT::SIMPLE, DT::SHORT, "%hd", 1, 0}, {FT::SIMPLE, DT::ULONG, "%lu", 1, 0}, {FT::SIMPLE, DT::LONG, "%ld", 1, 0}, {FT::SIMPLE, DT::ULONG, "%lx", 1, 0}, {FT::SIMPLE, DT::ULONGLONG, "%llu", 1, 0}, {FT::SIMPLE, DT::LONGLONG, "%lld", 1, 0}, // 0-9
    {FT::SIMPLE, DT::ULONGLONG, "%llx", 1, 0}, {FT::SIMPLE, DT::BOOL, "%d", 1, 0}, {FT::SIMPLE, DT::INT, "%d", 1, 0}, {FT::SIMPLE, DT::UINT, "%u", 1, 0}, {FT::SIMPLE, DT::FLOAT, "%f", 1, 0}, {FT::SIMPLE, DT::DOUBLE, "%lf", 1, 0}, {FT::ENUM, DT::ULONG, "%d", 1, 0}, {FT::ENUM, DT::UCHAR, "%d", 1, 0}, {FT::ENUM, DT::USHORT, "%d", 1, 0}, {FT::SIMPLE, DT::SATELLITEID, "%id", 1, 0}, // 10-19
    {FT::SIMPLE, DT::ULONG, "%T", 1, 0}, {FT::SIMPLE, DT::ULONG, "%m", 1, 0}, {FT::SIMPLE, DT::USHORT, "%x", 1, 0}, {FT::SIMPLE, DT::ULONG, "%c", 1, 0}, // 20-23
    {FT::FIXED_LENGTH_ARRAY, DT::UCHAR, "%Z", 3, 0}, {FT::FIXED_LENGTH_ARRAY, DT::USHORT, "%hu", 3, 0}, {FT::FIXED_LENGTH_ARRAY, DT::ULONGLONG, "%llx", 2, 0}, {FT::FIXED_LENGTH_ARRAY, DT::CHAR, "%s", 4, 0}, {FT::FIXED_LENGTH_ARRAY, DT::UCHAR, "%P", 2, 0}, {FT::FIXED_LENGTH_ARRAY, DT::LONG, "%ld", 2, 0}, // 24-29
    {FT::VARIABLE_LENGTH_ARRAY, DT::USHORT, "%hu", 3, 4}, {FT::VARIABLE_LENGTH_ARRAY, DT::UCHAR, "%Z", 3, 1}, {FT::VARIABLE_LENGTH_ARRAY, DT::ULONGLONG, "%llx", 2, 2}, {FT::VARIABLE_LENGTH_ARRAY, DT::UCHAR, "%P", 3, 4}, {FT::STRING, DT::CHAR, "%s", 8, 0}, // 30-34
    {FT::FIELD_ARRAY, DT::UNKNOWN, "a", 2, 4}, {FT::FIELD_ARRAY, DT::UNKNOWN, "b", 2, 4}, {FT::FIELD_ARRAY, DT::UNKNOWN, "c", 2, 2}, {FT::VARIABLE_LENGTH_ARRAY, DT::ULONG, "%lu", 3, 0}, // 35-38; the last takes its length from a field of its own
    {FT::FIXED_LENGTH_ARRAY, DT::BOOL, "%d", 2, 0}, {FT::VARIABLE_LENGTH_ARRAY, DT::BOOL, "%d", 2, 4}, {FT::VARIABLE_LENGTH_ARRAY, DT::CHAR, "%s", 4, 4}, {FT::FIXED_LENGTH_ARRAY, DT::CHAR, "%P", 2, 0}, {FT::VARIABLE_LENGTH_ARRAY, DT::CHAR, "%P", 3, 4}, {FT::FIXED_LENGTH_ARRAY, DT::FLOAT, "%f", 2, 0}, // 39-44
    {FT::SIMPLE, DT::CHAR, "%c", 1, 0}, {FT::SIMPLE, DT::UCHAR, "%c", 1, 0}, {FT::FIXED_LENGTH_ARRAY, DT::HEXBYTE, "%Z", 3, 0}, {FT::VARIABLE_LENGTH_ARRAY, DT::HEXBYTE, "%Z", 3, 2} // 45-48
};
constexpr int NK = sizeof K / sizeof *K, NS = 24;
static size_t width(DT t) { switch (t) { case DT::CHAR: case DT::UCHAR: case DT::HEXBYTE: return 1; case DT::SHORT: case DT::USHORT: return 2; case DT::LONGLONG: case DT::ULONGLONG: case DT::DOUBLE: return 8; case DT::UNKNOWN: return 0; default: return 4; } }
static Fields sub(char c) { switch (c) { case 'a': return {simple("p", "%UB", DT::UCHAR), simple("q", "%lu", DT::ULONG)}; case 'b': return {simple("p", "%hu", DT::USHORT), arr("q", FT::STRING, "%s", DT::CHAR, 8)}; default: return {simple("p", "%UB", DT::UCHAR), arr("q", FT::VARIABLE_LENGTH_ARRAY, "%hu", DT::USHORT, 2, 1)}; } }
static const int SUBK[3][2] = {{0, 5}, {3, 34}, {0, -1}}; // kinds of the fields of a record; -1: array of USHORT with a one-byte count
static const Kind SUBV = {FT::VARIABLE_LENGTH_ARRAY, DT::USHORT, "%hu", 2, 1};
static void addField(Fields& v, int k)
{
    auto& d = K[k]; std::string n = "f" + std::to_string(v.size());
    switch (d.f)
    {
    case FT::SIMPLE: v.push_back(simple(n.c_str(), d.conv, d.t)); return;
    case FT::ENUM: v.push_back(enumf(n.c_str(), "e5", d.t)); return;
    case FT::FIELD_ARRAY: v.push_back(farr(n.c_str(), d.len, sub(d.conv[0]), d.cnt)); return;
    default: { auto a = arr(n.c_str(), d.f, d.conv, d.t, d.len, d.cnt); if (d.f == FT::VARIABLE_LENGTH_ARRAY && !d.cnt) { v.push_back(simple((n + "n").c_str(), "%hu", DT::USHORT)); std::dynamic_pointer_cast<ArrayField>(a)->arrayLengthRef = n + "n"; } v.push_back(a); return; }
    }
}
// what a field holds
struct Val { const Kind* k; std::vector<uint64_t> v; std::vector<std::vector<Val>> rec; };
static Bytes wire; static size_t org; // the wire form under construction and where the current structure starts
static void align(size_t w) { size_t a = w > 4 ? 4 : w; if (a) while ((wire.size() - org) % a) wire.push_back(0); }
static void emit(uint64_t v, size_t w) { for (size_t i = 0; i < w; ++i) wire.push_back((unsigned char)(v >> (8 * i))); }
static bool full; // values from the whole range of their type (binary); otherwise from a range whose text form can be analysed
static int anyLen = -1; // how many elements variable parts get (-1: any number)
static size_t count(unsigned max) { return anyLen >= 0 ? (size_t)anyLen < max ? (size_t)anyLen : max : sx_enum(max + 1, "count"); }
static const uint32_t FLT[] = {0, 0x3F800000, 0xC0490FDB, 0x42280000}; static const uint64_t DBL[] = {0, 0x3FF0000000000000ull, 0xC00921FB54442D18ull, 0x4059000000000000ull};
static int pick = -1; // which range of numbers (-1: each, for every value)
static bool decimal; // hexadecimal fields get values from those ranges too
static int extreme = -1; // 0: smallest, 1: largest values, without symbolic parts (their text forms differ in length)
static uint64_t one(const Kind& k)
{
    size_t w = width(k.t); uint64_t m = w >= 8 ? ~0ull : (1ull << (8 * w)) - 1;
    if (extreme >= 0)
    {
        std::string c = k.conv; bool lo = !extreme;
        if (k.f == FT::ENUM) return lo ? 0 : 7;
        if (k.t == DT::BOOL) return lo ? 1 : 0;
        if (k.t == DT::FLOAT) return lo ? 0x3F000000 : 0xFF7FFFFF;
        if (k.t == DT::DOUBLE) return lo ? 0 : 0xFFEFFFFFFFFFFFFFull;
        if (c == "%m") return lo ? 0x400007 : 0x3FFFFFF;
        if (c == "%id") return lo ? 0 : 0xFFF9FFFF;
        if (c == "%c" || k.f == FT::STRING) return 'x';
        if (c == "%s" || c == "%P") return lo ? 'a' : 1;
        bool sg = k.t == DT::CHAR || k.t == DT::SHORT || k.t == DT::LONG || k.t == DT::INT || k.t == DT::LONGLONG;
        return lo ? 0 : sg ? (m >> 1) + 1 : m;
    }
    if (k.f == FT::ENUM) { if (full) return sx_any<uint64_t>("enumerator") & m; static const unsigned E[] = {0, 1, 7}; return E[sx_enum(3, "enumerator")]; }
    if (k.t == DT::BOOL) return sx_any<uint8_t>("truth") & 1;
    if (full) return sx_any<uint64_t>("value") & m;
    if (k.t == DT::FLOAT) return FLT[sx_enum(4, "float")];
    if (k.t == DT::DOUBLE) return DBL[sx_enum(4, "double")];
    std::string c = k.conv;
    if (c == "%T") { static const uint32_t T[] = {0, 1, 604799999, 345600123}; return T[sx_enum(4, "time")]; }
    if (c == "%m") { static const uint32_t M[] = {0x400007, 0x41002B, 0x20002B, 0xA00007}; return M[sx_enum(4, "message")]; }
    if (c == "%id") { uint64_t s = sx_range(0, 299, "slot"), f = sx_enum(15, "channel"); return s | ((f + 65536 - 7) & 0xFFFF) << 16; }
    if (c == "%c") { uint64_t v = sx_range(33, 126, "character"); sx_assume(v != ',' && v != '*' && v != '"'); return v; }
    if (k.f == FT::STRING) { uint64_t v = sx_range(32, 126, "character"); sx_assume(v != '"' && v != '*'); return v; }
    if (c == "%s") return sx_any<uint64_t>("character") & m;
    if (!decimal && (c == "%P" || c == "%Z" || c == "%lx" || c == "%llx" || c == "%x" || c == "%XB")) return sx_any<uint64_t>("value") & m;
    bool sg = k.t == DT::CHAR || k.t == DT::SHORT || k.t == DT::LONG || k.t == DT::INT || k.t == DT::LONGLONG; 
    switch (pick >= 0 ? pick % (sg ? 5 : 3) : (int)sx_enum(sg ? 5 : 3, "range")) { case 0: return sx_range(0, 9, "value"); case 1: return sx_range(10, 99, "value"); case 2: return sg ? sx_range((m >> 1) - 7, m >> 1, "value") : sx_range(m - 5, m, "value"); case 3: return (0 - sx_range(1, 9, "value")) & m; default: return sx_range((m >> 1) + 1, (m >> 1) + 9, "value"); }
}
static Val gen(const Kind& k, const int* forced = nullptr);
static void genRec(std::vector<Val>& r, char c) { for (int s : SUBK[c - 'a']) r.push_back(gen(s < 0 ? SUBV : K[s])); }
static Val gen(const Kind& k, const int*)
{
    Val x{&k, {}, {}}; size_t w = width(k.t);
    switch (k.f)
    {
    case FT::SIMPLE: case FT::ENUM: align(w); x.v.push_back(one(k)); emit(x.v[0], w); break;
    case FT::FIXED_LENGTH_ARRAY: { align(w); bool text = !strcmp(k.conv, "%s"); size_t n = text ? count(k.len) : k.len; for (size_t i = 0; i < k.len; ++i) { uint64_t v = i < n ? one(k) : 0; if (text && i < n) sx_assume(v != 0); x.v.push_back(v); emit(v, w); } break; }
    case FT::VARIABLE_LENGTH_ARRAY: { size_t n = count(k.len); if (k.cnt) { align(w); align(k.cnt); emit(n, k.cnt); } else { align(2); emit(n, 2); align(w); } bool text = !strcmp(k.conv, "%s"); for (size_t i = 0; i < n; ++i) { uint64_t v = one(k); if (text) sx_assume(v != 0); x.v.push_back(v); emit(v, w); } break; }
    case FT::STRING: { size_t n = count(5); for (size_t i = 0; i < n; ++i) { uint64_t v = one(k); sx_assume(v != 0); x.v.push_back(v); emit(v, 1); } emit(0, 1); while ((wire.size() - org) % 4) wire.push_back(0); break; }
    default: { size_t n = count(k.len); align(k.cnt); emit(n, k.cnt); size_t o = org; for (size_t i = 0; i < n; ++i) { x.rec.emplace_back(); if (k.conv[0] != 'a') org = wire.size(); else org = wire.size(); genRec(x.rec.back(), k.conv[0]); } org = o; break; }
    }
    return x;
}
template <typename F> static void visit(const Kind& k, F&& fn)
{
    if (k.f == FT::ENUM) { switch (width(k.t)) { case 1: fn(int8_t{}); return; case 2: fn(int16_t{}); return; default: fn(int32_t{}); return; } }
    switch (k.t) { case DT::BOOL: fn(bool{}); return; case DT::CHAR: fn(int8_t{}); return; case DT::UCHAR: case DT::HEXBYTE: fn(uint8_t{}); return; case DT::SHORT: fn(int16_t{}); return; case DT::USHORT: fn(uint16_t{}); return; case DT::INT: case DT::LONG: fn(int32_t{}); return; case DT::LONGLONG: fn(int64_t{}); return; case DT::ULONGLONG: fn(uint64_t{}); return; case DT::FLOAT: fn(float{}); return; case DT::DOUBLE: fn(double{}); return; default: fn(uint32_t{}); return; }
}
template <typename T> static bool same(T a, uint64_t v) { T b; memcpy((void*)&b, &v, sizeof(T)); return sx_eq(&a, &b, sizeof(T)); }
template <typename R> static void checkScalar(const R& c, const BaseField& f, const Kind& k, unsigned e, uint64_t v) { if (!full && (k.t == DT::FLOAT || k.t == DT::DOUBLE)) return; visit(k, [&](auto t) { using T = decltype(t); sx_assert(same<T>(c.template GetFieldValue<T>(f, e), v), "the field has the value at its position"); }); }
static void checkVal(const CompositeField& c, const BaseField& f, const Val& x)
{
    auto& k = *x.k;
    switch (k.f)
    {
    case FT::SIMPLE: case FT::ENUM: checkScalar(c, f, k, 0, x.v[0]); break;
    case FT::FIXED_LENGTH_ARRAY: sx_assert(c.GetFieldSize(f) == k.len, "length of a fixed array"); for (unsigned i = 0; i < k.len; ++i) checkScalar(c, f, k, i, x.v[i]); break;
    case FT::VARIABLE_LENGTH_ARRAY: sx_assert(c.GetFieldSize(f) == x.v.size(), "length of a variable array"); for (unsigned i = 0; i < x.v.size(); ++i) checkScalar(c, f, k, i, x.v[i]); break;
    case FT::STRING: { std::string s = c.GetFieldValue<std::string>(f); sx_assert(s.size() == x.v.size(), "length of a string"); for (size_t i = 0; i < x.v.size(); ++i) sx_assert((unsigned char)s[i] == (x.v[i] & 0xFF), "characters of a string"); break; }
    default:
    {
        sx_assert(c.GetFieldSize(f) == x.rec.size(), "number of records"); auto fa = c.GetFieldValue<FieldArray>(f); sx_assert(fa.size() == x.rec.size(), "records in the view"); auto& fi = *dynamic_cast<const FieldArrayField&>(f).fieldInfo;
        for (size_t r = 0; r < x.rec.size(); ++r) for (size_t j = 0; j < 2; ++j)
            {
                auto& d = *fi.messageOrderedFields[j]; auto& y = x.rec[r][j];
                if (y.k->f == FT::SIMPLE) visit(*y.k, [&](auto t) { using T = decltype(t); sx_assert(same<T>(fa.GetFieldValue<T>(d, r), y.v[0]) && same<T>(fa[r].GetFieldValue<T>(d), y.v[0]), "a record's field"); });
                else if (y.k->f == FT::STRING) { std::string s = fa.GetFieldValue<std::string>(d, r); sx_assert(s.size() == y.v.size(), "length of a record's string"); for (size_t i = 0; i < y.v.size(); ++i) sx_assert((unsigned char)s[i] == (y.v[i] & 0xFF), "characters of a record's string"); }
                else { auto s = fa.GetFieldValue<std::vector<uint16_t>>(d, r); sx_assert(s.size() == y.v.size(), "length of a record's array"); for (size_t i = 0; i < y.v.size(); ++i) sx_assert(s[i] == (uint16_t)y.v[i], "elements of a record's array"); }
            }
    }
    }
}
static std::vector<MessageDefinition::ConstPtr> more; // further definitions
struct Msg { MessageDatabase::Ptr db; std::vector<Val> vals; std::vector<int> kinds; const FieldInfo* fi; };
static Msg make(std::vector<int> ks, uint32_t crc = 0x1111)
{
    Msg m; m.kinds = ks; Fields v; for (int k : ks) addField(v, k); std::vector<MessageDefinition::ConstPtr> defs{mkMsg(43, "RANGE", {{crc, v}}), mkMsg(7, "ABC", {{1, {simple("a", "%lu", DT::ULONG)}}})}; defs.insert(defs.end(), more.begin(), more.end()); m.db = mkDb(defs);
    wire.clear(); org = 0; for (int k : ks) m.vals.push_back(gen(K[k])); m.fi = &m.db->GetMsgDef(43)->GetMsgDefFromCrc(crc); return m;
}
static void check(const Msg& m, const CompositeField& c) { size_t i = 0; for (auto& f : m.fi->messageOrderedFields) { if (f->name.back() == 'n') { sx_assert(c.GetFieldValue<uint16_t>(*f) == m.vals[i].v.size(), "the field holding an array's length"); continue; } checkVal(c, *f, m.vals[i++]); } }
static MetaDataStruct meta(HF f, uint32_t len, uint32_t crc = 0x1111) { MetaDataStruct m; m.eFormat = f; m.usMessageId = 43; m.messageName = "RANGE"; m.uiMessageCrc = crc; m.uiBinaryMsgLength = len; m.uiHeaderLength = f == HF::BINARY ? 28 : 12; m.uiLength = m.uiHeaderLength + len + 4; return m; }
static CompositeField decoded(const Msg& m, MessageDecoder& d, bool used = false)
{
    SxBuf b(wire.size()); if (wire.size()) memcpy(b.p, wire.data(), wire.size()); CompositeField c; MetaDataStruct md = meta(HF::BINARY, (uint32_t)wire.size());
    if (used) { sx_assert(d.Decode(b.p, c, md) == STATUS::SUCCESS, "first"); } // a structure used before
    sx_assert(d.Decode(b.p, c, md) == STATUS::SUCCESS, "a well-formed body decodes"); (void)m; return c;
}
static std::vector<int> three(int c) { int b = (int)sx_enum(NK, "second kind"); return {c, b, (b * 7 + c + 3) % NS}; }
HARNESS(m01_body) // case: kind of the first field
{
    sx_expect("end"); full = true; anyLen = (int)sx_enum(3, "lengths"); Msg m = make(three(sx_case())); MessageDecoder d(m.db); CompositeField c = decoded(m, d, sx_enum(2, "used")); check(m, c); sx_reach("end");
}
HARNESS(m01_counts) // every combination of counts of one variable part followed by another. case: kind
{
    sx_expect("end"); full = true; anyLen = -1; int c = sx_case(); Msg m = make({c, (int)(30 + sx_enum(9, "second")), 3}); MessageDecoder d(m.db); check(m, decoded(m, d)); sx_reach("end");
}

// While crcModel is set, checksums of symbolic bytes are taken to be MODEL (the function itself is decided by C01..C06); what was summed is kept.
static bool crcModel; static uint32_t MODEL = 0x1d2e3f40; static const unsigned char* crcFrom; static size_t crcLen; static int crcCalls;
#ifdef SX_SYMBOLIC
extern "C" uint32_t sx_model_crc32(const unsigned char* p, uint32_t n, uint32_t init)
{
    if (!crcModel) return CalculateBlockCrc32(p, n, init);
    crcFrom = p; crcLen = n; ++crcCalls; return init ? CalculateBlockCrc32(p, n, init) : MODEL;
}
#endif
// ---- M02
static const uint32_t MS[] = {0, 1, 604799999, 345600123};
static int msPick = -1; // which milliseconds (-1: each of them)
static uint16_t defn() { return msPick < 0 ? sx_any<uint16_t>("definition") : 0x1111; }
static Bytes wireMsg(bool shortH, const Bytes& body, uint8_t type = 0, uint16_t id = 43) // a complete message, its header fields unconstrained
{
    Bytes b; auto put = [&](uint64_t v, int n) { for (int i = 0; i < n; ++i) b.push_back((unsigned char)(v >> (8 * i))); }; uint32_t ms = MS[msPick < 0 ? sx_enum(4, "milliseconds") : msPick];
    put(0xAA, 1); put(0x44, 1);
    if (shortH) { put(0x13, 1); put(body.size(), 1); put(id, 2); put(sx_any<uint16_t>("week"), 2); put(ms, 4); }
    else { put(0x12, 1); put(28, 1); put(id, 2); put(type, 1); put(sx_any<uint8_t>("port"), 1); put(body.size(), 2); put(sx_any<uint16_t>("sequence"), 2); put(sx_any<uint8_t>("idle"), 1); put(sx_any<uint8_t>("time status"), 1); put(sx_any<uint16_t>("week"), 2); put(ms, 4); put(sx_any<uint32_t>("receiver status"), 4); put(defn(), 2); put(sx_any<uint16_t>("version"), 2); }
    b.insert(b.end(), body.begin(), body.end()); put(CalculateBlockCrc32(b.data(), (uint32_t)b.size()), 4); return b;
}
struct Dec { IntermediateHeader h; MetaDataStruct md; CompositeField c; STATUS s; };
static void decodeMsg(MessageDatabase::Ptr db, const Bytes& b, Dec& r, HF f, size_t hl = 0)
{
    SxBuf in(b.size() + 1); memcpy(in.p, b.data(), b.size()); in[b.size()] = 0; HeaderDecoder hd(db); MessageDecoder d(db); r.md.uiLength = (uint32_t)b.size(); r.md.eFormat = f;
    sx_assert(hd.Decode(in.p, r.h, r.md) == STATUS::SUCCESS, "the header decodes"); if (hl) sx_assert(r.md.uiHeaderLength == hl, "header length"); r.s = d.Decode(in.p + r.md.uiHeaderLength, r.c, r.md);
}
static void again(MessageDatabase::Ptr db, const Bytes& b, bool sh)
{
    Dec r; decodeMsg(db, b, r, sh ? HF::SHORT_BINARY : HF::BINARY); sx_assert(r.s == STATUS::SUCCESS, "a well-formed message decodes");
    unsigned off = (unsigned)(msPick < 0 ? sx_enum(4, "alignment of the output buffer") : msPick); SxBuf o(b.size() + off); unsigned char* p = o.p + off; MessageDataStruct md; Encoder e(db);
    sx_assert(e.Encode(&p, (uint32_t)b.size(), r.h, r.c, md, sh ? HF::SHORT_BINARY : HF::BINARY, EF::BINARY) == STATUS::SUCCESS, "the message fits a buffer of its own size");
    sx_assert(md.uiMessageLength == b.size() && md.pucMessage == p && md.pucMessageHeader == p && md.uiMessageHeaderLength == (sh ? 12u : 28u) && md.pucMessageBody == p + md.uiMessageHeaderLength && md.uiMessageLength == md.uiMessageHeaderLength + md.uiMessageBodyLength, "lengths of the encoded message");
    bool eq = sx_eq(p, b.data(), b.size() - 4); sx_assert(eq, "re-encoding a binary message reproduces its bytes"); if (!eq) return; sx_assert(sx_eq(p + b.size() - 4, b.data() + b.size() - 4, 4), "re-encoding a binary message reproduces its checksum"); sx_reach("end");
}
HARNESS(m02_same) // case: kind + 100 * short header
{
    sx_expect("end"); int c = sx_case(); full = true; anyLen = (int)sx_enum(3, "lengths"); msPick = anyLen; Msg m = make(three(c % 100)); again(m.db, wireMsg(c >= 100, wire), c >= 100);
}
HARNESS(m02_type) // any type and sibling of a message that is no response
{
    sx_expect("end"); full = true; anyLen = 1; Msg m = make({3, 34, 0}); uint8_t t = sx_any<uint8_t>("type"); sx_assume(!(t & 0xE0)); again(m.db, wireMsg(false, wire, t), false);
}
HARNESS(m02_response) // a response: identifier and text
{
    sx_expect("end"); Msg m = make({3}); wire.clear(); emit(sx_any<uint32_t>("response"), 4); size_t n = sx_enum(7, "length"); for (size_t i = 0; i < n; ++i) wire.push_back(sx_any<unsigned char>("text"));
    uint8_t t = sx_any<uint8_t>("type"); sx_assume((t & 0xE0) == 0x80); again(m.db, wireMsg(false, wire, t), false);
}

// ---- M03
static IntermediateHeader hdr() { IntermediateHeader h; h.usMessageId = 43; h.uiPortAddress = 32; h.usSequence = 17; h.ucIdleTime = 100; h.uiTimeStatus = 180; h.usWeek = 2107; h.dMilliseconds = 345600123; h.uiReceiverStatus = 0x0200080f; h.uiMessageDefinitionCrc = 0x1111; h.usReceiverSwVersion = 16248; return h; }
struct Out { Bytes b; MessageDataStruct md; STATUS s; int crc = 0; size_t from = 0, len = 0; };
static bool modelled;
static Out encode(const Msg& m, const CompositeField& c, HF f, EF e, size_t cap = 2000)
{
    Out o; SxBuf b(cap); unsigned char* p = b.p; Encoder enc(m.db); crcModel = modelled; crcCalls = 0; o.s = enc.Encode(&p, (uint32_t)cap, hdr(), c, o.md, f, e); o.crc = crcCalls; o.from = crcCalls ? crcFrom - p : 0; o.len = crcLen; crcModel = false;
    if (o.s == STATUS::SUCCESS) { sx_assert(o.md.uiMessageLength <= cap && o.md.pucMessage == p, "the message lies in the buffer"); o.b.assign(p, p + o.md.uiMessageLength); } return o;
}
static void textBack(const Msg& m, const Out& o, HF f)
{
    size_t n = o.b.size(); sx_assert(o.s == STATUS::SUCCESS && n > 11 && o.b[n - 1] == '\n' && o.b[n - 2] == '\r' && o.b[n - 11] == '*', "an ASCII message ends with its checksum"); unsigned char want[8]; uint32_t crc = MODEL;
    if (o.crc) sx_assert(o.crc == 1 && o.from == 1 && o.len == n - 12, "the checksum covers the text between the first character and the asterisk"); else crc = CalculateBlockCrc32(&o.b[1], (uint32_t)(n - 12));
    for (int i = 0; i < 8; ++i) { unsigned d4 = crc >> (28 - 4 * i) & 15; want[i] = (unsigned char)(d4 + '0' + (d4 > 9) * ('a' - '0' - 10)); }
    sx_assert(sx_eq(want, &o.b[n - 10], 8), "the checksum is written in eight hexadecimal digits"); size_t hl = o.md.uiMessageHeaderLength;
    sx_assert(hl > 1 && hl < n && o.b[hl - 1] == ';', "the header ends before the body"); Dec r; decodeMsg(m.db, o.b, r, f, hl); sx_assert(r.s == STATUS::SUCCESS, "the text of a message decodes"); check(m, r.c); sx_reach("end");
}
HARNESS(m03_text) // case: kind + 100 * short header
{
    modelled = true; pick = (int)sx_enum(5, "range"); sx_expect("end"); int k = sx_case(); bool sh = k >= 100; full = false; anyLen = (int)sx_enum(K[k % 100].f == FT::FIELD_ARRAY ? 2 : 3, "lengths"); Msg m = make({k % 100, (k * 7 + 3) % NS}); MessageDecoder d(m.db); CompositeField c = decoded(m, d);
    textBack(m, encode(m, c, sh ? HF::SHORT_BINARY : HF::BINARY, EF::ASCII), sh ? HF::SHORT_ASCII : HF::ASCII);
}
HARNESS(m03_pair) // an array or a string followed by another. case: kind
{
    modelled = true; pick = (int)sx_enum(5, "range"); sx_expect("end"); int k = sx_case(); full = false; anyLen = (int)sx_enum(2, "lengths"); static const int S[] = {24, 27, 28, 30, 31, 33, 34, 35, 36, 37, 41, 43}; int k2 = S[sx_enum(K[k].f == FT::FIELD_ARRAY ? 7 : 12, "second")]; Msg m = make({k, k2}); MessageDecoder d(m.db); CompositeField c = decoded(m, d);
    textBack(m, encode(m, c, HF::BINARY, EF::ASCII), HF::ASCII);
}
HARNESS(m03_crc) // the checksum itself, for messages with few unknown bits. case: number of the message
{
    sx_expect("end"); full = false; anyLen = 1; extreme = 1; Msg m = make({34, 7}); uint32_t v = (uint32_t)(sx_case() * 0x1235779 + sx_enum(16, "value")); memcpy(&wire[wire.size() - 4], &v, 4); MessageDecoder d(m.db); CompositeField c = decoded(m, d);
    Out o = encode(m, c, HF::BINARY, EF::ASCII); size_t n = o.b.size(); sx_assert(o.s == STATUS::SUCCESS && n > 12, "encoded");
    uint32_t crc = CalculateBlockCrc32(&o.b[1], (uint32_t)(n - 12)); for (int i = 0; i < 8; ++i) { unsigned d4 = crc >> (28 - 4 * i) & 15; sx_assert(o.b[n - 10 + i] == d4 + '0' + (d4 > 9) * ('a' - '0' - 10), "the checksum is that of the text between the first character and the asterisk"); }
    if (!(crc >> 28)) sx_reach("short"); sx_reach("end");
}
// ---- M04
static const EF FORMATS[] = {EF::BINARY, EF::ASCII, EF::ABBREV_ASCII, EF::JSON, EF::FLATTENED_BINARY};
static const unsigned char CANARY = 0x5C;
static void sizes(const Msg& m, const CompositeField& c, HF f, EF e, const IntermediateHeader& h, int part) // part 0: message, 1: header, 2: body
{
    Encoder enc(m.db); size_t cap = 3000; SxBuf ref(cap); auto run = [&](unsigned char* p, uint32_t n, MessageDataStruct& md) { md.pucMessageHeader = p; return part == 0 ? enc.Encode(&p, n, h, c, md, f, e) : part == 1 ? enc.EncodeHeader(&p, n, h, md, f, e) : enc.EncodeBody(&p, n, c, m.fi->messageOrderedFields, md, f, e); };
    auto length = [&](const MessageDataStruct& md) { return part == 0 ? md.uiMessageLength : part == 1 ? md.uiMessageHeaderLength : md.uiMessageBodyLength; };
    unsigned pre = part == 2 ? 28 : 0; MessageDataStruct md0; memset(ref.p, CANARY, cap); if (part == 2) { md0.pucMessageHeader = ref.p; } unsigned char* rp = ref.p + pre;
    STATUS s0; { unsigned char* p = rp; s0 = part == 0 ? enc.Encode(&p, (uint32_t)(cap - pre), h, c, md0, f, e) : part == 1 ? enc.EncodeHeader(&p, (uint32_t)(cap - pre), h, md0, f, e) : enc.EncodeBody(&p, (uint32_t)(cap - pre), c, m.fi->messageOrderedFields, md0, f, e); } (void)run;
    sx_assert(s0 == STATUS::SUCCESS, "a large buffer holds the message"); uint32_t need = length(md0); sx_assert(need && need <= cap - pre, "length of the message"); size_t top = need + 24;
    uint32_t size = (uint32_t)sx_enum((top + 255) / 256, "size of the buffer, high part") * 256 + sx_any<uint8_t>("size of the buffer, low part"); sx_assume(size <= top); SxBuf b(pre + top); memset(b.p, CANARY, pre + top); unsigned char* bp = b.p + pre; MessageDataStruct md; if (part == 2) md.pucMessageHeader = b.p;
    STATUS s = part == 0 ? enc.Encode(&bp, size, h, c, md, f, e) : part == 1 ? enc.EncodeHeader(&bp, size, h, md, f, e) : enc.EncodeBody(&bp, size, c, m.fi->messageOrderedFields, md, f, e);
    size_t last = 0; for (size_t i = top; i > 0 && !last; --i) if (bp[i - 1] != CANARY) last = i;
    sx_assert(last <= size, "nothing is written past the size given");
    bool before = true; for (size_t i = 0; i < pre; ++i) before &= (e == EF::BINARY || e == EF::FLATTENED_BINARY) && (i == 3 || i == 8 || i == 9) ? true : b[i] == CANARY; sx_assert(before, "nothing is written before the buffer");
    if (s == STATUS::SUCCESS) { sx_reach("fits"); sx_assert(size >= need, "success only if the message fits"); sx_assert(length(md) == need && sx_eq(bp, rp, need), "the same bytes whatever the size of the buffer"); }
    else { sx_reach("full"); sx_assert(s == STATUS::BUFFER_FULL, "a small buffer is reported as full"); sx_assert(size < need + 8, "a large enough buffer is not reported as full"); }
}
HARNESS(m04_sizes) // case: kind * 10 + format
{
    sx_expect("fits"); sx_expect("full"); int cs = sx_case(); int k = cs / 10; extreme = (int)sx_enum(2, "values"); anyLen = (int)sx_enum(2, "lengths") * 2; Msg m = make({k, (k * 7 + 3) % NS, 34}); MessageDecoder d(m.db); CompositeField c = decoded(m, d); HF f = sx_enum(2, "short") ? HF::SHORT_BINARY : HF::BINARY;
    EF e = FORMATS[cs % 10]; sizes(m, c, f, e, hdr(), 0);
}
HARNESS(m04_header) // long numbers and unknown values in the header. case: format * 2 + short header
{
    sx_expect("fits"); sx_expect("full"); extreme = 0; anyLen = 0; Msg m = make({0}); MessageDecoder d(m.db); CompositeField c = decoded(m, d); IntermediateHeader h = hdr(); auto v = sx_enum(3, "values");
    if (v) { h.usMessageId = v == 1 ? 65535 : 7; h.uiPortAddress = 0xFFFFFFFF; h.usSequence = 65535; h.ucIdleTime = 255; h.uiTimeStatus = 255; h.usWeek = 65535; h.dMilliseconds = 4294967295.0; h.uiReceiverStatus = ~0u; h.uiMessageDefinitionCrc = ~0u; h.usReceiverSwVersion = 65535; h.ucMessageType = v == 1 ? 0x7F : 0; }
    sizes(m, c, sx_case() % 2 ? HF::SHORT_BINARY : HF::BINARY, FORMATS[sx_case() / 2], h, 1 - (int)sx_enum(2, "whole message"));
}
HARNESS(m04_body) // the body alone. case: kind * 10 + format
{
    sx_expect("fits"); sx_expect("full"); int cs = sx_case(); extreme = 1; anyLen = 2; Msg m = make({cs / 10, 12}); MessageDecoder d(m.db); CompositeField c = decoded(m, d); sizes(m, c, sx_enum(2, "short") ? HF::SHORT_BINARY : HF::BINARY, FORMATS[cs % 10], hdr(), 2);
}
HARNESS(m04_none) // messages without fields. case: format
{
    sx_expect("fits"); sx_expect("full"); Msg m; m.db = mkDb({mkMsg(43, "RANGE", {{0x1111, {}}})}); m.fi = &m.db->GetMsgDef(43)->GetMsgDefFromCrc(0x1111); CompositeField c(m.db->GetMsgDef(43)->fieldInfo.at(0x1111)); sizes(m, c, sx_enum(2, "short") ? HF::SHORT_BINARY : HF::BINARY, FORMATS[sx_case()], hdr(), 2 * (int)sx_enum(2, "body alone"));
}
HARNESS(m04_response) // responses. case: format
{
    sx_expect("fits"); sx_expect("full"); Msg m = make({3}); wire.clear(); emit(5, 4); size_t n = sx_enum(3, "length") * 9; for (size_t i = 0; i < n; ++i) emit('a' + i, 1); do wire.push_back(0); while (wire.size() % 4);
    Dec r; extreme = 0; decodeMsg(m.db, wireMsg(false, wire, 0x82), r, HF::BINARY); sx_assert(r.s == STATUS::SUCCESS, "a response decodes"); m.fi = r.c.GetFieldInfo().get(); IntermediateHeader h = hdr(); h.ucMessageType = 0x82; sizes(m, r.c, HF::BINARY, FORMATS[sx_case()], h, 0);
}

// ---- M05
static bool floating(const Kind& k) { return k.t == DT::FLOAT || k.t == DT::DOUBLE || !strcmp(k.conv, "%T"); }
static void fieldsReadable(const Msg& m, const CompositeField& c) // every field of the structure can be read, whatever was decoded
{
    size_t i = 0;
    for (auto& f : m.fi->messageOrderedFields)
    {
        if (f->name.back() == 'n') { (void)c.GetFieldValue<uint16_t>(*f); continue; }
        auto& k = K[m.kinds[i++]]; uint64_t sum = 0;
        switch (k.f)
        {
        case FT::SIMPLE: case FT::ENUM: visit(k, [&](auto t) { using T = decltype(t); T v = c.template GetFieldValue<T>(*f); (void)v; }); break;
        case FT::STRING: sum = c.GetFieldValue<std::string>(*f).size(); break;
        case FT::FIELD_ARRAY: { auto fa = c.GetFieldValue<FieldArray>(*f); sum = fa.size(); sx_assert(sum == c.GetFieldSize(*f), "records of a field"); break; }
        default: sum = c.GetFieldSize(*f); if (k.f == FT::FIXED_LENGTH_ARRAY) sx_assert(sum == k.len, "a fixed array has its declared length"); for (unsigned e = 0; e < sum && e < 4; ++e) visit(k, [&](auto t) { using T = decltype(t); T v = c.template GetFieldValue<T>(*f, e); (void)v; });
        }
    }
}
static STATUS decodeAny(const Msg& m, const unsigned char* p, const MetaDataStruct& md0, bool read = true)
{
    MessageDecoder d(m.db); CompositeField c; MetaDataStruct md = md0; STATUS s = STATUS::UNKNOWN; bool threw = false; try { s = d.Decode(p, c, md); } catch (...) { threw = true; }
    sx_assert(!threw, "decoding reports failure by status"); sx_assert(s == STATUS::SUCCESS || s == STATUS::MALFORMED_INPUT, "a body decodes or is malformed"); if (s == STATUS::SUCCESS && read) { sx_reach("decoded"); fieldsReadable(m, c); } return s;
}
static std::vector<int> third(int k) { return {k, k == 34 ? 5 : 34, 5}; }
HARNESS(m05_binary) // any bytes. case: kind + 100 * number of bytes
{
    sx_expect("end"); anyLen = 0; extreme = 0; Msg m = make(third(sx_case() % 100)); size_t n = sx_case() / 100; SxBuf b(n, "body"); MetaDataStruct md = meta(sx_enum(2, "short") ? HF::SHORT_BINARY : HF::BINARY, (uint32_t)n); decodeAny(m, b.p, md); sx_reach("end");
}
HARNESS(m05_cut) // a well-formed body cut anywhere. case: kind
{
    sx_expect("end"); full = true; anyLen = (int)sx_enum(3, "lengths"); int k = sx_case(); wire.clear(); org = 0; gen(K[k]); size_t first = k == 38 ? 2 : k == 36 || k == 37 ? K[k].cnt : wire.size(); /* a body may end between fields, those of a record included */ Msg m = make(third(k)); size_t t = sx_enum(wire.size() + 1, "bytes left"); SxBuf b(t); if (t) memcpy(b.p, wire.data(), t);
    STATUS s = decodeAny(m, b.p, meta(HF::BINARY, (uint32_t)t)); if (t == wire.size()) { sx_assert(s == STATUS::SUCCESS, "the whole body decodes"); sx_reach("end"); } else if (t < first && K[k].f != FT::STRING) sx_assert(s == STATUS::MALFORMED_INPUT, "a body that ends within its first field is malformed");
}
HARNESS(m05_text) // any characters before the end of a message. case: kind + 100 * abbreviated + 1000 * number of characters
{
    sx_expect("end"); anyLen = 0; extreme = 0; int cs = sx_case(), k = cs % 100; bool abb = cs / 100 % 10; size_t n = cs / 1000; Msg m = make(third(k)); const char* tail = abb ? "\r\n" : "*0a1b2c3d\r\n"; size_t tl = strlen(tail); SxBuf b(n + tl); memcpy(b.p + n, tail, tl);
    if (floating(K[k])) { static const char A[] = ",*\"1.- "; for (size_t i = 0; i < n; ++i) b[i] = A[sx_enum(7, "character")]; } else sx_bytes(b.p, n, "text");
    for (size_t i = 0; i < n; ++i) sx_assume(b[i] != 0);
    MetaDataStruct md = meta(abb ? HF::ABB_ASCII : HF::ASCII, 0); md.uiHeaderLength = 7; md.uiLength = (uint32_t)(7 + n + tl); decodeAny(m, b.p, md); sx_reach("end");
}
HARNESS(m05_textcut) // the text of a well-formed message with one character replaced by any other, or ending early. case: kind + 100 * abbreviated
{
    sx_expect("end"); int cs = sx_case(), k = cs % 100; bool abb = cs / 100; extreme = (int)sx_enum(2, "values"); anyLen = 2; Msg m = make(third(k)); MessageDecoder d(m.db); CompositeField c = decoded(m, d); Out o = encode(m, c, HF::BINARY, EF::ASCII); sx_assert(o.s == STATUS::SUCCESS, "encodes"); size_t hl = o.md.uiMessageHeaderLength, bl = o.b.size() - hl - 11;
    std::string t((const char*)&o.b[hl], bl); if (abb) { std::string u; bool q = false; for (char ch : t) { if (ch == '"') q = !q; u += ch == ',' && !q ? ' ' : ch; } t = u; } size_t cut = sx_enum(2, "cut"), at = sx_enum(bl + (cut ? 1 : 0), "place"); if (cut) t.resize(at);
    t += abb ? "\r\n" : "*0a1b2c3d\r\n"; SxBuf b(t.size()); memcpy(b.p, t.data(), t.size()); if (!cut) { if (floating(K[k]) || (K[k].f == FT::FIELD_ARRAY)) { static const char A[] = ",*\"1.-; "; b[at] = A[sx_enum(8, "character")]; } else { b[at] = sx_any<unsigned char>("character"); sx_assume(b[at] != 0); } }
    MetaDataStruct md = meta(abb ? HF::ABB_ASCII : HF::ASCII, 0); md.uiHeaderLength = (uint32_t)hl; md.uiLength = (uint32_t)(hl + t.size()); decodeAny(m, b.p, md); sx_reach("end");
}
HARNESS(m05_response) // any response. case: number of bytes + 10 * text form (1 ASCII, 2 abbreviated)
{
    sx_expect("end"); extreme = 0; Msg m = make({3}); size_t n = sx_case() % 10; int f = sx_case() / 10; const char* tail = f == 0 ? "" : f == 1 ? "*0a1b2c3d\r\n" : "\r\n"; size_t tl = strlen(tail); SxBuf b(n + tl); memcpy(b.p + n, tail, tl); sx_bytes(b.p, n, "response"); if (f) for (size_t i = 0; i < n; ++i) sx_assume(b[i] != 0);
    MetaDataStruct md = meta(f == 0 ? HF::BINARY : f == 1 ? HF::ASCII : HF::ABB_ASCII, (uint32_t)n); md.bResponse = true; md.uiHeaderLength = 7; if (f) md.uiLength = (uint32_t)(7 + n + tl); decodeAny(m, b.p, md, false); sx_reach("end");
}
HARNESS(m05_json) // JSON of any shape, most of them wrong for the field. case: kind
{
    sx_expect("end"); extreme = 0; anyLen = 0; Msg m = make(third(sx_case())); static const char* V[] = {"1", "-1", "99999999999", "18446744073709551615", "1.5", "\"\"", "\"GR?EN+1\"", "[]", "[1,2,3,4,5,6]", "[\"a\",1]", "[[1]]", "[-5,300]", "{}", "null", "true", "[{\"p\":1,\"q\":2}]", "[{\"p\":\"x\",\"q\":\"?\"},3]", "[{\"q\":[1,2,3,4,5]},{\"p\":9}]", "\"1\"", "\"longer than any array\"", "[{},{},{},{}]"};
    std::string v = V[sx_enum(sizeof V / sizeof *V, "shape")]; size_t q = v.find('?'); if (q != std::string::npos) { char ch = (char)sx_range(35, 91, "character"); v[q] = ch; } std::string t = "{\"header\":{},\"body\":{\"f0\":" + v + ",\"f1\":\"z\",\"f2\":7}}"; SxBuf b(t.size() + 1); memcpy(b.p, t.c_str(), t.size() + 1);
    MetaDataStruct md = meta(HF::JSON, 0); decodeAny(m, b.p, md); sx_reach("end");
}
HARNESS(m05_refused) // what cannot be decoded at all. case: 0
{
    sx_expect("end"); extreme = 0; anyLen = 0; Msg m = make({3}); SxBuf b(8, "bytes"); MetaDataStruct md = meta(HF::BINARY, 2); CompositeField c; MessageDecoder d(m.db), e; sx_assert(d.Decode(nullptr, c, md) == STATUS::NULL_PROVIDED, "no message"); sx_assert(e.Decode(b.p, c, md) == STATUS::NO_DATABASE, "no database");
    static const HF F[] = {HF::UNKNOWN, HF::NMEA, HF::ALL, HF::PROPRIETARY_BINARY}; md = meta(F[sx_enum(4, "format")], 2); md.bResponse = sx_enum(2, "response"); STATUS s = d.Decode(b.p, c, md); sx_assert(s == (md.bResponse ? STATUS::NO_DEFINITION : STATUS::UNKNOWN), "formats without a body decoder"); sx_reach("end");
}

// ---- M06
struct Name { uint32_t v; const char* n; };
static const Name E1[] = {{0, "RED"}, {1, "GREEN"}, {7, "BLUE"}, {127, "LAST"}, {128, "FIRST"}, {200, "HIGH"}}, E2[] = {{3, "A"}, {255, "AB"}, {256, "ABC"}, {32767, "B"}, {32768, "BC"}, {40000, "WIDE"}}, E4[] = {{0, "NONE"}, {65535, "NON"}, {65536, "N"}, {0x7FFFFFFF, "MAXINT"}, {0x80000000, "MININT"}, {0xFFFFFFF0, "TOP"}};
static const Name* ENUMS[] = {E1, E2, E4}; static const DT EDT[] = {DT::UCHAR, DT::USHORT, DT::ULONG};
struct EnumMsg { MessageDatabase::Ptr db; const FieldInfo* fi; const Name* e; size_t w; };
static EnumMsg enumMsg(int i)
{
    EnumMsg m; m.e = ENUMS[i]; m.w = (size_t)1 << i; std::vector<std::pair<uint32_t, const char*>> rows; for (int j = 0; j < 6; ++j) rows.push_back({m.e[j].v, m.e[j].n});
    auto en = baseEnums(); en.push_back(mkEnum("e6", "Own", rows)); Fields v{simple("a", "%UB", DT::UCHAR), enumf("f", "e6", EDT[i]), enumf("g", "e5", DT::ULONG), simple("z", "%lu", DT::ULONG)};
    auto md = std::make_shared<DbMetadata>(); md->messageFamily = "OEM"; m.db = std::make_shared<MessageDatabase>(std::vector<MessageDefinition::ConstPtr>{mkMsg(43, "RANGE", {{0x1111, v}}), mkMsg(7, "ABC", {{1, {simple("a", "%lu", DT::ULONG)}}})}, en, md); m.fi = &m.db->GetMsgDef(43)->GetMsgDefFromCrc(0x1111); return m;
}
static uint32_t enumOf(const EnumMsg& m, const CompositeField& c) { auto& f = *m.fi->messageOrderedFields[1]; return m.w == 1 ? (uint8_t)c.GetFieldValue<int8_t>(f) : m.w == 2 ? (uint16_t)c.GetFieldValue<int16_t>(f) : (uint32_t)c.GetFieldValue<int32_t>(f); }
static void enumWire(const EnumMsg& m, uint32_t v, uint32_t g) { wire.clear(); org = 0; emit(5, 1); align(m.w); emit(v, m.w); align(4); emit(g, 4); emit(9, 4); }
static Bytes encoded(const EnumMsg& m, const CompositeField& c, EF e) { SxBuf o(628); memset(o.p, 0, 28); unsigned char* p = o.p + 28; MessageDataStruct md; md.pucMessageHeader = o.p; Encoder enc(m.db); sx_assert(enc.EncodeBody(&p, 600, c, m.fi->messageOrderedFields, md, HF::BINARY, e) == STATUS::SUCCESS, "the body is encoded"); return Bytes(md.pucMessageBody, md.pucMessageBody + md.uiMessageBodyLength); }
static bool has(const Bytes& b, const std::string& s, size_t at) { return b.size() >= at + s.size() && memcmp(&b[at], s.data(), s.size()) == 0; }
static CompositeField enumDecoded(const EnumMsg& m, const Bytes& b, HF f, int len = -1) { SxBuf in(b.size()); memcpy(in.p, b.data(), b.size()); MessageDecoder d(m.db); CompositeField c; MetaDataStruct md = meta(f, (uint32_t)(len < 0 ? b.size() : len)); md.uiHeaderLength = 6; md.uiLength = (uint32_t)(6 + b.size()); sx_assert(d.Decode(in.p, c, md) == STATUS::SUCCESS, "the body decodes"); return c; }
static Bytes bytesOf(const std::string& s) { return Bytes(s.begin(), s.end()); }
HARNESS(m06_value) // any value. case: width (0..2)
{
    sx_expect("listed"); sx_expect("unlisted"); EnumMsg m = enumMsg(sx_case()); uint32_t mask = m.w == 4 ? ~0u : (1u << (8 * m.w)) - 1, v = sx_any<uint32_t>("value") & mask, g = sx_any<uint32_t>("other value"); enumWire(m, v, g); CompositeField c = enumDecoded(m, wire, HF::BINARY);
    sx_assert(enumOf(m, c) == v, "the value of the enumeration"); Bytes bin = encoded(m, c, EF::BINARY); sx_assert(bin.size() == wire.size() + 4 && sx_eq(bin.data(), wire.data(), wire.size()), "binary output keeps any value, listed or not");
    std::string n = "UNKNOWN", gn = g == 0 ? "RED" : g == 1 ? "GREEN" : g == 7 ? "BLUE" : "UNKNOWN"; bool l = false; for (int i = 0; i < 6; ++i) if (v == m.e[i].v) { n = m.e[i].n; l = true; } sx_reach(l ? "listed" : "unlisted");
    Bytes t = encoded(m, c, EF::ASCII); std::string want = "5," + n + "," + gn + ",9*"; sx_assert(has(t, want, 0), "text output names the value");
    Bytes ab = encoded(m, c, EF::ABBREV_ASCII); sx_assert(has(ab, "<     5 " + n + " " + gn + " 9", 0), "abbreviated output names the value"); Bytes j = encoded(m, c, EF::JSON); std::string js(j.begin(), j.end()); sx_assert(js.find("\"f\": \"" + n + "\"") != std::string::npos && js.find("\"g\": \"" + gn + "\"") != std::string::npos, "JSON output names the value");
    if (!l) return; CompositeField r = enumDecoded(m, bytesOf(want + "01234567\r\n"), HF::ASCII); sx_assert(enumOf(m, r) == v, "the name decodes to its value"); r = enumDecoded(m, bytesOf("5 " + n + " " + gn + " 9\r\n"), HF::ABB_ASCII); sx_assert(enumOf(m, r) == v, "the name decodes to its value in abbreviated form");
    std::string doc = "{\"body\":{\"a\":5,\"f\":\"" + n + "\",\"g\":\"RED\",\"z\":9}}"; Bytes d = bytesOf(doc); d.push_back(0); r = enumDecoded(m, d, HF::JSON); sx_assert(enumOf(m, r) == v, "the name decodes to its value in JSON");
}
HARNESS(m06_name) // any name. case: width (0..2) + 10 * number of characters + 100 * format
{
    sx_expect("end"); int cs = sx_case(); EnumMsg m = enumMsg(cs % 10); size_t n = cs / 10 % 10; int f = cs / 100; SxBuf x(n, "name"); std::string name(n, 0); for (size_t i = 0; i < n; ++i) { unsigned char ch = x[i]; sx_assume((ch > 32) & (ch < 127) & (ch != ',') & (ch != '*') & (ch != '"') & (ch != '\\') & (ch != '<')); name[i] = (char)ch; }
    Bytes t = f == 0 ? bytesOf("5," + name + ",BLUE,9*01234567\r\n") : f == 1 ? bytesOf("5 " + name + " BLUE 9\r\n") : bytesOf("{\"body\":{\"a\":5,\"f\":\"" + name + "\",\"g\":\"BLUE\",\"z\":9}}"); if (f == 2) t.push_back(0); CompositeField c = enumDecoded(m, t, f == 0 ? HF::ASCII : f == 1 ? HF::ABB_ASCII : HF::JSON);
    uint32_t v = enumOf(m, c); bool l = false; for (int i = 0; i < 6; ++i) { size_t el = strlen(m.e[i].n); if (el == n && sx_eq(m.e[i].n, name.data(), n)) { l = true; sx_assert(v == m.e[i].v, "a listed name decodes to the value listed for it"); sx_reach("listed"); } }
    if (!l) { bool any = false; for (int i = 0; i < 6; ++i) any |= v == m.e[i].v; sx_assert(!any, "an unlisted name is not taken for a listed one"); } sx_assert(c.GetFieldValue<int32_t>(*m.fi->messageOrderedFields[2]) == 7 && c.GetFieldValue<uint8_t>(*m.fi->messageOrderedFields[0]) == 5 && c.GetFieldValue<uint32_t>(*m.fi->messageOrderedFields[3]) == 9, "the fields around the enumeration"); sx_reach("end");
}

// ---- M07
using El = simdjson::dom::element;
static MessageDatabase::Ptr nameDb;
static El at(El o, const char* key) { El r; bool ok = o[key].get(r) == simdjson::SUCCESS; sx_assert(ok, "JSON has a field"); return r; }
static void jsonScalar(El e, const Kind& k, uint64_t v)
{
    size_t w = width(k.t); std::string c = k.conv; bool sg = k.t == DT::CHAR || k.t == DT::SHORT || k.t == DT::LONG || k.t == DT::INT || k.t == DT::LONGLONG; std::string_view s; double d; int64_t i; uint64_t u; bool b;
    if (k.f == FT::ENUM) { sx_assert(e.get(s) == simdjson::SUCCESS && s == (v == 0 ? "RED" : v == 1 ? "GREEN" : "BLUE"), "the name of an enumerator"); return; }
    if (k.t == DT::BOOL) { sx_assert(e.get(b) == simdjson::SUCCESS && b == !!(v & 1), "a truth value"); return; }
    if (k.t == DT::FLOAT) { float f; uint32_t x = (uint32_t)v; memcpy(&f, &x, 4); sx_assert(e.get(d) == simdjson::SUCCESS && d > f - 1e-3 && d < f + 1e-3, "a number"); return; }
    if (k.t == DT::DOUBLE) { double f; memcpy(&f, &v, 8); sx_assert(e.get(d) == simdjson::SUCCESS && d > f - 1e-3 && d < f + 1e-3, "a number"); return; }
    if (c == "%T") { sx_assert(e.get(d) == simdjson::SUCCESS && (uint64_t)(d * 1000 + 0.5) == v, "a time in seconds"); return; }
    if (c == "%m") { sx_assert(e.get(s) == simdjson::SUCCESS && s == nameDb->MsgIdToMsgName((uint32_t)v), "a message name"); return; }
    if (c == "%id") { int slot = v & 0xFFFF, ch = (int16_t)(v >> 16); std::string t; if (slot > 99) t += (char)('0' + slot / 100); if (slot > 9) t += (char)('0' + slot / 10 % 10); t += (char)('0' + slot % 10); if (ch) { t += ch < 0 ? '-' : '+'; t += (char)('0' + (ch < 0 ? -ch : ch)); } sx_assert(e.get(s) == simdjson::SUCCESS && s.size() == t.size() && sx_eq(s.data(), t.data(), t.size()), "a satellite"); return; }
    if (c == "%c") { sx_assert(e.get(s) == simdjson::SUCCESS && s.size() == 1 && (unsigned char)s[0] == (v & 0xFF), "a character"); return; }
    if (sg) { int64_t x = (int64_t)(v << (64 - 8 * w)) >> (64 - 8 * w); if (k.f != FT::SIMPLE && c == "%P") x &= 0xFF; sx_assert(e.get(i) == simdjson::SUCCESS && i == x, "a signed number"); return; }
    sx_assert(e.get(u) == simdjson::SUCCESS && u == (w >= 8 ? v : v & ((1ull << 8 * w) - 1)), "an unsigned number");
}
static void jsonText(El e, const std::vector<uint64_t>& v) { std::string_view s; size_t n = 0; while (n < v.size() && (v[n] & 0xFF)) ++n; sx_assert(e.get(s) == simdjson::SUCCESS && s.size() == n, "length of a text"); for (size_t i = 0; i < n && i < s.size(); ++i) sx_assert((unsigned char)s[i] == (v[i] & 0xFF), "characters of a text"); }
static void jsonVal(El e, const Val& x)
{
    auto& k = *x.k; if (k.f == FT::SIMPLE || k.f == FT::ENUM) { jsonScalar(e, k, x.v[0]); return; } if (k.f == FT::STRING || !strcmp(k.conv, "%s")) { jsonText(e, x.v); return; }
    simdjson::dom::array a; bool ok = e.get(a) == simdjson::SUCCESS; sx_assert(ok, "an array"); size_t n = k.f == FT::FIELD_ARRAY ? x.rec.size() : x.v.size(), i = 0; sx_assert(a.size() == n, "length of an array");
    for (El y : a) { if (i >= n) break; if (k.f == FT::FIELD_ARRAY) { simdjson::dom::object o; sx_assert(y.get(o) == simdjson::SUCCESS, "a record"); jsonVal(at(y, "p"), x.rec[i][0]); jsonVal(at(y, "q"), x.rec[i][1]); } else jsonScalar(y, k, x.v[i]); ++i; }
}
static void jsonCheck(const Msg& m, const Bytes& b)
{
    nameDb = m.db;     simdjson::dom::parser p; El d; Bytes t = b; bool ok = p.parse((const char*)t.data(), t.size()).get(d) == simdjson::SUCCESS; sx_assert(ok, "the output is one valid JSON document"); simdjson::dom::object o; sx_assert(d.get(o) == simdjson::SUCCESS, "the output is an object"); El body = at(d, "body"); (void)at(d, "header"); sx_assert(body.get(o) == simdjson::SUCCESS, "the body is an object");
    size_t n = 0; for (auto kv : o) { (void)kv; ++n; } sx_assert(n == m.fi->messageOrderedFields.size(), "the body has exactly the fields of the message"); size_t i = 0;
    for (auto& f : m.fi->messageOrderedFields) { El e = at(body, f->name.c_str()); if (f->name.back() == 'n') { uint64_t u; sx_assert(e.get(u) == simdjson::SUCCESS && u == m.vals[i].v.size(), "the field holding an array's length"); continue; } jsonVal(e, m.vals[i++]); }
}
static void ascii7(const Val& x) { auto& k = *x.k; if (!strcmp(k.conv, "%s") || !strcmp(k.conv, "%c")) for (auto v : x.v) sx_assume((v & 0xFF) < 0x80); for (auto& r : x.rec) for (auto& y : r) ascii7(y); }
HARNESS(m07_json) // case: kind + 100 * short header
{
    decimal = true; pick = (int)sx_enum(5, "range"); sx_expect("end"); int k = sx_case() % 100; bool sh = sx_case() >= 100; full = false; anyLen = (int)sx_enum(K[k].f == FT::FIELD_ARRAY ? 2 : 3, "lengths"); Msg m = make({k, (k * 7 + 3) % NS, 5}); for (auto& x : m.vals) ascii7(x); MessageDecoder d(m.db); CompositeField c = decoded(m, d);
    Out o = encode(m, c, sh ? HF::SHORT_BINARY : HF::BINARY, EF::JSON, 3000); sx_assert(o.s == STATUS::SUCCESS, "the message is encoded"); jsonCheck(m, o.b); sx_reach("end");
}
HARNESS(m07_float) // values JSON has no notation for. case: 0
{
    sx_expect("end"); static const uint64_t F[] = {0x7F800000, 0xFF800000, 0x7FC00000, 0x7F7FFFFF, 1}, D[] = {0x7FF0000000000000ull, 0xFFF0000000000000ull, 0x7FF8000000000000ull, 0x7FEFFFFFFFFFFFFFull, 1}; extreme = 0; Msg m = make({14, 15, 44}); wire.clear(); org = 0; auto i = sx_enum(5, "value"); emit(F[i], 4); emit(D[i], 8); emit(F[i], 4); emit(0, 4); MessageDecoder d(m.db); CompositeField c = decoded(m, d);
    Out o = encode(m, c, HF::BINARY, EF::JSON, 3000); sx_assert(o.s == STATUS::SUCCESS, "the message is encoded"); simdjson::dom::parser p; El e; sx_assert(p.parse((const char*)o.b.data(), o.b.size()).get(e) == simdjson::SUCCESS, "the output is one valid JSON document"); sx_reach("end");
}

// ---- M08
HARNESS(m08_unknown) // case: 0 binary, 1 ASCII, 2 abbreviated, 3 JSON
{
    sx_expect("none"); sx_expect("known"); int cs = sx_case(); auto db = mkDb({mkMsg(43, "RANGE", {{0x2222, {simple("b", "%hu", DT::USHORT)}}, {0x1111, {simple("a", "%lu", DT::ULONG)}}}), mkMsg(128, "RXCONFIG", {{5, {simple("a", "%lu", DT::ULONG)}}})}); MessageDecoder d(db); CompositeField c; MetaDataStruct md = meta(cs == 0 ? HF::BINARY : cs == 1 ? HF::ASCII : cs == 2 ? HF::ABB_ASCII : HF::JSON, 4);
    uint16_t id = sx_any<uint16_t>("identifier"); md.usMessageId = id; uint32_t crc = sx_any<uint32_t>("definition"); md.uiMessageCrc = crc; if (cs == 0) md.messageName = sx_enum(2, "named") ? "RANGE" : ""; else md.messageName = sx_enum(2, "named") ? "RANGE" : "NOSUCH"; if (id == 128) md.messageName = "RXCONFIG"; bool byId = id != 0;
    static const char* T[] = {"\x39\x30\x01\x00", "12345*01234567\r\n", "12345\r\n", "{\"body\":{\"a\":12345,\"b\":12345}}"}; size_t n = cs == 0 ? 4 : strlen(T[cs]) + (cs == 3); SxBuf b(n); memcpy(b.p, T[cs], n); md.uiHeaderLength = 5; md.uiLength = (uint32_t)(5 + n); STATUS s = d.Decode(b.p, c, md);
    if (id == 128) { sx_assert(s == STATUS::UNSUPPORTED, "RXCONFIG is left to its own decoder"); return; } (void)byId;
    if (id != 43) { sx_reach("none"); sx_assert(s == STATUS::NO_DEFINITION, "a message with an unknown identifier has no definition"); return; }
    sx_reach("known"); sx_assert(s == STATUS::SUCCESS, "a known message decodes"); bool old = crc == 0x2222; auto& fi = db->GetMsgDef(43)->GetMsgDefFromCrc(crc); sx_assert(&fi == db->GetMsgDef(43)->fieldInfo.at(old ? 0x2222 : 0x1111).get(), "the definition named, or the newest"); sx_assert(c.GetFieldInfo().get() == &fi, "the structure has that definition");
    if (old) sx_assert(c.GetFieldValue<uint16_t>(*fi.messageOrderedFields[0]) == 12345, "the named definition's field"); else sx_assert(c.GetFieldValue<uint32_t>(*fi.messageOrderedFields[0]) == (cs == 0 ? 77881u : 12345u), "the newest definition's field");
}
HARNESS(m08_response) // a response is decoded with the response definition whatever its identifier. case: 0
{
    sx_expect("end"); extreme = 0; Msg m = make({3}); MessageDecoder d(m.db); CompositeField c; SxBuf b(6); memcpy(b.p, "\x01\0\0\0OK", 6); MetaDataStruct md = meta(HF::BINARY, 6); md.usMessageId = sx_any<uint16_t>("identifier"); md.uiMessageCrc = sx_any<uint32_t>("definition"); md.bResponse = true; sx_assume(md.usMessageId != 128); STATUS s = d.Decode(b.p, c, md); sx_assert(s == STATUS::SUCCESS, "a response decodes"); auto fi = c.GetFieldInfo(); sx_assert(fi->messageOrderedFields.size() == 2 && fi->messageOrderedFields[0]->type == FT::RESPONSE_ID && fi->messageOrderedFields[1]->type == FT::RESPONSE_STR, "a response has an identifier and a text");
    sx_assert(c.GetFieldValue<int32_t>(*fi->messageOrderedFields[0]) == 1 && c.GetFieldValue<std::string>(*fi->messageOrderedFields[1]) == "OK", "the values of a response"); sx_reach("end");
}
