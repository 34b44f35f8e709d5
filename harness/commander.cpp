// K01: commands. The text of the parameters and the expected wire form are built by this file alone.
#include "oem.hpp"
#include "novatel_edie/decoders/oem/commander.hpp"
#include "novatel_edie/decoders/oem/header_decoder.hpp"
using HF = HEADER_FORMAT; using EF = ENCODE_FORMAT; using FT = FIELD_TYPE; using DT = DATA_TYPE;
static std::string text; static Bytes wire; // what is written so far: parameters of the command, body of the message
static void align(size_t w) { while (wire.size() % (w > 4 ? 4 : w)) wire.push_back(0); }
static void emit(uint64_t v, size_t w) { align(w); for (size_t i = 0; i < w; ++i) wire.push_back((unsigned char)(v >> (8 * i))); }
static bool plain; // parameters of one value each
static bool noStar; // text of messages: an asterisk ends the body
static uint64_t rng(uint64_t lo, uint64_t hi, const char* n) { return plain ? lo : sx_range(lo, hi, n); }
static uint64_t en(uint64_t k, const char* n) { return plain ? 0 : sx_enum(k, n); }
static uint64_t digits(int n, bool neg = false) // n decimal digits of any value
{
    uint64_t v = 0; if (neg) text += '-'; for (int i = 0; i < n; ++i) { uint64_t d = rng(i || n == 1 ? 0 : 1, 9, "digit"); text += (char)('0' + d); v = v * 10 + d; } return neg ? 0 - v : v;
}
static uint64_t hexDigits(int n, int free) // of which one may be any
{ uint64_t v = 0; for (int i = 0; i < n; ++i) { uint64_t d = i + 1 == free && !plain ? sx_any<uint8_t>("hexadecimal digit") : 9 + i % 8; sx_assume(d < 22); uint64_t x = d > 15 ? d - 6 : d; text += (char)(d < 10 ? '0' + d : d < 16 ? 'a' + d - 10 : 'A' + d - 16); v = v << 4 | x; } return v; }
static uint64_t near(const char* head, uint64_t v, uint64_t lastMax) { text += head; uint64_t d = rng(0, lastMax, "digit"); text += (char)('0' + d); return v + d; }
constexpr int NP = 20; 

static void param(Fields& f, int k) // one more field of kind k, with any value
{
    std::string ns = "p" + std::to_string(f.size()); const char* n = ns.c_str(); if (!f.empty()) text += ' ';
    auto num = [&](int most) { return digits((int)en(noStar && most > 2 ? 2 : most, "digits") + 1); };
    switch (k)
    {
    case 0: f.push_back(simple(n, "%lu", DT::ULONG)); emit(en(2, "large") ? near("429496729", 4294967290ull, 5) : num(3), 4); return;
    case 1: f.push_back(simple(n, "%ld", DT::LONG)); emit(en(2, "large") ? near("-214748364", 0 - 2147483640ull, 0) : digits((int)en(noStar ? 2 : 3, "digits") + 1, true), 4); return;
    case 2: f.push_back(simple(n, "%UB", DT::UCHAR)); emit(en(2, "large") ? near("25", 250, 5) : num(2), 1); return;
    case 3: f.push_back(simple(n, "%hu", DT::USHORT)); emit(en(2, "large") ? near("6553", 65530, 5) : num(4), 2); return;
    case 4: f.push_back(simple(n, "%lx", DT::ULONG)); emit(hexDigits((int)en(3, "digits") * 3 + 2, (int)en(2, "which") + 1), 4); return;
    case 5: { f.push_back(enumf(n, "e5")); static const char* N[] = {"RED", "GREEN", "BLUE"}; static const unsigned V[] = {0, 1, 7}; auto e = en(3, "enumerator"); text += N[e]; emit(V[e], 4); return; }
    case 6: { f.push_back(simple(n, "%d", DT::BOOL)); auto b = en(2, "truth"); text += b ? "TRUE" : "FALSE"; emit(b, 4); return; }
    case 7: case 8: // a string, in quotes or not
    {
        f.push_back(arr(n, FT::STRING, "%s", DT::CHAR, 8)); size_t m = (k == 8) + en(noStar ? 3 : 4, "length"); align(4); if (k == 7) text += '"';
        for (size_t i = 0; i < m; ++i) { uint64_t c = noStar && i && i + 1 < m ? 'm' : rng(k == 7 ? 32 : 33, 126, "character"); sx_assume(c != '"' && (k == 7 || c != '<') && (!noStar || c != '*')); text += (char)c; wire.push_back((unsigned char)c); }
        if (k == 7) text += '"'; do wire.push_back(0); while (wire.size() % 4); return;
    }
    case 9: { f.push_back(arr(n, FT::FIXED_LENGTH_ARRAY, "%s", DT::CHAR, 4)); size_t m = en(5, "length"); text += '"'; for (size_t i = 0; i < 4; ++i) { uint64_t c = 0; if (i < m) { c = noStar && i && i + 1 < m ? 'm' : rng(32, 126, "character"); sx_assume(c != '"' && c != '\\'); text += (char)c; } wire.push_back((unsigned char)c); } text += '"'; return; }
    case 10: { f.push_back(simple(n, "%lf", DT::DOUBLE)); static const char* N[] = {"0.0", "2", "-1.5", "51.25"}; static const double V[] = {0, 2, -1.5, 51.25}; auto e = en(4, "number"); text += N[e]; uint64_t u; memcpy(&u, &V[e], 8); emit(u, 8); return; }
    case 11: { f.push_back(simple(n, "%f", DT::FLOAT)); static const char* N[] = {"0.0", "2", "-1.5"}; static const float V[] = {0, 2, -1.5f}; auto e = en(3, "number"); text += N[e]; uint32_t u; memcpy(&u, &V[e], 4); emit(u, 4); return; }
    case 12: case 13: // arrays of numbers, of any or of a fixed number of elements
    {
        f.push_back(arr(n, k == 12 ? FT::VARIABLE_LENGTH_ARRAY : FT::FIXED_LENGTH_ARRAY, "%hu", DT::USHORT, 2, 4)); size_t m = k == 13 ? 2 : en(3, "count"); if (k == 12) { text += std::to_string(m); emit(m, 4); } else align(2);
        for (size_t i = 0; i < m; ++i) { if (i || k == 12) text += ' '; emit(digits(2), 2); } return;
    }
    case 14: f.push_back(simple(n, "%lld", DT::LONGLONG)); emit(digits(noStar ? 2 : 3, en(2, "negative")), 8); return;
    case 15: { f.push_back(simple(n, "%m", DT::ULONG)); static const char* N[] = {"LOG", "LOGA", "LOGB", "CMDA", "CMDAA_1"}; static const uint32_t V[] = {0x400000 | 900, 0x200000 | 900, 900, 0x400000 | 7, 0x210000 | 7}; auto e = en(5, "message"); text += N[e]; emit(V[e], 4); return; }
    case 16: { f.push_back(enumf(n, "e5", DT::UCHAR)); static const char* N[] = {"RED", "BLUE"}; static const unsigned V[] = {0, 7}; auto e = en(2, "enumerator"); text += N[e]; emit(V[e], 1); return; }
    case 17: { auto p = farr(n, 2, {simple("p", "%UB", DT::UCHAR), simple("q", "%lu", DT::ULONG)}); f.push_back(p); size_t m = en(3, "count"); text += std::to_string(m); emit(m, 4); for (size_t i = 0; i < m; ++i) { text += ' '; emit(digits(1), 1); text += ' '; emit(digits(noStar ? 1 : 2), 4); } return; }
    case 18: f.push_back(simple(n, "%hd", DT::SHORT)); emit(digits((int)en(noStar ? 2 : 3, "digits") + 1, en(2, "negative")), 2); return;
    default: { f.push_back(arr(n, FT::FIXED_LENGTH_ARRAY, "%Z", DT::UCHAR, 3)); for (int i = 0, w = (int)en(6, "which"); i < 3; ++i) emit(hexDigits(2, w - 2 * i + 1), 1); return; }
    }
}
static const uint32_t CRC = 0x1111;
static MessageDatabase::Ptr mk(const Fields& f, bool older = false) { std::vector<std::pair<uint32_t, Fields>> d; if (older) { d.push_back({0x0777, {}}); d.push_back({0x9999, {simple("q", "%hd", DT::SHORT)}}); } d.push_back({CRC, f}); return mkDb({mkMsg(7, "CMDA", d), mkMsg(900, "LOG", {{2, {simple("a", "%lu", DT::ULONG)}}}), mkMsg(38, "NOTHING", {{3, {}}})}); }
static STATUS run(MessageDatabase::Ptr db, int how, const std::string& c, char* o, uint32_t& n, EF e) // how: 0 member function, 1 static function
{
    SxBuf in(c.size()); memcpy(in.p, c.data(), c.size()); const char* p = (const char*)in.p;
    if (!how) { Commander k(db); return k.Encode(p, (uint32_t)c.size(), o, n, e); }
    MessageDecoder d(db); Encoder x(db); return Commander::Encode(*db, d, x, p, (uint32_t)c.size(), o, n, e);
}
static Bytes expected(uint16_t id, uint32_t crc)
{
    Bytes b; auto put = [&](uint64_t v, int n) { for (int i = 0; i < n; ++i) b.push_back((unsigned char)(v >> (8 * i))); };
    put(0xAA, 1); put(0x44, 1); put(0x12, 1); put(28, 1); put(id, 2); put(0, 1); put(192, 1); put(wire.size(), 2); put(0, 2); put(0, 1); put(0, 1); put(0, 2); put(0, 4); put(0, 4); put(crc, 2); put(0, 2); b.insert(b.end(), wire.begin(), wire.end()); put(CalculateBlockCrc32(b.data(), (uint32_t)b.size()), 4); return b;
}
static void begin() { text.clear(); wire.clear(); }
HARNESS(k01_binary) // with older definitions or none. case: kind of the first parameter + 100 * choice of a second
{
    sx_expect("end"); begin(); Fields f; int k = sx_case(); param(f, k % 100); if (k >= 100) { plain = true; param(f, (k / 100 * 7 + k) % NP); } int v = (int)sx_enum(2, "variant"); auto db = mk(f, v); std::string c = "CMDA " + text + (v ? "\r\n" : "");
    SxBuf o(400); uint32_t n = 400; STATUS s = run(db, v, c, (char*)o.p, n, EF::BINARY); sx_assert(s == STATUS::SUCCESS, "a well-formed command converts"); if (s != STATUS::SUCCESS) return;
    Bytes w = expected(7, CRC); sx_assert(n == w.size(), "length of the message"); bool eq = sx_eq(o.p, w.data(), w.size() - 4); sx_assert(eq, "the message is the command's"); if (!eq) return; sx_assert(sx_eq(o.p + n - 4, w.data() + n - 4, 4), "the checksum is the message's"); sx_assert(o[n] == 0, "the message is terminated"); sx_reach("end");
}
HARNESS(k01_text) // the ASCII form decodes to the same values. case: kind of the first parameter
{
    sx_expect("end"); begin(); noStar = true; Fields f; int k = sx_case() % 100; param(f, k); if (sx_case() >= 100) { plain = true; param(f, (sx_case() / 100 * 7 + k) % NP); } auto db = mk(f); std::string c = "CMDA " + text; SxBuf o(500); uint32_t n = 500; sx_assert(run(db, sx_case() % 2, c, (char*)o.p, n, EF::ASCII) == STATUS::SUCCESS, "a well-formed command converts");
    sx_assert(n < 500 && o[n] == 0 && !memcmp(o.p, "#CMDAA,THISPORT,0,0.0,UNKNOWN,0,0.000,00000000,1111,0;", 54) && o[n - 11] == '*' && o[n - 2] == '\r' && o[n - 1] == '\n', "the text of the header and the end"); if (!(n < 500)) return;
    HeaderDecoder hd(db); MessageDecoder d(db); IntermediateHeader h; MetaDataStruct md; md.eFormat = HF::ASCII; md.uiLength = n; CompositeField a, b; sx_assert(hd.Decode(o.p, h, md) == STATUS::SUCCESS && d.Decode(o.p + md.uiHeaderLength, a, md) == STATUS::SUCCESS, "the message decodes"); sx_assert(h.usMessageId == 7, "identifier of the command");
    SxBuf w(wire.size()); memcpy(w.p, wire.data(), wire.size()); md.eFormat = HF::BINARY; md.uiBinaryMsgLength = (uint32_t)wire.size(); sx_assert(d.Decode(w.p, b, md) == STATUS::SUCCESS, "the expected body decodes");
    // the values are those the command gave
    Encoder e(db); SxBuf x(300), y(300); unsigned char *px = x.p, *py = y.p; MessageDataStruct mx, my; IntermediateHeader h2; h2.usMessageId = 7; h2.uiMessageDefinitionCrc = CRC;
    sx_assert(e.Encode(&px, 300, h2, a, mx, HF::BINARY, EF::BINARY) == STATUS::SUCCESS && e.Encode(&py, 300, h2, b, my, HF::BINARY, EF::BINARY) == STATUS::SUCCESS, "encodes"); sx_assert(mx.uiMessageLength == my.uiMessageLength && sx_eq(x.p, y.p, mx.uiMessageLength - 4), "the message has the command's parameters"); sx_reach("end");
}
HARNESS(k01_crc) // the checksum of the ASCII form, whatever one character of it. case: kind of the second parameter
{
    sx_expect("end"); begin(); Fields f{arr("a", FT::STRING, "%s", DT::CHAR, 8)}; text = "\"x"; text += (char)sx_range('a', 'z', "character"); text += '"'; wire.resize(4); plain = true; param(f, sx_case()); auto db = mk(f); std::string c = "CMDA " + text; SxBuf o(500); uint32_t n = 500; sx_assert(run(db, (int)sx_enum(2, "static"), c, (char*)o.p, n, EF::ASCII) == STATUS::SUCCESS, "a well-formed command converts");
    uint32_t crc = CalculateBlockCrc32(o.p + 1, n - 12); for (int i = 0; i < 8; ++i) { unsigned d = crc >> (28 - 4 * i) & 15; sx_assert(o[n - 10 + i] == d + '0' + (d > 9) * ('a' - '0' - 10), "the checksum is that of the text"); } sx_reach("end");
}
HARNESS(k01_none) // commands without parameters, or with fewer than the definition has. case: kind of the parameter
{
    sx_expect("end"); sx_expect("missing"); begin(); Fields f; int k = sx_case(); static const EF FM[] = {EF::BINARY, EF::ASCII}; EF e = FM[sx_enum(2, "format")]; plain = true; param(f, k); text.clear(); wire.clear(); auto db = mk(f); SxBuf o(300); uint32_t n = 300; auto what = sx_enum(2, "command"); std::string c = what ? "NOTHING" : "CMDA"; static const char* END[] = {"", " "}; c += END[sx_enum(2, "trailing space")]; STATUS s = run(db, (int)sx_enum(2, "static"), c, (char*)o.p, n, e);
    if (!what) { sx_assert(s == STATUS::MALFORMED_INPUT, "a command without its parameters is rejected"); sx_reach("missing"); return; }
    sx_assert(s == STATUS::SUCCESS, "a command that has no parameters converts"); if (e == EF::BINARY) { Bytes w = expected(38, 3); sx_assert(n == w.size() && sx_eq(o.p, w.data(), n), "the message is the command's"); } sx_reach("end");
}
HARNESS(k01_few) // a command of two parameters given only the first. case: kind of the first
{
    sx_expect("end"); begin(); Fields f; param(f, sx_case()); std::string c = "CMDA " + text; plain = true; param(f, (sx_case() * 7 + 3) % NP); auto db = mk(f); static const char* END[] = {"", " ", "\r\n"}; c += END[sx_enum(3, "end")]; SxBuf o(300); uint32_t n = 300; sx_assert(run(db, (int)sx_enum(2, "static"), c, (char*)o.p, n, EF::BINARY) != STATUS::SUCCESS, "a command without all its parameters is rejected"); sx_reach("end");
}
static const unsigned char CANARY = 0x5C;
HARNESS(k01_sizes) // every size of the output buffer. case: kind * 2 + format
{
    sx_expect("fits"); sx_expect("full"); begin(); Fields f; int k = sx_case() / 2; plain = true; param(f, k); param(f, 8); auto db = mk(f); std::string c = "CMDA " + text; EF e = sx_case() % 2 ? EF::ASCII : EF::BINARY; int how = (int)sx_enum(2, "static"); SxBuf ref(400); uint32_t need = 400; sx_assert(run(db, how, c, (char*)ref.p, need, e) == STATUS::SUCCESS, "a well-formed command converts");
    uint32_t size = sx_any<uint8_t>("size of the buffer"), top = need + 16; sx_assume(size <= top); SxBuf o(top); memset(o.p, CANARY, top); uint32_t n = size; STATUS s = run(db, how, c, (char*)o.p, n, e); size_t last = 0; for (size_t i = top; i > 0 && !last; --i) if (o[i - 1] != CANARY) last = i;
    sx_assert(last <= size, "nothing is written past the size given"); if (s == STATUS::SUCCESS) { sx_reach("fits"); sx_assert(n == need && size >= need && sx_eq(o.p, ref.p, need), "the same message whatever the size of the buffer"); } else { sx_reach("full"); sx_assert(s == STATUS::BUFFER_FULL && size < need + 8, "a small buffer is reported as full, a large enough one is not"); }
}
HARNESS(k01_any) // any text. case: number of characters + 100 * kind of the parameter + 10000 * a known name before them
{
    sx_expect("end"); begin(); Fields f; int k = sx_case() / 100 % 100; bool named = sx_case() >= 10000; plain = true; param(f, k); text.clear(); wire.clear(); auto db = mk(f); int n = sx_case() % 100; std::string c = named ? "CMDA " : ""; for (int i = 0; i < n; ++i) c += (char)sx_any<unsigned char>("character"); SxBuf o(200); uint32_t size = 200; bool threw = false; STATUS s = STATUS::UNKNOWN; try { s = run(db, (int)sx_enum(2, "static"), c, (char*)o.p, size, EF::BINARY); } catch (...) { threw = true; }
    sx_assert(!threw, "failure is reported by status");
    if (s == STATUS::SUCCESS) { sx_assert(size <= 200 && o[4] + 256 * o[5] == (c[0] == 'N' ? 38 : c[0] == 'L' ? 900 : 7), "only a known command converts"); uint32_t crc = CalculateBlockCrc32(o.p, size - 4); (void)crc; sx_assert(le(o.p + 8, 2) == size - 32, "the length of the body"); }
    sx_reach("end");
}
HARNESS(k01_name) // any name. case: number of characters
{
    sx_expect("end"); begin(); Fields f; param(f, 5); auto db = mk(f); int n = sx_case(); std::string c; for (int i = 0; i < n; ++i) { c += (char)sx_any<unsigned char>("character"); sx_assume(c[i] != ' '); } bool known = c == "CMDA"; bool log = c == "LOG", none = c == "NOTHING"; SxBuf o(200); uint32_t size = 200;
    STATUS s = run(db, (int)sx_enum(2, "static"), c + " " + text, (char*)o.p, size, EF::BINARY); if (!log && !none) sx_assert(s == (known ? STATUS::SUCCESS : STATUS::NO_DEFINITION), "a command converts if its name is defined"); sx_reach("end");
}
HARNESS(k01_long) // long commands. case: which length
{
    static const size_t L[] = {100, 3000, 32768, 32769, 40000, 70000, 32764, 32766, 32767}; sx_expect("end"); begin(); Fields f{arr("a", FT::STRING, "%s", DT::CHAR, 8)}; auto db = mk(f); size_t n = L[sx_case()]; std::string c = "CMDA \""; c.append(n, 'x'); c += '"'; c[6 + sx_enum(2, "place") * 50] = (char)sx_range('a', 'z', "character"); static const EF FM[] = {EF::BINARY, EF::ASCII}; EF e = FM[sx_enum(2, "format")]; size_t room = 40000; SxBuf o(room); uint32_t size = (uint32_t)room; STATUS s = run(db, (int)sx_enum(2, "static"), c, (char*)o.p, size, e);
    if (s == STATUS::SUCCESS) { sx_assert(size <= room && size > n && size < n + 120, "length of the message"); size_t at = e == EF::BINARY ? 28 : 55; bool same = true; for (size_t i = 0; i < n; ++i) same &= o[at + i] == (unsigned char)c[6 + i]; sx_assert(same, "the text is whole"); } else sx_assert(n > 32000, "a command of moderate length converts"); sx_reach("end");
}
HARNESS(k01_args) // missing pointers and databases, formats that no command has
{
    sx_expect("end"); begin(); Fields f; param(f, 5); auto db = mk(f); std::string c = "CMDA " + text; SxBuf o(200); uint32_t n = 200; static const EF FM[] = {EF::BINARY, EF::ASCII, EF::ABBREV_ASCII, EF::JSON, EF::FLATTENED_BINARY, EF::UNSPECIFIED}; size_t fm = sx_enum(6, "format"); auto what = sx_enum(5, "what"); STATUS s; char* op = (char*)o.p; uint32_t cl = (uint32_t)c.size(); bool good = true;
    if (what == 0) { Commander k(db); s = k.Encode(nullptr, cl, op, n, FM[fm]); good = false; sx_assert(s == STATUS::NULL_PROVIDED, "a missing command is reported"); }
    else if (what == 1) { Commander k(db); s = k.Encode(c.data(), cl, nullptr, n, FM[fm]); good = false; sx_assert(s == STATUS::NULL_PROVIDED, "a missing buffer is reported"); }
    else if (what == 2) { Commander k; s = k.Encode(c.data(), cl, op, n, FM[fm]); good = false; sx_assert(s == (fm > 1 ? STATUS::UNSUPPORTED : STATUS::NO_DATABASE), "a missing database is reported"); }
    else if (what == 3) { Commander k; k.LoadJsonDb(db); s = k.Encode(c.data(), cl, op, n, FM[fm]); }
    else { Fields g{simple("a", "%lu", DT::ULONG)}; Commander k(mk(g)); k.LoadJsonDb(db); s = k.Encode(c.data(), cl, op, n, FM[fm]); }
    if (good) { sx_assert(s == (fm > 1 ? STATUS::UNSUPPORTED : STATUS::SUCCESS), "binary and ASCII are the forms a command converts to, with the database loaded last"); if (fm == 0) { Bytes w = expected(7, CRC); sx_assert(n == w.size() && sx_eq(o.p, w.data(), n), "the message is the command's"); } }
    sx_reach("end");
}
