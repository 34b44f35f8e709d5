// P01, P02: the parser and the file parser. What each message of a stream must give is worked out from that message alone, with decoders, filter, decompressor and encoder of its own.
#include "rxconfig.cpp"
#include "novatel_edie/decoders/oem/parser.hpp"
#include <istream>
namespace std { struct sx_istream { Bytes data; size_t pos = 0, got = 0; bool end = false; void read(char* p, streamsize n) { got = 0; if (end) return; got = min((size_t)n, data.size() - pos); if (got) memcpy(p, data.data() + pos, got); pos += got; end = got < (size_t)n; } streamsize gcount() const { return (streamsize)got; } bool eof() const { return end; } void clear() { end = false; } void seekg(long o, ios_base::seekdir) { if (!end) pos = (size_t)o; } }; }
#define istream sx_istream // a stream over the bytes of the harness, as the standard defines it
#include "novatel_edie/decoders/oem/file_parser.hpp"
#undef istream
namespace novatel::edie { MessageDatabase::Ptr LoadJsonDbFile(const std::filesystem::path&) { return nullptr; } }
struct Opt { bool unknown = true, skipResp = true, decompress = true; int filter = 0; EF e = EF::ASCII; };
struct Item { Bytes raw; bool message = true; };
struct Exp { STATUS s; Bytes b; MetaDataStruct md; MessageDataStruct d; };
static Filter::Ptr mkFilter(const Opt& o) { if (!o.filter) return nullptr; auto f = std::make_shared<Filter>(); f->IncludeMessageId(43, HEADER_FORMAT::ALL, 0); if (o.filter == 2) f->InvertMessageIdFilter(true); return f; }
static Bytes bytes(const std::string& s) { return Bytes(s.begin(), s.end()); }
static Bytes text(const std::string& s) { std::string t = s + "*" + hex8(CalculateBlockCrc32((const unsigned char*)s.data() + 1, (uint32_t)s.size() - 1)) + "\r\n"; return bytes(t); }
static Bytes bin(uint16_t id, const Bytes& body, uint8_t type = 0, bool sh = false)
{
    Bytes b; if (sh) { put(b, 0x1344AA, 3); put(b, body.size(), 1); put(b, id, 2); put(b, 2107, 2); put(b, 345600123, 4); } else { fixedHeader = true; msPick = 3; b = header(id, body.size()); b[6] = type; }
    b.insert(b.end(), body.begin(), body.end()); put(b, CalculateBlockCrc32(b.data(), (uint32_t)b.size()), 4); return b;
}
static Bytes encoded(const Msg& m, const Bytes& raw, EF e) { HeaderDecoder hd(m.db); MessageDecoder d(m.db); Encoder en(m.db); IntermediateHeader h; MetaDataStruct md; CompositeField c; md.uiLength = (uint32_t)raw.size(); SxBuf in(raw.size() + 1); memcpy(in.p, raw.data(), raw.size()); in[raw.size()] = 0; sx_assert(hd.Decode(in.p, h, md) == STATUS::SUCCESS && d.Decode(in.p + md.uiHeaderLength, c, md) == STATUS::SUCCESS, "the sample decodes"); SxBuf o(1000); unsigned char* p = o.p; MessageDataStruct x; sx_assert(en.Encode(&p, 1000, h, c, x, md.eFormat, e) == STATUS::SUCCESS, "the sample encodes"); return Bytes(x.pucMessage, x.pucMessage + x.uiMessageLength); }
constexpr int NI = 18;
static Item item(const Msg& m, int k) // the definition of message 43 is one USHORT and a string
{
    auto body = [&](bool sym, const char* s) { Bytes b; uint16_t v = sym ? (uint16_t)(sx_any<uint8_t>("value") | 0x100) : (uint16_t)(300 + sx_enum(2, "value")); put(b, v, 2); put(b, 0, 2); addText(b, s); b.push_back(0); while (b.size() % 4) b.push_back(0); return b; };
    switch (k)
    {
    case 0: return {bin(43, body(true, "ab"))};
    case 1: return {bin(43, body(true, ""), 0, true)};
    case 2: return {encoded(m, bin(43, body(false, "a longer text")), EF::ASCII)};
    case 3: return {encoded(m, bin(43, body(false, "x"), 0, true), EF::ASCII)};
    case 4: return {encoded(m, bin(43, body(false, "yz")), EF::ABBREV_ASCII)};
    case 5: { Bytes in = bin(43, body(true, "cfg")); Bytes o(in.begin(), in.end() - 4); put(o, ~CalculateBlockCrc32(in.data(), (uint32_t)in.size() - 4) & 0xFFFFFFFF, 4); Bytes all = header(128, o.size()); all.insert(all.end(), o.begin(), o.end()); put(all, CalculateBlockCrc32(all.data(), (uint32_t)all.size()), 4); return {all}; }
    case 6: { Bytes b; put(b, 1, 4); addText(b, "OK"); put(b, 0, 2); return {bin(43, b, 0x82)}; }
    case 7: return {bytes("<OK\r\n")};
    case 8: return {bin(4321, {1, 2, (unsigned char)(sx_any<unsigned char>("value"))})};
    case 9: return {bytes("$GPALM,1,2*54\r\n")};
    case 10: { Bytes b; for (int i = 0; i < 2; ++i) { unsigned char c = sx_any<unsigned char>("junk"); sx_assume(c != 0xAA && c != '#' && c != '%' && c != '<' && c != '{' && c != '$' && c != '['); b.push_back(c); } return {b, false}; }
    case 11: return {bin(43, {7})};
    case 12: return {encoded(m, bin(43, body(false, "js")), EF::JSON), false}; // the parser frames no JSON
    case 13: { Bytes b = bin(43, body(false, "ab")); b.back() ^= 1; for (size_t i = 1; i < b.size(); ++i) sx_assert(!b[i] || !strchr("#%<$[\xAA", b[i]), "the sample holds no other beginning"); return {b, false}; }
    case 14: return {text("#RANGEA,COM1")};
    case 15: return {text("%RANGEA,2107")};
    case 16: { Bytes b; put(b, 1, 4); static const unsigned char OBS[24] = {0x04, 0x9C, 0x10, 0x08, 0x70, 0x3A, 0xFF, 0xFF, 0x7C, 0x0A, 0x5B, 0x14, 0x90, 0x2F, 0xC5, 0x27, 0x21, 0x06, 0x68, 0x30, 0x65, 0x00, 0x00, 0x00}; b.insert(b.end(), OBS, OBS + 24); return {bin(140, b)}; }
    default: return {bin(7, {1, 2, 3, 4})};
    }
}
static void expect(const Msg& m, const Item& it, const Opt& o, std::vector<Exp>& out)
{
    auto unknown = [&] { if (!o.unknown) return; if (!out.empty() && out.back().s == STATUS::UNKNOWN) out.back().b.insert(out.back().b.end(), it.raw.begin(), it.raw.end()); else out.push_back({STATUS::UNKNOWN, it.raw, {}, {}}); };
    if (!it.message) { unknown(); return; }
    HeaderDecoder hd(m.db); IntermediateHeader h; MetaDataStruct md; CompositeField c; size_t n = it.raw.size(); md.uiLength = (uint32_t)n; SxBuf in(n + 400); memcpy(in.p, it.raw.data(), n); in[n] = 0; if (n > 2 && in[0] == '<' && in[1] == 'O' && in[2] == 'K' && o.skipResp) return;
    if (hd.Decode(in.p, h, md) != STATUS::SUCCESS) { unknown(); return; }
    Filter::Ptr f = mkFilter(o); if (f && !f->DoFiltering(md)) return;
    if (o.decompress && md.usMessageId == 140) { RangeDecompressor r(m.db); STATUS s = r.Decompress(in.p, (uint32_t)n + 400, md); sx_assert(s == STATUS::SUCCESS && md.usMessageId == 43, "the sample decompresses"); if (s != STATUS::SUCCESS) return; h.usMessageId = md.usMessageId; }
    RxConfigHandler x(m.db); MessageDecoder d(m.db); bool cfg = RxConfigHandler::IsRxConfigTypeMsg(h.usMessageId); STATUS s = cfg ? x.Decode(in.p + md.uiHeaderLength, c, md) : d.Decode(in.p + md.uiHeaderLength, c, md); if (s == STATUS::NO_DEFINITION) { Bytes b(in.p, in.p + md.uiLength); out.push_back({s, b, md, {}}); return; } if (s != STATUS::SUCCESS) { unknown(); return; }
    Encoder e(m.db); SxBuf ob(3000); unsigned char* p = ob.p; MessageDataStruct mm; s = cfg ? x.Encode(&p, 3000, h, c, mm, o.e) : e.Encode(&p, 3000, h, c, mm, md.eFormat, o.e); if (s != STATUS::SUCCESS) return; Exp r{s, Bytes(mm.pucMessage, mm.pucMessage + mm.uiMessageLength), md, mm}; out.push_back(r);
}
static void collect(std::vector<Exp>& got, STATUS s, const MessageDataStruct& d, const MetaDataStruct& md) { sx_assert(d.pucMessage != nullptr && d.uiMessageLength > 0 && d.uiMessageLength <= MESSAGE_SIZE_MAX, "what is returned has bytes"); Bytes b(d.pucMessage, d.pucMessage + d.uiMessageLength); if (s == STATUS::UNKNOWN && !got.empty() && got.back().s == s) got.back().b.insert(got.back().b.end(), b.begin(), b.end()); else got.push_back({s, b, md, d}); }
static void drain(Parser& p, std::vector<Exp>& got, bool last, MessageDataStruct& d, MetaDataStruct& md, bool freshStructs)
{
    for (int i = 0; i < 60; ++i) { MessageDataStruct d2; MetaDataStruct m2; MessageDataStruct& D = freshStructs ? d2 : d; MetaDataStruct& M = freshStructs ? m2 : md; STATUS s = p.Read(D, M, last); if (s == STATUS::BUFFER_EMPTY) return; sx_assert(s == STATUS::SUCCESS || s == STATUS::UNKNOWN || s == STATUS::NO_DEFINITION, "a message, unknown bytes or a message without definition"); collect(got, s, D, M); }
    sx_assert(false, "reading comes to an end");
}
static void compare(const std::vector<Exp>& got, const std::vector<Exp>& want)
{
    sx_assert(got.size() == want.size(), "as many results as there are messages and runs of unknown bytes"); if (got.size() != want.size()) return;
    for (size_t i = 0; i < got.size(); ++i)
    {
        auto &g = got[i], &w = want[i]; sx_assert(g.s == w.s, "the result of a message alone"); if (g.s != w.s) return; sx_assert(g.b.size() == w.b.size() && sx_eq(g.b.data(), w.b.data(), w.b.size()), "the bytes of a message alone"); if (g.s == STATUS::UNKNOWN) continue;
        sx_assert(g.md.eFormat == w.md.eFormat && g.md.usMessageId == w.md.usMessageId && g.md.messageName == w.md.messageName && g.md.usWeek == w.md.usWeek && g.md.dMilliseconds == w.md.dMilliseconds && g.md.uiLength == w.md.uiLength && g.md.uiHeaderLength == w.md.uiHeaderLength && g.md.bResponse == w.md.bResponse && g.md.uiMessageCrc == w.md.uiMessageCrc, "the metadata of a message alone");
        if (g.s == STATUS::SUCCESS) sx_assert(g.d.pucMessageHeader - g.d.pucMessage == w.d.pucMessageHeader - w.d.pucMessage && g.d.pucMessageBody - g.d.pucMessage == w.d.pucMessageBody - w.d.pucMessage && g.d.uiMessageHeaderLength == w.d.uiMessageHeaderLength && g.d.uiMessageBodyLength == w.d.uiMessageBodyLength, "header and body of a message alone");
    }
    sx_reach("end");
}
static void setup(Parser& p, const Opt& o) { p.SetReturnUnknownBytes(o.unknown); p.SetIgnoreAbbreviatedAsciiResponses(o.skipResp); p.SetDecompressRangeCmp(o.decompress); p.SetEncodeFormat(o.e); p.SetFilter(mkFilter(o)); }
static Msg def() { extreme = 0; anyLen = 0; Msg m = rx({3, 34}); extreme = -1; anyLen = -1; return m; }
static void give(Parser& p, const Bytes& s, size_t from, size_t to) { SxBuf b(to - from); if (to > from) { memcpy(b.p, s.data() + from, to - from); sx_assert(p.Write(b.p, to - from) == to - from, "all is taken"); } }
static void stream(const Msg& m, const std::vector<Item>& its, const Opt& o, size_t cut, bool freshStructs)
{
    Bytes s; std::vector<Exp> want, got; for (auto& i : its) { s.insert(s.end(), i.raw.begin(), i.raw.end()); expect(m, i, o, want); }
    Parser p(m.db); setup(p, o); MessageDataStruct d; MetaDataStruct md; if (cut > s.size()) cut = s.size(); if (cut) { give(p, s, 0, cut); drain(p, got, false, d, md, freshStructs); } give(p, s, cut, s.size()); drain(p, got, false, d, md, freshStructs); drain(p, got, true, d, md, freshStructs); compare(got, want);
}
static const EF OUTS[] = {EF::ASCII, EF::BINARY, EF::ABBREV_ASCII, EF::JSON};
HARNESS(p01_pair) // case: first item * 100 + second
{
    sx_expect("end"); Msg m = def(); Opt o; o.e = OUTS[sx_enum(4, "output format")]; std::vector<Item> v{item(m, sx_case() / 100), item(m, sx_case() % 100)}; stream(m, v, o, 0, sx_enum(2, "new structures"));
}
HARNESS(p01_options) // case: item; between two plain messages
{
    sx_expect("end"); Msg m = def(); Opt o; o.e = EF::BINARY; o.unknown = sx_enum(2, "unknown bytes"); o.skipResp = sx_enum(2, "skip responses"); o.decompress = sx_enum(2, "decompress"); o.filter = (int)sx_enum(3, "filter"); std::vector<Item> v{item(m, 3), item(m, sx_case()), item(m, 0)}; stream(m, v, o, 0, false);
}
HARNESS(p01_cut) // two writes cut anywhere. case: item * 100 + second
{
    sx_expect("end"); Msg m = def(); Opt o; std::vector<Item> v{item(m, sx_case() / 100), item(m, sx_case() % 100)}; size_t n = v[0].raw.size() + v[1].raw.size(); stream(m, v, o, 1 + sx_enum(n - 1, "cut"), true);
}
HARNESS(p01_three) // sequences in which the third must not see the first. case: first * 100 + third
{
    sx_expect("end"); Msg m = def(); Opt o; o.e = EF::BINARY; o.skipResp = false; std::vector<Item> v{item(m, sx_case() / 100), item(m, 14 + (int)sx_enum(2, "second")), item(m, sx_case() % 100)}; stream(m, v, o, 0, false);
}
HARNESS(p01_flush) // a message cut short and flushed, then another. case: first * 100 + second
{
    sx_expect("end"); Msg m = def(); Opt o; Item a = item(m, sx_case() / 100), b = item(m, sx_case() % 100); std::vector<Exp> want, got; expect(m, b, o, want); Parser p(m.db); setup(p, o); MessageDataStruct d; MetaDataStruct md; size_t n = 1 + sx_enum(a.raw.size() - 1, "cut"); give(p, a.raw, 0, n); drain(p, got, false, d, md, false); size_t had = 0; for (auto& g : got) had += g.b.size();
    bool out = sx_enum(2, "keep"); SxBuf f(a.raw.size()); uint32_t k = out ? p.Flush(f.p, (uint32_t)f.n) : p.Flush(); sx_assert(k + had == n, "every byte is returned once"); if (out) sx_assert(sx_eq(f.p, a.raw.data() + had, k), "flushing returns the bytes held"); got.clear(); give(p, b.raw, 0, b.raw.size()); drain(p, got, false, d, md, false); drain(p, got, true, d, md, false); compare(got, want);
}
HARNESS(p01_any) // any bytes, then a message. case: number of bytes
{
    sx_expect("end"); Msg m = def(); Opt o; o.e = EF::BINARY; Bytes s; for (int i = 0; i < sx_case(); ++i) { s.push_back(sx_any<unsigned char>("byte")); if (i) sx_assume(!(s[i] == 'O' & s[i - 1] == '<')); /* a response */ } Parser p(m.db); setup(p, o); MessageDataStruct d; MetaDataStruct md; std::vector<Exp> got; give(p, s, 0, s.size()); drain(p, got, false, d, md, false); drain(p, got, true, d, md, false);
    Bytes all; for (auto& g : got) { sx_assert(g.s == STATUS::UNKNOWN, "no message in so few bytes"); all.insert(all.end(), g.b.begin(), g.b.end()); } size_t n = all.size(); SxBuf f(s.size()); n += p.Flush(f.p, (uint32_t)f.n); sx_assert(n == s.size(), "every byte is returned once"); sx_assert(sx_eq(all.data(), s.data(), all.size()) && sx_eq(f.p, s.data() + all.size(), s.size() - all.size()), "the bytes as they came"); sx_reach("end");
}
HARNESS(p01_intermediate) // the decoded structures. case: item
{
    sx_expect("end"); Msg m = def(); Opt o; o.e = OUTS[sx_enum(4, "output format")]; Item it = item(m, sx_case()), junk = item(m, 10); std::vector<Exp> want; expect(m, it, o, want); Bytes s = junk.raw; s.insert(s.end(), it.raw.begin(), it.raw.end()); Parser p(m.db); setup(p, o); give(p, s, 0, s.size()); MessageDataStruct d; MetaDataStruct md; IntermediateHeader h; CompositeField c; Encoder e(m.db); RxConfigHandler x(m.db); size_t i = 0; int end = 0; bool unk = false;
    for (int k = 0; k < 20 && end < 2; ++k) { STATUS st = p.ReadIntermediate(d, h, c, md, end); if (st == STATUS::BUFFER_EMPTY) { ++end; continue; } if (st == STATUS::UNKNOWN) { unk = true; continue; } sx_assert(i < want.size() && st == want[i].s, "the result of a message alone"); if (i >= want.size()) return; if (st == STATUS::SUCCESS) { SxBuf ob(3000); unsigned char* q = ob.p; MessageDataStruct mm; STATUS es = RxConfigHandler::IsRxConfigTypeMsg(h.usMessageId) ? x.Encode(&q, 3000, h, c, mm, o.e) : e.Encode(&q, 3000, h, c, mm, md.eFormat, o.e); sx_assert(es == STATUS::SUCCESS && mm.uiMessageLength == want[i].b.size() && sx_eq(mm.pucMessage, want[i].b.data(), want[i].b.size()), "the structures are those of a message alone"); sx_assert(d.uiMessageLength == md.uiLength && d.uiMessageBodyLength == md.uiLength - md.uiHeaderLength && d.pucMessageBody == d.pucMessage + md.uiHeaderLength, "the framed message and its body"); } ++i; }
    for (; i < want.size() && want[i].s == STATUS::UNKNOWN; ++i) {} sx_assert(unk && end == 2 && i == want.size(), "nothing is missed"); sx_reach("end");
}
// ---- P02
static void readAll(FileParser& f, std::vector<Exp>& got, bool freshStructs) { MessageDataStruct d; MetaDataStruct md; for (int i = 0; i < 400; ++i) { MessageDataStruct d2; MetaDataStruct m2; MessageDataStruct& D = freshStructs ? d2 : d; MetaDataStruct& M = freshStructs ? m2 : md; STATUS s = f.Read(D, M); if (s == STATUS::STREAM_EMPTY) { sx_assert(f.Read(D, M) == STATUS::STREAM_EMPTY, "the stream stays empty"); return; } sx_assert(s == STATUS::SUCCESS || s == STATUS::UNKNOWN || s == STATUS::NO_DEFINITION, "a message, unknown bytes or a message without definition"); collect(got, s, D, M); } sx_assert(false, "reading comes to an end"); }
static std::shared_ptr<std::sx_istream> file(const std::vector<Item>& v) { auto s = std::make_shared<std::sx_istream>(); for (auto& i : v) s->data.insert(s->data.end(), i.raw.begin(), i.raw.end()); return s; }
static void setup(FileParser& p, const Opt& o) { p.SetReturnUnknownBytes(o.unknown); p.SetIgnoreAbbreviatedAsciiResponses(o.skipResp); p.SetDecompressRangeCmp(o.decompress); p.SetEncodeFormat(o.e); p.SetFilter(mkFilter(o)); }
HARNESS(p02_file) // two messages, read twice. case: first * 100 + second
{
    sx_expect("end"); Msg m = def(); Opt o; o.e = EF::BINARY; std::vector<Item> v{item(m, sx_case() / 100), item(m, sx_case() % 100)}; std::vector<Exp> want, got, again; for (auto& i : v) expect(m, i, o, want); FileParser f(m.db); setup(f, o); bool fresh = sx_enum(2, "new structures"); sx_assert(f.SetStream(file(v)), "a stream is taken"); readAll(f, got, fresh); compare(got, want); auto counts = f.GetMessageCounts(); f.Reset(); sx_assert(f.GetMessageCounts().empty(), "the counts start again"); readAll(f, again, fresh); compare(again, want); sx_assert(f.GetMessageCounts().size() == counts.size(), "the same counts again");
}
HARNESS(p02_options) // case: item, the last of the stream
{
    sx_expect("end"); Msg m = def(); Opt o; o.e = OUTS[sx_enum(4, "output format")]; o.unknown = sx_enum(2, "unknown bytes"); o.skipResp = sx_enum(2, "skip responses"); o.decompress = sx_enum(2, "decompress"); o.filter = (int)sx_enum(3, "filter"); std::vector<Item> v{item(m, 3), item(m, sx_case())}; std::vector<Exp> want, got; for (auto& i : v) expect(m, i, o, want); FileParser f(m.db); setup(f, o); sx_assert(f.GetReturnUnknownBytes() == o.unknown && f.GetIgnoreAbbreviatedAsciiResponses() == o.skipResp && f.GetDecompressRangeCmp() == o.decompress && f.GetEncodeFormat() == o.e && (f.GetFilter() != nullptr) == (o.filter != 0), "options read back"); sx_assert(f.SetStream(file(v)), "a stream is taken"); readAll(f, got, false); compare(got, want);
}
HARNESS(p02_chunk) // a message across the end of one read of the stream. case: item; MESSAGE_SIZE_MAX bytes are read at a time
{
    sx_expect("end"); Msg m = def(); Opt o; o.e = EF::BINARY; Item junk; junk.message = false; Item it = item(m, sx_case()); size_t n = it.raw.size(); static const int AT[] = {0, 1, 2, 3, 11, 27}; size_t before = MESSAGE_SIZE_MAX - (sx_enum(2, "end") ? n - AT[sx_enum(6, "place")] % n : AT[sx_enum(6, "place")]); junk.raw.assign(before, 'j'); std::vector<Item> v{junk, it, item(m, 1)}; std::vector<Exp> want, got; for (auto& i : v) expect(m, i, o, want); FileParser f(m.db); setup(f, o); sx_assert(f.SetStream(file(v)), "a stream is taken"); readAll(f, got, false); compare(got, want);
}
HARNESS(p02_args) // no stream, an empty one, one replaced by another
{
    sx_expect("end"); Msg m = def(); Opt o; o.e = EF::BINARY; FileParser f(m.db); setup(f, o); MessageDataStruct d; MetaDataStruct md; IntermediateHeader h; CompositeField c; Item a = item(m, 0), b = item(m, 2); std::vector<Exp> want, got;
    switch (sx_enum(5, "what"))
    {
    case 0: sx_assert(f.Read(d, md) == STATUS::STREAM_EMPTY && f.ReadIntermediate(d, h, c, md) == STATUS::STREAM_EMPTY, "without a stream there is nothing to read"); break;
    case 1: sx_assert(!f.SetStream(nullptr), "no stream"); sx_assert(f.Read(d, md) == STATUS::STREAM_EMPTY, "without a stream there is nothing to read"); break;
    case 2: sx_assert(f.SetStream(file({})), "an empty stream"); sx_assert(f.Read(d, md) == STATUS::STREAM_EMPTY, "an empty stream"); break;
    case 3: { auto e = file({a}); e->end = true; sx_assert(!f.SetStream(e), "a stream at its end"); break; }
    default: { Item part = a; part.raw.resize(part.raw.size() - 3); sx_assert(f.SetStream(file({b, part})), "a stream is taken"); sx_assert(f.Read(d, md) == STATUS::SUCCESS, "its first message"); (void)f.Read(d, md); sx_assert(f.SetStream(file({b, a})), "another stream"); expect(m, b, o, want); expect(m, a, o, want); readAll(f, got, false); compare(got, want); }
    }
    sx_reach("end");
}
