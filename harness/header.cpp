// H01-H04: header decoding against an independent reading of the documented layout.
#include "oem.hpp"
#include "novatel_edie/decoders/oem/header_decoder.hpp"
using HF = HEADER_FORMAT;
static MessageDatabase::Ptr db;
static HeaderDecoder* dec;
static const char* const NAMES[] = {"ABC", "RANGE", "POSB"};
static const uint16_t IDS[] = {7, 43, 0x8F21};
extern "C" void sx_setup()
{
    db = mkDb({mkMsg(7, "ABC", {{0x1111, {simple("a", "%lu", DATA_TYPE::ULONG)}}}), mkMsg(43, "RANGE", {{0x2222, {simple("a", "%lu", DATA_TYPE::ULONG)}}}), mkMsg(0x8F21, "POSB", {{0x3333, {simple("a", "%lu", DATA_TYPE::ULONG)}}})});
    dec = new HeaderDecoder(db);
}
// header and metadata objects as a previous message may have left them
static IntermediateHeader usedHeader()
{
    IntermediateHeader h; h.usMessageId = sx_any<uint16_t>("old id"); h.ucMessageType = sx_any<uint8_t>("old type"); h.uiPortAddress = sx_any<uint32_t>("old port"); h.usLength = sx_any<uint16_t>("old length"); h.usSequence = sx_any<uint16_t>("old sequence"); h.ucIdleTime = sx_any<uint8_t>("old idle"); h.uiTimeStatus = sx_any<uint32_t>("old status"); h.usWeek = sx_any<uint16_t>("old week"); h.dMilliseconds = 12345.0; h.uiReceiverStatus = sx_any<uint32_t>("old rx"); h.uiMessageDefinitionCrc = sx_any<uint32_t>("old crc"); h.usReceiverSwVersion = sx_any<uint16_t>("old version"); return h;
}
static MetaDataStruct usedMeta() { MetaDataStruct m; m.bResponse = true; m.ucSiblingId = 9; m.usWeek = 999; m.dMilliseconds = 5; m.usMessageId = 4; m.uiMessageCrc = 8; m.uiHeaderLength = 77; m.uiBinaryMsgLength = 55; m.messageName = "OLD"; m.eFormat = HF::NMEA; m.uiLength = 123; return m; }
static void checkMeta(const MetaDataStruct& m, HF f, uint32_t id, uint32_t type, uint32_t ts, uint32_t week, uint32_t ms, uint32_t crc, uint32_t hl, uint32_t bl)
{
    sx_assert(m.eFormat == f, "format"); sx_assert(m.usMessageId == id, "metadata id"); sx_assert(m.ucSiblingId == (type & 0x1F), "sibling from the low five bits of the type"); sx_assert(m.bResponse == ((type & 0x80) != 0), "response flag from the top bit of the type");
    sx_assert((uint32_t)m.eTimeStatus == ts, "metadata time status"); sx_assert(m.usWeek == week, "metadata week"); sx_assert(m.dMilliseconds == (double)ms, "metadata milliseconds"); sx_assert(m.uiMessageCrc == crc, "metadata definition CRC"); sx_assert(m.uiHeaderLength == hl, "header length"); sx_assert(m.uiBinaryMsgLength == bl, "binary payload length");
}
static void checkName(const MetaDataStruct& m, uint32_t id) { for (int i = 0; i < 3; ++i) if (id == IDS[i]) { sx_reach("known"); sx_assert(m.messageName == NAMES[i], "message name of the identifier"); return; } sx_assert(m.messageName == "UNKNOWN", "name of an unknown identifier"); sx_reach("unknown"); }

HARNESS(h01_long)
{
    sx_expect("known"); sx_expect("unknown"); SxBuf b(28, "header"); b[0] = 0xAA; b[1] = 0x44; b[2] = 0x12;
    IntermediateHeader h = usedHeader(); MetaDataStruct m = usedMeta();
    sx_assert(dec->Decode(b.p, h, m) == STATUS::SUCCESS, "a binary header decodes");
    uint32_t id = (uint32_t)le(&b[4], 2);
    sx_assert(h.usMessageId == id, "message id"); sx_assert(h.ucMessageType == b[6], "message type"); sx_assert(h.uiPortAddress == b[7], "port"); sx_assert(h.usLength == le(&b[8], 2), "payload length"); sx_assert(h.usSequence == le(&b[10], 2), "sequence"); sx_assert(h.ucIdleTime == b[12], "idle time"); sx_assert(h.uiTimeStatus == b[13], "time status"); sx_assert(h.usWeek == le(&b[14], 2), "week"); sx_assert(h.dMilliseconds == (double)le(&b[16], 4), "milliseconds"); sx_assert(h.uiReceiverStatus == le(&b[20], 4), "receiver status"); sx_assert(h.uiMessageDefinitionCrc == le(&b[24], 2), "definition CRC"); sx_assert(h.usReceiverSwVersion == le(&b[26], 2), "software version");
    checkMeta(m, HF::BINARY, id, b[6], b[13], (uint32_t)le(&b[14], 2), (uint32_t)le(&b[16], 4), (uint32_t)le(&b[24], 2), 28, (uint32_t)le(&b[8], 2)); checkName(m, id);
}
HARNESS(h01_short)
{
    sx_expect("known"); sx_expect("unknown"); SxBuf b(12, "header"); b[0] = 0xAA; b[1] = 0x44; b[2] = 0x13;
    IntermediateHeader h = usedHeader(); MetaDataStruct m = usedMeta();
    sx_assert(dec->Decode(b.p, h, m) == STATUS::SUCCESS, "a short binary header decodes");
    uint32_t id = (uint32_t)le(&b[4], 2), w = (uint32_t)le(&b[6], 2), ms = (uint32_t)le(&b[8], 4);
    sx_assert(h.usMessageId == id, "message id"); sx_assert(h.usLength == b[3], "payload length"); sx_assert(h.usWeek == w, "week"); sx_assert(h.dMilliseconds == (double)ms, "milliseconds");
    sx_assert(h.ucMessageType == 0 && h.uiPortAddress == 0 && h.usSequence == 0 && h.ucIdleTime == 0 && h.uiReceiverStatus == 0 && h.uiMessageDefinitionCrc == 0 && h.usReceiverSwVersion == 0, "fields a short header does not carry have their defaults");
    sx_assert(h.uiTimeStatus == (uint32_t)TIME_STATUS::UNKNOWN, "time status of a short header");
    checkMeta(m, HF::SHORT_BINARY, id, 0, (uint32_t)TIME_STATUS::UNKNOWN, w, ms, 0, 12, b[3]); checkName(m, id);
}
// the decoder's own structures, as another part of the library uses them
HARNESS(h01_layout)
{
    sx_expect("end"); SxBuf b(28, "header"); Oem4BinaryHeader s; memcpy((void*)&s, b.p, 28); Oem4BinaryShortHeader t; memcpy((void*)&t, b.p, 12);
    sx_assert(sizeof s == 28 && sizeof t == 12, "header sizes"); sx_assert(s.usMsgNumber == le(&b[4], 2) && s.usLength == le(&b[8], 2) && s.uiWeekMSec == le(&b[16], 4) && s.uiStatus == le(&b[20], 4) && s.usMsgDefCrc == le(&b[24], 2), "long header positions"); sx_assert(t.ucLength == b[3] && t.usMessageId == le(&b[4], 2) && t.usWeekNo == le(&b[6], 2) && t.uiWeekMSec == le(&b[8], 4), "short header positions"); sx_reach("end");
}
HARNESS(h01_null)
{
    sx_expect("end"); IntermediateHeader h; MetaDataStruct m; sx_assert(dec->Decode(nullptr, h, m) == STATUS::NULL_PROVIDED, "null buffer"); HeaderDecoder e; SxBuf b(28, "header"); sx_assert(e.Decode(b.p, h, m) == STATUS::NO_DATABASE, "no database"); sx_assert(e.GetMessageCounts().empty() && dec->GetMessageCounts().empty(), "nothing counted"); sx_reach("end");
}
// ---- text
struct Txt { Bytes b; size_t body; };
static const char* const IDLE[] = {"0.0", "0.5", "7.0", "52.5", "99.5", "100.0"}; static const int IDLEV[] = {0, 1, 14, 105, 199, 200};
static const struct { const char* s; uint32_t ms; } SECS[] = {{"0.000", 0}, {"0.001", 1}, {"1.001", 1001}, {"0.57", 570}, {"270605.000", 270605000}, {"324434.057", 324434057}, {"4.35", 4350}, {"604799.999", 604799999}, {"172189", 172189000}};
static uint64_t digits(Bytes& b, size_t n, uint64_t max, const char* nm) // a decimal number of n digits, at most max
{
    size_t o = b.size(); b.resize(o + n); sx_bytes(&b[o], n, nm); uint64_t v = 0; for (size_t i = 0; i < n; ++i) { sx_assume(b[o + i] >= '0' && b[o + i] <= '9'); v = v * 10 + (b[o + i] - '0'); } sx_assume(v <= max); return v;
}
static uint64_t hexDigits(Bytes& b, size_t n, const char* nm) // n hexadecimal digits, lower or upper case
{
    uint64_t v = sx_any<uint64_t>(nm); if (n < 16) v &= (1ull << (4 * n)) - 1; bool up = sx_enum(2, "case");
    for (size_t i = n; i-- > 0;) { unsigned char d = (unsigned char)(v >> (4 * i) & 15); b.push_back((unsigned char)(d + (d < 10 ? '0' : (up ? 'A' - 10 : 'a' - 10)))); }
    return v;
}
struct Want { uint32_t name, sib = 0, fmt = 0, resp = 0, port = 0, seq = 0, idle = 0, ts = 0, week = 0, ms = 0, rx = 0, crc = 0, ver = 0; };
static void nameField(Bytes& b, Want& w, bool text)
{
    w.name = (uint32_t)sx_enum(3, "name"); addText(b, NAMES[w.name]); w.sib = 0;
    // #NAMEA, #NAMER; abbreviated names have no suffix
    if (text) { w.resp = (uint32_t)sx_enum(2, "response"); b.push_back(w.resp ? 'R' : 'A'); w.fmt = 1; } else w.fmt = 2;
    if (sx_enum(2, "sibling")) { b.push_back('_'); w.sib = (uint32_t)digits(b, 1, 9, "sibling digit"); }
}
// case = kind * 100 + number widths selector
static void run(Want& w, const Bytes& src, HF f, size_t hl)
{
    SxBuf b(src.size() + 1); memcpy(b.p, src.data(), src.size()); b[src.size()] = 0;
    IntermediateHeader h = usedHeader(); MetaDataStruct m = usedMeta();
    sx_assert(dec->Decode(b.p, h, m) == STATUS::SUCCESS, "a well-formed text header decodes");
    sx_assert(h.usMessageId == IDS[w.name], "message id of the name"); sx_assert((h.ucMessageType & 0x1F) == w.sib, "sibling of the name"); sx_assert((h.ucMessageType >> 7) == w.resp, "response suffix"); sx_assert((h.ucMessageType >> 5 & 3) == w.fmt, "format suffix");
    sx_assert(h.uiPortAddress == w.port, "port"); sx_assert(h.usSequence == w.seq, "sequence"); sx_assert(h.ucIdleTime == w.idle, "idle time in half percents"); sx_assert(h.uiTimeStatus == w.ts, "time status"); sx_assert(h.usWeek == w.week, "week"); double d = h.dMilliseconds - (double)w.ms; sx_assert(d < 1e-3 && d > -1e-3, "milliseconds"); sx_assert(h.uiReceiverStatus == w.rx, "receiver status"); sx_assert(h.uiMessageDefinitionCrc == w.crc, "definition CRC"); sx_assert(h.usReceiverSwVersion == w.ver, "software version"); sx_assert(h.usLength == 0, "payload length is only known from binary headers");
    checkMeta(m, f, IDS[w.name], w.sib | w.resp << 7, w.ts, w.week, w.ms, w.crc, (uint32_t)hl, 0); sx_assert(m.messageName == NAMES[w.name], "message name");
    sx_assert(Oem4BinaryHeader(h).uiWeekMSec == w.ms && Oem4BinaryShortHeader(h).uiWeekMSec == w.ms, "the time read is the time a binary header gets"); sx_reach("end");
}
HARNESS(h02_long) // case: bit 0 abbreviated; /2 selects which field is symbolic (0 name, 1 port and status, 2 sequence, 3 week, 4 seconds and idle, 5 receiver status, 6 CRC, 7 version); /16 its width
{
    sx_expect("end"); int c = sx_case(); bool ab = c & 1; int sel = c / 2 % 8; size_t wd = (size_t)(c / 16) + 1; Want w; Bytes b; char s = ab ? ' ' : ','; b.push_back(ab ? '<' : '#');
    auto sep = [&] { b.push_back((unsigned char)s); };
    if (sel == 0) nameField(b, w, !ab); else { w.name = 1; addText(b, ab ? "RANGE" : "RANGEA"); w.fmt = ab ? 2 : 1; } sep();
    auto p = sel == 1 ? sx_enum(6, "port") : 1; addText(b, PORTS[p].n); w.port = PORTS[p].v; sep();
    if (sel == 2) w.seq = (uint32_t)digits(b, wd, 65535, "sequence"); else { addText(b, "17"); w.seq = 17; } sep();
    auto i = sel == 4 ? sx_enum(6, "idle") : 3; addText(b, IDLE[i]); w.idle = (uint32_t)IDLEV[i]; sep();
    auto t = sel == 1 ? sx_enum(6, "status") : 4; addText(b, TSTAT[t].n); w.ts = TSTAT[t].v; sep();
    if (sel == 3) w.week = (uint32_t)digits(b, wd, 65535, "week"); else { addText(b, "2107"); w.week = 2107; } sep();
    auto q = sel == 4 ? sx_enum(9, "seconds") : 5; addText(b, SECS[q].s); w.ms = SECS[q].ms; sep();
    if (sel == 5) w.rx = (uint32_t)hexDigits(b, wd, "receiver status"); else { addText(b, "0200080f"); w.rx = 0x0200080f; } sep();
    if (sel == 6) w.crc = (uint32_t)hexDigits(b, wd, "definition CRC"); else { addText(b, "f3b9"); w.crc = 0xf3b9; } sep();
    if (sel == 7) w.ver = (uint32_t)digits(b, wd, 65535, "version"); else { addText(b, "16248"); w.ver = 16248; }
    addText(b, ab ? "\r\n" : ";"); size_t hl = b.size(); addText(b, ab ? "<     1 2 3\r\n" : "1,2,3*"); run(w, b, ab ? HF::ABB_ASCII : HF::ASCII, hl);
}
HARNESS(h02_short) // case: bit 0 abbreviated; /2 selects (0 name, 1 week, 2 seconds); /16 width
{
    sx_expect("end"); int c = sx_case(); bool ab = c & 1; int sel = c / 2 % 8; size_t wd = (size_t)(c / 16) + 1; Want w; Bytes b; char s = ab ? ' ' : ','; b.push_back(ab ? '<' : '%');
    if (sel == 0) nameField(b, w, !ab); else { w.name = 0; addText(b, ab ? "ABC" : "ABCA"); w.fmt = ab ? 2 : 1; } b.push_back((unsigned char)s);
    if (sel == 1) w.week = (uint32_t)digits(b, wd, 65535, "week"); else { addText(b, "2107"); w.week = 2107; } b.push_back((unsigned char)s);
    auto q = sel == 2 ? sx_enum(9, "seconds") : 5; addText(b, SECS[q].s); w.ms = SECS[q].ms;
    addText(b, ab ? "\r\n" : ";"); size_t hl = b.size(); addText(b, ab ? "<     1 2 3\r\n" : "1,2,3*"); run(w, b, ab ? HF::SHORT_ABB_ASCII : HF::SHORT_ASCII, hl);
}
// JSON header. case selects the varied field
HARNESS(h02_json)
{
    sx_expect("end"); int c = sx_case(); Bytes b; Want w; auto num = [&](int sel, uint32_t d, size_t n, uint64_t max, const char* nm) -> uint32_t { if (c / 10 == sel && n) { size_t k = (size_t)(c % 10) + 1; if (k > n) k = n; uint64_t v = digits(b, k, max, nm); if (k > 1) sx_assume(b[b.size() - k] != '0'); return (uint32_t)v; } std::string s = std::to_string(d); addText(b, s.c_str()); return d; };
    addText(b, "{\"header\": {\"message\": \"RANGE\",\"id\": "); uint32_t id = num(1, 43, 5, 65535, "id");
    addText(b, ",\"port\": \""); auto p = c / 10 == 0 ? sx_enum(6, "port") : 1; addText(b, PORTS[p].n); w.port = PORTS[p].v;
    addText(b, "\",\"sequence_num\": "); w.seq = num(2, 17, 5, 65535, "sequence"); addText(b, ",\"percent_idle_time\": "); auto i = c / 10 == 4 ? sx_enum(6, "idle") : 3; addText(b, IDLE[i]); w.idle = (uint32_t)IDLEV[i];
    addText(b, ",\"time_status\": \""); auto t = c / 10 == 0 ? sx_enum(6, "status") : 4; addText(b, TSTAT[t].n); w.ts = TSTAT[t].v; addText(b, "\",\"week\": "); w.week = num(3, 2107, 5, 65535, "week"); addText(b, ",\"seconds\": "); auto q = c / 10 == 4 ? sx_enum(9, "seconds") : 5; addText(b, SECS[q].s); w.ms = SECS[q].ms;
    addText(b, ",\"receiver_status\": "); w.rx = num(5, 123456789, 7, 0xFFFFFFFF, "receiver status"); addText(b, ",\"HEADER_reserved1\": "); w.crc = num(6, 62393, 7, 0xFFFFFFFF, "crc"); addText(b, ",\"receiver_sw_version\": "); w.ver = num(7, 16248, 5, 65535, "version"); addText(b, "},\"body\": {}}");
    SxBuf x(b.size() + 1); memcpy(x.p, b.data(), b.size()); x[b.size()] = 0; IntermediateHeader h = usedHeader(); MetaDataStruct m = usedMeta();
    sx_assert(dec->Decode(x.p, h, m) == STATUS::SUCCESS, "a JSON header decodes"); double d = h.dMilliseconds - (double)w.ms;
    sx_assert(h.usMessageId == id && h.uiPortAddress == w.port && h.usSequence == w.seq && h.ucIdleTime == w.idle && h.uiTimeStatus == w.ts && h.usWeek == w.week && d < 1e-3 && d > -1e-3 && h.uiReceiverStatus == w.rx && h.uiMessageDefinitionCrc == w.crc && h.usReceiverSwVersion == w.ver && h.ucMessageType == 0, "JSON header fields"); sx_assert(m.eFormat == HF::JSON && m.usMessageId == id && m.usWeek == w.week && m.dMilliseconds == (double)w.ms && m.uiMessageCrc == w.crc && !m.bResponse && m.ucSiblingId == 0, "JSON header metadata"); sx_reach("end");
}
HARNESS(h02_resp) // abbreviated responses have no header
{
    sx_expect("end"); Bytes b; addText(b, sx_enum(2, "kind") ? "<ERROR:" : "<OK"); size_t o = b.size(); b.resize(o + 4); sx_bytes(&b[o], 4, "text"); addText(b, "\r\n"); SxBuf x(b.size() + 1); memcpy(x.p, b.data(), b.size()); x[b.size()] = 0; IntermediateHeader h = usedHeader(); MetaDataStruct m = usedMeta();
    sx_assert(dec->Decode(x.p, h, m) == STATUS::SUCCESS, "a response decodes"); sx_assert(m.bResponse && m.uiHeaderLength == 1 && m.eFormat == HF::ABB_ASCII && (h.ucMessageType & 0x80), "response flagged, header is the sync character"); sx_reach("end");
}
// ---- malformed
static bool alpha(unsigned char c) { return ((c >= 'A') & (c <= 'Z')) | ((c >= 'a') & (c <= 'z')); }
static bool digit(unsigned char c) { return (c >= '0') & (c <= '9'); }
// an independent reading of the header grammar: is the text a header of the form its first character announces?
static bool field(const Bytes& b, size_t& p, char kind, const char* delim, uint64_t max)
{
    auto at = [&](size_t i) -> unsigned char { return i < b.size() ? b[i] : 0; };
    unsigned char f = at(p); if (kind == 'a' ? !alpha(f) : kind == 'x' ? !isHex(f) : !digit(f)) return false;
    size_t e = p; while (at(e) && at(e) != (unsigned char)delim[0]) ++e; if (!at(e)) return false;
    size_t dn = strlen(delim); for (size_t i = 0; i < dn; ++i) if (at(e + i) != (unsigned char)delim[i]) return false;
    if (kind == 'd' || kind == 'x') { uint64_t v = 0; for (size_t i = p; i < e; ++i) { unsigned char ch = b[i]; if (kind == 'd' ? !digit(ch) : !isHex(ch)) break; v = v * (kind == 'd' ? 10 : 16) + (digit(ch) ? ch - '0' : (ch | 32) - 'a' + 10); if (v > max) return false; } }
    p = e + dn; return true;
}
static bool accepts(const Bytes& b, bool& shortAbb)
{
    size_t p = 1; shortAbb = false; if (b.empty()) return false;
    if (b[0] == '#') return field(b, p, 'a', ",", 0) && field(b, p, 'a', ",", 0) && field(b, p, 'd', ",", 65535) && field(b, p, 'f', ",", 0) && field(b, p, 'a', ",", 0) && field(b, p, 'd', ",", 65535) && field(b, p, 'f', ",", 0) && field(b, p, 'x', ",", 0xFFFFFFFF) && field(b, p, 'x', ",", 0xFFFFFFFF) && field(b, p, 'd', ";", 65535);
    if (b[0] == '%') return field(b, p, 'a', ",", 0) && field(b, p, 'd', ",", 65535) && field(b, p, 'f', ";", 0);
    if (b[0] == '<')
    {
        if (b.size() > 2 && b[1] == 'O' && b[2] == 'K') return true;
        if (b.size() > 5 && memcmp(&b[1], "ERROR", 5) == 0) return true;
        if (!field(b, p, 'a', " ", 0)) return false;
        if (field(b, p, 'a', " ", 0)) return field(b, p, 'd', " ", 65535) && field(b, p, 'f', " ", 0) && field(b, p, 'a', " ", 0) && field(b, p, 'd', " ", 65535) && field(b, p, 'f', " ", 0) && field(b, p, 'x', " ", 0xFFFFFFFF) && field(b, p, 'x', " ", 0xFFFFFFFF) && field(b, p, 'd', "\r\n", 65535);
        shortAbb = true; return field(b, p, 'd', " ", 65535) && field(b, p, 'f', "\r\n", 0);
    }
    return false;
}
static void decide(const Bytes& src, bool exact = true)
{
    SxBuf b(src.size() + 1); memcpy(b.p, src.data(), src.size()); b[src.size()] = 0; IntermediateHeader h = usedHeader(); MetaDataStruct m = usedMeta(); STATUS s = dec->Decode(b.p, h, m); bool sa, ok = accepts(src, sa);
    if (s == STATUS::SUCCESS) { sx_reach("accepted"); sx_assert(ok, "a malformed header is rejected"); } else { sx_reach("rejected"); if (exact) sx_assert(!ok, "a well-formed header is accepted"); }
}
// every buffer of n bytes after the leading character: case = n * 8 + kind
HARNESS(h03_any)
{
    sx_expect("rejected"); int c = sx_case(), n = c / 8, k = c % 8; static const char L[] = "#%<$?"; Bytes b; b.push_back(k < 5 ? (unsigned char)L[k] : 0xAA); if (k == 6) b.push_back(0x44); size_t o = b.size(); b.resize(o + (size_t)n); if (n) sx_bytes(&b[o], (size_t)n, "text");
    if (k == 4) sx_assume(false); if (k >= 5) sx_assume(b.size() < 3 || !(b[1] == 0x44 && (b[2] == 0x12 || b[2] == 0x13)));
    decide(b, false);
}
HARNESS(h03_first) // an unknown leading byte, whatever follows
{
    sx_expect("rejected"); SxBuf b(29, "header"); b[28] = 0; unsigned char f = b[0]; sx_assume(f != '#' && f != '%' && f != '<' && f != '{' && !(f == 0xAA && b[1] == 0x44 && (b[2] == 0x12 || b[2] == 0x13)));
    IntermediateHeader h = usedHeader(); MetaDataStruct m = usedMeta(); STATUS s = dec->Decode(b.p, h, m); sx_assert(s == (f == '$' ? STATUS::UNSUPPORTED : STATUS::UNKNOWN), "no known form starts like this"); sx_assert(dec->GetMessageCounts().empty(), "nothing counted"); sx_reach("rejected");
}
static const char* const GOOD[] = {"#RANGEA,COM1,17,52.5,FINE,2107,32.5,0200080f,f3b9,16248;1", "%ABCA,2107,32.5;1", "<RANGE COM1 17 52.5 FINE 2107 32.5 0200080f f3b9 16248\r\n<", "<ABC 2107 32.5\r\n<"};
// one character of a well-formed header replaced by any byte: case = header * 100 + position
HARNESS(h03_byte)
{
    sx_expect("rejected"); int c = sx_case(); Bytes b; addText(b, GOOD[c / 100]); size_t p = (size_t)(c % 100); sx_assume(p < b.size());
    // number characters of the floating-point fields are left alone (their library conversion is enumerated)
    sx_bytes(&b[p], 1, "byte"); if (p == 0) sx_assume(b[0] != '{' && b[0] != 0xAA); decide(b);
}
// a well-formed header cut at every position: case = header * 100 + position
HARNESS(h03_cut)
{
    sx_expect("rejected"); int c = sx_case(); Bytes b; addText(b, GOOD[c / 100]); size_t p = (size_t)(c % 100); b.resize(p); decide(b);
}
HARNESS(h03_json) // case: malformed JSON
{
    sx_expect("rejected"); static const char* const J[] = {"{", "{}", "{\"header\"", "{\"header\": {\"id\": }}", "{\"body\": {}}", "{\"header\": {\"id\": 7}", "{\"header\": {\"id\": 7,}}", "{'header': {}}"}; int c = sx_case(); Bytes b; addText(b, J[c]); SxBuf x(b.size() + 1); memcpy(x.p, b.data(), b.size()); x[b.size()] = 0; IntermediateHeader h = usedHeader(); MetaDataStruct m = usedMeta(); sx_assert(dec->Decode(x.p, h, m) != STATUS::SUCCESS, "malformed JSON is rejected"); sx_reach("rejected");
}
// ---- counts
using Key = HeaderDecoder::MessageCountsKey;
HARNESS(h04_history) // case: decimal digits select the kinds of the messages decoded in turn (1 binary, 2 short binary, 3 ASCII, 4 abbreviated, 5 malformed, 6 short ASCII, 7 reset)
{
    sx_expect("end"); int c = sx_case(); std::vector<std::pair<Key, uint64_t>> want; IntermediateHeader h; MetaDataStruct m;
    auto inc = [&](uint16_t id, HF f, uint8_t s) { if (id == 0) return; for (auto& e : want) if (std::get<0>(e.first) == id && std::get<1>(e.first) == f && std::get<2>(e.first) == s) { ++e.second; return; } want.push_back({Key(id, f, s), 1}); };
    for (; c; c /= 10)
    {
        int k = c % 10; Bytes b; STATUS s;
        if (k == 1 || k == 2) { SxBuf x(k == 1 ? 28 : 12, "header"); x[0] = 0xAA; x[1] = 0x44; x[2] = k == 1 ? 0x12 : 0x13; sx_assume(x[4] < 4 && x[5] == 0); s = dec->Decode(x.p, h, m); sx_assert(s == STATUS::SUCCESS, "decodes"); inc((uint16_t)le(&x[4], 2), k == 1 ? HF::BINARY : HF::SHORT_BINARY, k == 1 ? x[6] & 0x1F : 0); continue; }
        if (k == 7) { dec->ResetMessageCounts(); want.clear(); continue; }
        bool known = true; const char* t = k == 3 ? "#RANGEA,COM1,17,52.5,FINE,2107,32.5,0200080f,f3b9,16248;1" : k == 4 ? "<ABC 2107 32.5\r\n<" : k == 5 ? "#RANGEA,COM1,17,52.5,FINE,2107,32.5,0200080f,f3b9;1" : "%ABCA_3,2107,32.5;1"; (void)known; addText(b, t); b.push_back(0); SxBuf x(b.size()); memcpy(x.p, b.data(), b.size()); s = dec->Decode(x.p, h, m); sx_assert((s == STATUS::SUCCESS) == (k != 5), "status");
        if (k == 3) inc(43, HF::ASCII, 0); else if (k == 4) inc(7, HF::SHORT_ABB_ASCII, 0); else if (k == 6) inc(7, HF::SHORT_ASCII, 3);
    }
    auto& got = dec->GetMessageCounts(); sx_assert(got.size() == want.size(), "one counter per identifier, format and origin"); for (auto& e : want) { auto it = got.find(e.first); sx_assert(it != got.end() && it->second == e.second, "each counter equals the number of messages decoded"); } sx_reach("end");
}
