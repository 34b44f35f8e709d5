// F01-F08, F10, F11: framers.
#include "frame.hpp"

static void writeAll(AnyFramer& f, const Bytes& s, size_t from, size_t to) { if (to > from) sx_assert(f.base().Write(s.data() + from, to - from) == to - from, "the framer accepts what fits its buffer"); }
static void finish(AnyFramer& f, const Bytes& s, size_t pos, int what)
{
    SxBuf out(s.size() - pos); uint32_t n = f.base().Flush(out.p, (uint32_t)out.n);
    if (what & W_CONS) { sx_assert(n == out.n, "flushing returns every byte still held"); sx_assert(n == 0 || sx_eq(out.p, s.data() + pos, n), "flushing returns the held bytes in order"); }
}
static void whole(int sel, const Bytes& s, int what)
{
    AnyFramer f(sel, s.size() + 8); size_t pos = 0; writeAll(f, s, 0, s.size());
    drain(f, s, s.size(), pos, (uint32_t)s.size() + 4, what); finish(f, s, pos, what); sx_reach("end");
}
// case = framer * 100 + n : n unconstrained bytes
static void any(int what) { sx_expect("end"); Bytes s; addSym(s, (size_t)(sx_case() % 100), "input"); whole(sx_case() / 100, s, what); }
HARNESS(f01_any) { any(W_FORM); }
HARNESS(f02_any) { any(W_CONS); }
HARNESS(f06_any) { any(W_BOUND); }
// case = framer*10000 + kind*1000 + p*100 + before*10 + after : one message, any checksum, between unconstrained bytes
struct Shape { int sel, kind; size_t p, before, after; };
static Shape shape() { int c = sx_case(); return {c / 10000, c / 1000 % 10, (size_t)(c / 100 % 10), (size_t)(c / 10 % 10), (size_t)(c % 10)}; }
static Bytes oneFrame(const Shape& h, bool valid)
{
    Bytes s; addSym(s, h.before, "before"); g_plain = !valid; Bytes f = frameOf(h.kind, h.p, valid); g_plain = false; s.insert(s.end(), f.begin(), f.end()); addSym(s, h.after, "after"); return s;
}
// the first thing returned for a message whose header, content and checksum are all unconstrained
HARNESS(f01_first)
{
    Shape h = shape(); sx_expect("frame"); Bytes s; g_plain = h.sel == S_OEM || h.sel == S_OEMJSON; Bytes m = frameOf(h.kind, h.p, false); g_plain = false; s.insert(s.end(), m.begin(), m.end()); addSym(s, h.after, "after");
    AnyFramer f(h.sel, s.size() + 8); writeAll(f, s, 0, s.size()); SxBuf out(s.size()); STATUS st = f.get(out.p, (uint32_t)s.size());
    if (st == STATUS::SUCCESS) { sx_assert(f.md.uiLength <= s.size(), "length within the data"); wellFormed(out.p, f.md.uiLength, f.md.eFormat); sx_reach("frame"); }
}
HARNESS(f01_frame) { sx_expect("frame"); Shape h = shape(); whole(h.sel, oneFrame(h, false), W_FORM); }
HARNESS(f02_frame) { sx_expect("frame"); Shape h = shape(); whole(h.sel, oneFrame(h, false), W_CONS); }
HARNESS(f06_frame) { sx_expect("frame"); Shape h = shape(); whole(h.sel, oneFrame(h, false), W_BOUND); }

// ---- F03: bytes that cannot start a message, then a valid one
static bool startsHere(int sel, const Bytes& s, size_t i, size_t n) // n: bytes of the junk
{
    unsigned char c = s[i]; bool second = i + 1 < n, third = i + 2 < n;
    switch (sel)
    {
    case S_ASCII: return c == '#';
    case S_SHORTASCII: return c == '%';
    case S_ABB: return c == '<';
    case S_BIN: return (c == 0xAA) & (!second || s[i + 1] == 0x44) & (!third || s[i + 2] == 0x12) & (second);
    case S_SHORTBIN: return (c == 0xAA) & (!second || s[i + 1] == 0x44) & (!third || s[i + 2] == 0x13) & (second);
    default: return (c == '#') | (c == '%') | (c == '$') | (c == '<') | ((sel == S_OEMJSON) & (c == '{')) | ((c == 0xAA) & (second && ((s[i + 1] == 0x44) | (s[i + 1] == 0x45))));
    }
}
static size_t expectJunk(AnyFramer& f, const Bytes& s, size_t junk, uint32_t outsz)
{
    size_t pos = 0;
    while (pos < junk)
    {
        SxBuf out(outsz); STATUS st = f.get(out.p, outsz);
        sx_assert(st == STATUS::UNKNOWN && f.md.uiLength > 0 && f.md.uiLength <= junk - pos, "bytes before the message are reported as unknown"); sx_assert(sx_eq(out.p, s.data() + pos, f.md.uiLength), "unknown bytes are the input bytes"); pos += f.md.uiLength;
    }
    return pos;
}
static void expectFrame(AnyFramer& f, const Bytes& s, size_t pos, size_t len, int kind, uint32_t outsz)
{
    SxBuf out(outsz); STATUS st = f.get(out.p, outsz);
    sx_assert(st == STATUS::SUCCESS, "a valid message is returned"); sx_assert(f.md.uiLength == len, "at its true length"); sx_assert(f.md.eFormat == formatOf(kind), "with its true format");
    sx_assert(sx_eq(out.p, s.data() + pos, len), "byte for byte"); sx_assert(f.md.bResponse == (kind == K_ABBRESP), "the response flag is set exactly for responses"); sx_reach("frame");
}
HARNESS(f03_junk) // shape; before = junk bytes
{
    sx_expect("frame"); Shape h = shape(); Bytes s; addSym(s, h.before, "junk"); Bytes m = frameOf(h.kind, h.p, true); s.insert(s.end(), m.begin(), m.end());
    for (size_t i = 0; i < h.before; ++i) sx_assume(!startsHere(h.sel, s, i, h.before));
    size_t end = s.size(); if (h.kind == K_ABB) addText(s, "\r\n"); addSym(s, h.after, "after");
    AnyFramer f(h.sel, s.size() + 8); writeAll(f, s, 0, s.size()); size_t pos = expectJunk(f, s, h.before, (uint32_t)s.size()); expectFrame(f, s, pos, end - pos, h.kind, (uint32_t)s.size());
}
// long junk: more than the look-ahead window, with any byte at the borders of the window
HARNESS(f03_long) // case = framer*10000 + kind*1000 + run/100
{
    sx_expect("frame"); int c = sx_case(); int sel = c / 10000, kind = c / 1000 % 10; size_t run = (size_t)(c % 1000); Bytes s(run, 'x');
    for (size_t i : {(size_t)0, (size_t)254, (size_t)255, (size_t)256, run - 1}) if (i < run) { sx_bytes(&s[i], 1, "junk"); sx_assume(!isSync(s[i]) || (s[i] == 0xAA && i + 1 < run && i + 1 != 255 && i + 1 != 256)); }
    Bytes m = frameOf(kind, 1 + 4 * (kind == K_NMEA), true); s.insert(s.end(), m.begin(), m.end()); size_t end = s.size(); if (kind == K_ABB) addText(s, "\r\n");
    AnyFramer f(sel, s.size() + 8); writeAll(f, s, 0, s.size()); size_t pos = expectJunk(f, s, run, (uint32_t)s.size()); expectFrame(f, s, pos, end - pos, kind, (uint32_t)s.size());
}
// a message cut short (anywhere) by a new, complete message: the complete one is not lost. Abbreviated text and JSON have no
// checksum, so there a cut message and what follows it are one message by definition.
HARNESS(f03_cut) // shape: kind = the message cut short, after = kind of the complete message, p = its size, before = payload length announced by a binary message cut short / 10
{
    Shape h = shape(); sx_expect("frame"); Bytes a;
    switch (h.kind)
    {
    case K_BIN: case K_PROP: add(a, {0xAA, h.kind == K_PROP ? 0x45 : 0x44, 0x12, 28, 42, 0, 2, 32, (int)h.before * 10, 0}); while (a.size() < 31) a.push_back((unsigned char)a.size()); break;
    case K_SHORTBIN: add(a, {0xAA, 0x44, 0x13, (int)h.before * 10}); while (a.size() < 15) a.push_back((unsigned char)a.size()); break;
    case K_NMEA: addText(a, "$GPGGA,1,2*7"); break;
    default: addText(a, h.kind == K_ASCII ? "#BESTPOSA,COM1;1,2*1234567" : "%BESTPOSA,COM1;1,2*1234567"); break;
    }
    size_t junk = 1 + (size_t)sx_enum(a.size(), "kept"); Bytes s(a.begin(), a.begin() + (long)junk);
    g_light = true; g_fixed = h.kind <= K_PROP; Bytes m = frameOf((int)h.after, h.p, true); g_light = g_fixed = false; s.insert(s.end(), m.begin(), m.end()); size_t end = s.size();
    // enough data after it for the abandoned message to be judged
    for (int i = 0; i < 120; ++i) s.push_back(i % 40 == 38 ? '\r' : i % 40 == 39 ? '\n' : 'x');
    AnyFramer f(h.sel, s.size() + 8); writeAll(f, s, 0, s.size()); size_t pos = 0; bool found = false;
    for (size_t g = 0; g < s.size() && !found; ++g)
    {
        SxBuf out(s.size()); STATUS st = f.get(out.p, (uint32_t)s.size()); if (st == STATUS::INCOMPLETE || st == STATUS::BUFFER_EMPTY) break;
        if (pos == junk) { sx_assert(st == STATUS::SUCCESS && f.md.uiLength == end - junk, "the complete message after an abandoned one is returned"); found = true; }
        pos += f.md.uiLength;
    }
    if (found) sx_reach("frame");
}
// ---- F04: the same stream, cut anywhere
struct Rec { int type; HEADER_FORMAT fmt; size_t len; };
static void collect(AnyFramer& f, const Bytes& s, size_t avail, size_t& pos, std::vector<Rec>& r)
{
    for (size_t g = 0; g < s.size() + 3; ++g)
    {
        SxBuf out(s.size() + 1); STATUS st = f.get(out.p, (uint32_t)s.size() + 1);
        if (st == STATUS::BUFFER_EMPTY || st == STATUS::INCOMPLETE) return;
        sx_assert((st == STATUS::SUCCESS || st == STATUS::UNKNOWN) && f.md.uiLength > 0 && f.md.uiLength <= avail - pos, "bytes are returned once");
        sx_assert(sx_eq(out.p, s.data() + pos, f.md.uiLength), "bytes are returned in order"); pos += f.md.uiLength;
        if (st == STATUS::UNKNOWN) { if (!r.empty() && r.back().type == 0) r.back().len += f.md.uiLength; else r.push_back({0, HEADER_FORMAT::UNKNOWN, f.md.uiLength}); }
        else { r.push_back({1, f.md.eFormat, f.md.uiLength}); sx_reach("frame"); }
    }
    sx_assert(false, "the framer keeps returning without consuming its input");
}
static void cutCheck(int sel, const Bytes& s, size_t nd)
{
    std::vector<Rec> a, b;
    { AnyFramer f(sel, s.size() + 8); size_t pos = 0; writeAll(f, s, 0, s.size()); collect(f, s, s.size(), pos, a); a.push_back({2, HEADER_FORMAT::UNKNOWN, s.size() - pos}); }
    AnyFramer f(sel, s.size() + 8); f.freshMeta = sx_enum(2, "new metadata object per call") != 0; size_t pos = 0, cut = 1 + (size_t)sx_enum(s.size() - 1, "cut"), cut2 = nd > 1 ? cut + (size_t)sx_enum(s.size() - cut, "second cut") : cut;
    writeAll(f, s, 0, cut); collect(f, s, cut, pos, b); if (cut2 > cut) { writeAll(f, s, cut, cut2); collect(f, s, cut2, pos, b); } writeAll(f, s, cut2, s.size()); collect(f, s, s.size(), pos, b); b.push_back({2, HEADER_FORMAT::UNKNOWN, s.size() - pos});
    // what is still held may be reported as unknown later: compare the frames, and unknown bytes with what is held
    auto norm = [](std::vector<Rec> v) { std::vector<Rec> o; for (auto& r : v) { int t = r.type == 1 ? 1 : 0; if (!r.len) continue; if (t == 0 && !o.empty() && o.back().type == 0) o.back().len += r.len; else o.push_back({t, r.fmt, r.len}); } return o; };
    auto x = norm(a), y = norm(b); sx_assert(x.size() == y.size(), "the same messages are found however the input was cut");
    for (size_t i = 0; i < x.size() && i < y.size(); ++i) sx_assert(x[i].type == y[i].type && x[i].len == y[i].len && (x[i].type == 0 || x[i].fmt == y[i].fmt), "each message has the same length and format however the input was cut");
    sx_assert(a.back().len == b.back().len, "the same bytes are still held"); sx_reach("end");
}
HARNESS(f04_any) { sx_expect("end"); Bytes s; addSym(s, (size_t)(sx_case() % 100), "input"); cutCheck(sx_case() / 100, s, 2); }
HARNESS(f04_frame) { sx_expect("frame"); Shape h = shape(); Bytes s = oneFrame(h, true); cutCheck(h.sel, s, 1); }
HARNESS(f04_bytes) // one byte at a time
{
    sx_expect("frame"); Shape h = shape(); Bytes s = oneFrame(h, true); if (h.kind == K_ABB) addText(s, "\r\n"); size_t end = s.size() - (h.kind == K_ABB ? 2 : 0); AnyFramer f(h.sel, s.size() + 8); f.freshMeta = sx_enum(2, "new metadata object per call") != 0; size_t pos = 0; std::vector<Rec> r;
    for (size_t i = 0; i < s.size(); ++i) { writeAll(f, s, i, i + 1); collect(f, s, i + 1, pos, r); }
    sx_assert(!r.empty() && r[0].type == 1 && r[0].len == end && r[0].fmt == formatOf(h.kind), "a message arriving byte by byte is found");
}
// ---- F05: output buffers too small
static void smallOut(int sel, const Bytes& s)
{
    AnyFramer f(sel, s.size() + 8); writeAll(f, s, 0, s.size()); size_t pos = 0; uint32_t small = (uint32_t)sx_enum(s.size() + 1, "output size"); bool sawFull = false;
    for (size_t g = 0;; ++g)
    {
        if (g > 3 * s.size() + 4) { sx_assert(false, "the framer keeps returning without consuming its input"); return; }
        uint32_t n = sawFull ? (uint32_t)s.size() : small; SxBuf out(n); STATUS st = f.get(out.p, n); size_t len = f.md.uiLength;
        if (st == STATUS::BUFFER_EMPTY || st == STATUS::INCOMPLETE) { sx_assert(!sawFull || st == STATUS::INCOMPLETE, "a message that did not fit is still there"); break; }
        if (st == STATUS::BUFFER_FULL) { sx_assert(!sawFull, "a buffer as large as the whole input is never too small"); sawFull = true; sx_reach("full"); continue; }
        sx_assert(len > 0 && len <= n, "the reported length fits the caller's buffer"); sx_assert(len <= s.size() - pos && sx_eq(out.p, s.data() + pos, len), "the bytes returned are the next bytes of the input");
        if (st == STATUS::SUCCESS) { if (sawFull) sx_reach("retry"); sx_reach("frame"); }
        pos += len; sawFull = false;
    }
}
HARNESS(f05_any) { Bytes s; addSym(s, (size_t)(sx_case() % 100), "input"); smallOut(sx_case() / 100, s); }
HARNESS(f05_frame) { sx_expect("retry"); Shape h = shape(); smallOut(h.sel, oneFrame(h, true)); }
HARNESS(f05_bad) { Shape h = shape(); smallOut(h.sel, oneFrame(h, false)); }
HARNESS(f05_run) // a run of unknown bytes longer than any look-ahead, any output size around the window
{
    sx_expect("end"); int sel = sx_case(); Bytes s(600, 'x'); sx_bytes(&s[0], 1, "junk"); sx_assume(!isSync(s[0])); AnyFramer f(sel, 700); writeAll(f, s, 0, s.size()); size_t pos = 0;
    static const uint32_t Z[] = {1, 2, 100, 255, 256, 257, 599, 600, 601}; uint32_t n = Z[sx_enum(9, "output size")];
    for (size_t g = 0; g < 700; ++g)
    {
        SxBuf out(n); STATUS st = f.get(out.p, n); if (st == STATUS::BUFFER_EMPTY) break;
        sx_assert(st == STATUS::UNKNOWN && f.md.uiLength > 0 && f.md.uiLength <= n && f.md.uiLength <= s.size() - pos, "unknown bytes come out in pieces that fit"); sx_assert(sx_eq(out.p, s.data() + pos, f.md.uiLength), "in order"); pos += f.md.uiLength;
    }
    sx_assert(pos == s.size(), "all unknown bytes come out"); sx_reach("end");
}
// ---- F07: flush, then like new
static void flushCheck(int sel, const Bytes& s, int kind)
{
    Bytes m = frameOf(kind, 5, true); size_t ml = m.size(); if (kind == K_ABB) addText(m, "\r\n");
    AnyFramer f(sel, s.size() + m.size() + 8); writeAll(f, s, 0, s.size()); size_t pos = 0; drain(f, s, s.size(), pos, (uint32_t)s.size() + 4, 0);
    size_t held = s.size() - pos; if (held) sx_reach("held"); int mode = (int)sx_enum(held > 1 ? 2 : 1, "flush in two steps");
    if (mode) { SxBuf o(1); sx_assert(f.base().Flush(o.p, 1) == 1 && o.p[0] == s[pos], "a partial flush returns the first byte held"); ++pos; --held; }
    SxBuf o(held + 3); uint32_t n = f.base().Flush(o.p, (uint32_t)o.n); sx_assert(n == held, "flushing returns every byte still held"); sx_assert(n == 0 || sx_eq(o.p, s.data() + pos, n), "flushing returns the held bytes in order");
    SxBuf e(4); f.freshMeta = sx_enum(2, "new metadata object") != 0; sx_assert(f.get(e.p, 4) == STATUS::BUFFER_EMPTY, "nothing is held after a flush");
    writeAll(f, m, 0, m.size()); expectFrame(f, m, 0, ml, kind, (uint32_t)m.size());
}
HARNESS(f07_cut) // shape: prefix of a valid message held, flushed, then a message of kind `after`
{
    sx_expect("held"); sx_expect("frame"); Shape h = shape(); Bytes a = frameOf(h.kind, h.p, true); size_t k = 1 + (size_t)sx_enum(a.size() - 1, "kept"); Bytes s(a.begin(), a.begin() + (long)k); flushCheck(h.sel, s, h.sel == S_OEM || h.sel == S_OEMJSON ? (int)h.after : h.kind);
}
HARNESS(f07_any) { sx_expect("held"); sx_expect("frame"); int c = sx_case(); Bytes s; addSym(s, (size_t)(c / 10 % 10), "input"); flushCheck(c / 100, s, c % 10); }
// ---- F08: payload only (binary formats of the OEM framer)
HARNESS(f08_payload) // case = kind1*1000 + p1*100 + kind2*10 + p2
{
    sx_expect("both"); int c = sx_case(); int k[2] = {c / 1000, c / 10 % 10}; size_t p[2] = {(size_t)(c / 100 % 10), (size_t)(c % 10)}; Bytes s; size_t at[2], len[2];
    for (int i = 0; i < 2; ++i) { at[i] = s.size(); Bytes m = frameOf(k[i], p[i], true); s.insert(s.end(), m.begin(), m.end()); len[i] = m.size(); }
    AnyFramer f(S_OEM, s.size() + 8); f.base().SetPayloadOnly(true); writeAll(f, s, 0, s.size());
    for (int i = 0; i < 2; ++i)
    {
        bool bin = k[i] <= K_PROP; size_t hl = k[i] == K_SHORTBIN ? 12 : bin ? 28 : 0, want = bin ? p[i] : len[i]; uint32_t n = (uint32_t)(want + sx_enum(2, "spare")); if (!n) n = 1; if (bin && n < hl) n = (uint32_t)hl;
        SxBuf out(n); memset(out.p, 0x5A, n); sx_assert(f.get(out.p, n) == STATUS::SUCCESS, "each message is returned"); sx_assert(f.md.uiLength == want, "payload length"); sx_assert(f.md.eFormat == formatOf(k[i]), "format");
        sx_assert(want == 0 || sx_eq(out.p, s.data() + at[i] + hl, want), "exactly the payload bytes"); for (size_t j = want; j < n; ++j) sx_assert(out.p[j] == 0x5A, "nothing beyond the payload is written");
    }
    SxBuf e(4); sx_assert(f.get(e.p, 4) == STATUS::BUFFER_EMPTY, "exactly the two messages were consumed"); sx_reach("both");
}
// ---- F10: abbreviated ASCII
HARNESS(f10_log) // case = framer*1000 + lines*100 + textlen*10 + before : header line, body lines, anything after
{
    sx_expect("frame"); int c = sx_case(); int sel = c / 1000, lines = c / 100 % 10; size_t tl = (size_t)(c / 10 % 10), before = (size_t)(c % 10); Bytes s; addSym(s, before, "before"); for (size_t i = 0; i < before; ++i) sx_assume(!isSync(s[i]));
    addText(s, "<"); size_t h = s.size(); addSym(s, 3, "name"); for (size_t i = 0; i < 3; ++i) sx_assume(((s[h + i] >= 'A') & (s[h + i] <= 'Z')) | ((s[h + i] >= 'a') & (s[h + i] <= 'z'))); sx_assume(!((s[h] == 'O') & (s[h + 1] == 'K'))); addText(s, "\r\n");
    for (int l = 0; l < lines; ++l) { addText(s, "< "); size_t o = s.size(); addSym(s, tl, "text"); for (size_t i = 0; i < tl; ++i) sx_assume((s[o + i] < 128) & (s[o + i] != '\r')); addText(s, "\r\n"); }
    size_t end = s.size(); addSym(s, 2, "after"); sx_assume(!((s[end] == '<') & (s[end + 1] == ' ')));
    AnyFramer f(sel, s.size() + 8); writeAll(f, s, 0, s.size()); size_t pos = expectJunk(f, s, before, (uint32_t)s.size());
    sx_assert(pos == before, "bytes before the log are unknown"); expectFrame(f, s, pos, end - pos, K_ABB, (uint32_t)s.size());
    drain(f, s, s.size(), end, (uint32_t)s.size(), W_CONS); finish(f, s, end, W_CONS);
}
HARNESS(f10_resp) // case = framer*100 + which*10 + textlen
{
    sx_expect("frame"); int c = sx_case(); size_t tl = (size_t)(c % 10); Bytes s; addText(s, c / 10 % 10 ? "<ERROR" : "<OK"); size_t o = s.size(); addSym(s, tl, "text"); for (size_t i = 0; i < tl; ++i) sx_assume((s[o + i] < 128) & (s[o + i] != '\r')); addText(s, "\r\n");
    size_t end = s.size(); addSym(s, 2, "after"); AnyFramer f(c / 100, s.size() + 8); writeAll(f, s, 0, s.size()); expectFrame(f, s, 0, end, K_ABBRESP, (uint32_t)s.size()); drain(f, s, s.size(), end, (uint32_t)s.size(), W_CONS);
}
HARNESS(f10_alone) // a line that is neither a response nor followed by a body line is not a message
{
    sx_expect("end"); int sel = sx_case(); Bytes s; addText(s, "<"); addSym(s, 2, "name"); sx_assume(!((s[1] == 'O') & (s[2] == 'K'))); for (int i = 1; i < 3; ++i) sx_assume(s[i] >= 'A' && s[i] <= 'Z'); addText(s, "\r\n"); addSym(s, 2, "after"); sx_assume(!((s[5] == '<') & (s[6] == ' ')));
    AnyFramer f(sel, 32); writeAll(f, s, 0, s.size()); SxBuf out(16); STATUS st = f.get(out.p, 16); sx_assert(st == STATUS::UNKNOWN, "an abbreviated header without a body is unknown"); size_t pos = f.md.uiLength; drain(f, s, s.size(), pos, 16, W_CONS); finish(f, s, pos, W_CONS); sx_reach("end");
}
// ---- F11: two messages of any kinds, same or new metadata object
HARNESS(f11_two) // case = framer*1000 + kind1*100 + kind2*10 + p
{
    sx_expect("frame"); int c = sx_case(); int sel = c / 1000, k1 = c / 100 % 10, k2 = c / 10 % 10; size_t p = (size_t)(c % 10); Bytes s = frameOf(k1, p, true); size_t a = s.size(); Bytes m = frameOf(k2, p, true); s.insert(s.end(), m.begin(), m.end()); size_t b = s.size();
    if (k2 == K_ABB) addText(s, "\r\n"); AnyFramer f(sel, s.size() + 8); f.freshMeta = sx_enum(2, "new metadata object per call") != 0; writeAll(f, s, 0, s.size());
    expectFrame(f, s, 0, a, k1, (uint32_t)s.size()); expectFrame(f, s, a, b - a, k2, (uint32_t)s.size());
}
// a rejected message of one kind does not change what is reported for the next one
HARNESS(f11_after_bad) // case = kind1*10 + kind2
{
    sx_expect("frame"); int c = sx_case(); int k1 = c / 10, k2 = c % 10; g_plain = true; Bytes s = frameOf(k1, k1 <= K_PROP ? 5 : 1, true); g_plain = false; size_t a = s.size(); sx_assume(a > 12); for (size_t i = 1; i < a; ++i) sx_assume(!isSync(s[i]));
    unsigned char& x = s[a - (k1 <= K_PROP ? 1 : k1 == K_NMEA ? 4 : 3)]; unsigned char old = x; x = sx_any<unsigned char>("corrupted checksum digit"); sx_assume(x != old && !isSync(x) && (k1 <= K_PROP || (x >= '0' && x <= '9')));
    Bytes m = frameOf(k2, 5, true); s.insert(s.end(), m.begin(), m.end()); size_t b = s.size(); if (k2 == K_ABB) addText(s, "\r\n");
    AnyFramer f(S_OEM, s.size() + 8); writeAll(f, s, 0, s.size()); size_t pos = expectJunk(f, s, a, (uint32_t)s.size()); expectFrame(f, s, pos, b - pos, k2, (uint32_t)s.size());
}
// ---- F09: the framer manager
struct AnyManager
{
    FramerManager m; MetaDataBase* md = nullptr;
    static std::vector<std::string> names(int cfg)
    {
        switch (cfg)
        {
        case 0: return {"OEM_ASCII", "OEM_ABB_ASCII", "OEM_BINARY", "OEM_ASCII_SHORT", "OEM_BINARY_SHORT"};
        case 1: return {"OEM"};
        case 2: return {"OEM_BINARY", "OEM_ASCII"};
        case 3: return {"OEM_ABB_ASCII", "OEM_BINARY_SHORT"};
        case 4: return {"OEM_ASCII_SHORT", "no such framer"};
        case 5: return {"OEM_BINARY_SHORT", "OEM_ASCII_SHORT", "OEM_BINARY", "OEM_ASCII", "OEM_ABB_ASCII"};
        default: return {};
        }
    }
    static bool has(int cfg, int kind)
    {
        switch (cfg)
        {
        case 0: case 5: return kind == K_ASCII || kind == K_ABB || kind == K_ABBRESP || kind == K_BIN || kind == K_SHORTASCII || kind == K_SHORTBIN;
        case 1: return kind != K_JSON;
        case 2: return kind == K_BIN || kind == K_ASCII;
        case 3: return kind == K_ABB || kind == K_ABBRESP || kind == K_SHORTBIN;
        case 4: return kind == K_SHORTASCII;
        default: return false;
        }
    }
    AnyManager(int cfg) : m(names(cfg)) { m.SetReportUnknownBytes(true); }
    STATUS get(unsigned char* p, uint32_t n) { return m.GetFrame(p, n, md); }
};
static bool syncOf(int cfg, unsigned char c)
{
    bool r = false; auto h = [&](int k) { return AnyManager::has(cfg, k); };
    if (h(K_BIN) || h(K_SHORTBIN) || h(K_PROP)) r |= c == 0xAA;
    if (h(K_ASCII)) r |= c == '#'; if (h(K_SHORTASCII)) r |= c == '%'; if (h(K_NMEA)) r |= c == '$'; if (h(K_ABB)) r |= c == '<';
    return r;
}
static void managerDrain(AnyManager& f, int cfg, const Bytes& s, size_t avail, size_t& pos, std::vector<Rec>* r)
{
    for (size_t g = 0; g < s.size() + 4; ++g)
    {
        SxBuf out(s.size() + 1); memset(out.p, 0xCD, out.n); STATUS st = f.get(out.p, (uint32_t)out.n);
        if (st == STATUS::BUFFER_EMPTY) { sx_assert(pos == avail, "empty is reported only when every byte was returned"); return; }
        if (st == STATUS::INCOMPLETE) { sx_assert(pos < avail, "incomplete is reported only while bytes are held"); return; }
        sx_assert(st == STATUS::SUCCESS || st == STATUS::UNKNOWN, "the manager reports success, unknown bytes, incomplete or empty"); sx_assert(f.md != nullptr, "metadata is provided"); size_t len = f.md->uiLength;
        sx_assert(len > 0 && len <= avail - pos, "the reported length covers only bytes supplied and not yet returned"); sx_assert(sx_eq(out.p, s.data() + pos, len), "bytes are returned in order"); for (size_t i = len; i < out.n; ++i) sx_assert(out.p[i] == 0xCD, "no byte beyond the reported length is written"); pos += len;
        if (st == STATUS::SUCCESS)
        {
            wellFormed(out.p, len, f.md->eFormat); sx_reach("frame"); bool reg = false; for (int k = 0; k < K_JSON; ++k) reg |= AnyManager::has(cfg, k) && formatOf(k) == f.md->eFormat; sx_assert(reg, "only registered formats are reported");
            if (r) r->push_back({1, f.md->eFormat, len});
        }
        else { sx_assert(f.md->eFormat == HEADER_FORMAT::UNKNOWN, "unknown bytes carry the unknown format"); if (r) { if (!r->empty() && r->back().type == 0) r->back().len += len; else r->push_back({0, HEADER_FORMAT::UNKNOWN, len}); } }
    }
    sx_assert(false, "the manager keeps returning without consuming its input");
}
static void managerWrite(AnyManager& f, const Bytes& s, size_t from, size_t to) { if (to > from) sx_assert(f.m.Write(s.data() + from, to - from) == to - from, "the manager accepts what fits its buffer"); }
static void managerFlush(AnyManager& f, const Bytes& s, size_t pos) { SxBuf out(s.size() - pos); uint32_t n = f.m.Flush(out.p, (uint32_t)out.n); sx_assert(n == out.n && (n == 0 || sx_eq(out.p, s.data() + pos, n)), "flushing returns the bytes held"); SxBuf e(4); sx_assert(f.get(e.p, 4) == STATUS::BUFFER_EMPTY, "nothing is held after a flush"); }
static void managerWhole(int cfg, const Bytes& s) { AnyManager f(cfg); size_t pos = 0; managerWrite(f, s, 0, s.size()); managerDrain(f, cfg, s, s.size(), pos, nullptr); managerFlush(f, s, pos); sx_reach("end"); }
HARNESS(f09_any) { sx_expect("end"); Bytes s; addSym(s, (size_t)(sx_case() % 100), "input"); managerWhole(sx_case() / 100, s); } // cfg*100+n
HARNESS(f09_frame) { sx_expect("end"); Shape h = shape(); g_mgr = true; Bytes s = oneFrame(h, false); g_mgr = false; managerWhole(h.sel, s); } // sel = cfg
HARNESS(f09_found) // a valid message after junk: reported when its format is registered, otherwise unknown
{
    Shape h = shape(); bool reg = AnyManager::has(h.sel, h.kind); sx_expect(reg ? "frame" : "unknown"); Bytes s; addSym(s, h.before, "junk"); for (size_t i = 0; i < h.before; ++i) sx_assume(!syncOf(h.sel, s[i]));
    g_mgr = true; Bytes m = frameOf(h.kind, h.p, true); g_mgr = false; if (!reg) for (auto c : m) sx_assume(!syncOf(h.sel, c)); s.insert(s.end(), m.begin(), m.end()); size_t end = s.size(); if (h.kind == K_ABB) addText(s, "\r\n");
    AnyManager f(h.sel); managerWrite(f, s, 0, s.size()); size_t pos = 0; bool found = false;
    for (size_t g = 0; g < s.size() + 3; ++g)
    {
        uint32_t sz = (uint32_t)s.size(); SxBuf out(sz); STATUS st = f.get(out.p, sz); if (st == STATUS::BUFFER_EMPTY) break;
        if (reg && pos == h.before) { sx_assert(st == STATUS::SUCCESS && f.md->uiLength == end - pos && f.md->eFormat == formatOf(h.kind), "a valid message of a registered format is reported"); sx_assert(f.md->bResponse == (h.kind == K_ABBRESP), "response flag"); sx_assert(sx_eq(out.p, s.data() + pos, end - pos), "byte for byte"); found = true; sx_reach("frame"); break; }
        sx_assert(st == STATUS::UNKNOWN, "other bytes are unknown"); pos += f.md->uiLength; if (reg) sx_assert(pos <= h.before, "unknown bytes end before the message");
    }
    sx_assert(found == reg, "found exactly when registered"); if (!reg) { sx_assert(pos == s.size(), "all bytes of an unregistered message are unknown"); sx_reach("unknown"); }
}
HARNESS(f09_cut) // the message arrives in two pieces
{
    Shape h = shape(); sx_expect("frame"); g_mgr = true; Bytes s = oneFrame(h, true); g_mgr = false; std::vector<Rec> a, b;
    { AnyManager f(h.sel); size_t pos = 0; managerWrite(f, s, 0, s.size()); managerDrain(f, h.sel, s, s.size(), pos, &a); a.push_back({0, HEADER_FORMAT::UNKNOWN, s.size() - pos}); }
    AnyManager f(h.sel); size_t pos = 0, cut = 1 + (size_t)sx_enum(s.size() - 1, "cut"); managerWrite(f, s, 0, cut); managerDrain(f, h.sel, s, cut, pos, &b); managerWrite(f, s, cut, s.size()); managerDrain(f, h.sel, s, s.size(), pos, &b); b.push_back({0, HEADER_FORMAT::UNKNOWN, s.size() - pos});
    auto norm = [](std::vector<Rec> v) { std::vector<Rec> o; for (auto& r : v) { if (!r.len) continue; if (r.type == 0 && !o.empty() && o.back().type == 0) o.back().len += r.len; else o.push_back(r); } return o; };
    auto x = norm(a), y = norm(b); sx_assert(x.size() == y.size(), "the same messages are found however the input was cut"); for (size_t i = 0; i < x.size() && i < y.size(); ++i) sx_assert(x[i].type == y[i].type && x[i].len == y[i].len && x[i].fmt == y[i].fmt, "each message has the same length and format however the input was cut");
}
HARNESS(f09_lone) // case = framer*100 + n : same pieces as the lone framer of that format
{
    sx_expect("end"); int sel = sx_case() / 100; static const char* N[] = {"OEM", "OEM_ASCII", "OEM_ASCII_SHORT", "OEM_BINARY", "OEM_BINARY_SHORT", "OEM_ABB_ASCII"}; Bytes s; addSym(s, (size_t)(sx_case() % 100), "input");
    FramerManager m(std::vector<std::string>{N[sel]}); AnyFramer f(sel, s.size() + 8); m.Write(s.data(), s.size()); writeAll(f, s, 0, s.size()); m.SetReportUnknownBytes(true);
    for (size_t g = 0; g < s.size() + 2; ++g)
    {
        SxBuf o1(s.size() + 1), o2(s.size() + 1); MetaDataBase* md = nullptr; STATUS a = m.GetFrame(o1.p, (uint32_t)o1.n, md), b = f.get(o2.p, (uint32_t)o2.n); sx_assert(a == b, "the manager reports what the lone framer reports");
        if (a == STATUS::BUFFER_EMPTY || a == STATUS::INCOMPLETE) break; sx_assert(md->uiLength == f.md.uiLength && md->eFormat == f.md.eFormat, "with the same length and format");
    }
    sx_reach("end");
}
HARNESS(f09_small) // output buffers too small
{
    Shape h = shape(); sx_expect("end"); g_mgr = true; Bytes s = oneFrame(h, true); g_mgr = false; if (h.kind == K_ABB) addText(s, "\r\n"); AnyManager f(h.sel); managerWrite(f, s, 0, s.size()); size_t pos = 0; uint32_t small = (uint32_t)sx_enum(s.size() + 1, "output size"); bool full = false;
    for (size_t g = 0;; ++g)
    {
        if (g > 3 * s.size() + 4) { sx_assert(false, "the manager keeps returning without consuming its input"); return; }
        uint32_t n = full ? (uint32_t)s.size() : small; SxBuf out(n); STATUS st = f.get(out.p, n); if (st == STATUS::BUFFER_EMPTY || st == STATUS::INCOMPLETE) break;
        if (st == STATUS::BUFFER_FULL) { sx_assert(!full, "a buffer as large as the whole input is never too small"); full = true; continue; }
        sx_assert(f.md->uiLength > 0 && f.md->uiLength <= n, "the reported length fits the caller's buffer"); sx_assert(f.md->uiLength <= s.size() - pos && sx_eq(out.p, s.data() + pos, f.md->uiLength), "the bytes returned are the next bytes of the input"); pos += f.md->uiLength; full = false;
    }
    sx_reach("end");
}
