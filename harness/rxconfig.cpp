// X01, X02: configuration logs embedded in RXCONFIG. The wire form is built by this file; embedded messages are those of message.cpp.
#include "message.cpp"
#include "novatel_edie/decoders/oem/rxconfig/rxconfig_handler.hpp"
#ifdef SX_SYMBOLIC
extern "C" uint32_t sx_model_crc32_base(const unsigned char* p, uint32_t n, uint32_t init) { if (!crcModel) return novatel::edie::CalculateBlockCrc32<0xEDB88320UL, true>(p, n, init); crcFrom = p; crcLen = n; ++crcCalls; return MODEL; }
#endif
static void put(Bytes& b, uint64_t v, int n) { for (int i = 0; i < n; ++i) b.push_back((unsigned char)(v >> (8 * i))); }
static Msg rx(std::vector<int> ks)
{
    auto f = [] { return Fields{arr("embedded", FT::VARIABLE_LENGTH_ARRAY, "%R", DT::UCHAR, 1000)}; }; more = {mkMsg(128, "RXCONFIG", {{5, f()}}), mkMsg(2474, "RXCONFIGUSER", {{6, f()}})}; return make(ks);
}
static bool fixedHeader; // header fields without symbolic parts
static Bytes header(uint16_t id, size_t len)
{
    Bytes b; put(b, 0xAA, 1); put(b, 0x44, 1); put(b, 0x12, 1); put(b, 28, 1); put(b, id, 2); put(b, 0, 1); bool s = !fixedHeader; put(b, s ? sx_any<uint8_t>("port") : 32, 1); put(b, len, 2); put(b, s ? sx_any<uint16_t>("sequence") : 7, 2); put(b, s ? sx_any<uint8_t>("idle") : 100, 1); put(b, s ? sx_any<uint8_t>("time status") : 180, 1);
    put(b, s ? sx_any<uint16_t>("week") : 2107, 2); put(b, MS[msPick < 0 ? 3 : msPick], 4); put(b, s ? sx_any<uint32_t>("receiver status") : 0x0200080f, 4); put(b, id == 43 ? 0x1111 : id == 128 ? 5 : 6, 2); put(b, s ? sx_any<uint16_t>("version") : 16248, 2); return b;
}
struct Rx { Bytes inner, all; }; // the embedded message as it would be on its own, the whole
static Rx build(bool shortInner = false, uint16_t id = 128)
{
    Rx r; if (shortInner) { put(r.inner, 0xAA, 1); put(r.inner, 0x44, 1); put(r.inner, 0x13, 1); put(r.inner, wire.size(), 1); put(r.inner, 43, 2); put(r.inner, 2107, 2); put(r.inner, 345600123, 4); } else r.inner = header(43, wire.size());
    r.inner.insert(r.inner.end(), wire.begin(), wire.end()); r.all = header(id, r.inner.size() + 4); r.all.insert(r.all.end(), r.inner.begin(), r.inner.end());
    uint32_t c = CalculateBlockCrc32(r.inner.data(), (uint32_t)r.inner.size()); put(r.all, ~c & 0xFFFFFFFF, 4); put(r.inner, c, 4); put(r.all, CalculateBlockCrc32(r.all.data(), (uint32_t)r.all.size()), 4); return r;
}
struct Got { STATUS h, s; IntermediateHeader hd; MetaDataStruct md; CompositeField c; };
static Got take(const Msg& m, RxConfigHandler& x, const Bytes& b) { Got g; SxBuf in(b.size() + 1); memcpy(in.p, b.data(), b.size()); in[b.size()] = 0; HeaderDecoder hd(m.db); g.md.uiLength = (uint32_t)b.size(); g.h = hd.Decode(in.p, g.hd, g.md); SxBuf body(b.size() - g.md.uiHeaderLength); memcpy(body.p, in.p + g.md.uiHeaderLength, b.size() - g.md.uiHeaderLength); g.s = g.h == STATUS::SUCCESS ? x.Decode(body.p, g.c, g.md) : g.h; return g; }
static bool raw(const Msg& m, const Got& g, const Bytes& want) { auto& f = *m.db->GetMsgDef(g.hd.usMessageId)->GetMsgDefFromCrc(5).messageOrderedFields[0]; auto v = g.c.GetFieldValue<std::vector<uint8_t>>(f); return v.size() == want.size() && sx_eq(v.data(), want.data(), want.size()); }
static Bytes put(RxConfigHandler& x, const Got& g, EF e, MessageDataStruct& md, size_t cap = 3000) { SxBuf o(cap); unsigned char* p = o.p; STATUS s = x.Encode(&p, (uint32_t)cap, g.hd, g.c, md, e); sx_assert(s == STATUS::SUCCESS && md.pucMessage == o.p && md.uiMessageLength <= cap, "an RXCONFIG message converts"); if (s != STATUS::SUCCESS || md.uiMessageLength > cap) return {}; return Bytes(o.p, o.p + md.uiMessageLength); }
static bool eqB(const Bytes& a, const Bytes& b) { return a.size() == b.size() && sx_eq(a.data(), b.data(), a.size()); }
HARNESS(x01_binary) // case: kind of the first field + 100 * embedded short header
{
    sx_expect("end"); full = true; anyLen = (int)sx_enum(3, "lengths"); msPick = anyLen; int c = sx_case(); Msg m = rx({c % 100, (c * 7 + 3) % NK}); Rx r = build(c >= 100, sx_enum(2, "user") ? 2474 : 128); RxConfigHandler x(m.db); Got g = take(m, x, r.all); sx_assert(g.s == STATUS::SUCCESS, "a well-formed RXCONFIG decodes"); if (g.s != STATUS::SUCCESS) return;
    sx_assert(raw(m, g, r.inner), "the embedded data is the message with its own checksum"); MessageDataStruct md; Bytes o = put(x, g, EF::BINARY, md, r.all.size()); sx_assert(o.size() == r.all.size() && md.uiMessageHeaderLength == 28 && md.uiMessageBodyLength == o.size() - 28 && md.pucMessageHeader == md.pucMessage && md.pucMessageBody == md.pucMessage + 28, "lengths"); if (o.size() != r.all.size()) return;
    size_t k = o.size() - 8; bool eq = sx_eq(o.data(), r.all.data(), k); sx_assert(eq, "re-encoding reproduces the bytes"); if (!eq) return; sx_assert(sx_eq(&o[k], &r.all[k], 4), "re-encoding reproduces the inverted embedded checksum"); sx_assert(sx_eq(&o[k + 4], &r.all[k + 4], 4), "re-encoding reproduces the checksum"); sx_reach("end");
}
static const uint32_t MODELS[] = {0x1d2e3f40, 0xFFFFFFF5, 0xF3456789, 0x00000000, 0xffffffff, 0x0000abcd};
static std::string hex8(uint32_t v) { std::string s; for (int i = 28; i >= 0; i -= 4) s += "0123456789abcdef"[v >> i & 15]; return s; }
HARNESS(x01_ascii) // text, with each of six checksums of the embedded message. case: kind
{
    sx_expect("end"); fixedHeader = true; msPick = 3; pick = (int)sx_enum(5, "range"); int c = sx_case(); decimal = true; anyLen = (int)sx_enum(2, "lengths"); Msg m = rx({0, c}); Rx r = build(); RxConfigHandler x(m.db); Got g = take(m, x, r.all); sx_assert(g.s == STATUS::SUCCESS, "a well-formed RXCONFIG decodes");
    modelled = crcModel = true; MODEL = MODELS[(pick + anyLen) % 6]; Encoder e(m.db); MessageDecoder d(m.db); CompositeField body; MetaDataStruct mi = meta(HF::BINARY, (uint32_t)wire.size()); SxBuf w(wire.size()); memcpy(w.p, wire.data(), wire.size()); sx_assert(d.Decode(w.p, body, mi) == STATUS::SUCCESS, "the embedded body decodes");
    IntermediateHeader ih; { HeaderDecoder hd(m.db); MetaDataStruct t; SxBuf h(28); memcpy(h.p, r.inner.data(), 28); sx_assert(hd.Decode(h.p, ih, t) == STATUS::SUCCESS, "the embedded header decodes"); }
    SxBuf o1(1000), o2(3000); unsigned char *p1 = o1.p, *p2 = o2.p; MessageDataStruct m1, m2; crcCalls = 0; sx_assert(e.EncodeHeader(&p1, 1000, g.hd, m1, HF::ASCII, EF::ASCII) == STATUS::SUCCESS && e.Encode(&p2, 3000, ih, body, m2, HF::ASCII, EF::ASCII) == STATUS::SUCCESS, "encodes"); bool mod = crcCalls > 0; uint32_t ci = mod ? MODEL : CalculateBlockCrc32(o2.p + 1, m2.uiMessageLength - 12);
    Bytes in(o2.p, o2.p + m2.uiMessageLength), want(o1.p, o1.p + m1.uiMessageHeaderLength); want.insert(want.end(), in.begin(), in.end() - 10); for (char k : hex8(~ci)) want.push_back(k); bool same = true; std::string own = hex8(ci); for (int i = 0; i < 8; ++i) same &= in[in.size() - 10 + i] == (unsigned char)own[i]; sx_assert(same, "checksum of the embedded text");
    crcModel = false; uint32_t co = mod ? MODEL : CalculateBlockCrc32(&want[1], (uint32_t)want.size() - 1); crcModel = true; want.push_back('*'); for (char k : hex8(co)) want.push_back(k); want.push_back('\r'); want.push_back('\n');
    MessageDataStruct md; Bytes t = put(x, g, EF::ASCII, md); sx_assert(t.size() == want.size(), "length of the text"); if (t.size() != want.size()) return; size_t q = want.size(); sx_assert(sx_eq(t.data(), want.data(), q - 19), "the text is the two headers and the body"); sx_assert(sx_eq(&t[q - 19], &want[q - 19], 8), "then the inverted checksum"); sx_assert(sx_eq(&t[q - 11], &want[q - 11], 11), "then the checksum"); Got h = take(m, x, t); sx_assert(h.s == STATUS::SUCCESS, "the text decodes"); if (h.s != STATUS::SUCCESS) return;
    sx_assert(raw(m, h, in), "the embedded data is the text with its own checksum"); MessageDataStruct m3; Bytes u = put(x, h, EF::ASCII, m3); sx_assert(eqB(u, t), "re-encoding reproduces the text"); sx_assert(m3.uiMessageHeaderLength == m1.uiMessageHeaderLength && m3.uiMessageBodyLength == u.size() - m3.uiMessageHeaderLength, "lengths"); sx_reach("end");
}
HARNESS(x01_forms) // the abbreviated form repeats and gives the binary one back, JSON holds the embedded document. case: kind
{
    sx_expect("end"); fixedHeader = true; msPick = 3; modelled = crcModel = true; pick = (int)sx_enum(5, "range"); int c = sx_case(); decimal = true; anyLen = (int)sx_enum(2, "lengths"); Msg m = rx({0, c}); Rx r = build(); RxConfigHandler x(m.db); Got g = take(m, x, r.all); sx_assert(g.s == STATUS::SUCCESS, "a well-formed RXCONFIG decodes"); MessageDataStruct md, m2, m3;
    Bytes j = put(x, g, EF::JSON, md); SxBuf o(3000), oh(1000); unsigned char *p = o.p, *ph = oh.p; Encoder e(m.db); MessageDecoder d(m.db); CompositeField body; MetaDataStruct mi = meta(HF::BINARY, (uint32_t)wire.size()); SxBuf w(wire.size()); memcpy(w.p, wire.data(), wire.size()); sx_assert(d.Decode(w.p, body, mi) == STATUS::SUCCESS, "the embedded body decodes");
    IntermediateHeader ih; { HeaderDecoder hd(m.db); MetaDataStruct t; SxBuf h(28); memcpy(h.p, r.inner.data(), 28); sx_assert(hd.Decode(h.p, ih, t) == STATUS::SUCCESS, "the embedded header decodes"); }
    sx_assert(e.Encode(&p, 3000, ih, body, m2, HF::BINARY, EF::JSON) == STATUS::SUCCESS && e.EncodeHeader(&ph, 1000, g.hd, m3, HF::BINARY, EF::JSON) == STATUS::SUCCESS, "encodes"); Bytes want; addText(want, "{\"header\": "); want.insert(want.end(), oh.p, oh.p + m3.uiMessageHeaderLength); addText(want, ",\"body\": "); want.insert(want.end(), o.p, o.p + m2.uiMessageLength); want.push_back('}'); sx_assert(eqB(j, want), "the JSON document holds the embedded one");
    MessageDataStruct m4, m5; Bytes a = put(x, g, EF::ABBREV_ASCII, m4); Got h = take(m, x, a); sx_assert(h.s == STATUS::SUCCESS, "the abbreviated form decodes"); if (h.s != STATUS::SUCCESS) return; Bytes b = put(x, h, EF::ABBREV_ASCII, m5); sx_assert(eqB(a, b), "re-encoding reproduces the abbreviated form"); sx_reach("end");
}
HARNESS(x01_convert) // through the handler's own framer. case: kind
{
    sx_expect("end"); sx_expect("other"); fixedHeader = true; msPick = 3; extreme = 1; anyLen = 1; int c = sx_case(); Msg m = rx({c}); wire.back() = (unsigned char)sx_enum(3, "value"); Rx r = build(false, sx_enum(2, "user") ? 2474 : 128); static const EF FM[] = {EF::BINARY, EF::ASCII, EF::ABBREV_ASCII, EF::JSON}; EF e = FM[sx_enum(4, "format")]; RxConfigHandler x(m.db), y(m.db); bool other = sx_enum(2, "another message first");
    auto write = [&](const Bytes& b) { SxBuf q(b.size()); memcpy(q.p, b.data(), b.size()); return x.Write(q.p, (uint32_t)b.size()); }; MessageDataStruct a, b; MetaDataStruct ma, mb; sx_assert(x.Convert(a, ma, b, mb, e) == STATUS::BUFFER_EMPTY, "nothing yet");
    if (other) { sx_assert(write(r.inner) == r.inner.size(), "all is taken"); sx_assert(x.Convert(a, ma, b, mb, e) == STATUS::UNKNOWN, "another message is passed over"); sx_reach("other"); }
    Got g = take(m, y, r.all); MessageDataStruct md; Bytes want = put(y, g, e, md); sx_assert(write(r.all) == r.all.size(), "all is taken"); MessageDataStruct a2, b2; STATUS s = x.Convert(a2, ma, b2, mb, e); sx_assert(s == STATUS::SUCCESS && a2.uiMessageLength == want.size() && sx_eq(a2.pucMessage, want.data(), want.size()), "the message converts"); if (s != STATUS::SUCCESS) return;
    sx_assert(b2.pucMessage >= a2.pucMessage && b2.pucMessage + b2.uiMessageLength <= a2.pucMessage + a2.uiMessageLength && mb.usMessageId == 43 && mb.messageName == "RANGE", "the embedded message lies within"); sx_assert(x.Convert(a, ma, b, mb, e) == STATUS::BUFFER_EMPTY, "nothing left"); sx_reach("end");
}
// ---- X02
static const EF ALL[] = {EF::BINARY, EF::ASCII, EF::ABBREV_ASCII, EF::JSON};
static bool tryAll(RxConfigHandler& x, const Got& g, bool one = false) { bool any = false; auto f = one ? 0 : sx_enum(4, "output format"); SxBuf o(900); unsigned char* p = o.p; MessageDataStruct md; try { STATUS s = x.Encode(&p, 900, g.hd, g.c, md, ALL[f]); any = s == STATUS::SUCCESS; } catch (...) { sx_assert(false, "failure is reported by status"); } if (any) sx_assert(md.uiMessageLength <= 900, "the message lies in the buffer"); return any; }
static Got feed(const Msg& m, RxConfigHandler& x, const Bytes& head, const Bytes& body, HF f) // the body in memory of its own size
{
    Got g; SxBuf in(head.size() + 1); memcpy(in.p, head.data(), head.size()); in[head.size()] = 0; HeaderDecoder hd(m.db); g.h = hd.Decode(in.p, g.hd, g.md); g.md.eFormat = f; g.md.uiLength = (uint32_t)(head.size() + body.size()); sx_assert(g.h == STATUS::SUCCESS && g.md.uiHeaderLength == head.size(), "the header decodes"); SxBuf b(body.size()); if (body.size()) memcpy(b.p, body.data(), body.size()); try { g.s = x.Decode(b.p, g.c, g.md); } catch (...) { sx_assert(false, "failure is reported by status"); g.s = STATUS::FAILURE; } return g;
}
static HF form(EF e) { return e == EF::BINARY ? HF::BINARY : e == EF::ASCII ? HF::ASCII : HF::ABB_ASCII; }
static void sample(const Msg& m, RxConfigHandler& x, EF e, Bytes& head, Bytes& body) { fixedHeader = true; msPick = 3; Rx r = build(); Got g = take(m, x, r.all); MessageDataStruct md; Bytes t = put(x, g, e, md); head.assign(t.begin(), t.begin() + md.uiMessageHeaderLength); body.assign(t.begin() + md.uiMessageHeaderLength, t.end()); }
HARNESS(x02_cut) // a message cut anywhere. case: kind * 3 + format
{
    sx_expect("whole"); sx_expect("cut"); extreme = 1; anyLen = 1; Msg m = rx({sx_case() / 3, 3}); RxConfigHandler x(m.db); Bytes head, body; sample(m, x, ALL[sx_case() % 3], head, body); size_t n = sx_enum(body.size() + 1, "bytes of the body"); bool whole = n == body.size(); body.resize(n); Got g = feed(m, x, head, body, form(ALL[sx_case() % 3])); bool ok = g.s == STATUS::SUCCESS && tryAll(x, g);
    if (whole) { sx_assert(ok, "the whole message converts"); sx_reach("whole"); } else { if (n < 8 && sx_case() % 3 < 2) sx_assert(g.s == STATUS::MALFORMED_INPUT, "a payload without checksums is malformed"); sx_reach("cut"); }
}
HARNESS(x02_length) // any length in the embedded header, any message length in the outer metadata. case: kind
{
    sx_expect("good"); sx_expect("bad"); extreme = 1; anyLen = 1; Msg m = rx({sx_case()}); RxConfigHandler x(m.db); Bytes head, body; sample(m, x, EF::BINARY, head, body); uint16_t len = sx_any<uint16_t>("length of the embedded message"); uint16_t right = (uint16_t)(body[8] | body[9] << 8); body[8] = (unsigned char)len; body[9] = (unsigned char)(len >> 8); Got g = feed(m, x, head, body, HF::BINARY); sx_assert(g.s == STATUS::SUCCESS, "the data is taken"); bool ok = tryAll(x, g);
    if (ok) { sx_reach("good"); sx_assert(len <= right + 4u, "a length beyond the embedded data is rejected"); } else { sx_reach("bad"); sx_assert(len != right, "the right length is accepted"); }
}
HARNESS(x02_any) // any payload. case: bytes + 100 * format
{
    sx_expect("end"); fixedHeader = true; msPick = 3; extreme = 1; anyLen = 1; Msg m = rx({3}); RxConfigHandler x(m.db); Bytes head, body; sample(m, x, ALL[sx_case() / 100], head, body); body.clear(); for (int i = 0; i < sx_case() % 100; ++i) body.push_back(sx_any<unsigned char>("byte")); Got g = feed(m, x, head, body, form(ALL[sx_case() / 100])); if (g.s == STATUS::SUCCESS) (void)tryAll(x, g, true); sx_reach("end");
}
HARNESS(x02_header) // an embedded binary header with anything in it, cut anywhere. case: bytes after the synchronisation characters + 100 * short
{
    sx_expect("end"); fixedHeader = true; msPick = 3; extreme = 1; anyLen = 1; Msg m = rx({34, 3}); RxConfigHandler x(m.db); Bytes head, body; sample(m, x, EF::BINARY, head, body); body = {0xAA, 0x44, (unsigned char)(sx_case() >= 100 ? 0x13 : 0x12)}; for (int i = 0; i < sx_case() % 100; ++i) body.push_back(sx_any<unsigned char>("byte")); Got g = feed(m, x, head, body, HF::BINARY); if (g.s == STATUS::SUCCESS) (void)tryAll(x, g, true); sx_reach("end");
}
HARNESS(x02_byte) // any one byte of the body changed. case: position + 1000 * format
{
    sx_expect("end"); extreme = 1; anyLen = 1; Msg m = rx({34, 3}); RxConfigHandler x(m.db); Bytes head, body; sample(m, x, ALL[sx_case() / 1000], head, body); size_t p = sx_case() % 1000; if (p >= body.size()) { sx_reach("end"); return; } body[p] = sx_any<unsigned char>("byte"); Got g = feed(m, x, head, body, form(ALL[sx_case() / 1000])); if (g.s == STATUS::SUCCESS) (void)tryAll(x, g); sx_reach("end");
}
HARNESS(x02_sizes) // every size of the output buffer. case: kind * 4 + format
{
    static const unsigned char CAN = 0x5C; sx_expect("fits"); sx_expect("full"); fixedHeader = true; msPick = 3; extreme = 1; anyLen = 1; Msg m = rx({sx_case() / 4}); RxConfigHandler x(m.db); Rx r = build(); Got g = take(m, x, r.all); crcModel = true; EF e = ALL[sx_case() % 4]; MessageDataStruct md; Bytes want = put(x, g, e, md); size_t need = want.size(), top = need + 40; uint32_t size = (uint32_t)sx_enum(top + 1, "size of the buffer"); SxBuf o(top); memset(o.p, CAN, top); unsigned char* p = o.p; MessageDataStruct m2; STATUS s = x.Encode(&p, size, g.hd, g.c, m2, e);
    size_t last = 0; for (size_t i = top; i > 0 && !last; --i) if (o[i - 1] != CAN) last = i; sx_assert(last <= size, "nothing is written past the size given"); if (s == STATUS::SUCCESS) { sx_reach("fits"); sx_assert(m2.uiMessageLength == need && size >= need && sx_eq(o.p, want.data(), need), "the same message whatever the size of the buffer"); } else { sx_reach("full"); sx_assert(s == STATUS::BUFFER_FULL && size < need + 32, "a small buffer is reported as full, a large enough one is not"); }
}
HARNESS(x02_args) // missing pointers, definitions and fields; other identifiers and formats
{
    sx_expect("end"); fixedHeader = true; msPick = 3; extreme = 1; anyLen = 1; Msg m = rx({3}); RxConfigHandler x(m.db); Rx r = build(); Got g = take(m, x, r.all); MessageDataStruct md; SxBuf o(400); unsigned char *p = o.p, *none = nullptr; STATUS s;
    switch (sx_enum(6, "what"))
    {
    case 0: s = x.Encode(nullptr, 400, g.hd, g.c, md, EF::BINARY); sx_assert(s == STATUS::NULL_PROVIDED, "a missing buffer"); break;
    case 1: s = x.Encode(&none, 400, g.hd, g.c, md, EF::BINARY); sx_assert(s == STATUS::NULL_PROVIDED, "a missing buffer"); break;
    case 2: { CompositeField c; s = x.Encode(&p, 400, g.hd, c, md, EF::BINARY); sx_assert(s != STATUS::SUCCESS, "an empty message"); break; }
    case 3: { uint16_t id = sx_any<uint16_t>("identifier"); sx_assume(id != 128 && id != 2474); g.md.usMessageId = id; SxBuf b(r.all.size() - 28); memcpy(b.p, &r.all[28], r.all.size() - 28); s = x.Decode(b.p, g.c, g.md); sx_assert(s == STATUS::UNSUPPORTED && !RxConfigHandler::IsRxConfigTypeMsg(id), "another message"); break; }
    case 4: { RxConfigHandler z; SxBuf b(r.all.size() - 28); memcpy(b.p, &r.all[28], r.all.size() - 28); s = z.Decode(b.p, g.c, g.md); sx_assert(s == STATUS::NO_DEFINITION, "no database"); z.LoadJsonDb(m.db); s = z.Decode(b.p, g.c, g.md); sx_assert(s == STATUS::SUCCESS && raw(m, g, r.inner), "the database loaded later"); break; }
    default: { static const EF BAD[] = {EF::FLATTENED_BINARY, EF::UNSPECIFIED}; s = x.Encode(&p, 400, g.hd, g.c, md, BAD[sx_enum(2, "format")]); sx_assert(s == STATUS::UNSUPPORTED, "a form RXCONFIG has not"); g.md.eFormat = sx_enum(2, "of the header") ? HF::JSON : HF::SHORT_BINARY; SxBuf b(r.all.size() - 28); memcpy(b.p, &r.all[28], r.all.size() - 28); sx_assert(x.Decode(b.p, g.c, g.md) == STATUS::UNSUPPORTED, "a form RXCONFIG has not"); }
    }
    sx_reach("end");
}
