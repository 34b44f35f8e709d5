// L01-L04: the message filter against a reference model.
#include "sx.hpp"
#include "novatel_edie/decoders/oem/filter.hpp"
using namespace novatel::edie;
using namespace novatel::edie::oem;
using HF = HEADER_FORMAT;
struct IdE { uint32_t id; HF f; uint8_t s; };
struct NmE { std::string n; HF f; uint8_t s; };
struct Ref
{
    bool lo = false, up = false, invT = false, dec = false, invD = false, invTs = false, invId = false, invNm = false, nmea = false, resp = true, non = true;
    uint32_t lw = 0, lms = 0, uw = 0, ums = 0, per = 0; std::vector<uint32_t> ts; std::vector<IdE> ids; std::vector<NmE> nms;
    bool time(uint64_t w, uint64_t ms) const
    {
        if (!lo & !up) return true;
        bool in = true;
        if (lo) in = in & ((w > lw) | ((w == lw) & (ms >= lms)));
        if (up) in = in & ((w < uw) | ((w == uw) & (ms <= ums)));
        // inverted: outside the window; with a single bound, beyond it
        return in != invT;
    }
    bool pass(const MetaDataStruct& m, uint32_t ms) const
    {
        if (m.eFormat == HF::UNKNOWN) return false;
        if (m.eFormat == HF::NMEA) return nmea;
        if (m.bResponse ? !resp : !non) return false;
        bool r = time(m.usWeek, ms);
        if (!ts.empty()) { bool in = false; for (auto t : ts) in |= t == (uint32_t)m.eTimeStatus; r &= in != invTs; }
        if (!ids.empty()) { bool in = false; for (auto& e : ids) in |= (e.id == m.usMessageId) & (e.s == m.ucSiblingId) & ((e.f == HF::ALL) | (e.f == m.eFormat)); r &= in != invId; }
        if (!nms.empty()) { bool in = false; for (auto& e : nms) in |= (e.n.size() == m.messageName.size() && sx_eq((const unsigned char*)e.n.data(), (const unsigned char*)m.messageName.data(), e.n.size())) & (e.s == m.ucSiblingId) & ((e.f == HF::ALL) | (e.f == m.eFormat)); r &= in != invNm; }
        if (dec && per) r &= (ms % per == 0) != invD;
        return r;
    }
};
static uint32_t g_ms;
static std::string anyName(const char* nm) { std::string s(2 + (size_t)sx_enum(2, "name length"), 'x'); sx_bytes(&s[0], s.size(), nm); return s; }
static HF anyFormat(const char* nm, bool all) { uint8_t v = sx_any<uint8_t>(nm); sx_assume(v >= 1 && v <= (all ? 11 : 10)); return (HF)v; }
static MetaDataStruct anyMeta(bool names)
{
    MetaDataStruct m; m.eFormat = anyFormat("format", false); m.usWeek = sx_any<uint16_t>("week"); g_ms = sx_any<uint32_t>("milliseconds"); m.dMilliseconds = (double)g_ms; m.bResponse = sx_any<uint8_t>("response") & 1; m.usMessageId = sx_any<uint16_t>("id"); m.ucSiblingId = sx_any<uint8_t>("sibling");
    m.eTimeStatus = (TIME_STATUS)sx_any<uint8_t>("time status"); m.messageName = names ? anyName("message name") : std::string("XY"); return m;
}
static void decide(const Filter& f, const Ref& r, bool names) { MetaDataStruct m = anyMeta(names); bool p = f.DoFiltering(m), e = r.pass(m, g_ms); sx_assert(p == e, "a message passes exactly when the configured filters admit it"); if (p) sx_reach("passes"); else sx_reach("blocked"); }
static const struct { double s; uint32_t ms; } T[] = {{0, 0}, {1.001, 1001}, {0.57, 570}, {324434.057, 324434057}, {604799.999, 604799999}, {604800, 604800000}, {1e6, 1000000000}, {0.001, 1}};

HARNESS(l01_time) // case: bit 0 lower, bit 1 upper, bit 2 inverted, bit 3 inverted first, bit 4 whole-second symbolic bounds
{
    sx_expect("passes"); sx_expect("blocked"); int c = sx_case(); Filter f; Ref r; r.lo = c & 1; r.up = c & 2; r.invT = c & 4; if (c & 8) f.InvertTimeFilter(r.invT);
    auto sec = [&](uint32_t& ms) -> double { if (c & 16) { uint32_t s = sx_any<uint32_t>("bound seconds"); sx_assume(s < 65536); ms = s * 1000u; return (double)s; } auto i = sx_enum(8, "bound"); ms = T[i].ms; return T[i].s; };
    if (r.lo) { r.lw = sx_any<uint32_t>("lower week"); double d = sec(r.lms); f.SetIncludeLowerTimeBound(r.lw, d); }
    if (r.up) { r.uw = sx_any<uint32_t>("upper week"); double d = sec(r.ums); f.SetIncludeUpperTimeBound(r.uw, d); }
    if (!(c & 8)) f.InvertTimeFilter(r.invT);
    decide(f, r, false);
}
// every millisecond bound written as seconds is honoured: case = first ms / 1000
HARNESS(l01_ms)
{
    sx_expect("end"); for (uint32_t k = 0; k < 1000; ++k) { uint32_t ms = (uint32_t)sx_case() * 1000 + k; Filter f; f.SetIncludeLowerTimeBound(10, ms / 1000.0); f.SetIncludeUpperTimeBound(10, ms / 1000.0); MetaDataStruct m; m.eFormat = HF::BINARY; m.usWeek = 10; uint32_t x = sx_any<uint32_t>("milliseconds"); m.dMilliseconds = (double)x; sx_assert(f.DoFiltering(m) == (x == ms), "a one-millisecond window passes exactly that millisecond"); }
    sx_reach("end");
}
HARNESS(l02_ids) // case: bit 0 inverted, bits 1.. number of entries, bit 3: given as one list
{
    sx_expect("passes"); sx_expect("blocked"); int c = sx_case(); Filter f; Ref r; std::vector<std::tuple<uint32_t, HF, uint8_t>> l; r.invId = c & 1;
    for (int i = 0; i < (c >> 1 & 3); ++i) { IdE e{sx_any<uint32_t>("listed id"), anyFormat("listed format", true), sx_any<uint8_t>("listed sibling")}; r.ids.push_back(e); l.emplace_back(e.id, e.f, e.s); if (!(c & 8)) f.IncludeMessageId(e.id, e.f, e.s); }
    if (c & 8) f.IncludeMessageId(l); f.InvertMessageIdFilter(r.invId); decide(f, r, false);
}
HARNESS(l02_names)
{
    sx_expect("passes"); sx_expect("blocked"); int c = sx_case(); Filter f; Ref r; std::vector<std::tuple<std::string, HF, uint8_t>> l; r.invNm = c & 1;
    for (int i = 0; i < (c >> 1 & 3); ++i) { NmE e{anyName("listed name"), anyFormat("listed format", true), sx_any<uint8_t>("listed sibling")}; r.nms.push_back(e); l.emplace_back(e.n, e.f, e.s); if (!(c & 8)) f.IncludeMessageName(e.n, e.f, e.s); }
    if (c & 8) f.IncludeMessageName(l); f.InvertMessageNameFilter(r.invNm); decide(f, r, true);
}
HARNESS(l02_status)
{
    sx_expect("passes"); sx_expect("blocked"); int c = sx_case(); Filter f; Ref r; std::vector<TIME_STATUS> l; r.invTs = c & 1;
    for (int i = 0; i < (c >> 1 & 3); ++i) { uint32_t e = sx_any<uint8_t>("listed status"); r.ts.push_back(e); l.push_back((TIME_STATUS)e); if (!(c & 8)) f.IncludeTimeStatus((TIME_STATUS)e); }
    if (c & 8) f.IncludeTimeStatus(l); f.InvertTimeStatusFilter(r.invTs); decide(f, r, false);
}
HARNESS(l02_flags) // responses, NMEA
{
    sx_expect("passes"); sx_expect("blocked"); Filter f; Ref r; r.nmea = sx_any<uint8_t>("nmea") & 1; r.resp = sx_any<uint8_t>("responses") & 1; r.non = sx_any<uint8_t>("non-responses") & 1; f.IncludeNmeaMessages(r.nmea); f.IncludeResponses(r.resp); f.IncludeNonResponses(r.non); decide(f, r, false);
}
HARNESS(l02_combined) // one entry of every filter together
{
    sx_expect("passes"); sx_expect("blocked"); Filter f; Ref r; r.lo = r.up = r.dec = true; r.lw = sx_any<uint16_t>("lower week"); r.uw = sx_any<uint16_t>("upper week"); r.lms = 570; r.ums = 324434057; f.SetIncludeLowerTimeBound(r.lw, 0.57); f.SetIncludeUpperTimeBound(r.uw, 324434.057);
    r.per = 4; f.SetIncludeDecimationMs(r.per); r.invD = sx_enum(2, "invert"); f.InvertDecimationFilter(r.invD); r.invT = sx_enum(2, "invert"); f.InvertTimeFilter(r.invT);
    uint32_t t = sx_any<uint8_t>("listed status"); r.ts.push_back(t); f.IncludeTimeStatus((TIME_STATUS)t); r.invTs = sx_enum(2, "invert"); f.InvertTimeStatusFilter(r.invTs);
    IdE e{sx_any<uint32_t>("listed id"), anyFormat("listed format", true), sx_any<uint8_t>("listed sibling")}; r.ids.push_back(e); f.IncludeMessageId(e.id, e.f, e.s); r.invId = sx_enum(2, "invert"); f.InvertMessageIdFilter(r.invId);
    NmE n{"XY", anyFormat("listed format", true), sx_any<uint8_t>("listed sibling")}; r.nms.push_back(n); f.IncludeMessageName(n.n, n.f, n.s); r.invNm = sx_enum(2, "invert"); f.InvertMessageNameFilter(r.invNm);
    decide(f, r, false);
}
HARNESS(l03_ms) // case: bit 0 inverted; periods from a list
{
    sx_expect("passes"); sx_expect("blocked"); Filter f; Ref r; static const uint32_t P[] = {1, 2, 3, 7, 50, 100, 1000, 60000, 604800000, 4294967295u}; r.dec = true; r.invD = sx_case() & 1; r.per = P[sx_enum(10, "period")]; f.SetIncludeDecimationMs(r.per); f.InvertDecimationFilter(r.invD); decide(f, r, false);
}
HARNESS(l03_any) // any period, any message, including zero
{
    sx_expect("end"); Filter f; f.SetIncludeDecimationMs(sx_any<uint32_t>("period")); MetaDataStruct m = anyMeta(false); (void)f.DoFiltering(m); sx_reach("end");
}
HARNESS(l03_small) // any period up to 16 bits, message times up to 20 bits
{
    sx_expect("passes"); sx_expect("blocked"); Filter f; Ref r; r.dec = true; r.per = sx_any<uint16_t>("period"); sx_assume(r.per != 0); r.invD = sx_case() & 1; f.SetIncludeDecimationMs(r.per); f.InvertDecimationFilter(r.invD); MetaDataStruct m; m.eFormat = HF::ASCII; uint32_t ms = sx_any<uint32_t>("milliseconds"); sx_assume(ms < (1u << 20)); m.dMilliseconds = (double)ms;
    bool p = f.DoFiltering(m); sx_assert(p == ((ms % r.per == 0) != r.invD), "passes exactly the multiples of the period"); if (p) sx_reach("passes"); else sx_reach("blocked");
}
HARNESS(l03_sec) // periods given in seconds
{
    sx_expect("end"); Filter f; for (auto& t : T) if (t.ms) { Ref r; r.dec = true; r.per = t.ms; f.SetIncludeDecimation(t.s); decide(f, r, false); } static const uint32_t S[] = {1, 2, 5, 10, 60}; uint32_t s = S[sx_enum(5, "seconds")]; f.SetIncludeDecimation((double)s); MetaDataStruct m; m.eFormat = HF::ASCII; uint32_t k = sx_any<uint32_t>("multiple"); sx_assume(k < 1000); m.dMilliseconds = (double)(k * 1000u * s); sx_assert(f.DoFiltering(m), "multiples of a whole-second period pass"); sx_reach("end");
}
// ---- L04: histories
static void op(Filter& f, Ref& r, int o, int variant)
{
    auto week = [&] { return (uint32_t)sx_any<uint16_t>("week bound"); };
    static std::vector<IdE> ids; static std::vector<NmE> nms; // entries a removal may name
    IdE ie{(uint32_t)sx_any<uint16_t>("listed id"), variant & 1 ? HF::ALL : HF::BINARY, 0}; NmE ne{variant & 1 ? "AB" : "ABC", variant & 2 ? HF::ALL : HF::ASCII, 0}; uint32_t te = 20u * (uint32_t)(1 + (variant & 1));
    auto sameI = [](const IdE& a, const IdE& b) { return (a.id == b.id) & (a.f == b.f) & (a.s == b.s); };
    switch (o)
    {
    case 0: r.lo = true; r.lw = week(); r.lms = 5000; f.SetIncludeLowerTimeBound(r.lw, 5.0); break;
    case 1: r.up = true; r.uw = week(); r.ums = 7000; f.SetIncludeUpperTimeBound(r.uw, 7.0); break;
    case 2: r.lo = false; f.ClearLowerTimeBound(); break;
    case 3: r.up = false; f.ClearUpperTimeBound(); break;
    case 4: r.lo = r.up = false; f.ClearTimeBounds(); break;
    case 5: r.invT = variant & 1; f.InvertTimeFilter(variant & 1); break;
    case 6: r.dec = true; r.per = variant & 1 ? 8u : 2u; f.SetIncludeDecimationMs(r.per); break;
    case 7: r.dec = false; f.ClearDecimationFilter(); break;
    case 8: r.invD = variant & 1; f.InvertDecimationFilter(variant & 1); break;
    case 9: { bool dup = false; for (auto t : r.ts) dup |= t == te; if (!dup) r.ts.push_back(te); f.IncludeTimeStatus((TIME_STATUS)te); break; }
    case 10: for (size_t i = 0; i < r.ts.size(); ++i) if (r.ts[i] == te) { r.ts.erase(r.ts.begin() + (long)i); break; } f.RemoveTimeStatus((TIME_STATUS)te); break;
    case 11: r.ts.clear(); r.invTs = false; f.ClearTimeStatuses(); break;
    case 12: r.invTs = variant & 1; f.InvertTimeStatusFilter(variant & 1); break;
    case 13: { bool dup = false; for (auto& e : r.ids) if (sameI(e, ie)) dup = true; if (!dup) r.ids.push_back(ie); f.IncludeMessageId(ie.id, ie.f, ie.s); break; }
    case 14: for (size_t i = 0; i < r.ids.size(); ++i) if (sameI(r.ids[i], ie)) { r.ids.erase(r.ids.begin() + (long)i); break; } f.RemoveMessageId(ie.id, ie.f, ie.s); break;
    case 15: r.ids.clear(); r.invId = false; f.ClearMessageIds(); break;
    case 16: r.invId = variant & 1; f.InvertMessageIdFilter(variant & 1); break;
    case 17: { bool dup = false; for (auto& e : r.nms) dup |= e.n == ne.n && e.f == ne.f; if (!dup) r.nms.push_back(ne); f.IncludeMessageName(ne.n, ne.f, ne.s); break; }
    case 18: for (size_t i = 0; i < r.nms.size(); ++i) if (r.nms[i].n == ne.n && r.nms[i].f == ne.f) { r.nms.erase(r.nms.begin() + (long)i); break; } f.RemoveMessageName(ne.n, ne.f, ne.s); break;
    case 19: r.nms.clear(); r.invNm = false; f.ClearMessageNames(); break;
    case 20: r.invNm = variant & 1; f.InvertMessageNameFilter(variant & 1); break;
    case 21: r.nmea = variant & 1; f.IncludeNmeaMessages(variant & 1); break;
    case 22: r.resp = variant & 1; f.IncludeResponses(variant & 1); break;
    case 23: r.non = variant & 1; f.IncludeNonResponses(variant & 1); break;
    default: r = Ref(); f.ClearFilters(); break;
    }
}
HARNESS(l04_history) // case = length * 100 + first operation
{
    sx_expect("passes"); sx_expect("blocked"); Filter f; Ref r; int n = sx_case() / 100; for (int i = 0; i < n; ++i) { int o = i ? (int)sx_enum(25, "operation") : sx_case() % 100; bool two = o != 0 && o != 1 && o != 2 && o != 3 && o != 4 && o != 7 && o != 11 && o != 15 && o != 19 && o != 24; op(f, r, o, two ? (int)sx_enum(o == 17 || o == 18 ? 4 : 2, "variant") : 0); }
    MetaDataStruct m = anyMeta(false); static const char* N[] = {"AB", "ABC", "B"}; m.messageName = N[sx_enum(3, "message name")]; sx_assume(m.ucSiblingId < 2); bool p = f.DoFiltering(m), e = r.pass(m, g_ms); sx_assert(p == e, "after any history a message passes exactly when the filters then configured admit it"); if (p) sx_reach("passes"); else sx_reach("blocked");
}
HARNESS(l04_clear) // everything set, then cleared: like new
{
    sx_expect("passes"); sx_expect("blocked"); Filter f; Ref r; for (int o : {0, 1, 5, 6, 8, 9, 12, 13, 16, 17, 20, 21, 22, 23}) op(f, r, o, 1); f.ClearFilters(); decide(f, Ref(), true);
}
HARNESS(l04_remove) // three identifier entries, one removed
{
    sx_expect("passes"); sx_expect("blocked"); Filter f; Ref r; IdE e[3]; for (auto& x : e) { x = {sx_any<uint32_t>("listed id"), anyFormat("listed format", true), sx_any<uint8_t>("listed sibling")}; f.IncludeMessageId(x.id, x.f, x.s); }
    auto i = sx_enum(3, "removed"); f.RemoveMessageId(e[i].id, e[i].f, e[i].s); auto same = [](const IdE& a, const IdE& b) { return (a.id == b.id) & (a.f == b.f) & (a.s == b.s); };
    for (auto& x : e) if (!same(x, e[i])) r.ids.push_back(x); sx_assume(!r.ids.empty()); decide(f, r, false);
}
