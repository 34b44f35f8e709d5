// C04-C10: ring buffer, message counters, comparison, identifier packing, output helpers.
#include "sx.hpp"
#include <cmath>
#include <limits>
#include <tuple>
#include "novatel_edie/common/common.hpp"
#include "novatel_edie/common/fixed_buffer.hpp"
#include "novatel_edie/decoders/common/common.hpp"
#include "novatel_edie/decoders/common/encoder.hpp"
#include "novatel_edie/decoders/common/message_counts_tracker.hpp"
#include "novatel_edie/decoders/oem/header_decoder.hpp"
using namespace novatel::edie;
using FB = FixedBuffer<unsigned char>;

// ------------------------------------------------------------------ ring buffer
struct Model // what the buffer must hold
{
    std::vector<unsigned char> v;
    void write(const unsigned char* p, size_t n) { v.insert(v.end(), p, p + n); }
    void erase(size_t n) { v.erase(v.begin(), v.begin() + (long)(n < v.size() ? n : v.size())); }
};
static void same(FB& b, const Model& m, size_t N)
{
    sx_assert(b.size() == m.v.size(), "size equals the number of bytes written and not discarded");
    sx_assert(b.empty() == m.v.empty(), "empty exactly when nothing is held");
    sx_assert(b.capacity() == N && b.available_space() == N - m.v.size() && b.full() == (m.v.size() == N), "capacity and remaining space");
    const FB& cb = b;
    for (size_t i = 0; i < m.v.size(); ++i) { sx_assert(b[i] == m.v[i] && cb[i] == m.v[i], "each byte reads back in order"); }
    sx_assert(m.v.empty() || sx_eq(b.data(), m.v.data(), m.v.size()), "contiguous view equals the held bytes");
    SxBuf out(m.v.size() + 1); memset(out.p, 0x5a, out.n); b.copy_out(out.p, m.v.size());
    sx_assert(m.v.empty() || sx_eq(out.p, m.v.data(), m.v.size()), "copied bytes equal the held bytes"); sx_assert(out.p[m.v.size()] == 0x5a, "nothing copied beyond the request");
}
// drives a buffer through its public interface to offset h with s live bytes (content symbolic)
static void reach(FB& b, Model& m, size_t N, size_t h, size_t s)
{
    size_t cur = 0;
    auto put = [&](size_t n) { if (!n) return; SxBuf d(n, "data"); size_t r = b.write(d.p, n); sx_assert(r == n, "a write that fits is accepted in full"); m.write(d.p, n); };
    while (cur < h)
    {
        size_t d = h - cur < N - 1 ? h - cur : N - 1; put(d + 1 - m.v.size()); b.erase_begin(d); m.erase(d); cur += d;
    }
    put(s - m.v.size());
}
static void op(FB& b, Model& m, size_t N, bool any = true)
{
    switch (sx_enum(any ? 3 : 2, "operation"))
    {
    case 0: {
        size_t n = (size_t)sx_enum(N + 3, "length"); SxBuf d(n, "data"); size_t r = b.write(d.p, n);
        if (n <= N - m.v.size()) { sx_assert(r == n, "a write that fits is accepted in full"); m.write(d.p, n); }
        else { sx_assert(r == 0, "a write that does not fit is refused"); sx_reach("refused"); }
        break; }
    case 1: { size_t n = (size_t)sx_enum(N + 3, "count"); b.erase_begin(n); m.erase(n); break; }
    default: { uint64_t n = sx_range(N, ~0ull, "any count"); b.erase_begin(n); m.erase(N); break; } // discarding more than is held discards all
    }
    same(b, m, N);
}
HARNESS(c04_step) // case = capacity: every (offset, size) state, then any two operations
{
    sx_expect("stepped"); if (sx_case() > 1) sx_expect("compacted"); if (sx_case()) sx_expect("refused");
    size_t N = (size_t)sx_case(); FB b(N); Model m;
    size_t h = N ? (size_t)sx_enum(2 * N, "offset") : 0, s = (size_t)sx_enum(N + 1, "size");
    sx_assume(h + s <= 2 * N && (s > 0 || h == 0)); sx_assume(N > 1 || h == 0);
    reach(b, m, N, h, s); same(b, m, N);
    op(b, m, N, N > 3); if (h + s == 2 * N && b.size() > s) sx_reach("compacted");
    if (N <= 3) op(b, m, N, N < 3);
    sx_reach("stepped");
}
HARNESS(c04_history) // case = capacity * 10 + number of operations, from new
{
    sx_expect("end"); size_t N = (size_t)(sx_case() / 10); FB b(N); Model m;
    for (int i = 0; i < sx_case() % 10; ++i)
    {
        if (sx_enum(2, "operation")) { size_t n = (size_t)sx_enum(N + 2, "count"); b.erase_begin(n); m.erase(n); }
        else
        {
            size_t n = (size_t)sx_enum(N + 2, "length"); SxBuf d(n, "data"); size_t r = b.write(d.p, n);
            if (n && n <= N - m.v.size()) { sx_assert(r == n, "a write that fits is accepted in full"); m.write(d.p, n); } else sx_assert(r == 0, "a write that does not fit is refused");
        }
    }
    same(b, m, N); sx_reach("end");
}
HARNESS(c04_args) // any length argument at all, null source
{
    sx_expect("end"); size_t N = 4; FB b(N); Model m; SxBuf d(4, "data"); size_t k = (size_t)sx_enum(5, "held"); if (k) { sx_assert(b.write(d.p, k) == k, "accepted"); m.write(d.p, k); }
    uint64_t n = sx_range(0, ~0ull, "length"); sx_assume(n > N - k);
    sx_assert(b.write(d.p, n) == 0, "a write that does not fit is refused"); same(b, m, N);
    sx_assert(b.write(nullptr, (size_t)sx_enum(3, "null length")) == 0, "a null source is refused"); same(b, m, N);
    SxBuf out(4); uint64_t c = sx_range(0, ~0ull, "copy count"); sx_assume(c >= k); memset(out.p, 0x77, 4); b.copy_out(out.p, c); // bounded by what is held
    for (size_t i = 0; i < 4; ++i) sx_assert(i < k ? out.p[i] == d.p[i] : out.p[i] == 0x77, "copying more than is held copies what is held");
    b.copy_out(nullptr, 1); sx_reach("end");
}
HARNESS(c04_large) // capacity past 2^16; case selects the shape
{
    sx_expect("end"); size_t N = sx_case() & 1 ? 70000 : 300; FB b(N); Model m; std::vector<unsigned char> z(N + 1);
    for (size_t i = 0; i <= N; ++i) z[i] = (unsigned char)(i * 7 + (i >> 8));
    auto mark = [&](size_t at) { sx_bytes(&z[at], 1, "marker"); };
    mark(0); mark(N / 2); mark(N - 1); mark(255); mark(256);
    auto put = [&](size_t n) { size_t r = b.write(z.data(), n); if (n <= N - m.v.size()) { sx_assert(r == n, "a write that fits is accepted in full"); m.write(z.data(), n); } else sx_assert(r == 0, "a write that does not fit is refused"); };
    auto er = [&](size_t n) { b.erase_begin(n); m.erase(n); };
    auto chk = [&]() { sx_assert(b.size() == m.v.size(), "size"); sx_assert(m.v.empty() || sx_eq(b.data(), m.v.data(), m.v.size()), "held bytes"); };
    put(N); chk(); put(1); chk(); er(N - 2); chk(); put(N - 2); chk(); er(N - 1); chk(); put(N - 1); chk(); er(N / 2); put(N / 2); chk(); er(N + 5); chk(); put(N + 1); chk(); put(257); chk();
    sx_reach("end");
}
HARNESS(c04_read) // read_value at every index equals the little-endian bytes held there
{
    sx_expect("end"); size_t N = 9; FB b(N); Model m; size_t h = (size_t)sx_enum(10, "offset"); reach(b, m, N, h, 9);
    for (size_t i = 0; i + 8 <= 9; ++i) { uint64_t v; memcpy(&v, &m.v[i], 8); sx_assert(b.read_value<uint64_t>(i) == v, "64-bit read"); }
    for (size_t i = 0; i + 4 <= 9; ++i) { uint32_t v; memcpy(&v, &m.v[i], 4); sx_assert(b.read_value<uint32_t>(i) == v, "32-bit read"); }
    for (size_t i = 0; i + 2 <= 9; ++i) { uint16_t v; memcpy(&v, &m.v[i], 2); sx_assert(b.read_value<uint16_t>(i) == v, "16-bit read"); }
    sx_reach("end");
}
template <size_t M> static void search(size_t N, size_t s)
{
    FB b(N); Model m; size_t h = (size_t)sx_enum(N + 1, "offset"); sx_assume(s > 0 || h == 0);
    if (s || h) reach(b, m, N, h, s);
    // stale bytes right after the live window
    if (s && s < N) { size_t k = N - s; SxBuf st(k, "discarded earlier"); (void)st; }
    std::array<unsigned char, M> pat; sx_bytes(pat.data(), M, "pattern");
    size_t start = (size_t)sx_enum(s + 2, "start"); size_t cnt = (size_t)sx_enum(s + 2, "count"); if (cnt == s + 1) cnt = FB::npos;
    size_t end = start >= s ? start : (cnt > s - start ? s : start + cnt);
    size_t want = FB::npos;
    for (size_t p = end; p-- > start && p < s;)
    {
        bool ok = true; for (size_t k = 0; k < M && p + k < end; ++k) ok &= m.v[p + k] == pat[k];
        want = ok ? p : want;
    }
    size_t got = b.search_chars(pat, start, cnt);
    sx_assert(got == want, "search returns the first match, or the match cut by the end of the searched bytes");
    if (M == 1) sx_assert(b.search_char(pat[0], start, cnt) == want, "single-byte search agrees");
    same(b, m, N); sx_reach("searched");
}
HARNESS(c05_search) // case = live bytes * 4 + pattern length - 1
{
    sx_expect("searched"); size_t s = (size_t)(sx_case() / 4), N = s + 2;
    switch (sx_case() % 4) { case 0: search<1>(N, s); break; case 1: search<2>(N, s); break; case 2: search<3>(N, s); break; default: search<4>(N, s); }
}
HARNESS(c05_stale) // bytes beyond the live window (discarded or overwritten earlier) never take part in a match
{
    sx_expect("end"); size_t N = 6; FB b(N); SxBuf d(6, "first write"); sx_assert(b.write(d.p, 6) == 6, "accepted"); b.erase_begin(6);
    size_t s = (size_t)sx_enum(5, "live"); SxBuf e(s, "second write"); if (s) sx_assert(b.write(e.p, s) == s, "accepted");
    std::array<unsigned char, 3> pat; sx_bytes(pat.data(), 3, "pattern"); size_t want = FB::npos;
    for (size_t p = s; p-- > 0;) { bool ok = true; for (size_t k = 0; k < 3 && p + k < s; ++k) ok &= e.p[p + k] == pat[k]; want = ok ? p : want; }
    sx_assert(b.search_chars(pat, 0) == want, "stale bytes are not searched"); sx_reach("end");
}
HARNESS(c05_long) // two symbolic candidates far apart in a long buffer
{
    sx_expect("found"); size_t N = 300; FB b(N); std::vector<unsigned char> z(N, 0); size_t a = (size_t)sx_enum(3, "where") * 120 + 7, c = 290;
    sx_bytes(&z[a], 3, "early"); sx_bytes(&z[c], 3, "late"); sx_assert(b.write(z.data(), N) == N, "accepted");
    std::array<unsigned char, 3> pat{0xAA, 0x44, 0x12}; size_t got = b.search_chars(pat, 0);
    auto is = [&](size_t p) { return (z[p] == 0xAA) & (z[p + 1] == 0x44) & (z[p + 2] == 0x12); };
    sx_assert(got == (is(a) ? a : is(c) ? c : FB::npos), "first of two"); if (got == c) sx_reach("found");
}
HARNESS(c06_move) // case = capacity * 2 + (0 construct, 1 assign)
{
    sx_expect("end"); size_t N = (size_t)(sx_case() / 2); FB b(N); Model m;
    size_t h = (size_t)sx_enum(2 * N, "offset"), s = (size_t)sx_enum(N + 1, "size"); sx_assume(h + s <= 2 * N && (s > 0 || h == 0)); sx_assume(N > 1 || h == 0);
    reach(b, m, N, h, s);
    if (sx_case() & 1)
    {
        FB c(N + 1); SxBuf junk(N + 1, "overwritten"); size_t j = (size_t)sx_enum(3, "previous"); if (j) { (void)c.write(junk.p, j); c.erase_begin(j - 1); }
        c = std::move(b); same(c, m, N); op(c, m, N);
    }
    else { FB c(std::move(b)); same(c, m, N); op(c, m, N); if (N <= 2) op(c, m, N); }
    sx_reach("end");
}
// ------------------------------------------------------------------ counters
template <typename T, typename F> static void counts(int ops, F fresh)
{
    T t; std::vector<std::pair<decltype(fresh()), uint64_t>> ref;
    sx_assert(t.GetCounts().empty(), "a new tracker counts nothing");
    for (int i = 0; i < ops; ++i)
    {
        if (i > 0 && sx_enum(2, "operation")) { t.Reset(); ref.clear(); sx_reach("reset"); }
        else
        {
            auto k = fresh(); t.Increment(k); bool hit = false;
            for (auto& r : ref) if (r.first == k) { ++r.second; hit = true; sx_reach("repeated"); break; }
            if (!hit) ref.push_back({k, 1});
        }
        const auto& c = t.GetCounts(); sx_assert(c.size() == ref.size(), "one entry per key counted since the last reset");
        for (auto& r : ref) { auto it = c.find(r.first); sx_assert(it != c.end(), "every counted key is present"); sx_assert(it->second == r.second, "count equals the number of increments"); }
    }
    auto k = fresh(); bool in = false; for (auto& r : ref) in |= r.first == k;
    sx_assert((t.GetCounts().find(k) != t.GetCounts().end()) == in, "a key is present exactly when it was counted"); sx_reach("end");
}
using OemKey = oem::HeaderDecoder::MessageCountsKey;
HARNESS(c07_history) // case = operations * 10 + key type
{
    sx_expect("end"); sx_expect("reset"); sx_expect("repeated"); int n = sx_case() / 10;
    switch (sx_case() % 10)
    {
    case 0: counts<MessageCountsTracker<uint16_t>>(n, [] { return sx_any<uint16_t>("key"); }); break;
    case 1: counts<MessageCountsTracker<uint64_t>>(n, [] { return sx_any<uint64_t>("key"); }); break;
    case 2: counts<oem::HeaderDecoder::MessageCountsTrackerT>(n, [] { return OemKey(sx_any<uint16_t>("id"), (HEADER_FORMAT)sx_any<uint8_t>("format"), sx_any<uint8_t>("sibling")); }); break;
    case 3: counts<MessageCountsTracker<std::string>>(n, [] { std::string s((size_t)sx_enum(3, "key length"), 'x'); for (auto& c : s) c = sx_any<char>("key char"); return s; }); break;
    }
}
HARNESS(c07_many) // one key counted many times between others: no saturation or wrap below 2^17
{
    sx_expect("end"); MessageCountsTracker<uint32_t> t; uint32_t k = sx_any<uint32_t>("key"), o = sx_any<uint32_t>("other"); sx_assume(k != o);
    size_t n = (size_t)sx_case(); for (size_t i = 0; i < n; ++i) t.Increment(k);
    t.Increment(o); auto& c = t.GetCounts(); sx_assert(c.at(k) == n && c.at(o) == 1 && c.size() == 2, "large counts are exact"); sx_reach("end");
}
HARNESS(c07_hash) // OEM key hash: distinct keys never share a hash value (as documented)
{
    sx_expect("end"); OemKey a(sx_any<uint16_t>("id"), (HEADER_FORMAT)sx_any<uint8_t>("format"), sx_any<uint8_t>("sibling")), b(sx_any<uint16_t>("id"), (HEADER_FORMAT)sx_any<uint8_t>("format"), sx_any<uint8_t>("sibling"));
    oem::HeaderDecoder::MessageCountsKeyHash h; sx_assert((h(a) == h(b)) == (a == b), "two different keys have two different hash values"); sx_reach("end");
}
// ------------------------------------------------------------------ comparison, digits
HARNESS(c08_isequal)
{
    sx_expect("end"); double a = sx_any<double>("a"), b = sx_any<double>("b"), e = sx_any<double>("eps");
    bool r = IsEqual(a, b, e); double d = a - b;
    bool want = sx_case() == 0 ? (d < e) & (-d < e) & (d == d) : r;
    if (sx_case() == 0) sx_assert(r == want, "equal exactly when the difference is within the tolerance on both sides");
    if (sx_case() == 1) sx_assert(r == ((d < e) & (-e < d)), "equal exactly when the difference lies strictly between the negative and the positive tolerance (hence symmetric: a-b is -(b-a))");
    if (sx_case() == 2) { if ((a != a) | (b != b) | (e != e)) sx_assert(!r, "never equal to not-a-number"); }
    if (sx_case() == 3) sx_assert(IsEqual(a, b) == IsEqual(a, b, 0.001), "default tolerance is 0.001");
    if (sx_case() == 4) { if (e > 0 && a - a == 0) sx_assert(IsEqual(a, a, e), "every finite number equals itself under a positive tolerance"); sx_assert(!IsEqual(a, b, 0.0), "nothing is within a zero tolerance"); }
    sx_reach("end");
}
HARNESS(c08_digit)
{
    sx_expect("end"); char c = sx_any<char>("c"); sx_assume(c >= '0' && c <= '9'); int32_t v = ToDigit(c);
    sx_assert(v == (int32_t)c - 48, "digit value"); sx_assert(v >= 0 && v <= 9, "digit range"); sx_reach("end");
}
// ------------------------------------------------------------------ identifiers
HARNESS(c09_pack)
{
    sx_expect("end"); uint32_t id = sx_any<uint32_t>("id"), sib = sx_any<uint32_t>("sibling"), fmt = sx_any<uint32_t>("format"), resp = sx_any<uint32_t>("response");
    uint32_t m = CreateMsgId(id, sib, fmt, resp);
    sx_assert(m == ((id & 0xFFFFu) | (sib & 31u) << 16 | (fmt & 3u) << 21 | (resp & 1u) << 23), "packed layout");
    uint16_t a; uint32_t b, c, d; UnpackMsgId(m, a, b, c, d);
    sx_assert(a == (uint16_t)id && b == (sib & 31) && c == (fmt & 3) && d == (resp & 1), "unpacking gives back what was packed");
    uint8_t t = PackMsgType(sib, fmt, resp); sx_assert(t == (uint8_t)((sib & 31u) | (fmt & 3u) << 5 | (resp & 1u) << 7), "packed message type"); sx_assert(t == (uint8_t)(m >> 16), "message type is the attribute byte of the identifier");
    sx_reach("end");
}
HARNESS(c09_unpack)
{
    sx_expect("end"); uint32_t m = sx_any<uint32_t>("identifier"); uint16_t a; uint32_t b, c, d; UnpackMsgId(m, a, b, c, d);
    sx_assert(a == (m & 0xFFFF) && b == (m >> 16 & 31) && c == (m >> 21 & 3) && d == (m >> 23 & 1), "attributes read from their bits");
    sx_assert(CreateMsgId(a, b, c, d) == (m & 0xFFFFFF), "repacking preserves every defined bit"); sx_reach("end");
}
// ------------------------------------------------------------------ output helpers
// runs one helper against an exactly sized buffer with `room` bytes; `want` is the text it must append
struct Out
{
    SxBuf mem; char* p; uint32_t left; size_t room;
    explicit Out(size_t r) : mem(r), p((char*)mem.p), left((uint32_t)r), room(r) { memset(mem.p, 0xEE, r); }
    void done(bool ok, const unsigned char* want, size_t n)
    {
        if (ok)
        {
            sx_assert(n <= room, "success only when it fits"); sx_assert(p == (char*)mem.p + n, "cursor moves by the bytes written"); sx_assert(left == room - n, "remaining space shrinks by the bytes written");
            sx_assert(n == 0 || sx_eq(mem.p, want, n), "exactly the requested bytes are written"); for (size_t i = n; i < room; ++i) sx_assert(mem.p[i] == 0xEE, "nothing after them is touched");
            sx_reach("fits");
        }
        else { sx_assert(p == (char*)mem.p && left == room, "failure leaves cursor and space unchanged"); sx_reach("refused"); }
    }
};
// decimal text of v, most significant digit first
static size_t dec(uint64_t mag, bool neg, unsigned char* o)
{
    unsigned char t[24]; size_t k = 0; do { t[k++] = (unsigned char)('0' + mag % 10); mag /= 10; } while (mag); size_t n = 0; if (neg) o[n++] = '-'; while (k) o[n++] = t[--k]; return n;
}
static const uint64_t HIGH[] = {0, ~0ull, 1ull << 31, 1ull << 63, 4294967295ull, 999999999ull, 9999999999ull, 99999999999999999ull, 999999999999999999ull, 9999999999999999999ull, 123456789012345ull, 999999ull, 9999999ull, 99999999ull};
template <typename T> static void ints(size_t room, int near = -1)
{
    T v; if (near < 0) v = sx_any<T>("value"); else v = (T)((HIGH[near] & ~63ull) + (sx_any<uint8_t>("low bits") & 127u)); 
    Out o(room); bool ok = WriteIntToBuffer(&o.p, o.left, v);
    size_t n = (size_t)(o.p - (char*)o.mem.p);
    if (ok)
    {
        // read back with independent arithmetic
        sx_assert(n > 0, "at least one digit"); size_t i = 0; bool neg = o.mem.p[0] == '-'; if (neg) ++i; sx_assert(i < n, "digits follow the sign");
        uint64_t r = 0; sx_assert(n - i == 1 || o.mem.p[i] != '0', "no leading zero"); for (; i < n; ++i) { sx_assert(o.mem.p[i] >= '0' && o.mem.p[i] <= '9', "digits only"); r = r * 10 + (uint64_t)(o.mem.p[i] - '0'); }
        sx_assert(neg == (v < 0), "sign"); sx_assert((neg ? 0 - r : r) == (uint64_t)(int64_t)v, "the text reads back as the same value");
        sx_assert(o.left == room - n, "remaining space"); for (size_t k = n; k < room; ++k) sx_assert(o.mem.p[k] == 0xEE, "nothing after it is touched"); sx_reach("fits");
    }
    else { sx_assert(o.p == (char*)o.mem.p && o.left == room, "failure leaves cursor and space unchanged"); uint64_t lim = 1; for (size_t k = 0; k < room && k < 19; ++k) lim *= 10; bool neg = v < 0; uint64_t mag = neg ? 0 - (uint64_t)(int64_t)v : (uint64_t)v;
           if (room < 19) sx_assert(neg ? (room == 0 || mag >= lim / 10) : room == 0 || mag >= lim, "refused only when the digits do not fit"); sx_reach("refused"); }
}
HARNESS(c10_int) // case = room * 10 + type
{
    size_t room = (size_t)(sx_case() / 10); if (room) sx_expect("fits"); 
    switch (sx_case() % 10) { case 0: ints<uint8_t>(room); break; case 1: ints<int8_t>(room); break; case 2: ints<uint16_t>(room); break; case 3: ints<int16_t>(room); break; case 4: ints<uint32_t>(room); break; case 5: ints<int32_t>(room); break; case 6: ints<uint64_t>(room); break; case 7: ints<int64_t>(room); break; }
}
HARNESS(c10_int_wide) // case = constant * 4 + type: every value in the window, with room for it
{
    sx_expect("fits"); int k = sx_case() / 4; switch (sx_case() % 4) { case 0: ints<uint32_t>(21, k); break; case 1: ints<int32_t>(21, k); break; case 2: ints<uint64_t>(21, k); break; default: ints<int64_t>(21, k); break; }
}
template <typename T> static void hexs(size_t room, uint32_t width)
{
    T v = sx_any<T>("value"); Out o(room); bool ok = WriteHexToBuffer(&o.p, o.left, v, width); unsigned char w[40]; size_t n = 0, dg = 1;
    for (size_t i = sizeof(T) * 2; i > 1; --i) if ((uint64_t)v >> (4 * (i - 1)) & 15) { dg = i; break; }
    for (size_t i = dg; i < width; ++i) w[n++] = '0';
    for (size_t i = dg; i-- > 0;) { unsigned d = (unsigned)((uint64_t)v >> (4 * i) & 15); w[n++] = (unsigned char)(d < 10 ? '0' + d : 'a' + d - 10); }
    o.done(ok, w, n); if (!ok) sx_assert(room < std::max<size_t>(width, sizeof(T) * 2), "refused only without room for the widest value");
}
HARNESS(c10_hex) // case = width * 100 + room * 4 + log2 size
{
    uint32_t width = (uint32_t)(sx_case() / 100); size_t room = (size_t)(sx_case() % 100 / 4); sx_expect("hex");
    switch (sx_case() % 4) { case 0: hexs<uint8_t>(room, width); break; case 1: hexs<uint16_t>(room, width); break; case 2: hexs<uint32_t>(room, width); break; case 3: hexs<uint64_t>(room, width); break; }
    sx_reach("hex");
}
HARNESS(c10_copy) // case = room
{
    size_t room = (size_t)sx_case(); sx_expect("refused"); if (room) sx_expect("fits");
    SxBuf s(8, "source"); size_t n = (size_t)sx_enum(8, "length");
    switch (sx_enum(9, "helper"))
    {
    case 0: { Out o(room); o.done(CopyToBuffer(&o.p, o.left, std::string_view((char*)s.p, n)), s.p, n); break; }
    case 1: { std::string t((char*)s.p, n); Out o(room); o.done(CopyToBuffer(&o.p, o.left, t), s.p, n); break; }
    case 2: { char z[9]; memcpy(z, s.p, 8); for (size_t i = 0; i < n; ++i) sx_assume(z[i] != 0); z[n] = 0; Out o(room); o.done(CopyToBuffer(&o.p, o.left, (const char*)z), s.p, n); break; }
    case 3: { uint32_t v; memcpy(&v, s.p, 4); Out o(room); o.done(CopyToBuffer(&o.p, o.left, v), s.p, 4); break; }
    case 4: { double v; memcpy(&v, s.p, 8); Out o(room); o.done(CopyToBuffer(&o.p, o.left, v), s.p, 8); break; }
    case 5: { char v = (char)s.p[0]; Out o(room); o.done(CopyToBuffer(&o.p, o.left, v), s.p, 1); break; }
    case 6: { Out o(room); unsigned char f[8]; memset(f, s.p[0], 8); unsigned char* q = (unsigned char*)o.p; bool ok = SetInBuffer(&q, o.left, s.p[0], (uint32_t)n); o.p = (char*)q; o.done(ok, f, n); break; }
    case 7: { uint32_t big = sx_any<uint32_t>("any length"); sx_assume(big > room); Out o(room); sx_assert(!SetInBuffer(&o.p, o.left, 0, big), "refused"); o.done(false, nullptr, 0); break; }
    default: { Out o(room); unsigned char* q = (unsigned char*)o.p; bool ok = CopyToBuffer(&q, o.left, std::string_view((char*)s.p, n)); o.p = (char*)q; o.done(ok, s.p, n); break; }
    }
}
HARNESS(c10_all) // several items in one call: written in order with separators, cursor always consistent. case = room
{
    size_t room = (size_t)sx_case(); sx_expect("end"); if (room > 12) sx_expect("fits");
    SxBuf s(3, "text"); uint8_t v = sx_any<uint8_t>("number"), h = sx_any<uint8_t>("hex"); unsigned char w[32]; size_t n = 0;
    bool sep = sx_enum(2, "separated") != 0;
    w[n++] = s.p[0]; w[n++] = s.p[1]; w[n++] = s.p[2]; if (sep) w[n++] = ','; n += dec(v, false, w + n); if (sep) w[n++] = ',';
    const char* H = "0123456789abcdef"; for (int i = 0; i < 2; ++i) w[n++] = '0'; w[n++] = (unsigned char)((h >> 4) < 10 ? '0' + (h >> 4) : 'a' + (h >> 4) - 10); w[n++] = (unsigned char)((h & 15) < 10 ? '0' + (h & 15) : 'a' + (h & 15) - 10); (void)H; if (sep) w[n++] = ','; w[n++] = 'Z';
    Out o(room); std::string_view sv((char*)s.p, 3);
    bool ok = sep ? CopyAllToBufferSeparated(&o.p, o.left, ',', sv, v, HexValue<uint8_t>{h, 4}, 'Z') : CopyAllToBuffer(&o.p, o.left, sv, v, HexValue<uint8_t>{h, 4}, 'Z');
    if (ok) o.done(true, w, n);
    else
    {
        size_t k = (size_t)(o.p - (char*)o.mem.p); sx_assert(k + o.left == room, "cursor and remaining space agree after a partial append"); sx_assert(room < n, "refused only when it does not fit");
        sx_assert(k <= n, "never more than asked for"); sx_assert(k == 0 || sx_eq(o.mem.p, w, k), "what was appended is a prefix");
    }
    sx_reach("end");
}
