// Verification stub of the simdjson DOM API: a small, independent recursive JSON reader with the same
// observable behaviour on valid documents and the same strict type tags (INT64 / UINT64 / DOUBLE).
#pragma once
#include <charconv>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <memory>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>
#include <vector>
namespace simdjson {
enum error_code { SUCCESS = 0, CAPACITY, MEMALLOC, TAPE_ERROR, INCORRECT_TYPE, NUMBER_OUT_OF_RANGE, NO_SUCH_FIELD, IO_ERROR, EMPTY };
inline const char* error_message(error_code) { return "simdjson error"; }
template <typename T> struct simdjson_result
{
    T v{};
    error_code e{SUCCESS};
    simdjson_result() = default;
    simdjson_result(T&& t, error_code c) : v(std::move(t)), e(c) {}
    error_code error() const { return e; }
    template <typename U> error_code get(U& out)
    {
        if (e != SUCCESS) { return e; }
        if constexpr (std::is_same_v<U, T>) { out = std::move(v); return SUCCESS; }
        else { return v.get(out); }
    }
};
class padded_string
{
    std::string s;
  public:
    padded_string() = default;
    padded_string(const char* p, size_t n) : s(p, n) {}
    explicit padded_string(std::string_view v) : s(v) {}
    const char* data() const { return s.data(); }
    size_t size() const { return s.size(); }
    static simdjson_result<padded_string> load(const std::string&) { return {padded_string(), IO_ERROR}; }
};
namespace dom {
struct node;
using nodep = std::shared_ptr<node>;
struct node
{
    enum T { NUL, TRUE_, FALSE_, I64, U64, DBL, STR, ARR, OBJ } t{NUL};
    int64_t i{0};
    uint64_t u{0};
    double d{0};
    std::string s;
    std::vector<nodep> a;
    std::vector<std::string> k;
};
class array; class object;
class element
{
  public:
    const node* n{nullptr};
    element() = default;
    explicit element(const node* p) : n(p) {}
    bool is_null() const { return n == nullptr || n->t == node::NUL; }
    bool is_string() const { return n && n->t == node::STR; }
    bool is_array() const { return n && n->t == node::ARR; }
    bool is_object() const { return n && n->t == node::OBJ; }
    error_code get(element& o) const { o = *this; return SUCCESS; }
    error_code get(std::string_view& o) const { if (!n || n->t != node::STR) return INCORRECT_TYPE; o = n->s; return SUCCESS; }
    error_code get(const char*& o) const { if (!n || n->t != node::STR) return INCORRECT_TYPE; o = n->s.c_str(); return SUCCESS; }
    error_code get(bool& o) const { if (!n || (n->t != node::TRUE_ && n->t != node::FALSE_)) return INCORRECT_TYPE; o = n->t == node::TRUE_; return SUCCESS; }
    // Like simdjson: an INT64 tag converts to uint64 when non-negative, a UINT64 tag to int64 when it fits, any number to double.
    error_code get(uint64_t& o) const
    {
        if (!n) return INCORRECT_TYPE;
        if (n->t == node::U64) { o = n->u; return SUCCESS; }
        if (n->t == node::I64) { if (n->i < 0) return NUMBER_OUT_OF_RANGE; o = static_cast<uint64_t>(n->i); return SUCCESS; }
        return INCORRECT_TYPE;
    }
    error_code get(int64_t& o) const
    {
        if (!n) return INCORRECT_TYPE;
        if (n->t == node::I64) { o = n->i; return SUCCESS; }
        if (n->t == node::U64) { if (n->u > 0x7fffffffffffffffULL) return NUMBER_OUT_OF_RANGE; o = static_cast<int64_t>(n->u); return SUCCESS; }
        return INCORRECT_TYPE;
    }
    error_code get(double& o) const
    {
        if (!n) return INCORRECT_TYPE;
        if (n->t == node::DBL) { o = n->d; return SUCCESS; }
        if (n->t == node::I64) { o = static_cast<double>(n->i); return SUCCESS; }
        if (n->t == node::U64) { o = static_cast<double>(n->u); return SUCCESS; }
        return INCORRECT_TYPE;
    }
    inline error_code get(array& o) const;
    inline error_code get(object& o) const;
    simdjson_result<element> operator[](std::string_view key) const
    {
        if (!n || n->t != node::OBJ) return {element(), INCORRECT_TYPE};
        for (size_t i = 0; i < n->k.size(); ++i) { if (n->k[i] == key) return {element(n->a[i].get()), SUCCESS}; }
        return {element(), NO_SUCH_FIELD};
    }
};
class array
{
  public:
    const node* n{nullptr};
    struct iterator
    {
        const nodep* p;
        element operator*() const { return element(p->get()); }
        iterator& operator++() { ++p; return *this; }
        bool operator!=(const iterator& o) const { return p != o.p; }
        bool operator==(const iterator& o) const { return p == o.p; }
    };
    size_t size() const { return n ? n->a.size() : 0; }
    iterator begin() const { return {n ? n->a.data() : nullptr}; }
    iterator end() const { return {n ? n->a.data() + n->a.size() : nullptr}; }
};
struct key_value_pair { std::string_view key; element value; };
class object
{
  public:
    const node* n{nullptr};
    struct iterator
    {
        const node* n; size_t i;
        key_value_pair operator*() const { return {std::string_view(n->k[i]), element(n->a[i].get())}; }
        iterator& operator++() { ++i; return *this; }
        bool operator!=(const iterator& o) const { return i != o.i; }
    };
    size_t size() const { return n ? n->a.size() : 0; }
    iterator begin() const { return {n, 0}; }
    iterator end() const { return {n, n ? n->a.size() : 0}; }
    simdjson_result<element> operator[](std::string_view key) const { return element(n)[key]; }
};
inline error_code element::get(array& o) const { if (!n || n->t != node::ARR) return INCORRECT_TYPE; o.n = n; return SUCCESS; }
inline error_code element::get(object& o) const { if (!n || n->t != node::OBJ) return INCORRECT_TYPE; o.n = n; return SUCCESS; }
class parser
{
    nodep root;
    const char* p{nullptr};
    const char* e{nullptr};
    void ws() { while (p < e && (*p == ' ' || *p == '\t' || *p == '\n' || *p == '\r')) ++p; }
    bool str(std::string& out)
    {
        if (p >= e || *p != '"') return false;
        ++p;
        while (p < e && *p != '"')
        {
            unsigned char c = static_cast<unsigned char>(*p);
            if (c < 0x20) return false;
            if (c == '\\')
            {
                if (++p >= e) return false;
                switch (*p)
                {
                case '"': out.push_back('"'); break;
                case '\\': out.push_back('\\'); break;
                case '/': out.push_back('/'); break;
                case 'b': out.push_back('\b'); break;
                case 'f': out.push_back('\f'); break;
                case 'n': out.push_back('\n'); break;
                case 'r': out.push_back('\r'); break;
                case 't': out.push_back('\t'); break;
                case 'u': {
                    if (e - p < 5) return false;
                    unsigned v = 0;
                    for (int i = 1; i <= 4; ++i)
                    {
                        char h = p[i]; unsigned dgt;
                        if (h >= '0' && h <= '9') dgt = h - '0';
                        else if (h >= 'a' && h <= 'f') dgt = h - 'a' + 10;
                        else if (h >= 'A' && h <= 'F') dgt = h - 'A' + 10;
                        else return false;
                        v = v * 16 + dgt;
                    }
                    p += 4;
                    if (v < 0x80) out.push_back(static_cast<char>(v));
                    else if (v < 0x800) { out.push_back(static_cast<char>(0xC0 | (v >> 6))); out.push_back(static_cast<char>(0x80 | (v & 0x3F))); }
                    else { out.push_back(static_cast<char>(0xE0 | (v >> 12))); out.push_back(static_cast<char>(0x80 | ((v >> 6) & 0x3F))); out.push_back(static_cast<char>(0x80 | (v & 0x3F))); }
                    break;
                }
                default: return false;
                }
                ++p;
            }
            else { out.push_back(*p++); }
        }
        if (p >= e) return false;
        ++p;
        return true;
    }
    bool lit(const char* s) { size_t l = std::strlen(s); if (static_cast<size_t>(e - p) < l || std::memcmp(p, s, l) != 0) return false; p += l; return true; }
    bool value(nodep& out, int depth)
    {
        if (depth > 64) return false;
        ws();
        if (p >= e) return false;
        out = std::make_shared<node>();
        switch (*p)
        {
        case '{':
            out->t = node::OBJ; ++p; ws();
            if (p < e && *p == '}') { ++p; return true; }
            for (;;)
            {
                ws();
                std::string key; if (!str(key)) return false;
                ws(); if (p >= e || *p != ':') return false; ++p;
                nodep c; if (!value(c, depth + 1)) return false;
                out->k.push_back(std::move(key)); out->a.push_back(std::move(c));
                ws(); if (p >= e) return false;
                if (*p == ',') { ++p; continue; }
                if (*p == '}') { ++p; return true; }
                return false;
            }
        case '[':
            out->t = node::ARR; ++p; ws();
            if (p < e && *p == ']') { ++p; return true; }
            for (;;)
            {
                nodep c; if (!value(c, depth + 1)) return false;
                out->a.push_back(std::move(c));
                ws(); if (p >= e) return false;
                if (*p == ',') { ++p; continue; }
                if (*p == ']') { ++p; return true; }
                return false;
            }
        case '"': out->t = node::STR; return str(out->s);
        case 't': out->t = node::TRUE_; return lit("true");
        case 'f': out->t = node::FALSE_; return lit("false");
        case 'n': out->t = node::NUL; return lit("null");
        default: break;
        }
        const char* q = p;
        bool dbl = false;
        if (q < e && *q == '-') ++q;
        const char* digits = q;
        while (q < e && *q >= '0' && *q <= '9') ++q;
        if (q == digits) return false;
        if (*digits == '0' && q - digits > 1) return false;
        if (q < e && *q == '.') { dbl = true; ++q; const char* f = q; while (q < e && *q >= '0' && *q <= '9') ++q; if (q == f) return false; }
        if (q < e && (*q == 'e' || *q == 'E'))
        {
            dbl = true; ++q;
            if (q < e && (*q == '+' || *q == '-')) ++q;
            const char* f = q; while (q < e && *q >= '0' && *q <= '9') ++q; if (q == f) return false;
        }
        if (dbl) { out->t = node::DBL; auto r = std::from_chars(p, q, out->d); if (r.ec != std::errc{}) return false; }
        else
        {
            auto r = std::from_chars(p, q, out->i);
            if (r.ec == std::errc{}) out->t = node::I64;
            else { if (*p == '-') return false; auto r2 = std::from_chars(p, q, out->u); if (r2.ec != std::errc{}) return false; out->t = node::U64; }
        }
        p = q;
        return true;
    }
  public:
    simdjson_result<element> parse(const char* d, size_t n)
    {
        p = d; e = d + n;
        ws();
        if (p >= e) return {element(), EMPTY};
        if (!value(root, 0)) return {element(), TAPE_ERROR};
        ws();
        if (p != e) return {element(), TAPE_ERROR};
        return {element(root.get()), SUCCESS};
    }
    simdjson_result<element> parse(std::string_view s) { return parse(s.data(), s.size()); }
    simdjson_result<element> parse(const padded_string& s) { return parse(s.data(), s.size()); }
    simdjson_result<element> parse(const std::string& s) { return parse(s.data(), s.size()); }
};
} // namespace dom
} // namespace simdjson
