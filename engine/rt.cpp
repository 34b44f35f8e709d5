// Runtime model linked into every encoded module: the parts of libstdc++/libc that the repository calls but that are not
// in headers. It is executed symbolically like the rest (plain loops), except for the sx_* natives.
#include <charconv>
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <new>
#include <stdexcept>
#include <string>
#include <typeinfo>
#include <unordered_map>

extern "C" {
const char* sx_from_chars_d(const char*, const char*, double*, int*);
const char* sx_from_chars_f(const char*, const char*, float*, int*);
char* sx_to_chars_d(char*, char*, double, int, int, int*);
char* sx_to_chars_f(char*, char*, float, int, int, int*);
int sx_is_concrete(const void*, size_t);
}

template class std::basic_string<char>;

namespace std {
exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_function_call::~bad_function_call() noexcept {}
const char* bad_function_call::what() const noexcept { return "bad_function_call"; }

static char* dupMsg(const char* s, size_t n) { char* p = (char*)malloc(n + 1); memcpy(p, s, n); p[n] = 0; return p; }
__cow_string::__cow_string() : _M_p(dupMsg("", 0)) {}
__cow_string::__cow_string(const std::string& s) : _M_p(dupMsg(s.data(), s.size())) {}
__cow_string::__cow_string(const char* s, size_t n) : _M_p(dupMsg(s, n)) {}
__cow_string::__cow_string(const __cow_string& o) noexcept : _M_p(o._M_p) {}
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept { _M_p = o._M_p; return *this; }
__cow_string::~__cow_string() {}
__cow_string::__cow_string(__cow_string&& o) noexcept : _M_p(o._M_p) {}
__cow_string& __cow_string::operator=(__cow_string&& o) noexcept { _M_p = o._M_p; return *this; }

runtime_error::runtime_error(const std::string& s) : _M_msg(s) {}
runtime_error::runtime_error(const char* s) : _M_msg(s, strlen(s)) {}
runtime_error::runtime_error(const runtime_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error::~runtime_error() noexcept {}
const char* runtime_error::what() const noexcept { const char* p; memcpy(&p, &_M_msg, sizeof p); return p; }
logic_error::logic_error(const std::string& s) : _M_msg(s) {}
logic_error::logic_error(const char* s) : _M_msg(s, strlen(s)) {}
logic_error::logic_error(const logic_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error::logic_error(logic_error&& o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error::~logic_error() noexcept {}
const char* logic_error::what() const noexcept { const char* p; memcpy(&p, &_M_msg, sizeof p); return p; }
#define LOGIC(T) T::T(const std::string& s) : logic_error(s) {} T::T(const char* s) : logic_error(s) {} T::~T() noexcept {}
#define RUNTIME(T) T::T(const std::string& s) : runtime_error(s) {} T::T(const char* s) : runtime_error(s) {} T::~T() noexcept {}
LOGIC(invalid_argument) LOGIC(out_of_range) LOGIC(length_error) LOGIC(domain_error)
RUNTIME(range_error) RUNTIME(overflow_error) RUNTIME(underflow_error)

void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_domain_error(const char* s) { throw domain_error(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
void __throw_range_error(const char* s) { throw range_error(s); }
void __throw_overflow_error(const char* s) { throw overflow_error(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }

// one bucket: hashing never decides anything, key equality does
size_t _Hash_bytes(const void*, size_t, size_t) { return 1; }
size_t _Fnv_hash_bytes(const void*, size_t, size_t) { return 1; }
namespace __detail {
size_t _Prime_rehash_policy::_M_next_bkt(size_t) const { _M_next_resize = (size_t)-1; return 1; }
std::pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t, size_t, size_t) const { return {false, 0}; }
} // namespace __detail

// decimal text to double: exact for up to 15 significant digits and 22 fractional digits (mantissa and power of ten are
// both exactly representable and a single IEEE division rounds correctly); other symbolic text is enumerated by the engine.
static const double P10[23] = {1e0, 1e1, 1e2, 1e3, 1e4, 1e5, 1e6, 1e7, 1e8, 1e9, 1e10, 1e11, 1e12, 1e13, 1e14, 1e15, 1e16, 1e17, 1e18, 1e19, 1e20, 1e21, 1e22};
static bool simpleDec(const char* p, const char* e, double& out, const char*& end)
{
    bool neg = false, any = false, dot = false; unsigned sig = 0, frac = 0; uint64_t m = 0;
    if (p != e && *p == '-') { neg = true; ++p; }
    for (; p != e; ++p)
    {
        if (*p == '.' && !dot) { dot = true; continue; }
        unsigned d = (unsigned)(unsigned char)*p - '0';
        if (d > 9) break;
        any = true; m = m * 10 + d; if (++sig > 15) return false;
        if (dot) ++frac;
    }
    if (!any) return false;
    if (p != e && (*p == 'e' || *p == 'E')) return false;
    if (dot && p[-1] == '.' ) { /* trailing point is consumed, as the library does */ }
    double v = (double)m; if (frac) v = v / P10[frac];
    out = neg ? -v : v; end = p; return true;
}
from_chars_result from_chars(const char* f, const char* l, double& v, chars_format) noexcept
{
    const char* e; double d;
    if (!sx_is_concrete(f, (size_t)(l > f ? l - f : 0)) && simpleDec(f, l, d, e)) { v = d; return {e, errc()}; }
    int ec = 0; const char* r = sx_from_chars_d(f, l, &v, &ec); return {r, (errc)ec};
}
from_chars_result from_chars(const char* f, const char* l, float& v, chars_format) noexcept { int ec = 0; const char* r = sx_from_chars_f(f, l, &v, &ec); return {r, (errc)ec}; }
to_chars_result to_chars(char* f, char* l, double v, chars_format c, int p) noexcept { int ec = 0; char* r = sx_to_chars_d(f, l, v, (int)c, p, &ec); return {r, (errc)ec}; }
to_chars_result to_chars(char* f, char* l, float v, chars_format c, int p) noexcept { int ec = 0; char* r = sx_to_chars_f(f, l, v, (int)c, p, &ec); return {r, (errc)ec}; }
to_chars_result to_chars(char* f, char* l, double v, chars_format c) noexcept { int ec = 0; char* r = sx_to_chars_d(f, l, v, (int)c, -1000, &ec); return {r, (errc)ec}; }
to_chars_result to_chars(char* f, char* l, float v, chars_format c) noexcept { int ec = 0; char* r = sx_to_chars_f(f, l, v, (int)c, -1000, &ec); return {r, (errc)ec}; }
to_chars_result to_chars(char* f, char* l, double v) noexcept { int ec = 0; char* r = sx_to_chars_d(f, l, v, 0, -1001, &ec); return {r, (errc)ec}; }
to_chars_result to_chars(char* f, char* l, float v) noexcept { int ec = 0; char* r = sx_to_chars_f(f, l, v, 0, -1001, &ec); return {r, (errc)ec}; }
} // namespace std

extern "C" {
static int sx_errno;
int* __errno_location() { return &sx_errno; }
char __libc_single_threaded = 1;
void* __dso_handle = nullptr;
size_t strlen(const char* s) { size_t n = 0; while (s[n]) ++n; return n; }
int strcmp(const char* a, const char* b) { for (;; ++a, ++b) { unsigned char x = (unsigned char)*a, y = (unsigned char)*b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } }
int strncmp(const char* a, const char* b, size_t n) { for (; n; ++a, ++b, --n) { unsigned char x = (unsigned char)*a, y = (unsigned char)*b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } return 0; }
char* sx_strchr(const char* s, int c) __asm__("strchr");
char* sx_strchr(const char* s, int c) { for (;; ++s) { if (*s == (char)c) return (char*)s; if (!*s) return nullptr; } }
void* sx_memchr(const void* p, int c, size_t n) __asm__("memchr");
void* sx_memchr(const void* p, int c, size_t n) { const unsigned char* s = (const unsigned char*)p; for (; n; ++s, --n) if (*s == (unsigned char)c) return (void*)s; return nullptr; }
size_t strcspn(const char* s, const char* r) { size_t n = 0; for (;; ++n) { char c = s[n]; for (const char* q = r;; ++q) { if (*q == c) return n; if (!*q) break; } } }
char* strcpy(char* d, const char* s) { char* r = d; while ((*d++ = *s++)) {} return r; }
char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; ++i) d[i] = s[i]; for (; i < n; ++i) d[i] = 0; return d; }
char* sx_strstr(const char* h, const char* n) __asm__("strstr");
char* sx_strstr(const char* h, const char* n) { for (;; ++h) { const char *a = h, *b = n; while (*b && *a == *b) { ++a; ++b; } if (!*b) return (char*)h; if (!*h) return nullptr; } }
int isdigit(int c) { return (unsigned)c - '0' < 10; }
int isalpha(int c) { return ((unsigned)c | 32) - 'a' < 26; }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
int isspace(int c) { return c == ' ' || (unsigned)c - '\t' < 5; }
int isxdigit(int c) { return isdigit(c) || (((unsigned)c | 32) - 'a' < 6); }
int isupper(int c) { return (unsigned)c - 'A' < 26; }
int islower(int c) { return (unsigned)c - 'a' < 26; }
int isprint(int c) { return (unsigned)c - 0x20 < 0x5f; }
int toupper(int c) { return islower(c) ? c & 0x5f : c; }
int tolower(int c) { return isupper(c) ? c | 32 : c; }
static unsigned digitOf(char c) { if ((unsigned)c - '0' < 10) return (unsigned)c - '0'; if (((unsigned)c | 32) - 'a' < 26) return ((unsigned)c | 32) - 'a' + 10; return 99; }
static unsigned long long strtoBase(const char* s, char** end, int base, bool sgn, unsigned long long maxPos, unsigned long long maxNeg)
{
    const char* p = s; while (isspace((unsigned char)*p)) ++p;
    bool neg = false; if (*p == '-' || *p == '+') { neg = *p == '-'; ++p; }
    if ((base == 0 || base == 16) && *p == '0' && (p[1] | 32) == 'x' && digitOf(p[2]) < 16) { p += 2; base = 16; }
    if (base == 0) base = *p == '0' ? 8 : 10;
    unsigned long long v = 0; bool any = false, over = false; unsigned long long lim = sgn && neg ? maxNeg : maxPos;
    for (;; ++p) { unsigned d = digitOf(*p); if (d >= (unsigned)base) break; any = true; if (v > (lim - d) / (unsigned)base) over = true; v = v * (unsigned)base + d; }
    if (end) *end = (char*)(any ? p : s);
    if (over) { sx_errno = 34; return lim; }
    return neg ? 0 - v : v;
}
long __isoc23_strtol(const char* s, char** e, int b) { unsigned long long v = strtoBase(s, e, b, true, 0x7fffffffffffffffull, 0x8000000000000000ull); return (long)v; }
unsigned long __isoc23_strtoul(const char* s, char** e, int b) { return strtoBase(s, e, b, false, ~0ull, ~0ull); }
long long __isoc23_strtoll(const char* s, char** e, int b) { return __isoc23_strtol(s, e, b); }
unsigned long long __isoc23_strtoull(const char* s, char** e, int b) { return strtoBase(s, e, b, false, ~0ull, ~0ull); }
// only the "%02x" conversion is used by the repository
int __isoc23_sscanf(const char* s, const char* fmt, ...)
{
    if (strcmp(fmt, "%02x")) abort();
    va_list ap; va_start(ap, fmt); unsigned* out = va_arg(ap, unsigned*); va_end(ap);
    while (isspace((unsigned char)*s)) ++s;
    if (!*s) return -1;
    unsigned w = 2, v = 0; bool any = false, neg = false;
    if (*s == '-' || *s == '+') { neg = *s == '-'; ++s; --w; }
    if (w == 2 && *s == '0' && (s[1] | 32) == 'x') { *out = 0; return 1; }
    for (; w; --w, ++s) { unsigned d = digitOf(*s); if (d > 15) break; v = v * 16 + d; any = true; }
    if (!any) return 0;
    *out = neg ? 0 - v : v; return 1;
}
}
