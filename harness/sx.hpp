// Harness interface. The same harness source is executed symbolically (symx) and natively (replay of a counterexample).
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <memory>
#include <string>
#include <string_view>
#include <vector>
extern "C" {
void sx_bytes(void* p, size_t n, const char* name);          // n fresh symbolic bytes
void sx_assume(bool c);
void sx_assert_(bool c, const char* msg);
int sx_case();                                               // job parameter (concrete)
void sx_reach(const char* tag);                              // witness that a point is reachable
void sx_expect(const char* tag);                             // the run is vacuous unless some path reaches tag
uint64_t sx_range(uint64_t lo, uint64_t hi, const char* name); // symbolic value in [lo,hi]
uint64_t sx_enum(uint64_t n, const char* name);              // one path per value 0..n-1
uint64_t sx_concretize(uint64_t v);                          // one path per feasible value
void sx_note(const char* msg);
bool sx_eq(const void* a, const void* b, size_t n);          // byte equality as one formula (no forking)
}
#define sx_assert(c, msg) sx_assert_((c), msg)
#define HARNESS(n) extern "C" void n()
template <typename T> inline T sx_any(const char* name) { T v; sx_bytes(&v, sizeof v, name); return v; }
// exactly sized heap block: any access beyond it is detected
struct SxBuf
{
    unsigned char* p; size_t n;
    explicit SxBuf(size_t n_) : p(new unsigned char[n_]), n(n_) {}
    SxBuf(size_t n_, const char* name) : p(new unsigned char[n_]), n(n_) { sx_bytes(p, n, name); }
    SxBuf(const SxBuf&) = delete;
    ~SxBuf() { delete[] p; }
    unsigned char& operator[](size_t i) { return p[i]; }
};
