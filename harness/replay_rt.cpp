// Native replay: feeds the recorded input values, in order, to a harness built against the real code.
#include "sx.hpp"
#include <cstdio>
#include <dlfcn.h>
#include <unistd.h>
static std::vector<std::vector<unsigned char>> g_in; static size_t g_pos; static int g_case;
static void die(int code, const char* what, const char* msg) { printf("REPLAY %s: %s\n", what, msg ? msg : ""); fflush(stdout); _exit(code); }
static std::vector<unsigned char> next(size_t n)
{
    std::vector<unsigned char> v; if (g_pos < g_in.size()) v = g_in[g_pos++];
    v.resize(n, 0); return v;
}
extern "C" {
void sx_bytes(void* p, size_t n, const char*) { if (!n) return; auto v = next(n); memcpy(p, v.data(), n); }
void sx_assume(bool c) { if (!c) die(78, "assumption not met", ""); }
void sx_assert_(bool c, const char* m) { if (!c) die(77, "assertion failed", m); }
int sx_case() { return g_case; }
void sx_reach(const char*) {}
void sx_expect(const char*) {}
uint64_t sx_range(uint64_t lo, uint64_t hi, const char*) { auto v = next(8); uint64_t x; memcpy(&x, v.data(), 8); if (x < lo || x > hi) die(78, "value out of range", ""); return x; }
uint64_t sx_enum(uint64_t n, const char*) { auto v = next(2); uint64_t x = (uint64_t)v[0] | (uint64_t)v[1] << 8; return x < n ? x : 0; }
uint64_t sx_concretize(uint64_t v) { return v; }
void sx_note(const char*) {}
bool sx_eq(const void* a, const void* b, size_t n) { return memcmp(a, b, n) == 0; }
__attribute__((weak)) void sx_setup();
}
int main(int argc, char** argv)
{
    if (argc < 3) return 2;
    FILE* f = fopen(argv[1], "rb"); if (!f) return 2;
    uint32_t n; while (fread(&n, 4, 1, f) == 1) { std::vector<unsigned char> v(n); if (n && fread(v.data(), 1, n, f) != n) break; g_in.push_back(v); }
    fclose(f); g_case = argc > 3 ? atoi(argv[3]) : 0;
    if (&sx_setup) sx_setup();
    auto fn = (void (*)())dlsym(RTLD_DEFAULT, argv[2]); if (!fn) { printf("no such harness\n"); return 2; }
    alarm(60);
    fn(); printf("REPLAY finished without a violation\n"); fflush(stdout); _exit(0);
}
