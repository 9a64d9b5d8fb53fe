// Native run time of the harness interface: replays one counterexample (or witness) against the real code.
// usage: prog FUNCTION NARGS ARG... BYTE...
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <vector>
#include "vs.hpp"
static std::vector<unsigned char> bytes; static size_t used;
static unsigned char next() { return used < bytes.size() ? bytes[used++] : 0; }
extern "C"
{
    unsigned char *vs_input(unsigned long n)
    {
        auto *p = static_cast<unsigned char *>(malloc(n));
        for (unsigned long i = 0; i < n; ++i) p[i] = next();
        return p;
    }
    unsigned char vs_byte() { return next(); }
    void vs_assume(int c) { if (!c) { printf("ASSUMPTION-NOT-MET\n"); fflush(stdout); _Exit(4); } }
    void vs_check(int c, const char *m) { if (!c) { printf("CHECK-FAILED: %s\n", m); fflush(stdout); _Exit(3); } }
    void vs_cover(const char *l) { printf("cover: %s\n", l); }
    unsigned long vs_concrete(unsigned long v) { return v; }
}
int main(int argc, char **argv)
{
    if (argc < 3) return 2;
    void *f = dlsym(RTLD_DEFAULT, argv[1]);
    if (!f) { fprintf(stderr, "no function %s\n", argv[1]); return 2; }
    int n = atoi(argv[2]); unsigned long a[4] = {};
    for (int i = 0; i < n && i < 4; ++i) a[i] = strtoul(argv[3 + i], nullptr, 10);
    for (int i = 3 + n; i < argc; ++i) bytes.push_back((unsigned char)atoi(argv[i]));
    reinterpret_cast<void (*)(unsigned long, unsigned long, unsigned long, unsigned long)>(f)(a[0], a[1], a[2], a[3]);
    printf("PASSED\n");
    return 0;
}
