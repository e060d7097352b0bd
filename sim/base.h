// Shared basics of the simulator: PRNG, hashing, the record a simulated process leaves behind.
#pragma once
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <vector>
#include <map>
#include <memory>

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) {}
    uint64_t next() {
        uint64_t z = (s += 0x9e3779b97f4a7c15ull);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    uint32_t u(uint32_t n) { return n ? (uint32_t)(next() % n) : 0; }          // 0..n-1
    int range(int a, int b) { return a + (int)u((uint32_t)(b - a + 1)); }      // a..b
    bool chance(int num, int den) { return (int)u(den) < num; }
    template <class T> const T& pick(const std::vector<T>& v) { return v[u((uint32_t)v.size())]; }
};

inline uint64_t fnv(uint64_t h, const void* p, size_t n) {
    const unsigned char* c = (const unsigned char*)p;
    for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 0x100000001b3ull; }
    return h;
}
// cheaper hash for long buffers
inline uint64_t bighash(const void* p, size_t n) {
    const unsigned char* c = (const unsigned char*)p;
    uint64_t h = 0xcbf29ce484222325ull ^ n;
    size_t i = 0;
    for (; i + 8 <= n; i += 8) { uint64_t w; memcpy(&w, c + i, 8); h = (h ^ w) * 0x9e3779b97f4a7c15ull; h ^= h >> 29; }
    for (; i < n; i++) { h ^= c[i]; h *= 0x100000001b3ull; }
    return h;
}

// properties as bits, C01 is bit 1
inline uint32_t P(int n) { return 1u << n; }
template <class... A> inline uint32_t P(int n, A... a) { return (1u << n) | P(a...); }
static const uint32_t PROP_ALL = 0xffffffffu;

enum { CLS_OPEN, CLS_READ, CLS_WRITE, CLS_CLOSE, CLS_ALLOC, CLS_HANDLER, CLS_N };
static const char CLS_CHAR[] = "orwcah";
enum { SW_POINT, SW_STATIC, SW_SHARED, SW_N };  // classes of switch points
static const char SW_CHAR[] = "psh";

enum FaultKind {
    F_OPENFAIL, F_EIO, F_EINTR, F_EOF, F_ENOSPC, F_PARTIAL, F_CLOSEFAIL, F_OOM, F_OOM_FROM, F_HANDLERFAIL, F_CRASH, F_KIND_N
};
static const char* const FAULT_NAME[] = {"open-fails", "io-error", "interrupted", "early-eof", "disk-full", "partial-then-fail", "close-fails",
                                         "alloc-fails", "all-allocs-fail-from-here", "handler-fails", "crash"};

static const int MAXOPS = 160, MAXTHR = 4;
struct OpRec {
    int32_t started, done;
    int32_t ok;            // 1 success, 0 failure, -1 skipped
    uint64_t digest;       // observable result incl. diagnostics
    uint64_t result;       // observable result without diagnostics
    uint64_t edges;
    uint32_t counts[CLS_N];
    uint32_t fired;
};
struct Shared {
    OpRec op[MAXOPS];
    int32_t curop;
    int32_t verdict;       // 0 running/none, 1 ok, 2 violation, 3 stopped by an oracle of another property, 4 internal
    char cls[64];
    char msg[1500];
    uint64_t hash;         // event log hash
    uint64_t nevents;
    uint64_t steps;        // edges + loads/stores + seam calls
    uint64_t thrPoints[MAXTHR][SW_N];
    uint32_t fired[F_KIND_N];
    uint32_t switches;
    uint32_t probes[32];
    char switchTrace[4096];  // switches taken (for turning round-robin rules into lists)
    uint8_t cov[8192];
    uint32_t ncov;
    char newFiles[400];      // names of files the library made of its own accord, one per line
};
