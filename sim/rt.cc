#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "rt.h"
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <unistd.h>
#include <sys/stat.h>
#include <unordered_map>
#include <sanitizer/asan_interface.h>

thread_local Thr* tc;
Shared* sh;
uint32_t curProp;
bool verbose;
World* W;
static FILE* traceOut;

// ---------------------------------------------------------------- event log
#define NOASAN __attribute__((no_sanitize("address")))
NOASAN void logWord(uint64_t v) { uint64_t h = (sh->hash ^ v) * 0x9e3779b97f4a7c15ull; sh->hash = h ^ h >> 29; }
NOASAN void logText(const char* s) {
    uint64_t h = sh->hash;
    if (s) for (; *s; s++) h = (h ^ (unsigned char)*s) * 0x100000001b3ull;
    sh->hash = h ^ h >> 31;
}
NOASAN void logEvent(const char* s) { sh->nevents++; logText(s); }
void evTrace(const char* fmt, ...) {
    char b[600];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b - 1, fmt, ap);
    va_end(ap);
    if (!traceOut) traceOut = fdopen(dup(3), "w");
    if (traceOut) { fprintf(traceOut, "t%d %s\n", tc ? tc->idx : -1, b); fflush(traceOut); }
}
static void record(int verdict, const char* cls, const char* msg) {
    if (sh->verdict == 0) {
        snprintf(sh->cls, sizeof sh->cls, "%s", cls);
        snprintf(sh->msg, sizeof sh->msg, "op %d: %s", tc ? tc->op : -1, msg);
        sh->verdict = verdict;
    }
}
void violate(uint32_t tags, const char* cls, const char* fmt, ...) {
    char b[1300];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    bool mine = (tags & curProp) != 0;
    ev("%s %s", mine ? "VIOLATION" : "other-property", cls);
    record(mine ? 2 : 3, cls, b);
    _exit(mine ? 10 : 11);
}
void internalError(const char* fmt, ...) {
    char b[1300];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    record(4, "internal", b);
    _exit(12);
}
void probe(int n) { sh->probes[n]++; }

// ---------------------------------------------------------------- faults
const Fault* fault(int cls) {
    int ord = (int)tc->counts[cls]++;
    sh->op[tc->op < 0 ? MAXOPS - 1 : tc->op].counts[cls] = tc->counts[cls];
    for (auto& f : W->faults) {
        if (f.op != tc->op || f.cls != cls) continue;
        if (f.ord == ord || (f.kind == F_OOM_FROM && ord > f.ord)) return &f;
    }
    return nullptr;
}
void firedFault(const Fault* f) {
    sh->fired[f->kind]++;
    f->fired = true;
    tc->opFired++;
    if (tc->op >= 0) sh->op[tc->op].fired = tc->opFired;
    ev("fault %s %c%d arg %ld", FAULT_NAME[f->kind], CLS_CHAR[f->cls], f->ord, f->arg);
}
void beginOp(int op, uint64_t budget) {
    Thr* t = tc;
    t->op = op;
    sh->curop = op;
    memset(t->counts, 0, sizeof t->counts);
    t->opEdges = 0;
    t->opFired = t->opHuge = t->opOpens = 0;
    t->budget = budget;
    t->room = -1;
    t->err.clear();
    t->nerr = t->nerrEmpty = 0;
    t->wroteFault = t->readFaultN = t->openFaultR = t->openFaultW = t->closeFaultN = t->allocFault = t->handlerFault = 0;
    t->openedForWrite = false;
}

// ---------------------------------------------------------------- allocator
struct Block { size_t n; int thr; int owner; int op; size_t cap; };   // cap: room for growing in place, out of bounds until then
static std::unordered_map<void*, Block>* blocks;
static std::unordered_map<void*, Block>& B() { if (!blocks) blocks = new std::unordered_map<void*, Block>; return *blocks; }
static void junkFill(char* p, size_t n) {
    uint64_t s = W->junk * 0x9e3779b97f4a7c15ull + n;
    // small blocks get byte-wise junk, large ones a repeated pattern
    unsigned char pat[16];
    for (int i = 0; i < 16; i++) { s ^= s >> 29; s *= 0xbf58476d1ce4e5b9ull; pat[i] = (unsigned char)(s >> 33); }
    if (W->junk % 4 == 0) memset(pat, 0xff, 16);
    size_t k = n < 16 ? n : 16;
    memcpy(p, pat, k);
    for (; k < n; k *= 2) memcpy(p + k, p, k < n - k ? k : n - k);
}
static bool refuse(size_t n) {
    point(SW_POINT);
    const Fault* f = fault(CLS_ALLOC);
    if (f) { firedFault(f); tc->allocFault++; errno = ENOMEM; return true; }
    // a request that no declared size explains fails as well, but does not excuse anything
    if ((int64_t)n > (int64_t)1 << 34 || ((int64_t)n < 0 && !tc->sizesDeclared)) { ev("alloc of %zd is absurd", (ssize_t)n); errno = ENOMEM; return true; }
    if ((int64_t)n < 0 || (int64_t)n > W->memBudget || W->memUsed + (int64_t)n > 20 * W->memBudget) { tc->opHuge++; ev("alloc of %zd exceeds memory", (ssize_t)n); probe(0); errno = ENOMEM; return true; }
    return false;
}
// In some runs a released block is handed out again by the next request of the same size (it is out of bounds until then).
static std::unordered_map<size_t, std::vector<char*>>* parked;
static bool reuses() { return W->junk / 4 % 2 == 0; }
static void unpark() {
    if (!parked) return;
    for (auto& e : *parked) for (char* p : e.second) { __asan_unpoison_memory_region(p, e.first); free(p); }
    parked->clear();
}
static void* grab(size_t n, int owner, size_t cap = 0) {
    char* p = nullptr;
    if (parked && !parked->empty()) {
        auto it = parked->find(n ? n : 1);
        if (it != parked->end() && !it->second.empty()) { p = it->second.back(); it->second.pop_back(); __asan_unpoison_memory_region(p, it->first); }
    }
    if (!p) p = (char*)malloc(std::max(cap, n ? n : (size_t)1));
    if (!p) internalError("out of real memory");
    if (cap) __asan_poison_memory_region(p + n, cap - n);
    junkFill(p, n);
    B()[p] = Block{n, tc->idx, owner, tc->op, cap};
    W->memUsed += (int64_t)n;
    W->memMade += (int64_t)n;
    tc->liveBlocks++;
    return p;
}
static void drop(void* p, const char* what) {
    auto it = B().find(p);
    if (it == B().end()) {
        violate(P(5, 6, 7, 12, 13, 14, 10, 11, 8), "bad-free", "%s of memory that is not allocated (released twice or never allocated)", what);
    }
    W->memUsed -= (int64_t)it->second.n;
    W->thr[it->second.thr].liveBlocks--;
    size_t n = it->second.n ? it->second.n : 1;
    if (it->second.cap) __asan_unpoison_memory_region(p, it->second.cap);
    B().erase(it);
    if (reuses() && n <= 4096) {
        if (!parked) parked = new std::unordered_map<size_t, std::vector<char*>>;
        __asan_poison_memory_region(p, n);
        (*parked)[n].push_back((char*)p);
    } else
        free(p);
}
extern "C" {
jmp_buf* simExit;
int simExitCode;
void* sim_malloc(size_t n) {
    if (refuse(n)) return nullptr;
    ev("malloc %zu", n);
    void* p = grab(n, tc->owner);
    point(SW_POINT);
    return p;
}
void* sim_calloc(size_t a, size_t b) {
    size_t n = a * b;
    if (b && n / b != a) n = (size_t)-1;
    if (refuse(n)) return nullptr;
    ev("calloc %zu", n);
    void* p = grab(n, tc->owner);
    memset(p, 0, n);
    point(SW_POINT);
    return p;
}
void* sim_realloc(void* old, size_t n) {
    if (old && !liveBlock(old)) violate(P(5, 6, 7, 8, 10, 11), "bad-realloc", "realloc of memory that is not allocated");
    if (refuse(n)) return nullptr;
    ev("realloc %zu", n);
    // a block moves whenever it grows; only big ones have room to grow in place, as moving them each time takes too long
    if (old && B()[old].cap >= n && n > B()[old].n) {
        Block& b = B()[old];
        size_t from = b.n & ~(size_t)7;                 // the rest of the room stays poisoned
        __asan_unpoison_memory_region((char*)old + from, n - from);
        junkFill((char*)old + b.n, n - b.n);
        W->memUsed += (int64_t)(n - b.n);
        b.n = n;
        point(SW_POINT);
        return old;
    }
    void* p = grab(n, old ? B()[old].owner : tc->owner, old && n > 8192 ? n + n / 4 : 0);
    if (old) {
        size_t o = B()[old].n;
        memcpy(p, old, o < n ? o : n);
        drop(old, "realloc");
    }
    point(SW_POINT);
    return p;
}
void* sim_reallocarray(void* p, size_t a, size_t b) {
    size_t n = a * b;
    if (b && n / b != a) n = (size_t)-1;
    return sim_realloc(p, n);
}
void sim_free(void* p) {
    point(SW_POINT);
    if (!p) return;
    ev("free");
    drop(p, "free");
    point(SW_POINT);
}
char* sim_strndup(const char* s, size_t m) {
    size_t n = strnlen(s, m);
    char* p = (char*)sim_malloc(n + 1);
    if (p) { memcpy(p, s, n); p[n] = 0; }
    return p;
}
char* sim_strdup(const char* s) { return sim_strndup(s, strlen(s)); }
void* sim_aligned_alloc(size_t, size_t n) { return sim_malloc(n); }
int sim_posix_memalign(void** p, size_t, size_t n) {
    void* q = sim_malloc(n);
    if (!q) return ENOMEM;
    *p = q;
    return 0;
}
}
void* appMalloc(size_t n) { return grab(n, tc->owner); }
void* appMallocNoJunk(size_t n) { return grab(n, tc->owner); }
int64_t liveByThread(int t) { return W->thr[t].liveBlocks; }
uint64_t liveTotal() { return B().size(); }
bool liveBlock(void* p, size_t* n) { auto it = B().find(p); if (it == B().end()) return false; if (n) *n = it->second.n; return true; }
void ownerSet(void* p, int o) { auto it = B().find(p); if (it != B().end()) it->second.owner = o; }
void setOwner(int o) { tc->owner = o; }
uint64_t liveByOwner(int o) { uint64_t c = 0; for (auto& e : B()) c += e.second.owner == o; return c; }
void reown(int a, int b) { for (auto& e : B()) if (e.second.owner == a) e.second.owner = b; }
void collectOwner(int o, std::vector<std::pair<char*, size_t>>& out) { for (auto& e : B()) if (e.second.owner == o) out.push_back({(char*)e.first, e.second.n}); }

int nmarked;
static FILE *realIn, *realOut, *realErr;
void destroyWorld() {
    uint64_t hash = sh->hash, nev = sh->nevents;
    bool v = verbose;
    verbose = false;
    for (auto* h : W->handles) {
        if (h->open && h->fp) fclose(h->fp);
        free(h->bufmem);
        delete h;
    }
    stdin = realIn; stdout = realOut; stderr = realErr;
    unpark();
    for (auto& e : B()) { if (e.second.cap) __asan_unpoison_memory_region(e.first, e.second.cap); free(e.first); }
    B().clear();
    delete W;
    W = nullptr;
    tc = nullptr;
    verbose = v;
    sh->hash = hash;
    sh->nevents = nev;
}
// the library's own writable data is put back to its initial contents, so that every run starts from the same state
extern "C" { extern char __start_libdata[] __attribute__((weak)), __stop_libdata[] __attribute__((weak)), __start_libbss[] __attribute__((weak)), __stop_libbss[] __attribute__((weak)); }
static std::string *dataSnap, *bssSnap;
__attribute__((no_sanitize("address"))) static void rawcopy(char* d, const char* s, size_t n) { for (size_t i = 0; i < n; i++) ((volatile char*)d)[i] = s[i]; }
void snapLibData() {
    realIn = stdin; realOut = stdout; realErr = stderr;
    dataSnap = new std::string((size_t)(__stop_libdata - __start_libdata), 0);
    rawcopy(&(*dataSnap)[0], __start_libdata, dataSnap->size());
    bssSnap = new std::string((size_t)(__stop_libbss - __start_libbss), 0);
    rawcopy(&(*bssSnap)[0], __start_libbss, bssSnap->size());
}
void restoreLibData() {
    rawcopy(__start_libdata, dataSnap->data(), dataSnap->size());
    rawcopy(__start_libbss, bssSnap->data(), bssSnap->size());
    nmarked = 0;
}
static inline bool libStatic(const void* p) {
    const char* c = (const char*)p;
    return (c >= __start_libdata && c < __stop_libdata) || (c >= __start_libbss && c < __stop_libbss);
}
// the unused stack holds known garbage
__attribute__((noinline, no_sanitize("address"))) void junkStack() {
    volatile char b[24576];
    uint64_t s = W->junk * 0x9e3779b97f4a7c15ull;
    char pat[8];
    for (int i = 0; i < 8; i++) { s ^= s >> 29; s *= 0xbf58476d1ce4e5b9ull; pat[i] = (char)(s >> 33); }
    for (size_t i = 0; i < sizeof b; i++) b[i] = pat[i & 7];
}

// ---------------------------------------------------------------- streams
void crashNow() { ev("crash"); _exit(20); }
static const Fault* ioFault(Handle* h, int cls) {
    if (h == W->herr) return nullptr;       // diagnostics always arrive
    const Fault* f = fault(cls);
    if (f && f->kind == F_CRASH) {
        // the crash may tear the last write
        firedFault(f);
        return f;
    }
    return f;
}
void (*crashHook)();
static void crashWith(const Fault*) { if (crashHook) crashHook(); crashNow(); }

static ssize_t ckRead(void* c, char* buf, size_t n) {
    Handle* h = (Handle*)c;
    AppScope as;
    const Fault* f = ioFault(h, CLS_READ);
    if (f && f->kind == F_CRASH) crashWith(f);
    size_t lim = h->f->bytes.size();
    if (f) {
        firedFault(f);
        tc->readFaultN++;
        h->readFault = true;
        if (f->kind == F_EOF) { h->eofFault = true; return 0; }
        errno = f->kind == F_EINTR ? EINTR : EIO;
        if (f->kind == F_PARTIAL && f->arg > 0 && h->pos < lim) {   // some bytes, then the error on the next call
            size_t k = (size_t)f->arg;
            if (k > n) k = n;
            if (k > lim - h->pos) k = lim - h->pos;
            memcpy(buf, h->f->bytes.data() + h->pos, k);
            h->pos += k; h->delivered += k;
            if (h->pos > h->maxRead) h->maxRead = h->pos;
            h->eofFault = true;      // and nothing afterwards
            ev("read h%d %zu -> %zu (cut)", h->id, n, k);
            return (ssize_t)k;
        }
        ev("read h%d fails", h->id);
        return -1;
    }
    if (h->eofFault) { ev("read h%d -> eof", h->id); return 0; }
    size_t k = h->pos < lim ? lim - h->pos : 0;
    if (k > n) k = n;
    if (h->d.chunk > 0 && k > 1) {
        size_t m = (size_t)h->d.chunk;
        if (h->d.seed) m = 1 + h->rng.u((uint32_t)m);
        if (m < lim / 20000) m = lim / 20000;       // huge files do not arrive in tiny pieces
        if (k > m) k = m;
    }
    memcpy(buf, h->f->bytes.data() + h->pos, k);
    h->pos += k; h->delivered += k;
    if (h->pos > h->maxRead) h->maxRead = h->pos;
    sh->steps++;
    ev("read h%d %zu -> %zu", h->id, n, k);
    return (ssize_t)k;
}
static ssize_t ckWrite(void* c, const char* buf, size_t n) {
    Handle* h = (Handle*)c;
    AppScope as;
    if (h == W->hout && !tc->openedForWrite) { tc->openedForWrite = true; tc->firedAtOpenW = tc->opFired; }
    const Fault* f = ioFault(h, CLS_WRITE);
    size_t k = n;
    if (f && f->kind == F_CRASH) k = (size_t)(f->arg < 0 ? 0 : (uint64_t)f->arg % (n + 1));
    else if (f) {
        firedFault(f);
        tc->wroteFault++;
        h->writeFault = true;
        k = f->kind == F_PARTIAL ? (size_t)((uint64_t)f->arg % (n ? n : 1)) : 0;
        if (f->kind == F_ENOSPC) h->dead = true;
        errno = f->kind == F_ENOSPC ? ENOSPC : f->kind == F_EINTR ? EINTR : EIO;
    } else if (h->dead) { k = 0; errno = ENOSPC; }
    if (tc->room >= 0 && h != W->herr) {        // gigabytes of filler do not fit on the machine, however they are written
        if (k > (size_t)tc->room) {
            k = (size_t)tc->room;
            tc->opHuge++;
            ev("no room for filler");
            errno = ENOSPC;
        }
        tc->room -= (int64_t)k;
    }
    if (h->app) h->pos = h->f->bytes.size();
    if (h->pos > h->f->bytes.size()) h->f->bytes.resize(h->pos);
    h->f->bytes.replace(h->pos, k < h->f->bytes.size() - h->pos ? k : h->f->bytes.size() - h->pos, buf, k);
    h->pos += k;
    sh->steps++;
    ev("write h%d %zu -> %zu #%llx", h->id, n, k, (unsigned long long)(bighash(buf, k) & 0xffff));
    if (f && f->kind == F_CRASH) crashWith(f);
    return (ssize_t)k;
}
static int ckSeek(void* c, off64_t* off, int whence) {
    Handle* h = (Handle*)c;
    int64_t b = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? (int64_t)h->pos : (int64_t)h->f->bytes.size();
    int64_t t = b + *off;
    if (t < 0) { errno = EINVAL; return -1; }
    h->pos = (size_t)t;
    *off = t;
    ev("seek h%d %lld", h->id, (long long)t);
    return 0;
}
static int ckClose(void* c) {
    Handle* h = (Handle*)c;
    AppScope as;
    const Fault* f = ioFault(h, CLS_CLOSE);
    if (f && f->kind == F_CRASH) crashWith(f);
    h->open = false;
    ev("close h%d", h->id);
    if (f) { firedFault(f); tc->closeFaultN++; h->closeFault = true; errno = f->arg & 1 ? EIO : ENOSPC; return -1; }
    return 0;
}
Handle* openHandle(SFile* f, const char* mode, bool seekable, const Delivery& d, bool lib) {
    Handle* h = new Handle;
    h->id = (int)W->handles.size();
    h->f = f;
    h->d = d;
    if (h->d.buf && f->bytes.size() > 1000000 && h->d.buf < 4096) h->d.buf = 4096;   // huge files are not read in tiny pieces
    h->rng = Rng(d.seed * 31 + (uint64_t)(tc->idx == MAXTHR - 1 ? 0 : tc->idx) * 1009 + (uint64_t)tc->opOpens++);
    h->thr = tc->idx;
    h->op = tc->op;
    h->lib = lib;
    h->seekable = seekable;
    bool plus = strchr(mode, '+') != nullptr;
    h->r = mode[0] == 'r' || plus;
    h->w = mode[0] != 'r' || plus;
    h->app = mode[0] == 'a';
    if (mode[0] == 'w') f->bytes.clear();
    if (h->w) f->opensW++;
    f->exists = true;
    cookie_io_functions_t io = {ckRead, ckWrite, seekable ? ckSeek : nullptr, ckClose};
    const char* m = plus ? (mode[0] == 'r' ? "r+" : mode[0] == 'w' ? "w+" : "a+") : (mode[0] == 'r' ? "r" : mode[0] == 'w' ? "w" : "a");
    h->fp = fopencookie(h, m, io);
    if (!h->fp) internalError("fopencookie");
    if (h->d.buf == 1) setvbuf(h->fp, nullptr, _IONBF, 0);
    else if (h->d.buf > 1) { h->bufmem = (char*)malloc((size_t)h->d.buf + 16); setvbuf(h->fp, h->bufmem, _IOFBF, (size_t)h->d.buf); }
    W->handles.push_back(h);
    return h;
}
static Handle* find(FILE* fp) {
    for (size_t i = W->handles.size(); i-- > 0;)
        if (W->handles[i]->fp == fp && W->handles[i]->open) return W->handles[i];
    return nullptr;
}
static Handle* must(FILE* fp, const char* what) {
    Handle* h = fp ? find(fp) : nullptr;
    if (!h) violate(P(7, 1, 2, 3, 5, 6, 10, 11, 12, 13, 14, 15, 17), "bad-stream", "%s on a stream that is not open", what);
    return h;
}
int closeHandle(Handle* h) { FILE* fp = h->fp; int r = fclose(fp); h->open = false; h->fp = nullptr; return r; }
static void bindStd() {
    stdin = W->hin->fp; stdout = W->hout->fp; stderr = W->herr->fp;
}
void setStd(int which, SFile* f, bool seekable, const Delivery& d) {
    Handle*& h = which == 0 ? W->hin : which == 1 ? W->hout : W->herr;
    if (h && h->open) {
        // the process that owned the stream is gone; its unread input goes with it
        int op = tc->op;
        tc->op = -2;
        closeHandle(h);
        tc->op = op;
    }
    const char* mode = which == 0 ? "r" : "a";
    bool ex = f->exists;
    h = openHandle(f, mode, seekable, d, false);
    f->exists = ex || which != 0;
    if (which == 2) setvbuf(h->fp, nullptr, _IONBF, 0);
    if (W->hin && W->hout && W->herr) bindStd();
}

// one file has many names: "./a.iff" is "a.iff"
static std::string canon(const char* n) {
    std::string r(n);
    while (r.size() > 1 && r[0] == '/') r.erase(0, 1);     // (realpath gives absolute names)
    for (;;) {
        if (r.compare(0, 2, "./") == 0) { r.erase(0, 2); continue; }
        size_t p = r.find("/./");
        if (p != r.npos) { r.erase(p, 2); continue; }
        p = r.find("//");
        if (p == r.npos) return r;
        r.erase(p, 1);
    }
}
extern "C" {
FILE* sim_fopen(const char* spelled, const char* mode) {
    std::string cname = canon(spelled);
    const char* name = cname.c_str();
    point(SW_POINT);
    AppScope as;
    bool wr = mode[0] != 'r' || strchr(mode, '+');
    const Fault* f = fault(CLS_OPEN);
    if (f && f->kind == F_CRASH) { firedFault(f); crashWith(f); }
    ev("open %s %s", name, mode);
    if (f) {
        firedFault(f);
        (wr ? tc->openFaultW : tc->openFaultR)++;
        static const int e[] = {EACCES, EMFILE, ENOSPC, EINTR};
        errno = e[f->arg & 3];
        return nullptr;
    }
    auto it = W->disk.find(name);
    if (it == W->disk.end() || !it->second.exists) {
        if (mode[0] == 'r') { errno = ENOENT; return nullptr; }
    }
    if (wr && !tc->openedForWrite) { tc->openedForWrite = true; tc->firedAtOpenW = tc->opFired; }
    Handle* h = openHandle(&W->disk[name], mode, true, W->delivery[tc->idx], true);
    return h->fp;
}
FILE* sim_freopen(const char* name, const char* mode, FILE* fp) {
    must(fp, "freopen");
    fclose(fp);
    return sim_fopen(name, mode);
}
int sim_fclose(FILE* fp) {
    point(SW_POINT);
    AppScope as;
    Handle* h = must(fp, "fclose");
    if (!h->lib) {
        if (h == W->hin || h == W->hout || h == W->herr) { fflush(fp); return 0; }   // a tool may close its standard streams
        violate(P(7, 17), "closed-callers-stream", "the library closed a stream owned by the caller");
    }
    int r = fclose(fp);
    h->open = false;
    h->fp = nullptr;
    free(h->bufmem);
    h->bufmem = nullptr;
    return r;
}
int sim_fileno(FILE* fp);
#define WRAP(ret, name, params, call, fp)      \
    ret sim_##name params {                    \
        point(SW_POINT);                       \
        must(fp, #name);                       \
        ret r = call;                          \
        point(SW_POINT);                       \
        return r;                              \
    }
WRAP(size_t, fread, (void* p, size_t s, size_t n, FILE* fp), fread(p, s, n, fp), fp)
WRAP(size_t, fwrite, (const void* p, size_t s, size_t n, FILE* fp), fwrite(p, s, n, fp), fp)
WRAP(int, fgetc, (FILE* fp), fgetc(fp), fp)
WRAP(int, getc, (FILE* fp), getc(fp), fp)
WRAP(int, fputc, (int c, FILE* fp), fputc(c, fp), fp)
WRAP(int, putc, (int c, FILE* fp), putc(c, fp), fp)
WRAP(int, ungetc, (int c, FILE* fp), ungetc(c, fp), fp)
WRAP(int, fseek, (FILE* fp, long o, int w), fseek(fp, o, w), fp)
WRAP(int, fseeko, (FILE* fp, off_t o, int w), fseeko(fp, o, w), fp)
WRAP(long, ftell, (FILE* fp), ftell(fp), fp)
WRAP(off_t, ftello, (FILE* fp), ftello(fp), fp)
WRAP(int, feof, (FILE* fp), feof(fp), fp)
WRAP(int, ferror, (FILE* fp), ferror(fp), fp)
int sim_fflush(FILE* fp) {
    point(SW_POINT);
    if (fp) must(fp, "fflush");
    int r = fflush(fp);
    point(SW_POINT);
    return r;
}
void sim_rewind(FILE* fp) { must(fp, "rewind"); rewind(fp); }
int sim_setvbuf(FILE* fp, char* b, int mode, size_t n) { must(fp, "setvbuf"); return setvbuf(fp, b, mode, n); }
int sim_fileno(FILE* fp) { Handle* h = must(fp, "fileno"); return 1000 + h->id; }
int sim_fsync(int fd) { ev("fsync %d", fd - 1000); return 0; }
int sim_isatty(int) { return 0; }
int sim_stat(const char* n, struct stat* st);
int sim_remove(const char* n) {
    auto it = W->disk.find(canon(n));
    ev("remove %s", n);
    if (it == W->disk.end() || !it->second.exists) { errno = ENOENT; return -1; }
    it->second.exists = false;
    it->second.bytes.clear();
    it->second.opensW++;
    return 0;
}
char* sim_realpath(const char* n, char* out) {
    std::string r = "/" + canon(n);
    auto it = W->disk.find(canon(n));
    if (it == W->disk.end() || !it->second.exists) { errno = ENOENT; return nullptr; }
    if (!out) return sim_strdup(r.c_str());
    memcpy(out, r.c_str(), r.size() + 1);
    return out;
}
int sim_lstat(const char* n, struct stat* st) { return sim_stat(n, st); }
int sim_unlink(const char* n) { return sim_remove(n); }
int sim_rename(const char* a, const char* b) {
    auto it = W->disk.find(canon(a));
    ev("rename %s %s", a, b);
    if (it == W->disk.end() || !it->second.exists) { errno = ENOENT; return -1; }
    SFile& d = W->disk[canon(b)];
    d.bytes = it->second.bytes;
    d.exists = true;
    d.opensW++;
    it->second.exists = false;
    it->second.bytes.clear();
    return 0;
}
int sim_access(const char* n, int) {
    auto it = W->disk.find(canon(n));
    if (it == W->disk.end() || !it->second.exists) { errno = ENOENT; return -1; }
    return 0;
}
int sim_stat(const char* n, struct stat* st) {
    auto it = W->disk.find(canon(n));
    if (it == W->disk.end() || !it->second.exists) { errno = ENOENT; return -1; }
    memset(st, 0, sizeof *st);
    st->st_mode = S_IFREG | 0644;
    st->st_size = (off_t)it->second.bytes.size();
    st->st_dev = 1;
    st->st_ino = 2 + (ino_t)std::distance(W->disk.begin(), it);
    st->st_nlink = 1;
    return 0;
}
int sim_fstat(int fd, struct stat* st) {
    memset(st, 0, sizeof *st);
    Handle* h = fd >= 1000 && (size_t)(fd - 1000) < W->handles.size() ? W->handles[(size_t)(fd - 1000)] : nullptr;
    if (!h) { errno = EBADF; return -1; }
    st->st_mode = (h->seekable ? S_IFREG : S_IFIFO) | 0644;
    st->st_size = h->seekable ? (off_t)h->f->bytes.size() : 0;
    st->st_dev = 1;
    st->st_nlink = 1;
    st->st_ino = 1;
    for (auto it = W->disk.begin(); it != W->disk.end(); ++it)
        if (&it->second == h->f) st->st_ino = 2 + (ino_t)std::distance(W->disk.begin(), it);
    return 0;
}
static Handle* byFd(int fd) {
    if (fd >= 0 && fd <= 2) return fd == 0 ? W->hin : fd == 1 ? W->hout : W->herr;
    Handle* h = fd >= 1000 && (size_t)(fd - 1000) < W->handles.size() ? W->handles[(size_t)(fd - 1000)] : nullptr;
    if (!h || !h->open) { errno = EBADF; return nullptr; }
    return h;
}
int sim_open(const char* spelled, int flags, ...) {
    std::string cname = canon(spelled);
    const char* name = cname.c_str();
    auto it = W->disk.find(name);
    bool ex = it != W->disk.end() && it->second.exists;
    if (!ex && !(flags & O_CREAT)) { errno = ENOENT; return -1; }
    if (ex && (flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
    if (!ex) W->disk[name].exists = true;
    int acc = flags & O_ACCMODE;
    const char* m = acc == O_RDONLY ? "r" : flags & O_APPEND ? "a" : flags & O_TRUNC ? (acc == O_RDWR ? "w+" : "w") : "r+";
    FILE* fp = sim_fopen(name, m);
    if (!fp) { if (!ex) W->disk[name].exists = false; return -1; }
    return sim_fileno(fp);
}
FILE* sim_fopen64(const char* name, const char* mode) { return sim_fopen(name, mode); }
int sim_open64(const char* name, int flags, ...) { return sim_open(name, flags); }
int sim_creat(const char* name, int) { return sim_open(name, O_CREAT | O_WRONLY | O_TRUNC); }
FILE* sim_fdopen(int fd, const char*) { Handle* h = byFd(fd); return h ? h->fp : nullptr; }
int sim_close(int fd) { Handle* h = byFd(fd); return h ? sim_fclose(h->fp) : -1; }
ssize_t sim_read(int fd, void* b, size_t n) { point(SW_POINT); Handle* h = byFd(fd); return h ? ckRead(h, (char*)b, n) : -1; }
ssize_t sim_write(int fd, const void* b, size_t n) {
    point(SW_POINT);
    Handle* h = byFd(fd);
    if (!h) return -1;
    ssize_t k = ckWrite(h, (const char*)b, n);
    return k || !n ? k : -1;
}
off_t sim_lseek(int fd, off_t o, int w) {
    Handle* h = byFd(fd);
    if (!h) return -1;
    if (!h->seekable) { errno = ESPIPE; return -1; }
    off64_t t = o;
    return ckSeek(h, &t, w) ? -1 : (off_t)t;
}
static int cutTo(SFile& f, off_t n) {
    ev("truncate %lld", (long long)n);
    if (n < 0) { errno = EINVAL; return -1; }
    f.bytes.resize((size_t)n);
    f.opensW++;
    return 0;
}
int sim_ftruncate(int fd, off_t n) { Handle* h = byFd(fd); return h ? cutTo(*h->f, n) : -1; }
int sim_truncate(const char* name, off_t n) {
    auto it = W->disk.find(canon(name));
    if (it == W->disk.end() || !it->second.exists) { errno = ENOENT; return -1; }
    return cutTo(it->second, n);
}
int sim_mkstemp(char* t) {
    size_t n = strlen(t);
    for (int i = 0; n >= 6 && i < 1000; i++) {
        char d[8];
        snprintf(d, sizeof d, "%06d", i);
        memcpy(t + n - 6, d, 6);
        if (!W->disk.count(t) || !W->disk[t].exists) return sim_open(t, O_CREAT | O_EXCL | O_RDWR);
    }
    errno = EINVAL;
    return -1;
}
int sim_vasprintf(char** out, const char* f, va_list ap) {
    va_list aq;
    va_copy(aq, ap);
    int n = vsnprintf(nullptr, 0, f, aq);
    va_end(aq);
    if (n < 0) return n;
    char* p = (char*)sim_malloc((size_t)n + 1);
    if (!p) return -1;
    vsnprintf(p, (size_t)n + 1, f, ap);
    *out = p;
    return n;
}
int sim_asprintf(char** out, const char* f, ...) {
    va_list ap;
    va_start(ap, f);
    int n = sim_vasprintf(out, f, ap);
    va_end(ap);
    return n;
}
FILE* sim_tmpfile(void) { return sim_fopen("tmpfile.tmp", "w+"); }
void sim_exit(int c) {
    simExitCode = c;
    if (simExit) longjmp(*simExit, 1);
    violate(PROP_ALL, "exit", "the library ended the process with status %d", c);
}
void sim_abort(void) { violate(PROP_ALL, "abort", "the library aborted the process"); }
unsigned int sim_sleep(unsigned int) { return 0; }
int sim_usleep(unsigned int) { return 0; }
}

// ---------------------------------------------------------------- diagnostics
// every conversion is one that a message may have: data (a file name, an ID) is not taken for the format
static bool wellFormed(const char* f) {
    if (!f) return false;
    for (; *f; f++) {
        if (*f != '%') continue;
        f++;
        f += strspn(f, "-+ #0'");
        f += strspn(f, "0123456789*.");
        f += strspn(f, "hlqLjzt");
        if (!*f || !strchr("diouxXeEfFgGaAcsp%", *f)) return false;
    }
    return true;
}
static void capture(int which, const char* fmt, va_list ap) {
    AppScope as;
    if (which != W->cb) violate(P(16), "replaced-callback-used", "a message went to an error callback that is not installed any more");
    if (!wellFormed(fmt)) violate(P(16), "ill-formed-message", "the error callback got a format string that is not one: \"%.60s\"", fmt ? fmt : "(null)");
    char b[2048];
    int n = vsnprintf(b, sizeof b, fmt, ap);
    if (n < 0) n = 0;
    if (n >= (int)sizeof b) n = sizeof b - 1;
    tc->nerr++;
    if (n == 0) tc->nerrEmpty++;
    tc->err.append(b, (size_t)n);
    ev("diag #%llx", (unsigned long long)(bighash(b, (size_t)n) & 0xffffff));
}
void captureErrors(const char* fmt, va_list ap) { capture(1, fmt, ap); }
void captureErrors2(const char* fmt, va_list ap) { capture(2, fmt, ap); }

// ---------------------------------------------------------------- coverage, steps, scheduling
static uintptr_t marked[64];
static uint32_t nguards;
uint32_t* covPcs;          // development aid: where the covered edges are (SIM_PCS=file)
static void switchTo(int to, int cls, uint64_t ord);

static void setNext(Thr* t, int cls) {
    uint64_t best = ~0ull;
    for (auto& s : W->switches)
        if (s.thr == t->idx && s.cls == cls && s.ord > t->points[cls] && s.ord < best) best = s.ord;
    t->nextSwitch[cls] = best;
}
__attribute__((no_sanitize("address"))) void point(int cls) {
    Thr* t = tc;
    if (!t || !t->inLib) return;
    sh->steps++;
    if (!W->mt) { t->points[cls]++; return; }
    t->points[cls]++;
    int to = -1;
    if (t->points[cls] == t->nextSwitch[cls]) {
        for (auto& s : W->switches)
            if (s.thr == t->idx && s.cls == cls && s.ord == t->points[cls]) to = s.to;
        setNext(t, cls);
    } else if (cls == SW_POINT && W->rrPeriod && t->points[cls] % (uint64_t)W->rrPeriod == 0)
        to = (t->idx + 1) % W->nthr;
    if (to >= 0) switchTo(to, cls, t->points[cls]);
}
static int pickAlive(int want) {
    for (int k = 0; k < W->nthr; k++) {
        int i = (want + k) % W->nthr;
        if (!W->thr[i].done) return i;
    }
    return -1;
}
static void switchTo(int to, int cls, uint64_t ord) {
    Thr* t = tc;
    int n = pickAlive(to % W->nthr);
    if (n < 0 || n == t->idx) return;
    sh->switches++;
    ev("switch %d -> %d at %c%llu", t->idx, n, SW_CHAR[cls], (unsigned long long)ord);
    size_t l = strlen(sh->switchTrace);
    if (l + 40 < sizeof sh->switchTrace) snprintf(sh->switchTrace + l, 40, "%d %c %llu %d\n", t->idx, SW_CHAR[cls], (unsigned long long)ord, n);
    W->cur = n;
    sem_post(&W->thr[n].sem);
    while (sem_wait(&t->sem)) {}
}
extern "C" {
static void blocked() {
    if (!W->mt) violate(PROP_ALL, "deadlock", "a lock is taken twice");
    Thr* t = tc;
    if (++t->opEdges > t->budget && t->budget) violate(PROP_ALL, "deadlock", "a lock is never released");
    t->points[SW_POINT]++;
    switchTo(t->idx + 1, SW_POINT, t->points[SW_POINT]);
}
int sim_pthread_mutex_lock(pthread_mutex_t* m) {
    point(SW_POINT);
    while (pthread_mutex_trylock(m)) blocked();
    return 0;
}
int sim_pthread_rwlock_rdlock(pthread_rwlock_t* m) {
    point(SW_POINT);
    while (pthread_rwlock_tryrdlock(m)) blocked();
    return 0;
}
int sim_pthread_rwlock_wrlock(pthread_rwlock_t* m) {
    point(SW_POINT);
    while (pthread_rwlock_trywrlock(m)) blocked();
    return 0;
}
int sim_pthread_rwlock_unlock(pthread_rwlock_t* m) {
    int r = pthread_rwlock_unlock(m);
    point(SW_POINT);
    return r;
}
int sim_pthread_once(pthread_once_t* o, void (*f)(void)) {
    point(SW_POINT);
    volatile int* v = (volatile int*)o;
    while (*v == 1) blocked();
    if (*v == 0) { *v = 1; f(); *v = 2; }
    return 0;
}
void sim_call_once(int* o, void (*f)(void)) { sim_pthread_once((pthread_once_t*)o, f); }
int sim_pthread_mutex_unlock(pthread_mutex_t* m) {
    int r = pthread_mutex_unlock(m);
    point(SW_POINT);
    return r;
}
}
static void (*threadBody)(int);
static sem_t mainSem;
static void* threadMain(void* a) {
    Thr* t = (Thr*)a;
    tc = t;
    while (sem_wait(&t->sem)) {}
    threadBody(t->idx);
    t->inLib = false;
    t->done = true;
    int n = pickAlive(t->idx + 1);
    ev("thread %d ends, next %d", t->idx, n);
    if (n < 0) sem_post(&mainSem);
    else { W->cur = n; sem_post(&W->thr[n].sem); }
    return nullptr;
}
void runThreads(int n, void (*body)(int)) {
    Thr* me = tc;
    threadBody = body;
    sem_init(&mainSem, 0, 0);
    pthread_t th[MAXTHR];
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, 4 << 20);
    for (int i = 0; i < n; i++) {
        Thr* t = &W->thr[i];
        sem_init(&t->sem, 0, 0);
        t->done = false;
        t->points[0] = t->points[1] = t->points[2] = 0;
        for (int c = 0; c < SW_N; c++) setNext(t, c);
        if (pthread_create(&th[i], &at, threadMain, t)) internalError("pthread_create");
    }
    W->mt = true;
    W->cur = 0;
    sem_post(&W->thr[0].sem);
    while (sem_wait(&mainSem)) {}
    W->mt = false;
    for (int i = 0; i < n; i++) {
        pthread_join(th[i], nullptr);
        for (int c = 0; c < SW_N; c++) sh->thrPoints[i][c] = W->thr[i].points[c];
    }
    tc = me;
}

extern "C" {
void __sanitizer_cov_trace_pc_guard_init(uint32_t* a, uint32_t* b) {
    for (uint32_t* p = a; p < b; p++) if (!*p) *p = ++nguards;
}
__attribute__((no_sanitize("address"))) void __sanitizer_cov_trace_pc_guard(uint32_t* g) {
    Thr* t = tc;
    if (!t) return;
    uint32_t i = *g;
    if (i < sizeof sh->cov * 8) sh->cov[i >> 3] |= (uint8_t)(1u << (i & 7));
    if (covPcs && i < 8192) covPcs[i] = (uint32_t)(uintptr_t)__builtin_return_address(0);
    t->edges++;
    if (t->inLib && ++t->opEdges > t->budget && t->budget) {
        t->inLib = false;
        violate(PROP_ALL, "hang", "no end after %llu steps (budget %llu)", (unsigned long long)t->opEdges, (unsigned long long)t->budget);
    }
    point(SW_POINT);
}
__attribute__((no_sanitize("address"))) static inline void access(void* p, bool store) {
    Thr* t = tc;
    if (!t || !t->inLib) return;
    point(SW_POINT);
    if (libStatic(p)) {   // mutable static data of the library (none on a healthy tree)
        uintptr_t g = (uintptr_t)p >> 3;
        bool hit = false;
        for (int i = 0; i < nmarked; i++) hit |= marked[i] == g;
        if (store && !hit && nmarked < 64) { marked[nmarked++] = g; hit = true; }
        if (hit) { probe(2); point(SW_STATIC); }
    }
    if (store && !W->sharedRanges.empty())
        for (auto& r : W->sharedRanges)
            if ((char*)p >= r.first && (char*)p < r.first + r.second) { probe(1); point(SW_SHARED); break; }
}
#define ACC(n) \
    __attribute__((no_sanitize("address"))) void __sanitizer_cov_load##n(void* p) { access(p, false); } \
    __attribute__((no_sanitize("address"))) void __sanitizer_cov_store##n(void* p) { access(p, true); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
}
uint32_t guards() { return nguards; }
