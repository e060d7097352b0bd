// The simulated machine: disk, streams, allocator, scheduler, diagnostics.
#pragma once
#include <type_traits>
#include "base.h"
#include <setjmp.h>
#include <stdarg.h>
#include <semaphore.h>

struct Fault {
    int op; int cls; int ord; int kind; long arg = 0;
    mutable bool fired = false;
};
struct Switch { int thr; int cls; uint64_t ord; int to; };

struct SFile { std::string bytes; bool exists = false; uint32_t opensW = 0; };

struct Delivery {          // how a stream delivers and buffers
    int buf = 0;           // stdio buffer: 0 default, 1 unbuffered, n bytes
    int chunk = 0;         // largest piece per read call: 0 whole
    uint64_t seed = 0;     // != 0: piece sizes vary
};

struct Handle {
    int id;
    SFile* f;
    FILE* fp = nullptr;
    bool w = false, r = false, app = false, seekable = true, open = true, lib = false;
    size_t pos = 0;
    uint64_t delivered = 0;      // bytes handed to the reader
    size_t maxRead = 0;          // highest offset ever delivered
    bool eofFault = false;       // the stream ended early for good
    bool writeFault = false;     // a write call failed
    bool readFault = false, closeFault = false;
    bool dead = false;           // disk stays full
    int thr = 0, op = -1;
    Delivery d;
    Rng rng;
    char* bufmem = nullptr;
};

struct Thr {               // a simulated thread (thread 0 is the only one in sequential runs)
    int idx = 0;
    bool inLib = false;
    int op = -1;
    uint32_t counts[CLS_N];
    uint64_t edges = 0, opEdges = 0;
    uint64_t budget = 0;
    uint32_t opFired = 0;
    uint32_t opOpens = 0;   // streams opened
    uint32_t opHuge = 0;    // allocations refused for exceeding the memory of the machine
    int64_t room = -1;      // bytes the disks still take during this op; -1: any number
    std::string err;        // diagnostics of the current op
    uint32_t nerr = 0, nerrEmpty = 0;
    uint64_t points[SW_N] = {0, 0, 0};
    uint64_t nextSwitch[SW_N];
    bool done = false;
    sem_t sem;
    int64_t liveBlocks = 0;
    uint32_t wroteFault = 0, readFaultN = 0, openFaultR = 0, openFaultW = 0, closeFaultN = 0, allocFault = 0, handlerFault = 0;
    bool openedForWrite = false;
    uint32_t firedAtOpenW = 0;   // faults that had fired when the op first opened something for writing
    int owner = -1;
    bool sizesDeclared = true;  // the operation deals with sizes that its input declares, so that negative ones are to be expected
};
extern thread_local Thr* tc;
extern Shared* sh;
extern uint32_t curProp;        // bit of the property being checked

struct World {
    std::vector<Fault> faults;
    std::vector<Switch> switches;
    int rrPeriod = 0;
    uint64_t junk = 1;
    int64_t memBudget = 20 << 20, memUsed = 0, memMade = 0;   // largest single block; all blocks together may take 20 times as much
    std::map<std::string, SFile> disk;
    std::vector<Handle*> handles;
    Delivery delivery[MAXTHR];         // delivery parameters of streams opened by the current op of a thread
    Thr thr[MAXTHR];
    int nthr = 1;
    bool mt = false;
    int cur = 0;
    SFile out, err, in;                // standard streams
    Handle *hout = nullptr, *herr = nullptr, *hin = nullptr;
    int cb = 1;                        // the error callback that is installed
    std::vector<std::pair<char*, size_t>> sharedRanges;
};
extern World* W;

extern bool verbose;
void evTrace(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void logWord(uint64_t v);
void logText(const char* s);
void logEvent(const char* s);
inline void evArg(const char* s) { logText(s); }
inline void evArg(char* s) { logText(s); }
template <class T> inline void evArg(T v) { static_assert(std::is_arithmetic<T>::value || std::is_enum<T>::value, "an address would not repeat"); logWord((uint64_t)v); }
#define ev(...) do { evHash(__VA_ARGS__); if (verbose) evTrace(__VA_ARGS__); } while (0)   // event log
template <class... A> inline void evHash(const char* fmt, A... a) { logEvent(fmt); (evArg(a), ...); }
[[noreturn]] void violate(uint32_t tags, const char* cls, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
[[noreturn]] void internalError(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
const Fault* fault(int cls);            // fault hitting this seam call, if any
void firedFault(const Fault* f);
void beginOp(int op, uint64_t budget);
void probe(int n);                      // rare-situation counters for the evidence

// streams for the harness
Handle* openHandle(SFile* f, const char* mode, bool seekable, const Delivery& d, bool lib);
int closeHandle(Handle* h);             // application's own fclose
void setStd(int which, SFile* f, bool seekable, const Delivery& d);   // 0 in, 1 out, 2 err; fresh stream
void crashNow();
void destroyWorld();
void snapLibData();
void restoreLibData();
void junkStack();

// allocation accounting
void* appMalloc(size_t n);              // memory of the application, never faulted
int64_t liveByThread(int t);
uint64_t liveByOwner(int owner);
void ownerSet(void* p, int owner);
bool liveBlock(void* p, size_t* n = nullptr);
uint64_t liveTotal();
void setOwner(int o);                   // owner of blocks allocated by the current thread from now on
void collectOwner(int owner, std::vector<std::pair<char*, size_t>>& out);
void reown(int from, int to);
extern void (*crashHook)();
uint32_t guards();
extern uint32_t* covPcs;

// scheduler
void runThreads(int n, void (*body)(int));
void point(int cls);

struct LibScope { bool old; LibScope() { old = tc->inLib; tc->inLib = true; } ~LibScope() { tc->inLib = old; } };
struct AppScope { bool old; AppScope() { old = tc->inLib; tc->inLib = false; } ~AppScope() { tc->inLib = old; } };
#define LIB(e) ([&]() -> decltype(auto) { LibScope ls__; return e; }())

extern "C" {
void* sim_malloc(size_t);
void* sim_calloc(size_t, size_t);
void* sim_realloc(void*, size_t);
void sim_free(void*);
extern jmp_buf* simExit;
extern int simExitCode;
}
void captureErrors(const char* fmt, va_list ap);
void captureErrors2(const char* fmt, va_list ap);
