// Search, confirmation, minimisation and replay.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "exec.h"
#include <algorithm>
#include <errno.h>
#include <fcntl.h>
#include <functional>
#include <set>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>
#include <sanitizer/asan_interface.h>

extern "C" const char* __asan_default_options() {
    return "detect_leaks=0:malloc_context_size=0:allocator_may_return_null=1:symbolize=0:exitcode=99:print_legend=0:detect_stack_use_after_return=0:quarantine_size_mb=2:thread_local_quarantine_size_kb=64:max_redzone=256:handle_abort=0:use_sigaltstack=1:check_initialization_order=0";
}
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec; }
static int wallLimit = 60;
static bool traceRuns;

struct Res { int st = 0; std::string cls, msg; uint64_t hash = 0; };   // st: 1 ok, 2 violation, 3 another property's, 4 no answer
static Shared* newShared() {
    void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(2); }
    return (Shared*)p;
}
static void asanReport(const char* txt) {
    if (!sh || sh->verdict) return;
    const char* p = strstr(txt, "AddressSanitizer: ");
    p = p ? p + 18 : txt;
    char w[40];
    size_t n = 0;
    while (p[n] && p[n] != ' ' && p[n] != '\n' && n < sizeof w - 1) { w[n] = p[n]; n++; }
    w[n] = 0;
    if (!strcmp(w, "SEGV")) {}
    snprintf(sh->cls, sizeof sh->cls, "memory-error-%s", w);
    // the place: module offsets of the innermost frames
    std::string at;
    const char* q = txt;
    for (int i = 0; i < 6 && (q = strstr(q, "(")); i++) {
        const char* e = strchr(q, ')');
        if (!e) break;
        std::string f(q + 1, (size_t)(e - q - 1));
        size_t plus = f.find("+0x");
        if (plus != std::string::npos) at += " " + f.substr(plus + 1);
        q = e;
    }
    snprintf(sh->msg, sizeof sh->msg, "op %d: %s reported by AddressSanitizer (frames at%s)", tc ? tc->op : -1, w, at.c_str());
    sh->verdict = 2;
}
static bool inProcess;      // executions happen in this process; an oracle that fires ends it
static Res runChild(const Plan& p, int solo, bool dry, const Shared* ref, Shared* out) {
    memset(out, 0, sizeof *out);
    if (inProcess) {
        sh = out;
        alarm((unsigned)wallLimit);
        execPlan(p, solo, dry, ref);
        Res r;
        r.hash = out->hash;
        r.st = out->verdict;
        return r;
    }
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); exit(2); }
    if (!pid) {
        sh = out;
        curProp = P(p.prop);
        int dn = open("/dev/null", O_RDWR);
        if (traceRuns) dup2(2, 3);
        verbose = traceRuns;
        dup2(dn, 1);
        if (!getenv("SIM_STDERR")) dup2(dn, 2);
        alarm((unsigned)wallLimit);
        __asan_set_error_report_callback(asanReport);
        execPlan(p, solo, dry, ref);
        _exit(0);
    }
    int st;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    Res r;
    r.hash = out->hash;
    r.cls = out->cls;
    r.msg = out->msg;
    char b[100];
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && out->verdict == 1) { r.st = 1; r.cls = r.msg = ""; }
    else if (WIFEXITED(st) && WEXITSTATUS(st) == 10) r.st = 2;
    else if (WIFEXITED(st) && WEXITSTATUS(st) == 11) r.st = 3;
    else if (WIFEXITED(st) && WEXITSTATUS(st) == 12) r.st = 4;
    else if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGALRM || WTERMSIG(st) == SIGKILL)) {
        r.st = 4;
        r.cls = "wall-clock";
        snprintf(b, sizeof b, "op %d: ended by signal %d", out->curop, WTERMSIG(st));
        r.msg = b;
    } else {
        r.st = 2;
        if (out->verdict != 2) {
            if (WIFSIGNALED(st)) snprintf(b, sizeof b, "abnormal-end-signal-%d", WTERMSIG(st));
            else snprintf(b, sizeof b, "abnormal-end-exit-%d", WEXITSTATUS(st));
            r.cls = b;
            snprintf(b, sizeof b, "op %d: the process ended abnormally (status %x, verdict %d)", out->curop, st, out->verdict);
            r.msg = b;
        }
    }
    return r;
}

// ---------------------------------------------------------------- evaluation of a complete plan
static Shared *shDry, *shMain, *shAux[MAXTHR];
static bool wantsReplica(const Plan& p) {
    static const int on[] = {3, 5, 6, 9, 13, 16};
    for (int q : on) if (q == p.prop) return p.threads == 1 && p.seed % 4 == 0;
    return false;
}
static Res compareRuns(const Plan& p, const Res& mainRes) {
    if (p.threads > 1 && (p.prop == 10 || p.prop == 11)) {
        bool soloFine = true;
        for (int t = 0; t < p.threads; t++) {
            Res s = runChild(p, t, false, nullptr, shAux[t]);
            if (s.st != 1 || shAux[t]->probes[31]) soloFine = false;
            if (s.st == 4) return s;
            if (s.st == 2) { s.msg += " (thread alone)"; return s; }
        }
        if (mainRes.st == 3 && soloFine) { Res r = mainRes; r.st = 2; r.cls = "only-concurrent-" + r.cls; r.msg += " (does not happen when the threads run alone)"; return r; }
        if (mainRes.st != 1) return mainRes;
        for (auto& x : p.ops) {
            if (x.t < 0 || x.t >= p.threads || x.id >= MAXOPS - 1) continue;
            const OpRec &a = shMain->op[x.id], &b = shAux[x.t]->op[x.id];
            if (!b.done) continue;
            if (a.done != b.done || a.ok != b.ok || a.digest != b.digest) {
                Res r;
                r.st = 2;
                r.hash = mainRes.hash;
                r.cls = a.ok != b.ok ? "outcome-depends-on-other-threads" : a.result != b.result ? "result-depends-on-other-threads" : "diagnostics-depend-on-other-threads";
                char m[200];
                snprintf(m, sizeof m, "op %d: %s of thread %d gives outcome %d alone and %d among the others", x.id, OP_NAME[x.kind], x.t, b.ok, a.ok);
                r.msg = m;
                return r;
            }
        }
        if (soloFine && shMain->probes[31]) {
            Res r; r.st = 2; r.hash = mainRes.hash; r.cls = std::string("only-concurrent-") + shMain->cls; r.msg = std::string(shMain->msg) + " (does not happen when the threads run alone)";
            return r;
        }
    }
    if (mainRes.st == 1 && wantsReplica(p)) {
        Plan q = p;
        q.junk = p.junk % 4 == 0 ? p.junk + 1 : p.junk * 4;
        Res s = runChild(q, -1, false, nullptr, shAux[0]);
        if (s.st == 2 || s.st == 4) { s.msg += " (with other garbage in fresh memory and at other addresses)"; return s; }
        for (auto& x : p.ops) {
            if (x.id >= MAXOPS - 1) continue;
            const OpRec &a = shMain->op[x.id], &b = shAux[0]->op[x.id];
            if (a.done && b.done && (a.ok != b.ok || a.digest != b.digest)) {
                Res r;
                r.st = 2;
                r.hash = mainRes.hash;
                r.cls = "depends-on-uninitialised-memory";
                char m[200];
                snprintf(m, sizeof m, "op %d: %s gives another result or other diagnostics when fresh memory holds other garbage and lies elsewhere", x.id, OP_NAME[x.kind]);
                r.msg = m;
                return r;
            }
        }
    }
    return mainRes;
}
static bool hasRetry(const Plan& p) { for (auto& x : p.ops) if (x.a[5] >= 1000) return true; return false; }
static Res evaluate(const Plan& p, bool haveDry = false) {
    if (!haveDry && hasRetry(p)) {
        Res d = runChild(p, -1, true, nullptr, shDry);
        if (d.st != 1) { d.msg += " (without faults)"; return d; }
    }
    Res r = runChild(p, -1, false, hasRetry(p) ? shDry : nullptr, shMain);
    if (r.st == 2 || r.st == 4) return r;
    return compareRuns(p, r);
}

// ---------------------------------------------------------------- generation
static uint64_t mix(uint64_t a, uint64_t b) { Rng r(a * 0x9e3779b97f4a7c15ull + b); r.next(); return r.next(); }
static bool faultless(int prop) { return prop == 3 || prop == 17; }
// builds the plan of a run; if the fault-free execution already violates, says so in res
static bool makePlan(Plan& p, int prop, uint64_t seed, int tier, Res& res) {
    Rng r(seed);
    p = Plan();
    p.prop = prop;
    p.seed = seed;
    genPlan(p, prop, seed, tier, r);
    p.prop = prop;
    p.seed = seed;
    if (faultless(prop)) return true;
    res = runChild(p, -1, true, nullptr, shDry);
    if (res.st == 2 || res.st == 4) return false;
    if (shDry->newFiles[0] && r.chance(1, 2)) {      // files the library makes for itself: what if somebody has files of these names?
        int id = 0;
        for (auto& x : p.ops) id = std::max(id, x.id);
        std::string names = shDry->newFiles;
        for (size_t a = 0, b; (b = names.find('\n', a)) != std::string::npos && id < MAXOPS - 3; a = b + 1) {
            Op x;
            x.id = ++id;
            x.t = p.threads > 1 ? T_SETUP : 0;
            x.kind = O_PUT;
            x.a[0] = 1; x.a[1] = 0; x.a[2] = -1;
            x.names = {names.substr(a, b - a)};
            x.tree.reset(new Node);
            x.tree->k = GROUP; x.tree->id = FORM; x.tree->gtype = mkid("MINE"); x.tree->size = 4;
            p.ops.insert(p.ops.begin(), x);
        }
        res = runChild(p, -1, true, nullptr, shDry);
        if (res.st == 2 || res.st == 4) return false;
    }
    genFaults(p, r, *shDry);
    return true;
}
static bool nontrivial(const Plan& p, const Shared& s) {
    uint32_t f = 0;
    for (auto x : s.fired) f += x;
    if (f || s.switches) return true;
    if (faultless(p.prop)) for (auto& x : p.ops) if (x.d.chunk || x.d.buf || (x.kind == O_READ && x.a[2])) return true;
    if (p.prop == 5) for (auto& x : p.ops) if (x.kind == O_MUTATE) return true;
    return false;
}

// ---------------------------------------------------------------- minimisation
static double minDeadline;
static int minEvals;
static bool same(const Plan& p, const std::string& cls) {
    if (now() > minDeadline) return false;
    minEvals++;
    Res r = evaluate(p);
    return r.st == 2 && r.cls == cls;
}
template <class T> static bool dropList(Plan& best, std::vector<T> Plan::*m, const std::string& cls) {
    bool any = false;
    for (size_t n = std::max<size_t>(1, (best.*m).size() / 2);; n /= 2) {
        for (size_t i = 0; i < (best.*m).size();) {
            Plan c = best;
            auto& v = c.*m;
            v.erase(v.begin() + (long)i, v.begin() + (long)std::min(v.size(), i + n));
            if (!c.ops.empty() && same(c, cls)) { best = std::move(c); any = true; } else i += n;
            if (now() > minDeadline) return any;
        }
        if (n <= 1) break;
    }
    return any;
}
static bool shrinkTrees(Plan& best, const std::string& cls) {
    bool any = false;
    for (size_t i = 0; i < best.ops.size(); i++) {
        if (!best.ops[i].tree) continue;
        for (int again = 1; again;) {
            again = 0;
            int n = countNodes(best.ops[i].tree.get());
            for (int k = 1; k < n; k++) {
                Plan c = best;
                std::vector<Node*> v;
                preorder(c.ops[i].tree.get(), v);
                if (k >= (int)v.size()) break;
                Node* x = v[(size_t)k];
                Node* q = x->parent;
                if (!q) continue;
                auto rm = [&](std::vector<Node*>& l) { for (size_t j = 0; j < l.size(); j++) if (l[j] == x) { l.erase(l.begin() + (long)j); return true; } return false; };
                bool wasSettled = settled(c.ops[i].tree.get());
                if (!rm(q->kids) && !rm(q->props)) continue;
                delete x;
                if (wasSettled) fixSizes(c.ops[i].tree.get());
                if (same(c, cls)) { best = std::move(c); any = true; again = 1; break; }
                if (now() > minDeadline) return any;
            }
            if (!again && n > 1) {   // lift a child to the top
                for (int k = 1; k < n && !again; k++) {
                    Plan c = best;
                    std::vector<Node*> v;
                    preorder(c.ops[i].tree.get(), v);
                    if (!isGroup(v[(size_t)k]->id)) continue;
                    Node* t = cloneTree(v[(size_t)k]);
                    c.ops[i].tree.reset(t);
                    if (same(c, cls)) { best = std::move(c); any = true; again = 1; }
                    if (now() > minDeadline) return any;
                }
            }
        }
        // data of raw chunks
        int n = countNodes(best.ops[i].tree.get());
        for (int k = 0; k < n; k++)
            for (int64_t len : {0, 1, 2, 3, 8}) {
                Plan c = best;
                std::vector<Node*> v;
                preorder(c.ops[i].tree.get(), v);
                if (k >= (int)v.size()) break;
                Node* x = v[(size_t)k];
                if (x->k != RAW || (int64_t)x->data.size() <= len || x->size != (int32_t)x->data.size()) continue;
                bool wasSettled = settled(c.ops[i].tree.get());
                x->data.resize((size_t)len);
                x->spec = Data::lit(x->data);
                x->size = (int32_t)len;
                if (wasSettled) fixSizes(c.ops[i].tree.get());
                if (same(c, cls)) { best = std::move(c); any = true; break; }
                if (now() > minDeadline) return any;
            }
    }
    return any;
}
static bool simplify(Plan& best, const std::string& cls) {
    bool any = false;
    auto tryIt = [&](const std::function<bool(Plan&)>& f) {
        Plan c = best;
        if (f(c) && same(c, cls)) { best = std::move(c); any = true; return true; }
        return false;
    };
    tryIt([](Plan& c) { bool ch = false; for (auto& x : c.ops) { ch |= x.d.buf || x.d.chunk || x.d.seed; x.d = Delivery(); } return ch; });
    tryIt([](Plan& c) { bool ch = c.mem != (20 << 20); c.mem = 20 << 20; return ch; });
    for (size_t i = 0; i < best.ops.size(); i++) {
        tryIt([&](Plan& c) { auto& d = c.ops[i].d; bool ch = d.buf || d.chunk || d.seed; d = Delivery(); return ch; });
        for (int64_t len : {0, 1, 2, 8, 30})
            if (tryIt([&](Plan& c) { auto& d = c.ops[i].data; if (d.len <= len) return false; d.len = len; if (!d.gen) d.hex.resize((size_t)len); return true; })) break;
    }
    for (size_t i = 0; i < best.switches.size(); i++) {
        // later is simpler than in the middle of something: keep as is
        (void)i;
    }
    return any;
}
static Plan minimise(const Plan& p0, const std::string& cls, double secs) {
    minDeadline = now() + secs;
    minEvals = 0;
    Plan best = p0;
    if (best.rr) {
        same(best, cls);
        Plan c = best;
        c.rr = 0;
        const char* t = shMain->switchTrace;
        int a, b, n;
        char ch;
        unsigned long long o;
        while (sscanf(t, "%d %c %llu %d\n%n", &a, &ch, &o, &b, &n) == 4) {
            Switch s;
            s.thr = a; s.cls = SW_POINT; s.ord = o; s.to = b;
            for (int i = 0; i < SW_N; i++) if (SW_CHAR[i] == ch) s.cls = i;
            c.switches.push_back(s);
            t += n;
        }
        if (same(c, cls)) best = std::move(c);
    }
    for (int round = 0; round < 4 && now() < minDeadline; round++) {
        bool any = dropList(best, &Plan::ops, cls);
        any |= dropList(best, &Plan::faults, cls);
        any |= dropList(best, &Plan::switches, cls);
        any |= simplify(best, cls);
        any |= shrinkTrees(best, cls);
        if (!any) break;
    }
    return best;
}

// ---------------------------------------------------------------- batch
struct Stats {
    volatile int64_t worst;         // smallest number of a violating run, -1 none
    uint64_t runs, nontriv, execs, steps, events, opsDone, opsFailed, opsSkipped, others, noAnswer, switches;
    uint64_t fired[F_KIND_N], firedRuns[F_KIND_N], probes[32], kindOk[O_NKINDS], kindFail[O_NKINDS];
    uint8_t cov[8192];
    char otherCls[64], otherMsg[300];
    uint64_t otherRun;
    char noCls[64], noMsg[300];
    uint64_t noRun;
    uint64_t longestRun, unrepeatable, unrepeatableRun;
    int samples;
    double slowest; uint64_t slowestRun;
};
static void account(Stats& s, const Plan& p, const Shared& x) {
    s.execs++;
    s.steps += x.steps;
    s.events += x.nevents;
    s.switches += x.switches;
    if (x.steps > s.longestRun) s.longestRun = x.steps;
    for (int i = 0; i < F_KIND_N; i++) { s.fired[i] += x.fired[i]; s.firedRuns[i] += x.fired[i] != 0; }
    for (int i = 0; i < 32; i++) s.probes[i] += x.probes[i];
    for (size_t i = 0; i < sizeof s.cov; i++) s.cov[i] |= x.cov[i];
    for (auto& o : p.ops) {
        if (o.id >= MAXOPS - 1) continue;
        const OpRec& r = x.op[o.id];
        if (!r.done) continue;
        if (r.ok < 0) s.opsSkipped++;
        else if (r.ok) { s.opsDone++; s.kindOk[o.kind]++; }
        else { s.opsFailed++; s.kindFail[o.kind]++; }
    }
}
static std::string jstr(const std::string& s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        char b[8];
        if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += (char)c;
    }
    return o + "\"";
}
static void writeFile(const std::string& n, const std::string& s) {
    FILE* f = fopen(n.c_str(), "w");
    if (!f || fwrite(s.data(), 1, s.size(), f) != s.size() || fclose(f)) { perror(n.c_str()); exit(2); }
}
static std::string replayText(const Plan& p, const Res& r) {
    char b[200];
    std::string o = "# replay of a simulated run: tools/check.py replay <this file>\n";
    snprintf(b, sizeof b, "# property C%02d class %s hash %016llx\n", p.prop, r.cls.c_str(), (unsigned long long)r.hash);
    o += b;
    std::string m = r.msg;
    for (auto& c : m) if (c == '\n') c = ' ';
    return o + "# " + m + "\n" + planText(p);
}
static std::string readAll(const char* n) {
    FILE* f = fopen(n, "r");
    if (!f) { perror(n); exit(2); }
    std::string s;
    char b[65536];
    size_t k;
    while ((k = fread(b, 1, sizeof b, f))) s.append(b, k);
    fclose(f);
    return s;
}

static int batch(int prop, uint64_t seed0, int tier, double secs, uint64_t maxRuns, int workers, const std::string& dir, double minSecs) {
    Stats* st = (Stats*)mmap(nullptr, sizeof(Stats) * (size_t)workers, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    volatile int64_t* best = (volatile int64_t*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    *best = -1;
    if (getenv("SIM_PCS")) covPcs = (uint32_t*)mmap(nullptr, 4 * 8192, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    double t0 = now(), deadline = t0 + secs;
    std::vector<pid_t> pids;
    for (int w = 0; w < workers; w++) {
        pid_t pid = fork();
        if (pid < 0) { perror("fork"); return 2; }
        if (pid) { pids.push_back(pid); continue; }
        shDry = newShared();
        shMain = newShared();
        for (auto& x : shAux) x = newShared();
        Stats& s = st[w];
        s.worst = -1;
        FILE* hf = fopen((dir + "/hashes." + std::to_string(w)).c_str(), "w");
        FILE* sf = w == 0 ? fopen((dir + "/samples").c_str(), "w") : nullptr;
        // executions happen in carrier processes, some dozens in each; a run in which anything fires is repeated in processes of its own
        struct Carrier { volatile uint64_t k; volatile bool finished; };
        Carrier* ca = (Carrier*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        ca->k = (uint64_t)w;
        auto over = [&](uint64_t k) { int64_t b = *best; return k >= maxRuns || (b >= 0 && (int64_t)k > b) || now() > deadline; };
        auto one = [&](uint64_t k) -> Res {
            Plan p;
            Res r;
            double began = now();
            bool full = makePlan(p, prop, mix(mix(seed0, (uint64_t)prop), k), tier, r);
            if (full) {
                r = evaluate(p, true);
                if (now() - began > s.slowest) { s.slowest = now() - began; s.slowestRun = k; }
                account(s, p, *shMain);
                if (nontrivial(p, *shMain)) {
                    s.nontriv++;
                    fwrite(&r.hash, 8, 1, hf);
                    if (sf && s.samples < 3 && r.st == 1 && (k > 200 || s.samples == 0)) {
                        s.samples++;
                        std::string t = planText(p);
                        if (t.size() > 1500) t = t.substr(0, 1500) + "...";
                        char m[160];
                        uint32_t nf = 0;
                        for (auto f : shMain->fired) nf += f;
                        snprintf(m, sizeof m, "run %llu: log hash %016llx, %llu events, %u faults fired, %u switches\n", (unsigned long long)k, (unsigned long long)r.hash, (unsigned long long)shMain->nevents, nf, shMain->switches);
                        fprintf(sf, "%s\n", jstr(m + t).c_str());
                        fflush(sf);
                    }
                }
            } else
                account(s, p, *shDry);
            s.runs++;
            if (r.st == 1 && full && shMain->probes[31]) {
                if (!s.others++) { snprintf(s.otherCls, sizeof s.otherCls, "%s", shMain->cls); snprintf(s.otherMsg, sizeof s.otherMsg, "%.290s", shMain->msg); s.otherRun = k; }
            } else if (r.st == 3) {
                if (!s.others++) { snprintf(s.otherCls, sizeof s.otherCls, "%s", r.cls.c_str()); snprintf(s.otherMsg, sizeof s.otherMsg, "%.290s", r.msg.c_str()); s.otherRun = k; }
            } else if (r.st == 4) {
                if (!s.noAnswer++) { snprintf(s.noCls, sizeof s.noCls, "%s", r.cls.c_str()); snprintf(s.noMsg, sizeof s.noMsg, "%.290s", r.msg.c_str()); s.noRun = k; }
            }
            return r;
        };
        while (!over(ca->k)) {
            fflush(hf);
            ca->finished = false;
            pid_t c = fork();
            if (c < 0) { perror("fork"); _exit(2); }
            if (!c) {
                int dn = open("/dev/null", O_RDWR);
                dup2(dn, 1);
                if (!getenv("SIM_STDERR")) dup2(dn, 2);
                __asan_set_error_report_callback(asanReport);
                inProcess = true;
                for (int n = 0; n < 60 && !over(ca->k); n++) {
                    Res r = one(ca->k);
                    if (r.st != 1) _exit(14);       // (a comparison of executions fired)
                    ca->k = ca->k + (uint64_t)workers;
                }
                fflush(hf);
                ca->finished = true;
                _exit(0);
            }
            int ws;
            while (waitpid(c, &ws, 0) < 0 && errno == EINTR) {}
            if (ca->finished) continue;
            if (over(ca->k) && now() <= deadline) break;
            uint64_t k = ca->k;
            Res r = one(k);
            if (r.st == 2) {
                s.worst = (int64_t)k;
                int64_t o = *best;
                while ((o < 0 || (int64_t)k < o) && !__sync_bool_compare_and_swap((int64_t*)best, o, (int64_t)k)) o = *best;
                break;
            }
            if (r.st == 1 && !shMain->probes[31] && !s.unrepeatable++) s.unrepeatableRun = k;
            ca->k = k + (uint64_t)workers;
        }
        fclose(hf);
        if (sf) fclose(sf);
        _exit(0);
    }
    bool workerDied = false;
    for (auto pid : pids) {
        int ws;
        while (waitpid(pid, &ws, 0) < 0 && errno == EINTR) {}
        if (!WIFEXITED(ws) || WEXITSTATUS(ws)) workerDied = true;
    }
    double wall = now() - t0;
    Stats sum;
    memset(&sum, 0, sizeof sum);
    std::unordered_set<uint64_t> distinct;
    for (int w = 0; w < workers; w++) {
        Stats& s = st[w];
        sum.runs += s.runs; sum.nontriv += s.nontriv; sum.execs += s.execs; sum.steps += s.steps; sum.events += s.events;
        sum.opsDone += s.opsDone; sum.opsFailed += s.opsFailed; sum.opsSkipped += s.opsSkipped; sum.switches += s.switches;
        if (s.longestRun > sum.longestRun) sum.longestRun = s.longestRun;
        if (s.others && !sum.others) { memcpy(sum.otherCls, s.otherCls, sizeof s.otherCls); memcpy(sum.otherMsg, s.otherMsg, sizeof s.otherMsg); sum.otherRun = s.otherRun; }
        if (s.noAnswer && !sum.noAnswer) { memcpy(sum.noCls, s.noCls, sizeof s.noCls); memcpy(sum.noMsg, s.noMsg, sizeof s.noMsg); sum.noRun = s.noRun; }
        sum.unrepeatable += s.unrepeatable; if (s.unrepeatable) sum.unrepeatableRun = s.unrepeatableRun;
        if (s.slowest > sum.slowest) { sum.slowest = s.slowest; sum.slowestRun = s.slowestRun; }
        sum.others += s.others; sum.noAnswer += s.noAnswer;
        for (int i = 0; i < F_KIND_N; i++) { sum.fired[i] += s.fired[i]; sum.firedRuns[i] += s.firedRuns[i]; }
        for (int i = 0; i < 32; i++) sum.probes[i] += s.probes[i];
        for (int i = 0; i < O_NKINDS; i++) { sum.kindOk[i] += s.kindOk[i]; sum.kindFail[i] += s.kindFail[i]; }
        for (size_t i = 0; i < sizeof s.cov; i++) sum.cov[i] |= s.cov[i];
        std::string h = readAll((dir + "/hashes." + std::to_string(w)).c_str());
        for (size_t i = 0; i + 8 <= h.size(); i += 8) { uint64_t v; memcpy(&v, h.data() + i, 8); distinct.insert(v); }
    }
    if (covPcs) {
        FILE* f = fopen(getenv("SIM_PCS"), "a");
        for (int i = 0; f && i < 8192; i++) if (covPcs[i]) fprintf(f, "0x%x\n", covPcs[i] - 5);
        if (f) fclose(f);
    }
    uint32_t cov = 0;
    for (auto c : sum.cov) cov += (uint32_t)__builtin_popcount(c);
    // raw statistics
    std::string o = "{";
    auto num = [&](const char* k, uint64_t v) { char b[100]; snprintf(b, sizeof b, "\"%s\": %llu, ", k, (unsigned long long)v); o += b; };
    num("runs", sum.runs); num("nontrivial", sum.nontriv); num("distinct", distinct.size()); num("executions", sum.execs); num("steps", sum.steps); num("events", sum.events);
    num("ops_succeeded", sum.opsDone); num("ops_failed", sum.opsFailed); num("ops_skipped", sum.opsSkipped); num("switches", sum.switches);
    num("other_property", sum.others); num("no_answer", sum.noAnswer); num("edges_covered", cov); num("edges_total", guards()); num("longest_run_steps", sum.longestRun);
    num("other_run", sum.otherRun); num("no_run", sum.noRun); num("unrepeatable", sum.unrepeatable); num("unrepeatable_run", sum.unrepeatableRun);
    o += "\"other_first\": " + jstr(std::string(sum.otherCls) + ": " + sum.otherMsg) + ", \"no_answer_first\": " + jstr(std::string(sum.noCls) + ": " + sum.noMsg) + ", ";
    o += "\"faults\": {";
    bool first = true;
    for (int i = 0; i < F_KIND_N; i++) if (sum.fired[i]) { char b[160]; snprintf(b, sizeof b, "%s\"%s\": {\"injected\": %llu, \"runs\": %llu}", first ? "" : ", ", FAULT_NAME[i], (unsigned long long)sum.fired[i], (unsigned long long)sum.firedRuns[i]); o += b; first = false; }
    o += "}, \"ops\": {";
    first = true;
    for (int i = 0; i < O_NKINDS; i++) if (sum.kindOk[i] || sum.kindFail[i]) { char b[160]; snprintf(b, sizeof b, "%s\"%s\": {\"succeeded\": %llu, \"failed\": %llu}", first ? "" : ", ", OP_NAME[i], (unsigned long long)sum.kindOk[i], (unsigned long long)sum.kindFail[i]); o += b; first = false; }
    o += "}, \"probes\": [";
    for (int i = 0; i < 32; i++) { o += (i ? ", " : "") + std::to_string(sum.probes[i]); }
    o += "], ";
    { char b[160]; snprintf(b, sizeof b, "\"slowest_run\": %llu, \"slowest_s\": %.3f, \"wall\": %.3f", (unsigned long long)sum.slowestRun, sum.slowest, wall); o += b; }
    o += "}\n";
    writeFile(dir + "/stats.json", o);
    if (sum.unrepeatable && *best < 0) { printf("ERROR run %llu ended differently when it was repeated\n", (unsigned long long)sum.unrepeatableRun); return 2; }
    if (workerDied) { printf("ERROR a worker of the simulator died\n"); return 2; }
    int64_t k = *best;
    if (k < 0) return 0;
    // the violation: confirm, minimise, confirm
    Plan p;
    Res r;
    bool full = makePlan(p, prop, mix(mix(seed0, (uint64_t)prop), (uint64_t)k), tier, r);
    Res a = full ? evaluate(p, true) : r;
    if (!full) { p.faults.clear(); p.switches.clear(); p.rr = 0; }
    Res b = evaluate(p);
    printf("run %lld (seed %llu): %s: %s\n", (long long)k, (unsigned long long)p.seed, b.cls.c_str(), b.msg.c_str());
    if (b.st != 2 || a.st != 2 || a.cls != b.cls) {
        writeFile(dir + "/unconfirmed", replayText(p, a.st == 2 ? a : b));
        printf("ERROR run %lld is not repeatable: first %d %s, then %d %s\n", (long long)k, a.st, a.cls.c_str(), b.st, b.cls.c_str());
        return 2;
    }
    Plan m = minimise(p, b.cls, minSecs);
    Res c = evaluate(m), d = evaluate(m);
    if (c.st != 2 || d.st != 2 || c.hash != d.hash || c.cls != b.cls) { m = p; c = b; }
    printf("minimised in %d executions from %zu operations, %zu faults, %zu switches to %zu, %zu, %zu\n", minEvals, p.ops.size(), p.faults.size(), p.switches.size() + (p.rr ? 1 : 0), m.ops.size(), m.faults.size(), m.switches.size());
    printf("%s: %s\n", c.cls.c_str(), c.msg.c_str());
    writeFile(dir + "/replay", replayText(m, c));
    return 1;
}

static int replay(const char* file) {
    std::string t = readAll(file);
    Plan p;
    if (!planParse(t, p)) { printf("ERROR cannot parse %s\n", file); return 2; }
    char cls[100] = "";
    unsigned long long h = 0;
    int prop = 0;
    const char* q = strstr(t.c_str(), "# property C");
    if (q) sscanf(q, "# property C%d class %99s hash %llx", &prop, cls, &h);
    Res r = evaluate(p);
    printf("%s: %s %s (hash %016llx)\n", r.st == 2 ? "violated" : r.st == 1 ? "held" : r.st == 3 ? "held, but another property is violated" : "no answer", r.cls.c_str(), r.msg.c_str(), (unsigned long long)r.hash);
    if (r.st == 2) {
        bool exact = r.cls == cls && r.hash == h;
        printf("%s\n", exact ? "reproduced exactly" : q ? "violated, but not as recorded" : "");
        return exact ? 1 : 3;
    }
    return r.st == 4 ? 2 : 0;
}

int main(int argc, char** argv) {
    int pers = personality(0xffffffff);
    if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_REEXEC")) {
        if (personality((unsigned long)pers | ADDR_NO_RANDOMIZE) != -1) { setenv("SIM_REEXEC", "1", 1); execv("/proc/self/exe", argv); }
    }
    setvbuf(stdout, nullptr, _IOLBF, 0);
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    snapLibData();
    shDry = newShared();
    shMain = newShared();
    for (auto& s : shAux) s = newShared();
    std::map<std::string, std::string> opt;
    std::vector<std::string> pos;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if (a.substr(0, 2) == "--") { opt[a.substr(2)] = i + 1 < argc ? argv[i + 1] : ""; i++; } else pos.push_back(a);
    }
    auto num = [&](const char* k, double d) { return opt.count(k) ? atof(opt[k].c_str()) : d; };
    std::string mode = pos.empty() ? "" : pos[0];
    int prop = (int)num("prop", 1);
    uint64_t seed = strtoull(opt.count("seed") ? opt["seed"].c_str() : "1", nullptr, 10);
    int tier = opt["tier"] == "thorough" ? 1 : 0;
    traceRuns = opt.count("trace");
    if (mode == "batch") {
        return batch(prop, seed, tier, num("secs", 10), (uint64_t)num("runs", 1e9), (int)num("workers", 8), opt["dir"], num("min", 60));
    } else if (mode == "replay" && pos.size() > 1) {
        return replay(pos[1].c_str());
    } else if (mode == "plan") {   // print the plan of run k
        Plan p;
        Res r;
        uint64_t k = strtoull(opt["run"].c_str(), nullptr, 10);
        makePlan(p, prop, mix(mix(seed, (uint64_t)prop), k), tier, r);
        fputs(planText(p).c_str(), stdout);
        return 0;
    } else if (mode == "run") {    // one run, verdict and statistics
        Plan p;
        Res r;
        uint64_t k = strtoull(opt["run"].c_str(), nullptr, 10);
        if (makePlan(p, prop, mix(mix(seed, (uint64_t)prop), k), tier, r)) r = evaluate(p, true);
        printf("%d %s %s hash %016llx other %u %s %s\n", r.st, r.cls.c_str(), r.msg.c_str(), (unsigned long long)r.hash, shMain->probes[31], shMain->cls, shMain->msg);
        return 0;
    } else if (mode == "deep") {   // known finding: does reading a deeply nested file overflow the stack?
        pid_t pid = fork();
        if (!pid) {
            sh = shMain;
            int dn = open("/dev/null", O_RDWR);
            dup2(dn, 1);
            dup2(dn, 2);
            alarm(100);
            probeDeepNesting((int)num("depth", 60000), (size_t)num("stack", 1 << 20));
            _exit(0);
        }
        int ws;
        while (waitpid(pid, &ws, 0) < 0 && errno == EINTR) {}
        printf("%s\n", WIFEXITED(ws) && WEXITSTATUS(ws) == 0 ? "survived" : "crashed");
        return 0;
    }
    fprintf(stderr, "usage: sim batch|replay FILE|plan|run|deep ...\n");
    return 2;
}
