// A plan is everything that decides an execution; it is plain text (the replay file).
#pragma once
#include "model.h"
#include "rt.h"

enum OpKind {
    O_BUILD, O_ADD, O_SETDATA, O_SETTEXT, O_COPYDATA, O_UPDATE, O_WRITE, O_READ, O_CHECK, O_COMPARE, O_SEARCH, O_LOOKUP, O_GETCHUNKS,
    O_PRINT, O_FREE, O_PUT, O_MUTATE, O_JOIN, O_PP, O_SNEW, O_SWRITE, O_SFOREIGN, O_SREAD, O_SCLOSE, O_SETCB, O_ATTACH, O_STORM, O_SIZE, O_NKINDS
};
extern const char* const OP_NAME[];
enum { T_SETUP = 9, T_POST = 8 };
struct Op {
    int id = 0, t = 0, kind = 0;
    long a[6] = {0, 0, 0, 0, 0, 0};
    Delivery d;
    std::vector<std::string> names;
    Data data;
    Tree tree;
    Op() {}
    Op(const Op& o) : id(o.id), t(o.t), kind(o.kind), d(o.d), names(o.names), data(o.data) { memcpy(a, o.a, sizeof a); if (o.tree) tree.reset(cloneTree(o.tree.get())); }
    Op(Op&&) = default;
    Op& operator=(Op&&) = default;
    Op& operator=(const Op& o) { Op x(o); *this = std::move(x); return *this; }
};
struct Plan {
    int prop = 1;
    uint64_t seed = 0;
    uint64_t junk = 1;
    int threads = 1;
    int64_t mem = 20 << 20;
    int rr = 0;
    int cb = 0;                       // 0 harness callback, 1 the library's own (to stderr)
    std::vector<HandlerSpec> handlers;
    std::vector<RegSpec> regs;        // 0 is the default registry
    std::vector<Op> ops;
    std::vector<Fault> faults;
    std::vector<Switch> switches;
};
std::string planText(const Plan& p);
bool planParse(const std::string& s, Plan& p);
void genPlan(Plan& p, int prop, uint64_t seed, int tier, Rng& r);
void genFaults(Plan& p, Rng& r, const Shared& dry);
