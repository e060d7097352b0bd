#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "exec.h"
#include <algorithm>
#include <errno.h>
#include <getopt.h>
#include <pthread.h>
#include <sys/wait.h>
#include <unistd.h>
extern "C" {
#include "iff.h"
#include "chunk.h"
#include "chunkregistry.h"
#include "defaultregistry.h"
#include "form.h"
#include "cat.h"
#include "list.h"
#include "prop.h"
#include "group.h"
#include "rawchunk.h"
#include "field.h"
#include "error.h"
#include "util.h"
#include "id.h"
int iffjoin_main(int argc, char** argv);
int iffpp_main(int argc, char** argv);
}

namespace {
const Plan* plan;
const Shared* refRun;
bool firedEver;

// ---------------------------------------------------------------- application chunk handlers
struct HChunk { IFF_Group* parent; IFF_ID chunkId; IFF_Long chunkSize; int slot; uint32_t* vals; };
struct HInfo { int slot; int reads; int thr; int op; };
std::map<void*, HInfo>* live;

const HandlerSpec& spec(int s) { return plan->handlers[(size_t)s]; }
bool handlerGivesUp(const char* where) {
    const Fault* f = fault(CLS_HANDLER);
    if (!f) return false;
    firedFault(f);
    tc->handlerFault++;
    LIB(IFF_error("application gives up %s\n", where));
    return true;
}
HInfo& handled(const void* c, int s, const char* what) {
    auto it = live->find((void*)c);
    if (it == live->end()) violate(P(14, 7, 5), "handler-unknown-chunk", "the %s handler got a chunk that does not exist (never created or already freed)", what);
    if (it->second.slot != s) violate(P(14), "wrong-handler", "the %s handler of chunk type %d got a chunk created by type %d", what, s, it->second.slot);
    return it->second;
}
IFF_Chunk* hCreate(int s, IFF_ID id, IFF_Long size) {
    AppScope as;
    if (handlerGivesUp("creating")) return nullptr;
    HChunk* c = (HChunk*)LIB(IFF_createChunk(id, size, sizeof(HChunk)));
    if (!c) return nullptr;
    if (c->chunkId != id || c->chunkSize != size || c->parent) violate(P(14, 8), "chunk-not-initialised", "IFF_createChunk did not set up the chunk");
    size_t n = spec(s).fields.size();
    c->slot = s;
    c->vals = (uint32_t*)sim_calloc(n + 1, 4);
    if (!c->vals) { sim_free(c); return nullptr; }
    (*live)[c] = HInfo{s, 0, tc->idx, tc->op};
    ev("create handler %d size %d", s, size);
    return (IFF_Chunk*)c;
}
IFF_Bool hRead(int s, FILE* fp, IFF_Chunk* ch, const IFF_ChunkRegistry*, IFF_Long* bp) {
    AppScope as;
    HChunk* c = (HChunk*)ch;
    HInfo& h = handled(c, s, "read");
    if (++h.reads > 1) violate(P(14), "handler-read-twice", "the reader of a chunk ran twice");
    if (*bp != 0) violate(P(14), "handler-start", "the reader was started with %d bytes already processed", *bp);
    const HandlerSpec& sp = spec(s);
    int64_t used = 0;
    size_t i = 0;
    for (; i < sp.fields.size(); i++) {
        if (handlerGivesUp("reading")) return FALSE;
        if (sp.failRead == (int)i) { LIB(IFF_error("application rejects field\n")); return FALSE; }
        int w = fieldSize(sp.fields[i]);
        bool fits = used + w <= c->chunkSize;
        IFF_FieldStatus st = IFF_FIELD_FAILURE;
        switch (sp.fields[i]) {
        case 'B': { IFF_UByte v = 0; st = LIB(IFF_readUByteField(fp, &v, ch, "field", bp)); if (st == IFF_FIELD_MORE) c->vals[i] = v; break; }
        case 'U': { IFF_UWord v = 0; st = LIB(IFF_readUWordField(fp, &v, ch, "field", bp)); if (st == IFF_FIELD_MORE) c->vals[i] = v; break; }
        case 'W': { IFF_Word v = 0; st = LIB(IFF_readWordField(fp, &v, ch, "field", bp)); if (st == IFF_FIELD_MORE) c->vals[i] = (uint32_t)(int32_t)v; break; }
        case 'L': { IFF_ULong v = 0; st = LIB(IFF_readULongField(fp, &v, ch, "field", bp)); if (st == IFF_FIELD_MORE) c->vals[i] = v; break; }
        case 'l': { IFF_Long v = 0; st = LIB(IFF_readLongField(fp, &v, ch, "field", bp)); if (st == IFF_FIELD_MORE) c->vals[i] = (uint32_t)v; break; }
        case 'I': { IFF_ID v = 0; st = LIB(IFF_readIdField(fp, &v, ch, "field", bp)); if (st == IFF_FIELD_MORE) c->vals[i] = v; break; }
        }
        ev("field %d status %d value %u", (int)i, st, c->vals[i]);
        if (st == IFF_FIELD_FAILURE) {
            if (!fits) violate(P(14), "field-fails", "a field that does not fit in the chunk was attempted");
            return FALSE;
        }
        if ((st == IFF_FIELD_MORE) != fits)
            violate(P(14, 5), "field-crosses-chunk", "field of %d bytes at %lld in a chunk of %d bytes: status %d", w, (long long)used, c->chunkSize, st);
        if (st == IFF_FIELD_LAST) break;
        used += w;
        if (*bp != used) violate(P(14), "field-accounting", "%d bytes processed after fields of %lld bytes", *bp, (long long)used);
    }
    if (i == sp.fields.size() && sp.failRead == (int)i) { LIB(IFF_error("application rejects chunk\n")); return FALSE; }
    return TRUE;
}
IFF_Bool hWrite(int s, FILE* fp, const IFF_Chunk* ch, const IFF_ChunkRegistry*, IFF_Long* bp) {
    AppScope as;
    const HChunk* c = (const HChunk*)ch;
    handled(c, s, "write");
    if (*bp != 0) violate(P(14), "handler-start", "the writer was started with %d bytes already processed", *bp);
    const HandlerSpec& sp = spec(s);
    int64_t used = 0;
    size_t i = 0;
    for (; i < sp.fields.size(); i++) {
        if (handlerGivesUp("writing")) return FALSE;
        if (sp.failWrite == (int)i) { LIB(IFF_error("application cannot write field\n")); return FALSE; }
        int w = fieldSize(sp.fields[i]);
        bool fits = used + w <= c->chunkSize;
        uint32_t v = c->vals[i];
        IFF_FieldStatus st = IFF_FIELD_FAILURE;
        switch (sp.fields[i]) {
        case 'B': st = LIB(IFF_writeUByteField(fp, (IFF_UByte)v, ch, "field", bp)); break;
        case 'U': st = LIB(IFF_writeUWordField(fp, (IFF_UWord)v, ch, "field", bp)); break;
        case 'W': st = LIB(IFF_writeWordField(fp, (IFF_Word)v, ch, "field", bp)); break;
        case 'L': st = LIB(IFF_writeULongField(fp, v, ch, "field", bp)); break;
        case 'l': st = LIB(IFF_writeLongField(fp, (IFF_Long)v, ch, "field", bp)); break;
        case 'I': st = LIB(IFF_writeIdField(fp, v, ch, "field", bp)); break;
        }
        if (st == IFF_FIELD_FAILURE) return FALSE;
        if ((st == IFF_FIELD_MORE) != fits)
            violate(P(14), "field-crosses-chunk", "written field of %d bytes at %lld in a chunk of %d bytes: status %d", w, (long long)used, c->chunkSize, st);
        if (st == IFF_FIELD_LAST) break;
        used += w;
        if (*bp != used) violate(P(14), "field-accounting", "%d bytes processed after fields of %lld bytes", *bp, (long long)used);
    }
    if (i == sp.fields.size() && sp.failWrite == (int)i) { LIB(IFF_error("application cannot write chunk\n")); return FALSE; }
    return TRUE;
}
IFF_Bool hCheck(int s, const IFF_Chunk* c, const IFF_ChunkRegistry*) {
    AppScope as;
    handled(c, s, "check");
    if (handlerGivesUp("checking")) return FALSE;
    if (!spec(s).checkOk) { LIB(IFF_error("application rejects chunk\n")); return FALSE; }
    return TRUE;
}
void hFree(int s, IFF_Chunk* ch, const IFF_ChunkRegistry*) {
    AppScope as;
    handled(ch, s, "free");
    live->erase(ch);
    ev("free handler %d", s);
    sim_free(((HChunk*)ch)->vals);
}
void hPrint(int s, const IFF_Chunk* ch, unsigned indent, const IFF_ChunkRegistry*) {
    AppScope as;
    const HChunk* c = (const HChunk*)ch;
    handled(c, s, "print");
    for (size_t i = 0; i < spec(s).fields.size(); i++) LIB(IFF_printIndent(stdout, indent, "field%d = %u;\n", (int)i, c->vals[i]));
}
IFF_Bool hCompare(int s, const IFF_Chunk* a, const IFF_Chunk* b, const IFF_ChunkRegistry*) {
    AppScope as;
    handled(a, s, "compare");
    handled(b, s, "compare");
    return memcmp(((HChunk*)a)->vals, ((HChunk*)b)->vals, 4 * spec(s).fields.size()) == 0;
}
template <int S> struct Th {
    static IFF_Chunk* create(const IFF_ID id, const IFF_Long size) { return hCreate(S, id, size); }
    static IFF_Bool read(FILE* f, IFF_Chunk* c, const IFF_ChunkRegistry* r, IFF_Long* b) { return hRead(S, f, c, r, b); }
    static IFF_Bool write(FILE* f, const IFF_Chunk* c, const IFF_ChunkRegistry* r, IFF_Long* b) { return hWrite(S, f, c, r, b); }
    static IFF_Bool check(const IFF_Chunk* c, const IFF_ChunkRegistry* r) { return hCheck(S, c, r); }
    static void free(IFF_Chunk* c, const IFF_ChunkRegistry* r) { hFree(S, c, r); }
    static void print(const IFF_Chunk* c, const unsigned int i, const IFF_ChunkRegistry* r) { hPrint(S, c, i, r); }
    static IFF_Bool compare(const IFF_Chunk* a, const IFF_Chunk* b, const IFF_ChunkRegistry* r) { return hCompare(S, a, b, r); }
    static IFF_ChunkType type(ID id) { return IFF_ChunkType{id, create, read, write, check, free, print, compare}; }
};
IFF_ChunkType chunkType(int s, ID id) {
    switch (s) {
    case 0: return Th<0>::type(id);
    case 1: return Th<1>::type(id);
    case 2: return Th<2>::type(id);
    case 3: return Th<3>::type(id);
    case 4: return Th<4>::type(id);
    case 5: return Th<5>::type(id);
    case 6: return Th<6>::type(id);
    case 7: return Th<7>::type(id);
    case 8: return Th<8>::type(id);
    }
    internalError("handler slot %d", s);
}
// registries: plain process memory, not part of the accounting
std::vector<const IFF_ChunkRegistry*> registries;
std::vector<std::pair<const char*, std::string>> registryBytes;      // what they hold; they belong to the application
void registered(const void* p, size_t n) { registryBytes.emplace_back((const char*)p, std::string((const char*)p, n)); }
IFF_ChunkTypesNode* levels(const Scope& s, bool global) {
    IFF_ChunkTypesNode* next = (global || s.chain) ? &IFF_globalChunkTypesNode : nullptr;
    for (size_t i = s.levels.size(); i-- > 0;) {
        auto l = s.levels[i];
        std::sort(l.begin(), l.end());
        IFF_ChunkTypesNode* n = new IFF_ChunkTypesNode;
        n->chunkTypesLength = (unsigned)l.size();
        n->chunkTypes = new IFF_ChunkType[l.size() + 1];
        for (size_t k = 0; k < l.size(); k++) n->chunkTypes[k] = chunkType(l[k].second, l[k].first);
        n->parent = next;
        next = n;
        registered(n, sizeof *n);
        registered(n->chunkTypes, n->chunkTypesLength * sizeof(IFF_ChunkType));
    }
    return next;
}
void makeRegistries() {
    registries.clear();
    registryBytes.clear();
    for (auto& r : plan->regs) {
        if (r.isDefault) { registries.push_back(nullptr); continue; }
        IFF_ChunkRegistry* q = new IFF_ChunkRegistry;
        auto fs = r.forms;
        std::sort(fs.begin(), fs.end(), [](const Scope& a, const Scope& b) { return a.ftype < b.ftype; });
        q->formChunkTypesLength = (unsigned)fs.size();
        q->formChunkTypes = new IFF_FormChunkTypes[fs.size() + 1];
        for (size_t i = 0; i < fs.size(); i++) { q->formChunkTypes[i].formType = fs[i].ftype; q->formChunkTypes[i].chunkTypesNode = levels(fs[i], false); }
        q->globalChunkTypesNode = levels(r.global, true);
        q->defaultChunkType = r.dflt >= 0 ? new IFF_ChunkType(chunkType(r.dflt, 0)) : &IFF_defaultChunkType;
        registries.push_back(q);
        registered(q, sizeof *q);
        registered(q->formChunkTypes, q->formChunkTypesLength * sizeof(IFF_FormChunkTypes));
    }
}
const IFF_ChunkRegistry* regp(int r) { return registries[(size_t)r]; }                                                        // NULL for the default
const IFF_ChunkRegistry* regq(int r) { return registries[(size_t)r] ? registries[(size_t)r] : &IFF_defaultChunkRegistry; }
const RegSpec& regs(int r) { return plan->regs[(size_t)r]; }

// ---------------------------------------------------------------- slots
struct Slot { Tree m; IFF_Chunk* c = nullptr; int reg = 0; ID scope = 0; };   // scope: form type whose handlers apply to the root
const int NSLOTS = 40;
Slot* slots;
int owner(int s) { return s + 1; }
int tmpOwner() { return 100 + tc->idx; }

// context of the operation a thread is executing
struct Ctx {
    const Op* x = nullptr;
    uint32_t base = 0;             // C15 if this operation follows a fault
    bool retry = false;
    int ok = -1;
    std::string obs;               // observable result
    size_t outBefore = 0, errBefore = 0;
    bool outExpected = false;
    uint64_t blocksBefore = 0;
};
Ctx ctxs[MAXTHR];
Ctx& cx() { return ctxs[tc->idx]; }

bool flag(uint32_t tags, const char* cls, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
bool flag(uint32_t tags, const char* cls, const char* fmt, ...) {
    char b[1200];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    tags |= cx().base;
    if (tags & curProp) violate(tags, cls, "%s", b);
    ev("other property: %s", cls);
    if (sh->cls[0] == 0) { snprintf(sh->cls, sizeof sh->cls, "%s", cls); snprintf(sh->msg, sizeof sh->msg, "op %d: %s", tc->op, b); }
    sh->probes[31]++;
    return false;
}
void ob(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void ob(const char* fmt, ...) {
    char b[400];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    cx().obs += b;
    ev("= %s", b);
}
bool faulted() { return tc->opFired > 0 || tc->opHuge > 0; }
bool hasHand(const Node* n) {
    if (n->k == HAND) return true;
    for (auto* c : n->props) if (hasHand(c)) return true;
    for (auto* c : n->kids) if (hasHand(c)) return true;
    return false;
}
uint64_t treeHash(const Node* n) { std::string s; encode(n, plan->handlers, s, 0, 1 << 22); return bighash(s.data(), s.size()); }

// real hierarchy -> model
Node* fromReal(IFF_Chunk* c, ID scope, int reg, Node* parent) {
    Node* n = new Node;
    n->parent = parent;
    n->id = c->chunkId;
    n->size = c->chunkSize;
    n->real = c;
    int s = lookupSlot(regs(reg), scope, c->chunkId);
    if (s == H_GROUP) {
        n->k = GROUP;
        IFF_Group* g = (IFF_Group*)c;
        n->gtype = g->groupType;
        if (c->chunkId == LIST) {
            IFF_List* l = (IFF_List*)c;
            for (unsigned i = 0; i < l->propLength; i++) n->props.push_back(fromReal((IFF_Chunk*)l->prop[i], n->gtype, reg, n));
        }
        for (unsigned i = 0; i < g->chunkLength; i++) n->kids.push_back(fromReal(g->chunk[i], n->gtype, reg, n));
    } else if (s == H_RAW) {
        n->k = RAW;
        if (c->chunkSize > 0) n->data.assign((char*)((IFF_RawChunk*)c)->chunkData, (size_t)c->chunkSize);
    } else {
        n->k = HAND;
        n->slot = s;
        auto it = live->find(c);
        if (it == live->end() || it->second.slot != s) violate(P(14), "wrong-handler", "a chunk of type %08x in scope %08x was not created by its handler", c->chunkId, scope);
        n->vals.assign(((HChunk*)c)->vals, ((HChunk*)c)->vals + spec(s).fields.size());
    }
    return n;
}
// compares a real hierarchy with the model and links them; empty result: equal
std::string diff(IFF_Chunk* c, Node* n, IFF_Group* parent) {
    char b[200];
    if (!c) return "missing chunk";
    n->real = c;
    auto bad = [&](const char* what, long long got, long long want) { snprintf(b, sizeof b, "%s of chunk %08x is %lld (0x%llx), expected %lld (0x%llx)", what, n->id, got, got, want, want); return std::string(b); };
    if (c->chunkId != n->id) return bad("id", c->chunkId, n->id);
    if (n->anySize) n->size = c->chunkSize;
    else if (c->chunkSize != n->size) return bad("size", c->chunkSize, n->size);
    if (c->parent != parent) return bad("parent link", 1, 0);
    if (n->k == RAW) {
        IFF_RawChunk* r = (IFF_RawChunk*)c;
        size_t bs = 0;
        if (!liveBlock(r->chunkData, &bs) || bs < n->data.size()) return bad("data block", (long long)bs, (long long)n->data.size());
        if (!n->data.empty() && memcmp(r->chunkData, n->data.data(), n->data.size())) {
            for (size_t i = 0; i < n->data.size(); i++)
                if (((unsigned char*)r->chunkData)[i] != (unsigned char)n->data[i]) { snprintf(b, sizeof b, "data byte %zu", i); return bad(std::string(b).c_str(), r->chunkData[i], (unsigned char)n->data[i]); }
        }
        return "";
    }
    if (n->k == HAND) {
        auto it = live->find(c);
        if (it == live->end() || it->second.slot != n->slot) return bad("handler", it == live->end() ? -1 : it->second.slot, n->slot);
        for (size_t i = 0; i < n->vals.size(); i++) if (((HChunk*)c)->vals[i] != n->vals[i]) { snprintf(b, sizeof b, "field %zu", i); return bad(std::string(b).c_str(), ((HChunk*)c)->vals[i], n->vals[i]); }
        return "";
    }
    IFF_Group* g = (IFF_Group*)c;
    if (g->groupType != n->gtype) return bad("group type", g->groupType, n->gtype);
    if (g->chunkLength != n->kids.size()) return bad("number of sub chunks", g->chunkLength, (long long)n->kids.size());
    if (n->id == LIST) {
        IFF_List* l = (IFF_List*)c;
        if (l->propLength != n->props.size()) return bad("number of PROP chunks", l->propLength, (long long)n->props.size());
        for (size_t i = 0; i < n->props.size(); i++) { std::string s = diff((IFF_Chunk*)l->prop[i], n->props[i], g); if (!s.empty()) return s; }
    }
    for (size_t i = 0; i < n->kids.size(); i++) { std::string s = diff(g->chunk[i], n->kids[i], g); if (!s.empty()) return s; }
    return "";
}
// the hierarchy in a slot must be what the model says; otherwise reality is adopted
bool verify(int s, uint32_t tags, const char* cls) {
    Slot& z = slots[s];
    if (!z.c) return true;
    std::string d = diff(z.c, z.m.get(), nullptr);
    if (d.empty()) return true;
    flag(tags, cls, "hierarchy %d: %s", s, d.c_str());
    z.m.reset(fromReal(z.c, z.scope, z.reg, nullptr));
    return false;
}
void freeSlot(int s) {
    Slot& z = slots[s];
    if (!z.c) return;
    IFF_Chunk* c = z.c;
    z.c = nullptr;
    z.m.reset();
    size_t before = live->size();
    (void)before;
    if (z.scope) LIB((IFF_freeChunk(c, z.scope, regq(z.reg)), 0));
    else LIB((IFF_free(c, regp(z.reg)), 0));
    z.scope = 0;
    uint64_t left = liveByOwner(owner(s));
    if (left) { flag(P(7), "leak-after-free", "%llu blocks of hierarchy %d are still allocated after it was freed", (unsigned long long)left, s); reown(owner(s), 99); }
}
int indexOf(Node* root, void* real) {
    std::vector<Node*> v;
    preorder(root, v);
    for (size_t i = 0; i < v.size(); i++) if (v[i]->real == real) return (int)i;
    return -1;
}
// one file has many names
std::string spell(const Op& x, const std::string& name, int k = 0) {
    uint32_t h = ((uint32_t)x.id * 37 + (uint32_t)k) * 2654435761u;
    return (h >> 16) % 6 == 0 ? "./" + name : name;
}
void noTmpLeft(uint32_t tags, const char* what) {
    uint64_t left = liveByOwner(tmpOwner());
    if (left) { flag(P(7) | tags, "leak", "%llu blocks allocated by a %s are still allocated after it returned", (unsigned long long)left, what); reown(tmpOwner(), 99); }
}
void noStreamsLeft() {
    for (auto* h : W->handles)
        if (h->open && h->lib && h->op == tc->op) { flag(P(7), "stream-left-open", "a stream opened by the library is still open after the call"); h->lib = false; }
}
void needDiag(bool failed, const char* what) {
    if (!failed) return;
    bool said = plan->cb == 1 ? W->err.bytes.size() > cx().errBefore : tc->nerr > tc->nerrEmpty;
    if (!said) flag(P(16), "failure-not-diagnosed", "%s failed but the error callback got no message", what);
}
void needSilence(const char* what) {
    bool said = plan->cb == 1 ? W->err.bytes.size() > cx().errBefore : tc->nerr > 0;
    if (said) flag(P(16), "spurious-diagnostic", "%s succeeded on conforming data without any fault but reported: %s", what, tc->err.substr(0, 300).c_str());
}

// kinds are decided by the registry: a plan may have been edited or moved to another scope
void normalize(Node* n, ID scope, int reg) {
    int s = lookupSlot(regs(reg), scope, n->id);
    if (n->k == RAW && s >= 0) {
        n->k = HAND;
        n->slot = s;
        const std::string& f = spec(s).fields;
        n->vals.assign(f.size(), 0);
        size_t q = 0;
        for (size_t i = 0; i < f.size(); i++) {
            size_t w = (size_t)fieldSize(f[i]);
            if (q + w > n->data.size()) break;
            uint32_t v = 0;
            for (size_t k = 0; k < w; k++) v = (v << 8) | (unsigned char)n->data[q + k];
            if (f[i] == 'W') v = (uint32_t)(int32_t)(int16_t)v;
            n->vals[i] = v;
            q += w;
        }
        n->size = (int32_t)n->data.size();
        n->data.clear();
    } else if (n->k == HAND && s == H_RAW) {
        std::string e;
        encode(n, plan->handlers, e);
        n->k = RAW;
        n->data = e.substr(8, (size_t)n->size);
        n->slot = -1;
        n->vals.clear();
    } else if (n->k == HAND && s != n->slot) {
        n->slot = s;
        n->vals.resize(spec(s).fields.size(), 1);
        for (size_t i = 0; i < n->vals.size(); i++) {
            if (spec(s).fields[i] == 'B') n->vals[i] &= 0xff;
            if (spec(s).fields[i] == 'U') n->vals[i] &= 0xffff;
            if (spec(s).fields[i] == 'W') n->vals[i] = (uint32_t)(int32_t)(int16_t)n->vals[i];
        }
    }
    if (n->k == HAND) n->vals.resize(spec(n->slot).fields.size());
    // fields that do not fit in the chunk are not stored, so a hierarchy that is to be read back has none
    if (n->k == HAND) {
        int64_t used = 0;
        bool out = false;
        for (size_t i = 0; i < n->vals.size(); i++) {
            int w = fieldSize(spec(n->slot).fields[i]);
            if (out || used + w > n->size) { out = true; n->vals[i] = 0; } else used += w;
        }
    }
    for (auto* c : n->props) normalize(c, n->gtype, reg);
    for (auto* c : n->kids) normalize(c, n->gtype, reg);
}
bool badKinds(const Node* n) {   // a group chunk ID on something that is no group
    if (n->k != GROUP) return isGroup(n->id);
    if (!isGroup(n->id)) return true;
    for (auto* c : n->props) if (badKinds(c)) return true;
    for (auto* c : n->kids) if (badKinds(c)) return true;
    return false;
}

// ---------------------------------------------------------------- building through the API
IFF_Chunk* build(const Node* n, ID scope, int reg, int style);
bool attach(IFF_Chunk* g, IFF_Chunk* c, bool update) {
    IFF_Bool r;
    switch (g->chunkId) {
    case IFF_ID_FORM: r = LIB(IFF_addToForm((IFF_Form*)g, c)); break;
    case IFF_ID_PROP: r = LIB(IFF_addToProp((IFF_Prop*)g, c)); break;
    case IFF_ID_CAT: r = update ? LIB(IFF_addToCATAndUpdateContentsType((IFF_CAT*)g, c)) : LIB(IFF_addToCAT((IFF_CAT*)g, c)); break;
    default:
        if (c->chunkId == PROP) r = LIB(IFF_addPropToList((IFF_List*)g, (IFF_Prop*)c));
        else r = update ? LIB(IFF_addToListAndUpdateContentsType((IFF_List*)g, c)) : LIB(IFF_addToList((IFF_List*)g, c));
    }
    return r;
}
bool addBuilt(IFF_Chunk* g, const Node* kid, ID gtype, int reg, int style) {
    IFF_Chunk* c = build(kid, gtype, reg, style);
    if (!c) return false;
    if (!attach(g, c, false)) { LIB((IFF_freeChunk(c, gtype, regq(reg)), 0)); return false; }
    return true;
}
IFF_Chunk* build(const Node* n, ID scope, int reg, int style) {
    if (n->k == RAW) {
        IFF_RawChunk* r = (IFF_RawChunk*)LIB(IFF_createRawChunk(n->id, style & 2 ? n->size : 0));
        if (!r) return nullptr;
        if (style & 2) LIB((IFF_copyDataToRawChunkData(r, (IFF_UByte*)n->data.data()), 0));
        else if (n->id == TEXT && n->data.find('\0') == std::string::npos) {
            if (!LIB(IFF_setTextData(r, n->data.c_str()))) { LIB((IFF_freeChunk((IFF_Chunk*)r, scope, regq(reg)), 0)); return nullptr; }
        } else {
            char* d = (char*)appMalloc(n->data.size());
            memcpy(d, n->data.data(), n->data.size());
            sim_free(r->chunkData);
            LIB((IFF_setRawChunkData(r, (IFF_UByte*)d, n->size), 0));
        }
        return (IFF_Chunk*)r;
    }
    if (n->k == HAND) {
        HChunk* c = (HChunk*)hCreate(n->slot, n->id, n->size);
        if (!c) return nullptr;
        for (size_t i = 0; i < n->vals.size(); i++) c->vals[i] = n->vals[i];
        (*live)[c].reads = 1;
        return (IFF_Chunk*)c;
    }
    IFF_Chunk* g;
    if (style & 4) switch (n->id) {     // with the size of an empty group given by the caller
    case IFF_ID_FORM: g = (IFF_Chunk*)LIB(IFF_createForm(IFF_ID_SIZE, n->gtype)); break;
    case IFF_ID_PROP: g = (IFF_Chunk*)LIB(IFF_createProp(IFF_ID_SIZE, n->gtype)); break;
    case IFF_ID_CAT: g = (IFF_Chunk*)LIB(IFF_createCAT(IFF_ID_SIZE, n->gtype)); break;
    default: g = (IFF_Chunk*)LIB(IFF_createList(IFF_ID_SIZE, n->gtype)); break;
    } else switch (n->id) {
    case IFF_ID_FORM: g = (IFF_Chunk*)LIB(IFF_createEmptyForm(n->gtype)); break;
    case IFF_ID_PROP: g = (IFF_Chunk*)LIB(IFF_createEmptyProp(n->gtype)); break;
    case IFF_ID_CAT: g = (IFF_Chunk*)(n->gtype == JJJJ ? LIB(IFF_createEmptyCAT()) : LIB(IFF_createEmptyCATWithContentsType(n->gtype))); break;
    default: g = (IFF_Chunk*)(n->gtype == JJJJ ? LIB(IFF_createEmptyList()) : LIB(IFF_createEmptyListWithContentsType(n->gtype))); break;
    }
    if (!g) return nullptr;
    for (auto* c : n->props) if (!addBuilt(g, c, n->gtype, reg, style)) { LIB((IFF_freeChunk(g, scope, regq(reg)), 0)); return nullptr; }
    for (auto* c : n->kids) if (!addBuilt(g, c, n->gtype, reg, style)) { LIB((IFF_freeChunk(g, scope, regq(reg)), 0)); return nullptr; }
    if (style & 1) LIB((IFF_updateChunkSizes(g), 0));
    return g;
}

uint32_t editTags() { return P(8) | (tc->allocFault ? P(6) : 0); }

void opBuild(const Op& x) {
    int s = (int)x.a[0], reg = (int)x.a[1];
    if (!x.tree) return;
    freeSlot(s);
    Tree t(cloneTree(x.tree.get()));
    normalize(t.get(), 0, reg);
    fixSizes(t.get());
    if (badKinds(t.get())) return;
    setOwner(tmpOwner());
    IFF_Chunk* c = build(t.get(), 0, reg, (int)x.a[2]);
    if (!c) {
        noTmpLeft(0, "failed construction");
        cx().ok = 0;
        if (!faulted()) flag(P(8), "edit-failed", "a hierarchy could not be built although nothing went wrong");
        return;
    }
    reown(tmpOwner(), owner(s));
    Slot& z = slots[s];
    z.c = c;
    z.reg = reg;
    z.m = std::move(t);
    cx().ok = 1;
    verify(s, editTags(), "built-hierarchy-wrong");
    ob("built %llx", (unsigned long long)treeHash(z.m.get()));
}
std::vector<Node*> nodesOf(int s, int kind) {   // 0 groups, 1 raw, 2 forms, 3 all
    std::vector<Node*> v, o;
    preorder(slots[s].m.get(), v);
    for (auto* n : v)
        if (kind == 3 || (kind == 0 && n->k == GROUP) || (kind == 1 && n->k == RAW) || (kind == 2 && n->k == GROUP && n->id == FORM)) o.push_back(n);
    return o;
}
int64_t padSize(int64_t s) { return 8 + s + (s % 2 != 0); }
void opAdd(const Op& x) {
    int s = (int)x.a[0];
    Slot& z = slots[s];
    bool move = x.kind == O_ATTACH;      // a whole hierarchy becomes part of another one
    int from = (int)x.a[3];
    if (!z.c || z.scope) return;
    if (move && (from == s || !slots[from].c || slots[from].scope || slots[from].reg != z.reg || slots[from].m->k != GROUP)) return;
    if (!move && !x.tree) return;
    auto gs = nodesOf(s, 0);
    if (gs.empty()) return;
    Node* g = gs[(size_t)x.a[1] % gs.size()];
    Tree t(move ? nullptr : cloneTree(x.tree.get()));
    if (move) t = std::move(slots[from].m);
    struct Back { Tree& t; int from; ~Back() { if (from >= 0 && t) slots[from].m = std::move(t); } } back{t, move ? from : -1};   // unless it is added
    bool prop = g->id == LIST && t->id == PROP && t->k == GROUP;
    bool upd = x.a[2] == 1 && (g->id == CAT || g->id == LIST) && !prop;
    bool typed = upd && t->k == GROUP && isMember(t->id);     // anything else has no type the contents type could follow
    if (badKinds(t.get())) return;
    if (move && countNodes(t.get()) + countNodes(z.m.get()) > 4000) return;
    // what becomes of the contents type
    ID nt = g->gtype;
    bool sure = true;
    if (typed) {
        bool allGroups = true;
        ID common = 0;
        bool differ = false;
        for (auto* k : g->kids) {
            if (k->k != GROUP || !isMember(k->id)) { allGroups = false; continue; }
            if (!common) common = k->gtype;
            else if (common != k->gtype) differ = true;
        }
        if (!allGroups) sure = false;
        else if (!g->kids.empty() && g->gtype != (differ ? JJJJ : common)) sure = false;   // the contents type was not maintained so far
        if (g->kids.empty()) nt = t->gtype;
        else nt = (differ || common != t->gtype) ? JJJJ : common;
        if (!regs(z.reg).isDefault && (!allGroups || !g->props.empty())) {
            // another contents type may assign other handlers to the chunks directly in the group, which the API cannot express
            for (auto* k : g->kids) if (k->k != GROUP) return;
        }
    }
    if (!move) { normalize(t.get(), nt, z.reg); fixSizes(t.get()); }
    bool wasSettled = settled(g) && settled(t.get());
    setOwner(tmpOwner());
    IFF_Chunk* c = move ? slots[from].c : build(t.get(), nt, z.reg, (int)(x.a[1] & 7));
    if (!c) {
        noTmpLeft(0, "failed construction");
        cx().ok = 0;
        if (!faulted()) flag(P(8), "edit-failed", "a chunk could not be built although nothing went wrong");
        verify(s, editTags(), "changed-by-failed-edit");
        return;
    }
    if (attach((IFF_Chunk*)g->real, c, upd)) {
        reown(tmpOwner(), owner(s));
        if (move) { reown(owner(from), owner(s)); slots[from].c = nullptr; }
        t->parent = g;
        int32_t add = (int32_t)padSize(t->size);
        (prop ? g->props : g->kids).push_back(t.release());
        if (wasSettled) g->size += add; else g->anySize = true;
        for (Node* a = g->parent; a; a = a->parent) a->anySize = true;
        if (typed) {
            if (sure) g->gtype = nt;
            else g->gtype = ((IFF_Group*)g->real)->groupType;
        }
        cx().ok = 1;
        verify(s, editTags(), "edit-wrong");
        ob("added %zu/%zu %x", g->props.size(), g->kids.size(), g->gtype);
    } else {
        cx().ok = 0;
        if (!faulted()) flag(P(8), "edit-failed", "a chunk could not be added although nothing went wrong");
        if (c->parent == (IFF_Group*)g->real) flag(P(8, 6), "failed-addition-links", "a chunk whose addition failed refers to the group as its parent");
        if (!move) LIB((IFF_freeChunk(c, nt, regq(z.reg)), 0));
        reown(tmpOwner(), owner(s));
        if (move) { slots[from].m = std::move(t); verify(from, editTags(), "changed-by-failed-edit"); }
        verify(s, editTags(), "changed-by-failed-edit");
        ob("not added");
    }
}
void opData(const Op& x) {
    int s = (int)x.a[0];
    Slot& z = slots[s];
    if (!z.c || z.scope) return;
    auto v = nodesOf(s, 1);
    if (v.empty()) return;
    Node* n = v[(size_t)x.a[1] % v.size()];
    IFF_RawChunk* r = (IFF_RawChunk*)n->real;
    std::string d = x.data.expand();
    setOwner(tmpOwner());
    int32_t old = n->size;
    cx().ok = 1;
    if (x.kind == O_SETDATA) {
        char* m = (char*)appMalloc(d.size());
        memcpy(m, d.data(), d.size());
        sim_free(r->chunkData);
        LIB((IFF_setRawChunkData(r, (IFF_UByte*)m, (IFF_Long)d.size()), 0));
        n->data = d;
    } else if (x.kind == O_SETTEXT) {
        d = d.substr(0, d.find('\0'));
        const std::string text = d.c_str();
        bool set = LIB(IFF_setTextData(r, d.c_str()));
        if (d != text) flag(P(8, 10), "arguments-modified", "IFF_setTextData modified the text that it was given");
        if (set) n->data = d;
        else {
            cx().ok = 0;
            if (!faulted()) flag(P(8), "edit-failed", "text could not be set although nothing went wrong");
        }
    } else {
        std::string full;
        while (full.size() < n->data.size()) full += d.empty() ? std::string("z") : d;
        full.resize(n->data.size());
        const std::string given(full.data(), full.size());
        LIB((IFF_copyDataToRawChunkData(r, (IFF_UByte*)full.data()), 0));
        if (full != given) flag(P(8, 10), "arguments-modified", "IFF_copyDataToRawChunkData modified the data that it was given");
        n->data = full;
    }
    n->size = (int32_t)n->data.size();
    if (n->size != old) for (Node* a = n->parent; a; a = a->parent) a->anySize = true;
    reown(tmpOwner(), owner(s));
    verify(s, editTags(), cx().ok ? "edit-wrong" : "changed-by-failed-edit");
    ob("data %d %d", cx().ok, n->size);
}
void opUpdate(const Op& x) {
    int s = (int)x.a[0];
    Slot& z = slots[s];
    if (!z.c) return;
    auto v = nodesOf(s, 3);
    Node* n = v[(size_t)x.a[1] % v.size()];
    setOwner(tmpOwner());
    LIB((IFF_updateChunkSizes((IFF_Chunk*)n->real), 0));
    for (Node* a = n; a; a = a->parent)
        if (a->k == GROUP) {
            int64_t t = 4;
            for (auto* c : a->props) t += padSize(((IFF_Chunk*)c->real)->chunkSize);
            for (auto* c : a->kids) t += padSize(((IFF_Chunk*)c->real)->chunkSize);
            a->size = (int32_t)t;
            a->anySize = false;
        }
    cx().ok = 1;
    verify(s, editTags(), "sizes-not-recalculated");
    noTmpLeft(0, "size update");
    ob("updated %d", z.m->size);
}

// declared sizes that do not fit the contents (a group may be created with any size, and attaching does not change it)
static void alikeSizes(Node* n, const Node* o) {
    if (n->k != GROUP || o->k != GROUP) return;
    ((IFF_Chunk*)n->real)->chunkSize = n->size = ((IFF_Chunk*)o->real)->chunkSize;
    n->anySize = false;
    for (size_t i = 0; i < n->props.size() && i < o->props.size(); i++) alikeSizes(n->props[i], o->props[i]);
    for (size_t i = 0; i < n->kids.size() && i < o->kids.size(); i++) alikeSizes(n->kids[i], o->kids[i]);
}
// as if some members had been attached after the sizes were calculated
static void attachedLater(Node* n, Rng& r) {
    if (n->k != GROUP) return;
    std::vector<Node*> all(n->props);
    all.insert(all.end(), n->kids.begin(), n->kids.end());
    for (auto* c : all) attachedLater(c, r);
    size_t k = all.size();
    if (k && r.chance(1, 3)) k = r.chance(1, 2) ? 0 : r.chance(1, 2) ? k - 1 : r.u((uint32_t)k);
    int64_t t = 4;
    size_t from = k == all.size() && r.chance(1, 6) ? n->props.size() : 0;
    for (size_t i = from; i < k; i++) t += padSize(((IFF_Chunk*)all[i]->real)->chunkSize);
    if (r.chance(1, 12)) t += r.chance(1, 2) ? -1 : 1;
    ((IFF_Chunk*)n->real)->chunkSize = n->size = (int32_t)t;
    n->anySize = false;
}
void opSize(const Op& x) {
    int s = (int)x.a[0];
    Slot& z = slots[s];
    if (!z.c) return;
    auto gs = nodesOf(s, 0);
    if (gs.empty()) return;
    if (x.a[2] == 2) {
        Slot& o = slots[x.a[3]];
        if (!o.c || o.reg != z.reg) return;
        alikeSizes(z.m.get(), o.m.get());
    } else if (x.a[2] == 3) {
        Rng r((uint64_t)x.a[3]);
        attachedLater(z.m.get(), r);
    } else {
        Node* g = gs[(size_t)x.a[1] % gs.size()];
        IFF_Chunk* c = (IFF_Chunk*)g->real;
        c->chunkSize = g->size = (int32_t)(x.a[2] == 1 ? c->chunkSize + x.a[3] : x.a[3]);
        g->anySize = false;
    }
    cx().ok = 1;
    ob("size %d", z.m->size);
}

// ---------------------------------------------------------------- storage
struct FileSnap { std::string bytes; bool exists; uint32_t opensW; };
std::map<std::string, int>* lastReg;
struct Outcome { int st; uint64_t h; };
std::map<std::string, Outcome>* unspecified;

bool writeGivesUp(const Node* n) {   // an application handler in it refuses to be written
    if (n->k == HAND) {
        const HandlerSpec& sp = spec(n->slot);
        int64_t used = 0;
        size_t i = 0;
        for (; i < sp.fields.size(); i++) {
            if (sp.failWrite == (int)i) return true;
            if (used + fieldSize(sp.fields[i]) > n->size) break;
            used += fieldSize(sp.fields[i]);
        }
        return i == sp.fields.size() && sp.failWrite == (int)i;
    }
    for (auto* c : n->props) if (writeGivesUp(c)) return true;
    for (auto* c : n->kids) if (writeGivesUp(c)) return true;
    return false;
}
Handle* libHandle(bool w) {
    for (size_t i = W->handles.size(); i-- > 0;) {
        Handle* h = W->handles[i];
        if (h->lib && h->op == tc->op && h->thr == tc->idx && (w ? h->w : h->r)) return h;
    }
    return nullptr;
}
// contents left behind by a write that failed or crashed: no mixture may be readable
void notAMixture(const std::string& now, const std::string& before, bool beforeExisted, const Node* attempt, int reg) {
    if (beforeExisted && now == before) return;
    ParseResult r = parseChunk(now, 0, 0, regs(reg), plan->handlers, W->memBudget);
    if (r.st != 1) return;
    Tree got(r.tree);
    if (sameTree(got.get(), attempt, true)) return;
    flag(P(4), "mixture", "a write that did not succeed left a readable file (%zu bytes) that holds neither the previous nor the written hierarchy", now.size());
}
int crashPipe = -1;
void dumpDisk() {
    std::string o;
    auto num = [&](uint64_t v) { o.append((char*)&v, 8); };
    num(W->disk.size());
    for (auto& e : W->disk) {
        num(e.first.size()); o += e.first;
        num(e.second.exists); num(e.second.opensW); num(e.second.bytes.size()); o += e.second.bytes;
    }
    size_t at = 0;
    while (at < o.size()) { ssize_t k = write(crashPipe, o.data() + at, o.size() - at); if (k <= 0) break; at += (size_t)k; }
    close(crashPipe);
}
void adoptDisk(const std::string& o) {
    size_t p = 0;
    auto num = [&]() { uint64_t v = 0; if (p + 8 > o.size()) internalError("crash dump"); memcpy(&v, o.data() + p, 8); p += 8; return v; };
    uint64_t n = num();
    std::map<std::string, SFile> d;
    while (n--) {
        uint64_t l = num();
        std::string name = o.substr(p, l); p += l;
        SFile& f = W->disk[name];
        f.exists = num() != 0; f.opensW = (uint32_t)num();
        l = num();
        f.bytes = o.substr(p, l); p += l;
    }
}

// the stream that refused something earlier takes everything now
void again(Handle* h, const SFile& f, Slot& z, const std::string& enc, bool std) {
    if (!(curProp & P(15)) || W->mt) return;
    uint32_t fired = tc->opFired, huge = tc->opHuge;
    FILE* fp = h->fp;
    h->dead = false;      // the disk has room again
    if (!std && (z.m->size & 2)) clearerr(fp);     // some callers acknowledge the error
    bool r = std ? LIB(IFF_write(nullptr, z.c, regp(z.reg))) : LIB(IFF_writeFd(fp, z.c, regp(z.reg)));
    if (!std) fflush(fp);
    if (tc->opFired != fired || tc->opHuge != huge || tc->handlerFault) return;
    if (!r) flag(P(15), "second-attempt-failed", "a write to %s failed although the fault is over: %s", std ? "the standard output" : "a stream", tc->err.substr(0, 300).c_str());
    else if (f.bytes.size() < enc.size() || f.bytes.compare(f.bytes.size() - enc.size(), enc.size(), enc) != 0) flag(P(15), "second-attempt-incomplete", "a repeated write to %s succeeded but the destination did not get all of it", std ? "the standard output" : "a stream");
}
void opWrite(const Op& x) {
    int s = (int)x.a[0];
    Slot& z = slots[s];
    if (!z.c || z.scope || x.names.empty()) return;
    const std::string& name = x.names[0];
    int dest = (int)x.a[2];
    std::string enc;
    bool exact = settled(z.m.get());
    if (exact) encode(z.m.get(), plan->handlers, enc);
    bool givesUp = writeGivesUp(z.m.get());
    setOwner(tmpOwner());
    std::string prefix((size_t)x.a[3], 'p');
    uint32_t hand = hasHand(z.m.get()) ? P(14) : 0;
    if (dest == 0) {
        auto it = W->disk.find(name);
        bool ex = it != W->disk.end() && it->second.exists;
        std::string before = ex ? it->second.bytes : "";
        bool crash = false;
        for (auto& f : W->faults) if (f.op == tc->op && f.kind == F_CRASH) crash = true;
        (*lastReg)[name] = z.reg;
        if (crash && x.a[4] == 1) {
            int pf[2];
            if (pipe(pf)) internalError("pipe");
            pid_t pid = fork();
            if (pid == 0) {
                close(pf[0]);
                crashPipe = pf[1];
                crashHook = dumpDisk;
                LIB(IFF_write(spell(x, name).c_str(), z.c, regp(z.reg)));
                dumpDisk();
                crashNow();
            }
            close(pf[1]);
            std::string dump;
            char buf[65536];
            ssize_t k;
            while ((k = read(pf[0], buf, sizeof buf)) > 0) dump.append(buf, (size_t)k);
            close(pf[0]);
            int st;
            while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
            if (!WIFEXITED(st) || WEXITSTATUS(st) != 20) {
                if (sh->verdict) _exit(WIFEXITED(st) ? WEXITSTATUS(st) : 13);
                violate(PROP_ALL, "crash", "the writing process ended abnormally (status %x)", st);
            }
            adoptDisk(dump);
            firedEver = true;
            sh->op[tc->op].fired++;
            cx().ok = 0;
            const SFile& f = W->disk[name];
            if (exact && !givesUp) notAMixture(f.bytes, before, ex, z.m.get(), z.reg);
            ob("crashed, %zu bytes", f.bytes.size());
            return;
        }
        bool r = (x.id & 1) ? LIB(IFF_write(spell(x, name).c_str(), z.c, regp(z.reg))) : LIB(IFF_writeFile(spell(x, name).c_str(), z.c, regp(z.reg)));
        cx().ok = r;
        const SFile& f = W->disk[name];
        needDiag(!r, "writing a file");
        if (r) {
            if (givesUp || tc->handlerFault) flag(P(14, 1), "handler-failure-ignored", "a write succeeded although an application handler failed");
            else if (exact && (!f.exists || f.bytes != enc))
                flag(P(1, 4, 17) | hand | (tc->opFired || tc->opHuge ? 0 : P(8)), "acknowledged-write-incomplete", "the write succeeded but the file holds %zu bytes instead of the %zu bytes of the encoding%s", f.bytes.size(), enc.size(), f.bytes.size() == enc.size() ? " (different contents)" : "");
            if (exact && !faulted() && !givesUp && modelCheck(z.m.get(), regs(z.reg), plan->handlers, true, 0)) needSilence("writing");
        } else {
            if (!faulted() && !givesUp) flag(P(1, 4) | hand, "write-failed", "a write failed although nothing went wrong");
            if (exact && !givesUp) notAMixture(f.exists ? f.bytes : "", before, ex, z.m.get(), z.reg);
        }
        noTmpLeft(0, "write");
        noStreamsLeft();
        ob("write %d file %d %zu %llx", (int)r, f.exists, f.bytes.size(), (unsigned long long)bighash(f.bytes.data(), f.bytes.size()));
    } else if (dest == 1) {
        SFile out;
        setStd(1, &out, (x.a[3] & 1) == 0, x.d);
        if (!prefix.empty()) fwrite(prefix.data(), 1, prefix.size(), stdout);
        bool spoiled = tc->opFired > 0;
        bool r = LIB(IFF_write(nullptr, z.c, regp(z.reg)));
        std::string got = out.bytes;
        cx().ok = r;
        needDiag(!r, "writing to the standard output");
        if (r) {
            if (givesUp || tc->handlerFault) flag(P(14, 1), "handler-failure-ignored", "a write succeeded although an application handler failed");
            else if (exact && !spoiled && got != prefix + enc)
                flag(P(1) | hand, "acknowledged-write-incomplete", "the write succeeded but the standard output holds %zu of %zu bytes%s", got.size(), prefix.size() + enc.size(), got.size() == prefix.size() + enc.size() ? " (different contents)" : "");
            if (exact && !faulted() && !givesUp && modelCheck(z.m.get(), regs(z.reg), plan->handlers, true, 0)) needSilence("writing");
        } else if (!faulted() && !givesUp) flag(P(1) | hand, "write-failed", "a write to the standard output failed although nothing went wrong");
        if (!r && exact && !givesUp && !tc->handlerFault) again(W->hout, out, z, enc, true);
        setStd(1, &W->out, true, Delivery());
        noTmpLeft(0, "write");
        ob("write %d stdout %zu %llx", (int)r, got.size(), (unsigned long long)bighash(got.data(), got.size()));
    } else {
        SFile f;
        Handle* h = openHandle(&f, "w", dest == 2, x.d, false);
        if (!prefix.empty()) fwrite(prefix.data(), 1, prefix.size(), h->fp);
        bool spoiled = tc->opFired > 0;
        bool r = LIB(IFF_writeFd(h->fp, z.c, regp(z.reg)));
        cx().ok = r;
        uint32_t during = tc->opFired;
        needDiag(!r, "writing to a stream");
        if (!h->open) violate(P(7, 17), "closed-callers-stream", "the library closed the stream of the caller");
        fflush(h->fp);
        std::string got = f.bytes;
        if (r) {
            if (givesUp || tc->handlerFault) flag(P(14, 1), "handler-failure-ignored", "a write succeeded although an application handler failed");
            else if (exact && !spoiled && tc->opFired == during && got != prefix + enc)
                flag(P(1, 17) | hand, "acknowledged-write-incomplete", "the write succeeded but the stream got %zu of %zu bytes%s", got.size(), prefix.size() + enc.size(), got.size() == prefix.size() + enc.size() ? " (different contents)" : "");
            if (exact && !during && !tc->opHuge && !givesUp && modelCheck(z.m.get(), regs(z.reg), plan->handlers, true, 0)) needSilence("writing");
        } else if (!during && !tc->opHuge && !givesUp) flag(P(1, 17) | hand, "write-failed", "a write to a stream failed although nothing went wrong");
        if (!r && exact && !givesUp && !tc->handlerFault) again(h, f, z, enc, false);
        closeHandle(h);
        noTmpLeft(0, "write");
        ob("write %d stream %zu %llx", (int)r, got.size(), (unsigned long long)bighash(got.data(), got.size()));
    }
    verify(s, P(1, 9, 11, 14) | (tc->allocFault ? P(6) : 0), "modified-by-write");
}

// judges the result of reading a chunk; returns whether a hierarchy was handed out
void judgeRead(int s, int reg, IFF_Chunk* c, const std::string& content, size_t pos, bool exists, Handle* h, bool whole, const std::string& key, uint32_t tags, ID scope = 0) {
    size_t before = 0;
    (void)before;
    ParseResult r{0, nullptr, 0, false};
    if (exists) r = parseChunk(content, pos, scope, regs(reg), plan->handlers, W->memBudget);
    Tree want(r.tree);
    bool clean = !faulted();
    uint32_t hand = want && hasHand(want.get()) ? P(14) : 0;
    needDiag(!c, "reading");
    if (!c) {
        cx().ok = 0;
        if (r.st == 1 && clean) flag(P(3, 4, 17) | hand | tags, "valid-input-rejected", "a well-formed input of %zu bytes was rejected: %s", content.size() - pos, tc->err.substr(0, 300).c_str());
        noTmpLeft(0, "failed read");
        for (auto& e : *live)
            if (e.second.op == tc->op && e.second.thr == tc->idx) { flag(P(14, 7), "handler-chunk-not-freed", "a chunk of handler %d created during a failed read was not freed", e.second.slot); break; }
        ob("rejected");
    } else {
        cx().ok = 1;
        if (tc->handlerFault) flag(P(14), "handler-failure-ignored", "a read succeeded although an application handler failed");
        if (!exists || (tc->openFaultR && !h)) flag(P(2), "accepted-nothing", "a hierarchy was returned for a file that could not be opened");
        Node* real = fromReal(c, scope, reg, nullptr);
        Slot& z = slots[s];
        reown(tmpOwner(), owner(s));
        z.c = c;
        z.reg = reg;
        z.scope = scope;
        z.m.reset(real);
        if (r.st == 0 && exists)
            flag(P(2, 3, 5) | (plan->handlers.empty() ? 0 : P(14)) | tags, "incomplete-input-accepted", "an input that ends (or fails) before the last byte of the main chunk was accepted");
        if (r.st == 1) {
            if (h && h->maxRead < pos + r.used)
                flag(P(2) | tags, "unread-bytes-accepted", "the input was accepted although only %zu of its %zu bytes were delivered", h->maxRead, pos + r.used);
            std::string d = diff(c, want.get(), nullptr);
            if (!d.empty())
                flag((clean ? P(3, 4, 17) : P(2, 4)) | hand | (tc->allocFault ? P(6) : 0) | tags, "parsed-wrong", "%s", d.c_str());
            else z.m = std::move(want);
        } else {
            std::string d = diff(c, z.m.get(), nullptr);   // parent links
            if (!d.empty()) flag(P(3, 5), "parsed-inconsistently", "%s", d.c_str());
        }
        for (auto& e : *live)
            if (e.second.op == tc->op && e.second.thr == tc->idx && e.second.reads != 1) { flag(P(14), "handler-not-run", "the reader of a handler chunk ran %d times", e.second.reads); break; }
        if (clean && r.st == 1 && r.silent && (!whole || content.size() == pos + r.used) && modelCheck(z.m.get(), regs(reg), plan->handlers, whole, scope)) needSilence("reading");
        ob("read %llx", (unsigned long long)treeHash(z.m.get()));
    }
    if (r.st == 2 && clean && !key.empty()) {
        Outcome o{c != nullptr, c ? treeHash(slots[s].m.get()) : 0};
        auto it = unspecified->find(key);
        if (it == unspecified->end()) (*unspecified)[key] = o;
        else if (it->second.st != o.st || it->second.h != o.h) flag(P(3), "delivery-changes-outcome", "the same bytes were %s before and %s now (or parsed differently)", it->second.st ? "accepted" : "rejected", o.st ? "accepted" : "rejected");
    }
}
void opRead(const Op& x) {
    int s = (int)x.a[0];
    if (x.names.empty()) return;
    const std::string& name = x.names[0];
    int reg = (int)x.a[1];
    if (reg < 0) { auto it = lastReg->find(name); reg = it == lastReg->end() ? 0 : it->second; }
    if (reg >= (int)plan->regs.size()) return;
    int src = (int)x.a[2];
    freeSlot(s);
    auto it = W->disk.find(name);
    bool exists = it != W->disk.end() && it->second.exists;
    if (!exists && src != 0) return;
    SFile* f = exists ? &it->second : nullptr;
    std::string content = exists ? f->bytes : "";
    uint32_t ow = exists ? f->opensW : 0;
    setOwner(tmpOwner());
    IFF_Chunk* c;
    Handle* h = nullptr;
    if (src == 0) {
        c = (x.id & 1) ? LIB(IFF_read(spell(x, name).c_str(), regp(reg))) : LIB(IFF_readFile(spell(x, name).c_str(), regp(reg)));
        h = libHandle(false);
    } else if (src <= 2) {
        setStd(0, f, src == 1, x.d);
        h = W->hin;
        c = LIB(IFF_read(nullptr, regp(reg)));
        if (!h->open) flag(P(7), "closed-callers-stream", "the library closed the standard input");
    } else {
        h = openHandle(f, "r", src == 3, x.d, false);
        c = LIB(IFF_readFd(h->fp, regp(reg)));
        if (!h->open) violate(P(7, 17), "closed-callers-stream", "the library closed the stream of the caller");
    }
    std::string key = name + " " + std::to_string(ow) + " " + std::to_string(reg);
    judgeRead(s, reg, c, content, 0, exists, h, true, key, 0);
    noStreamsLeft();
    if (exists && (f->bytes != content || f->opensW != ow)) flag(P(3), "input-modified", "reading modified its input");
    if (src > 2) closeHandle(h);
    else if (src > 0) { static SFile empty; setStd(0, &empty, true, Delivery()); }
}

// ---------------------------------------------------------------- queries
Node* someNode(int s, long k) { auto v = nodesOf(s, 3); return v[(size_t)(k - 1) % v.size()]; }
ID scopeOf(int s, Node* n) { return n->parent ? n->parent->gtype : slots[s].scope; }
uint32_t queryTags() { return P(9) | (tc->allocFault ? P(6) : 0) | (plan->handlers.empty() ? 0 : P(14)); }
void opCheck(const Op& x) {
    int s = (int)x.a[0];
    Slot& z = slots[s];
    if (!z.c) return;
    setOwner(tmpOwner());
    Node* n = x.a[1] > 0 ? someNode(s, x.a[1]) : nullptr;      // a part of the hierarchy
    if (!n && z.scope) return;
    bool want = n ? modelCheck(n, regs(z.reg), plan->handlers, false, scopeOf(s, n)) : modelCheck(z.m.get(), regs(z.reg), plan->handlers, true, 0);
    bool got = n ? LIB(IFF_checkChunk((IFF_Chunk*)n->real, scopeOf(s, n), regq(z.reg))) : LIB(IFF_check(z.c, regp(z.reg)));
    cx().ok = got;
    if (tc->handlerFault) want = false;
    if (got != want && !(tc->opFired && !tc->handlerFault))
        flag(P(9) | (got ? P(5) : 0) | (plan->handlers.empty() ? 0 : P(14)), got ? "nonconforming-accepted" : "conforming-rejected", "check says %d, the rules say %d: %s", got, want, tc->err.substr(0, 300).c_str());
    needDiag(!got, "the conformance check");
    noTmpLeft(0, "check");
    verify(s, P(9, 11), "modified-by-query");
    ob("check %d", got);
}
void opCompare(const Op& x) {
    int s = (int)x.a[0], q = (int)x.a[1];
    Slot &a = slots[s], &b = slots[q];
    if (!a.c || !b.c || a.reg != b.reg) return;
    setOwner(tmpOwner());
    Node *n = a.m.get(), *m = b.m.get();
    if (x.a[2] > 0) { n = someNode(s, x.a[2]); m = x.a[3] > 0 ? someNode(q, x.a[3]) : m; }     // parts of the hierarchies
    ID scope = scopeOf(s, n);
    if ((x.a[2] > 0 || scope || scopeOf(q, m)) && lookupSlot(regs(a.reg), scope, n->id) != lookupSlot(regs(b.reg), scopeOf(q, m), m->id)) return;
    bool w1 = sameTree(n, m, true), w2 = sameTree(n, m, false);
    bool got = x.a[2] > 0 || scope ? LIB(IFF_compareChunk((IFF_Chunk*)n->real, (IFF_Chunk*)m->real, scope, regq(a.reg))) : LIB(IFF_compare(a.c, b.c, regp(a.reg)));
    cx().ok = 1;
    if (w1 == w2 && got != w1) flag(queryTags(), "comparison-wrong", "comparison says %d for hierarchies that are %s", got, w1 ? "equal" : "different");
    noTmpLeft(0, "comparison");
    verify(s, P(9, 11), "modified-by-query");
    if (q != s) verify(q, P(9, 11), "modified-by-query");
    ob("compare %d", got);
}
void opSearch(const Op& x) {
    int s = (int)x.a[0];
    Slot& z = slots[s];
    if (!z.c) return;
    setOwner(tmpOwner());
    std::vector<ID> types{(ID)x.a[1]};
    if (x.a[2] == 1 && x.a[3]) types.push_back((ID)x.a[3]);
    if (x.a[2] == 2) types = {(ID)x.a[1], FORM, (ID)x.a[3], JJJJ, (ID)x.a[1], 0};
    if (x.a[2] == 3) {
        Rng r((uint64_t)x.a[3]);
        size_t k = r.chance(1, 2) ? 8 + r.u(30) : 30 + r.u(250);
        types.clear();
        for (size_t i = 0; i < k; i++) types.push_back(mkid("AAAA") + (ID)r.u(26) + ((ID)r.u(26) << 8) + ((ID)r.u(26) << 16));
        types[r.chance(1, 2) ? k - 1 : r.u((uint32_t)k)] = (ID)x.a[1];
    }
    std::vector<Node*> want;
    Node* at = x.a[4] > 0 ? someNode(s, x.a[4]) : z.m.get();
    if (x.a[2] == 4) {      // types of FORMs that are there, preferably nested ones; the search may start at an outer one of them
        Rng r((uint64_t)x.a[3]);
        std::vector<Node*> v, fs, outer;
        preorder(z.m.get(), v);
        for (auto* f : v) if (f->k == GROUP && f->id == FORM) {
            fs.push_back(f);
            for (auto* kid : f->kids) if (kid->k == GROUP) { outer.push_back(f); break; }
        }
        if (!outer.empty() && r.chance(2, 3)) {
            Node* f = outer[r.u((uint32_t)outer.size())];
            if (f->real && r.chance(2, 3)) at = f;
            types.insert(types.begin() + (r.chance(1, 2) ? 1 : 0), f->gtype);
            fs.clear();
            v.clear();
            preorder(f, v);
            for (auto* n : v) if (n != f && n->k == GROUP && n->id == FORM) fs.push_back(n);
        }
        for (int i = (int)r.u(4); i > 0 && !fs.empty(); i--) types.insert(types.begin() + r.u((uint32_t)types.size() + 1), fs[r.u((uint32_t)fs.size())]->gtype);
    }
    IFF_Chunk* rat = (IFF_Chunk*)at->real;
    modelSearch(at, types, want);
    unsigned n = 0xdeadu;
    IFF_Form** got;
    const std::vector<ID> asked = types;
    if (x.a[4] > 0 && (x.id & 1) && at->k == GROUP && at->id == FORM) got = LIB(IFF_searchFormsInForm((IFF_Form*)rat, types.data(), (unsigned)types.size(), &n));
    else if (x.a[4] > 0 && (x.id & 1) && at->k == GROUP && at->id == CAT) got = LIB(IFF_searchFormsInCAT((IFF_CAT*)rat, types.data(), (unsigned)types.size(), &n));
    else if (x.a[4] > 0 && (x.id & 1) && at->k == GROUP && at->id == LIST) got = LIB(IFF_searchFormsInList((IFF_List*)rat, types.data(), (unsigned)types.size(), &n));
    else got = types.size() == 1 ? LIB(IFF_searchForms(rat, types[0], &n)) : LIB(IFF_searchFormsFromArray(rat, (IFF_ID*)types.data(), (unsigned)types.size(), &n));
    if (types != asked) flag(P(9, 10, 11), "arguments-modified", "a form search modified the array of types that it was given");
    if (!got && n == 0 && !want.empty() && (tc->allocFault || tc->opHuge)) { cx().ok = 0; ob("no memory"); }
    else {
        cx().ok = 1;
        bool same = n == want.size() && (got || n == 0);
        for (unsigned i = 0; same && i < n; i++) same = (void*)got[i] == want[i]->real;
        if (!same) {
            flag(queryTags(), "search-wrong", "form search found %d forms, expected %zu (or others, or in another order)", (int)n, want.size());
        }
        ob("found %u", n);
        if (got && same) for (unsigned i = 0; i < n; i++) ob(" %d", indexOf(z.m.get(), got[i]));
        if (same && (x.a[1] + x.a[3] + x.a[4]) % 3 == 0) {      // collect what several searches found, as an application going through many files does
            unsigned n2 = 0;
            ID also[] = {types[0], FORM, types.back(), 0x41424344};
            std::vector<ID> at2(also, also + 4);
            std::vector<Node*> want2;
            modelSearch(z.m.get(), at2, want2);
            IFF_Form** got2 = LIB(IFF_searchFormsFromArray(z.c, at2.data(), 4, &n2));
            if (n2 == want2.size()) {
                std::vector<IFF_Form*> src(got2, got2 + n2);
                unsigned total = n;
                IFF_Form** all = LIB(IFF_mergeFormArray(got, &total, got2, n2));
                if (!all && n2 > 0 && (tc->allocFault || tc->opHuge)) { cx().ok = 0; ob(" no memory to merge"); if (total != n) flag(P(6, 9), "merge-wrong", "a merge that failed changed the length of the array"); }
                else {
                    got = all;
                    bool ok = total == n + n2;
                    for (unsigned i = 0; ok && i < n; i++) ok = (void*)all[i] == want[i]->real;
                    for (unsigned i = 0; ok && i < n2; i++) ok = all[n + i] == src[i] && (void*)got2[i] == (void*)src[i] && (void*)src[i] == want2[i]->real;
                    if (!ok) flag(queryTags(), "merge-wrong", "merging arrays of %u and %u forms gives another array", n, n2);
                    ob(" merged %u", total);
                }
            } else if (!(n2 == 0 && !got2 && (tc->allocFault || tc->opHuge))) flag(queryTags(), "search-wrong", "form search found %u forms, expected %zu", n2, want2.size());
            else cx().ok = 0;
            if (got2) sim_free(got2);
        }
    }
    if (got) sim_free(got);
    noTmpLeft(0, "search");
    verify(s, P(9, 11) | (tc->allocFault ? P(6) : 0), "modified-by-query");
}
void opLookup(const Op& x) {
    int s = (int)x.a[0];
    Slot& z = slots[s];
    if (!z.c) return;
    auto v = nodesOf(s, 2);
    if (v.empty()) return;
    Node* f = v[(size_t)x.a[1] % v.size()];
    ID id = (ID)x.a[2];
    if (x.a[3] > 0) {      // something that is there, for this form or for one of another type
        std::vector<ID> ids;
        for (auto* k : f->kids) ids.push_back(k->id);
        for (Node* a = f->parent; a; a = a->parent)
            for (auto* p : a->props) for (auto* k : p->kids) ids.push_back(k->id);
        if (!ids.empty()) id = ids[(size_t)(x.a[3] - 1) % ids.size()];
    }
    setOwner(tmpOwner());
    if (x.kind == O_LOOKUP) {
        Node* want = modelLookup(f, id);
        IFF_Chunk* got = LIB(IFF_getChunkFromForm((IFF_Form*)f->real, id));
        cx().ok = 1;
        if ((void*)got != (want ? want->real : nullptr)) flag(queryTags(), "lookup-wrong", "lookup of %08x %s, expected %s", id, got ? "found a chunk" : "found nothing", want ? (got ? "another chunk" : "a chunk") : "nothing");
        ob("lookup %d", got ? indexOf(z.m.get(), got) : -1);
        Node* own = nullptr;
        for (auto* k : f->kids) if (k->id == id) { own = k; break; }
        for (Node* a = f->parent; a; a = a->parent) {     // the PROPs of the LISTs around it
            if (a->id != LIST) continue;
            Node *wp = nullptr, *wc = nullptr;
            for (auto* p : a->props) if (p->gtype == f->gtype) { wp = p; break; }
            IFF_Prop* gp = LIB(IFF_getPropFromList((IFF_List*)a->real, f->gtype));
            if ((void*)gp != (wp ? wp->real : nullptr)) flag(queryTags(), "lookup-wrong", "lookup of the PROP of type %08x in a LIST is wrong", f->gtype);
            if (!wp) continue;
            for (auto* k : wp->kids) if (k->id == id) { wc = k; break; }
            got = LIB(IFF_getChunkFromProp((IFF_Prop*)wp->real, id));
            if ((void*)got != (wc ? wc->real : nullptr)) flag(queryTags(), "lookup-wrong", "lookup of chunk %08x in a PROP is wrong", id);
        }
        got = LIB(IFF_getDataChunkFromForm((IFF_Form*)f->real, id));
        if ((void*)got != (own ? own->real : nullptr)) flag(queryTags(), "lookup-wrong", "lookup of the form's own chunk %08x is wrong", id);
    } else {
        std::vector<Node*> want;
        for (auto* k : f->kids) if (k->id == id) want.push_back(k);
        unsigned n = 0xdeadu;
        IFF_Chunk** got = LIB(IFF_getChunksFromForm((IFF_Form*)f->real, id, &n));
        if (!got && n == 0 && !want.empty() && (tc->allocFault || tc->opHuge)) { cx().ok = 0; ob("no memory"); }
        else {
            cx().ok = 1;
            bool same = n == want.size() && (got || n == 0);
            for (unsigned i = 0; same && i < n; i++) same = (void*)got[i] == want[i]->real;
            if (!same) flag(queryTags(), "lookup-wrong", "%d chunks %08x found, expected %zu (or others, or in another order)", (int)n, id, want.size());
            ob("chunks %u", n);
        }
        if (got) sim_free(got);
    }
    noTmpLeft(0, "lookup");
    verify(s, P(9, 11) | (tc->allocFault ? P(6) : 0), "modified-by-query");
}
void opPrint(const Op& x) {
    int s = (int)x.a[0];
    Slot& z = slots[s];
    if (!z.c || z.scope) return;
    setOwner(tmpOwner());
    SFile out;
    setStd(1, &out, true, x.d);
    LIB((IFF_print(z.c, (unsigned)x.a[1], regp(z.reg)), 0));
    fflush(stdout);
    std::string got = out.bytes;
    setStd(1, &W->out, true, Delivery());
    cx().ok = 1;
    std::string want;
    modelPrint(z.m.get(), (unsigned)x.a[1], plan->handlers, want);
    if (!faulted() && got != want) flag(P(13) | (hasHand(z.m.get()) ? P(14) : 0), "printed-wrong", "%zu characters printed, expected %zu%s", got.size(), want.size(), got.size() == want.size() ? " (different text)" : "");
    noTmpLeft(0, "print");
    verify(s, P(9, 11), "modified-by-query");
    ob("print %llx", (unsigned long long)bighash(got.data(), got.size()));
}

// ---------------------------------------------------------------- another program's files
void opPut(const Op& x) {
    if (x.names.empty()) return;
    std::string b;
    int reg = (int)x.a[1];
    if (x.a[0] == 1 && x.tree) {
        Tree t(cloneTree(x.tree.get()));
        normalize(t.get(), 0, reg);
        fixSizes(t.get());
        encode(t.get(), plan->handlers, b, (uint64_t)x.a[3]);
    } else b = x.data.expand();
    if (x.a[2] >= 0 && !b.empty()) b.resize((size_t)x.a[2] % b.size());
    SFile& f = W->disk[x.names[0]];
    f.bytes = b;
    f.exists = true;
    f.opensW++;
    (*lastReg)[x.names[0]] = reg;
    cx().ok = 1;
    ob("put %zu", b.size());
}
void chunkHeaders(const std::string& b, size_t p, size_t end, std::vector<size_t>& out, int depth) {
    while (p + 8 <= end && out.size() < 4000) {
        uint32_t sz = ((uint32_t)(unsigned char)b[p + 4] << 24) | ((uint32_t)(unsigned char)b[p + 5] << 16) | ((uint32_t)(unsigned char)b[p + 6] << 8) | (unsigned char)b[p + 7];
        ID id = ((ID)(unsigned char)b[p] << 24) | ((ID)(unsigned char)b[p + 1] << 16) | ((ID)(unsigned char)b[p + 2] << 8) | (unsigned char)b[p + 3];
        out.push_back(p);
        size_t e = p + 8 + (size_t)sz;
        if (e > end) e = end;
        if (isGroup(id) && depth < 60) chunkHeaders(b, p + 12, e, out, depth + 1);
        p = p + 8 + (size_t)sz + sz % 2;
    }
}
void opMutate(const Op& x) {
    if (x.names.empty()) return;
    auto it = W->disk.find(x.names[0]);
    if (it == W->disk.end() || !it->second.exists) return;
    std::string& b = it->second.bytes;
    size_t r1 = (size_t)x.a[1], r2 = (size_t)x.a[2];
    std::string d = x.data.expand();
    cx().ok = 1;
    it->second.opensW++;
    if (x.a[0] == 8) { b += d.empty() ? std::string(1 + r1 % 3, (char)r2) : d; return; }
    if (b.empty()) return;
    std::vector<size_t> hs;
    chunkHeaders(b, 0, b.size(), hs, 0);
    size_t at = r1 % b.size();
    size_t hd = hs.empty() ? 0 : hs[r1 % hs.size()];
    auto put32 = [&](size_t p, uint32_t v) { for (int i = 0; i < 4; i++) if (p + (size_t)i < b.size()) b[p + (size_t)i] = (char)(v >> (24 - 8 * i)); };
    auto get32 = [&](size_t p) { uint32_t v = 0; for (int i = 0; i < 4; i++) v = v << 8 | (p + (size_t)i < b.size() ? (unsigned char)b[p + (size_t)i] : 0u); return v; };
    switch (x.a[0]) {
    case 0: b[at] = (char)(b[at] ^ (1 << (r2 % 8))); break;
    case 1: b[at] = (char)r2; break;
    case 2: b.insert(at, d.empty() ? std::string(1 + r2 % 3, (char)(r2 >> 3)) : d); break;
    case 3: b.erase(at, 1 + r2 % 9); break;
    case 4: {   // a chunk size becomes extreme
        static const uint32_t v[] = {0, 1, 2, 3, 4, 5, 7, 8, 0x7fffffff, 0x7ffffffe, 0x80000000u, 0x80000001u, 0xffffffffu, 0xfffffffeu, 0xfffffff8u, 0xfffffff0u, 0xfffffffcu, 0x00ffffffu, 0x40000000u, 0xfffffff6u};
        put32(hd + 4, v[r2 % 20]);
        break;
    }
    case 5: put32(hd + 4, get32(hd + 4) + (uint32_t)((int)(r2 % 25) - 12)); break;   // a size is off by a little
    case 6: {   // an ID becomes that of a group or of a known chunk
        static const char* const ids[] = {"FORM", "CAT ", "LIST", "PROP", "JJJJ", "TEXT", "NAME", "BODY", "HELO", "BYE ", "CMAP", "ILBM"};
        put32(hd + (r2 / 12 % 3 == 0 ? 8 : 0), mkid(ids[r2 % 12]));
        break;
    }
    case 7: b.resize(at); break;
    case 10: {   // a pad byte is not zero
        std::vector<size_t> pads;
        for (size_t h : hs) { uint32_t z = get32(h + 4); if (z % 2 && h + 8 + (size_t)z < b.size()) pads.push_back(h + 8 + z); }
        if (x.a[3] == 1) for (size_t q : pads) b[q] = (char)(1 + r2 % 255);
        else if (!pads.empty()) b[pads[r1 % pads.size()]] = (char)(1 + r2 % 255);
        break;
    }
    case 11: {   // a group declares a little less than it has
        std::vector<size_t> gs;
        for (size_t h : hs) { uint32_t i = get32(h), z = get32(h + 4); if ((i == FORM || i == CAT || i == LIST || i == PROP) && z > 4 && z % 2 == 0 && h + 8 + (size_t)z <= b.size()) gs.push_back(h); }
        if (gs.empty()) break;
        size_t h = gs[r1 % gs.size()];
        static const uint32_t less[] = {1, 1, 1, 1, 3, 2, 5, 4};
        uint32_t z = get32(h + 4), n = z - less[r2 % 8];
        put32(h + 4, n);
        if (n % 2) b.insert(h + 8 + z, 1, '\0');
        break;
    }
    case 9: {   // a block is copied or swapped elsewhere
        size_t from = r2 % b.size(), n = 1 + (r2 >> 4) % 40;
        b.insert(at, b.substr(from, n));
        break;
    }
    }
    ob("mutated %zu", b.size());
}

// ---------------------------------------------------------------- the tools
int runTool(int (*m)(int, char**), const std::vector<std::string>& args, bool& exited) {
    std::vector<char*> av;
    for (auto& a : args) av.push_back(strdup(a.c_str()));
    av.push_back(nullptr);
    auto* cb = IFF_errorCallback;
    IFF_errorCallback = &IFF_errorCallbackStderr;
    optind = 0;
    opterr = 1;
    jmp_buf jb;
    volatile int rc = -1;
    exited = false;
    simExit = &jb;
    if (setjmp(jb) == 0) { LibScope ls; rc = m((int)args.size(), av.data()); }
    else { rc = simExitCode; exited = true; tc->inLib = false; }
    simExit = nullptr;
    IFF_errorCallback = cb;
    for (auto* a : av) free(a);
    return rc & 0xff;
}
// a wrong or informative command line: nothing is read or written, and a wrong one is reported by the exit status
void toolUsage(int (*m)(int, char**), const char* name, const Op& x, int prop) {
    std::vector<std::string> args{name};
    bool join = prop == 12, wrong = x.a[2] <= 3;
    switch (x.a[2]) {
    case 1: if (join) { args.push_back("-o"); args.push_back(x.names[0]); } else args.push_back("-c0"); break;    // no inputs
    case 2: args.push_back("-x"); for (auto& n : x.names) args.push_back(n); break;
    case 3: for (auto& n : x.names) args.push_back(n); args.push_back(join ? "-o" : "--no-such-option"); break;
    case 4: args.push_back(x.id & 1 ? "-h" : "--help"); break;
    default: args.push_back(x.id & 1 ? "-v" : "--version");
    }
    std::map<std::string, FileSnap> snap;
    for (auto& e : W->disk) snap[e.first] = FileSnap{e.second.bytes, e.second.exists, e.second.opensW};
    SFile out;
    static SFile none;
    setStd(1, &out, (x.id & 1) != 0, x.d);
    setStd(0, &none, true, Delivery());
    setOwner(tmpOwner());
    bool exited;
    int rc = runTool(m, args, exited);
    setStd(1, &W->out, true, Delivery());
    if (!exited) noTmpLeft(0, "run of a tool");
    else reown(tmpOwner(), 99);
    noStreamsLeft();
    cx().ok = rc == 0;
    if (wrong && rc == 0) flag(P(prop), "wrong-usage-accepted", "%s succeeded with a wrong command line", name);
    for (auto& e : W->disk) {
        auto it = snap.find(e.first);
        if (it == snap.end() ? e.second.exists : (e.second.bytes != it->second.bytes || e.second.exists != it->second.exists || e.second.opensW != it->second.opensW))
            flag(P(prop), "output-touched", "%s was called with a wrong or informative command line but touched %s", name, e.first.c_str());
    }
    ob("%s %d", name, rc);
}
void opJoin(const Op& x) {
    if (x.names.size() < 2) return;
    bool toFile = x.a[1] == 1;
    std::string outName = x.names[0];
    if (x.a[2] > 0) { toolUsage(iffjoin_main, "iffjoin", x, 12); return; }
    std::vector<std::string> args{"iffjoin"}, ins(x.names.begin() + 1, x.names.end());
    if (toFile && x.a[0] == 0) { args.push_back("-o"); args.push_back(spell(x, outName)); }
    if (toFile && x.a[0] == 1) args.push_back("--output-file=" + spell(x, outName));
    for (size_t i = 0; i < ins.size(); i++) args.push_back(spell(x, ins[i], (int)i + 1));
    if (toFile && x.a[0] == 2) { args.push_back("-o"); args.push_back(spell(x, outName)); }
    // what must happen
    bool bad = false;
    Tree cat(new Node);
    cat->k = GROUP; cat->id = CAT; cat->gtype = JJJJ; cat->size = 4;
    for (auto& i : ins) {
        auto it = W->disk.find(i);
        if (it == W->disk.end() || !it->second.exists) { bad = true; break; }
        ParseResult r = parseChunk(it->second.bytes, 0, 0, regs(0), plan->handlers, W->memBudget);
        Tree t(r.tree);
        if (r.st != 1 || !modelCheck(t.get(), regs(0), plan->handlers, true, 0)) { bad = true; break; }
        if (cat->kids.empty()) cat->gtype = t->gtype;
        else if (cat->gtype != t->gtype) cat->gtype = JJJJ;
        cat->kids.push_back(t.release());
    }
    fixSizes(cat.get());
    std::string want;
    if (!bad) encode(cat.get(), plan->handlers, want);
    std::map<std::string, FileSnap> snap;
    for (auto& e : W->disk) snap[e.first] = FileSnap{e.second.bytes, e.second.exists, e.second.opensW};
    SFile out;
    static SFile none;
    setStd(1, &out, (x.id & 1) != 0, x.d);
    setStd(0, &none, true, Delivery());
    setOwner(tmpOwner());
    bool exited;
    int rc = runTool(iffjoin_main, args, exited);
    uint32_t fired = tc->opFired, firedAtOpen = tc->openedForWrite ? tc->firedAtOpenW : fired;
    bool huge = tc->opHuge > 0;
    int rf = (int)(tc->readFaultN + tc->openFaultR), af = (int)tc->allocFault;
    bool opened = tc->openedForWrite;
    setStd(1, &W->out, true, Delivery());     // the process ends: buffered output is flushed, whatever comes of it
    std::string so = out.bytes;
    if (!exited) noTmpLeft(0, "run of iffjoin");
    else reown(tmpOwner(), 99);
    noStreamsLeft();
    cx().ok = rc == 0;
    needDiag(false, "");
    FileSnap none2{"", false, 0};
    FileSnap before = snap.count(outName) ? snap[outName] : none2;
    SFile& o = W->disk[outName];
    for (auto& e : W->disk)
        if (!(toFile && e.first == outName) && snap.count(e.first)) {
            if (e.second.bytes != snap[e.first].bytes || e.second.exists != snap[e.first].exists) flag(P(12), "input-modified", "iffjoin modified %s", e.first.c_str());
        }
    bool untouched = toFile ? (o.exists == before.exists && o.bytes == before.bytes) : so.empty();
    if (rc == 0) {
        if (bad) flag(P(12), "bad-input-joined", "iffjoin succeeded although an input is missing, incomplete or not conforming");
        else if ((toFile ? (!o.exists || o.bytes != want) : so != want))
            flag(P(12), "join-incomplete", "iffjoin succeeded but the output holds %zu instead of %zu bytes%s", toFile ? o.bytes.size() : so.size(), want.size(), (toFile ? o.bytes.size() : so.size()) == want.size() ? " (different contents)" : "");
        if (toFile && !so.empty()) flag(P(12), "join-stdout", "iffjoin -o printed to the standard output");
        (*lastReg)[outName] = 0;
    } else {
        if (!bad && !fired && !huge) flag(P(12), "join-failed", "iffjoin failed on conforming inputs although nothing went wrong");
        if (bad && !untouched) flag(P(12), "output-touched", "an input is missing, incomplete or not conforming, but iffjoin touched the output");
        if (!bad && !untouched && fired && fired == firedAtOpen && (!opened ? (rf || af) : true) && !huge)
            flag(P(12), "output-touched", "iffjoin failed because of its inputs or for lack of memory, but touched the output");
    }
    if (plan->cb == 0) {}
    ob("iffjoin %d %zu %llx %zu", rc, so.size(), (unsigned long long)bighash(o.bytes.data(), o.bytes.size()), o.bytes.size());
}
void opPp(const Op& x) {
    if (x.names.empty()) return;
    if (x.a[2] > 0) { toolUsage(iffpp_main, "iffpp", x, 13); return; }
    int src = (int)x.a[1];
    auto it = W->disk.find(x.names[0]);
    bool exists = it != W->disk.end() && it->second.exists;
    if (!exists && src != 0) return;
    std::string content = exists ? it->second.bytes : "";
    uint32_t ow = exists ? it->second.opensW : 0;
    std::vector<std::string> args{"iffpp"};
    bool nocheck = x.a[0] == 1;
    bool last = nocheck && src == 0 && x.id % 3 == 0;      // an option after the operand
    if (nocheck && !last) args.push_back(x.id & 1 ? "-c" : "--disable-check");
    if (src == 0) args.push_back(spell(x, x.names[0]));
    if (last) args.push_back(x.id & 1 ? "-c" : "--disable-check");
    ParseResult r{0, nullptr, 0, false};
    if (exists) r = parseChunk(content, 0, 0, regs(0), plan->handlers, W->memBudget);
    Tree t(r.tree);
    bool bad = r.st == 0 || (!nocheck && (r.st == 2 || !modelCheck(t.get(), regs(0), plan->handlers, true, 0)));
    std::string want;
    if (r.st == 1) modelPrint(t.get(), 0, plan->handlers, want);
    SFile out;
    static SFile none;
    setStd(1, &out, (x.id & 2) != 0, x.d);
    if (src == 0) setStd(0, &none, true, Delivery());
    else setStd(0, &it->second, src == 1, x.d);
    Handle* hin = W->hin;
    setOwner(tmpOwner());
    bool exited;
    int rc = runTool(iffpp_main, args, exited);
    bool huge = tc->opHuge > 0;
    uint32_t fired = tc->opFired;
    bool inFault = tc->readFaultN + tc->openFaultR > 0, outFault = tc->wroteFault > 0;
    (void)hin;
    setStd(1, &W->out, true, Delivery());
    setStd(0, &none, true, Delivery());
    std::string so = out.bytes;
    if (!exited) noTmpLeft(0, "run of iffpp");
    else reown(tmpOwner(), 99);
    noStreamsLeft();
    cx().ok = rc == 0;
    if (exists && (it->second.bytes != content || it->second.opensW != ow)) flag(P(13), "input-modified", "iffpp modified its input");
    if (rc == 0) {
        if (bad) flag(P(13, 5), "bad-input-printed", "iffpp succeeded although its input is missing, incomplete or not conforming");
        else if (r.st == 2 && !fired && !huge) {      // whatever the library makes of these bytes is what must have been printed
            int op = tc->op;
            tc->op = -2;
            Handle* h = openHandle(&it->second, "r", true, Delivery(), false);
            IFF_Chunk* c = LIB(IFF_readFd(h->fp, NULL));
            closeHandle(h);
            if (c) {
                Tree q(fromReal(c, 0, 0, nullptr));
                std::string text;
                modelPrint(q.get(), 0, plan->handlers, text);
                LIB((IFF_free(c, NULL), 0));
                tc->op = op;
                if (so != text) flag(P(13), "print-incomplete", "iffpp succeeded but what it printed (%zu characters) is not what the library reads from the same input (%zu characters)", so.size(), text.size());
            }
            tc->op = op;
        }
        else if (r.st == 1 && so != want)
            flag(P(13), "print-incomplete", "iffpp succeeded but %zu instead of %zu characters reached the standard output%s", so.size(), want.size(), so.size() == want.size() ? " (different text)" : "");
    } else {
        if (!bad && r.st == 1 && !fired && !huge) flag(P(13), "print-failed", "iffpp failed on a good input although nothing went wrong");
        if ((bad || (inFault && !outFault)) && !so.empty()) flag(P(13), "rejected-input-printed", "iffpp rejected its input but printed %zu characters", so.size());
    }
    ob("iffpp %d %zu %llx", rc, so.size(), (unsigned long long)bighash(so.data(), so.size()));
}

// ---------------------------------------------------------------- several chunks on one stream
struct Stream { Handle* h = nullptr; std::string name, expect; uint32_t opensW = 0; size_t pos = 0; bool w = false, slack = false, known = true; };
Stream streams[4];
void opStream(const Op& x) {
    Stream& S = streams[(size_t)x.a[0] & 3];
    setOwner(tmpOwner());
    if (x.kind == O_SNEW) {
        if (x.names.empty()) return;
        if (S.h) { closeHandle(S.h); S.h = nullptr; }
        S.name = x.names[0];
        S.w = x.a[1] == 0;
        SFile& f = W->disk[S.name];
        if (!S.w && !f.exists) return;
        S.h = openHandle(&f, S.w ? "w" : "r", x.a[2] == 0, x.d, false);
        S.expect = S.w ? "" : f.bytes;
        S.pos = 0;
        S.slack = false;
        S.known = true;
        S.opensW = f.opensW;
        cx().ok = 1;
        return;
    }
    if (!S.h) return;
    if (W->disk[S.name].opensW != S.opensW) S.known = false;      // somebody else stored something under that name
    if (!S.w && W->disk[S.name].bytes != S.expect) S.known = false;   // … or had it buffered on a stream of their own
    if (!S.h->open) violate(P(17, 7), "closed-callers-stream", "the library closed the stream of the caller");
    if (x.kind == O_SWRITE) {
        int s = (int)x.a[1];
        Slot& z = slots[s];
        if (!S.w || !z.c || !settled(z.m.get())) return;
        Node* n = x.a[3] > 0 ? someNode(s, x.a[3]) : nullptr;     // a part of the hierarchy
        if (!n && z.scope) return;
        bool r = n ? LIB(IFF_writeChunk(S.h->fp, (IFF_Chunk*)n->real, scopeOf(s, n), regq(z.reg))) : x.a[2] == 1 ? LIB(IFF_writeFd(S.h->fp, z.c, regp(z.reg))) : LIB(IFF_writeChunk(S.h->fp, z.c, 0, regq(z.reg)));
        encode(n ? n : z.m.get(), plan->handlers, S.expect);
        cx().ok = r;
        needDiag(!r, "writing to a stream");
        if (r && (writeGivesUp(n ? n : z.m.get()) || tc->handlerFault)) flag(P(14, 1), "handler-failure-ignored", "a write succeeded although an application handler failed");
        if (!r) { if (!faulted() && S.known && !writeGivesUp(n ? n : z.m.get())) flag(P(17, 1), "write-failed", "writing a chunk to a stream failed although nothing went wrong"); S.known = false; }
        noTmpLeft(0, "write");
        verify(s, P(1, 17), "modified-by-write");
    } else if (x.kind == O_SFOREIGN) {
        std::string d = x.data.expand();
        cx().ok = 1;
        if (x.a[1] == 0) {
            if (!S.w) return;
            fwrite(d.data(), 1, d.size(), S.h->fp);
            if (faulted()) S.known = false;
            S.expect += d;
        } else {
            if (S.w || !S.known) return;
            std::string got(d.size(), 0);
            size_t n = d.size() - (S.slack && !d.empty() ? 1 : 0);
            size_t want = n;
            // bytes still on the stream: from the current position, or one later if a whole-input read was allowed to look ahead
            size_t k = fread(&got[0], 1, d.size(), S.h->fp);
            got.resize(k);
            bool same = got == S.expect.substr(S.pos, d.size());
            if (!same && S.slack && S.pos < S.expect.size()) same = got == S.expect.substr(S.pos + 1, d.size());
            if (!same) flag(P(17), "stream-misaligned", "the bytes following a chunk on the stream are not the next ones (%zu of %zu read)", k, want);
            S.pos += d.size();
        }
    } else if (x.kind == O_SREAD) {
        if (S.w || !S.known || (S.slack && S.pos < S.expect.size())) return;   // (a whole-input read may have looked one byte ahead)
        int s = (int)x.a[1];
        int reg = slots[x.a[2]].c ? slots[x.a[2]].reg : 0;
        freeSlot(s);
        setOwner(tmpOwner());
        bool whole = x.a[3] == 1;
        ID scope = whole ? 0 : (ID)x.a[4];
        IFF_Chunk* c = whole ? LIB(IFF_readFd(S.h->fp, regp(reg))) : LIB(IFF_readChunk(S.h->fp, scope, regq(reg)));
        ParseResult r = parseChunk(S.expect, S.pos, scope, regs(reg), plan->handlers, W->memBudget);
        delete r.tree;
        judgeRead(s, reg, c, S.expect, S.pos, true, S.h, whole, "", P(17), scope);
        if (r.st == 1 && c) S.pos += r.used; else S.known = false;
        if (whole) S.slack = true;
    } else if (x.kind == O_SCLOSE) {
        closeHandle(S.h);
        S.h = nullptr;
        cx().ok = 1;
        if (S.w && S.known && !firedEver && !faulted()) {
            const std::string& b = W->disk[S.name].bytes;
            if (b != S.expect) {
                size_t i = 0;
                while (i < b.size() && i < S.expect.size() && b[i] == S.expect[i]) i++;
                flag(P(17, 1), "stream-contents", "the stream got %zu bytes, expected %zu; first difference at %zu", b.size(), S.expect.size(), i);
            }
        }
        ob("closed");
    }
    if (S.h && !S.h->open) violate(P(17, 7), "closed-callers-stream", "the library closed the stream of the caller");
}

// ---------------------------------------------------------------- the same call many times over
struct Res { int ok = -1; uint64_t h = 0, e = 0, steps = 0; bool hit = false; };
bool sameRes(const Res& a, const Res& b) { return a.ok == b.ok && a.h == b.h && a.e == b.e; }
template <class T> Res measure(T call) {
    Res r;
    uint32_t fired = tc->opFired, huge = tc->opHuge, silentErr = tc->nerr - tc->nerrEmpty;
    size_t at = tc->err.size();
    uint64_t e0 = tc->edges;
    call(r);
    r.steps = tc->edges - e0;
    r.e = bighash(tc->err.data() + at, tc->err.size() - at);
    r.hit = tc->opFired != fired || tc->opHuge != huge;
    if (r.ok == 0 && plan->cb == 0 && tc->nerr - tc->nerrEmpty == silentErr) flag(P(16), "failure-not-diagnosed", "a call among many equal ones failed but the error callback got no message");
    return r;
}
Res readOnce(const std::string& name, int reg) {
    return measure([&](Res& r) {
        IFF_Chunk* c = LIB(IFF_readFile(name.c_str(), regp(reg)));
        r.ok = c != nullptr;
        if (!c) return;
        Tree t(fromReal(c, 0, reg, nullptr));
        r.h = treeHash(t.get());
        LIB((IFF_free(c, regp(reg)), 0));
    });
}
void opStorm(const Op& x) {
    if (x.names.size() < 2) return;
    int mode = (int)x.a[0], reg = (int)x.a[1], s = (int)x.a[2];
    Slot& z = slots[s];
    if (reg >= (int)plan->regs.size() || (mode > 0 && (!z.c || z.scope))) return;
    if (mode == 1 && !settled(z.m.get())) return;
    auto other = [&](std::vector<Res>& v) {      // calls on other data
        v.push_back(readOnce(x.names[1], 0));
        if (z.c && !z.scope) {
            v.push_back(measure([&](Res& r) { r.ok = LIB(IFF_check(z.c, regp(z.reg))); }));
            v.push_back(measure([&](Res& r) {
                SFile f;
                Handle* h = openHandle(&f, "w", true, x.d, false);
                r.ok = LIB(IFF_writeFd(h->fp, z.c, regp(z.reg)));
                if (closeHandle(h)) r.ok = 2;
                r.h = bighash(f.bytes.data(), f.bytes.size());
            }));
        }
    };
    std::vector<Res> before, after;
    setOwner(tmpOwner());
    other(before);
    Res first;
    bool have = false;
    cx().ok = 1;
    int64_t made = W->memMade;
    for (long i = 0; i < x.a[3] && W->memMade - made < (2LL << 30); i++) {    // some need megabytes each time
        Res r = mode == 0 ? readOnce(x.names[0], reg)
              : mode == 1 ? measure([&](Res& q) {
                    q.ok = LIB(IFF_writeFile(x.names[0].c_str(), z.c, regp(z.reg)));
                    const SFile& f = W->disk[x.names[0]];
                    q.h = q.ok ? bighash(f.bytes.data(), f.bytes.size()) : 0;
                })
              : measure([&](Res& q) { q.ok = LIB(IFF_check(z.c, regp(z.reg))); });
        if (r.hit || tc->handlerFault) { if (r.ok == 0) cx().ok = 0; continue; }
        if (!have) { first = r; have = true; continue; }
        if (!sameRes(r, first)) { flag(P(10, 15) | (mode == 0 ? P(3) : mode == 1 ? P(1) : P(9)), "repetition-differs", "repetition %ld of the same call ended with %d instead of %d (or with another result or other diagnostics)", i, r.ok, first.ok); break; }
        if (r.steps > 3 * first.steps + 1000) { flag(P(10, 15), "repetition-slow", "repetition %ld of the same call took %llu steps instead of %llu", i, (unsigned long long)r.steps, (unsigned long long)first.steps); break; }
    }
    if (mode == 1) (*lastReg)[x.names[0]] = z.reg;
    other(after);
    for (size_t i = 0; i < before.size() && i < after.size(); i++)
        if (!before[i].hit && !after[i].hit && !tc->handlerFault && !sameRes(before[i], after[i]))
            flag(P(10, 15), "later-call-differs", "after %ld calls on other data a %s ended with %d instead of %d (or with another result or other diagnostics)", x.a[3], i == 0 ? "read" : i == 1 ? "check" : "write", after[i].ok, before[i].ok);
    noTmpLeft(0, "series of calls");
    noStreamsLeft();
    for (auto& e : *live)
        if (e.second.op == tc->op && e.second.thr == tc->idx) { flag(P(14, 7), "handler-chunk-not-freed", "a chunk of handler %d created in a series of reads was not freed", e.second.slot); break; }
    if (z.c) verify(s, P(1, 9), "modified-by-query");
    ob("storm %d %llx %llx", first.ok, (unsigned long long)first.h, (unsigned long long)first.e);
    for (auto& r : before) ob(" %d %llx", r.ok, (unsigned long long)r.h);
}

// ---------------------------------------------------------------- one operation
uint64_t contentBytes() {
    uint64_t n = 0;
    for (auto& e : W->disk) n += e.second.bytes.size();
    return n + (uint64_t)W->memUsed;
}
// the zero bytes that the library adds to data that is shorter than its declared size
uint64_t fillOf(const Node* n) {
    int32_t size = n->anySize && n->real ? ((IFF_Chunk*)n->real)->chunkSize : n->size;
    uint32_t put = 0;           // counted like the library does: modulo 2^32
    uint64_t fill = 0;
    if (n->k == RAW) put = (uint32_t)n->data.size();
    else if (n->k == GROUP) {
        if (size >= 4) {
            put = 4;
            for (auto* v : {&n->props, &n->kids})
                for (Node* k : *v) {
                    int32_t ks = k->anySize && k->real ? ((IFF_Chunk*)k->real)->chunkSize : k->size;
                    fill += fillOf(k);
                    put += 8 + (uint32_t)ks + (ks % 2 != 0);
                }
        }
    } else {
        const std::string& f = plan->handlers[(size_t)n->slot].fields;
        for (size_t i = 0; i < f.size() && (int64_t)put + fieldSize(f[i]) <= size; i++) put += (uint32_t)fieldSize(f[i]);
    }
    if ((int32_t)put < size) fill += (uint32_t)size - put;
    return fill;
}
bool diverged;   // some operation ended differently from the fault-free execution
void runOp(const Op& x) {
    Ctx& c = cx();
    c = Ctx();
    c.x = &x;
    if (x.id >= MAXOPS - 1) return;
    if (x.a[5] >= 1000) {
        int o = (int)x.a[5] - 1000;
        if (o >= MAXOPS || !sh->op[o].done || sh->op[o].ok != 0 || !sh->op[o].fired) { sh->op[x.id].ok = -1; sh->op[x.id].done = 1; return; }
        c.retry = true;
    }
    uint64_t work = contentBytes();
    if (x.kind == O_JOIN) for (auto& n : x.names) { auto it = W->disk.find(n); work += 1000 + (it == W->disk.end() ? 0 : 3 * it->second.bytes.size()); }    // every mention of a file is read again
    beginOp(x.id, (3000000 + 300 * work) * (x.kind == O_STORM ? (uint64_t)x.a[3] + 6 : 1));
    int writes = x.kind == O_WRITE ? (int)x.a[0] : x.kind == O_SWRITE ? (int)x.a[1] : x.kind == O_STORM ? (int)x.a[2] : -1;
    if (writes >= 0 && writes < NSLOTS && slots[writes].m) {
        uint64_t fill = fillOf(slots[writes].m.get());
        if (fill > (uint64_t)W->memBudget) tc->room = (int64_t)(fill = 65536 + 2 * work);
        tc->budget += 60 * fill * (x.kind == O_STORM ? (uint64_t)x.a[3] + 6 : 1);
    }
    ev("op %d %s", x.id, OP_NAME[x.kind]);
    if (c.retry || firedEver) c.base = P(15);
    sh->op[x.id].started = 1;
    W->delivery[tc->idx] = x.d;
    if (!W->mt) fflush(stdout);
    c.outBefore = W->out.bytes.size();
    c.errBefore = W->err.bytes.size();
    tc->inLib = false;
    junkStack();
    volatile char* shift = (volatile char*)alloca(16 + (W->junk * 0x9e3779b97f4a7c15ull >> 55) * 16);   // a replica has its stack elsewhere
    *shift = 0;
    uint64_t e0 = tc->edges;
    std::map<std::string, std::pair<bool, uint64_t>> others;   // files this operation has no business with
    bool watch = !W->mt && plan->threads == 1 && (x.kind == O_READ || x.kind == O_WRITE || x.kind == O_PP);
    if (watch)
        for (auto& e : W->disk)
            if (!(x.kind == O_WRITE && !x.names.empty() && e.first == x.names[0])) others[e.first] = {e.second.exists, bighash(e.second.bytes.data(), e.second.bytes.size())};
    tc->sizesDeclared = x.kind != O_ADD && x.kind != O_ATTACH && x.kind != O_SEARCH && x.kind != O_LOOKUP && x.kind != O_GETCHUNKS && x.kind != O_SETTEXT;
    switch (x.kind) {
    case O_BUILD: opBuild(x); break;
    case O_ADD: case O_ATTACH: opAdd(x); break;
    case O_SETDATA: case O_SETTEXT: case O_COPYDATA: opData(x); break;
    case O_UPDATE: opUpdate(x); break;
    case O_WRITE: opWrite(x); break;
    case O_READ: opRead(x); break;
    case O_CHECK: opCheck(x); break;
    case O_COMPARE: opCompare(x); break;
    case O_SEARCH: opSearch(x); break;
    case O_LOOKUP: case O_GETCHUNKS: opLookup(x); break;
    case O_PRINT: opPrint(x); break;
    case O_FREE: if (slots[x.a[0]].c) { freeSlot((int)x.a[0]); c.ok = 1; } break;
    case O_PUT: opPut(x); break;
    case O_MUTATE: opMutate(x); break;
    case O_JOIN: opJoin(x); break;
    case O_PP: opPp(x); break;
    case O_SNEW: case O_SWRITE: case O_SFOREIGN: case O_SREAD: case O_SCLOSE: opStream(x); break;
    case O_STORM: opStorm(x); break;
    case O_SIZE: opSize(x); break;
    case O_SETCB: if (plan->cb == 0) { W->cb = 2; IFF_errorCallback = captureErrors2; c.ok = 1; } break;
    }
    for (auto& o : others) {
        const SFile& f = W->disk[o.first];
        if (f.exists != o.second.first || bighash(f.bytes.data(), f.bytes.size()) != o.second.second)
            flag(x.kind == O_WRITE ? P(4) : x.kind == O_PP ? P(13) : P(3, 4), "other-file-changed", "an operation on one file changed the file %s", o.first.c_str());
    }
    if (!W->mt) {
        fflush(stdout);
        if (x.kind != O_JOIN && x.kind != O_PP) {
            if (W->out.bytes.size() != c.outBefore) flag(P(16), "wrote-to-stdout", "the library wrote to the standard output");
            if (plan->cb == 0 && W->err.bytes.size() != c.errBefore) flag(P(16), "wrote-to-stderr", "the library wrote to the standard error instead of calling the error callback");
        }
    }
    if (plan->threads == 1)      // whatever the call was about, every other hierarchy is as it was
        for (int s = 0; s < NSLOTS; s++) verify(s, P(9, 10, 4) | (tc->allocFault ? P(6) : 0), "other-hierarchy-changed");
    OpRec& r = sh->op[x.id];
    r.ok = c.ok;
    r.result = bighash(c.obs.data(), c.obs.size());
    r.digest = r.result * 31 + bighash(tc->err.data(), tc->err.size());
    r.edges = tc->edges - e0;
    if (tc->opFired) firedEver = true;
    r.fired = std::max(r.fired, tc->opFired);
    r.done = 1;
    // a failed join whose output is one of its inputs has already replaced that input
    bool selfJoin = x.kind == O_JOIN && x.a[1] == 1 && std::find(x.names.begin() + 1, x.names.end(), x.names[0]) != x.names.end();
    if (selfJoin && c.ok == 0 && r.fired) diverged = true;
    if (r.fired && x.kind >= O_SNEW && x.kind <= O_SCLOSE) diverged = true;      // what the stream still buffers differs
    if (c.retry && !selfJoin) {
        probe(3);
        if (c.ok == 0 && !tc->opHuge && refRun) {
            // still failing: only right if it also fails without any fault
            const OpRec& o = refRun->op[x.a[5] - 1000];
            if (o.ok == 1 && !diverged) flag(P(15), "retry-failed", "the operation failed again although no fault hit it");
        }
        if (refRun && !diverged) {
            const OpRec& o = refRun->op[x.a[5] - 1000];
            if (o.done && o.ok >= 0) {
                if (o.result != r.result) flag(P(15), "retry-differs", "the retried operation gives another result than without the fault");
                if (r.edges > 2 * o.edges + 1000) flag(P(15), "retry-slow", "the retried operation took %llu steps instead of %llu", (unsigned long long)r.edges, (unsigned long long)o.edges);
            }
        }
    }
    if (refRun && x.a[5] < 1000 && refRun->op[x.id].result != r.result) {
        bool retried = false;
        for (auto& y : plan->ops) if (y.a[5] == 1000 + x.id) retried = true;
        if (!retried || !r.fired || c.ok != 0 || x.kind == O_ADD || x.kind == O_ATTACH || x.kind == O_WRITE) {
            // writes leave partial files behind, which the retry repairs completely; everything else changes what follows
            if (!(retried && r.fired && c.ok == 0 && (x.kind == O_WRITE || x.kind == O_ADD || x.kind == O_ATTACH))) diverged = true;
        }
    }
}
void threadBody(int t) {
    for (auto& x : plan->ops) if (x.t == t) runOp(x);
}
std::vector<std::pair<char*, size_t>> sharedSnap;
std::string sharedBytes;
}  // namespace

void execPlan(const Plan& p, int solo, bool dry, const Shared* ref) {
    plan = &p;
    refRun = ref;
    curProp = P(p.prop);
    restoreLibData();
    firedEver = diverged = false;
    for (auto& c : ctxs) c = Ctx();
    for (auto& x : streams) x = Stream();
    sharedSnap.clear();
    sharedBytes.clear();
    crashHook = nullptr;
    crashPipe = -1;
    simExit = nullptr;
    live = new std::map<void*, HInfo>;
    slots = new Slot[NSLOTS];
    lastReg = new std::map<std::string, int>;
    unspecified = new std::map<std::string, Outcome>;
    W = new World;
    W->junk = p.junk;
    W->memBudget = p.mem;
    for (uint64_t i = 0, k = W->junk * 0x9e3779b97f4a7c15ull >> 60; i < k; i++)      // and its heap
        for (size_t n = 16; n <= 256; n += 16) free(malloc(n));
    if (!dry) { W->faults = p.faults; W->switches = p.switches; W->rrPeriod = p.rr; }
    W->nthr = p.threads;
    for (int i = 0; i < MAXTHR; i++) { W->thr[i].idx = i; memset(W->thr[i].counts, 0, sizeof W->thr[i].counts); for (auto& n : W->thr[i].nextSwitch) n = ~0ull; }
    tc = &W->thr[p.threads > 1 ? MAXTHR - 1 : 0];
    tc->op = -1;
    setStd(0, &W->in, true, Delivery());
    setStd(1, &W->out, true, Delivery());
    setStd(2, &W->err, true, Delivery());
    makeRegistries();
    if (p.cb == 0) IFF_errorCallback = captureErrors;
    W->cb = 1;
    sh->hash = 0xcbf29ce484222325ull;
    for (auto& r : p.regs) for (auto& s : r.forms) (void)s;
    if (p.threads > 1) {
        for (auto& x : p.ops) if (x.t == T_SETUP) runOp(x);
        for (int s = 32; s < 34; s++) if (slots[s].c) collectOwner(owner(s), W->sharedRanges);
        sharedSnap = W->sharedRanges;
        for (auto& r : sharedSnap) sharedBytes.append(r.first, r.second);
        firedEver = false;
        if (solo >= 0) {
            tc = &W->thr[solo];
            threadBody(solo);
            tc = &W->thr[MAXTHR - 1];
        } else runThreads(p.threads, threadBody);
        std::string now;
        for (auto& r : sharedSnap) {
            if (!liveBlock(r.first)) violate(P(11), "shared-freed", "memory of the shared hierarchy was released by a reader");
            now.append(r.first, r.second);
        }
        cx() = Ctx();
        if (now != sharedBytes) violate(P(11), "shared-modified", "the shared hierarchy was modified by its readers");
        for (auto& x : p.ops) if (x.t == T_POST) runOp(x);
    } else
        for (auto& x : p.ops) runOp(x);
    // the end: every hierarchy is freed, and nothing is left
    cx() = Ctx();
    beginOp(MAXOPS - 1, 0);
    for (auto& s : streams) if (s.h && s.h->open) { closeHandle(s.h); s.h = nullptr; }
    for (int s = 0; s < NSLOTS; s++) {
        verify(s, P(9, 10, 4), "hierarchy-changed");
        freeSlot(s);
    }
    for (auto& r : registryBytes) if (memcmp(r.first, r.second.data(), r.second.size())) flag(P(10, 14), "registry-modified", "the library modified a chunk registry of the application");
    for (int o = 0; o < MAXTHR; o++) if (liveByOwner(100 + o)) flag(P(7), "leak", "%llu blocks are still allocated at the end", (unsigned long long)liveByOwner(100 + o));
    if (!live->empty()) flag(P(14, 7), "handler-chunk-not-freed", "%zu handler chunks were never freed", live->size());
    if (liveTotal() != liveByOwner(99)) flag(P(7), "leak", "%llu blocks are still allocated after everything was freed", (unsigned long long)liveTotal());
    ev("end");
    if (sh->verdict == 0) sh->verdict = 1;
    if (dry) {
        std::string names;
        for (auto& e : W->disk) {
            bool known = false;
            for (auto& x : p.ops) known |= std::find(x.names.begin(), x.names.end(), e.first) != x.names.end();
            if (!known && e.second.opensW && e.first.find('\n') == std::string::npos && names.size() + e.first.size() + 2 < sizeof sh->newFiles) names += e.first + "\n";
        }
        strcpy(sh->newFiles, names.c_str());
    }
    // the simulated machine is taken apart
    W->faults.clear();
    tc->op = -2;
    for (auto* r : registries) if (r) { delete[] r->formChunkTypes; delete r; }
    registries.clear();
    registryBytes.clear();
    for (auto& x : streams) x = Stream();
    delete live;
    delete[] slots;
    delete lastReg;
    delete unspecified;
    slots = nullptr;
    destroyWorld();
}

// ---------------------------------------------------------------- known finding: unbounded recursion
static void* deepRead(void* a) {
    SFile* f = (SFile*)a;
    tc = &W->thr[0];
    Handle* h = openHandle(f, "r", true, Delivery(), false);
    IFF_Chunk* c = IFF_readFd(h->fp, NULL);
    closeHandle(h);
    if (c) IFF_free(c, NULL);
    return nullptr;
}
// Reads a file of nested CAT chunks in a thread with the given stack; does not return if the stack overflows
void probeDeepNesting(int depth, size_t stack) {
    W = new World;
    for (int i = 0; i < MAXTHR; i++) { W->thr[i].idx = i; memset(W->thr[i].counts, 0, sizeof W->thr[i].counts); for (auto& n : W->thr[i].nextSwitch) n = ~0ull; }
    tc = &W->thr[0];
    IFF_errorCallback = captureErrors;
    W->cb = 1;
    SFile f;
    f.exists = true;
    for (int i = 0; i < depth; i++) {
        int32_t size = 12 * (depth - i) - 8;
        f.bytes += "CAT ";
        for (int k = 24; k >= 0; k -= 8) f.bytes += (char)(size >> k);
        f.bytes += "JJJJ";
    }
    pthread_t th;
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, stack);
    if (pthread_create(&th, &at, deepRead, &f)) internalError("pthread_create");
    pthread_join(th, nullptr);
}
