// Plan generator: from one PRNG to operations, inputs, deliveries; then faults and switches once the fault sites are known.
#include <algorithm>
#include "plan.h"

namespace {
typedef std::vector<ID> IDs;
const IDs FT0 = {mkid("ILBM"), mkid("8SVX"), mkid("SMUS"), mkid("TEST"), mkid("ABCD"), mkid("A 1 ")};
const IDs CK0 = {mkid("NAME"), mkid("BODY"), mkid("CMAP"), mkid("TEXT"), mkid("HELO"), mkid("BYE "), mkid("a~b "), mkid("(c) "), mkid("%n%s")};
IDs FT, CK;   // of this plan

struct G {
    Plan& p;
    Rng& r;
    int tier;
    int nextId = 0;
    int cur = 0;   // current thread
    bool bigOk = true, hugeOk = false, manyOk = true, wideOk = false;

    Op& op(int kind, std::initializer_list<long> a = {}) {
        p.ops.emplace_back();
        Op& x = p.ops.back();
        x.id = nextId++;
        x.t = cur;
        x.kind = kind;
        int i = 0;
        for (long v : a) x.a[i++] = v;
        x.d = delivery();
        return x;
    }
    Delivery delivery() {
        Delivery d;
        static const int bufs[] = {0, 0, 0, 1, 1, 2, 3, 4, 7, 8, 13, 16, 31, 64, 100, 128, 255, 256, 512, 1000, 4096, 65536};
        d.buf = bufs[r.u(sizeof bufs / sizeof *bufs)];
        switch (r.u(5)) {
        case 0: d.chunk = 0; break;
        case 1: d.chunk = 1; break;
        case 2: d.chunk = r.range(2, 9); break;
        case 3: d.chunk = r.range(2, 9); d.seed = r.next() % 100000 + 1; break;
        case 4: d.chunk = r.range(10, 3000); d.seed = r.next() % 100000 + 1; break;
        }
        return d;
    }
    int64_t len() {
        uint32_t k = r.u(1000);
        if (k < 620) return r.u(13);
        if (k < 820) return r.range(13, 80);
        if (k < 920) { static const int b[] = {126, 127, 128, 129, 254, 255, 256, 257, 510, 511, 512, 513, 1023, 1024, 1025}; return b[r.u(15)]; }
        if (!bigOk || k < 970) return r.range(80, 700);
        if (k < 990) { static const int b[] = {4094, 4095, 4096, 4097, 8191, 8192, 8193}; return b[r.u(7)]; }
        if (k < 997) { static const int b[] = {32767, 32768, 65534, 65535, 65536, 65537, 70001}; return b[r.u(7)]; }
        if (!hugeOk) return r.range(65000, 130000);
        hugeOk = false;      // one per plan
        if (k < 999) return r.range(100000, 300000);
        {
            static const int b[] = {1000000, 1048576, 1048577, 2097152, 1500001, 524289};
            return r.chance(1, 20) ? r.range(16777210, 16777225) : b[r.u(6)] + (r.chance(1, 2) ? (int)r.u(20000) : 0);
        }
    }
    Data data(int64_t n, bool text = false) {
        Data d;
        d.len = n;
        if (n <= 24 && r.chance(2, 3)) {
            d.gen = 0;
            for (int64_t i = 0; i < n; i++) {
                unsigned c = r.chance(1, 5) ? 0xff : r.chance(1, 5) ? 0 : r.u(256);
                if (text) c = 0x20 + c % 0x5f;
                d.hex += (char)c;
            }
            return d;
        }
        static const int g[] = {1, 1, 1, 2, 3, 4, 5};
        d.gen = text ? 4 : g[r.u(7)];
        if (d.gen == 2 && n > 100000) d.gen = 1;    // read as chunks after a torn delivery, zeros are a chunk every 8 bytes
        d.seed = r.next() % 1000000;
        if (n == 0) { d.gen = 0; }
        return d;
    }
    Node* rawNode(ID id) {
        Node* n = new Node;
        n->id = id;
        n->spec = data(len(), id == TEXT && r.chance(3, 4));
        n->data = n->spec.expand();
        n->size = (int32_t)n->data.size();
        return n;
    }
    Node* handNode(ID id, int slot) {
        Node* n = new Node;
        n->k = HAND; n->id = id; n->slot = slot;
        int tot = 0;
        for (char f : p.handlers[(size_t)slot].fields) {
            tot += fieldSize(f);
            uint32_t v = r.chance(1, 4) ? 0xffffffffu : (uint32_t)r.next();
            if (f == 'B') v &= 0xff;
            if (f == 'U') v &= 0xffff;
            if (f == 'W') v = (uint32_t)(int32_t)(int16_t)v;
            n->vals.push_back(v);
        }
        switch (r.u(6)) {
        case 0: n->size = (int32_t)r.u((uint32_t)tot + 1); break;            // fewer bytes than fields
        case 1: n->size = tot + r.range(1, 9); break;                        // more bytes than fields
        case 2: n->size = tot > 0 ? tot - 1 : 0; break;
        case 3: n->size = r.chance(1, 5) ? tot + r.range(100, 200 << r.u(9)) : tot + 1; break;
        default: n->size = tot;
        }
        return n;
    }
    Node* leaf(ID scope, int reg) {
        const RegSpec& R = p.regs[(size_t)reg];
        ID id = r.chance(1, 14) ? randId() : r.pick(CK);
        if (!R.isDefault && r.chance(1, 3)) {   // what the registry has a handler for
            IDs l;
            for (auto& q : R.forms) if (q.ftype == scope) for (auto& v : q.levels) for (auto& e : v) if (e.first < 0x80000000u) l.push_back(e.first);
            for (auto& v : R.global.levels) for (auto& e : v) if (e.first < 0x80000000u) l.push_back(e.first);
            if (!l.empty()) id = r.pick(l);
        }
        int s = lookupSlot(R, scope, id);
        if (s >= 0) return handNode(id, s);
        return rawNode(id);
    }
    ID randId() {   // a valid ID
        ID v = 0;
        for (int i = 0; i < 4; i++) {
            unsigned c = r.range(0x20, 0x7e);
            if (r.chance(1, 12)) c = '%';
            if (i == 0 && c == ' ') c = '!';
            v = v << 8 | c;
        }
        if (isGroup(v)) v = mkid("ZZZZ");
        return v;
    }
    ID smallType() { char t[5] = "AAAA"; for (int i = 0; i < 4; i++) t[i] = (char)('B' + r.u(i == 0 ? 20 : 3)); return isGroup(mkid(t)) ? FT[0] : mkid(t); }
    Node* group(ID id, ID gt) { Node* n = new Node; n->k = GROUP; n->id = id; n->gtype = gt; return n; }
    int fan(int depth) {
        if (manyOk && r.chance(1, 150)) return r.range(100, 300);
        if (r.chance(1, 12)) return 0;
        return r.range(1, depth > 2 ? 2 : 4);
    }
    static void adopt(Node* g, Node* c, bool prop = false) { c->parent = g; (prop ? g->props : g->kids).push_back(c); }
    Node* form(ID type, int depth, int reg) {
        Node* n = group(FORM, type);
        int f = fan(depth);
        for (int i = 0; i < f; i++) {
            if (f < 50 && depth < 5 && r.chance(1, 5)) adopt(n, member(0, depth + 1, reg));
            else adopt(n, leaf(type, reg));
        }
        return n;
    }
    Node* handForm(int reg) {   // a small form that ends with a chunk of an application handler
        const RegSpec& R = p.regs[(size_t)reg];
        std::vector<std::pair<ID, std::pair<ID, int>>> l;
        for (auto& q : R.forms) if (q.ftype != JJJJ) for (auto& v : q.levels) for (auto& e : v) l.push_back({q.ftype, e});
        for (auto& v : R.global.levels) for (auto& e : v) l.push_back({r.pick(FT), e});
        if (l.empty()) return nullptr;
        auto& e = l[r.u((uint32_t)l.size())];
        Node* n = group(FORM, e.first);
        if (r.chance(1, 3)) adopt(n, leaf(e.first, reg));
        int s = lookupSlot(R, e.first, e.second.first);
        adopt(n, s >= 0 ? handNode(e.second.first, s) : rawNode(e.second.first));
        fixSizes(n);
        return n;
    }
    Node* prop(ID type, int reg) {
        Node* n = group(PROP, type);
        int f = r.range(0, 3);
        for (int i = 0; i < f; i++) adopt(n, leaf(type, reg));
        return n;
    }
    ID formType(int reg) {
        const RegSpec& R = p.regs[(size_t)reg];
        if (!R.forms.empty() && r.chance(1, 3)) { ID t = R.forms[r.u((uint32_t)R.forms.size())].ftype; if (t != JJJJ && t < 0x80000000u) return t; }
        return r.pick(FT);
    }
    Node* member(ID type, int depth, int reg) {   // type 0: any
        int k = depth >= 5 ? 0 : (int)r.u(4);
        if (k <= 1) return form(type ? type : formType(reg), depth, reg);
        ID ct = type ? type : r.chance(1, 2) ? JJJJ : r.pick(FT);
        Node* n = group(k == 2 ? CAT : LIST, ct);
        if (n->id == LIST) {
            int np = r.chance(1, 40) ? r.range(4, 40) : (int)r.u(4);
            std::vector<ID> used;
            for (int i = 0; i < np; i++) {
                ID t = ct != JJJJ && r.chance(1, 2) ? ct : np > 5 ? smallType() : r.pick(FT);
                bool dup = false;
                for (ID u : used) dup |= u == t;
                if (dup) continue;
                used.push_back(t);
                adopt(n, prop(t, reg), true);
            }
        }
        int f = fan(depth);
        if (f > 40) f = 40;
        for (int i = 0; i < f; i++) {
            if (n->id == LIST && r.chance(1, 2) && !n->props.empty() && ct == JJJJ && !n->props[0]->parent->props.empty())
                adopt(n, form(n->props[r.u((uint32_t)n->props.size())]->gtype, depth + 1, reg));
            else adopt(n, member(ct == JJJJ ? 0 : ct, depth + 1, reg));
        }
        return n;
    }
    Node* chain(int depth, int reg) {   // deep nesting
        Node* root = nullptr;
        Node* at = nullptr;
        ID t = r.pick(FT);
        for (int i = 0; i < depth; i++) {
            int k = (int)r.u(3);
            Node* n = group(k == 0 ? FORM : k == 1 ? CAT : LIST, k == 0 ? t : r.chance(1, 2) ? JJJJ : t);
            if (at) adopt(at, n); else root = n;
            if (n->id == LIST && r.chance(1, 2)) adopt(n, prop(t, reg), true);
            at = n;
        }
        adopt(at, form(t, 4, reg));
        // contents types must match what is below
        std::vector<Node*> v;
        preorder(root, v);
        for (size_t i = v.size(); i-- > 0;)
            if ((v[i]->id == CAT || v[i]->id == LIST) && v[i]->k == GROUP)
                for (auto* c : v[i]->kids) if (c->gtype != v[i]->gtype) v[i]->gtype = JJJJ;
        return root;
    }
    Node* wide() {   // more members than fit in 16 bits, or about a power of two of them
        static const int c[] = {31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4096, 4097, 32768, 65535, 65536, 65537};
        int m = c[r.u(sizeof c / sizeof *c - (p.prop == 1 || p.prop == 3 || p.prop == 13 ? r.chance(3, 4) ? 4 : 0 : 4))];
        if (p.prop == 9 || p.prop == 7) m = std::min(m, 1025);
        ID t = r.pick(FT), id = r.pick(CK);
        bool of = r.chance(1, 2);
        Node* n = of ? group(FORM, t) : group(r.chance(1, 2) ? CAT : LIST, r.chance(1, 2) ? t : JJJJ);
        for (int i = 0; i < m; i++) {
            if (!of) { adopt(n, group(r.chance(1, 2) ? FORM : CAT, t)); continue; }
            Node* q = new Node;
            q->id = id;
            q->spec = Data::lit(std::string(r.u(3), (char)r.next()));
            q->data = q->spec.hex;
            q->size = (int32_t)q->data.size();
            adopt(n, q);
        }
        return n;
    }
    Node* tree(int reg) {   // a conforming hierarchy (sizes are fixed by the caller)
        Node* n;
        if (r.chance(1, 25)) n = chain(manyOk && r.chance(1, 8) ? r.range(41, 400) : r.range(5, 40), reg);
        else if (wideOk && r.chance(1, 400)) { wideOk = false; n = wide(); }
        else n = member(0, 0, reg);
        // CAT/LIST of fixed type: nested groups carry the same type, so this conforms
        fixSizes(n);
        return n;
    }
    ID oddType() {
        static const char* const odd[] = {"LIS1", "LIS5", "LIS9", "FOR1", "FOR2", "FOR6", "FOR9", "CAT1", "CAT4", "CAT9", "LIST", "FORM", "PROP", "CAT ", "JJJJ", "il m", "ILBm", "aLBM", "I.BM",
                                          ".ABC", "ABC.", " ABC", "LIS0", "FOR0", "CAT0", "LISA", "FORX", "CATS", "A\x7f""BC", "AB\x1f""C", "ABzC", "AB{C", "AB`C", "ABCz", "\x01""ABC", "ABC\x80", "\xff\xff\xff\xff", "A~~~", "    "};
        switch (r.u(5)) {
        case 0: { static const char* const pre[] = {"LIS", "FOR", "CAT", "PRO", "JJJ"}; return (mkid((std::string(pre[r.u(10) < 9 ? r.u(3) : 3 + r.u(2)]) + " ").c_str()) & 0xffffff00u) | ('0' + r.u(10)); }
        case 1: {
            static const unsigned char edge[] = {0, 0x1f, 0x20, 0x21, '-', '.', '/', '0', '9', ':', '@', 'A', 'Z', '[', '`', 'a', 'z', '{', '~', 0x7f, 0x80, 0xff};
            int at = 8 * (int)r.u(4);
            return (r.pick(FT) & ~(0xffu << at)) | ((ID)edge[r.u(sizeof edge)] << at);
        }
        default: return mkid(odd[r.u(sizeof odd / sizeof *odd)]);
        }
    }
    void breakTree(Node* root, int reg) {   // (possibly) violates one conformance rule somewhere
        std::vector<Node*> v, gs;
        preorder(root, v);
        for (auto* n : v) if (n->k == GROUP) gs.push_back(n);
        Node* n = gs[r.u((uint32_t)gs.size())];
        switch (r.u(9)) {
        case 0: case 1: n->gtype = oddType(); break;
        case 2: { Node* c = v[r.u((uint32_t)v.size())]; if (c->k == RAW && !isGroup(c->id)) c->id = oddType(); if (c->k == RAW && isGroup(c->id)) c->id = mkid(" bad"); break; }
        case 3: adopt(n, prop(r.pick(FT), reg)); if (n->id == LIST) { Node* q = n->kids.back(); n->kids.pop_back(); n->props.push_back(q); } break;
        case 4: adopt(n, leaf(n->gtype, reg)); break;
        case 5: adopt(n, form(r.pick(FT), 4, reg)); break;
        case 6: if (n->id == CAT || n->id == LIST) n->gtype = r.pick(FT); else n->gtype = oddType(); break;
        case 7: if (!n->props.empty()) adopt(n->props[0], form(r.pick(FT), 4, reg)); else adopt(n, leaf(n->gtype, reg)); break;
        case 8: {   // double PROP type: allowed
            if (n->id == LIST) adopt(n, prop(r.pick(FT), reg), true);
            break;
        }
        }
        fixSizes(root);
    }
    void alter(Node* root, int reg) {   // another hierarchy of much the same shape
        std::vector<Node*> v;
        preorder(root, v);
        int k = r.range(1, 2);
        for (int i = 0; i < k; i++) {
            Node* n = v[r.u((uint32_t)v.size())];
            if (n->k == RAW && n->size > 0 && n->spec.gen && r.chance(2, 3)) {   // one byte of much differs
                n->spec.flip = r.chance(1, 2) ? n->size - 1 - (int64_t)r.u((uint32_t)std::min(n->size, 4)) : (int64_t)r.u((uint32_t)n->size);
                n->spec.flipx = 1 << r.u(8);
                n->data = n->spec.expand();
            } else if (n->k == RAW && n->size > 0 && r.chance(1, 2)) {   // one byte differs
                std::string& d = n->data;
                if (n->size > 64) { n->size = 64; d.resize(64); }
                size_t at = r.chance(1, 3) ? d.size() - 1 : r.u((uint32_t)d.size());
                d[at] = (char)(r.chance(1, 2) ? d[at] ^ (1 << r.u(8)) : r.chance(1, 2) ? 0 : r.u(256));
                n->spec = Data();
                n->spec.len = n->size;
                n->spec.gen = 0;
                n->spec.hex = d;
            } else if (n->k == RAW) { n->spec = data(r.chance(1, 2) ? n->size : len()); n->data = n->spec.expand(); n->size = (int32_t)n->data.size(); }
            else if (n->k == GROUP && n->kids.size() > 1) std::swap(n->kids[0], n->kids[1 + r.u((uint32_t)n->kids.size() - 1)]);
            if (n->id == LIST && n->k == GROUP && n->props.size() > 1) std::swap(n->props[0], n->props[1]);
            else if (n->k == GROUP && n->id == PROP && n->kids.empty() && r.chance(1, 2)) adopt(n, leaf(n->gtype, reg));
        }
        fixSizes(root);
    }
    Node* plain(ID id, int64_t n) {
        Node* c = new Node;
        c->id = id;
        c->spec = data(n);
        c->data = c->spec.expand();
        c->size = (int32_t)c->data.size();
        return c;
    }
    bool restructure(Node* root, int reg) {   // other contents of exactly the same sizes
        std::vector<Node*> v;
        preorder(root, v);
        int off = (int)r.u((uint32_t)v.size());
        for (size_t i = 0; i < v.size(); i++) {
            Node* n = v[(i + (size_t)off) % v.size()];
            if (n->k != GROUP) continue;
            std::vector<Node*>& c = n->kids;
            int from = (int)r.u(5);
            for (int k = 0; k < 5; k++) switch ((from + k) % 5) {
            case 0:     // a data chunk becomes two
                for (size_t j = 0; j < c.size(); j++)
                    if (c[j]->k == RAW && c[j]->size % 2 == 0 && c[j]->size >= 8 && c[j]->size < 4096 && !isGroup(c[j]->id)) {
                        int32_t rest = c[j]->size - 8, a = 2 * r.range(0, rest / 2);
                        ID id = c[j]->id;
                        delete c[j];
                        c[j] = plain(id, a);
                        c[j]->parent = n;
                        Node* q = plain(r.chance(1, 2) ? id : r.pick(CK), rest - a);
                        q->parent = n;
                        c.insert(c.begin() + (long)j + (r.chance(1, 3) ? 0 : 1), q);
                        return true;
                    }
                break;
            case 1:     // two data chunks become one
                for (size_t j = 0; j + 1 < c.size(); j++)
                    if (c[j]->k == RAW && c[j + 1]->k == RAW && c[j]->size < 4096 && c[j + 1]->size < 4096 && !isGroup(c[j]->id) && !isGroup(c[j + 1]->id)) {
                        int64_t t = 8 + c[j]->size + c[j]->size % 2 + c[j + 1]->size + c[j + 1]->size % 2;
                        ID id = c[j]->id;
                        delete c[j]; delete c[j + 1];
                        c.erase(c.begin() + (long)j + 1);
                        c[j] = plain(id, t);
                        c[j]->parent = n;
                        return true;
                    }
                break;
            case 2:     // a PROP disappears, another one or a FORM takes its room
                if (n->id == LIST && n->props.size() > 1) {
                    int32_t t = 8 + n->props.back()->size;
                    if (t % 2 || t < 16 || t > 4096) break;
                    Node* q = n->props[0];
                    delete n->props.back();
                    n->props.pop_back();
                    Node* d = plain(r.pick(CK), t - 8);
                    d->parent = q;
                    q->kids.push_back(d);
                    return true;
                }
                break;
            case 4:     // a PROP becomes an ordinary member of its size, or the other way round
                if (n->id != LIST) break;
                if (!n->props.empty() && r.chance(2, 3)) {
                    Node* q = n->props.back();
                    if (q->size % 2 || (q->size != 4 && q->size < 12) || q->size > 4096) break;
                    Node* f = form(r.chance(2, 3) ? q->gtype : r.pick(FT), 9, reg);
                    for (auto* x : f->kids) delete x;
                    f->kids.clear();
                    if (q->size > 4) { Node* d = plain(r.pick(CK), q->size - 12); d->parent = f; f->kids.push_back(d); }
                    f->parent = n;
                    delete q;
                    n->props.pop_back();
                    c.insert(c.begin() + (r.chance(1, 2) ? 0 : (long)c.size()), f);
                    return true;
                }
                for (size_t j = 0; j < c.size(); j++)
                    if (c[j]->k == GROUP && c[j]->id == FORM && c[j]->size % 2 == 0 && (c[j]->size == 4 || c[j]->size >= 12) && c[j]->size <= 4096) {
                        Node* q = prop(c[j]->gtype, reg);
                        for (auto* x : q->kids) delete x;
                        q->kids.clear();
                        if (c[j]->size > 4) { Node* d = plain(r.pick(CK), c[j]->size - 12); d->parent = q; q->kids.push_back(d); }
                        q->parent = n;
                        delete c[j];
                        c.erase(c.begin() + (long)j);
                        n->props.push_back(q);
                        return true;
                    }
                break;
            case 3:     // data becomes a form of its size, or the other way round
                for (size_t j = 0; n->id == FORM && j < c.size(); j++) {
                    if (c[j]->k == RAW && c[j]->size == 4 && !isGroup(c[j]->id)) { delete c[j]; c[j] = form(r.pick(FT), 9, reg); for (auto* x : c[j]->kids) delete x; c[j]->kids.clear(); c[j]->parent = n; return true; }
                    if (c[j]->k == GROUP && c[j]->size < 4096) { int64_t t = c[j]->size; delete c[j]; c[j] = plain(r.pick(CK), t); c[j]->parent = n; return true; }
                }
                break;
            }
        }
        return false;
    }
    // ---- registries
    void addDefaultReg() { RegSpec d; p.regs.push_back(d); }
    int addReg() {
        if (p.handlers.size() > 5) return (int)r.u((uint32_t)p.regs.size());
        int first = (int)p.handlers.size();
        int n = r.range(1, 3);
        for (int i = 0; i < n; i++) {
            HandlerSpec h;
            int nf = (int)r.u(6);
            for (int k = 0; k < nf; k++) h.fields += "BUWLlI"[r.u(6)];
            h.checkOk = !r.chance(1, 10);
            p.handlers.push_back(h);
        }
        RegSpec R;
        R.isDefault = false;
        bool high = r.chance(1, 12);     // knows IDs that do not consist of ASCII characters
        auto level = [&](bool gl) {
            std::vector<std::pair<ID, int>> l;
            int m = r.chance(1, 8) ? r.range(4, (int)CK.size()) : r.range(0, 3);
            if (gl) m = r.range(0, 2);
            for (int k = 0; k < m; k++) {
                ID id = r.pick(CK) ^ (high && r.chance(1, 3) ? 0x80000000u : 0);
                bool dup = false;
                for (auto& e : l) dup |= e.first == id;
                if (!dup) l.push_back({id, first + (int)r.u((uint32_t)n)});
            }
            return l;
        };
        int gl = r.chance(1, 2) ? 0 : r.range(1, 2);
        for (int i = 0; i < gl; i++) R.global.levels.push_back(level(true));
        R.global.chain = 1;
        int nf = r.chance(1, 8) ? r.range(4, 9) : r.range(0, 3);
        for (int i = 0; i < nf; i++) {
            Scope s;
            s.ftype = (r.chance(1, 8) ? JJJJ : r.pick(FT)) ^ (high && r.chance(1, 3) ? 0x80000000u : 0);
            bool dup = false;
            for (auto& q : R.forms) dup |= q.ftype == s.ftype;
            if (dup) continue;
            int nl = r.range(1, 3);
            for (int k = 0; k < nl; k++) s.levels.push_back(level(false));
            s.chain = (int)r.u(2);
            R.forms.push_back(s);
        }
        R.dflt = r.chance(1, 10) ? first : -1;
        p.regs.push_back(R);
        return (int)p.regs.size() - 1;
    }
    int anyReg() { return (int)r.u((uint32_t)p.regs.size()); }
    int regMostlyDefault() { return r.chance(1, 2) ? 0 : anyReg(); }

    // ---- ops
    Op& build(int slot, int reg) {
        Op& x = op(O_BUILD, {slot, reg, (long)r.u(8)});
        x.tree.reset(tree(reg));
        return x;
    }
    Op& write(int slot, const std::string& f) {
        long dest = r.chance(3, 5) ? 0 : r.range(1, 3);
        Op& x = op(O_WRITE, {slot, 0, dest, r.chance(1, 3) ? (long)r.u(40) : 0});
        x.names = {f};
        return x;
    }
    Op& read(int slot, int reg, const std::string& f) {
        long src = r.chance(2, 5) ? 0 : r.range(1, 4);
        Op& x = op(O_READ, {slot, reg, src});
        x.names = {f};
        return x;
    }
    Op& put(const std::string& f, int reg, bool conforming = true) {   // another program stored a file
        Op& x = op(O_PUT, {1, reg, -1});
        x.names = {f};
        x.tree.reset(tree(reg));
        if (!conforming && r.chance(1, 12)) {   // nothing but a header
            static const ID g4[] = {FORM, CAT, LIST, LIST};
            x.tree.reset(group(g4[r.u(4)], r.chance(1, 6) ? r.pick(FT) : oddType()));
            fixSizes(x.tree.get());
        } else if (!conforming) breakTree(x.tree.get(), reg);
        if (r.chance(1, 3)) x.a[3] = (long)(r.next() >> 8 | 1);
        return x;
    }
    void negate(Node* root) {   // an application chunk of negative size, with everything around it consistent
        std::vector<Node*> v, hs;
        preorder(root, v);
        for (auto* n : v) if (n->k == HAND) hs.push_back(n);
        if (hs.empty()) return;
        hs[r.u((uint32_t)hs.size())]->size = -(r.chance(4, 5) ? r.range(1, 12) : r.range(1, 70000));
        fixSizes(root);
    }
    void mutate(const std::string& f) {
        Op& x = op(O_MUTATE, {(long)r.u(12), (long)(r.next() % 1000003), (long)(r.next() % 1000003)});
        x.names = {f};
        if (r.chance(1, 3)) x.data = data(r.range(1, 12));
    }
    void query(int slot, int other = -1) {
        switch (r.u(7)) {
        case 0: case 1: op(O_CHECK, {slot, part()}); break;
        case 2: { long a = part(); op(O_COMPARE, {slot, other >= 0 ? other : slot, a, a && r.chance(1, 2) ? a : part()}); break; }
        case 3: search(slot); break;
        case 4: case 5: lookup(slot); break;
        case 6: op(O_GETCHUNKS, {slot, (long)r.u(1000), (long)r.pick(CK), r.chance(1, 2) ? 1 + (long)r.u(1000) : 0}); break;
        }
    }
    long part() { return r.chance(1, 3) ? 1 + (long)r.u(1000) : 0; }
    void manySame(int slot, int reg) {   // long answers
        Op& b = build(slot, reg);
        Node* f = group(r.chance(2, 3) ? FORM : CAT, r.pick(FT));
        ID id = r.pick(CK), ft = r.pick(FT);
        for (int k = r.range(5, 40); k > 0; k--) {
            if (f->id == CAT || r.chance(1, 4)) { Node* q = group(FORM, r.chance(4, 5) ? ft : r.pick(FT)); if (r.chance(1, 4)) adopt(q, rawNode(id)); adopt(f, q); }
            else { Node* q = rawNode(r.chance(5, 6) ? id : r.pick(CK)); if (q->size > 8) { q->spec = data(r.range(0, 8)); q->data = q->spec.expand(); q->size = (int32_t)q->data.size(); } adopt(f, q); }
        }
        fixSizes(f);
        b.tree.reset(f);
        for (int k = r.range(1, 3); k > 0; k--) {
            op(O_GETCHUNKS, {slot, 0, (long)id, 0});
            if (r.chance(1, 2)) op(O_SEARCH, {slot, (long)ft, (long)r.u(3), (long)r.pick(FT), 0});
        }
    }
    void search(int slot) {
        if (r.chance(1, 3)) op(O_SEARCH, {slot, (long)r.pick(FT), 4, (long)r.u(1000000), part()});     // types that are there
        else if (r.chance(1, 8)) op(O_SEARCH, {slot, (long)r.pick(FT), 3, (long)r.u(1000000), part()});     // many types
        else op(O_SEARCH, {slot, (long)r.pick(FT), (long)r.u(3), (long)r.pick(FT), part()});
    }
    void lookup(int slot) { op(O_LOOKUP, {slot, (long)r.u(1000), (long)r.pick(CK), r.chance(2, 3) ? 1 + (long)r.u(1000) : 0}); }
    void size(int slot, int other = -1) {   // a declared size that does not fit
        if (other >= 0) { op(O_SIZE, {slot, 0, 2, other}); return; }
        static const long abs[] = {4, 4, 4, 0, 2, 3, 5, -1, -4, -8, 70000, -0x7fffffffL - 1, 12}, rel[] = {1, -1, 2, -2, 8, -8, 65536, 256};
        if (r.chance(1, 3)) op(O_SIZE, {slot, 0, 3, (long)r.u(1000000)});
        else if (r.chance(1, 2)) op(O_SIZE, {slot, (long)r.u(1000), 0, abs[r.u(13)]});
        else op(O_SIZE, {slot, (long)r.u(1000), 1, rel[r.u(8)]});
    }
    void edit(int slot, int reg) {
        long at = (long)r.u(1000);
        if (r.chance(1, 30)) {
            size(slot);
            if (r.chance(1, 2)) op(O_CHECK, {slot, part()});
            if (r.chance(3, 5)) op(O_UPDATE, {slot, at});
            return;
        }
        if (r.chance(1, 10)) {
            op(O_ATTACH, {slot, at, r.chance(1, 2), (slot & ~7) + (long)r.u(3)});
            if (r.chance(3, 5)) op(O_UPDATE, {slot, at});
            return;
        }
        switch (r.u(7)) {
        case 0: case 1: case 2: {
            Op& x = op(O_ADD, {slot, at, r.chance(1, 2), reg});
            switch (r.u(4)) {
            case 0: x.tree.reset(leaf(r.pick(FT), 0)); break;
            case 1: x.tree.reset(prop(r.pick(FT), 0)); break;
            default: x.tree.reset(member(0, 3, 0));
            }
            fixSizes(x.tree.get());
            break;
        }
        case 3: { Op& x = op(O_SETDATA, {slot, at}); x.data = data(len()); break; }
        case 4: { Op& x = op(O_SETTEXT, {slot, at}); x.data = data(len(), true); break; }
        case 5: { Op& x = op(O_COPYDATA, {slot, at}); x.data = data(8); break; }
        case 6: break;
        }
        if (r.chance(3, 5)) op(O_UPDATE, {slot, at});
    }
    void usage(bool join) {   // a wrong or informative command line
        if (join) op(O_JOIN, {0, 1, r.range(1, 5)}).names = {"out.iff", "a.iff"};
        else op(O_PP, {0, 0, r.range(2, 5)}).names = {"a.iff"};
    }
    void storm(int slot) {   // one call many times, and some other calls before and after it
        bool b = bigOk, m = manyOk, w = wideOk;
        bigOk = manyOk = wideOk = false;
        int reg = anyReg();
        long mode = r.chance(2, 3) ? 0 : r.range(1, 2);
        put("good.iff", 0);
        int64_t size = 100;
        bool there = !r.chance(1, 15);
        if (there) {
            Op& x = put("again.iff", reg, r.chance(2, 3));
            if (r.chance(2, 5)) { x.tree.reset(chain(r.chance(1, 2) ? r.range(40, 400) : r.range(5, 40), reg)); fixSizes(x.tree.get()); }
            if (r.chance(2, 3)) x.a[2] = (long)(r.next() % 1000003);
            size = x.tree->size + 20;
        }
        if (mode == 0 && r.chance(1, 4)) { mutate("again.iff"); if (p.ops.back().a[0] == 4 && size > 100) size = 2500; }
        int64_t n = r.chance(1, 4) ? 300000 / (size + 20) : r.range(12, 70);
        if (mode > 0) n = std::min<int64_t>(n, 300);
        if (p.threads > 1) n = std::min<int64_t>(n, r.range(5, 30));
        n = std::max<int64_t>(3, std::min<int64_t>(n, std::min<int64_t>(3000, 300000 / (size + 20))));
        Op& x = op(O_STORM, {mode, reg, slot, (long)n});
        x.names = {there ? "again.iff" : mode == 1 ? "new.iff" : "missing.iff", "good.iff"};
        bigOk = b; manyOk = m; wideOk = w;
    }
    void stream(int nslots, const std::string& f) {   // one step with a stream that is open across operations
        long st = (long)r.u(2);
        long s = (long)r.u((uint32_t)nslots);
        switch (r.u(6)) {
        case 0: op(O_SNEW, {st, (long)r.u(2), (long)r.u(2)}).names = {f}; break;
        case 1: op(O_SNEW, {st, 0, (long)r.u(2)}).names = {f}; op(O_SWRITE, {st, s, 0, part()}); break;
        case 2: op(O_SNEW, {st, 1, (long)r.u(2)}).names = {f}; op(O_SREAD, {st, s, s}); break;
        case 3: op(O_SWRITE, {st, s, r.chance(1, 4), part()}); break;
        case 4: op(O_SREAD, {st, s, s}); break;
        case 5: op(O_SCLOSE, {st}); break;
        }
    }
};

const char* const FILES[] = {"a.iff", "b.iff", "c%n%s.iff"};
std::string F(G& g, int n = 2) { return FILES[g.r.u((uint32_t)n)]; }
void regs(G& g, int n) { g.addDefaultReg(); for (int i = 0; i < n; i++) g.addReg(); }

void gen1(G& g) {   // acknowledged writes
    regs(g, g.r.u(2));
    int n = g.r.range(1, 2);
    for (int i = 0; i < n; i++) { g.build(i, g.regMostlyDefault()); if (g.r.chance(1, 10)) g.edit(i, 0); }
    int m = g.r.range(1, 4);
    for (int i = 0; i < m; i++) g.write((int)g.r.u((uint32_t)n), F(g));
}
void gen2(G& g) {   // torn input
    regs(g, g.r.u(2));
    if (g.r.chance(1, 6)) {   // one small file, cut everywhere
        if (g.p.regs.size() == 1 && g.r.chance(1, 2)) g.addReg();
        int reg = (int)g.p.regs.size() - 1;
        Tree t;
        int64_t n = 0;
        for (int k = 0; k < 12; k++) {
            g.manyOk = g.bigOk = false;
            Node* h = reg && g.r.chance(1, 2) ? g.handForm(reg) : nullptr;
            t.reset(h ? h : g.tree(reg));
            n = 8 + (int64_t)t->size + t->size % 2;
            if (n <= 150 && n > 12) break;
        }
        if (n > 400) n = 400;
        for (int64_t c = std::max<int64_t>(0, n - (MAXOPS - 20) / 2); c < n; c++) {
            Op& x = g.op(O_PUT, {1, reg, (long)c});
            x.names = {FILES[0]};
            x.tree.reset(cloneTree(t.get()));
            g.read(3, reg, FILES[0]);
        }
        return;
    }
    int n = g.r.range(1, 3);
    for (int i = 0; i < n; i++) {
        int reg = g.regMostlyDefault();
        std::string f = FILES[i];
        switch (g.r.u(5)) {
        case 0: {   // a writer process dies
            g.build(i, reg);
            Op& w = g.op(O_WRITE, {i, 0, 0, 0, 1});
            w.names = {f};
            break;
        }
        case 1: case 2: {   // stored prefix
            Op& x = g.put(f, reg);
            x.a[2] = (long)(g.r.next() % 1000003);
            int64_t n = 8 + (int64_t)x.tree->size + x.tree->size % 2;
            if (reg && g.r.chance(1, 4)) {      // within the bytes at the end that a handler does not know
                Node* h = g.handForm(reg);
                if (h) {
                    Node* q = h->kids.back();
                    if (q->k == HAND && g.r.chance(2, 3)) { q->size += (int32_t)g.r.range(1, 50 << g.r.u(9)); fixSizes(h); }
                    x.tree.reset(h);
                    n = 8 + (int64_t)h->size + h->size % 2;
                    int64_t e = std::min<int64_t>(n - 1, q->size + 2);
                    x.a[2] = (long)(n - 1 - (int64_t)g.r.u((uint32_t)e + 1));
                }
            } else if (g.r.chance(1, 3)) x.a[2] = (long)std::max<int64_t>(0, n - g.r.range(1, 10));     // near the end
            break;
        }
        default: g.put(f, reg);   // read faults are added later
        }
        int k = g.r.range(1, 2);
        for (int j = 0; j < k; j++) g.read(3, reg, f);
    }
}
void gen3(G& g) {   // delivery
    regs(g, g.r.u(2));
    int reg = g.regMostlyDefault();
    Op& x = g.put("a.iff", reg, !g.r.chance(1, 4));
    (void)x;
    if (g.r.chance(1, 4)) { int k = g.r.range(1, 2); for (int i = 0; i < k; i++) g.mutate("a.iff"); }
    if (g.r.chance(1, 6)) g.op(O_MUTATE, {10, (long)(g.r.next() % 1000003), (long)(g.r.chance(1, 3) ? 254 : g.r.u(255)), 1}).names = {"a.iff"};   // odd pads
    if (g.r.chance(1, 6)) { Op& q = g.op(O_MUTATE, {8, 0, 0}); q.names = {"a.iff"}; q.data = g.data(g.r.range(1, 5)); }   // trailing bytes
    int n = g.r.range(2, 4);
    for (int i = 0; i < n; i++) g.read(i, reg, "a.iff");
    if (g.r.chance(1, 2)) g.op(O_COMPARE, {0, 1});
}
void gen4(G& g) {   // storage histories
    regs(g, g.r.u(2));
    int n = g.r.range(1, 3);
    std::vector<int> rg;
    for (int i = 0; i < n; i++) { rg.push_back(g.regMostlyDefault()); g.build(i, rg.back()); }
    int m = g.r.range(3, 12);
    for (int i = 0; i < m; i++) {
        int s = (int)g.r.u((uint32_t)n);
        std::string f = F(g, 3);
        if (g.r.chance(1, 2)) {
            Op& w = g.op(O_WRITE, {s, 0, 0, 0, g.r.chance(1, 5)});
            w.names = {f};
        } else if (g.r.chance(3, 4)) {
            Op& x = g.read(3, -1, f);   // with the registry of its last writer
            x.a[2] = g.r.chance(3, 4) ? 0 : g.r.range(1, 4);
            if (g.r.chance(1, 2)) { g.op(O_COMPARE, {3, s}); }
            if (g.r.chance(1, 3)) { Op& w = g.op(O_WRITE, {3, 0, 0, 0, 0}); w.names = {F(g, 3)}; }
        } else
            g.edit(s, rg[(size_t)s]);
    }
    if (g.r.chance(1, 25)) g.storm(0);
    for (int i = 0; i < 3; i++) if (g.r.chance(1, 2)) { Op& x = g.read(3, -1, FILES[i]); x.a[2] = 0; }
}
void gen5(G& g) {   // damaged bytes
    regs(g, g.r.u(3));
    int reg = g.regMostlyDefault();
    if (g.r.chance(1, 8)) { Op& x = g.op(O_PUT, {0, reg, -1}); x.names = {"a.iff"}; x.data = g.data(g.r.range(0, 60)); }
    else {
        Op& x = g.put("a.iff", reg, g.r.chance(1, 2));
        if (g.r.chance(1, 3)) g.negate(x.tree.get());
        if (g.r.chance(1, 100)) {   // thousands of small members
            Node* f = g.group(g.r.chance(1, 2) ? FORM : CAT, g.r.pick(FT));
            Tree m(f->id == FORM ? g.rawNode(g.r.pick(CK)) : g.form(f->gtype, 9, 0));
            if (m->k == RAW) { m->size = 0; m->spec = Data(); m->data.clear(); } else { for (auto* c : m->kids) delete c; m->kids.clear(); }
            for (int k = g.r.range(2000, 9000); k > 0; k--) g.adopt(f, cloneTree(m.get()));
            fixSizes(f);
            x.tree.reset(f);
        }
    }
    if (g.r.chance(1, 8)) {
        g.op(O_MUTATE, {11, (long)(g.r.next() % 1000003), (long)(g.r.next() % 1000003)}).names = {"a.iff"};
        if (g.r.chance(1, 2)) { g.read(0, reg, "a.iff"); g.op(O_CHECK, {0}); return; }
    }
    if (g.r.chance(1, 4)) g.put("b.iff", reg);
    if (g.r.chance(1, 8)) {   // twins: what is behind the same sizes is not the same
        Op& x = g.put("a.iff", reg, true);
        Tree like(cloneTree(x.tree.get()));
        if (like->id != LIST && g.r.chance(1, 2)) {
            Node* l = g.group(LIST, JJJJ);
            for (int i = g.r.range(1, 3); i > 0; i--) { Node* q = g.prop(g.r.pick(FT), 0); if (g.r.chance(1, 2) && q->kids.size() > 1) { Node* e = g.prop(g.r.pick(FT), 0); g.adopt(l, e, true); } g.adopt(l, q, true); }
            for (int i = (int)g.r.u(3); i > 0; i--) g.adopt(l, g.form(g.r.pick(FT), 9, 0));
            fixSizes(l);
            like.reset(l);
            x.tree.reset(cloneTree(l));
        }
        long style = x.a[3];
        Op& y = g.put("b.iff", reg, true);
        y.a[3] = style;
        y.tree.reset(like.release());
        if (!g.restructure(y.tree.get(), reg)) g.alter(y.tree.get(), reg);
        fixSizes(y.tree.get());
        if (g.r.chance(1, 6)) g.mutate(g.r.chance(1, 2) ? "a.iff" : "b.iff");
        g.read(0, reg, "a.iff");
        g.read(1, reg, "b.iff");
        g.op(O_COMPARE, {0, 1});
        g.op(O_COMPARE, {1, 0});
    }
    int k = g.r.chance(1, 6) ? 0 : g.r.range(1, 4);
    for (int i = 0; i < k; i++) g.mutate("a.iff");
    g.read(0, reg, "a.iff");
    if (g.r.chance(1, 3)) g.read(1, reg, g.r.chance(1, 2) ? "a.iff" : "b.iff");
    int m = g.r.range(1, 6);
    for (int i = 0; i < m; i++) {
        int s = (int)g.r.u(2);
        switch (g.r.u(6)) {
        case 0: g.op(O_PRINT, {s, (long)g.r.u(3)}); break;
        case 1: g.write(s, "c.iff"); break;
        case 2: g.op(O_CHECK, {s}); break;
        case 3: if (g.r.chance(1, 2)) g.edit(s, reg); else g.op(O_UPDATE, {s, (long)g.r.u(1000)}); break;
        default: g.query(s, (int)g.r.u(2));
        }
    }
    g.op(O_CHECK, {0});
    if (g.r.chance(1, 8)) { Op& x = g.op(O_PP, {(long)g.r.u(2), (long)g.r.u(3)}); x.names = {"a.iff"}; }
    if (g.r.chance(1, 12)) { Op& x = g.op(O_JOIN, {(long)g.r.u(3), 1}); x.names = {"c.iff", "a.iff"}; }
}
void anyOp(G& g, int nslots, bool tools) {
    int s = (int)g.r.u((uint32_t)nslots);
    if (g.r.chance(1, 16)) { g.mutate(F(g, 3)); return; }
    if (g.r.chance(1, 8)) { g.stream(nslots, F(g, 3)); return; }
    if (tools && g.r.chance(1, 50)) { g.usage(g.r.chance(1, 2)); return; }
    switch (g.r.u(tools ? 15 : 13)) {
    case 0: g.build(s, g.regMostlyDefault()); break;
    case 1: g.read(s, g.r.chance(1, 2) ? 0 : -1, F(g, 3)); break;
    case 2: g.read(s, -1, F(g, 3)); break;
    case 3: case 4: g.write(s, F(g, 3)); break;
    case 5: case 6: case 7: g.edit(s, 0); break;
    case 8: case 9: case 10: g.query(s, (int)g.r.u((uint32_t)nslots)); break;
    case 11: g.op(O_FREE, {s}); break;
    case 12: g.op(O_PRINT, {s, (long)g.r.u(3)}); break;
    case 13: { Op& x = g.op(O_PP, {(long)g.r.u(2), (long)g.r.u(3)}); x.names = {F(g, 3)}; break; }
    case 14: { Op& x = g.op(O_JOIN, {(long)g.r.u(3), (long)g.r.u(2)}); x.names = {F(g, 3)}; int k = g.r.range(1, 3); for (int i = 0; i < k; i++) x.names.push_back(F(g, 3)); break; }
    }
}
void genHist(G& g, bool tools, int lo, int hi) {
    regs(g, g.r.u(3));
    if (g.r.chance(1, 12)) { g.manySame(0, 0); return; }
    g.put("a.iff", g.anyReg());
    if (g.r.chance(1, 2)) g.put("b.iff", 0, g.r.chance(2, 3));
    if (g.r.chance(1, 3)) g.mutate("a.iff");
    if (g.r.chance(1, 6)) {   // foreign data follows
        Op& q = g.op(O_MUTATE, {8, 0, 0});
        q.names = {"a.iff"};
        q.data = g.data(g.r.chance(1, 2) ? g.r.range(1, 60) : g.r.range(8, 1500));
        g.read(1, -1, "a.iff");
    }
    g.build(0, g.regMostlyDefault());
    int m = g.r.range(lo, hi);
    for (int i = 0; i < m; i++) anyOp(g, 3, tools);
    if (g.r.chance(1, 15)) g.storm((int)g.r.u(2));
}
void gen8(G& g) {
    regs(g, g.r.u(2));
    g.build(0, g.regMostlyDefault());
    if (g.r.chance(1, 3)) g.build(1, 0);
    int m = g.r.range(2, 14);
    for (int i = 0; i < m; i++) {
        int s = g.r.chance(4, 5) ? 0 : 1;
        if (g.r.chance(1, 12)) g.query(s); else g.edit(s, 0);
    }
    // a batch of additions to one group, as an application assembling a file does
    if (g.r.chance(1, 2)) {
        long at = (long)g.r.u(1000);
        int k = g.r.chance(1, 10) ? g.r.range(20, 60) : g.r.range(1, 6);
        if (k > MAXOPS - 60) k = 40;
        ID t = g.r.pick(FT);
        for (int i = 0; i < k; i++) {
            Op& x = g.op(O_ADD, {0, at, 1, 0});
            x.tree.reset(g.r.chance(1, 2) ? g.form(g.r.chance(4, 5) ? t : g.r.pick(FT), 4, 0) : g.member(g.r.chance(1, 2) ? t : 0, 4, 0));
            fixSizes(x.tree.get());
        }
        g.op(O_UPDATE, {0, at});
    }
    if (g.r.chance(1, 2)) { Op& w = g.op(O_WRITE, {0, 0, 0, 0}); w.names = {"a.iff"}; }
}
void gen9(G& g) {
    regs(g, g.r.u(2));
    g.manyOk = false;
    int n = g.r.range(1, 3);
    for (int i = 0; i < n; i++) {
        if (g.r.chance(1, 4)) { g.put(FILES[i], 0, g.r.chance(1, 3)); g.read(i, 0, FILES[i]); }
        else {
            Op& b = g.build(i, g.regMostlyDefault());
            if (g.r.chance(1, 3)) { int reg = (int)b.a[1]; g.breakTree(b.tree.get(), reg); }
        }
    }
    if (g.r.chance(1, 4)) {   // an equal copy under another address
        Op& w = g.op(O_WRITE, {0, 0, 0, 0}); w.names = {"c.iff"};
        Op& x = g.op(O_READ, {(long)n, -1, 0}); x.names = {"c.iff"};
        g.op(O_COMPARE, {0, n});
        if (g.r.chance(1, 2)) { g.edit(g.r.chance(1, 2) ? 0 : n, 0); g.op(O_COMPARE, {0, n}); g.op(O_COMPARE, {n, 0}); }
        n++;
    }
    if (g.r.chance(1, 20)) {   // all kinds of types side by side
        Op& b = g.build(n, 0);
        Node* t = new Node;
        t->k = GROUP;
        t->id = g.r.chance(1, 2) ? CAT : LIST;
        t->gtype = JJJJ;
        b.tree.reset(t);
        b.a[1] = 0;
        for (int k = 0; k < 36; k++) { Node* f = g.r.chance(1, 4) ? g.prop(g.oddType(), 0) : g.form(g.oddType(), 9, 0); if (f->id == PROP && t->id == LIST) { f->parent = t; t->props.push_back(f); } else g.adopt(t, f); }
        fixSizes(t);
        for (int k = 0; k < 24; k++) g.op(O_CHECK, {n, 1 + (long)g.r.u(100000)});
        n++;
    }
    if (g.r.chance(1, 16)) {   // properties shared over many levels
        Op& b = g.build(n, 0);
        b.a[1] = 0;
        ID t = g.r.pick(FT);
        int d = g.r.chance(1, 2) ? g.r.range(4, 40) : g.r.chance(2, 3) ? g.r.range(30, 80) : g.r.range(100, 300), forms = 0;
        auto lst = [&]() {
            Node* l = g.group(LIST, JJJJ);
            int np = g.r.range(1, 2);
            for (int k = 0; k < np; k++) {
                Node* q = g.prop(k == np - 1 ? t : g.r.pick(FT), 0);
                if (g.r.chance(2, 3)) g.adopt(q, g.leaf(t, 0));
                g.adopt(l, q, true);
            }
            return l;
        };
        Node *root = lst(), *at = root;
        int other = g.r.chance(1, 2) ? 0 : 8;     // LISTs in between
        for (int k = 0; k < d; k++) {
            Node* q;
            if (other && g.r.chance(1, (uint32_t)other)) q = lst();
            else if (g.r.chance(1, 5)) { q = g.group(FORM, g.r.pick(FT)); forms++; }
            else q = g.group(CAT, JJJJ);
            g.adopt(at, q);
            at = q;
        }
        g.adopt(at, g.form(t, 9, 0));
        b.tree.reset(root);
        fixSizes(root);
        int m = g.r.range(2, 6);
        for (int k = 0; k < m; k++) g.op(O_LOOKUP, {n, forms, (long)g.r.pick(CK), g.r.chance(4, 5) ? 1 + (long)g.r.u(1000) : 0});
        if (g.r.chance(1, 4)) g.op(O_CHECK, {n});
        if (g.r.chance(1, 4)) g.search(n);
        n++;
    }
    if (g.r.chance(1, 12)) {   // something that is no main chunk
        Op& b = g.build(n, 0);
        b.a[1] = 0;
        Node* t = g.r.chance(1, 2) ? g.prop(g.r.pick(FT), 0) : g.leaf(g.r.pick(FT), 0);
        b.tree.reset(t);
        fixSizes(t);
        g.op(O_CHECK, {n});
        if (g.r.chance(1, 2)) g.op(O_CHECK, {n, 1});
        g.query(n, n);
        n++;
    }
    if (g.r.chance(1, 6)) {   // twins whose sizes agree although the contents do not
        int reg = g.regMostlyDefault();
        Op& b = g.build(0, reg);
        if (g.r.chance(1, 20)) { b.tree.reset(g.wide()); fixSizes(b.tree.get()); }
        long style = b.a[2];
        Tree like(cloneTree(b.tree.get()));
        Op& c = g.op(O_BUILD, {n, reg, style});
        c.tree.reset(like.release());
        if (!g.restructure(c.tree.get(), reg)) g.alter(c.tree.get(), reg);
        fixSizes(c.tree.get());
        if (g.r.chance(1, 2)) {
            int k = g.r.range(1, 2);
            for (int i = 0; i < k; i++) g.edit(g.r.chance(1, 2) ? 0 : n, 0);
            g.size(n, 0);
        }
        g.op(O_COMPARE, {0, n});
        if (g.r.chance(1, 2)) g.op(O_COMPARE, {n, 0});
        if (g.r.chance(1, 4)) g.op(O_CHECK, {n});
        n++;
    }
    if (g.r.chance(1, 3)) {   // hierarchies that resemble each other take each other's place, often at the same addresses
        int reg = g.regMostlyDefault();
        Op& b = g.build(0, reg);
        for (int k = 0; k < 4 && b.tree->id != LIST; k++) { b.tree.reset(g.tree(reg)); }
        Tree like(cloneTree(b.tree.get()));
        long style = b.a[2];
        if (g.r.chance(1, 2)) {   // told apart however small the difference is
            g.op(O_BUILD, {n, reg, style}).tree.reset(cloneTree(like.get()));
            g.alter(g.p.ops.back().tree.get(), reg);
            g.op(O_COMPARE, {0, n});
            if (g.r.chance(1, 2)) g.op(O_COMPARE, {n, 0});
            n++;
        }
        int rounds = g.r.range(2, 3);
        for (int k = 0; k < rounds; k++) {
            int q = g.r.range(1, 3);
            long at = (long)g.r.u(1000), id = 1 + (long)g.r.u(1000);
            for (int j = 0; j < q; j++) { if (g.r.chance(1, 2)) g.op(O_LOOKUP, {0, at, 0, id}); else g.query(0, 0); }
            if (k + 1 == rounds) break;
            if (g.r.chance(2, 3)) g.op(O_FREE, {0});
            Op& c = g.op(O_BUILD, {0, reg, style});
            c.tree.reset(cloneTree(like.get()));
            g.alter(c.tree.get(), reg);
        }
    }
    if (g.r.chance(1, 6)) { int s = (int)g.r.u((uint32_t)n); g.size(s); g.op(O_CHECK, {s}); if (g.r.chance(1, 2)) g.op(O_CHECK, {s, g.part()}); }
    int m = g.r.range(3, 16);
    for (int i = 0; i < m; i++) {
        int s = (int)g.r.u((uint32_t)n);
        if (g.r.chance(3, 5)) g.query(s, (int)g.r.u((uint32_t)n));
        else if (g.r.chance(3, 4)) g.edit(s, 0);
        else if (g.r.chance(1, 2)) { g.op(O_FREE, {s}); g.build(s, g.regMostlyDefault()); }
        else g.write(s, F(g));
    }
}
void gen10(G& g) {
    regs(g, g.r.u(3));
    g.bigOk = false;
    g.manyOk = false;
    g.cur = T_SETUP;
    g.put("in0.iff", 0);
    g.put("in1.iff", g.anyReg(), g.r.chance(2, 3));
    if (g.r.chance(1, 12)) {   // one caller, but many calls
        g.cur = 0;
        if (g.r.chance(1, 2)) g.build(0, g.regMostlyDefault());
        for (int k = g.r.range(1, 2); k > 0; k--) g.storm(0);
        return;
    }
    int n = g.r.range(2, 3);
    g.p.threads = n;
    bool same = g.r.chance(1, 3);   // several callers doing the same kind of thing
    int style = (int)g.r.u(6);
    bool odd = g.r.chance(1, 3);    // with hierarchies that do not conform among them
    for (int t = 0; t < n; t++) {
        g.cur = t;
        int b = t * 8;
        std::string mine = "t" + std::to_string(t) + ".iff";
        int m = g.r.range(2, 6);
        bool have = false;
        for (int i = 0; i < m; i++) {
            int s = b + (int)g.r.u(2);
            if (!have || g.r.chance(1, 4)) {
                if (odd || g.r.chance(1, 2)) {
                    int reg = g.regMostlyDefault();
                    Op& q = g.build(b, reg);
                    if (odd && g.r.chance(1, 2)) {
                        if (g.r.chance(1, 2)) q.tree.reset(g.form(g.oddType(), g.r.chance(1, 2) ? 2 : 5, reg));
                        else g.breakTree(q.tree.get(), reg);
                        fixSizes(q.tree.get());
                    }
                    if (odd && g.r.chance(1, 2)) g.op(O_CHECK, {b});
                } else { Op& x = g.read(b, -1, g.r.chance(1, 2) ? "in0.iff" : "in1.iff"); if (x.a[2] == 1 || x.a[2] == 2) x.a[2] = 0; }
                have = true;
                continue;
            }
            if (same && g.r.chance(1, 2)) {
                switch (style) {
                case 0: { Op& w = g.op(O_WRITE, {b, 0, 0, 0}); w.names = {mine}; break; }
                case 1: { Op& x = g.op(O_READ, {b + 1, -1, 0}); x.names = {"in1.iff"}; break; }
                case 2: g.op(O_CHECK, {b}); break;
                case 3: g.search(b); break;
                case 4: g.lookup(b); break;
                case 5: g.edit(b, 0); break;
                }
                continue;
            }
            switch (g.r.u(8)) {
            case 0: { Op& w = g.op(O_WRITE, {s, 0, g.r.chance(1, 2) ? 0 : 2 + (long)g.r.u(2), 0}); w.names = {mine}; break; }
            case 1: { Op& x = g.op(O_READ, {b + 1, -1, g.r.chance(1, 2) ? 0 : 3 + (long)g.r.u(2)}); x.names = {g.r.chance(1, 2) ? mine : "in0.iff"}; break; }
            case 2: g.edit(s, 0); break;
            case 3: g.op(O_FREE, {s}); break;
            case 4: if (t == 0 && g.r.chance(1, 2)) { g.op(O_PRINT, {s, (long)g.r.u(2)}); break; } g.op(O_CHECK, {s}); break;
            default: g.query(s, b + (int)g.r.u(2));
            }
        }
    }
}
void gen11(G& g) {
    regs(g, g.r.u(2));
    g.bigOk = false;
    g.manyOk = false;
    g.cur = T_SETUP;
    int reg = g.regMostlyDefault();
    g.build(32, reg);
    if (g.r.chance(1, 4)) g.breakTree(g.p.ops.back().tree.get(), reg);
    bool two = g.r.chance(1, 2);
    if (two) {   // an equal or different second hierarchy
        if (g.r.chance(1, 2)) { Op& x = g.op(O_BUILD, {33, reg, 0}); x.tree.reset(cloneTree(g.p.ops[g.p.ops.size() - 2].tree.get())); }
        else g.build(33, reg);
    }
    int n = g.r.range(2, 3);
    g.p.threads = n;
    for (int t = 0; t < n; t++) {
        g.cur = t;
        int m = g.r.range(1, 4);
        for (int i = 0; i < m; i++) {
            int s = two && g.r.chance(1, 4) ? 33 : 32;
            switch (g.r.u(4)) {
            case 0: { Op& w = g.op(O_WRITE, {s, 0, g.r.chance(1, 2) ? 0 : 2 + (long)g.r.u(2), 0}); w.names = {"t" + std::to_string(t) + ".iff"}; break; }
            case 1: if (t == 0 && g.r.chance(1, 3)) { g.op(O_PRINT, {s, 0}); break; } g.op(O_CHECK, {s}); break;
            default: g.query(s, two && g.r.chance(2, 3) ? 65 - s : s);
            }
        }
    }
}
void gen12(G& g) {
    g.addDefaultReg();
    int n = g.r.range(1, 3);
    for (int i = 0; i < n; i++) {
        if (g.r.chance(1, 12)) continue;   // missing
        Op& x = g.put(FILES[i], 0, !g.r.chance(1, 7));
        if (g.r.chance(1, 12)) x.a[2] = (long)(g.r.next() % 1000003);
        else if (g.r.chance(1, 2)) {   // make inputs of a common type likely
            if (x.tree->k == GROUP && g.r.chance(1, 2)) { x.tree.reset(g.form(g.r.chance(1, 4) ? FT0[0] ^ (1u << 8 * g.r.u(4)) : FT[0], 2, 0)); fixSizes(x.tree.get()); }
        }
        if (g.r.chance(1, 20)) g.mutate(FILES[i]);
    }
    if (g.r.chance(1, 2)) g.put("out.iff", 0);
    int runs = g.r.range(1, 3);
    bool many = false;
    for (int k = 0; k < runs; k++) {
        if (many) break;
        if (g.r.chance(1, 25)) g.usage(true);
        Op& x = g.op(O_JOIN, {(long)g.r.u(3), g.r.chance(2, 3)});
        x.names = {g.r.chance(1, 6) ? FILES[g.r.u(3)] : "out.iff"};
        int m = g.r.chance(1, 20) ? g.r.range(5, 20) : g.r.chance(1, 40) ? g.r.range(60, 530) : g.r.range(1, 4);
        if (m >= 60) for (auto& y : g.p.ops) if (y.kind == O_PUT && y.tree && y.tree->size > 1000) { y.tree.reset(g.form(FT[1], 5, 0)); if (y.tree->kids.size() > 9) y.tree.reset(g.group(FORM, FT[1])); fixSizes(y.tree.get()); }
        for (int i = 0; i < m; i++) x.names.push_back(m < 60 && g.r.chance(1, 15) ? "out.iff" : FILES[g.r.u((uint32_t)n)]);
        if (m >= 60) { x.names[0] = "out.iff"; many = true; }
    }
}
void gen13(G& g) {
    g.addDefaultReg();
    if (g.r.chance(1, 14)) {   // a few bytes: headers with sizes that are small or negative
        Op& x = g.op(O_PUT, {0, 0, -1});
        x.names = {"a.iff"};
        std::string b;
        auto word = [&](uint32_t v) { for (int k = 24; k >= 0; k -= 8) b += (char)(v >> k); };
        int n = g.r.range(1, 3);
        for (int k = 0; k < n; k++) {
            static const char* const ids[] = {"FORM", "CAT ", "LIST", "PROP", "BODY", "TEXT"};
            word(mkid(ids[g.r.u(k + 1 < n ? 4 : 6)]));
            if (k + 1 < n) { word((uint32_t)(12 * (n - k - 1) + (int)g.r.u(4))); word(g.r.pick(FT)); }
            else word(g.r.chance(1, 2) ? (uint32_t)-(int)g.r.range(1, 40) : g.r.u(5));
        }
        for (int k = (int)g.r.u(5); k > 0; k--) b += (char)g.r.u(256);
        x.data = Data::lit(b);
        g.op(O_PP, {1, (long)g.r.u(3)}).names = {"a.iff"};
        if (g.r.chance(1, 2)) { g.op(O_READ, {0, 0, 0}).names = {"a.iff"}; g.op(O_PRINT, {0, (long)g.r.u(3)}); }
        return;
    }
    if (g.r.chance(1, 2000)) {   // a text of megabytes
        Op& x = g.put("a.iff", 0);
        Node* f = g.group(FORM, g.r.pick(FT)), *q = g.rawNode(TEXT);
        q->spec = g.data(g.r.range(4300000, 9000000), g.r.chance(3, 4));
        q->data = q->spec.expand();
        g.adopt(f, q);
        fixSizes(f);
        x.tree.reset(f);
        g.op(O_PP, {1, (long)g.r.u(3)}).names = {"a.iff"};
        return;
    }
    if (!g.r.chance(1, 4)) g.bigOk = false;
    bool conforming = !g.r.chance(1, 4);
    Op& x = g.put("a.iff", 0, conforming);
    for (int k = 0; k < 3 && x.tree->size > 50000 && !g.r.chance(1, 6); k++) { g.bigOk = g.manyOk = g.wideOk = false; x.tree.reset(g.tree(0)); if (!conforming) g.breakTree(x.tree.get(), 0); }    // printing takes its time
    if (g.r.chance(1, 6)) x.a[2] = (long)(g.r.next() % 1000003);
    if (g.r.chance(1, 10)) g.mutate("a.iff");
    int runs = g.r.range(1, 3);
    for (int k = 0; k < runs; k++) {
        if (g.r.chance(1, 25)) g.usage(false);
        Op& y = g.op(O_PP, {(long)g.r.u(2), (long)g.r.u(3)});
        y.names = {g.r.chance(1, 15) ? "missing.iff" : "a.iff"};
    }
}
void gen14(G& g) {
    g.addDefaultReg();
    int n = g.r.range(1, 2);
    for (int i = 0; i < n; i++) g.addReg();
    for (auto& h : g.p.handlers) {   // handlers that give up
        if (g.r.chance(1, 12)) h.failRead = (int)g.r.u((uint32_t)h.fields.size() + 1);
        if (g.r.chance(1, 12)) h.failWrite = (int)g.r.u((uint32_t)h.fields.size() + 1);
    }
    int m = g.r.range(2, 7);
    int reg = 1 + (int)g.r.u((uint32_t)g.p.regs.size() - 1);
    if (g.r.chance(1, 3)) {   // bytes from a program that knows more or fewer fields
        Op& y = g.put("a.iff", g.r.chance(1, 2) ? 0 : reg);
        if (g.r.chance(1, 4)) g.negate(y.tree.get());
        else if (g.r.chance(1, 3)) {   // cut within or right after a handler's chunk
            if (Node* h = g.handForm(reg)) {
                y.tree.reset(h);
                y.a[1] = reg;
                int64_t n = 8 + (int64_t)h->size, e = h->kids.back()->size;
                y.a[2] = (long)(n - (g.r.chance(1, 2) ? g.r.range(1, 2) : g.r.range(1, 2 + (int)std::max<int64_t>(0, std::min<int64_t>(e, 400)))));
            }
        }
        for (int k = (int)g.r.u(2); k > 0; k--) g.mutate("a.iff");
        g.read(0, reg, "a.iff");
    } else g.build(0, reg);
    for (int i = 0; i < m; i++) {
        int s = (int)g.r.u(2);
        switch (g.r.u(8)) {
        case 0: case 1: g.write(s, F(g)); break;
        case 2: case 3: g.read(1, reg, F(g)); break;
        case 4: g.op(O_PRINT, {s, (long)g.r.u(2)}); break;
        case 5: g.op(O_CHECK, {s}); break;
        case 6: g.op(O_COMPARE, {0, 1}); break;
        case 7: g.op(O_FREE, {s}); break;
        }
    }
}
void gen15(G& g) {   // recovery: some operations are attempted twice; faults hit first attempts only
    size_t base;
    genHist(g, true, 2, 6);
    base = g.p.ops.size();
    std::vector<Op> in(g.p.ops.begin(), g.p.ops.begin() + (long)base);
    g.p.ops.clear();
    for (auto& x : in) {
        g.p.ops.push_back(x);
        if (x.kind == O_PUT || x.kind == O_STORM || x.kind == O_MUTATE || x.kind == O_FREE || x.kind == O_UPDATE || x.kind == O_COPYDATA || (x.kind >= O_SNEW && x.kind <= O_SCLOSE)) continue;
        if (!g.r.chance(2, 3)) continue;
        Op y(x);
        y.id = g.nextId++;
        y.a[5] = 1000 + x.id;    // retry of x, if x failed
        g.p.ops.push_back(y);
    }
}
void gen17(G& g) {
    regs(g, g.r.u(2));
    int n = g.r.range(1, 4);
    for (int i = 0; i < n; i++) {
        int reg = g.regMostlyDefault();
        Op& b = g.build(i, reg);
        if (g.r.chance(1, 4)) { Node* l = g.leaf(0, reg); b.tree.reset(l); fixSizes(l); }   // a lone chunk
    }
    struct Lay { int slot; Data d; ID scope; bool part; };
    std::vector<Lay> lay;
    std::vector<Node*> trees;
    for (auto& x : g.p.ops) if (x.kind == O_BUILD) trees.push_back(x.tree.get());
    int m = g.r.range(1, 6);
    g.op(O_SNEW, {0, 0, (long)g.r.u(2)}).names = {"a.iff"};
    for (int i = 0; i < m; i++) {
        if (g.r.chance(1, 3)) { Data d = g.data(g.r.range(1, 20)); lay.push_back({-1, d, 0, false}); g.op(O_SFOREIGN, {0, 0}).data = d; }
        else {
            int s = (int)g.r.u((uint32_t)n);
            long part = 0;
            ID scope = 0;
            if (g.r.chance(1, 3)) {   // not the whole hierarchy
                std::vector<Node*> v;
                preorder(trees[(size_t)s], v);
                part = 1 + (long)g.r.u((uint32_t)v.size());
                Node* q = v[(size_t)part - 1];
                scope = q->parent ? q->parent->gtype : 0;
            }
            lay.push_back({s, Data(), scope, part > 0});
            g.op(O_SWRITE, {0, s, g.r.chance(1, 4), part});
        }
    }
    Data tail = g.data(g.r.range(1, 6));
    g.op(O_SFOREIGN, {0, 0}).data = tail;
    g.op(O_SCLOSE, {0});
    if (g.r.chance(1, 4)) g.op(O_MUTATE, {10, (long)(g.r.next() % 1000003), (long)(g.r.chance(1, 2) ? g.r.range('A', 'Z') - 1 : (int)g.r.u(255)), 1}).names = {"a.iff"};
    int reads = g.r.range(1, 2);
    for (int k = 0; k < reads; k++) {
        g.op(O_SNEW, {1, 1, (long)g.r.u(2)}).names = {"a.iff"};
        for (size_t i = 0; i < lay.size(); i++) {
            if (lay[i].slot < 0) { g.op(O_SFOREIGN, {1, 1}).data = lay[i].d; continue; }
            bool last = i + 1 == lay.size();
            g.op(O_SREAD, {1, 7, lay[i].slot, last && !lay[i].scope && g.r.chance(1, 2), (long)lay[i].scope});
            if (!lay[i].part && g.r.chance(1, 4)) g.op(O_COMPARE, {7, lay[i].slot});
        }
        g.op(O_SFOREIGN, {1, 2}).data = tail;
        g.op(O_SCLOSE, {1});
    }
}
}  // namespace

void genPlan(Plan& p, int prop, uint64_t seed, int tier, Rng& r) {
    p.prop = prop;
    p.seed = seed;
    p.junk = r.next() % 1000;
    FT = FT0; CK = CK0;
    if (r.chance(1, 6)) {   // IDs that only differ in one of their characters
        IDs& l = r.chance(1, 2) ? FT : CK;
        size_t n = l.size(), from = r.u((uint32_t)n), to = r.u((uint32_t)n);
        ID x = l[from] ^ (1u << (8 * r.u(4) + r.u(2)));
        bool ok = l[to] != mkid("TEXT") && std::find(l.begin(), l.end(), x) == l.end();
        for (int k = 24; k >= 0; k -= 8) { int c = (int)(x >> k & 0xff); if (&l == &FT ? !((c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9')) : c <= ' ' || c > '~') ok = false; }
        if (ok && to != from) l[to] = x;
    }
    G g{p, r, tier};
    if (r.chance(1, 3)) g.bigOk = false;
    g.hugeOk = prop <= 4 || prop == 17;
    g.wideOk = prop != 6 && prop != 10 && prop != 11 && prop != 15;
    switch (prop) {
    case 1: gen1(g); break;
    case 2: gen2(g); break;
    case 3: gen3(g); break;
    case 4: gen4(g); break;
    case 5: gen5(g); break;
    case 6: g.manyOk = r.chance(1, 3); genHist(g, true, 2, 8); break;
    case 7: genHist(g, true, 3, 14); break;
    case 8: gen8(g); break;
    case 9: gen9(g); break;
    case 10: gen10(g); break;
    case 11: gen11(g); break;
    case 12: gen12(g); break;
    case 13: gen13(g); break;
    case 14: gen14(g); break;
    case 15: gen15(g); break;
    case 16:
        genHist(g, false, 2, 9);
        p.cb = r.chance(1, 5);
        if (r.chance(1, 4)) {   // something does not conform, and that is all there is to say about it
            Op& b = g.build(5, g.regMostlyDefault());
            if (r.chance(3, 4)) g.breakTree(b.tree.get(), (int)b.a[1]); else g.size(5);
            g.op(O_CHECK, {5});
            if (r.chance(1, 2)) g.op(O_CHECK, {5, g.part()});
            if (r.chance(1, 4)) g.write(5, "d.iff");
        }
        if (r.chance(1, 10)) {   // something that is no main chunk
            Op& b = g.build(6, 0);
            b.a[1] = 0;
            Node* t = r.chance(1, 2) ? g.prop(r.pick(FT), 0) : g.leaf(r.pick(FT), 0);
            b.tree.reset(t);
            fixSizes(t);
            g.op(O_CHECK, {6});
        }
        if (r.chance(1, 6)) {   // lone chunks on a stream
            int reg = g.anyReg();
            Op& b = g.build(6, reg);
            std::vector<Node*> v, hs;
            preorder(b.tree.get(), v);
            for (auto* n : v) if (n->parent && (n->k == HAND || (v.size() < 6 && n->size < 100))) hs.push_back(n);
            if (!hs.empty()) {
                Node* n = hs[r.u((uint32_t)hs.size())];
                long part = 1 + (long)(std::find(v.begin(), v.end(), n) - v.begin()), scope = (long)n->parent->gtype;
                Op& w = g.op(O_SNEW, {3, 0, (long)r.u(2)});
                w.names = {"e.iff"};
                if (r.chance(1, 2)) w.d.buf = 1;
                g.op(O_SWRITE, {3, 6, 0, part});
                g.op(O_SCLOSE, {3});
                Op& q = g.op(O_SNEW, {3, 1, (long)r.u(2)});
                q.names = {"e.iff"};
                if (r.chance(1, 2)) { q.d.buf = 1; q.d.chunk = 1; }
                g.op(O_SREAD, {3, 7, 6, 0, scope});
                if (r.chance(1, 2)) g.op(O_SREAD, {3, 7, 6, 0, scope});
                g.op(O_SCLOSE, {3});
            }
        }
        if (r.chance(1, 4)) {   // a stream that is read chunk by chunk, past its end
            if (r.chance(2, 3)) { Op& x = g.put("c.iff", g.anyReg()); if (r.chance(1, 3)) x.a[2] = (long)(r.next() % 1000003); }
            if (r.chance(1, 4)) g.mutate("c.iff");
            g.op(O_SNEW, {2, 1, (long)r.u(2)}).names = {"c.iff"};
            for (int k = r.range(2, 3); k > 0; k--) g.op(O_SREAD, {2, 4, 4, r.chance(1, 4)});
        }
        break;
    case 17: gen17(g); break;
    }
    if (prop == 16 && !p.cb && r.chance(1, 3)) { Op& x = g.op(O_SETCB, {1}); x.t = 0; size_t at = r.u((uint32_t)p.ops.size()); Op y(x); p.ops.pop_back(); p.ops.insert(p.ops.begin() + (long)at, y); }
    while (p.ops.size() > (size_t)MAXOPS - 8) p.ops.pop_back();
    if (r.chance(1, 16)) {   // files whose names take a long path
        std::string dir;
        int64_t want = r.chance(1, 2) ? r.range(240, 270) : r.range(60, 1500);
        while ((int64_t)dir.size() < want) dir += std::string((size_t)r.range(1, 90), (char)('d' + r.u(20))) + "/";
        for (auto& x : p.ops) for (auto& n : x.names) n = dir + n;
    }
    // large contents do not travel byte by byte
    int64_t most = 0;
    for (auto& x : p.ops) {
        most = std::max(most, x.data.len);
        if (!x.tree) continue;
        std::vector<Node*> v;
        preorder(x.tree.get(), v);
        int64_t sum = 0;
        for (auto* n : v) sum += n->size > 0 && n->k != GROUP ? n->size : 0;
        most = std::max(most, sum);
    }
    int least = (int)(most / 4000);
    if (least > 8)
        for (auto& x : p.ops) {
            if (x.d.chunk && x.d.chunk < least) x.d.chunk += least;
            if (x.d.buf && x.d.buf < least) x.d.buf += least;
        }
}

static int kindFor(Rng& r, int cls, const Op& x, int prop, long& arg) {
    arg = (long)(r.next() % 5000);
    switch (cls) {
    case CLS_OPEN: return F_OPENFAIL;
    case CLS_READ: { static const int k[] = {F_EIO, F_EIO, F_EINTR, F_EOF, F_PARTIAL}; return k[r.u(5)]; }
    case CLS_WRITE: { static const int k[] = {F_ENOSPC, F_ENOSPC, F_EIO, F_EINTR, F_PARTIAL, F_PARTIAL}; return k[r.u(6)]; }
    case CLS_CLOSE: return F_CLOSEFAIL;
    case CLS_ALLOC: return r.chance(2, 3) ? F_OOM : F_OOM_FROM;
    default: return F_HANDLERFAIL;
    }
}
void genFaults(Plan& p, Rng& r, const Shared& dry) {
    // weights per class: o r w c a h
    static const int WT[18][CLS_N] = {
        {0},                          // -
        {3, 0, 10, 6, 1, 0},          // C01
        {1, 10, 0, 0, 0, 0},          // C02
        {0, 0, 0, 0, 0, 0},           // C03: deliveries only
        {3, 1, 8, 4, 1, 0},           // C04
        {0, 2, 1, 0, 2, 0},           // C05
        {0, 0, 0, 0, 10, 0},          // C06
        {2, 4, 4, 3, 6, 2},           // C07
        {0, 0, 0, 0, 10, 0},          // C08
        {0, 2, 2, 1, 8, 1},           // C09
        {1, 3, 3, 2, 3, 1},           // C10
        {1, 0, 4, 2, 5, 0},           // C11
        {4, 6, 6, 3, 4, 0},           // C12
        {2, 6, 8, 1, 3, 0},           // C13
        {1, 4, 4, 1, 4, 8},           // C14
        {3, 5, 5, 3, 6, 2},           // C15
        {3, 6, 6, 3, 6, 3},           // C16
        {0, 0, 0, 0, 0, 0},           // C17
    };
    const int* w = WT[p.prop];
    int total = 0;
    for (int c = 0; c < CLS_N; c++) total += w[c];
    // crash faults for writes marked as made by a dying process
    for (auto& x : p.ops)
        if (x.kind == O_WRITE && x.a[4] == 1) {
            const OpRec& o = dry.op[x.id];
            uint32_t nw = o.counts[CLS_WRITE] + o.counts[CLS_CLOSE] + 1;
            uint32_t k = r.u(nw);
            Fault f;
            f.op = x.id;
            f.kind = F_CRASH;
            f.arg = (long)(r.next() % 100000);
            if (k == 0 && o.counts[CLS_OPEN] && r.chance(1, 3)) { f.cls = CLS_OPEN; f.ord = 0; }
            else if (k <= o.counts[CLS_WRITE] && o.counts[CLS_WRITE]) { f.cls = CLS_WRITE; f.ord = (int)r.u(o.counts[CLS_WRITE]); }
            else { f.cls = CLS_CLOSE; f.ord = 0; }
            p.faults.push_back(f);
        }
    int n = total == 0 ? 0 : r.chance(1, 8) ? 0 : r.chance(3, 5) ? 1 : r.range(2, 4);
    for (int i = 0; i < n; i++) {
        for (int tries = 0; tries < 20; tries++) {
            int c = 0, v = (int)r.u((uint32_t)total);
            while (v >= w[c]) { v -= w[c]; c++; }
            const Op& x = p.ops[r.u((uint32_t)p.ops.size())];
            if (x.t == T_SETUP || x.t == T_POST) continue;
            if (x.a[5] >= 1000 || x.id >= MAXOPS) continue;   // retries run without faults
            if (x.kind == O_WRITE && x.a[4] == 1) continue;
            uint32_t cnt = dry.op[x.id].counts[c];
            if (!cnt) continue;
            Fault f;
            f.op = x.id;
            f.cls = c;
            f.ord = r.chance(1, 5) ? (int)cnt - 1 : r.chance(1, 6) ? 0 : (int)r.u(cnt);
            f.kind = kindFor(r, c, x, p.prop, f.arg);
            p.faults.push_back(f);
            break;
        }
    }
    if (p.threads > 1) {
        uint64_t st = 0, shd = 0;
        for (int t = 0; t < p.threads; t++) { st += dry.thrPoints[t][SW_STATIC]; shd += dry.thrPoints[t][SW_SHARED]; }
        int style = (int)r.u(10);
        if (style == 0) p.rr = r.range(1, 40);
        else if (style == 1) p.rr = r.range(40, 2000);
        else {
            int k = r.chance(1, 2) ? r.range(1, 4) : r.range(3, 24);
            uint64_t base = 0;
            int bt = 0;
            for (int i = 0; i < k; i++) {
                Switch s;
                s.thr = (int)r.u((uint32_t)p.threads);
                s.cls = SW_POINT;
                if (st && r.chance(1, 2) && dry.thrPoints[s.thr][SW_STATIC]) s.cls = SW_STATIC;
                else if (shd && r.chance(1, 2) && dry.thrPoints[s.thr][SW_SHARED]) s.cls = SW_SHARED;
                uint64_t m = dry.thrPoints[s.thr][s.cls];
                if (!m) continue;
                s.ord = 1 + r.next() % m;
                if (s.cls == SW_POINT && base && s.thr == bt && r.chance(2, 3)) s.ord = 1 + (base + r.u(60)) % m;   // clustered
                base = s.ord; bt = s.thr;
                s.to = (s.thr + 1 + (int)r.u((uint32_t)p.threads - 1)) % p.threads;
                p.switches.push_back(s);
            }
        }
    }
}
