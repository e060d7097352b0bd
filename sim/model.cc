#include "model.h"

int lookupSlot(const RegSpec& r, ID scope, ID id) {
    if (r.isDefault) return isGroup(id) ? H_GROUP : H_RAW;
    for (auto& s : r.forms)
        if (s.ftype == scope) {
            for (auto& l : s.levels)
                for (auto& e : l)
                    if (e.first == id) return e.second;
            break;
        }
    for (auto& l : r.global.levels)
        for (auto& e : l)
            if (e.first == id) return e.second;
    if (isGroup(id)) return H_GROUP;
    return r.dflt >= 0 ? r.dflt : H_RAW;
}

std::string Data::expand() const {
    if (gen == 0) return hex;
    std::string o((size_t)len, '\0');
    Rng r(seed * 77 + 5);
    switch (gen) {
    case 1: for (auto& c : o) c = (char)r.next(); break;
    case 2: break;
    case 3: for (auto& c : o) c = (char)0xff; break;
    case 4: for (auto& c : o) c = (char)(r.chance(1, 12) ? '\n' : 0x20 + r.u(0x5f)); break;
    case 5: for (size_t i = 0; i < o.size(); i++) o[i] = (char)(i + seed); break;
    }
    if (flip >= 0 && flip < len) o[(size_t)flip] ^= (char)flipx;
    return o;
}
std::string Data::str() const {
    char b[100];
    if (gen) {
        int k = snprintf(b, sizeof b, "g%d:%llu:%lld", gen, (unsigned long long)seed, (long long)len);
        if (flip >= 0) snprintf(b + k, sizeof b - (size_t)k, "@%lld^%d", (long long)flip, flipx);
        return b;
    }
    std::string o = "x";
    for (unsigned char c : hex) { snprintf(b, sizeof b, "%02x", c); o += b; }
    return o;
}
static void ws(const char*& p) { while (*p == ' ' || *p == '\n') p++; }
Data Data::parse(const char*& p) {
    Data d;
    ws(p);
    if (*p == 'g') {
        char* e;
        d.gen = (int)strtol(p + 1, &e, 10);
        d.seed = strtoull(e + 1, &e, 10);
        d.len = strtoll(e + 1, &e, 10);
        if (*e == '@') { d.flip = strtoll(e + 1, &e, 10); d.flipx = (int)strtol(e + 1, &e, 10); }
        p = e;
    } else if (*p == 'x') {
        p++;
        auto hv = [](char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : -1; };
        while (hv(p[0]) >= 0 && hv(p[1]) >= 0) { d.hex += (char)(hv(p[0]) * 16 + hv(p[1])); p += 2; }
        d.len = (int64_t)d.hex.size();
    }
    return d;
}

Node::~Node() {
    for (auto* n : props) delete n;
    for (auto* n : kids) delete n;
}
Node* cloneTree(const Node* n, Node* parent) {
    Node* m = new Node;
    m->k = n->k; m->id = n->id; m->size = n->size; m->gtype = n->gtype; m->data = n->data; m->spec = n->spec;
    m->slot = n->slot; m->vals = n->vals; m->parent = parent; m->real = n->real; m->anySize = n->anySize;
    for (auto* c : n->props) m->props.push_back(cloneTree(c, m));
    for (auto* c : n->kids) m->kids.push_back(cloneTree(c, m));
    return m;
}
int fieldSize(char f) { return f == 'B' ? 1 : (f == 'U' || f == 'W') ? 2 : 4; }
static int64_t padded(int64_t s) { return 8 + s + (s % 2 != 0); }
static int64_t calcSize(const Node* n) {   // group size from the stored sizes of the members
    int64_t s = 4;
    for (auto* c : n->props) s += padded(c->size);
    for (auto* c : n->kids) s += padded(c->size);
    return s;
}
void fixSizes(Node* n) {
    if (n->k == RAW) n->size = (int32_t)n->data.size();
    if (n->k != GROUP) return;
    n->anySize = false;
    for (auto* c : n->props) fixSizes(c);
    for (auto* c : n->kids) fixSizes(c);
    n->size = (int32_t)calcSize(n);
}
bool settled(const Node* n) {
    if (n->size < 0) return false;
    if (n->k == RAW) return n->size == (int64_t)n->data.size();
    if (n->k == HAND) return true;
    for (auto* c : n->props) if (!settled(c)) return false;
    for (auto* c : n->kids) if (!settled(c)) return false;
    return n->size == calcSize(n);
}

static void put32(std::string& o, uint32_t v) { o += (char)(v >> 24); o += (char)(v >> 16); o += (char)(v >> 8); o += (char)v; }
void encode(const Node* n, const std::vector<HandlerSpec>& hs, std::string& o, uint64_t shuffle, int64_t cap) {
    put32(o, n->id);
    put32(o, (uint32_t)n->size);
    size_t start = o.size();
    if (n->k == RAW) o += n->data;
    else if (n->k == GROUP) {
        if (n->size >= 4) {
            put32(o, n->gtype);
            size_t p = 0, k = 0;    // another program may store the PROP chunks of a LIST anywhere in it
            while (p < n->props.size() || k < n->kids.size()) {
                if (shuffle) shuffle = shuffle * 6364136223846793005u + 1442695040888963407u;
                bool prop = k == n->kids.size() || (p < n->props.size() && (!shuffle || shuffle >> 63));
                encode(prop ? n->props[p++] : n->kids[k++], hs, o, shuffle, cap);
            }
        }
    } else {
        const std::string& f = hs[n->slot].fields;
        int64_t used = 0;
        for (size_t i = 0; i < f.size(); i++) {
            int w = fieldSize(f[i]);
            if (used + w > n->size) break;
            for (int b = w - 1; b >= 0; b--) o += (char)(n->vals[i] >> (8 * b));
            used += w;
        }
    }
    int64_t left = n->size - (int64_t)(o.size() - start);
    if (left > 0) o.append(cap && left > cap ? 1 : (size_t)left, '\0');
    if (n->size % 2 != 0) o += '\0';
}
bool sameTree(const Node* a, const Node* b, bool propSizes) {
    if (a->id != b->id || a->size != b->size) return false;
    if (a->k != b->k) return false;
    if (a->k == RAW) return a->data == b->data;
    if (a->k == HAND) return a->vals == b->vals;
    if (a->gtype != b->gtype || a->props.size() != b->props.size() || a->kids.size() != b->kids.size()) return false;
    for (size_t i = 0; i < a->props.size(); i++) {
        const Node *p = a->props[i], *q = b->props[i];
        if (propSizes) { if (!sameTree(p, q, propSizes)) return false; }
        else {
            if (p->gtype != q->gtype || p->kids.size() != q->kids.size()) return false;
            for (size_t j = 0; j < p->kids.size(); j++) if (!sameTree(p->kids[j], q->kids[j], propSizes)) return false;
        }
    }
    for (size_t i = 0; i < a->kids.size(); i++) if (!sameTree(a->kids[i], b->kids[i], propSizes)) return false;
    return true;
}
void preorder(Node* n, std::vector<Node*>& out) {
    out.push_back(n);
    for (auto* c : n->props) preorder(c, out);
    for (auto* c : n->kids) preorder(c, out);
}
int countNodes(const Node* n) {
    int s = 1;
    for (auto* c : n->props) s += countNodes(c);
    for (auto* c : n->kids) s += countNodes(c);
    return s;
}

// ---- parser for well-formed input
struct Parser {
    const std::string& b;
    const RegSpec& r;
    const std::vector<HandlerSpec>& hs;
    int64_t budget;
    bool unspec = false, silent = true;
    int depth = 0;
    bool get32(size_t& p, uint32_t& v) {
        if (p + 4 > b.size()) return false;
        v = ((uint32_t)(unsigned char)b[p] << 24) | ((uint32_t)(unsigned char)b[p + 1] << 16) | ((uint32_t)(unsigned char)b[p + 2] << 8) | (unsigned char)b[p + 3];
        p += 4;
        return true;
    }
    // returns the node, or nullptr if the input ends too early (or something unspecified was met)
    Node* chunk(size_t& p, ID scope) {
        uint32_t id, sz;
        if (!get32(p, id) || !get32(p, sz)) return nullptr;
        if ((int32_t)sz < 0) { unspec = true; return nullptr; }
        size_t end = p + sz;
        Tree n(new Node);
        n->id = id; n->size = (int32_t)sz;
        int h = lookupSlot(r, scope, id);
        if (h == H_GROUP) {
            n->k = GROUP;
            if (sz < 4) { unspec = true; return nullptr; }
            if (!get32(p, n->gtype)) return nullptr;
            while (p < end) {
                Node* c = chunk(p, n->gtype);
                if (!c) return nullptr;
                c->parent = n.get();
                if (n->id == LIST && c->id == PROP && c->k == GROUP) n->props.push_back(c);
                else n->kids.push_back(c);
            }
            if (p > end) { unspec = true; return nullptr; }
        } else {
            if (h == H_RAW) {
                n->k = RAW;
                if ((int64_t)sz > budget) return nullptr;   // cannot be held: the input is never that long here
                if (end > b.size()) return nullptr;
                n->data = b.substr(p, sz);
                p = end;
            } else {
                n->k = HAND;
                n->slot = h;
                const std::string& f = hs[h].fields;
                n->vals.assign(f.size(), 0);
                size_t q = p;
                size_t i = 0;
                for (; i < f.size(); i++) {
                    if (hs[h].failRead == (int)i) return nullptr;
                    size_t w = (size_t)fieldSize(f[i]);
                    if (q + w > end) break;
                    if (q + w > b.size()) return nullptr;
                    uint32_t v = 0;
                    for (size_t k = 0; k < w; k++) v = (v << 8) | (unsigned char)b[q + k];
                    if (f[i] == 'W') v = (uint32_t)(int32_t)(int16_t)v;
                    n->vals[i] = v;
                    q += w;
                }
                if (i == f.size() && hs[h].failRead == (int)i) return nullptr;
                if (end > b.size()) return nullptr;
                if (q < end) silent = false;
                p = end;
            }
        }
        if (sz % 2) {
            if (p >= b.size()) return nullptr;
            if (b[p] != 0) silent = false;
            p++;
        }
        return n.release();
    }
};
ParseResult parseChunk(const std::string& b, size_t pos, ID scope, const RegSpec& r, const std::vector<HandlerSpec>& hs, int64_t budget) {
    Parser q{b, r, hs, budget};
    size_t p = pos;
    Node* n = q.chunk(p, scope);
    if (n) return {1, n, p - pos, q.silent};
    return {q.unspec ? 2 : 0, nullptr, 0, false};
}

// ---- conformance
static bool idOk(ID id) {
    for (int i = 0; i < 4; i++) {
        unsigned c = (id >> (8 * i)) & 0xff;
        if (c < 0x20 || c > 0x7e) return false;
    }
    return (id >> 24) != ' ';
}
static bool formTypeOk(ID id) {
    if (!idOk(id)) return false;
    for (int i = 0; i < 4; i++) {
        unsigned c = (id >> (8 * i)) & 0xff;
        if ((c >= 'a' && c <= 'z') || c == '.') return false;
    }
    if (isGroup(id) || id == JJJJ) return false;
    ID pre = id & 0xffffff00u;
    unsigned last = id & 0xff;
    if (last >= '1' && last <= '9' && (pre == (mkid("LIS ") & 0xffffff00u) || pre == (mkid("FOR ") & 0xffffff00u) || pre == (mkid("CAT ") & 0xffffff00u))) return false;
    return true;
}
bool modelCheck(const Node* n, const RegSpec& r, const std::vector<HandlerSpec>& hs, bool top, ID scope) {
    if (top && !isMember(n->id)) return false;
    if (!idOk(n->id) || n->size < 0) return false;
    if (n->k == RAW) return true;
    if (n->k == HAND) return hs[n->slot].checkOk != 0;
    if (n->id == FORM || n->id == PROP) { if (!formTypeOk(n->gtype)) return false; }
    else if (!idOk(n->gtype)) return false;
    for (auto* c : n->props) if (!modelCheck(c, r, hs, false, n->gtype)) return false;
    for (auto* c : n->kids) {
        if (n->id == FORM && c->id == PROP) return false;
        if (n->id == PROP && isGroup(c->id)) return false;
        if (n->id == CAT || n->id == LIST) {
            if (!isMember(c->id)) return false;
            if (n->gtype != JJJJ && c->gtype != n->gtype) return false;
        }
        if (!modelCheck(c, r, hs, false, n->gtype)) return false;
    }
    return n->size >= 4 && n->size == calcSize(n);
}

// ---- queries
void modelSearch(Node* n, const std::vector<ID>& types, std::vector<Node*>& out) {
    if (n->k != GROUP || !isMember(n->id)) return;
    if (n->id == FORM)
        for (ID t : types)
            if (n->gtype == t) { out.push_back(n); return; }
    for (auto* c : n->kids) modelSearch(c, types, out);
}
Node* modelLookup(Node* form, ID id) {
    for (auto* c : form->kids) if (c->id == id) return c;
    for (Node* a = form->parent; a; a = a->parent) {
        if (a->id != LIST) continue;
        for (auto* p : a->props)
            if (p->gtype == form->gtype) {
                for (auto* c : p->kids) if (c->id == id) return c;
                break;   // only the first PROP of a type counts
            }
    }
    return nullptr;
}

// ---- printer
static void ind(std::string& o, unsigned n) { o.append(2 * (size_t)n, ' '); }
static void pid(std::string& o, ID id) { for (int i = 3; i >= 0; i--) o += (char)(id >> (8 * i)); }
void modelPrint(const Node* n, unsigned in, const std::vector<HandlerSpec>& hs, std::string& o) {
    char b[64];
    ind(o, in); o += "'"; pid(o, n->id); o += "' = {\n";
    ind(o, in + 1); snprintf(b, sizeof b, "chunkSize = %d;\n", n->size); o += b;
    if (n->k == RAW) {
        if (n->id == TEXT) {
            ind(o, in); o += "text = '\n";
            ind(o, in + 1); o += n->data; o += "\n";
            ind(o, in); o += "';\n";
        } else {
            ind(o, in); o += "bytes = \n";
            ind(o, in + 1);
            for (size_t i = 0; i < n->data.size(); i++) {
                if (i > 0 && i % 10 == 0) { o += "\n"; ind(o, in + 1); }
                static const char hex[] = "0123456789abcdef";
                unsigned char v = (unsigned char)n->data[i];
                o += hex[v >> 4]; o += hex[v & 15]; o += ' ';
            }
            o += "\n"; ind(o, in); o += ";\n";
        }
    } else if (n->k == GROUP) {
        ind(o, in); o += (n->id == FORM || n->id == PROP) ? "formType = '" : "contentsType = '"; pid(o, n->gtype); o += "';\n";
        if (n->id == LIST) {
            ind(o, in); o += "prop = [\n";
            for (auto* c : n->props) modelPrint(c, in + 1, hs, o);
            ind(o, in); o += "];\n";
        }
        ind(o, in); o += "[\n";
        for (auto* c : n->kids) modelPrint(c, in + 1, hs, o);
        ind(o, in); o += "];\n";
    } else
        for (size_t i = 0; i < n->vals.size(); i++) { ind(o, in); snprintf(b, sizeof b, "field%d = %u;\n", (int)i, n->vals[i]); o += b; }
    ind(o, in); o += "}\n\n";
}

// ---- plan text
void putTree(const Node* n, std::string& o) {
    char b[64];
    if (n->k == RAW) { snprintf(b, sizeof b, "R %08x ", n->id); o += b; o += n->spec.str(); }
    else if (n->k == HAND) {
        snprintf(b, sizeof b, "H %08x %d %d %d", n->id, n->size, n->slot, (int)n->vals.size()); o += b;
        for (auto v : n->vals) { snprintf(b, sizeof b, " %u", v); o += b; }
    } else {
        snprintf(b, sizeof b, "G %08x %08x {", n->id, n->gtype); o += b;
        for (auto* c : n->props) { o += " "; putTree(c, o); }
        o += " } {";
        for (auto* c : n->kids) { o += " "; putTree(c, o); }
        o += " }";
    }
}
static Node* getNode(const char*& p) {
    ws(p);
    Node* n = new Node;
    char k = *p++;
    char* e;
    n->id = (ID)strtoul(p, &e, 16); p = e;
    if (k == 'R') { n->k = RAW; n->spec = Data::parse(p); n->data = n->spec.expand(); n->size = (int32_t)n->data.size(); }
    else if (k == 'H') {
        n->k = HAND;
        n->size = (int32_t)strtol(p, &e, 10); p = e;
        n->slot = (int)strtol(p, &e, 10); p = e;
        int c = (int)strtol(p, &e, 10); p = e;
        for (int i = 0; i < c; i++) { n->vals.push_back((uint32_t)strtoul(p, &e, 10)); p = e; }
    } else if (k == 'G') {
        n->k = GROUP;
        n->gtype = (ID)strtoul(p, &e, 16); p = e;
        for (int pass = 0; pass < 2; pass++) {
            ws(p);
            if (*p == '{') p++;
            for (;;) {
                ws(p);
                if (*p == '}') { p++; break; }
                if (*p == 0) break;
                Node* c = getNode(p);
                c->parent = n;
                (pass == 0 ? n->props : n->kids).push_back(c);
            }
        }
    }
    return n;
}
Node* getTree(const char*& p) { Node* n = getNode(p); fixSizes(n); return n; }
