// Reference model: hierarchy, encoder, parser, conformance rules, queries, printer.  Independent of libiff's code.
#pragma once
#include "base.h"

typedef uint32_t ID;
inline constexpr ID mkid(const char* s) {
    return ((ID)(unsigned char)s[0] << 24) | ((ID)(unsigned char)s[1] << 16) | ((ID)(unsigned char)s[2] << 8) | (ID)(unsigned char)s[3];
}
static const ID FORM = mkid("FORM"), CAT = mkid("CAT "), LIST = mkid("LIST"), PROP = mkid("PROP"), JJJJ = mkid("JJJJ"), TEXT = mkid("TEXT");
inline bool isGroup(ID i) { return i == FORM || i == CAT || i == LIST || i == PROP; }
inline bool isMember(ID i) { return i == FORM || i == CAT || i == LIST; }

// Application handler programs
struct HandlerSpec {
    std::string fields;   // B ubyte, U uword, W word, L ulong, l long, I id
    int checkOk = 1;
    int failRead = -1;    // the handler itself gives up before this field
    int failWrite = -1;
};
struct Scope {
    ID ftype = 0;
    std::vector<std::vector<std::pair<ID, int>>> levels;
    int chain = 0;        // last level's parent: 0 none, 1 the library's global node
};
struct RegSpec {
    Scope global;                 // levels chained in front of the library's global node
    std::vector<Scope> forms;
    int dflt = -1;                // slot used as default chunk type, -1 = raw chunk
    bool isDefault = true;        // plain NULL registry
};
enum { H_RAW = -1, H_GROUP = -2 };
int lookupSlot(const RegSpec& r, ID scope, ID id);   // slot, H_RAW or H_GROUP

enum Kind { RAW, GROUP, HAND };
struct Data {             // compact description of bytes
    std::string hex;      // literal bytes if gen == 0
    int gen = 0;          // 0 literal, 1 random, 2 zero, 3 0xff, 4 text, 5 counter
    uint64_t seed = 0;
    int64_t len = 0;
    int64_t flip = -1;    // one byte differs from what was generated
    int flipx = 0;
    std::string expand() const;
    std::string str() const;
    static Data parse(const char*& p);
    static Data lit(const std::string& s) { Data d; d.hex = s; d.len = (int64_t)s.size(); return d; }
};
struct Node {
    Kind k = RAW;
    ID id = 0;
    int32_t size = 0;
    ID gtype = 0;
    std::vector<Node*> props, kids;
    std::string data;
    Data spec;
    int slot = -1;
    std::vector<uint32_t> vals;
    Node* parent = nullptr;
    void* real = nullptr;
    bool anySize = false;   // stale size of an ancestor of an edited chunk: not specified until it is recalculated
    ~Node();
};
typedef std::unique_ptr<Node> Tree;
Node* cloneTree(const Node* n, Node* parent = nullptr);
void fixSizes(Node* n);                          // sets every group size to what its body encodes to
int64_t bodySize(const Node* n, const std::vector<HandlerSpec>& hs);   // real encoded body size of a node (exact)
bool settled(const Node* n);                     // all sizes below and at n are consistent
void encode(const Node* n, const std::vector<HandlerSpec>& hs, std::string& out, uint64_t shuffle = 0, int64_t cap = 0);   // cap: more filler than that is not spelled out
bool sameTree(const Node* a, const Node* b, bool propSizes);   // libiff's comparison; propSizes: also compare PROP sizes
void preorder(Node* n, std::vector<Node*>& out);
int countNodes(const Node* n);
int fieldSize(char f);

struct ParseResult { int st; Node* tree; size_t used; bool silent; };  // st: 0 reject 1 accept 2 unspecified ; silent: nothing to warn about
ParseResult parseChunk(const std::string& b, size_t pos, ID scope, const RegSpec& r, const std::vector<HandlerSpec>& hs, int64_t budget);
bool modelCheck(const Node* n, const RegSpec& r, const std::vector<HandlerSpec>& hs, bool top, ID scope);
void modelSearch(Node* n, const std::vector<ID>& types, std::vector<Node*>& out);
Node* modelLookup(Node* form, ID id);
void modelPrint(const Node* n, unsigned indent, const std::vector<HandlerSpec>& hs, std::string& out);

void putTree(const Node* n, std::string& out);   // plan text
Node* getTree(const char*& p);
