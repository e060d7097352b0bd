#include "plan.h"

const char* const OP_NAME[] = {"build", "add", "setdata", "settext", "copydata", "update", "write", "read", "check", "compare", "search", "lookup", "getchunks",
                               "print", "free", "put", "mutate", "join", "pp", "snew", "swrite", "sforeign", "sread", "sclose", "setcb", "attach", "storm", "size"};

static void scopeText(std::string& o, const Scope& s) {
    char b[64];
    snprintf(b, sizeof b, " scope %08x %d", s.ftype, s.chain); o += b;
    for (auto& l : s.levels) {
        o += " [";
        for (auto& e : l) { snprintf(b, sizeof b, " %08x:%d", e.first, e.second); o += b; }
        o += " ]";
    }
}
std::string planText(const Plan& p) {
    std::string o;
    char b[256];
    snprintf(b, sizeof b, "plan C%02d seed %llu junk %llu threads %d mem %lld rr %d cb %d\n", p.prop, (unsigned long long)p.seed, (unsigned long long)p.junk, p.threads, (long long)p.mem, p.rr, p.cb);
    o += b;
    for (auto& h : p.handlers) {
        snprintf(b, sizeof b, "handler -%s %d %d %d\n", h.fields.c_str(), h.checkOk, h.failRead, h.failWrite); o += b;
    }
    for (auto& r : p.regs) {
        snprintf(b, sizeof b, "reg %d %d", (int)r.isDefault, r.dflt); o += b;
        scopeText(o, r.global);
        for (auto& s : r.forms) scopeText(o, s);
        o += "\n";
    }
    for (auto& x : p.ops) {
        snprintf(b, sizeof b, "op %d t%d %s %ld %ld %ld %ld %ld %ld d %d %d %llu n", x.id, x.t, OP_NAME[x.kind], x.a[0], x.a[1], x.a[2], x.a[3], x.a[4], x.a[5], x.d.buf, x.d.chunk,
                 (unsigned long long)x.d.seed);
        o += b;
        for (auto& n : x.names) o += " =" + n;
        o += " ; ";
        o += x.data.str();
        o += " ; ";
        if (x.tree) putTree(x.tree.get(), o); else o += "-";
        o += "\n";
    }
    for (auto& f : p.faults) { snprintf(b, sizeof b, "fault op %d %c %d %s %ld\n", f.op, CLS_CHAR[f.cls], f.ord, FAULT_NAME[f.kind], f.arg); o += b; }
    for (auto& s : p.switches) { snprintf(b, sizeof b, "switch t%d %c %llu %d\n", s.thr, SW_CHAR[s.cls], (unsigned long long)s.ord, s.to); o += b; }
    return o;
}
bool planParse(const std::string& text, Plan& p) {
    size_t pos = 0;
    while (pos < text.size()) {
        size_t e = text.find('\n', pos);
        if (e == std::string::npos) e = text.size();
        std::string line = text.substr(pos, e - pos);
        pos = e + 1;
        if (line.empty() || line[0] == '#') continue;
        const char* c = line.c_str();
        if (!strncmp(c, "plan ", 5)) {
            unsigned long long s, j; long long m;
            if (sscanf(c, "plan C%d seed %llu junk %llu threads %d mem %lld rr %d cb %d", &p.prop, &s, &j, &p.threads, &m, &p.rr, &p.cb) != 7) return false;
            p.seed = s; p.junk = j; p.mem = m;
        } else if (!strncmp(c, "handler ", 8)) {
            char f[64];
            HandlerSpec h;
            if (sscanf(c, "handler -%63s %d %d %d", f, &h.checkOk, &h.failRead, &h.failWrite) == 4) h.fields = f;
            else if (sscanf(c, "handler - %d %d %d", &h.checkOk, &h.failRead, &h.failWrite) != 3) return false;
            p.handlers.push_back(h);
        } else if (!strncmp(c, "reg ", 4)) {
            RegSpec r;
            int d, n;
            if (sscanf(c, "reg %d %d%n", &d, &r.dflt, &n) < 2) return false;
            r.isDefault = d;
            c += n;
            bool first = true;
            Scope* s = nullptr;
            std::vector<std::pair<ID, int>>* lev = nullptr;
            char tok[64];
            while (sscanf(c, " %63s%n", tok, &n) == 1) {
                c += n;
                if (!strcmp(tok, "scope")) {
                    if (first) s = &r.global; else { r.forms.emplace_back(); s = &r.forms.back(); }
                    first = false;
                    unsigned ft; int ch;
                    if (sscanf(c, "%x %d%n", &ft, &ch, &n) < 2) return false;
                    s->ftype = ft; s->chain = ch;
                    c += n;
                } else if (!strcmp(tok, "[")) { if (!s) return false; s->levels.emplace_back(); lev = &s->levels.back(); }
                else if (!strcmp(tok, "]")) lev = nullptr;
                else { unsigned id; int sl; if (!lev || sscanf(tok, "%x:%d", &id, &sl) != 2) return false; lev->push_back({id, sl}); }
            }
            p.regs.push_back(r);
        } else if (!strncmp(c, "op ", 3)) {
            Op x;
            char k[32];
            unsigned long long ds;
            int n = 0;
            if (sscanf(c, "op %d t%d %31s %ld %ld %ld %ld %ld %ld d %d %d %llu n%n", &x.id, &x.t, k, &x.a[0], &x.a[1], &x.a[2], &x.a[3], &x.a[4], &x.a[5], &x.d.buf, &x.d.chunk, &ds, &n) < 12) return false;
            x.d.seed = ds;
            x.kind = -1;
            for (int i = 0; i < O_NKINDS; i++) if (!strcmp(k, OP_NAME[i])) x.kind = i;
            if (x.kind < 0) return false;
            c += n;
            for (;;) {
                while (*c == ' ') c++;
                if (*c != '=') break;
                c++;
                const char* q = c;
                while (*c && *c != ' ') c++;
                x.names.push_back(std::string(q, (size_t)(c - q)));
            }
            if (*c == ';') c++;
            x.data = Data::parse(c);
            while (*c == ' ') c++;
            if (*c == ';') c++;
            while (*c == ' ') c++;
            if (*c && *c != '-') x.tree.reset(getTree(c));
            p.ops.push_back(std::move(x));
        } else if (!strncmp(c, "fault ", 6)) {
            Fault f;
            char ch, nm[64];
            if (sscanf(c, "fault op %d %c %d %63s %ld", &f.op, &ch, &f.ord, nm, &f.arg) != 5) return false;
            const char* q = strchr(CLS_CHAR, ch);
            f.cls = q ? (int)(q - CLS_CHAR) : 0;
            f.kind = -1;
            for (int i = 0; i < F_KIND_N; i++) if (!strcmp(nm, FAULT_NAME[i])) f.kind = i;
            if (f.kind < 0) return false;
            p.faults.push_back(f);
        } else if (!strncmp(c, "switch ", 7)) {
            Switch s;
            char ch;
            unsigned long long at;
            if (sscanf(c, "switch t%d %c %llu %d", &s.thr, &ch, &at, &s.to) != 4) return false;
            const char* q = strchr(SW_CHAR, ch);
            s.cls = q ? (int)(q - SW_CHAR) : 0;
            s.ord = at;
            p.switches.push_back(s);
        } else
            return false;
    }
    return !p.ops.empty();
}
