#include "gen.hpp"
namespace gg {
using pbt::strf;
static bool is(const TP &x, const char *n) { return x->spec >= 0 && !strcmp(specs()[x->spec].name, n); }
static std::string until_nul(const std::string &s) { size_t z = s.find('\0'); return z == std::string::npos ? s : s.substr(0, z); }
static std::string nm(const TP &x) { return x->spec < 0 ? "?" : std::string(specs()[x->spec].name) + " at " + range_str(x->range); }

static std::string check(const TP &x, const std::string &in, const Lines &ln, const std::string &path) {
    std::string here = path + "/" + nm(x);
    if (x->spec < 0) return here + ": unknown type";
    size_t b = x->range.start.offset, e = x->range.end.offset;
    if (b > e || e > in.size()) return here + strf(": range outside the input of %zu bytes", in.size());
    if (!ln.is(x->range.start) || !ln.is(x->range.end)) return here + ": line and column do not belong to the offset";
    bool comment = is_a(x->spec, "COMMENT"), error = is(x, "ERROR");
    if (comment || error) {
        if (!x->children.empty()) return here + ": has children";
        std::string t = fv(x, error ? "text" : "text").s;
        if (t != until_nul(in.substr(b, e - b))) return here + ": text " + pbt::quote(t) + " is not the input there, " + pbt::quote(in.substr(b, e - b));
        if (comment) {
            const char *d = is(x, "LINE_COMMENT") ? "//" : "/*";
            if (b < 2 || in.compare(b - 2, 2, d)) return here + ": no comment starts there";
            if (*d == '/' && d[1] == '*' && (in.compare(e, 2, "*/") || in.substr(b, e - b).find("*/") != std::string::npos)) return here + ": the comment does not end there";
            if (d[1] == '/' && (in.substr(b, e - b).find('\n') != std::string::npos || !(e == in.size() || in[e] == '\n' || in.compare(e, 2, "\r\n") == 0))) return here + ": the line comment does not end there";
        }
        if (error && b == e) return here + ": empty";
    }
    std::set<const Tree *> ps;
    for (auto &p : parts(x)) if (p) ps.insert(p.get());
    const TP *prev = nullptr;
    for (auto &c : x->children) {
        if (c->spec < 0) return here + ": child of unknown type";
        if (!ps.count(c.get()) && !is_a(c->spec, "COMMENT") && !is(c, "ERROR")) return here + ": a child is neither a part nor a comment: " + nm(c);
        if (c->range.start.offset < b || c->range.end.offset > e) return here + ": child outside its range: " + nm(c);
        if (prev) {
            const TP &p = *prev;
            bool alias = is(x, "PROJECTION") && is(c, "IDENTIFIER") && c->range.start.offset == b;
            bool in_name = is_a(p->spec, "COMMENT") && c->range.start.offset < p->range.start.offset;
            if (alias || in_name) { /* a name made from the text, or a comment inside the name's text */ }
            else if (c->range.start.offset < p->range.end.offset) return here + ": children overlap or are out of order: " + nm(p) + ", " + nm(c);
        }
        prev = &c;
        std::string r = check(c, in, ln, here);
        if (!r.empty()) return r;
    }
    return "";
}
std::string structure(const std::vector<TP> &roots, const std::string &in, size_t b, size_t e) {
    Lines ln(in);
    size_t at = b;
    for (auto &r : roots) {
        if (r->spec < 0) return "a root of unknown type";
        if (!is(r, "STATEMENT") && !is(r, "COMMAND") && !is_a(r->spec, "COMMENT") && !is(r, "ERROR")) return "a root is a " + nm(r);
        if (r->range.start.offset < at || r->range.end.offset > e) return strf("root outside %zu..%zu or out of order: ", at, e) + nm(r);
        at = r->range.end.offset;
        std::string s = check(r, in, ln, "");
        if (!s.empty()) return s;
    }
    return "";
}
}
