#include "gen.hpp"
#include <strings.h>
#include <cctype>
namespace gg {
using pbt::strf;

// ---------------------------------------------------------------- client commands

static std::string hgap(pbt::Src &src, const Style &st, bool req, size_t at, std::vector<Cmt> *cs) {
    if (st.mode < 2) return req ? " " : "";
    std::string o; unsigned n = src.below(3); if (req && !n) n = 1;
    for (unsigned i = 0; i < n; i++) {
        if (st.mode == 3 && src.below(3) == 0) {
            static const char *const C[] = {"", " c ", "; :x ", " // ", "\"", "a\nb", "*", "\r\n", "\\"};
            std::string c = src.pick(C);
            cs->push_back({false, at + o.size() + 2, at + o.size() + 2 + c.size()});
            o += "/*" + c + "*/";
        } else o += src.coin() ? " " : "\t";
    }
    return o;
}
static std::string line_end(pbt::Src &src, const Style &st, size_t at, std::vector<Cmt> *cs, bool eof_ok) {
    std::string o;
    if (st.mode == 3 && src.coin()) {
        static const char *const C[] = {"", " c", "; x", " /* ", " 'q", "\r.", " \\"};
        std::string c = src.pick(C);
        cs->push_back({true, at + 2, at + 2 + c.size()});
        o = "//" + c;
    }
    if (eof_ok && src.coin()) return o;
    return o + (src.chance(1, 3) ? "\r\n" : "\n");
}
// A word: its value and one way to write it
static void word(pbt::Src &src, bool wild, std::string &val, std::string &raw) {
    unsigned n = 1 + src.few(4);
    for (unsigned i = 0; i < n; i++) {
        unsigned k = src.below(8);
        if (k < 4) {
            static const char *const W[] = {"foo", "help", "a", "-x", "--opt=1", "http:", "1.5", "a:b", "$x", "\xc3\xa9", "{}", "*", "`", "=", "/", "\r"};
            std::string w = src.pick(W);
            if (!wild && (w == "\r" || w == "/" || w == "*")) w = "w";
            // `/` followed by `/` or `*` would begin a comment
            if ((w == "/" || w == "*") && !raw.empty() && raw.back() == '/') w = ".";
            if (!raw.empty() && raw.back() == '/' && w == "/") w = ".";
            if (w == "\r" ) w = "\r.";
            val += w; raw += w;
        } else if (k < 6) {
            static const char E[] = "abfnrtv\\'\"?;"; static const char V[] = "\a\b\f\n\r\t\v\\'\"?;";
            unsigned q = src.below(12); raw += '\\'; raw += E[q]; val += V[q];
        } else {
            char q = src.coin() ? '"' : '\''; raw += q;
            unsigned m = src.len(wild ? 60 : 6, 3);
            for (unsigned j = 0; j < m; j++) switch (src.below(4)) {
                case 0: { static const char E[] = "abfnrtv\\'\"?"; static const char V[] = "\a\b\f\n\r\t\v\\'\"?"; unsigned e = src.below(11); raw += '\\'; raw += E[e]; val += V[e]; break; }
                case 1: { static const char *const S[] = {" ", ";", "//", "/*", "\n", "\r\n", "*/", ":", "`", "\r"}; const char *s = src.pick(S); raw += s; val += s; break; }
                case 2: { char c = wild ? (char)(1 + src.below(255)) : 'q'; if (c == q || c == '\\') c = '.'; raw += c; val += c; break; }
                default: { char c = (char)('a' + src.below(26)); raw += c; val += c; }
            }
            raw += q;
        }
    }
    if (raw.back() == '/') { raw += '.'; val += '.'; }
}
void command(pbt::Src &src, const Style &st, bool wild, bool last, Layout &l, Dir &d) {
    TP x = mk("COMMAND");
    std::string &s = l.src;
    auto str = [&](TP y) { std::string v, r; word(src, wild, v, r); fv(y, "text").s = v; y->tok0 = (int)l.b.size(); l.b.push_back(s.size()); s += r; l.e.push_back(s.size()); y->tok1 = (int)l.b.size(); };
    x->tok0 = (int)l.b.size();
    d.body_b = s.size();
    l.b.push_back(s.size()); s += ":"; l.e.push_back(s.size());
    s += hgap(src, st, false, s.size(), &l.comments);
    TP n = mk("STRING"); str(n); fv(x, "name").k[0] = n;
    unsigned na = src.len(5, 1);
    for (unsigned i = 0; i < na; i++) {
        if (src.chance(1, 6)) {
            s += hgap(src, st, false, s.size(), &l.comments); s += "\\"; s += hgap(src, st, false, s.size(), &l.comments);
            s += line_end(src, st, s.size(), &l.comments, false); s += hgap(src, st, false, s.size(), &l.comments);
        } else s += hgap(src, st, true, s.size(), &l.comments);
        TP a = mk("STRING"); str(a); fv(x, "arguments").k.push_back(a);
    }
    d.body_e = s.size();
    x->tok1 = (int)l.b.size();
    s += hgap(src, st, false, s.size(), &l.comments);
    if (src.coin()) s += ";"; else s += line_end(src, st, s.size(), &l.comments, last);
    d.term = s.back() == '\n' || (s.back() == ';' && s.size() > d.body_e && (l.comments.empty() || l.comments.back().e < s.size()));
    d.tree = x; d.cmd = true;
}

// ---------------------------------------------------------------- programs

static void rebase(const TP &x, int base, std::set<const Tree *> &seen) {
    if (!x || !seen.insert(x.get()).second) return;
    if (x->tok0 >= 0) { x->tok0 += base; x->tok1 += base; }
    for (auto &p : parts(x)) rebase(p, base, seen);
}
static bool has_option_value_trouble(const TP &x) {
    for (auto &o : fv(x, "options").k) if (!strcmp(specs()[o->spec].name, "CYPHER_OPTION"))
        for (auto &q : fv(o, "params").k) { const std::string &v = fv(fv(q, "value").k[0], "text").s; if (v.find_first_of("'\";`") != std::string::npos || v.find("//") != std::string::npos || v.find("/*") != std::string::npos) return true; }
    return false;
}
Program program(pbt::Src &src, const POpts &po) {
    Program p;
    unsigned n = po.min + src.len(po.max - po.min, po.typical);
    Style st; st.mode = po.mode >= 0 ? po.mode : (int)src.below(4);
    for (unsigned i = 0; i < n; i++) {
        bool last = i + 1 == n;
        Dir d; d.b = p.l.src.size(); d.tok_b = p.l.b.size(); d.cmt_b = p.l.comments.size();
        if (po.commands && src.chance(po.commands, 8)) {
            if (d.b || st.mode >= 2) p.l.src += gap(src, st, false, false, false, p.l.src.size(), &p.l.comments, ' ');
            command(src, st, po.gram.wild, last, p.l, d);
        } else {
            TP x; int base = (int)p.l.b.size();
            std::vector<Tok> toks;
            for (;;) {
                G g(src, po.gram);
                x = g.statement();
                if (po.plain_options && has_option_value_trouble(x)) fv(x, "options").k.clear();
                g.emit(x);
                if (!last || src.coin()) { g.semicolon(); TP b = fv(x, "body").k[0]; x->tok1 = (int)g.t.size(); if (!strcmp(specs()[b->spec].name, "QUERY")) b->tok1 = x->tok1; d.semi = d.term = true; }
                if (g.ambiguous()) throw pbt::Discard();
                toks = g.t; p.alias.insert(g.text_alias.begin(), g.text_alias.end());
                break;
            }
            std::set<const Tree *> seen; rebase(x, base, seen);
            lay(src, toks, st, p.l);
            d.tree = x; d.cmd = false;
            d.body_b = p.l.b[base]; d.body_e = p.l.e[p.l.e.size() - (d.semi ? 2 : 1)];
        }
        if (last && po.tail && (d.term || !d.cmd)) p.l.src += gap(src, st, false, false, true, p.l.src.size(), &p.l.comments, p.l.src.back());
        d.e = p.l.src.size(); d.tok_e = p.l.b.size(); d.cmt_e = p.l.comments.size();
        p.dirs.push_back(d);
        // an empty statement now and then
        if (po.empties && !last && src.chance(1, 8)) { p.l.src += ";"; p.l.b.push_back(p.l.src.size() - 1); p.l.e.push_back(p.l.src.size()); }
    }
    return p;
}
std::string check_program(const Program &p, const std::vector<TP> &directives, const std::vector<TP> &roots, int flags) {
    if (directives.size() != p.dirs.size()) return strf("%zu directives written but %zu parsed", p.dirs.size(), directives.size());
    for (size_t i = 0; i < p.dirs.size(); i++) {
        std::string d = compare(p.dirs[i].tree, directives[i], p.l, p.alias, flags);
        if (!d.empty()) return strf("directive %zu: ", i) + d;
    }
    return check_comments(roots, p.l);
}

// ---------------------------------------------------------------- any text at all

static const char *const SOUP[] = {"RETURN", "return", "MATCH", "(", ")", "[", "]", "{", "}", "-", "->", "<-", "--", "<", ">", "=", "<>", "+", "*", "/", "^", "%", "..", ".", ",", ";", ":", "|", "$", "`", "'", "\"",
    "a", "b", "n", "1", "1.5", "0x1F", "'s'", "\"d\"", "`q`", "//", "/*", "*/", "// c\n", "/* c */", "\n", "\r\n", "\r", " ", "\t", "\\", "\\\n", "\\;", "AS", "IN", "IS", "NULL", "NOT", "AND", "OR", "XOR", "WHERE", "WITH", "UNWIND",
    "CREATE", "UNIQUE", "MERGE", "ON", "SET", "DELETE", "DETACH", "REMOVE", "FOREACH", "CALL", "YIELD", "UNION", "ALL", "LOAD", "CSV", "FROM", "START", "node", "rel", "CASE", "WHEN", "THEN", "ELSE", "END", "FILTER", "EXTRACT",
    "REDUCE", "ANY", "NONE", "SINGLE", "shortestPath", "STARTS", "ENDS", "CONTAINS", "=~", "+=", "ORDER", "BY", "SKIP", "LIMIT", "ASC", "DESC", "DISTINCT", "OPTIONAL", "USING", "INDEX", "SCAN", "JOIN", "PERIODIC", "COMMIT",
    "DROP", "CONSTRAINT", "ASSERT", "CYPHER", "PROFILE", "EXPLAIN", "2.3", "planner=cost", ":foo", ":L", "*1..2", "?", "!", "~", "@", "#", "&", "\x01", "\x7f", "\xc3\xa9", "\xff", "HEADERS", "FIELDTERMINATOR", "TRUE", "FALSE"};
std::string soup(pbt::Src &src, unsigned max) {
    std::string s; unsigned n = src.len(max, 12);
    for (unsigned i = 0; i < n; i++) { s += SOUP[src.below(sizeof SOUP / sizeof *SOUP)]; if (src.below(3)) s += ' '; }
    return s;
}
std::string mutate(pbt::Src &src, std::string s, unsigned n) {
    for (unsigned i = 0; i < n; i++) {
        size_t at = s.empty() ? 0 : src.below((uint32_t)s.size() + 1);
        size_t len = s.empty() ? 0 : std::min<size_t>(s.size() - at, 1 + src.len(40, 2));
        switch (src.below(7)) {
        case 0: s.erase(at, len); break;
        case 1: s.insert(at, SOUP[src.below(sizeof SOUP / sizeof *SOUP)]); break;
        case 2: if (at < s.size()) s[at] = (char)src.below(256); break;
        case 3: s.insert(at, s.substr(at, len)); break;
        case 4: s.resize(at); break;
        case 5: { size_t to = src.below((uint32_t)s.size() + 1); std::string w = s.substr(at, len); s.insert(to, w); break; }
        default: { static const char *const B[] = {";", "'", "\"", "`", "/*", "//", "*/", "\n", "(", ")", "[", "{", "\\", ":", "\0"}; unsigned k = src.below(15); if (k == 14) s.insert(at, 1, '\0'); else s.insert(at, B[k]); }
        }
    }
    return s;
}
// No more than a few levels of nesting that stay open: some alternatives of the grammar read
// the same prefix again, so that the time doubles (or worse) with every level (see C26).
std::string tame(std::string s, unsigned max) {
    unsigned d = 0;
    for (size_t i = 0; i < s.size(); i++) {
        char c = s[i];
        if (c == ';') { d = 0; continue; }
        if (strchr(")]}", c) && c) { if (d) d--; continue; }
        bool word = strncasecmp(s.c_str() + i, "case", 4) == 0;
        if ((c && strchr("([{", c)) || word) { if (d >= max) s[i] = ' '; else d++; }
    }
    return s;
}
std::string wild(pbt::Src &src, std::string *kind) {
    std::string s, k;
    switch (src.below(6)) {
    case 0: k = "tokens"; s = soup(src, 80); break;
    case 1: { k = "bytes"; unsigned n = src.len(400, 20); for (unsigned i = 0; i < n; i++) s += (char)src.below(256); break; }
    case 2: { k = "repetition"; std::string u = soup(src, 4); unsigned n = src.len(60, 10); for (unsigned i = 0; i < n; i++) s += u; if (src.coin()) s = soup(src, 4) + s; if (src.coin()) s += soup(src, 6); break; }
    default: {
        POpts po; po.gram.depth = (int)src.below(3); po.gram.clauses = 3; po.max = 5; po.min = 1; po.typical = 1; po.commands = src.coin() ? 2 : 0; po.gram.wild = src.coin(); po.empties = true;
        Program p = program(src, po);
        unsigned n = src.below(5);
        k = n ? "mutated program" : "valid program";
        s = n ? mutate(src, p.l.src, n) : p.l.src;
    } }
    if (k != "valid program") s = tame(s, 6);
    if (src.chance(1, 20)) s = std::string(src.below(1200), src.coin() ? ' ' : '\n') + s;
    if (kind) *kind = k;
    return s;
}
}
