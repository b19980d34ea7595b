// Statements generated from the grammar together with their meaning.
#include "gen.hpp"
#include "wrap.hpp"
using namespace ax;
using namespace gg;
using pbt::Src; using pbt::Ctx; using pbt::strf;

namespace {
struct Made { TP tree; Layout l; };
// One statement, alone.
TP make(Src &src, G &g, const Style &st, Layout &l, bool semi) {
    TP x = statement_any(g);
    g.emit(x);
    if (semi) { g.semicolon(); TP b = fv(x, "body").k[0]; x->tok1 = (int)g.t.size(); if (!strcmp(specs()[b->spec].name, "QUERY")) b->tok1 = x->tok1; }
    if (g.ambiguous()) throw pbt::Discard();
    lay(src, g.t, st, l);
    return x;
}
Style style(Src &src) { Style s; s.mode = (int)src.below(4); return s; }
struct One { Problems pr; ResultView v; };
void parse(const std::string &in, unsigned flags, One &o) {
    cypher_parse_result_t *r = cypher_uparse(in.data(), in.size(), nullptr, nullptr, flags);
    if (!r) throw pbt::Fail{"the parse returned no result"};
    o.v = get_result(r, &o.pr);
    cypher_parse_result_free(r);
}
void expect_clean(Ctx &ctx, const One &o, size_t ndir) {
    if (!o.v.errs.empty()) ctx.fail("valid text reported an error: " + dump_err(o.v.errs[0]));
    if (o.v.directives.size() != ndir) ctx.fail(strf("%zu directives written but %zu parsed", ndir, o.v.directives.size()));
    if (!o.pr.empty()) ctx.fail("ill-formed tree: " + o.pr[0]);
}
}

PROPERTY("C02", valid_statement, 1) {
    Opts o; o.depth = (int)src.below(4); o.wild = src.coin();
    G g(src, o); Layout l; Style st = style(src);
    TP x = make(src, g, st, l, src.coin());
    ctx.text(l.src);
    classes(ctx, x);
    if (count(x) || g.t.size() > 6) ctx.nontrivial();
    One p; parse(l.src, src.coin() ? CYPHER_PARSE_ONLY_STATEMENTS : CYPHER_PARSE_DEFAULT, p);
    expect_clean(ctx, p, 1);
    std::string d = compare(x, p.v.directives[0], l, g.text_alias, 0);
    if (!d.empty()) ctx.fail(d);
}

// ---------------------------------------------------------------- C03

namespace {
// Expressions as flat sequences of operands and operators, grouped by precedence climbing.
struct Item { int kind; std::string op; TP x; };      // 0 operand, 1 prefix, 2 infix, 3 comparison, 4 postfix (x: what it makes, without its operand)
struct Climb {
    std::vector<Item> v; size_t i = 0;
    static int infix(const std::string &o) {
        static const std::map<std::string, int> P = {{"OR", 1}, {"XOR", 2}, {"AND", 3}, {"EQUAL", 5}, {"NEQUAL", 5}, {"PLUS", 7}, {"MINUS", 7}, {"MULT", 8}, {"DIV", 8}, {"MOD", 8}, {"POW", 9},
            {"REGEX", 11}, {"IN", 11}, {"STARTS_WITH", 11}, {"ENDS_WITH", 11}, {"CONTAINS", 11}};
        return P.at(o);
    }
    static int postfix(const Item &it) {
        const char *n = specs()[it.x->spec].name;
        return !strcmp(n, "UNARY_OPERATOR") ? 11 : !strcmp(n, "PROPERTY_OPERATOR") || !strcmp(n, "LABELS_OPERATOR") ? 13 : 12;
    }
    TP parse(int min) {
        TP l;
        Item &f = v[i++];
        if (f.kind == 1) { l = mk("UNARY_OPERATOR"); fv(l, "operator").s = f.op; fv(l, "argument").k[0] = parse(f.op == "NOT" ? 4 : 10); }
        else l = f.x;
        while (i < v.size()) {
            Item &it = v[i];
            if (it.kind == 4) {
                if (postfix(it) < min) break;
                i++;
                TP x = it.x;
                fv(x, !strcmp(specs()[x->spec].name, "UNARY_OPERATOR") ? "argument" : "expression").k[0] = l;
                l = x;
            } else if (it.kind == 3) {
                if (6 < min) break;
                TP x = mk("COMPARISON"); fv(x, "arguments").k.push_back(l);
                std::string ops;
                while (i < v.size() && v[i].kind == 3) { ops += (ops.empty() ? "" : " ") + v[i].op; i++; fv(x, "arguments").k.push_back(parse(7)); }
                fv(x, "operators").s = ops;
                l = x;
            } else {
                int p = infix(it.op);
                if (p < min) break;
                i++;
                TP x = mk("BINARY_OPERATOR"); fv(x, "operator").s = it.op;
                fv(x, "argument1").k[0] = l; fv(x, "argument2").k[0] = parse(it.op == "POW" ? p : p + 1);
                l = x;
            }
        }
        return l;
    }
};
const char *const INF[] = {"OR", "XOR", "AND", "EQUAL", "NEQUAL", "PLUS", "MINUS", "MULT", "DIV", "MOD", "POW", "REGEX", "IN", "STARTS_WITH", "ENDS_WITH", "CONTAINS"};
const char *const CMP[] = {"LT", "GT", "LTE", "GTE"};
const char *const PRE[] = {"NOT", "UNARY_MINUS", "UNARY_PLUS"};
void op_tokens(G &g, const std::string &op) {
    static const std::map<std::string, const char *> S = {{"EQUAL", "="}, {"NEQUAL", "<>"}, {"PLUS", "+"}, {"MINUS", "-"}, {"MULT", "*"}, {"DIV", "/"}, {"MOD", "%"}, {"POW", "^"}, {"REGEX", "=~"},
        {"LT", "<"}, {"GT", ">"}, {"LTE", "<="}, {"GTE", ">="}, {"UNARY_MINUS", "-"}, {"UNARY_PLUS", "+"}};
    auto it = S.find(op);
    if (it != S.end()) g.p(it->second);
    else g.kw(op == "STARTS_WITH" ? "STARTS WITH" : op == "ENDS_WITH" ? "ENDS WITH" : op.c_str());
}
// Where an expression may stand: writes tokens around it and tells where to find it
struct Place { const char *before, *after; const char *path; };
const Place PLACES[] = {
    {"RETURN", "AS r", "RETURN.projections.0.expression"},
    {"UNWIND", "AS r", "UNWIND.expression"},
    {"DELETE", "", "DELETE.expressions.0"},
    {"MATCH ( ) WHERE", "", "MATCH.predicate"},
    {"RETURN 1 AS r SKIP", "", "RETURN.skip"},
    {"RETURN 1 AS r ORDER BY", "", "RETURN.order_by.items.0.expression"},
    {"RETURN [", "] AS r", "RETURN.projections.0.expression.elements.0"},
    {"RETURN { k :", "} AS r", "RETURN.projections.0.expression.entries.1"},
    {"RETURN foo ( 1 ,", ") AS r", "RETURN.projections.0.expression.arguments.1"},
    {"RETURN CASE WHEN", "THEN 1 END AS r", "RETURN.projections.0.expression.alternatives.0"},
    {"SET a . b =", "", "SET.items.0.expression"},
};
TP follow(TP x, const std::string &path) {
    std::string w; bool first = true; std::vector<std::string> seg;
    for (char c : path + ".") { if (c == '.') { seg.push_back(w); w.clear(); } else w += c; }
    x = fv(x, "body").k[0]; x = fv(x, "clauses").k[0];
    for (size_t i = 1; i < seg.size(); i++) {
        size_t k = 0;
        if (i + 1 < seg.size() && isdigit((unsigned char)seg[i + 1][0])) k = (size_t)atoi(seg[i + 1].c_str());
        Val &v = fv(x, seg[i].c_str());
        if (v.k.size() <= k || !v.k[k]) return nullptr;
        x = v.k[k];
        if (i + 1 < seg.size() && isdigit((unsigned char)seg[i + 1][0])) i++;
    }
    (void)first;
    return x;
}
void words(G &g, const char *s) {
    std::string w;
    for (const char *c = s;; c++) if (*c == ' ' || !*c) { if (!w.empty()) { if (isupper((unsigned char)w[0])) g.p(w).kw = true; else g.p(w); } w.clear(); if (!*c) break; } else w += *c;
}
}

PROPERTY("C03", flat_sequence, 3) {
    Opts o; o.depth = 1; o.wild = false; o.redundant = false;
    G g(src, o); Layout l; Style st = style(src);
    Climb c; std::vector<size_t> at;
    unsigned nops = 1 + src.len(14, 4), kinds = 0; bool labels = false;
    // the sequence
    unsigned bias = src.below(3);
    auto operand = [&]() {
        unsigned k = src.below(8);
        TP x = k < 4 ? g.ident() : k < 5 ? g.integer() : g.leaf();
        c.v.push_back({0, "", x});
    };
    auto prefixes = [&]() { while (src.chance(1, bias == 1 ? 2 : 6)) { c.v.push_back({1, src.pick(PRE), nullptr}); kinds |= 1; } };
    prefixes(); operand();
    for (unsigned i = 0; i < nops; i++) {
        unsigned k = src.below(bias == 2 ? 14 : 20);
        if (k < 10) { c.v.push_back({2, src.pick(INF), nullptr}); kinds |= 2; }
        else if (k < 14) { c.v.push_back({3, src.pick(CMP), nullptr}); kinds |= 4; }
        else {
            TP x; bool lab = false;
            switch (src.below(6)) {
            case 0: x = mk("UNARY_OPERATOR"); fv(x, "operator").s = src.coin() ? "IS_NULL" : "IS_NOT_NULL"; break;
            case 1: x = mk("PROPERTY_OPERATOR"); fv(x, "prop_name").k[0] = g.named("PROP_NAME"); break;
            case 2: x = mk("SUBSCRIPT_OPERATOR"); fv(x, "subscript").k[0] = g.leaf(); break;
            case 3: x = mk("SLICE_OPERATOR"); if (src.coin()) fv(x, "start").k[0] = g.leaf(); if (src.coin()) fv(x, "end").k[0] = g.leaf(); break;
            case 4: x = mk("MAP_PROJECTION"); if (src.coin()) { TP s = mk("MAP_PROJECTION_PROPERTY"); fv(s, "prop_name").k[0] = g.named("PROP_NAME"); fv(x, "selectors").k.push_back(s); } break;
            default: if (labels) { x = mk("PROPERTY_OPERATOR"); fv(x, "prop_name").k[0] = g.named("PROP_NAME"); break; }
                x = mk("LABELS_OPERATOR"); lab = true; fv(x, "labels").k.push_back(g.named("LABEL")); if (src.coin()) fv(x, "labels").k.push_back(g.named("LABEL")); break;
            }
            labels = lab; kinds |= 8;
            c.v.push_back({4, "", x});
            continue;
        }
        labels = false;
        prefixes(); operand();
    }
    const Place &pl = PLACES[src.below(sizeof PLACES / sizeof *PLACES)];
    words(g, pl.before);
    size_t first = g.t.size();
    for (auto &it : c.v) {
        if (it.kind == 0) g.emit(it.x);
        else if (it.kind < 4) op_tokens(g, it.op);
        else {
            std::string n = specs()[it.x->spec].name;
            if (n == "UNARY_OPERATOR") g.kw(fv(it.x, "operator").s == "IS_NULL" ? "IS NULL" : "IS NOT NULL");
            else if (n == "PROPERTY_OPERATOR") { g.p("."); g.emit(fv(it.x, "prop_name").k[0]); }
            else if (n == "SUBSCRIPT_OPERATOR") { g.p("["); g.emit(fv(it.x, "subscript").k[0]); g.p("]"); }
            else if (n == "SLICE_OPERATOR") { g.p("["); if (fv(it.x, "start").k[0]) g.emit(fv(it.x, "start").k[0]); g.p(".."); if (fv(it.x, "end").k[0]) g.emit(fv(it.x, "end").k[0]); g.p("]"); }
            else if (n == "MAP_PROJECTION") { g.p("{"); for (auto &s : fv(it.x, "selectors").k) g.emit(s); g.p("}"); }
            else for (auto &q : fv(it.x, "labels").k) g.emit(q);
        }
    }
    // a collection of one name followed by IN reads as a comprehension
    if (strstr(pl.before, "[") && first + 1 < g.t.size() && (g.t[first].id || g.t[first].kw) && g.t[first + 1].s == "IN") throw pbt::Discard();
    words(g, pl.after);
    lay(src, g.t, st, l);
    ctx.text(l.src);
    TP want = c.parse(0);
    if (nops >= 2) ctx.nontrivial();
    if (kinds & 1) ctx.cls("prefix"); if (kinds & 2) ctx.cls("infix"); if (kinds & 4) ctx.cls("comparison"); if (kinds & 8) ctx.cls("postfix");
    ctx.cls(strf("operators %s", nops < 3 ? "1-2" : nops < 6 ? "3-5" : nops < 10 ? "6-9" : "10+"));
    ctx.cls(std::string("in ") + pl.path);
    One p; parse(l.src, 0, p);
    expect_clean(ctx, p, 1);
    TP got = follow(p.v.directives[0], pl.path);
    if (!got) ctx.fail("no expression at " + std::string(pl.path) + ": " + dump(p.v.directives[0]));
    std::string a = dump(want), b = dump(got);
    if (a != b) ctx.fail("written " + a + " but parsed " + b);
}

namespace {
// A tree of operators only
TP op_tree(Src &src, G &g, int d) {
    if (d <= 0 || src.chance(1, 6)) return g.leaf();
    TP x;
    switch (src.below(9)) {
    case 0: x = mk("UNARY_OPERATOR"); fv(x, "operator").s = src.pick(PRE); fv(x, "argument").k[0] = op_tree(src, g, d - 1); break;
    case 1: { x = mk("COMPARISON"); unsigned n = 1 + src.len(3, 1); std::string ops; fv(x, "arguments").k.push_back(op_tree(src, g, d - 1));
        for (unsigned i = 0; i < n; i++) { ops += (i ? " " : "") + std::string(src.pick(CMP)); fv(x, "arguments").k.push_back(op_tree(src, g, d - 1)); } fv(x, "operators").s = ops; break; }
    case 2: switch (src.below(5)) {
        case 0: x = mk("UNARY_OPERATOR"); fv(x, "operator").s = src.coin() ? "IS_NULL" : "IS_NOT_NULL"; fv(x, "argument").k[0] = op_tree(src, g, d - 1); break;
        case 1: x = mk("PROPERTY_OPERATOR"); fv(x, "expression").k[0] = op_tree(src, g, d - 1); fv(x, "prop_name").k[0] = g.named("PROP_NAME"); break;
        case 2: x = mk("SUBSCRIPT_OPERATOR"); fv(x, "expression").k[0] = op_tree(src, g, d - 1); fv(x, "subscript").k[0] = op_tree(src, g, d - 1); break;
        case 3: x = mk("LABELS_OPERATOR"); fv(x, "expression").k[0] = op_tree(src, g, d - 1); fv(x, "labels").k.push_back(g.named("LABEL")); break;
        default: x = mk("MAP_PROJECTION"); fv(x, "expression").k[0] = op_tree(src, g, d - 1); break;
        } break;
    default: x = mk("BINARY_OPERATOR"); fv(x, "operator").s = src.pick(INF); fv(x, "argument1").k[0] = op_tree(src, g, d - 1); fv(x, "argument2").k[0] = op_tree(src, g, d - 1); break;
    }
    return x;
}
}
PROPERTY("C03", parentheses, 2) {
    Opts o; o.depth = 1; o.wild = false; o.redundant = false;
    G g(src, o);
    TP x = op_tree(src, g, 1 + (int)src.below(5));
    const Place &pl = PLACES[src.below(sizeof PLACES / sizeof *PLACES)];
    std::string texts, dumps[3];
    if (count(x)) ctx.nontrivial();
    for (int k = 0; k < 3; k++) {
        g.t.clear(); g.o.full = k == 1; g.o.redundant = k == 2;
        words(g, pl.before);
        size_t at = g.t.size();
        g.emit_expr(x, false);
        if (strstr(pl.before, "[") && at + 1 < g.t.size() && (g.t[at].id || g.t[at].kw) && g.t[at + 1].s == "IN") throw pbt::Discard();
        words(g, pl.after);
        if (g.ambiguous()) { ctx.cls("ambiguous parentheses"); continue; }
        Layout l; Style st = style(src);
        lay(src, g.t, st, l);
        texts += l.src + "\n----\n";
        ctx.text(texts);
        One p; parse(l.src, 0, p);
        expect_clean(ctx, p, 1);
        TP got = follow(p.v.directives[0], pl.path);
        if (!got) ctx.fail("no expression at " + std::string(pl.path));
        std::string a = dump(x), b = dump(got);
        const char *K[] = {"needed", "all", "redundant"};
        if (a != b) ctx.fail(strf("with %s parentheses: ", K[k]) + "meant " + a + " but parsed " + b);
        ctx.cls(std::string("parentheses: ") + K[k]);
    }
}

// ---------------------------------------------------------------- C04

namespace {
// The text of a string literal in pieces whose value is known
void raw_string(Src &src, std::string &raw, std::string &val, unsigned n) {
    char q = src.coin() ? '"' : '\'';
    raw = q;
    static const char E[] = "abfnrtv\\'\"?"; static const char V[] = "\a\b\f\n\r\t\v\\'\"?";
    for (unsigned i = 0; i < n; i++) {
        switch (src.below(5)) {
        case 0: { unsigned k = src.below(11); raw += '\\'; raw += E[k]; val += V[k]; break; }
        case 1: { char c; do c = (char)(1 + src.below(255)); while (strchr(E, c)); raw += '\\'; raw += c; val += '\\'; val += c; break; }   // not an escape
        case 2: { char c; do c = (char)(1 + src.below(255)); while (c == q || c == '\\'); raw += c; val += c; break; }
        case 3: { char c = q == '"' ? '\'' : '"'; raw += c; val += c; break; }
        default: { static const char *const W[] = {"x", "\n", "\r\n", "\r", "//", "/*", "*/", ";", ":", "`", "$", "\xc3\xa9", "\xff", "  ", "u0041", "x41", "07", "0"}; const char *w = src.pick(W); raw += w; val += w; break; }
        }
    }
    raw += q;
}
}
PROPERTY("C04", string_pieces, 2) {
    std::string raw, val, pad;
    unsigned n = src.len(src.chance(1, 8) ? 3000 : 60, 8);
    raw_string(src, raw, val, n);
    if (src.chance(1, 4)) pad.assign(src.below(2200), ' ');
    static const char *const B[] = {"RETURN ", "UNWIND ", "LOAD CSV FROM 'x' AS a FIELDTERMINATOR ", "START n=node:i(", "START n=node:i(k=", "RETURN [", "RETURN {a:", "RETURN f("};
    static const char *const A[] = {" AS r", " AS r", "", ")", ")", "] AS r", "} AS r", ") AS r"};
    unsigned k = src.below(8);
    std::string in = pad + B[k] + raw + A[k] + (src.coin() ? ";" : "");
    ctx.text(in);
    if (n) ctx.nontrivial();
    ctx.cls(strf("length %s", n < 10 ? "0-9" : n < 100 ? "10-99" : n < 1000 ? "100-999" : "1000+"));
    ctx.cls(std::string("in ") + B[k]);
    One p; parse(in, 0, p);
    expect_clean(ctx, p, 1);
    // the last string of the statement
    std::vector<TP> st{p.v.directives[0]}, found;
    while (!st.empty()) { TP y = st.back(); st.pop_back(); if (!y) continue; if (!strcmp(specs()[y->spec].name, "STRING")) found.push_back(y); for (auto &c : parts(y)) st.push_back(c); }
    TP last; for (auto &f : found) if (!last || f->range.start.offset > last->range.start.offset) last = f;
    if (!last) ctx.fail("no string in " + dump(p.v.directives[0]));
    if (fv(last, "text").s != val) ctx.fail("string " + pbt::quote(raw) + " denotes " + pbt::quote(val) + " but is reported as " + pbt::quote(fv(last, "text").s));
    size_t b = pad.size() + strlen(B[k]);
    if (last->range.start.offset != b || last->range.end.offset != b + raw.size()) ctx.fail("string at the wrong range " + range_str(last->range));
}
PROPERTY("C04", long_lexemes, 2) {
    Opts o; o.depth = 1 + (int)src.below(2); o.clauses = 3; o.longnames = true;
    G g(src, o); Layout l; Style st = style(src);
    // move everything relative to the parser's buffers
    if (src.coin()) { unsigned n = src.below(1100); if (src.coin()) l.src.assign(n, ' '); else { l.src = "/*" + std::string(n, 'c') + "*/"; l.comments.push_back({false, 2, 2 + n}); } }
    TP x = make(src, g, st, l, src.coin());
    ctx.text(l.src.size() > 3000 ? l.src.substr(0, 3000) : l.src);
    size_t longest = 0; for (auto &k : g.t) longest = std::max(longest, k.s.size());
    ctx.cls(strf("longest token %s", longest < 200 ? "<200" : longest < 1000 ? "200-999" : longest < 2000 ? "1000-1999" : "2000+"));
    if (longest >= 200) ctx.nontrivial();
    classes(ctx, x);
    One p; parse(l.src, 0, p);
    expect_clean(ctx, p, 1);
    std::string d = compare(x, p.v.directives[0], l, g.text_alias, 0);
    if (d.empty()) d = check_comments(p.v.roots, l);
    if (!d.empty()) ctx.fail(d);
}
PROPERTY("C04", all_roles, 1) {
    Opts o; o.depth = (int)src.below(3);
    G g(src, o); Layout l; Style st = style(src);
    TP x = make(src, g, st, l, src.coin());
    ctx.text(l.src); ctx.nontrivial(); classes(ctx, x);
    One p; parse(l.src, 0, p);
    expect_clean(ctx, p, 1);
    std::string d = compare(x, p.v.directives[0], l, g.text_alias, 0);
    if (d.empty()) d = check_comments(p.v.roots, l);
    if (!d.empty()) ctx.fail(d);
}

// ---------------------------------------------------------------- C05, C06

PROPERTY("C05", layouts, 3) {
    Opts o; o.depth = (int)src.below(4); o.wild = src.chance(1, 3);
    G g(src, o);
    TP x = statement_any(g); g.emit(x);
    if (src.coin()) g.semicolon();
    if (g.ambiguous()) throw pbt::Discard();
    std::string texts;
    size_t nc = 0;
    for (int k = 0; k < 3; k++) {
        Style st; st.mode = k == 0 ? (int)src.below(2) : 3;
        Layout l; lay(src, g.t, st, l);
        if (k) l.src += gap(src, st, false, false, true, l.src.size(), &l.comments, l.src.back());
        nc += l.comments.size();
        texts += l.src + "\n----\n"; ctx.text(texts);
        One p; parse(l.src, 0, p);
        expect_clean(ctx, p, 1);
        std::string d = compare(x, p.v.directives[0], l, g.text_alias, 0);
        if (d.empty()) d = check_comments(p.v.roots, l);
        if (!d.empty()) ctx.fail(strf("layout %d: ", k) + d);
    }
    if (nc) ctx.nontrivial();
    ctx.cls(strf("comments %s", nc == 0 ? "0" : nc < 5 ? "1-4" : "5+"));
    classes(ctx, x);
}
PROPERTY("C06", ranges, 3) {
    Opts o; o.depth = (int)src.below(4); o.wild = src.chance(1, 2); o.longnames = src.chance(1, 10);
    G g(src, o); Layout l; Style st = style(src);
    if (src.chance(1, 6)) l.src = std::string(src.below(1100), src.coin() ? ' ' : '\n');
    TP x = make(src, g, st, l, src.coin());
    if (src.coin()) l.src += gap(src, st, false, false, true, l.src.size(), &l.comments, l.src.back());
    ctx.text(l.src.size() > 3000 ? l.src.substr(0, 3000) : l.src);
    Lines ln(l.src);
    if (g.t.size() > 4) ctx.nontrivial();
    ctx.cls(ln.starts.size() > 1 ? "several lines" : "one line"); classes(ctx, x);
    One p; parse(l.src, 0, p);
    expect_clean(ctx, p, 1);
    std::string d = compare(x, p.v.directives[0], l, g.text_alias, C_RANGES);
    if (d.empty()) d = check_comments(p.v.roots, l);
    if (d.empty()) d = structure(p.v.roots, l.src, 0, l.src.size());
    if (!d.empty()) ctx.fail(d);
}
// A small statement with a node of some type in it, with something at each place in turn where layout may be
namespace {
void each_gap(Src &src, Ctx &ctx, int flags) {
    Opts o; o.wild = src.chance(1, 3); TP x;
    auto g = statement_of(src, o, (int)src.below((uint32_t)specs().size()), x);
    if (src.coin()) { g->semicolon(); TP b = fv(x, "body").k[0]; x->tok1 = (int)g->t.size(); if (!strcmp(specs()[b->spec].name, "QUERY")) b->tok1 = x->tok1; }
    if (g->ambiguous() || g->t.size() > (ctx.tier ? 100u : 50u)) throw pbt::Discard();
    Style st; st.mode = (int)src.below(2); Layout base; lay(src, g->t, st, base);
    ctx.text(base.src); ctx.nontrivial(); classes(ctx, x);
    auto check = [&](const Layout &l) {
        One p; parse(l.src, 0, p);
        std::string d;
        if (!p.v.errs.empty()) d = "valid text reported an error: " + dump_err(p.v.errs[0]);
        else if (p.v.directives.size() != 1) d = strf("%zu directives", p.v.directives.size());
        else if (!p.pr.empty()) d = p.pr[0];
        else d = compare(x, p.v.directives[0], l, g->text_alias, flags);
        if (d.empty()) d = check_comments(p.v.roots, l);
        if (!d.empty()) ctx.fail(pbt::quote(l.src) + ": " + d);
    };
    check(base);
    static const char *const W[] = {"\n", "\r\n", "\t", " ", "\n\n", " \t\n"};
    for (size_t k = 0; k <= g->t.size(); k++) {
        if (k && k < g->t.size() && g->t[k].gap == 2) continue;
        if (k == g->t.size() && k && g->t[k - 1].ws_after) continue;
        for (unsigned w = 0; w < 3; w++) {
            size_t at = k < g->t.size() ? base.b[k] : base.src.size();
            std::string c = w == 0 ? std::string(src.pick(W)) : w == 1 ? "/* c */" : src.coin() ? "// c\n" : "//\r\n";
            Layout l = base;
            if (w && at && base.src[at - 1] == '/') c = " " + c;
            l.src.insert(at, c);
            for (size_t j = k; j < l.b.size(); j++) { l.b[j] += c.size(); l.e[j] += c.size(); }
            if (w) { size_t s = at + c.find('/') + 2; Cmt m{w == 2, s, w == 1 ? s + 3 : at + c.find_first_of("\r\n")}; auto i = l.comments.begin(); while (i != l.comments.end() && i->b < at) ++i; for (auto j = i; j != l.comments.end(); ++j) { j->b += c.size(); j->e += c.size(); } l.comments.insert(i, m); }
            check(l);
        }
    }
    ctx.cls(strf("%zu places", g->t.size() / 10 * 10));
}
}
PROPERTY("C05", each_gap, 1) { each_gap(src, ctx, 0); }
PROPERTY("C06", each_gap_range, 1) { each_gap(src, ctx, C_RANGES); }
