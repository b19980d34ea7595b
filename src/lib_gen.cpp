#include "gen.hpp"
#include <algorithm>
#include <cctype>
#include <climits>

namespace gg {
using pbt::strf;

static std::string upper(std::string s) { for (auto &c : s) c = (char)toupper((unsigned char)c); return s; }
bool is_reserved(const std::string &w) {
    static const std::set<std::string> r = {
        "TRUE","FALSE","NULL","NOT","AND","OR","XOR","IN","IS","STARTS","ENDS","CONTAINS","AS","ASC","ASCENDING","DESC","DESCENDING",
        "ORDER","BY","SKIP","LIMIT","WHERE","WITH","RETURN","MATCH","OPTIONAL","DISTINCT","CASE","WHEN","THEN","ELSE","END","FILTER","EXTRACT",
        "REDUCE","ALL","ANY","NONE","SINGLE","SHORTESTPATH","ALLSHORTESTPATHS","ON","USING","UNION","CALL","YIELD","CREATE","SET","DELETE",
        "DETACH","REMOVE","FOREACH","LOAD","CSV","START","NODE","RELATIONSHIP","REL","MERGE","UNWIND","ASSERT","DROP","CYPHER","PROFILE",
        "EXPLAIN","FIELDTERMINATOR","FROM","HEADERS","INDEX","JOIN","SCAN","UNIQUE","CONSTRAINT","PERIODIC","COMMIT"};
    return r.count(upper(w)) > 0;
}
static bool wordc(char c) { return isalnum((unsigned char)c) || c == '_' || c == '$'; }
static bool plain(const std::string &s) {
    if (s.empty() || !(isalpha((unsigned char)s[0]) || s[0] == '_')) return false;
    for (char c : s) if (!wordc(c)) return false;
    return true;
}
bool ends_like_float(const std::string &s) { return !s.empty() && isdigit((unsigned char)s[0]); }

// ---------------------------------------------------------------- trees

static const char *const NAMES[] = {"a", "b", "n", "m", "x", "foo", "Bar", "_", "_1", "name9", "a$b", "order1", "inx", "or_", "andy", "notx", "nullx", "true1",
    "asc_", "desc$", "endx", "whenx", "setx", "returns", "matching", "with_", "xorx", "isx", "starts1", "contains_", "asx", "all1", "none_", "nodes", "rel_", "casex",
    "countx", "e1", "E5", "x0", "limitx", "skip1", "dropx", "unionx", "onx", "u", "distinctx"};

// lengths around the sizes of the parser's buffers
static size_t edge_len(pbt::Src &src) {
    static const int B[] = {256, 512, 1024, 2048, 3072, 4096};
    return (size_t)(src.pick(B) + src.range(-3, 3) - (int)src.below(2) * src.range(0, 60));
}
std::string G::name(bool) {
    if (o.longnames && big > 0 && src.chance(1, 4)) {
        big--;
        size_t n = edge_len(src); bool w = src.coin(); std::string s = w ? "" : "n"; uint64_t r = src.u64();
        while (s.size() < n) { r = r * 6364136223846793005ull + 1442695040888963407ull; unsigned q = (unsigned)(r >> 40); char c = w ? (char)(1 + q % 255) : "abcXYZ019_$"[q % 11]; s += c == '`' ? '.' : c; }
        return s;
    }
    unsigned k = src.below(12);
    if (k < 6) return NAMES[src.below(10)];
    if (k < 9) return NAMES[src.below(sizeof NAMES / sizeof *NAMES)];
    if (k < 10 || !o.wild) {
        std::string s(1, "abcXYZ_"[src.below(7)]);
        unsigned n = src.len(300, 5);
        for (unsigned i = 0; i < n; i++) s += "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_$"[src.below(64)];
        return is_reserved(s) ? s + "_" : s;
    }
    static const char *const W[] = {"", " ", "two words", "a\nb", "a\r\nb", "\n", "select", "match", "a;b", "'", "\"", "//c", "/*", "*/", "\\", "\\n", "\xc3\xa9t\xc3\xa9",
        "\xff\xfe", "1st", "a.b", "$", ":x", "\t", "return x;", "NULL", "(a)-->(b)", "\r", "x\n\n\ny", "a`"};
    if (src.coin()) { std::string s = W[src.below(sizeof W / sizeof *W - 1)]; return s; }
    std::string s;
    unsigned n = src.len(200, 6);
    for (unsigned i = 0; i < n; i++) { char c = (char)(1 + src.below(255)); s += c == '`' ? '\'' : c; }
    return s;
}
TP G::named(const char *type) { TP x = mk(type); fv(x, "text").s = name(); return x; }
TP G::ident() { return named("IDENTIFIER"); }
TP G::dotted(const char *type) {
    TP x = mk(type);
    std::vector<std::string> ps;
    unsigned n = 1 + src.few(4);
    std::string v;
    for (unsigned i = 0; i < n; i++) { ps.push_back(name()); if (i) v += "."; v += ps.back(); }
    fv(x, "text").s = v;
    dotparts[x.get()] = ps;
    return x;
}
TP G::string_() {
    TP x = mk("STRING");
    std::string &s = fv(x, "text").s;
    if (o.longnames && big > 0 && src.coin()) {
        big--;
        size_t n = edge_len(src); uint64_t r = src.u64();
        while (s.size() < n) { r = r * 6364136223846793005ull + 1442695040888963407ull; unsigned q = (unsigned)(r >> 40); s += q & 1 ? (char)(1 + q / 2 % 255) : "\\'\"\n\r\tab"[q / 2 % 8]; }
        return x;
    }
    unsigned k = src.below(8);
    if (k < 3) s = "abc";
    else if (k < 5) s = name();
    else {
        unsigned n = src.len(o.wild ? 3000 : 40, 8);
        for (unsigned i = 0; i < n; i++) {
            static const char P[] = "\\'\"\n\r\t\a\b\f\v?;ab/*. `";
            s += src.below(3) ? P[src.below(sizeof P - 1)] : o.wild ? (char)(1 + src.below(255)) : 'z';
        }
    }
    return x;
}
TP G::integer() {
    TP x = mk("INTEGER");
    std::string &s = fv(x, "text").s;
    switch (src.below(6)) {
    case 0: s = "1"; break;
    case 1: s = strf("%u", src.below(1000)); break;
    case 2: s = strf("0x%X", src.below(70000)); break;
    case 3: s = strf("0%o", src.below(500)); break;
    case 4: { unsigned n = 1 + src.len(60, 12); for (unsigned i = 0; i < n; i++) s += (char)('0' + src.below(10)); break; }
    default: s = strf("%ux_y$", src.below(10)); break;
    }
    return x;
}
TP G::float_() {
    TP x = mk("FLOAT");
    std::string &s = fv(x, "text").s;
    auto digits = [&](unsigned lo) { std::string d; unsigned n = lo + src.len(20, 2); for (unsigned i = 0; i < n; i++) d += (char)('0' + src.below(10)); return d; };
    switch (src.below(6)) {
    case 0: s = "1.5"; break;
    case 1: s = digits(1) + "." + digits(1); break;
    case 2: s = "." + digits(1); break;
    case 3: s = digits(1) + (src.coin() ? "e" : "E") + (src.coin() ? (src.coin() ? "-" : "+") : "") + digits(1); break;
    case 4: s = digits(1) + "." + digits(0) + (src.coin() ? "e" : "E") + (src.coin() ? (src.coin() ? "-" : "+") : "") + digits(1); break;
    default: s = digits(0) + "." + digits(1) + "e" + digits(1); break;
    }
    return x;
}
TP G::param() {
    TP x = mk("PARAMETER");
    fv(x, "text").s = src.below(4) == 0 ? strf("%u", 1 + src.below(2000)) : name();
    return x;
}
TP G::leaf() {
    switch (src.below(14)) {
    case 0: case 1: case 2: case 3: case 4: return ident();
    case 5: case 6: return integer();
    case 7: return float_();
    case 8: case 9: return string_();
    case 10: return param();
    case 11: return mk("TRUE");
    case 12: return mk("FALSE");
    default: return mk("NULL");
    }
}
TP G::map(int d) {
    TP x = mk("MAP");
    unsigned n = src.len(4, 1);
    for (unsigned i = 0; i < n; i++) { fv(x, "entries").k.push_back(named("PROP_NAME")); fv(x, "entries").k.push_back(expr(d - 1)); }
    return x;
}
static const char *const INFIX[] = {"OR", "XOR", "AND", "EQUAL", "NEQUAL", "PLUS", "MINUS", "MULT", "DIV", "MOD", "POW", "REGEX", "IN", "STARTS_WITH", "ENDS_WITH", "CONTAINS"};
TP G::expr(int d) {
    if (budget > 0) budget--;
    if (d <= 0 || budget <= 0) return leaf();
    unsigned k = src.below(40);
    auto E = [&]() { return expr(d - 1); };
    auto O = [&](unsigned num, unsigned den) -> TP { return src.chance(num, den) ? expr(d - 1) : nullptr; };
    if (k < 6) return leaf();
    if (k < 14) { TP x = mk("BINARY_OPERATOR"); fv(x, "operator").s = src.pick(INFIX); fv(x, "argument1").k[0] = E(); fv(x, "argument2").k[0] = E(); return x; }
    switch (k) {
    case 14: case 15: { TP x = mk("UNARY_OPERATOR"); static const char *const U[] = {"NOT", "UNARY_MINUS", "UNARY_PLUS"}; fv(x, "operator").s = src.pick(U); fv(x, "argument").k[0] = E(); return x; }
    case 16: { TP x = mk("UNARY_OPERATOR"); fv(x, "operator").s = src.coin() ? "IS_NULL" : "IS_NOT_NULL"; fv(x, "argument").k[0] = E(); return x; }
    case 17: case 18: {
        TP x = mk("COMPARISON"); unsigned n = 1 + src.few(4); std::string ops; static const char *const C[] = {"LT", "GT", "LTE", "GTE"};
        fv(x, "arguments").k.push_back(E());
        for (unsigned i = 0; i < n; i++) { if (i) ops += " "; ops += src.pick(C); fv(x, "arguments").k.push_back(E()); }
        fv(x, "operators").s = ops; return x; }
    case 19: case 20: { TP x = mk("PROPERTY_OPERATOR"); fv(x, "expression").k[0] = E(); fv(x, "prop_name").k[0] = named("PROP_NAME"); return x; }
    case 21: { TP x = mk("SUBSCRIPT_OPERATOR"); fv(x, "expression").k[0] = E(); fv(x, "subscript").k[0] = E(); return x; }
    case 22: { TP x = mk("SLICE_OPERATOR"); fv(x, "expression").k[0] = E(); fv(x, "start").k[0] = O(2, 3); fv(x, "end").k[0] = O(2, 3); return x; }
    case 23: {
        TP x = mk("MAP_PROJECTION"); fv(x, "expression").k[0] = E(); unsigned n = src.len(4, 1);
        for (unsigned i = 0; i < n; i++) { TP e;
            switch (src.below(4)) {
            case 0: e = mk("MAP_PROJECTION_IDENTIFIER"); fv(e, "identifier").k[0] = ident(); break;
            case 1: e = mk("MAP_PROJECTION_PROPERTY"); fv(e, "prop_name").k[0] = named("PROP_NAME"); break;
            case 2: e = mk("MAP_PROJECTION_ALL_PROPERTIES"); break;
            default: e = mk("MAP_PROJECTION_LITERAL"); fv(e, "prop_name").k[0] = named("PROP_NAME"); fv(e, "expression").k[0] = E(); break;
            }
            fv(x, "selectors").k.push_back(e); }
        return x; }
    case 24: { TP x = mk("LABELS_OPERATOR"); fv(x, "expression").k[0] = E(); unsigned n = 1 + src.few(3); for (unsigned i = 0; i < n; i++) fv(x, "labels").k.push_back(named("LABEL")); return x; }
    case 25: { TP x = mk("LIST_COMPREHENSION"); fv(x, "identifier").k[0] = ident(); fv(x, "expression").k[0] = E(); fv(x, "predicate").k[0] = O(1, 2); fv(x, "eval").k[0] = O(1, 2); return x; }
    case 26: { TP x = mk("PATTERN_COMPREHENSION"); if (src.coin()) fv(x, "identifier").k[0] = ident(); fv(x, "pattern").k[0] = pattern_path(d - 1, true); fv(x, "predicate").k[0] = O(1, 2); fv(x, "eval").k[0] = E(); return x; }
    case 27: { TP x = mk("CASE"); fv(x, "expression").k[0] = O(1, 2); unsigned n = 1 + src.few(3);
        for (unsigned i = 0; i < 2 * n; i++) fv(x, "alternatives").k.push_back(E());
        fv(x, "default").k[0] = O(1, 2); return x; }
    case 28: { TP x = mk("FILTER"); fv(x, "identifier").k[0] = ident(); fv(x, "expression").k[0] = E(); fv(x, "predicate").k[0] = O(3, 4); return x; }
    case 29: { TP x = mk("EXTRACT"); fv(x, "identifier").k[0] = ident(); fv(x, "expression").k[0] = E(); fv(x, "eval").k[0] = O(3, 4); return x; }
    case 30: { TP x = mk("REDUCE"); fv(x, "accumulator").k[0] = ident(); fv(x, "init").k[0] = E(); fv(x, "identifier").k[0] = ident(); fv(x, "expression").k[0] = E(); fv(x, "eval").k[0] = O(3, 4); return x; }
    case 31: { static const char *const Q[] = {"ALL", "ANY", "SINGLE", "NONE"}; TP x = mk(src.pick(Q)); fv(x, "identifier").k[0] = ident(); fv(x, "expression").k[0] = E(); fv(x, "predicate").k[0] = O(3, 4); return x; }
    case 32: case 33: { TP x = mk("COLLECTION"); unsigned n = src.len(5, 1); for (unsigned i = 0; i < n; i++) fv(x, "elements").k.push_back(E()); return x; }
    case 34: return map(d);
    case 35: case 36: { TP x = mk("APPLY_OPERATOR"); fv(x, "func_name").k[0] = dotted("FUNCTION_NAME"); fv(x, "distinct").s = src.chance(1, 4) ? "1" : "0";
        unsigned n = src.len(5, 1); for (unsigned i = 0; i < n; i++) fv(x, "arguments").k.push_back(E()); return x; }
    case 37: { TP x = mk("APPLY_ALL_OPERATOR"); fv(x, "func_name").k[0] = dotted("FUNCTION_NAME"); fv(x, "distinct").s = src.coin() ? "1" : "0"; return x; }
    case 38: return pattern_path(d - 1, true);
    default: { TP x = mk("SHORTEST_PATH"); fv(x, "single").s = src.coin() ? "1" : "0"; fv(x, "path").k[0] = pattern_path(d - 1, src.coin()); return x; }
    }
}
TP G::node(int d) {
    TP x = mk("NODE_PATTERN");
    if (src.chance(2, 3)) fv(x, "identifier").k[0] = ident();
    unsigned n = src.few(3);
    for (unsigned i = 0; i < n; i++) fv(x, "labels").k.push_back(named("LABEL"));
    if (src.chance(1, 5)) fv(x, "properties").k[0] = src.coin() ? map(d) : param();
    return x;
}
TP G::rel(int d) {
    TP x = mk("REL_PATTERN");
    static const char *const D[] = {"out", "in", "both"};
    fv(x, "direction").s = src.pick(D);
    if (src.chance(1, 3)) return x;
    if (src.coin()) fv(x, "identifier").k[0] = ident();
    unsigned n = src.few(3);
    for (unsigned i = 0; i < n; i++) fv(x, "reltypes").k.push_back(named("RELTYPE"));
    if (src.chance(1, 3)) {
        TP r = mk("RANGE");
        switch (src.below(5)) {
        case 0: break;
        case 1: fv(r, "start").k[0] = fv(r, "end").k[0] = integer(); break;
        case 2: fv(r, "start").k[0] = integer(); break;
        case 3: fv(r, "end").k[0] = integer(); break;
        default: fv(r, "start").k[0] = integer(); fv(r, "end").k[0] = integer(); break;
        }
        fv(x, "varlength").k[0] = r;
    }
    if (src.chance(1, 5)) fv(x, "properties").k[0] = src.coin() ? map(d) : param();
    return x;
}
TP G::pattern_path(int d, bool need_rel) {
    TP x = mk("PATTERN_PATH");
    unsigned n = (need_rel ? 1 : 0) + src.few(3);
    fv(x, "elements").k.push_back(node(d));
    for (unsigned i = 0; i < n; i++) { fv(x, "elements").k.push_back(rel(d)); fv(x, "elements").k.push_back(node(d)); }
    return x;
}
TP G::pattern_part(int d) {
    TP q = pattern_path(d, false);
    if (src.chance(1, 6)) { TP s = mk("SHORTEST_PATH"); fv(s, "single").s = src.coin() ? "1" : "0"; fv(s, "path").k[0] = q; q = s; }
    if (src.chance(1, 5)) { TP s = mk("NAMED_PATH"); fv(s, "identifier").k[0] = ident(); fv(s, "path").k[0] = q; q = s; }
    return q;
}
TP G::projection(int d, int kind) {
    TP x = mk("PROJECTION");
    TP e = kind == 2 ? ident() : expr(d);
    fv(x, "expression").k[0] = e;
    if (src.coin()) fv(x, "alias").k[0] = ident();
    else if (kind == 0 && std::string(specs()[e->spec].name) != "IDENTIFIER") { TP a = mk("IDENTIFIER"); fv(x, "alias").k[0] = a; text_alias.insert(a.get()); }
    return x;
}
TP G::property_expr(int d) {
    TP x = mk("PROPERTY_OPERATOR");
    fv(x, "expression").k[0] = src.chance(1, 4) ? property_expr(d) : src.chance(1, 5) ? expr(d) : ident();
    fv(x, "prop_name").k[0] = named("PROP_NAME");
    return x;
}
TP G::set_item(int d) {
    switch (src.below(4)) {
    case 0: { TP x = mk("SET_PROPERTY"); fv(x, "property").k[0] = property_expr(d - 1); fv(x, "expression").k[0] = expr(d); return x; }
    case 1: { TP x = mk("SET_ALL_PROPERTIES"); fv(x, "identifier").k[0] = ident(); fv(x, "expression").k[0] = expr(d); return x; }
    case 2: { TP x = mk("MERGE_PROPERTIES"); fv(x, "identifier").k[0] = ident(); fv(x, "expression").k[0] = expr(d); return x; }
    default: { TP x = mk("SET_LABELS"); fv(x, "identifier").k[0] = ident(); unsigned n = 1 + src.few(3); for (unsigned i = 0; i < n; i++) fv(x, "labels").k.push_back(named("LABEL")); return x; }
    }
}
TP G::order_by(int d) {
    TP x = mk("ORDER_BY"); unsigned n = 1 + src.few(3);
    for (unsigned i = 0; i < n; i++) { TP s = mk("SORT_ITEM"); fv(s, "expression").k[0] = expr(d); fv(s, "ascending").s = src.chance(2, 3) ? "1" : "0"; fv(x, "items").k.push_back(s); }
    return x;
}
TP G::hint() {
    switch (src.below(3)) {
    case 0: { TP x = mk("USING_INDEX"); fv(x, "identifier").k[0] = ident(); fv(x, "label").k[0] = named("LABEL"); fv(x, "prop_name").k[0] = named("PROP_NAME"); return x; }
    case 1: { TP x = mk("USING_JOIN"); unsigned n = 1 + src.few(2); for (unsigned i = 0; i < n; i++) fv(x, "identifiers").k.push_back(ident()); return x; }
    default: { TP x = mk("USING_SCAN"); fv(x, "identifier").k[0] = ident(); fv(x, "label").k[0] = named("LABEL"); return x; }
    }
}
TP G::start_point(int) {
    static const char *const K[] = {"NODE_INDEX_LOOKUP", "NODE_INDEX_QUERY", "NODE_ID_LOOKUP", "ALL_NODES_SCAN", "REL_INDEX_LOOKUP", "REL_INDEX_QUERY", "REL_ID_LOOKUP", "ALL_RELS_SCAN"};
    unsigned k = src.below(8);
    TP x = mk(K[k]);
    fv(x, "identifier").k[0] = ident();
    auto lk = [&]() { return src.coin() ? string_() : param(); };
    if (k % 4 == 0) { fv(x, "index_name").k[0] = named("INDEX_NAME"); fv(x, "prop_name").k[0] = named("PROP_NAME"); fv(x, "lookup").k[0] = lk(); }
    if (k % 4 == 1) { fv(x, "index_name").k[0] = named("INDEX_NAME"); fv(x, "query").k[0] = lk(); }
    if (k % 4 == 2) { unsigned n = 1 + src.few(3); for (unsigned i = 0; i < n; i++) fv(x, "ids").k.push_back(integer()); }
    return x;
}
TP G::clause(int d, bool nested) {
    auto E = [&]() { return expr(d); };
    auto O = [&](unsigned num, unsigned den) -> TP { return src.chance(num, den) ? expr(d) : nullptr; };
    unsigned k = src.below(nested ? 14 : 15);
    switch (k) {
    case 0: case 1: {
        TP x = mk("RETURN");
        fv(x, "distinct").s = src.chance(1, 4) ? "1" : "0";
        fv(x, "include_existing").s = src.chance(1, 4) ? "1" : "0";
        unsigned n = src.len(4, 1); if (!n && fv(x, "include_existing").s == "0") n = 1;
        for (unsigned i = 0; i < n; i++) fv(x, "projections").k.push_back(projection(d, 0));
        if (src.chance(1, 4)) fv(x, "order_by").k[0] = order_by(d);
        fv(x, "skip").k[0] = O(1, 5); fv(x, "limit").k[0] = O(1, 5);
        return x; }
    case 2: {
        TP x = mk("WITH");
        fv(x, "distinct").s = src.chance(1, 4) ? "1" : "0";
        fv(x, "include_existing").s = src.chance(1, 4) ? "1" : "0";
        unsigned n = src.len(4, 1); if (!n && fv(x, "include_existing").s == "0") n = 1;
        for (unsigned i = 0; i < n; i++) fv(x, "projections").k.push_back(projection(d, 1));
        if (src.chance(1, 4)) fv(x, "order_by").k[0] = order_by(d);
        fv(x, "skip").k[0] = O(1, 5); fv(x, "limit").k[0] = O(1, 5); fv(x, "predicate").k[0] = O(1, 4);
        return x; }
    case 3: {
        TP x = mk("MATCH"); fv(x, "optional").s = src.chance(1, 3) ? "1" : "0";
        TP q = mk("PATTERN"); unsigned n = 1 + src.few(3); for (unsigned i = 0; i < n; i++) fv(q, "paths").k.push_back(pattern_part(d - 1));
        fv(x, "pattern").k[0] = q;
        n = src.few(3); for (unsigned i = 0; i < n; i++) fv(x, "hints").k.push_back(hint());
        fv(x, "predicate").k[0] = O(1, 2);
        return x; }
    case 4: { TP x = mk("UNWIND"); fv(x, "expression").k[0] = E(); fv(x, "alias").k[0] = ident(); return x; }
    case 5: { TP x = mk("MERGE"); fv(x, "path").k[0] = pattern_part(d - 1); unsigned n = src.few(3);
        for (unsigned i = 0; i < n; i++) { TP a = mk(src.coin() ? "ON_MATCH" : "ON_CREATE"); unsigned m = 1 + src.few(3); for (unsigned j = 0; j < m; j++) fv(a, "items").k.push_back(set_item(d - 1)); fv(x, "actions").k.push_back(a); }
        return x; }
    case 6: { TP x = mk("CREATE"); fv(x, "unique").s = src.chance(1, 3) ? "1" : "0"; TP q = mk("PATTERN"); unsigned n = 1 + src.few(3);
        for (unsigned i = 0; i < n; i++) fv(q, "paths").k.push_back(pattern_part(d - 1));
        fv(x, "pattern").k[0] = q; return x; }
    case 7: { TP x = mk("SET"); unsigned n = 1 + src.few(3); for (unsigned i = 0; i < n; i++) fv(x, "items").k.push_back(set_item(d)); return x; }
    case 8: { TP x = mk("DELETE"); fv(x, "detach").s = src.coin() ? "1" : "0"; unsigned n = 1 + src.few(3); for (unsigned i = 0; i < n; i++) fv(x, "expressions").k.push_back(E()); return x; }
    case 9: { TP x = mk("REMOVE"); unsigned n = 1 + src.few(3);
        for (unsigned i = 0; i < n; i++) { TP r;
            if (src.coin()) { r = mk("REMOVE_PROPERTY"); fv(r, "property").k[0] = property_expr(d - 1); }
            else { r = mk("REMOVE_LABELS"); fv(r, "identifier").k[0] = ident(); unsigned m = 1 + src.few(3); for (unsigned j = 0; j < m; j++) fv(r, "labels").k.push_back(named("LABEL")); }
            fv(x, "items").k.push_back(r); }
        return x; }
    case 10: { TP x = mk("CALL"); fv(x, "proc_name").k[0] = dotted("PROC_NAME"); unsigned n = src.len(4, 1); for (unsigned i = 0; i < n; i++) fv(x, "arguments").k.push_back(E());
        n = src.few(3); for (unsigned i = 0; i < n; i++) fv(x, "projections").k.push_back(projection(d, 2));
        fv(x, "predicate").k[0] = O(1, 4); return x; }
    case 11: { TP x = mk("LOAD_CSV"); fv(x, "with_headers").s = src.coin() ? "1" : "0"; fv(x, "url").k[0] = E(); fv(x, "identifier").k[0] = ident(); if (src.coin()) fv(x, "field_terminator").k[0] = string_(); return x; }
    case 12: { TP x = mk("START"); unsigned n = 1 + src.few(3); for (unsigned i = 0; i < n; i++) fv(x, "points").k.push_back(start_point(d)); fv(x, "predicate").k[0] = O(1, 3); return x; }
    case 13: { TP x = mk("UNION"); fv(x, "all").s = src.coin() ? "1" : "0"; return x; }
    default: { TP x = mk("FOREACH"); fv(x, "identifier").k[0] = ident(); fv(x, "expression").k[0] = E(); unsigned n = 1 + src.few(3); for (unsigned i = 0; i < n; i++) fv(x, "clauses").k.push_back(clause(d - 1, d <= 1)); return x; }
    }
}
TP G::query() {
    TP q = mk("QUERY");
    if (src.chance(1, 12)) { unsigned n = 1 + src.few(2); for (unsigned i = 0; i < n; i++) { TP u = mk("USING_PERIODIC_COMMIT"); if (src.coin()) fv(u, "limit").k[0] = integer(); fv(q, "options").k.push_back(u); } }
    unsigned n = 1 + src.len(o.clauses > 0 ? (unsigned)o.clauses - 1 : 0, 1);
    for (unsigned i = 0; i < n; i++) fv(q, "clauses").k.push_back(clause(o.depth));
    return q;
}
TP G::schema() {
    static const char *const K[] = {"CREATE_NODE_PROPS_INDEX", "DROP_NODE_PROPS_INDEX", "CREATE_NODE_PROP_CONSTRAINT", "DROP_NODE_PROP_CONSTRAINT", "CREATE_REL_PROP_CONSTRAINT", "DROP_REL_PROP_CONSTRAINT"};
    unsigned k = src.below(6);
    TP x = mk(K[k]);
    if (k < 2) { fv(x, "label").k[0] = named("LABEL"); unsigned n = 1 + src.few(3); for (unsigned i = 0; i < n; i++) fv(x, "prop_names").k.push_back(named("PROP_NAME")); }
    else {
        fv(x, "identifier").k[0] = ident();
        fv(x, "expression").k[0] = expr(o.depth);
        if (k < 4) { fv(x, "label").k[0] = named("LABEL"); fv(x, "unique").s = src.coin() ? "1" : "0"; }
        else fv(x, "reltype").k[0] = named("RELTYPE");
    }
    return x;
}
TP G::statement() {
    TP s = mk("STATEMENT");
    unsigned n = src.chance(1, 5) ? 1 + src.few(3) : 0;
    auto str = [&](const std::string &v) { TP x = mk("STRING"); fv(x, "text").s = v; return x; };
    for (unsigned i = 0; i < n; i++) {
        switch (src.below(3)) {
        case 0: fv(s, "options").k.push_back(mk("PROFILE_OPTION")); break;
        case 1: fv(s, "options").k.push_back(mk("EXPLAIN_OPTION")); break;
        default: { TP c = mk("CYPHER_OPTION"); if (src.coin()) fv(c, "version").k[0] = str(strf("%u.%u", src.below(30), src.below(100)));
            unsigned m = src.few(3);
            for (unsigned j = 0; j < m; j++) { TP q = mk("CYPHER_OPTION_PARAM"); static const char *const N[] = {"planner", "runtime", "9x", "_", "a1", "match"}; static const char *const V[] = {"cost", "x", "a.b", "\"q\"", "1", "=", "a;b", "x//", "x/*", "'", "\xc3\xa9"};
                fv(q, "name").k[0] = str(src.pick(N)); fv(q, "value").k[0] = str(src.pick(V)); fv(c, "params").k.push_back(q); }
            fv(s, "options").k.push_back(c); }
        }
    }
    fv(s, "body").k[0] = o.schema || src.chance(1, 8) ? schema() : query();
    return s;
}
static bool contains(const TP &x, int spec) {
    if (!x) return false;
    if (x->spec == spec) return true;
    for (auto &p : parts(x)) if (contains(p, spec)) return true;
    return false;
}
std::unique_ptr<G> statement_of(pbt::Src &src, Opts o, int spec, TP &out) {
    std::unique_ptr<G> g;
    for (unsigned i = 0; i < 60; i++) {
        o.schema = i % 6 == 5; o.clauses = 1 + (int)(i % 4 == 3); o.depth = 1 + (int)(i % 3 == 2);
        g.reset(new G(src, o)); out = g->statement();
        if (contains(out, spec)) break;
    }
    g->emit(out);
    return g;
}
TP statement_any(G &g) {
    if (!g.src.chance(1, 3)) return g.statement();
    int spec = (int)g.src.below((uint32_t)specs().size());
    TP x; Opts keep = g.o;
    for (unsigned i = 0; i < 30; i++) {
        g.reset(); g.o.schema = i % 6 == 5; g.o.clauses = 1 + (int)(i % 4 == 3); g.o.depth = 1 + (int)(i % 3 == 2);
        x = g.statement();
        if (contains(x, spec)) break;
    }
    g.o = keep;
    return x;
}

// ---------------------------------------------------------------- tokens

Tok &G::p(const std::string &s, char gap, bool pat) { Tok k; k.s = s; k.gap = gap; k.pat = pat; t.push_back(k); return t.back(); }
void G::kw(const char *words) {
    std::string w;
    for (const char *c = words;; c++) {
        if (*c == ' ' || !*c) { if (!w.empty()) { p(w).kw = true; w.clear(); } if (!*c) break; } else w += *c;
    }
}
// A name; `reserved_ok` where a keyword cannot be meant
void G::symbol(const std::string &text, char gap, bool reserved_ok) {
    bool bare = plain(text) && (reserved_ok || !is_reserved(text));
    if (bare && !src.chance(1, 8)) p(text, gap).id = true;
    else p("`" + text + "`", gap).id = true;
}
void G::write_string(const std::string &v) {
    bool dq = src.coin();
    char q = dq ? '"' : '\'';
    std::string s(1, q);
    for (size_t i = 0; i < v.size(); i++) {
        char c = v[i];
        const char *e = nullptr; bool must = false;
        switch (c) {
        case '\a': e = "\\a"; break; case '\b': e = "\\b"; break; case '\f': e = "\\f"; break; case '\n': e = "\\n"; break;
        case '\r': e = "\\r"; break; case '\t': e = "\\t"; break; case '\v': e = "\\v"; break; case '?': e = "\\?"; break;
        case '\'': e = "\\'"; must = !dq; break; case '"': e = "\\\""; must = dq; break;
        case '\\': e = "\\\\";
            // a backslash may stand for itself where no escape sequence begins
            must = i + 1 >= v.size() || strchr("abfnrtv\\'\"?", v[i + 1]) != nullptr || v[i + 1] < ' ' ;
            break;
        default: break;
        }
        if (e && (must || src.below(3))) s += e; else s += c;
    }
    s += q;
    p(s);
}
int G::prec(const TP &x) {
    std::string n = specs()[x->spec].name;
    static const std::map<std::string, int> op = {{"OR", 1}, {"XOR", 2}, {"AND", 3}, {"NOT", 4}, {"EQUAL", 5}, {"NEQUAL", 5}, {"PLUS", 7}, {"MINUS", 7}, {"MULT", 8}, {"DIV", 8}, {"MOD", 8},
        {"POW", 9}, {"UNARY_PLUS", 10}, {"UNARY_MINUS", 10}, {"REGEX", 11}, {"IN", 11}, {"STARTS_WITH", 11}, {"ENDS_WITH", 11}, {"CONTAINS", 11}, {"IS_NULL", 11}, {"IS_NOT_NULL", 11}};
    if (n == "BINARY_OPERATOR" || n == "UNARY_OPERATOR") return op.at(fv(x, "operator").s);
    if (n == "COMPARISON") return 6;
    if (n == "SUBSCRIPT_OPERATOR" || n == "SLICE_OPERATOR" || n == "MAP_PROJECTION") return 12;
    if (n == "PROPERTY_OPERATOR" || n == "LABELS_OPERATOR") return 13;
    return 100;
}
static bool is(const TP &x, const char *n) { return !strcmp(specs()[x->spec].name, n); }
static bool is_prefix(const TP &x) { if (!is(x, "UNARY_OPERATOR")) return false; const std::string &s = fv(x, "operator").s; return s == "NOT" || s == "UNARY_PLUS" || s == "UNARY_MINUS"; }
// Least precedence of the prefix operators that are open at the right edge
int G::tail(const TP &x) {
    if (is_prefix(x)) { TP a = fv(x, "argument").k[0]; int q = prec(x); return std::min(q, !is_prefix(a) && prec(a) < q ? INT_MAX : tail(a)); }
    if (is(x, "BINARY_OPERATOR")) { TP r = fv(x, "argument2").k[0]; return need_right(r, prec(x), fv(x, "operator").s == "POW") ? INT_MAX : tail(r); }
    if (is(x, "COMPARISON")) { TP r = fv(x, "arguments").k.back(); return need_right(r, 6, false) ? INT_MAX : tail(r); }
    return INT_MAX;
}
bool G::need_left(const TP &x, int q, bool rassoc, bool chain) {
    int px = prec(x);
    if (px < q || (px == q && (rassoc || chain))) return true;
    return tail(x) <= q;
}
bool G::need_right(const TP &x, int q, bool rassoc) {
    if (is_prefix(x)) return false;
    int px = prec(x);
    return rassoc ? px < q : px <= q;
}
void G::emit_expr(const TP &x, bool need) {
    unsigned extra = o.redundant && src.chance(1, 12) ? 1 + src.few(2) : 0;
    unsigned n = (need ? 1 : 0) + extra;
    if (o.full && n == 0 && prec(x) < 100) n = 1;
    for (unsigned i = 0; i < n; i++) p("(");
    emit(x);
    for (unsigned i = 0; i < n; i++) p(")");
}
void G::list(const std::vector<TP> &v, bool exprs) {
    for (size_t i = 0; i < v.size(); i++) { if (i) p(","); if (exprs) emit_expr(v[i], false); else emit(v[i]); }
}
// leftmost part of an expression, looking through operators that begin with it
static bool begins_ident_in(G &, const TP &x, const std::vector<Tok> &t, size_t at) {
    (void)x;
    return at + 1 < t.size() && (t[at].id || (t[at].kw && is_reserved(t[at].s))) && t[at + 1].kw && t[at + 1].s == "IN";
}
void G::emit(const TP &x) {
    const Spec &sp = specs()[x->spec];
    std::string n = sp.name;
    x->tok0 = (int)t.size();
    auto P = [&](const char *f) -> TP { return fv(x, f).k[0]; };
    auto L = [&](const char *f) -> std::vector<TP> & { return fv(x, f).k; };
    auto B = [&](const char *f) { return fv(x, f).s == "1"; };
    auto E = [&](const char *f) { emit_expr(P(f), false); };
    auto T = [&]() -> const std::string & { return fv(x, "text").s; };
    if (n == "IDENTIFIER") symbol(T(), 0, false);
    else if (n == "PROP_NAME" || n == "INDEX_NAME") symbol(T(), 0, true);
    else if (n == "LABEL") { p(":"); symbol(T(), 0, true); }
    else if (n == "RELTYPE") { p(":"); symbol(T(), 0, true); }      // (names after | are handled by REL_PATTERN)
    else if (n == "FUNCTION_NAME" || n == "PROC_NAME") {
        auto &ps = dotparts[x.get()];
        for (size_t i = 0; i < ps.size(); i++) { if (i) p("."); symbol(ps[i], 0, i > 0); }
    }
    else if (n == "PARAMETER") {
        const std::string &s = T();
        bool digits = !s.empty() && s[0] >= '1' && s[0] <= '9' && std::all_of(s.begin(), s.end(), [](char c) { return isdigit((unsigned char)c); });
        bool curly = src.chance(1, 3);
        p(curly ? "{" : "$");
        if (digits && src.below(4)) p(s); else symbol(s, 0, true);
        if (curly) p("}");
    }
    else if (n == "STRING") write_string(T());
    else if (n == "INTEGER" || n == "FLOAT") p(T());
    else if (n == "TRUE" || n == "FALSE" || n == "NULL") kw(n.c_str());
    else if (n == "MAP") {
        p("{"); auto &v = L("entries");
        for (size_t i = 0; i + 1 < v.size(); i += 2) { if (i) p(","); emit(v[i]); p(":"); emit_expr(v[i + 1], false); }
        p("}");
    }
    else if (n == "COLLECTION") {
        p("["); auto &v = L("elements");
        if (v.size() == 1) {
            size_t at = t.size(); std::vector<Tok> save = t;
            emit_expr(v[0], false);
            if (begins_ident_in(*this, v[0], t, at)) { t = save; p("("); emit(v[0]); p(")"); }
        } else list(v, true);
        p("]");
    }
    else if (n == "BINARY_OPERATOR") {
        const std::string &op = fv(x, "operator").s; int q = prec(x); bool ra = op == "POW";
        emit_expr(P("argument1"), need_left(P("argument1"), q, ra, false));
        static const std::map<std::string, const char *> S = {{"EQUAL", "="}, {"NEQUAL", "<>"}, {"PLUS", "+"}, {"MINUS", "-"}, {"MULT", "*"}, {"DIV", "/"}, {"MOD", "%"}, {"POW", "^"}, {"REGEX", "=~"}};
        auto it = S.find(op);
        if (it != S.end()) p(it->second);
        else kw(op == "STARTS_WITH" ? "STARTS WITH" : op == "ENDS_WITH" ? "ENDS WITH" : op.c_str());
        emit_expr(P("argument2"), need_right(P("argument2"), q, ra));
    }
    else if (n == "UNARY_OPERATOR") {
        const std::string &op = fv(x, "operator").s; TP a = P("argument");
        if (is_prefix(x)) {
            if (op == "NOT") kw("NOT"); else p(op == "UNARY_PLUS" ? "+" : "-");
            emit_expr(a, !is_prefix(a) && prec(a) < prec(x));
        } else { emit_expr(a, need_left(a, 11, false, false)); kw(op == "IS_NULL" ? "IS NULL" : "IS NOT NULL"); }
    }
    else if (n == "COMPARISON") {
        auto &v = L("arguments"); std::vector<std::string> ops; std::string w;
        for (char c : fv(x, "operators").s + " ") { if (c == ' ') { ops.push_back(w); w.clear(); } else w += c; }
        for (size_t i = 0; i < v.size(); i++) {
            if (i) { const std::string &op = ops[i - 1]; p(op == "LT" ? "<" : op == "GT" ? ">" : op == "LTE" ? "<=" : ">="); }
            bool need = i == 0 ? need_left(v[i], 6, false, true) : need_right(v[i], 6, false);
            if (!need && i + 1 < v.size() && i > 0) need = tail(v[i]) <= 6;
            emit_expr(v[i], need);
        }
    }
    else if (n == "PROPERTY_OPERATOR") {
        TP e = P("expression");
        bool target = atom_base; atom_base = target && is(e, "PROPERTY_OPERATOR");
        emit_expr(e, target ? prec(e) < 100 && !is(e, "PROPERTY_OPERATOR") : prec(e) < 13);
        atom_base = false;
        p("."); emit(P("prop_name"));
    }
    else if (n == "LABELS_OPERATOR") { TP e = P("expression"); emit_expr(e, prec(e) < 13 || is(e, "LABELS_OPERATOR")); for (auto &l : L("labels")) emit(l); }
    else if (n == "SUBSCRIPT_OPERATOR") { TP e = P("expression"); emit_expr(e, need_left(e, 12, false, false)); p("["); E("subscript"); p("]"); }
    else if (n == "SLICE_OPERATOR") { TP e = P("expression"); emit_expr(e, need_left(e, 12, false, false)); p("["); if (P("start")) E("start"); p(".."); if (P("end")) E("end"); p("]"); }
    else if (n == "MAP_PROJECTION") { TP e = P("expression"); emit_expr(e, need_left(e, 12, false, false)); p("{"); list(L("selectors"), false); p("}"); }
    else if (n == "MAP_PROJECTION_LITERAL") { emit(P("prop_name")); p(":"); E("expression"); }
    else if (n == "MAP_PROJECTION_PROPERTY") { p("."); emit(P("prop_name")); }
    else if (n == "MAP_PROJECTION_IDENTIFIER") emit(P("identifier"));
    else if (n == "MAP_PROJECTION_ALL_PROPERTIES") { p("."); p("*"); }
    else if (n == "LIST_COMPREHENSION") {
        p("["); emit(P("identifier")); kw("IN"); E("expression");
        if (P("predicate")) { kw("WHERE"); E("predicate"); }
        if (P("eval")) { p("|"); E("eval"); }
        p("]");
    }
    else if (n == "PATTERN_COMPREHENSION") {
        p("["); if (P("identifier")) { emit(P("identifier")); p("="); }
        emit(P("pattern"));
        if (P("predicate")) { kw("WHERE"); E("predicate"); }
        p("|"); E("eval"); p("]");
    }
    else if (n == "CASE") {
        kw("CASE"); if (P("expression")) E("expression");
        auto &v = L("alternatives");
        for (size_t i = 0; i + 1 < v.size(); i += 2) { kw("WHEN"); emit_expr(v[i], false); kw("THEN"); emit_expr(v[i + 1], false); }
        if (P("default")) { kw("ELSE"); E("default"); }
        kw("END");
    }
    else if (n == "FILTER" || n == "ALL" || n == "ANY" || n == "SINGLE" || n == "NONE") {
        kw(n.c_str()); p("("); emit(P("identifier")); kw("IN"); E("expression"); if (P("predicate")) { kw("WHERE"); E("predicate"); } p(")");
    }
    else if (n == "EXTRACT") { kw("EXTRACT"); p("("); emit(P("identifier")); kw("IN"); E("expression"); if (P("eval")) { p("|"); E("eval"); } p(")"); }
    else if (n == "REDUCE") {
        kw("REDUCE"); p("("); emit(P("accumulator")); p("="); E("init"); p(","); emit(P("identifier")); kw("IN"); E("expression");
        if (P("eval")) { p("|"); E("eval"); } p(")");
    }
    else if (n == "APPLY_OPERATOR") { emit(P("func_name")); p("("); if (B("distinct")) kw("DISTINCT"); list(L("arguments"), true); p(")"); }
    else if (n == "APPLY_ALL_OPERATOR") { emit(P("func_name")); p("("); if (B("distinct")) kw("DISTINCT"); p("*"); p(")"); }
    else if (n == "SHORTEST_PATH") { kw(B("single") ? "shortestPath" : "allShortestPaths"); p("("); emit(P("path")); p(")"); }
    else if (n == "NAMED_PATH") { emit(P("identifier")); p("="); emit(P("path")); }
    else if (n == "PATTERN_PATH") for (auto &e : L("elements")) emit(e);
    else if (n == "PATTERN") list(L("paths"), false);
    else if (n == "NODE_PATTERN") { p("(", 0, true); if (P("identifier")) emit(P("identifier")); for (auto &l : L("labels")) emit(l); if (P("properties")) emit(P("properties")); p(")", 0, true); }
    else if (n == "REL_PATTERN") {
        const std::string &d = fv(x, "direction").s; bool heads = d == "both" && src.chance(1, 3);
        if (d == "in" || heads) p("<", 0, true);
        p("-", 0, true);
        bool any = P("identifier") || !L("reltypes").empty() || P("varlength") || P("properties");
        if (any || src.chance(1, 4)) {
            p("[", 0, true);
            if (P("identifier")) emit(P("identifier"));
            auto &v = L("reltypes");
            for (size_t i = 0; i < v.size(); i++) {
                if (i) { p("|"); if (src.coin()) { v[i]->tok0 = (int)t.size(); symbol(fv(v[i], "text").s, 0, true); v[i]->tok1 = (int)t.size(); continue; } }
                emit(v[i]);
            }
            if (P("varlength")) emit(P("varlength"));
            if (P("properties")) emit(P("properties"));
            p("]", 0, true);
        }
        p("-", 0, true);
        if (d == "out" || heads) p(">", 0, true);
    }
    else if (n == "RANGE") {
        TP s = P("start"), e = P("end");
        p("*");
        if (s && s == e) { x->tok0 = (int)t.size(); emit(s); }
        else if (!s && !e) { if (src.coin()) p(".."); else x->tok0 = (int)t.size(); }
        else { if (s) emit(s); p(".."); if (e) emit(e); }
    }
    else if (n == "PROJECTION") {
        TP a = P("alias");
        E("expression");
        if (a && text_alias.count(a.get())) { a->tok0 = x->tok0; a->tok1 = (int)t.size(); }
        else if (a) { kw("AS"); emit(a); }
    }
    else if (n == "ORDER_BY") { kw("ORDER BY"); list(L("items"), false); }
    else if (n == "SORT_ITEM") { E("expression"); if (!B("ascending")) kw(src.coin() ? "DESC" : "DESCENDING"); else { unsigned k = src.below(3); if (k) kw(k == 1 ? "ASC" : "ASCENDING"); } }
    else if (n == "RETURN" || n == "WITH") {
        kw(n.c_str()); if (B("distinct")) kw("DISTINCT");
        if (B("include_existing")) { p("*"); if (!L("projections").empty()) p(","); }
        list(L("projections"), false);
        if (P("order_by")) emit(P("order_by"));
        if (P("skip")) { kw("SKIP"); E("skip"); }
        if (P("limit")) { kw("LIMIT"); E("limit"); }
        if (n == "WITH" && P("predicate")) { kw("WHERE"); E("predicate"); }
    }
    else if (n == "MATCH") {
        if (B("optional")) kw("OPTIONAL"); kw("MATCH"); emit(P("pattern"));
        for (auto &h : L("hints")) emit(h);
        if (P("predicate")) { kw("WHERE"); E("predicate"); }
    }
    else if (n == "USING_INDEX") { kw("USING INDEX"); emit(P("identifier")); emit(P("label")); p("("); emit(P("prop_name")); p(")"); }
    else if (n == "USING_JOIN") { kw("USING JOIN ON"); list(L("identifiers"), false); }
    else if (n == "USING_SCAN") { kw("USING SCAN"); emit(P("identifier")); emit(P("label")); }
    else if (n == "UNWIND") { kw("UNWIND"); E("expression"); kw("AS"); emit(P("alias")); }
    else if (n == "MERGE") { kw("MERGE"); emit(P("path")); for (auto &a : L("actions")) emit(a); }
    else if (n == "ON_MATCH" || n == "ON_CREATE") { kw(n == "ON_MATCH" ? "ON MATCH" : "ON CREATE"); kw("SET"); list(L("items"), false); }
    else if (n == "CREATE") { kw("CREATE"); if (B("unique")) kw("UNIQUE"); emit(P("pattern")); }
    else if (n == "SET") { kw("SET"); list(L("items"), false); }
    else if (n == "SET_PROPERTY") { atom_base = true; emit(P("property")); p("="); E("expression"); }
    else if (n == "SET_ALL_PROPERTIES") { emit(P("identifier")); p("="); E("expression"); }
    else if (n == "MERGE_PROPERTIES") { emit(P("identifier")); p("+="); E("expression"); }
    else if (n == "SET_LABELS" || n == "REMOVE_LABELS") { emit(P("identifier")); for (auto &l : L("labels")) emit(l); }
    else if (n == "REMOVE_PROPERTY") { atom_base = true; emit(P("property")); }
    else if (n == "DELETE") { if (B("detach")) kw("DETACH"); kw("DELETE"); list(L("expressions"), true); }
    else if (n == "REMOVE") { kw("REMOVE"); list(L("items"), false); }
    else if (n == "CALL") {
        kw("CALL"); emit(P("proc_name"));
        if (!L("arguments").empty() || src.coin()) { p("("); list(L("arguments"), true); p(")"); }
        if (!L("projections").empty()) { kw("YIELD"); bool r = o.redundant; o.redundant = false; list(L("projections"), false); o.redundant = r; }
        else if (src.chance(1, 3)) { kw("YIELD"); p("-"); }
        if (P("predicate")) { kw("WHERE"); E("predicate"); }
    }
    else if (n == "LOAD_CSV") {
        kw("LOAD CSV"); if (B("with_headers")) kw("WITH HEADERS"); kw("FROM"); E("url"); kw("AS"); emit(P("identifier"));
        if (P("field_terminator")) { kw("FIELDTERMINATOR"); emit(P("field_terminator")); }
    }
    else if (n == "START") { kw("START"); list(L("points"), false); if (P("predicate")) { kw("WHERE"); E("predicate"); } }
    else if (n == "NODE_INDEX_LOOKUP" || n == "REL_INDEX_LOOKUP" || n == "NODE_INDEX_QUERY" || n == "REL_INDEX_QUERY") {
        emit(P("identifier")); p("="); kw(n[0] == 'N' ? "node" : src.coin() ? "rel" : "relationship");
        p(":"); emit(P("index_name")); p("(");
        if (n.find("LOOKUP") != std::string::npos) { emit(P("prop_name")); p("="); emit(P("lookup")); } else emit(P("query"));
        p(")");
    }
    else if (n == "NODE_ID_LOOKUP" || n == "REL_ID_LOOKUP") { emit(P("identifier")); p("="); kw(n[0] == 'N' ? "node" : src.coin() ? "rel" : "relationship"); p("("); list(L("ids"), false); p(")"); }
    else if (n == "ALL_NODES_SCAN" || n == "ALL_RELS_SCAN") { emit(P("identifier")); p("="); kw(n[4] == 'N' ? "node" : src.coin() ? "rel" : "relationship"); p("("); p("*"); p(")"); }
    else if (n == "FOREACH") { kw("FOREACH"); p("("); emit(P("identifier")); kw("IN"); E("expression"); p("|"); for (auto &c : L("clauses")) emit(c); p(")"); }
    else if (n == "UNION") { kw("UNION"); if (B("all")) kw("ALL"); }
    else if (n == "QUERY") { for (auto &q : L("options")) emit(q); for (auto &c : L("clauses")) emit(c); }
    else if (n == "USING_PERIODIC_COMMIT") { kw("USING PERIODIC COMMIT"); if (P("limit")) emit(P("limit")); }
    else if (n == "CREATE_NODE_PROPS_INDEX" || n == "DROP_NODE_PROPS_INDEX") { kw(n[0] == 'C' ? "CREATE" : "DROP"); kw("INDEX ON"); emit(P("label")); p("("); list(L("prop_names"), false); p(")"); }
    else if (n == "CREATE_NODE_PROP_CONSTRAINT" || n == "DROP_NODE_PROP_CONSTRAINT") {
        kw(n[0] == 'C' ? "CREATE" : "DROP"); kw("CONSTRAINT ON"); p("("); emit(P("identifier")); emit(P("label")); p(")"); kw("ASSERT"); E("expression"); if (B("unique")) kw("IS UNIQUE");
    }
    else if (n == "CREATE_REL_PROP_CONSTRAINT" || n == "DROP_REL_PROP_CONSTRAINT") {
        kw(n[0] == 'C' ? "CREATE" : "DROP"); kw("CONSTRAINT ON"); p("(", 0, true); p(")", 0, true); if (src.coin()) p("<", 0, true); p("-", 0, true); p("[", 0, true); emit(P("identifier")); emit(P("reltype")); p("]", 0, true); p("-", 0, true); if (src.coin()) p(">", 0, true); p("(", 0, true); p(")", 0, true);
        kw("ASSERT"); E("expression");
    }
    else if (n == "STATEMENT") { for (auto &q : L("options")) emit(q); emit(P("body")); }
    else if (n == "PROFILE_OPTION") kw("PROFILE");
    else if (n == "EXPLAIN_OPTION") kw("EXPLAIN");
    else if (n == "CYPHER_OPTION") { kw("CYPHER"); if (P("version")) { TP v = P("version"); v->tok0 = (int)t.size(); p(fv(v, "text").s); v->tok1 = (int)t.size(); } for (auto &q : L("params")) emit(q); }
    else if (n == "CYPHER_OPTION_PARAM") {
        TP a = P("name"), b = P("value");
        a->tok0 = (int)t.size(); p(fv(a, "text").s); a->tok1 = (int)t.size();
        p("=");
        b->tok0 = (int)t.size(); p(fv(b, "text").s).ws_after = true; b->tok1 = (int)t.size();
    }
    else { fprintf(stderr, "cannot write %s\n", n.c_str()); abort(); }
    x->tok1 = (int)t.size();
}
bool G::ambiguous() const {
    std::vector<size_t> open;
    for (size_t i = 0; i < t.size(); i++) {
        if (t[i].s == "(") open.push_back(i);
        if (t[i].s != ")" || open.empty()) continue;
        size_t at = open.back(); open.pop_back();
        if (at > 0 && t[at - 1].id && !t[at].pat) continue;       // argument list
        if (i + 2 >= t.size() || t[i + 1].pat) continue;
        auto dash = [&](size_t k) { return t[k].s == "-" && !t[k].id; };
        if (dash(i + 1) && (dash(i + 2) || t[i + 2].s == "[")) return true;
        if (t[i + 1].s == "<" && dash(i + 2)) return true;
    }
    return false;
}

// ---------------------------------------------------------------- layout

static std::string comment_text(pbt::Src &src, bool line) {
    static const char *const W[] = {"", " c ", " a comment ", " RETURN 1; ", " 'x", " \"", " `", "; ", " // /* ", "*", "**", "/", " \xc3\xa9 ", " \xff", "\t", "x\ry"};
    std::string s;
    if (src.below(4)) s = W[src.below(sizeof W / sizeof *W)];
    else { unsigned n = src.len(120, 6); for (unsigned i = 0; i < n; i++) s += (char)(1 + src.below(255)); }
    if (!line && src.chance(1, 4)) s += src.coin() ? "\n" : "\r\n more\n\n";
    if (line) { std::string r; for (char c : s) if (c != '\n') r += c; while (!r.empty() && r.back() == '\r') r.pop_back(); s = r; }
    else { for (size_t q; (q = s.find("*/")) != std::string::npos;) s.erase(q, 1); }
    return s;
}
std::string gap(pbt::Src &src, const Style &st, bool req, bool ws_first, bool at_end, size_t at, std::vector<Cmt> *cs, char prev) {
    if (st.mode == 0) return req || ws_first || !at_end ? " " : "";
    if (st.mode == 1) return req || ws_first ? " " : "";
    std::string o;
    static const char *const WSP[] = {" ", "\n", "\t", "\r\n", "  ", " \n\n ", "\n\t"};
    unsigned n = src.below(3);
    if ((req || ws_first) && n == 0) n = 1;
    for (unsigned i = 0; i < n; i++) {
        if (st.mode >= 3 && cs && src.below(3) == 0 && !(ws_first && o.empty())) {
            bool line = src.coin();
            if (o.empty() && prev == '/') o += " ";
            std::string tx = comment_text(src, line);
            size_t b = at + o.size() + 2;
            o += (line ? "//" : "/*") + tx;
            cs->push_back({line, b, b + tx.size()});
            if (line) { if (!(at_end && i + 1 == n && src.coin())) o += src.coin() ? "\n" : "\r\n"; }
            else o += "*/";
        } else o += WSP[src.below(sizeof WSP / sizeof *WSP)];
    }
    return o;
}
void lay(pbt::Src &src, const std::vector<Tok> &t, const Style &st, Layout &l) {
    for (size_t i = 0; i < t.size(); i++) {
        std::string tok = t[i].s;
        if (t[i].kw && st.random_case && st.mode) {
            unsigned m = src.below(4);
            for (auto &c : tok) c = (char)(m == 0 ? toupper(c) : m == 1 ? tolower(c) : src.coin() ? toupper(c) : tolower(c));
        }
        if (i > 0 || !l.src.empty()) {
            char prev = l.src.empty() ? ' ' : l.src.back();
            bool first = i == 0;
            bool req = t[i].gap == 1;
            bool wsf = !first && t[i - 1].ws_after;
            if (!first && wordc(prev) && wordc(tok[0])) req = true;
            if (!first && isdigit((unsigned char)t[i - 1].s[0]) && tok[0] == '.' && tok != "..") req = true;
            if (!first && t[i - 1].s[0] == '.' && t[i - 1].s.size() > 1 && isdigit((unsigned char)t[i - 1].s[1]) && tok[0] == '.' && tok != "..") req = true;
            if (t[i].gap != 2) l.src += gap(src, st, req, wsf, false, l.src.size(), &l.comments, prev);
        } else if (st.mode >= 2) l.src += gap(src, st, false, false, false, 0, &l.comments, ' ');
        l.b.push_back(l.src.size()); if (t[i].kw) l.kw.insert(l.b.size() - 1);
        l.src += tok;
        l.e.push_back(l.src.size());
    }
}
Lines::Lines(const std::string &s) { starts.push_back(0); for (size_t i = 0; i < s.size(); i++) if (s[i] == '\n') starts.push_back(i + 1); }
struct cypher_input_position Lines::pos(size_t off) const {
    size_t k = (size_t)(std::upper_bound(starts.begin(), starts.end(), off) - starts.begin()) - 1;
    struct cypher_input_position p; p.line = (unsigned)(k + 1); p.column = (unsigned)(off - starts[k] + 1); p.offset = off;
    return p;
}
bool Lines::is(const struct cypher_input_position &p) const { auto q = pos(p.offset); return q.line == p.line && q.column == p.column; }

bool layout_only(const std::string &s) {
    size_t i = 0;
    while (i < s.size()) {
        if (s[i] == ' ' || s[i] == '\t' || s[i] == '\n') i++;
        else if (s[i] == '\r' && i + 1 < s.size() && s[i + 1] == '\n') i += 2;
        else if (s.compare(i, 2, "/*") == 0) { size_t e = s.find("*/", i + 2); if (e == std::string::npos) return false; i = e + 2; }
        else if (s.compare(i, 2, "//") == 0) { size_t e = s.find('\n', i); i = e == std::string::npos ? s.size() : e + 1; }
        else return false;
    }
    return true;
}

static std::string pstr(const struct cypher_input_position &p) { return strf("%u:%u:%zu", p.line, p.column, p.offset); }
static bool peq(const struct cypher_input_position &a, const struct cypher_input_position &b) { return a.line == b.line && a.column == b.column && a.offset == b.offset; }

static std::string cmp(const TP &w, const TP &g, const Layout &l, const Lines &ln, const std::set<const Tree *> &ta, int flags, const std::string &path) {
    if (!w && !g) return "";
    if (!w) return path + ": nothing was written, but the parser reports " + dump(g).substr(0, 300);
    if (!g) return path + ": missing in the parsed tree, written as " + dump(w).substr(0, 300);
    if (g->spec != w->spec) return path + ": written " + dump(w).substr(0, 400) + " but parsed " + dump(g).substr(0, 400);
    const Spec &s = specs()[w->spec];
    std::string here = path + "/" + s.name;
    bool alias = ta.count(w.get()) > 0;
    size_t next = (size_t)w->tok1 < l.b.size() ? l.b[w->tok1] : l.src.size();
    for (size_t i = 0; i < s.f.size(); i++) {
        const Fld &f = s.f[i]; const Val &a = w->v[i], &b = g->v[i];
        std::string fp = here + "." + f.name;
        if (f.kind == TEXT && alias) {
            size_t b0 = l.b[w->tok0], e0 = l.e[w->tok1 - 1];
            std::string t0 = l.src.substr(b0, e0 - b0);
            size_t z = t0.find('\0'); if (z != std::string::npos) t0 = t0.substr(0, z);
            if (b.s.compare(0, t0.size(), t0) != 0 || !layout_only(b.s.substr(std::min(b.s.size(), t0.size()))) || b0 + b.s.size() > next)
                return fp + ": alias made from the text " + pbt::quote(t0) + " is " + pbt::quote(b.s);
            continue;
        }
        if (f.kind == TEXT || f.kind == BOOL || f.kind == OP || f.kind == OPS || f.kind == DIR) {
            if (a.s != b.s) return fp + ": written " + pbt::quote(a.s) + " but parsed " + pbt::quote(b.s);
            continue;
        }
        if (a.k.size() != b.k.size()) return fp + strf(": %zu written but %zu parsed", a.k.size(), b.k.size()) + ": " + dump(w).substr(0, 400) + " / " + dump(g).substr(0, 400);
        for (size_t k = 0; k < a.k.size(); k++) {
            std::string r = cmp(a.k[k], b.k[k], l, ln, ta, flags, a.k.size() > 1 ? fp + strf("[%zu]", k) : fp);
            if (!r.empty()) return r;
        }
    }
    if ((flags & C_RANGES) && w->tok0 >= 0) {
        bool empty = w->tok1 <= w->tok0;
        size_t b0 = empty ? next : l.b[w->tok0], e0 = empty ? next : l.e[w->tok1 - 1];
        if (!peq(g->range.start, ln.pos(b0))) return here + ": starts at " + pstr(ln.pos(b0)) + " but reported at " + pstr(g->range.start);
        if (g->range.end.offset < e0 || g->range.end.offset > next || !ln.is(g->range.end))
            return here + ": ends at " + pstr(ln.pos(e0)) + " (next token at " + pstr(ln.pos(next)) + ") but reported to end at " + pstr(g->range.end);
    }
    return "";
}
std::string compare(const TP &want, const TP &got, const Layout &l, const std::set<const Tree *> &ta, int flags) {
    Lines ln(l.src);
    return cmp(want, got, l, ln, ta, flags, "");
}
void comments(const TP &x, std::vector<TP> &out) {
    if (x->spec >= 0 && is_a(x->spec, "COMMENT")) out.push_back(x);
    for (auto &c : x->children) comments(c, out);
}
std::string check_comments(const std::vector<TP> &roots, const Layout &l) {
    std::vector<TP> got;
    for (auto &r : roots) comments(r, got);
    Lines ln(l.src);
    for (size_t i = 0; i < std::max(got.size(), l.comments.size()); i++) {
        if (i >= got.size()) return strf("comment number %zu of %zu is missing: ", i + 1, l.comments.size()) + pbt::quote(l.src.substr(l.comments[i].b, l.comments[i].e - l.comments[i].b));
        std::string v = fv(got[i], "text").s;
        if (i >= l.comments.size()) return "a comment that was not written: " + pbt::quote(v);
        auto &c = l.comments[i];
        std::string t0 = l.src.substr(c.b, c.e - c.b);
        if (v != t0) return "comment " + pbt::quote(t0) + " is reported as " + pbt::quote(v);
        if (is(got[i], "LINE_COMMENT") != c.line) return "comment of the wrong kind: " + pbt::quote(t0);
        if (!peq(got[i]->range.start, ln.pos(c.b)) || !peq(got[i]->range.end, ln.pos(c.e)))
            return "comment " + pbt::quote(t0) + " at " + pstr(ln.pos(c.b)) + " is reported at " + range_str(got[i]->range);
    }
    return "";
}
void classes(pbt::Ctx &ctx, const TP &x) {
    std::set<std::string> seen;
    std::vector<TP> st{x};
    while (!st.empty()) { TP y = st.back(); st.pop_back(); if (!y) continue; seen.insert(specs()[y->spec].name); for (auto &k : parts(y)) st.push_back(k); }
    for (auto &s : seen) ctx.cls("has " + s);
}
}
