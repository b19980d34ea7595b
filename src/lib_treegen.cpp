#include "treegen.hpp"
#include <algorithm>
namespace tg {
static const std::vector<int> &height() {
    // least height of a tree of each type
    static std::vector<int> *h = nullptr;
    if (h) return *h;
    auto &S = specs();
    h = new std::vector<int>(S.size(), 99);
    for (int round = 0; round < 12; round++)
        for (size_t i = 0; i < S.size(); i++) {
            int m = 0;
            auto least = [&](const char *types) { int b = 99; for (size_t k = 0; k < S.size(); k++) if ((*h)[k] < b && is_a_any((int)k, types)) b = (*h)[k]; return b; };
            for (auto &f : S[i].f) {
                if (f.kind == ONE || (f.kind == LIST && f.min > 0)) m = std::max(m, least(f.types) + 1);
            }
            (*h)[i] = std::min((*h)[i], std::min(m, 99));
        }
    return *h;
}
static int pick_type(pbt::Src &src, const char *types, int depth) {
    auto &S = specs(); auto &h = height();
    static std::map<std::string, std::vector<int>> cache;
    auto &all = cache[types];
    if (all.empty()) for (size_t i = 0; i < S.size(); i++) if (is_a_any((int)i, types)) all.push_back((int)i);
    int best = 99;
    for (int i : all) best = std::min(best, h[i]);
    std::vector<int> ok;
    for (int i : all) if (h[i] <= std::max(depth, best)) ok.push_back(i);
    return src.pick(ok);
}
std::string text(pbt::Src &src, bool wild) {
    static const char *const simple[] = {"a", "foo", "x1", "", "Person", "42", "0x1F", "1.5e3", "some text", "_"};
    unsigned k = src.below(10);
    if (k < 5) return src.pick(simple);
    std::string s;
    unsigned n = src.len(3000, 12);
    for (unsigned i = 0; i < n; i++) {
        unsigned q = src.below(8);
        if (q < 5 || !wild) s += "abcXYZ019_ "[src.below(11)];
        else if (q == 5) s += "'\"`\\%@\n\t\r\a\b\f\v{}[]<>"[src.below(19)];
        else { char c = (char)(9 + src.below(247)); s += c; }
    }
    return s;
}
static struct cypher_input_position pos(pbt::Src &src) {
    struct cypher_input_position p;
    p.line = 1 + src.below(3000);
    p.column = 1 + src.below(3000);
    p.offset = src.below(5) == 0 ? (size_t)src.u64() >> 20 : src.below(100000);
    return p;
}
TP gen(pbt::Src &src, int spec, const Cfg &c, int depth) {
    const Spec &s = specs()[spec];
    TP t = mk(s.name);
    if (c.ranges) { t->range.start = pos(src); t->range.end = pos(src); }
    for (size_t i = 0; i < s.f.size(); i++) {
        const Fld &f = s.f[i]; Val &v = t->v[i];
        switch (f.kind) {
        case ONE: v.k[0] = gen(src, pick_type(src, f.types, depth - 1), c, depth - 1); break;
        case OPT: if (src.coin()) v.k[0] = gen(src, pick_type(src, f.types, depth - 1), c, depth - 1); break;
        case LIST: {
            unsigned n = f.min + src.below(4);
            if (src.below(24) == 23) n += src.below(12);
            if (!strcmp(s.name, "PATTERN_PATH")) {
                n = 1 + 2 * src.below(3);
                for (unsigned k = 0; k < n; k++) v.k.push_back(gen(src, find(k % 2 ? "REL_PATTERN" : "NODE_PATTERN"), c, depth - 1));
                break;
            }
            for (unsigned k = 0; k < n; k++) v.k.push_back(gen(src, pick_type(src, f.types, depth - 1), c, depth - 1));
            break; }
        case PAIRS: {
            unsigned n = src.below(4);
            for (unsigned k = 0; k < n; k++) {
                v.k.push_back(gen(src, pick_type(src, f.types, depth - 1), c, depth - 1));
                v.k.push_back(gen(src, pick_type(src, f.types2, depth - 1), c, depth - 1));
            }
            break; }
        case BOOL: v.s = src.coin() ? "1" : "0"; break;
        case TEXT: v.s = text(src, c.wild_text); break;
        case OP: v.s = src.pick(operators()).name; break;
        case OPS: break;
        case DIR: v.s = dir_name((int)src.below(3) == 0 ? CYPHER_REL_INBOUND : src.below(2) ? CYPHER_REL_OUTBOUND : CYPHER_REL_BIDIRECTIONAL); break;
        }
    }
    if (!strcmp(s.name, "COMPARISON")) {
        Val &ops = fv(t, "operators"), &args = fv(t, "arguments");
        ops.s.clear();
        for (size_t k = 0; k + 1 < args.k.size(); k++) { if (k) ops.s += ' '; ops.s += src.pick(operators()).name; }
    }
    if ((!strcmp(s.name, "WITH") || !strcmp(s.name, "RETURN")) && fv(t, "projections").k.empty()) fv(t, "include_existing").s = "1";
    if (!strcmp(s.name, "RANGE") && fv(t, "start").k[0] && fv(t, "end").k[0] && src.coin()) fv(t, "end").k[0] = fv(t, "start").k[0];
    if (!s.terminal) {
        std::vector<TP> ch = parts(t);
        if (c.extra_children) {
            unsigned n = src.below(6) < 4 ? 0 : 1 + src.below(3);
            static const char *const ex[] = {"LINE_COMMENT", "BLOCK_COMMENT", "ERROR"};
            for (unsigned k = 0; k < n; k++) ch.insert(ch.begin() + src.below((uint32_t)ch.size() + 1), gen(src, find(ex[src.below(3)]), c, 0));
        }
        if (c.permute && src.below(3) == 2)
            for (size_t k = ch.size(); k > 1; k--) std::swap(ch[k - 1], ch[src.below((uint32_t)k)]);
        t->children = ch;
    }
    return t;
}
TP gen_any(pbt::Src &src, const Cfg &c) {
    int i = (int)src.below((uint32_t)specs().size());
    return gen(src, i, c, c.depth);
}
size_t nfields_set(const TP &t) {
    size_t n = 0;
    for (auto &v : t->v) { if (!v.s.empty() && v.s != "0") n++; for (auto &k : v.k) if (k) n++; }
    for (auto &c : t->children) n += nfields_set(c);
    return n;
}
}

namespace rm {
unsigned number(const TP &t, std::map<const Tree *, unsigned> &ord, unsigned n) {
    ord[t.get()] = n++;
    for (auto &c : t->children) n = number(c, ord, n);
    return n;
}
// Detail templates.  @f: the reference to part f.  #f: list as [@1, @2].  $f: text.
// <f:...>: if part/list/flag f is there.  <!f:...>: if it is not.  {f|sep|pre|mid}: list f, items written pre@n, separated by sep,
// for pairs pre@n mid @n.  Operators: %f.
static const std::map<std::string, const char *> &templates() {
    static const std::map<std::string, const char *> *m = nullptr;
    if (m) return *m;
    m = new std::map<std::string, const char *>{
        {"STATEMENT", "<options:options=#options, >body=@body"},
        {"CYPHER_OPTION", "<version:version=@version><params:<version:, >params=#params>"},
        {"CYPHER_OPTION_PARAM", "@name = @value"},
        {"EXPLAIN_OPTION", ""}, {"PROFILE_OPTION", ""},
        {"CREATE_NODE_PROPS_INDEX", "ON=:@label({prop_names|, |})"}, {"DROP_NODE_PROPS_INDEX", "ON=:@label({prop_names|, |})"},
        {"CREATE_NODE_PROP_CONSTRAINT", "ON=(@identifier:@label), expression=@expression<unique:, IS UNIQUE>"},
        {"DROP_NODE_PROP_CONSTRAINT", "ON=(@identifier:@label), expression=@expression<unique:, IS UNIQUE>"},
        {"CREATE_REL_PROP_CONSTRAINT", "ON=(@identifier:@reltype), expression=@expression<unique:, IS UNIQUE>"},
        {"DROP_REL_PROP_CONSTRAINT", "ON=(@identifier:@reltype), expression=@expression<unique:, IS UNIQUE>"},
        {"QUERY", "clauses=#clauses"},
        {"USING_PERIODIC_COMMIT", "<limit:limit=@limit>"},
        {"LOAD_CSV", "<with_headers:WITH HEADERS, >url=@url, identifier=@identifier<field_terminator:, field_terminator=@field_terminator>"},
        {"START", "points=#points<predicate:, WHERE=@predicate>"},
        {"NODE_INDEX_LOOKUP", "@identifier = node:@index_name(@prop_name = @lookup)"}, {"NODE_INDEX_QUERY", "@identifier = node:@index_name(@query)"},
        {"NODE_ID_LOOKUP", "@identifier = node({ids|, |})"}, {"ALL_NODES_SCAN", "identifier=@identifier"},
        {"REL_INDEX_LOOKUP", "@identifier = rel:@index_name(@prop_name = @lookup)"}, {"REL_INDEX_QUERY", "@identifier = rel:@index_name(@query)"},
        {"REL_ID_LOOKUP", "@identifier = rel({ids|, |})"}, {"ALL_RELS_SCAN", "identifier=@identifier"},
        {"MATCH", "<optional:OPTIONAL, >pattern=@pattern<hints:, hints=#hints><predicate:, where=@predicate>"},
        {"USING_INDEX", "@identifier:@label(@prop_name)"}, {"USING_JOIN", "on=#identifiers"}, {"USING_SCAN", "@identifier:@label"},
        {"MERGE", "path=@path<actions:, action#actions>"}, {"ON_MATCH", "items=#items"}, {"ON_CREATE", "items=#items"},
        {"CREATE", "<unique:UNIQUE, >pattern=@pattern"}, {"SET", "items=#items"}, {"SET_PROPERTY", "@property = @expression"},
        {"SET_ALL_PROPERTIES", "@identifier = @expression"}, {"MERGE_PROPERTIES", "@identifier += @expression"}, {"SET_LABELS", "@identifier{labels||:}"},
        {"DELETE", "<detach:DETACH, >expressions=#expressions"}, {"REMOVE", "items=#items"}, {"REMOVE_LABELS", "@identifier{labels||:}"}, {"REMOVE_PROPERTY", "prop=@property"},
        {"FOREACH", "[@identifier IN @expression | {clauses|, |}]"},
        {"WITH", "<distinct:DISTINCT, ><include_existing:*, >projections=#projections<order_by:, ORDER BY=@order_by><skip:, SKIP=@skip><limit:, LIMIT=@limit><predicate:, WHERE=@predicate>"},
        {"UNWIND", "expression=@expression, alias=@alias"},
        {"CALL", "name=@proc_name<arguments:, args=#arguments><projections:, YIELD=#projections><predicate:, WHERE=@predicate>"},
        {"RETURN", "<distinct:DISTINCT, ><include_existing:*, >projections=#projections<order_by:, ORDER BY=@order_by><skip:, SKIP=@skip><limit:, LIMIT=@limit>"},
        {"PROJECTION", "expression=@expression<alias:, alias=@alias>"}, {"ORDER_BY", "items=#items"}, {"SORT_ITEM", "expression=@expression, <ascending:ASCENDING><!ascending:DESCENDING>"},
        {"UNION", "<all:ALL>"}, {"UNARY_OPERATOR", "%operator @argument"}, {"BINARY_OPERATOR", "@argument1 %operator @argument2"}, {"COMPARISON", nullptr},
        {"APPLY_OPERATOR", "@func_name(<distinct:DISTINCT >{arguments|, |})"}, {"APPLY_ALL_OPERATOR", "@func_name(<distinct:DISTINCT >*)"},
        {"PROPERTY_OPERATOR", "@expression.@prop_name"}, {"SUBSCRIPT_OPERATOR", "@expression[@subscript]"}, {"SLICE_OPERATOR", "@expression[<start:@start>..<end:@end>]"},
        {"MAP_PROJECTION", "@expression\x01{selectors|, |}\x02"}, {"MAP_PROJECTION_LITERAL", "@prop_name: @expression"}, {"MAP_PROJECTION_PROPERTY", ".@prop_name"},
        {"MAP_PROJECTION_IDENTIFIER", "@identifier"}, {"MAP_PROJECTION_ALL_PROPERTIES", ".*"}, {"LABELS_OPERATOR", "@expression{labels||:}"},
        {"LIST_COMPREHENSION", "[@identifier IN @expression<predicate: WHERE @predicate><eval: | @eval>]"},
        {"PATTERN_COMPREHENSION", "[<identifier:@identifier = >@pattern <predicate:WHERE @predicate >| @eval]"},
        {"CASE", "<expression:expression=@expression, >alternatives=[{alternatives|, |(|:|)}]<default:, default=@default>"},
        {"FILTER", "[@identifier IN @expression<predicate: WHERE @predicate>]"}, {"EXTRACT", "[@identifier IN @expression<eval: | @eval>]"},
        {"REDUCE", "[@accumulator=@init, @identifier IN @expression<eval: | @eval>]"},
        {"ALL", "[@identifier IN @expression<predicate: WHERE @predicate>]"}, {"ANY", "[@identifier IN @expression<predicate: WHERE @predicate>]"},
        {"SINGLE", "[@identifier IN @expression<predicate: WHERE @predicate>]"}, {"NONE", "[@identifier IN @expression<predicate: WHERE @predicate>]"},
        {"COLLECTION", "#elements"}, {"MAP", "\x01{entries|, ||:|}\x02"},
        {"IDENTIFIER", "`$text`"}, {"PARAMETER", "\x03`$text`"}, {"STRING", "\"$text\""}, {"INTEGER", "$text"}, {"FLOAT", "$text"}, {"TRUE", ""}, {"FALSE", ""}, {"NULL", ""},
        {"LABEL", ":`$text`"}, {"RELTYPE", ":`$text`"}, {"PROP_NAME", "`$text`"}, {"FUNCTION_NAME", "`$text`"}, {"INDEX_NAME", "`$text`"}, {"PROC_NAME", "`$text`"},
        {"PATTERN", "paths=#paths"}, {"NAMED_PATH", "@identifier = @path"}, {"SHORTEST_PATH", "single=<single:true><!single:false>, path=@path"}, {"PATTERN_PATH", nullptr},
        {"NODE_PATTERN", "(<identifier:@identifier>{labels||:}<properties: \x01@properties\x02>)"}, {"REL_PATTERN", nullptr},
        {"RANGE", nullptr}, {"COMMAND", "name=@name, args=#arguments"}, {"LINE_COMMENT", "//$text"}, {"BLOCK_COMMENT", "/*$text*/"}, {"ERROR", "\x04\x04$text\x05\x05"},
    };
    return *m;
}
std::string op_symbol(const std::string &n) {
    static const std::map<std::string, const char *> m{{"EQUAL", "="}, {"NEQUAL", "<>"}, {"LT", "<"}, {"GT", ">"}, {"LTE", "<="}, {"GTE", ">="}, {"PLUS", "+"}, {"MINUS", "-"},
        {"MULT", "*"}, {"DIV", "/"}, {"MOD", "%"}, {"POW", "^"}, {"UNARY_PLUS", "+"}, {"UNARY_MINUS", "-"}, {"REGEX", "=~"}, {"STARTS_WITH", "STARTS WITH"}, {"ENDS_WITH", "ENDS WITH"},
        {"IS_NULL", "IS NULL"}, {"IS_NOT_NULL", "IS NOT NULL"}, {"SUBSCRIPT", "["}, {"MAP_PROJECTION", "{"}, {"PROPERTY", "."}, {"LABEL", ":"}};
    auto i = m.find(n);
    return i == m.end() ? n : i->second;
}
static const Val *field(const TP &t, const std::string &n) {
    auto &s = specs()[t->spec];
    for (size_t i = 0; i < s.f.size(); i++) if (n == s.f[i].name) return &t->v[i];
    fprintf(stderr, "template of %s: no %s\n", s.name, n.c_str());
    abort();
}
typedef std::map<const Tree *, unsigned> Ord;
static std::string ref(const TP &t, const Ord &o) { auto i = o.find(t.get()); return i == o.end() ? "@?" : pbt::strf("@%u", i->second); }
static std::string expand(const TP &t, const char *&p, const Ord &o, bool emit) {
    std::string out;
    auto word = [&]() { std::string w; while (isalnum((unsigned char)*p) || *p == '_') w += *p++; return w; };
    while (*p && *p != '>') {
        char c = *p++;
        if (c == '@') { std::string w = word(); if (emit) out += ref(field(t, w)->k[0], o); }
        else if (c == '$') { std::string w = word(); out += field(t, w)->s; }
        else if (c == '%') { std::string w = word(); out += op_symbol(field(t, w)->s); }
        else if (c == '#') { std::string w = word(); out += "["; bool first = true; for (auto &k : field(t, w)->k) { if (!first) out += ", "; first = false; out += ref(k, o); } out += "]"; }
        else if (c == '<') {
            bool neg = *p == '!'; if (neg) p++;
            std::string w = word(); p++;
            const Val *v = field(t, w);
            bool there = v->s == "1" || (!v->k.empty() && v->k[0]);
            std::string sub = expand(t, p, o, emit && there != neg);
            p++;
            if (there != neg) out += sub;
        }
        else if (c == '{') {
            std::string w = word(); std::vector<std::string> a(1);
            p++;
            while (*p != '}') { if (*p == '|') a.push_back(""); else a.back() += *p; p++; }
            p++;
            a.resize(4);
            const Val *v = field(t, w);
            bool pairs = !a[2].empty();
            for (size_t i = 0; i < v->k.size(); i += pairs ? 2 : 1) {
                if (i) out += a[0];
                out += a[1] + ref(v->k[i], o);
                if (pairs) out += a[2] + ref(v->k[i + 1], o) + a[3];
            }
        }
        else if (c == 1) out += '{'; else if (c == 2) out += '}'; else if (c == 3) out += '$'; else if (c == 4) out += '>'; else if (c == 5) out += '<';
        else out += c;
    }
    return out;
}
std::string detail(const TP &t, const Ord &o) {
    const char *name = specs()[t->spec].name;
    const char *tpl = templates().at(name);
    if (tpl) { const char *p = tpl; return expand(t, p, o, true); }
    std::string out, n = name;
    if (n == "COMPARISON") {
        std::vector<std::string> ops; std::string w;
        for (char c : fv(t, "operators").s + " ") { if (c == ' ') { if (!w.empty()) ops.push_back(w); w.clear(); } else w += c; }
        auto &a = fv(t, "arguments").k;
        for (size_t i = 0; i < a.size(); i++) { if (i) out += " " + op_symbol(ops[i - 1]) + " "; out += ref(a[i], o); }
    } else if (n == "PATTERN_PATH") {
        auto &a = fv(t, "elements").k;
        for (size_t i = 0; i < a.size(); i++) out += i % 2 ? "-[" + ref(a[i], o) + "]-" : "(" + ref(a[i], o) + ")";
    } else if (n == "REL_PATTERN") {
        out = fv(t, "direction").s == "in" ? "<-[" : "-[";
        auto id = fv(t, "identifier").k[0], vl = fv(t, "varlength").k[0], pr = fv(t, "properties").k[0];
        if (id) out += ref(id, o);
        bool first = true;
        for (auto &k : fv(t, "reltypes").k) { out += first ? ":" : "|:"; first = false; out += ref(k, o); }
        if (vl) out += "*" + ref(vl, o);
        if (pr) out += " {" + ref(pr, o) + "}";
        out += fv(t, "direction").s == "out" ? "]->" : "]-";
    } else if (n == "RANGE") {
        auto s = fv(t, "start").k[0], e = fv(t, "end").k[0];
        out = "*";
        if (s || e) out += (s ? ref(s, o) : "") + ".." + (e ? ref(e, o) : "");
    }
    return out;
}
static std::string escape(const std::string &s) {
    std::string o;
    for (char c : s) switch (c) {
        case '\a': o += "\\a"; break; case '\b': o += "\\b"; break; case '\f': o += "\\f"; break; case '\n': o += "\\n"; break;
        case '\r': o += "\\r"; break; case '\t': o += "\\t"; break; case '\v': o += "\\v"; break; default: o += c;
    }
    return o;
}
static void flat(const TP &t, int depth, std::vector<std::pair<TP, int>> &o) { o.push_back({t, depth}); for (auto &c : t->children) flat(c, depth + 1, o); }
std::string check(const std::vector<TP> &roots, const Ord &ord, const std::string &out, unsigned width) {
    std::vector<std::pair<TP, int>> nodes;
    for (auto &r : roots) flat(r, 0, nodes);
    // lines
    std::vector<std::string> lines; std::string cur;
    for (char c : out) { if (c == '\n') { lines.push_back(cur); cur.clear(); } else cur += c; }
    if (!cur.empty()) return "the output does not end with a newline";
    size_t li = 0;
    std::vector<size_t> type_cols, detail_cols;
    for (auto &nd : nodes) {
        if (li >= lines.size()) return "fewer lines than nodes";
        const std::string l = lines[li++];
        size_t p = 0;
        auto sp = [&]() { size_t q = p; while (p < l.size() && l[p] == ' ') p++; return p - q; };
        auto num = [&](unsigned long long &v) { size_t q = p; v = 0; while (p < l.size() && isdigit((unsigned char)l[p])) v = v * 10 + (l[p++] - '0'); return p > q; };
        unsigned long long v;
        auto bad = [&](const std::string &what) { return what + " in line " + pbt::quote(l, 600) + " of node " + pbt::quote(dump(nd.first, D_RANGE), 600); };
        sp();
        if (p >= l.size() || l[p++] != '@' || !num(v)) return bad("no ordinal");
        if (v != ord.at(nd.first.get())) return bad(pbt::strf("ordinal is not %u", ord.at(nd.first.get())));
        if (sp() < 1) return bad("no blank after the ordinal");
        if (!num(v) || v != nd.first->range.start.offset) return bad("wrong start offset");
        if (l.compare(p, 2, "..")) return bad("no ..");
        p += 2;
        if (!num(v) || v != nd.first->range.end.offset) return bad("wrong end offset");
        if (sp() < 1) return bad("no blank after the range");
        type_cols.push_back(p);
        for (int i = 0; i < nd.second; i++) { if (l.compare(p, 2, "> ")) return bad("wrong depth"); p += 2; }
        const char *ts = specs()[nd.first->spec].typestr;
        if (l.compare(p, strlen(ts), ts)) return bad("wrong type name");
        p += strlen(ts);
        std::string want = escape(detail(nd.first, ord));
        if (want.empty()) { if (p != l.size()) return bad("text after a type without detail"); continue; }
        if (l.size() < p + 2 || l[p] != ' ' || l[p + 1] != ' ') return bad("no separation of the detail");
        // the column at which details start: to be the same for all
        std::string got;
        size_t pad = p;
        while (p < l.size() && l[p] == ' ') p++;
        size_t lead = 0; while (lead < want.size() && want[lead] == ' ') lead++;
        // a line of nothing but blanks does not show where the detail starts: it may have been broken after any of them
        size_t first_lead = p < l.size() || !width ? lead : detail_cols.empty() ? 0 : p - std::min(p, detail_cols[0]), at = li;
        if (first_lead > lead) first_lead = lead;
        std::string err;
        for (size_t k = first_lead; k <= lead; k++) {
            size_t col = p - k; err.clear(); li = at;
            if (p - pad < 2 + k) { err = bad("no separation of the detail"); break; }
            got = l.substr(col);
            if (width) while (err.empty() && got.size() < want.size()) {
                if (li >= lines.size()) { err = bad("detail is cut short"); break; }
                const std::string &c = lines[li++];
                if (c.size() <= col || c.substr(0, col).find_first_not_of(' ') != std::string::npos) err = bad("continuation line not aligned: " + pbt::quote(c, 300));
                else if (width > col && lines[li - 2].size() > width) err = bad("line longer than the width although it was broken");
                else got += c.substr(col);
            }
            if (err.empty() && got != want) err = bad("detail is not " + pbt::quote(want, 900));
            if (err.empty()) { detail_cols.push_back(col); break; }
        }
        if (!err.empty()) return err;
    }
    if (li != lines.size()) return "more lines than nodes: " + pbt::quote(lines[li], 300);
    for (size_t c : type_cols) if (c != type_cols[0]) return "the type names do not start in one column";
    for (size_t c : detail_cols) if (c != detail_cols[0]) return "the details do not start in one column";
    return "";
}
}
