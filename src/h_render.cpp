// Printing of parsed trees, segments and results, and failing output streams.
#include "colours.hpp"
#include "gen.hpp"
#include "stream.hpp"
#include "treegen.hpp"
#include "wrap.hpp"
#include <algorithm>
#include <cerrno>
#include <functional>
#include <memory>
using namespace ax;
using namespace gg;
using pbt::Src; using pbt::Ctx; using pbt::strf;

namespace {
typedef const struct cypher_parser_colorization *Col;
typedef std::function<int(FILE *, unsigned, Col, uint_fast32_t)> Print;
const Colours COL;

std::string printed(Ctx &ctx, const std::string &what, const Print &p, unsigned width, Col col, uint_fast32_t flags) {
    char *b = nullptr; size_t n = 0; FILE *f = open_memstream(&b, &n);
    int rc = p(f, width, col, flags);
    fclose(f);
    std::string s(b, n); free(b);
    if (rc) ctx.fail(what + strf(": printing returned %d", rc));
    return s;
}
// One printing, in all ways, against the model
void all_ways(Ctx &ctx, Src &src, const std::string &what, const Print &p, const std::vector<TP> &roots, const std::map<const Tree *, unsigned> &ord) {
    std::string plain = printed(ctx, what, p, 0, nullptr, 0);
    std::string e = rm::check(roots, ord, plain, 0);
    if (!e.empty()) ctx.fail(what + ": " + e);
    unsigned width = src.coin() ? 1 + src.below(220) : 0;
    std::string wide = width ? printed(ctx, what, p, width, nullptr, 0) : plain;
    if (width) { e = rm::check(roots, ord, wide, width); if (!e.empty()) ctx.fail(what + strf(", width %u: ", width) + e); ctx.cls("width"); }
    switch (src.below(4)) {
    case 0: if (printed(ctx, what, p, width, cypher_parser_no_colorization, 0) != wide) ctx.fail(what + ": no colours differ from none"); break;
    case 1: {
        std::string c = printed(ctx, what, p, width, cypher_parser_ansi_colorization, 0), o;
        if (wide.find('\x1b') != std::string::npos) break;
        for (size_t i = 0; i < c.size();) { if (c[i] == '\x1b') { while (i < c.size() && c[i] != 'm') i++; i++; } else o += c[i++]; }
        if (o != wide) ctx.fail(what + ": without its colours it " + first_diff(wide, o));
        ctx.cls("ANSI colours");
        break; }
    case 2: {
        std::string c = printed(ctx, what, p, width, &COL.c, 0);
        if (wide.find('<') != std::string::npos) { if (COL.strip(wide) != wide || wide.find(":<") != std::string::npos || wide.find("<<") != std::string::npos) break; }
        std::string o = COL.strip(c);
        if (o != wide) ctx.fail(what + ": without its colours it " + first_diff(wide, o));
        e = COL.unpaired(c);
        if (!e.empty()) ctx.fail(what + ": " + e);
        ctx.cls("colours");
        break; }
    default: ;
    }
}
unsigned initial_ordinal(Src &src) {
    static const unsigned T[] = {9, 10, 99, 100, 999, 9999, 99999, 1000000, 99999999, 2147483647u, 2147483648u, 4294960000u};
    unsigned k = src.below(3);
    return k == 0 ? 0 : k == 1 ? src.below(1000) : src.pick(T) - src.below(8);
}
struct Keep { std::vector<cypher_parse_segment_t *> v; };
int keep(void *d, cypher_parse_segment_t *s) { cypher_parse_segment_retain(s); ((Keep *)d)->v.push_back(s); return 0; }
std::string text(Src &src, Ctx &ctx) {
    std::string k, s;
    if (src.below(3) == 0) { POpts po; po.gram.depth = (int)src.below(4); po.gram.wild = src.coin(); po.max = 30; po.typical = 3; po.empties = true; s = program(src, po).l.src; k = "program"; }
    else s = wild(src, &k);
    ctx.cls("input: " + k);
    return s;
}
}

// A parse with an initial ordinal and position, printed as result, by segment, by tree and by node
PROPERTY("C20", render_parsed, 3) {
    std::string in = text(src, ctx);
    unsigned n0 = initial_ordinal(src);
    cypher_parser_config_t *cfg = cypher_parser_new_config();
    cypher_parser_config_set_initial_ordinal(cfg, n0);
    struct cypher_input_position base = {1, 1, 0};
    if (src.coin()) { base.line = 1 + src.below(1000); base.column = 1 + src.below(1000); base.offset = (size_t)(src.u64() >> (4 + src.below(60))); cypher_parser_config_set_initial_position(cfg, base); }
    unsigned flags = src.below(4);
    bool result = src.coin();
    ctx.text(strf("ordinal %u, offset %zu, flags %u, %s: ", n0, base.offset, flags, result ? "result" : "segments") + pbt::quote(in));
    if (n0) ctx.cls("initial ordinal");
    if (in.size() > 8) ctx.nontrivial();
    std::map<const Tree *, unsigned> ord;
    std::vector<TP> roots; std::vector<const N *> nodes;
    cypher_parse_result_t *r = nullptr; Keep k;
    unsigned n = n0;
    auto take = [&](const N *root, std::vector<TP> &v) {
        if (!root) ctx.fail("a root is missing");
        TP t = extract(root); v.push_back(t); nodes.push_back(root);
        n = rm::number(t, ord, n);
    };
    if (result) {
        r = cypher_uparse(in.data(), in.size(), nullptr, cfg, flags);
        if (!r) ctx.fail("no result");
        for (unsigned i = 0; i < cypher_parse_result_nroots(r); i++) take(cypher_parse_result_get_root(r, i), roots);
        all_ways(ctx, src, "the result", [&](FILE *f, unsigned w, Col c, uint_fast32_t fl) { return cypher_parse_result_fprint_ast(r, f, w, c, fl); }, roots, ord);
    } else {
        if (cypher_uparse_each(in.data(), in.size(), keep, &k, nullptr, cfg, flags)) ctx.fail("the parse failed");
        for (size_t i = 0; i < k.v.size(); i++) {
            std::vector<TP> v;
            for (unsigned j = 0; j < cypher_parse_segment_nroots(k.v[i]); j++) take(cypher_parse_segment_get_root(k.v[i], j), v);
            auto *s = k.v[i];
            all_ways(ctx, src, strf("segment %zu", i), [&](FILE *f, unsigned w, Col c, uint_fast32_t fl) { return cypher_parse_segment_fprint_ast(s, f, w, c, fl); }, v, ord);
            roots.insert(roots.end(), v.begin(), v.end());
        }
    }
    cypher_parser_config_free(cfg);
    // one tree, and one node anywhere in it
    if (!roots.empty()) for (int x = 0; x < 2; x++) {
        TP t = roots[src.below((uint32_t)roots.size())];
        while (x && !t->children.empty() && src.below(3)) t = t->children[src.below((uint32_t)t->children.size())];
        const N *nd = t->node;
        all_ways(ctx, src, x ? "a node" : "a root", [&](FILE *f, unsigned w, Col c, uint_fast32_t fl) { return cypher_ast_fprint(nd, f, w, c, fl); }, {t}, ord);
    }
    cypher_parse_result_free(r);
    for (auto *s : k.v) cypher_parse_segment_release(s);
}

// Details about as long as the buffer they are put together in (1024 bytes, then the longest so far), ending in every way
namespace {
struct Long { const char *before, *item, *sep, *after; };
const Long LONG[] = {
    {"RETURN [", "1", ",", "]"}, {"RETURN {", "a:1", ",", "}"}, {"RETURN f(", "1", ",", ")"}, {"RETURN f(DISTINCT ", "1", ",", ")"}, {"RETURN ", "1", "<", ""}, {"RETURN ", "1", "=", " AS x"},
    {"RETURN ", "1", ",", ""}, {"RETURN DISTINCT ", "1", ",", " ORDER BY 1 SKIP 2 LIMIT 3"}, {"RETURN *, ", "1", ",", " SKIP 1"}, {"RETURN *, ", "1", ",", " LIMIT 1"}, {"RETURN DISTINCT *, ", "1", ",", " ORDER BY 2"},
    {"WITH ", "1 AS a", ",", " WHERE 1 RETURN 1"}, {"WITH DISTINCT ", "1 AS a", ",", " ORDER BY a SKIP 1 LIMIT 2 WHERE 3 RETURN 1"}, {"WITH *, ", "1 AS a", ",", " LIMIT 2 RETURN 1"}, {"RETURN 1 ORDER BY ", "1", ",", ""}, {"RETURN 1 ORDER BY ", "1 DESC", ",", " LIMIT 2"},
    {"MATCH ()", "--()", "", " RETURN 1"}, {"MATCH ", "()", ",", ""}, {"MATCH ", "()", ",", " WHERE 1"}, {"OPTIONAL MATCH ", "()", ",", ""}, {"MATCH (n) ", "USING SCAN n:L", " ", " WHERE 1"}, {"MATCH (n) ", "USING INDEX n:L(a)", " ", ""}, {"MATCH (n) USING JOIN ON ", "n", ",", ""},
    {"MATCH (n", ":L", "", ")"}, {"MATCH (", ":L", "", " {a:1})"}, {"MATCH (n", ":L", "", " $p)"}, {"MATCH ()-[r:", "A", "|", "]->()"}, {"MATCH ()<-[:", "A", "|:", "*1..2 {a:1}]-()"}, {"MATCH ()-[:", "A", "|", "*]-()"}, {"MATCH ()-[:", "A", "|", " $p]->()"},
    {"CREATE ", "()", ",", ""}, {"CREATE UNIQUE ", "()", ",", ""}, {"CREATE INDEX ON :L(", "a", ",", ")"}, {"DROP INDEX ON :L(", "a", ",", ")"}, {"CALL p(", "1", ",", ")"}, {"CALL p(", "1", ",", ") YIELD a"}, {"CALL p(1) YIELD ", "a", ",", ""}, {"CALL p YIELD ", "a AS b", ",", ""},
    {"START n=node(", "1", ",", ")"}, {"START n=rel(", "1", ",", ") WHERE 1"}, {"START ", "n=node(*)", ",", ""}, {"START ", "n=node(*)", ",", " WHERE 1"}, {"MERGE (n) ", "ON CREATE SET n.a=1", " ", ""}, {"MERGE (n) ", "ON MATCH SET n.a=1", " ", ""}, {"MERGE (n) ON CREATE SET ", "n.a=1", ",", ""}, {"MERGE (n) ON MATCH SET ", "n.a=1", ",", ""},
    {"SET ", "n.a=1", ",", ""}, {"SET n", ":L", "", ""}, {"REMOVE ", "n.a", ",", ""}, {"REMOVE n", ":L", "", ""}, {"DELETE ", "n", ",", ""}, {"DETACH DELETE ", "n", ",", ""}, {"FOREACH (x IN y | ", "SET n.a=1", " ", ")"}, {"RETURN CASE ", "WHEN 1 THEN 2", " ", " END"}, {"RETURN CASE 1 ", "WHEN 1 THEN 2", " ", " ELSE 3 END"}, {"RETURN CASE ", "WHEN 1 THEN 2", " ", " ELSE 3 END"},
    {"CYPHER ", "a=b", " ", " RETURN 1"}, {"CYPHER 2.3 ", "a=b", " ", " RETURN 1"}, {"", "EXPLAIN", " ", " RETURN 1"}, {"RETURN n{", ".a", ",", "}"}, {"RETURN n{", "a:1", ",", ", .*}"}, {"", "RETURN 1", " ", ""}, {"", "RETURN 1", " UNION ", ""}, {"USING PERIODIC COMMIT 5 ", "RETURN 1", " ", ""}, {"RETURN n", ":L", "", ""},
    {"RETURN shortestPath(()", "--()", "", ")"}, {"RETURN 1 AS `", "x", "", "`"}, {"RETURN '", "x", "", "'"}, {"RETURN $", "x", "", ""}, {"//", "x", "", "\n"}, {"/*", "\n", "", "*/"}, {"/*", "x", "", "*/"}, {":c ", "a", " ", "\n"}, {":", "c", "", "\n"}, {"RETURN ", "1", "", ""}, {"", "$ ", "", ";"}, {"", "%", "", " RETURN 1"}, {"LOAD CSV FROM '", "a", "", "' AS x"}, {"CYPHER ", "9", "", ".1 RETURN 1"},
};
size_t longest(const TP &x, const std::map<const Tree *, unsigned> &ord) { size_t m = rm::detail(x, ord).size(); for (auto &c : x->children) m = std::max(m, longest(c, ord)); return m; }
std::string longtext(const Long &l, unsigned n) { std::string s = l.before; for (unsigned i = 0; i < n; i++) { if (i) s += l.sep; s += l.item; } return s + l.after; }
}
PROPERTY("C20", long_details, 1) {
    struct One { cypher_parse_result_t *r; std::vector<TP> roots; std::map<const Tree *, unsigned> ord; size_t most; };
    unsigned n0; unsigned digits = src.below(5);
    unsigned p10 = 1; for (unsigned i = 0; i < digits; i++) p10 *= 10;
    cypher_parser_config_t *cfg = cypher_parser_new_config();
    auto parse = [&](const std::string &in, One &o) {
        cypher_parser_config_set_initial_ordinal(cfg, n0);
        o.r = cypher_uparse(in.data(), in.size(), nullptr, cfg, 0); if (!o.r) ctx.fail("no result");
        unsigned n = n0; o.most = 0;
        for (unsigned i = 0; i < cypher_parse_result_nroots(o.r); i++) { o.roots.push_back(extract(cypher_parse_result_get_root(o.r, i))); n = rm::number(o.roots.back(), o.ord, n); }
        for (auto &x : o.roots) o.most = std::max(o.most, longest(x, o.ord));
    };
    unsigned li = src.below(sizeof(LONG) / sizeof(*LONG)); const Long &l = LONG[li];
    size_t goal = 1024 + src.below(48); if (src.chance(1, 4)) goal += src.below(1500);
    static std::map<std::pair<unsigned, unsigned>, std::pair<size_t, size_t>> known;      // about how long they get
    if (!known.count({li, digits})) {
        n0 = p10 > 150 ? p10 - 75 : 0;
        One a, b; parse(longtext(l, 100), a); parse(longtext(l, 150), b);
        known[{li, digits}] = {a.most, b.most};
        cypher_parse_result_free(a.r); cypher_parse_result_free(b.r);
    }
    n0 = p10 > 150 ? p10 - src.below(150) : src.below(20);
    size_t m0 = known[{li, digits}].first, m1 = known[{li, digits}].second;
    if (m1 < m0 + 50) { cypher_parser_config_free(cfg); throw pbt::Discard(); }
    auto count = [&](size_t g) { return (unsigned)std::max(1L, 100 + ((long)g - (long)m0) * 50 / (long)(m1 - m0) - (long)src.below(4)); };
    std::string in = longtext(l, count(goal));
    // a second one, about as long as the first or longer
    if (src.chance(1, 3)) in += (l.after[0] == '\n' ? "" : ";\n") + longtext(l, count(goal + src.below(30)));
    One o; parse(in, o);
    ctx.text(in); ctx.cls(o.most < 1000 ? "<1000 bytes" : o.most < 1024 ? "1000-1023 bytes" : o.most < 1100 ? "1024-1099 bytes" : "1100+ bytes");
    if (o.most >= 1000) ctx.nontrivial();
    cypher_parser_config_free(cfg);
    auto *r = o.r;
    std::string e = rm::check(o.roots, o.ord, printed(ctx, "the result", [&](FILE *f, unsigned w, Col c, uint_fast32_t fl) { return cypher_parse_result_fprint_ast(r, f, w, c, fl); }, 0, nullptr, 0), 0);
    if (!e.empty()) ctx.fail(e);
    if (src.chance(1, 8)) all_ways(ctx, src, "the result", [&](FILE *f, unsigned w, Col c, uint_fast32_t fl) { return cypher_parse_result_fprint_ast(r, f, w, c, fl); }, o.roots, o.ord);
    cypher_parse_result_free(r);
}

// A printing that fails part-way says so
PROPERTY("C20", failing_stream, 1) {
    tg::Cfg c; TP t; cypher_parse_result_t *r = nullptr; N *root = nullptr; Keep k;
    unsigned how = src.below(3);
    std::map<const Tree *, N *> at;
    std::string in;
    if (how) { in = text(src, ctx); ctx.text(in); if (in.size() > 8) ctx.nontrivial(); }
    if (how == 2) { if (cypher_uparse_each(in.data(), in.size(), keep, &k, nullptr, nullptr, 0)) ctx.fail("the parse failed"); if (k.v.empty()) throw pbt::Discard(); }
    else if (how == 1) { r = cypher_uparse(in.data(), in.size(), nullptr, nullptr, 0); if (!r) ctx.fail("the parse failed"); }
    else { t = tg::gen_any(src, c); ctx.text(dump(t)); ctx.nontrivial(); root = build(t, at); if (!root) ctx.fail("not constructed"); }
    unsigned width = src.coin() ? src.below(160) : 0;
    Col col = src.coin() ? cypher_parser_ansi_colorization : src.coin() ? &COL.c : nullptr;
    size_t si = k.v.empty() ? 0 : src.below((uint32_t)k.v.size());
    Print p = [&](FILE *f, unsigned w, Col cl, uint_fast32_t fl) { return how == 2 ? cypher_parse_segment_fprint_ast(k.v[si], f, w, cl, fl) : how == 1 ? cypher_parse_result_fprint_ast(r, f, w, cl, fl) : cypher_ast_fprint(root, f, w, cl, fl); };
    std::string all = printed(ctx, "undisturbed", p, width, col, 0);
    // unbuffered: every failed write is seen by the call that makes it
    OutStream st; unsigned m = src.below(3);
    st.open(m ? _IONBF : _IOFBF, m ? 0 : 1 + src.below(200));
    st.fail_at = (long)src.below((uint32_t)all.size() + 1); st.fail_errno = src.coin() ? ENOSPC : EIO;
    vp::track_begin();
    errno = 0;
    int rc = p(st.f, width, col, 0), e = errno;
    bool failed = st.failed;
    size_t lost = vp::track_end();
    std::string w = strf("writing fails after %ld of %zu bytes: ", st.fail_at, all.size());
    if (m && (size_t)st.fail_at < all.size() && !failed) ctx.fail(w + "nothing more was written");
    if (failed && !rc) ctx.fail(w + "printing reported success");
    if (failed && e != st.fail_errno) ctx.fail(w + strf("errno is %d instead of %d", e, st.fail_errno));
    if (!failed && rc) ctx.fail(w + "printing failed although the stream did not");
    if (lost) ctx.fail(w + strf("%zu blocks were not freed", lost));
    if (all.compare(0, st.data.size(), st.data)) ctx.fail(w + "other text was written");
    ctx.cls(failed ? "the stream failed while printing" : "failure not reached");
    cypher_parse_result_free(r); cypher_ast_free(root);
    for (auto *s : k.v) cypher_parse_segment_release(s);
}


// ---------------------------------------------------------------- parsed trees for C15, C16, C19

namespace {
const int FULL = D_RANGE | D_CHILDREN;
void nodes_of(const N *n, std::vector<const N *> &v) { v.push_back(n); for (unsigned i = 0; i < cypher_astnode_nchildren(n); i++) nodes_of(cypher_astnode_get_child(n, i), v); }
struct Parsed {
    cypher_parse_result_t *r = nullptr; Keep k; std::vector<const N *> roots;
    Parsed(Ctx &ctx, Src &src, const std::string &in) {
        unsigned flags = src.below(4);
        if (src.coin()) {
            r = cypher_uparse(in.data(), in.size(), nullptr, nullptr, flags);
            if (!r) ctx.fail("no result");
            for (unsigned i = 0; i < cypher_parse_result_nroots(r); i++) roots.push_back(cypher_parse_result_get_root(r, i));
        } else {
            if (cypher_uparse_each(in.data(), in.size(), keep, &k, nullptr, nullptr, flags)) ctx.fail("the parse failed");
            for (auto *s : k.v) for (unsigned j = 0; j < cypher_parse_segment_nroots(s); j++) roots.push_back(cypher_parse_segment_get_root(s, j));
        }
    }
    void release() { cypher_parse_result_free(r); r = nullptr; for (auto *s : k.v) cypher_parse_segment_release(s); k.v.clear(); }
};
}
// Clones of parsed trees, and of nodes in them, outlive the parse
PROPERTY("C15", clone_parsed, 2) {
    std::string in = text(src, ctx);
    ctx.text(in); if (in.size() > 8) ctx.nontrivial();
    vp::track_begin();
    {
        Parsed p(ctx, src, in);
        std::vector<const N *> all; std::vector<std::string> before;
        for (auto *r : p.roots) { nodes_of(r, all); before.push_back(dump(extract(r), FULL)); }
        std::vector<std::pair<N *, std::string>> clones;
        std::set<const N *> own(all.begin(), all.end());
        for (int i = 0; i < 3 && !all.empty(); i++) {
            const N *n = i == 0 ? src.pick(p.roots) : src.pick(all);
            std::string want = dump(extract(n), FULL);
            N *c = cypher_ast_clone(n);
            if (!c) ctx.fail(strf("not cloned, errno %d: ", errno) + want);
            Problems q; std::string have = dump(extract(c, &q), FULL);
            if (!q.empty()) ctx.fail("the clone of " + want + ": " + q[0]);
            if (have != want) ctx.fail("the clone " + first_diff(want, have));
            std::vector<const N *> v; nodes_of(c, v);
            for (auto *x : v) if (own.count(x)) ctx.fail("the clone shares a node with the original");
            clones.push_back({c, want});
        }
        for (size_t i = 0; i < p.roots.size(); i++) if (dump(extract(p.roots[i]), FULL) != before[i]) ctx.fail("cloning changed the original");
        bool first = src.coin();
        if (first) p.release();
        for (auto &c : clones) {
            if (dump(extract(c.first), FULL) != c.second) ctx.fail("releasing the original changed the clone of " + c.second);
            if (src.coin()) { N *d = cypher_ast_clone(c.first); if (!d || dump(extract(d), FULL) != c.second) ctx.fail("the clone of the clone differs: " + c.second); cypher_ast_free(d); }
            cypher_ast_free(c.first);
        }
        if (!first) { for (size_t i = 0; i < p.roots.size(); i++) if (dump(extract(p.roots[i]), FULL) != before[i]) ctx.fail("freeing the clone changed the original"); p.release(); }
    }
    size_t lost = vp::track_end();
    if (lost) ctx.fail(strf("%zu blocks were not freed", lost));
}

// Annotations on nodes of a parse, dropped with it
namespace {
struct Drop { const void *ctx; const N *n; void *a; bool operator<(const Drop &o) const { return std::make_tuple(ctx, n, a) < std::make_tuple(o.ctx, o.n, o.a); } bool operator==(const Drop &o) const { return ctx == o.ctx && n == o.n && a == o.a; } };
std::vector<Drop> drops; std::map<const N *, int> types; bool bad_node;
void on_drop(void *ud, const cypher_astnode_t *n, void *a) { drops.push_back({ud, n, a}); if (!types.count(n) || types[n] != (int)cypher_astnode_type(n)) bad_node = true; }
}
PROPERTY("C19", annotate_parsed, 1) {
    std::string in = text(src, ctx);
    ctx.text(in);
    drops.clear(); types.clear(); bad_node = false;
    vp::track_begin();
    {
        Parsed p(ctx, src, in);
        std::vector<const N *> all;
        for (auto *r : p.roots) nodes_of(r, all);
        if (all.empty()) { p.release(); vp::track_end(); throw pbt::Discard(); }
        for (auto *n : all) types[n] = cypher_astnode_type(n);
        unsigned nc = 1 + src.below(3);
        std::vector<cypher_ast_annotation_context_t *> cs; std::vector<char> ud(nc); std::vector<bool> handled;
        for (unsigned i = 0; i < nc; i++) {
            cs.push_back(cypher_ast_annotation_context());
            if (!cs[i]) ctx.fail("no context");
            handled.push_back(src.below(4) != 0);
            if (handled[i]) cypher_ast_annotation_context_set_release_handler(cs[i], on_drop, &ud[i]);
        }
        std::map<std::pair<unsigned, const N *>, void *> m;
        char tok[64]; unsigned n = 1 + src.len(60, 8); std::string log;
        for (unsigned i = 0; i < n; i++) {
            unsigned c = src.below(nc); const N *x = src.pick(all); auto key = std::make_pair(c, x);
            if (src.below(4)) {
                void *prev = &log, *a = &tok[src.below(64)];
                if (cypher_astnode_attach_annotation(cs[c], x, a, &prev)) ctx.fail("attach failed");
                if (prev != (m.count(key) ? m[key] : nullptr)) ctx.fail("attach reports a wrong previous annotation");
                m[key] = a;
            } else {
                if (cypher_astnode_remove_annotation(cs[c], x) != (m.count(key) ? m[key] : nullptr)) ctx.fail("remove returns a wrong annotation");
                m.erase(key);
            }
        }
        for (auto *x : all) for (unsigned c = 0; c < nc; c++) { auto key = std::make_pair(c, x); if (cypher_astnode_get_annotation(cs[c], x) != (m.count(key) ? m[key] : nullptr)) ctx.fail("get returns a wrong annotation"); }
        if (m.size() >= 3) ctx.nontrivial();
        if (!drops.empty()) ctx.fail("the release handler ran while nothing was dropped");
        unsigned before = src.below(nc + 1);        // contexts freed before the parse
        std::vector<Drop> want;
        for (unsigned c = 0; c < before; c++) { for (auto &e : m) if (e.first.first == c && handled[c]) want.push_back({&ud[c], e.first.second, e.second}); cypher_ast_annotation_context_free(cs[c]); }
        std::sort(want.begin(), want.end()); std::sort(drops.begin(), drops.end());
        if (!(want == drops)) ctx.fail(strf("freeing contexts ran the release handler %zu times instead of %zu, or for others", drops.size(), want.size()));
        drops.clear(); want.clear();
        p.release();
        for (auto &e : m) if (e.first.first >= before && handled[e.first.first]) want.push_back({&ud[e.first.first], e.first.second, e.second});
        std::sort(want.begin(), want.end()); std::sort(drops.begin(), drops.end());
        if (!(want == drops)) ctx.fail(strf("freeing the parse ran the release handler %zu times instead of %zu, or for others", drops.size(), want.size()));
        if (bad_node) ctx.fail("the release handler got a node that was not intact");
        drops.clear();
        for (unsigned c = before; c < nc; c++) cypher_ast_annotation_context_free(cs[c]);
        if (!drops.empty()) ctx.fail("the release handler ran again");
        ctx.cls(before ? before == nc ? "contexts freed first" : "contexts freed first and last" : "contexts freed last");
    }
    size_t lost = vp::track_end();
    if (lost) ctx.fail(strf("%zu blocks were not freed", lost));
}
