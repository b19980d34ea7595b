// The work of a parse, counted in executed edges and bytes handled, against the length of the input.
#include "gen.hpp"
#include "stream.hpp"
#include "nest.hpp"
#include "work.hpp"
#include <csetjmp>
#include <algorithm>
#include <memory>
#include <pthread.h>
using namespace ax;
using namespace gg;
using pbt::Src; using pbt::Ctx; using pbt::strf;

static sigjmp_buf out_of_work;
void vp::work_stop() { vp::work_on_ = false; siglongjmp(out_of_work, 1); }

namespace {
const uint64_t LIMIT = 500000000ull;
int seg_cb(void *, cypher_parse_segment_t *) { return 0; }
int qseg_cb(void *, const cypher_quick_parse_segment_t *) { return 0; }
const char *const HOW[] = {"cypher_uparse", "cypher_uparse_each", "cypher_fparse", "cypher_quick_uparse", "cypher_quick_fparse"};
struct Job { const std::string *in; unsigned how, flags; unsigned *errors; uint64_t limit, result; };
uint64_t work_here(const Job &j) {
    const std::string &in = *j.in; unsigned how = j.how, flags = j.flags;
    std::unique_ptr<InStream> st; if (how == 2 || how == 4) { st.reset(new InStream(in)); st->open(); }
    if (sigsetjmp(out_of_work, 0)) return j.limit;      // (what the parse had allocated is lost)
    vp::work_ = vp::moved_ = vp::shifted_ = 0; vp::work_limit_ = j.limit; vp::work_on_ = true;
    cypher_parse_result_t *r = nullptr;
    if (how == 0) r = cypher_uparse(in.data(), in.size(), nullptr, nullptr, flags);
    else if (how == 1) cypher_uparse_each(in.data(), in.size(), seg_cb, nullptr, nullptr, nullptr, flags);
    else if (how == 2) r = cypher_fparse(st->f, nullptr, nullptr, flags);
    else if (how == 3) cypher_quick_uparse(in.data(), in.size(), qseg_cb, nullptr, flags);
    else cypher_quick_fparse(st->f, qseg_cb, nullptr, flags);
    if (j.errors) *j.errors = r ? cypher_parse_result_nerrors(r) : 0;
    cypher_parse_result_free(r);
    vp::work_on_ = false;
    return vp::work_;
}
void on_big_stack(void *(*f)(void *), void *p) {
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, (size_t)4 << 30);
    pthread_t t;
    if (pthread_create(&t, &at, f, p)) { fprintf(stderr, "no thread\n"); abort(); }
    pthread_join(t, nullptr); pthread_attr_destroy(&at);
}
// Work units of one parse; LIMIT when it took more.  errors: how many there were.
// Runs on a big stack: how deep the parser recurses is not the question here.
uint64_t work(const std::string &in, unsigned how, unsigned flags, unsigned *errors = nullptr, uint64_t limit = LIMIT) {
    Job j{&in, how, flags, errors, limit, 0};
    on_big_stack([](void *p) -> void * { Job *j = (Job *)p; j->result = work_here(*j); return nullptr; }, &j);
    return j.result;
}
std::string toks(Src &src, G &g) { Layout l; Style st; st.mode = (int)src.below(3); lay(src, g.t, st, l); return l.src; }
std::string expr(Src &src, int depth) { Opts o; o.depth = depth; o.wild = src.coin(); G g(src, o); TP x = g.expr(depth); g.emit_expr(x, true); return toks(src, g); }
std::string stmt(Src &src, int depth) { Opts o; o.depth = depth; o.clauses = 2; o.wild = src.coin(); G g(src, o); TP x = g.statement(); g.emit(x); return toks(src, g); }
std::string clause(Src &src, int depth) { Opts o; o.depth = depth; o.wild = src.coin(); G g(src, o); TP x = g.clause(depth, false); g.emit(x); return toks(src, g); }
struct Shape { std::string kind, pre, unit, suf; };
// Things that may be repeated, valid as long as the kinds of unit are
Shape valid_shape(Src &src) {
    static const struct { const char *kind, *pre, *unit, *suf; } S[] = {
        {"list", "RETURN [1", ",$e", "];"}, {"arguments", "RETURN f(1", ",$e", ");"}, {"map", "RETURN {a:1", ",a:$e", "};"}, {"operators", "RETURN 1", "$o$e", ";"}, {"projections", "RETURN 1", ",$e AS a", ";"},
        {"comparisons", "RETURN 1", "<$e", ";"}, {"labels", "MATCH (a", ":A", ") RETURN 1;"}, {"types", "MATCH (a)-[:A", "|:B", "]-() RETURN 1;"}, {"paths", "MATCH (a)", ",(b)-[c:D {e:$e}]->(f)", " RETURN 1;"},
        {"path", "MATCH (a)", "-[b:C*1..2 {d:1}]->(e:F {g:$e})", " RETURN 1;"}, {"short path", "MATCH (a)", "-->(a)", " RETURN 1;"}, {"path in an expression", "RETURN (a)", "-->(a)", ";"}, {"set items", "MATCH (a) SET a.b=1", ",a.c=$e", ";"}, {"remove items", "MATCH (a) REMOVE a.b", ",a:B", ";"}, {"delete items", "MATCH (a) DELETE a", ",a", ";"},
        {"alternatives", "RETURN CASE", " WHEN $e THEN $e", " END;"}, {"alternatives of a value", "RETURN CASE 1", " WHEN $e THEN $e", " ELSE 1 END;"}, {"unions", "RETURN 1", " UNION RETURN $e", ";"}, {"unions of all", "RETURN 1", " UNION ALL RETURN $e", ";"},
        {"properties", "RETURN a", ".b", ";"}, {"subscripts", "RETURN a", "[$e]", ";"}, {"slices", "RETURN a", "[1..2]", ";"}, {"labels of an expression", "RETURN a", ":B", ";"}, {"foreach clauses", "FOREACH(a IN b|", " CREATE (c)", ");"}, {"sort items", "RETURN 1 ORDER BY 1", ",$e DESC", ";"},
        {"hints", "MATCH (a)", " USING INDEX a:B(c)", " RETURN 1;"}, {"joins", "MATCH (a) USING JOIN ON a", ",b", " RETURN 1;"}, {"start points", "START a=node(*)", ",b=node(1)", " RETURN 1;"}, {"ids", "START a=node(1", ",1", ") RETURN 1;"}, {"call arguments", "CALL a(1", ",$e", ");"}, {"yields", "CALL a() YIELD b", ",c AS d", " RETURN 1;"},
        {"projection entries", "RETURN a{.b", ",c:$e", "};"}, {"merge actions", "MERGE (a)", " ON CREATE SET a.b=1", ";"}, {"clauses", "RETURN 1", " $c", ";"}, {"statements", "", "$s;", ""}, {"statements of a line", "", "$s;\n", ""}, {"empty statements", "", ";", ""},
        {"commands", "", ":a b c\n", ""}, {"command arguments", ":a", " b", "\n"}, {"command quoting", ":a ", "'b'\\ ", "\n"}, {"command continuations", ":a", " \\\n b", "\n"}, {"block comments", "RETURN 1", "/* a */", ";"}, {"line comments", "RETURN 1", "// a\n", ";"}, {"block comments between", "", "/* a */\n", "RETURN 1;"}, {"line comments between", "", "// a\n", "RETURN 1;"}, {"comments before names", "RETURN a", "./* a */b", ";"},
        {"blanks", "RETURN", " ", "1;"}, {"lines", "RETURN", "\n", "1;"}, {"blank ends", "RETURN 1;", " ", ""}, {"line ends", "RETURN 1;", "\r\n", ""}, {"long name", "RETURN a", "a", ";"}, {"long quoted name", "RETURN `a", "a", "`;"}, {"escaped name", "RETURN `a", "``", "`;"}, {"long string", "RETURN 'a", "a", "';"}, {"escaped string", "RETURN 'a", "\\n", "';"}, {"quoted string", "RETURN \"a", "\\\"", "\";"}, {"lines in a string", "RETURN 'a", "\n", "';"}, {"long number", "RETURN 1", "1", ";"}, {"long float", "RETURN 1.", "1", ";"}, {"long parameter", "RETURN $a", "a", ";"},
        {"long label", "MATCH (a:A", "a", ") RETURN 1;"}, {"function name", "RETURN a", ".b", "();"}, {"long comment", "RETURN 1 /*", "a", "*/;"}, {"stars in a comment", "RETURN 1 /*", "*", "*/;"}, {"long line comment", "RETURN 1 //", "a", "\n;"}, {"slashes", "RETURN 1 //", "/", "\n;"}, {"options", "EXPLAIN", " PROFILE", " RETURN 1;"}, {"option parameters", "CYPHER", " a=b", " RETURN 1;"}, {"indexed", "CREATE INDEX ON :A(b", ",c", ");"},
        {"strings", "RETURN 'a'", "+'b'", ";"}, {"patterns to create", "CREATE (a)", ",(b {c:$e})-[:D]->(e)", ";"}, {"adding", "RETURN a", "+b", ";"}, {"and", "RETURN a", " AND $e", ";"}, {"is null", "RETURN a", " IS NULL", ";"}, {"existence", "MATCH (a) WHERE (a)-->()", " OR (a)-->()", " RETURN 1;"},
    };
    size_t k = src.below((uint32_t)(sizeof S / sizeof *S));
    Shape s; s.kind = S[k].kind; s.pre = S[k].pre; s.suf = S[k].suf;
    static const char *const OPS[] = {"+", "-", "*", "/", "%", "^", " AND ", " OR ", " XOR ", "=", "<>", "<", ">", "<=", ">=", " IN ", " STARTS WITH ", " ENDS WITH ", " CONTAINS ", "=~"};
    std::string t = S[k].unit, u;
    for (size_t i = 0; i < t.size(); i++) {
        if (t[i] != '$') { u += t[i]; continue; }
        switch (t[++i]) { case 'e': u += " " + expr(src, (int)src.below(2)); break; case 'o': u += src.pick(OPS); break; case 'c': u += " " + clause(src, 1) + " "; break; case 's': u += stmt(src, 1); break; }
    }
    s.unit = u;
    return s;
}
// Things that mean nothing together, brackets closed within
std::string soup(Src &src, int depth, unsigned most) {
    static const char *const W[] = {"a", "b", "1", "2.5", "'s'", "\"s\"", "$p", "`q`", "{p}", "*", "+", "-", "--", "-->", "<--", "=", "<", ">", "<>", "=~", ",", ".", "..", ":", "|", "/", "%", "^", ";", "\n", " ", "\t", "\r", "//c\n", "/*c*/", "'", "\"", "`", "\\", "#", "!", "&", "?", "@", "_", "\xff", "*/", "//", "/*",
        "MATCH", "OPTIONAL", "WHERE", "RETURN", "WITH", "CREATE", "MERGE", "ON", "SET", "DELETE", "DETACH", "REMOVE", "UNWIND", "AS", "ORDER", "BY", "SKIP", "LIMIT", "ASC", "DISTINCT", "UNION", "ALL", "CALL", "YIELD", "LOAD", "CSV", "FROM", "START", "node", "USING", "INDEX", "SCAN", "JOIN", "FOREACH", "IN", "AND", "OR", "XOR", "NOT", "CASE 1 WHEN 2 THEN 3 END", "WHEN", "THEN", "ELSE", "END", "IS", "NULL", "TRUE", "STARTS", "ENDS", "CONTAINS", "DROP", "CONSTRAINT", "ASSERT", "UNIQUE", "CYPHER", "PROFILE", "EXPLAIN", "shortestPath", "reduce", "filter", "exists", "count"};
    std::string s; unsigned n = 1 + src.below(most);
    for (unsigned i = 0; i < n; i++) {
        if (depth && src.chance(1, 6)) { static const char *const B[] = {"()", "[]", "{}"}; const char *b = src.pick(B); s += b[0] + soup(src, depth - 1, 3) + b[1]; }
        else s += src.pick(W);
        if (src.coin()) s += " ";
    }
    return s;
}
}

static bool opens_comment(const std::string &two, bool line = true) {
    for (size_t p = 0; p + 1 < two.size(); p++) {
        if (two.compare(p, 5, "/*c*/") == 0) p += 4;
        else if (two.compare(p, 4, "//c\n") == 0) p += 3;
        else if (two.compare(p, 2, "/*") == 0 || (line && two.compare(p, 2, "//") == 0)) return true;
    }
    return false;
}
static bool resumes(const std::string &two) {
    static const char *const K[] = {"load", "start", "match", "unwind", "merge", "create", "set", "delete", "remove", "foreach", "with", "call", "return", "drop", "cypher", "profile", "explain", "optional", "detach", "using", ":"};
    std::string l; for (char c : two) l += (char)tolower((unsigned char)c);
    for (auto k : K) if (l.find(k) != l.npos) return true;
    return false;
}
static void repeated(Src &src, Ctx &ctx, const Shape &s, unsigned how, unsigned flags, bool invalid) {
    size_t L = ctx.tier ? 6000u << src.below(4) : 3000u << src.below(4);
    auto make = [&](size_t len) { std::string t = s.pre; size_t n = len / s.unit.size() + 1; for (size_t i = 0; i < n; i++) t += s.unit; return t + s.suf; };
    ctx.text(s.kind + ": " + s.pre + " (" + s.unit + ")* " + s.suf + strf(", %zu and %zu bytes", L, 4 * L)); ctx.nontrivial();
    ctx.cls(std::string("through ") + HOW[how]);
    std::string a = make(L), b = make(4 * L);
    uint64_t wa = work(a, how, flags); wa += vp::moved_; double sa = (double)vp::shifted_ / a.size(); uint64_t wb = work(b, how, flags); wb += vp::moved_; double sb = (double)vp::shifted_ / b.size();
    double ra = (double)wa / a.size(), rb = (double)wb / b.size();
    if (rb > 1.6 * ra + 20 || wb >= LIMIT) {
        // Error recovery tries each comment, each command and each clause from where it seems to begin to where it fails (known_findings.txt)
        if (invalid && how < 3 && rb < 4.6 * ra) {
            // What was read ahead is moved up after every segment (known_findings.txt)
            if (rb - sb <= 1.6 * (ra - sa) + 20) { ctx.known("read-ahead"); return; }
            if ((!opens_comment(s.unit) && opens_comment(s.pre + s.unit)) || s.pre.find_first_of("'\"`") != s.pre.npos) { ctx.known("read-ahead"); return; }
            if (opens_comment(s.unit + s.unit, s.unit.find(';') != s.unit.npos)) { ctx.known("comment-openers"); return; }
            if (resumes(s.unit + s.unit)) { ctx.known("clause-openers"); return; }
        }
        ctx.fail(s.kind + strf(" through %s: %zu bytes take %.0f units of work each, %zu bytes %.0f each", HOW[how], a.size(), ra, b.size(), rb));
    }
}
PROPERTY("C26", repetition, 9) {
    Shape s = valid_shape(src);
    bool unfinished = src.chance(1, 5); if (unfinished) { s.suf = ""; s.kind += ", unfinished"; }
    unsigned how = src.below(5), flags = src.coin() ? CYPHER_PARSE_ONLY_STATEMENTS : 0;
    repeated(src, ctx, s, how, flags, unfinished);
}
PROPERTY("C26", nonsense, 8) {
    Shape s; s.kind = "nonsense"; unsigned how = src.below(5), flags = src.coin() ? CYPHER_PARSE_ONLY_STATEMENTS : 0;
    if (src.chance(2, 3)) { s.pre = stmt(src, 1); s.pre.resize(src.below(std::min<uint32_t>(200, (uint32_t)s.pre.size()) + 1)); if (src.coin()) s.pre += soup(src, 1, 2); }
    s.unit = soup(src, 2, 4); s.suf = src.coin() ? "" : soup(src, 1, 3);
    repeated(src, ctx, s, how, flags, true);
}
// Cloning, printing and freeing the tree of a repetition
struct TreeJob { const std::string *in; unsigned what; double work = 0, size = 0; unsigned nodes = 0; };
static void tree_work(TreeJob &j) {
    cypher_parse_result_t *r = cypher_uparse(j.in->data(), j.in->size(), nullptr, nullptr, 0);
    if (!r) return;
    unsigned n = cypher_parse_result_nroots(r); j.nodes = cypher_parse_result_nnodes(r);
    std::vector<cypher_astnode_t *> c(n);
    char *b = nullptr; size_t nb = 0; FILE *f = open_memstream(&b, &nb);
    if (j.what) for (unsigned i = 0; i < n; i++) c[i] = cypher_ast_clone(cypher_parse_result_get_root(r, i));
    vp::work_ = vp::moved_ = vp::shifted_ = 0; vp::work_limit_ = 0; vp::work_on_ = true;
    if (j.what == 0) for (unsigned i = 0; i < n; i++) c[i] = cypher_ast_clone(cypher_parse_result_get_root(r, i));
    else if (j.what == 1) cypher_parse_result_fprint_ast(r, f, 0, nullptr, 0);
    else for (unsigned i = 0; i < n; i++) { cypher_ast_free(c[i]); c[i] = nullptr; }
    vp::work_on_ = false; j.work = (double)(vp::work_ + vp::moved_);
    for (auto x : c) cypher_ast_free(x);
    fclose(f); free(b);
    j.size = j.what == 1 ? nb / 32.0 : j.nodes + j.in->size() / 64.0;      // (the indentation of deep trees is part of the text)
    cypher_parse_result_free(r);
}
PROPERTY("C26", trees, 4) {
    static const char *const WHAT[] = {"cloning", "printing", "freeing"};
    Shape s = valid_shape(src); unsigned what = src.below(3);
    size_t L = ctx.tier ? 3000u << src.below(4) : 2000u << src.below(3);
    if (what == 1) L = std::min<size_t>(L, 3000);      // (the indentation grows with the square of the depth)
    auto make = [&](size_t len) { std::string t = s.pre; size_t n = len / s.unit.size() + 1; for (size_t i = 0; i < n; i++) t += s.unit; return t + s.suf; };
    ctx.text(std::string(WHAT[what]) + " the tree of " + s.kind + ": " + s.pre + " (" + s.unit + ")* " + s.suf + strf(", %zu and %zu bytes", L, 4 * L)); ctx.nontrivial(); ctx.cls(WHAT[what]);
    double per[2]; unsigned nodes[2];
    for (int k = 0; k < 2; k++) {
        std::string in = make(k ? 4 * L : L);
        TreeJob j{&in, what};
        on_big_stack([](void *p) -> void * { tree_work(*(TreeJob *)p); return nullptr; }, &j);
        if (!j.nodes) throw pbt::Discard{};
        nodes[k] = j.nodes; per[k] = j.work / j.size;
    }
    if (per[1] > 1.6 * per[0] + 20) ctx.fail(strf("%s the tree of %s: %u nodes take %.0f units of work each, %u nodes %.0f each", WHAT[what], s.kind.c_str(), nodes[0], per[0], nodes[1], per[1]));
}
PROPERTY("C26", nesting, 6) {
    static const struct { const char *pre, *suf; } IN[] = {{"RETURN ", ";"}, {"MATCH (a {b:", "}) RETURN 1;"}, {"MATCH (a) SET a.b=", ";"}, {"MATCH (a) WHERE ", " RETURN 1;"}, {"UNWIND ", " AS x RETURN x;"}, {"CALL a(", ");"}, {"RETURN 1 ORDER BY ", ";"}, {"RETURN 1 LIMIT ", ";"}, {"FOREACH(a IN ", "| CREATE (b));"}, {"DELETE ", ";"}, {"WITH ", " AS a RETURN a;"}, {"MERGE (a)-[:B {c:", "}]->(d);"}, {"LOAD CSV FROM ", " AS a RETURN 1;"}};
    auto &in = src.pick(IN);
    bool closed = !src.chance(1, 3);
    unsigned n = closed ? 1 + src.below(3) : 1, d = 1 + src.below(ctx.tier ? 12 : 6); std::string open, close, kind;
    std::vector<size_t> which; for (size_t i = 0; i < sizeof NEST / sizeof *NEST; i++) if (closed || NEST[i].unclosed) which.push_back(i);
    for (unsigned i = 0; i < n; i++) { auto &x = NEST[src.pick(which)]; open += x.open; close = x.close + close; kind += (i ? " of " : "") + std::string(x.kind); }
    auto make = [&](unsigned n) { std::string s = in.pre; for (unsigned i = 0; i < n; i++) s += open; if (!closed) return s; s += "1"; for (unsigned i = 0; i < n; i++) s += close; return s + in.suf; };
    ctx.text(strf("%u levels of %s%s: ", d, kind.c_str(), closed ? "" : ", unclosed") + make(1)); ctx.cls(closed ? "closed" : "unclosed"); ctx.nontrivial();
    bool e = known_exponential(open + open); if (e) d = std::min(d, 3u);
    unsigned errs = 0; uint64_t a = work(make(d), 0, 0), b = work(make(d + 1), 0, 0), c = work(make(d + 2), 0, 0, &errs);
    if (closed && errs) ctx.fail(make(d + 2) + " is not accepted");
    uint64_t once = b - a, twice = c - b;
    if (e) ctx.cls("around what may be a pattern");
    if (twice > 1.1 * once + 50) {
        if (e && twice < 4.4 * once) ctx.known("nested-patterns");
        else ctx.fail(strf("level %u of %s%s takes %lu units of work, level %u %lu", d + 1, kind.c_str(), closed ? "" : ", unclosed,", once, d + 2, twice));
    }
}
// The findings recorded in known_findings.txt, each by an input of its own
PROPERTY("C26", known_cases, 1) {
    static const struct { const char *id, *pre, *unit, *suf; unsigned n; bool nested; } K[] = {
        {"comment-openers", "return $ ", "/* ", "", 150, false}, {"clause-openers", "", "+ UNWIND(a)", " a", 40, false}, {"read-ahead", "M//", ";", " a", 3000, false},
        {"nested-patterns", "RETURN ", "({a:", "1", 6, true}, {"unclosed-nesting", "RETURN ", "[x IN ", "", 6, true}};
    auto &k = src.pick(K);
    auto make = [&](unsigned n) { std::string s = k.pre; for (unsigned i = 0; i < n; i++) s += k.unit; s += k.suf; if (k.nested && *k.suf) for (unsigned i = 0; i < n; i++) s += "})"; return s; };
    ctx.text(k.id); ctx.nontrivial(); ctx.cls("known case");
    if (k.nested) { uint64_t a = work(make(k.n), 0, 0), b = work(make(k.n + 1), 0, 0), c = work(make(k.n + 2), 0, 0); if ((c - b) > 1.5 * (b - a)) ctx.known(k.id); }
    else { uint64_t a = work(make(k.n), 0, 0), b = work(make(4 * k.n), 0, 0); if (b > 1.6 * 4 * a) ctx.known(k.id); }
}
