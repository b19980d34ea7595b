// Any input at all: memory safety, well-formed trees, error reports and their locality.
#include "colours.hpp"
#include "gen.hpp"
#include "lang.hpp"
#include "nest.hpp"
#include "stream.hpp"
#include "wrap.hpp"
#include <algorithm>
#include <cctype>
#include <cerrno>
#include <memory>
#include <sys/wait.h>
#include <unistd.h>
using namespace ax;
using namespace gg;
using pbt::Src; using pbt::Ctx; using pbt::strf;

namespace {
const int FULL = D_RANGE | D_CHILDREN;
bool is(const TP &x, const char *n) { return x && x->spec >= 0 && !strcmp(specs()[x->spec].name, n); }

std::string random_bytes(Src &src) {
    std::string s; unsigned n = src.len(300, 30);
    unsigned k = src.below(3);
    static const char A[] = "abcnRETURNreturn MATCHWHERE()[]{}<>-+*/^%=!~.,;:|$`'\"\\0123456789eExX_\n\r\t@#&?";
    for (unsigned i = 0; i < n; i++) s += k == 0 ? (char)src.below(256) : k == 1 ? A[src.below(sizeof A - 1)] : (char)(src.below(4) ? A[src.below(sizeof A - 1)] : src.below(256));
    return tame(s, 6);
}
std::string input(Src &src, Ctx &ctx) {
    std::string k, s;
    if (src.below(5) == 0) { k = "bytes"; s = random_bytes(src); } else s = wild(src, &k);
    ctx.cls("input: " + k);
    ctx.text(s); if (s.size() > 8) ctx.nontrivial();
    return s;
}

struct Walk { std::string out; };
// Looks at everything there is
void inspect(Ctx &ctx, Src &src, const std::vector<const cypher_astnode_t *> &roots) {
    for (auto *r : roots) {
        Problems p; TP x = extract(r, &p);
        if (!p.empty()) ctx.fail("ill-formed tree: " + p[0]);
        unsigned k = src.below(4);
        std::string t = render(r, k == 1 ? src.below(200) : 0, k == 2 ? cypher_parser_ansi_colorization : nullptr);
        if (t.empty()) ctx.fail("nothing was rendered");
        if (src.below(3) == 0) {
            cypher_astnode_t *c = cypher_ast_clone(r);
            if (!c) ctx.fail("not cloned");
            Problems q; TP y = extract(c, &q);
            if (!q.empty()) ctx.fail("ill-formed clone: " + q[0]);
            if (dump(x, FULL) != dump(y, FULL)) ctx.fail("the clone " + first_diff(dump(x, FULL), dump(y, FULL)));
            cypher_ast_free(c);
        }
    }
}
struct Each { Ctx *ctx; Src *src; unsigned stop = 0, n = 0; bool keep = false; std::vector<cypher_parse_segment_t *> kept; };
int each_cb(void *d, cypher_parse_segment_t *s) {
    Each *e = (Each *)d;
    unsigned ne = cypher_parse_segment_nerrors(s);
    for (unsigned i = 0; i <= ne; i++) { const cypher_parse_error_t *x = cypher_parse_segment_get_error(s, i); if (x) get_err(x); else if (i < ne) return -7777; }
    if (e->keep) { cypher_parse_segment_retain(s); e->kept.push_back(s); }
    e->n++;
    return e->stop && e->n >= e->stop ? 1 : 0;
}
int qcb(void *d, const cypher_quick_parse_segment_t *s) {
    size_t n; const char *t = cypher_quick_parse_segment_get_text(s, &n);
    ((std::string *)d)->append(t, n);
    cypher_quick_parse_segment_get_range(s); cypher_quick_parse_segment_get_next(s); cypher_quick_parse_segment_is_eof(s); cypher_quick_parse_segment_is_statement(s); cypher_quick_parse_segment_is_command(s);
    return 0;
}
}

// ---------------------------------------------------------------- C01

GUIDED_PROPERTY("C01", anything, 40) {
    std::string in = input(src, ctx);
    std::unique_ptr<char[]> exact(new char[in.size()]); memcpy(exact.get(), in.data(), in.size());
    static const Colours col;
    unsigned flags = src.below(4);
    if (src.chance(1, 10)) flags |= src.u64() & 0xfffffff0;
    bool use_cfg = src.coin();
    vp::track_begin();
    cypher_parser_config_t *cfg = use_cfg ? cypher_parser_new_config() : nullptr;
    if (cfg) {
        if (src.coin()) cypher_parser_config_set_initial_ordinal(cfg, (unsigned)(src.u64() >> (32 + src.below(32))));
        if (src.coin()) { struct cypher_input_position p = {(unsigned)(1 + (src.u64() >> (34 + src.below(29)))), (unsigned)(1 + (src.u64() >> (34 + src.below(29)))), (size_t)(src.u64() >> (2 + src.below(60)))}; cypher_parser_config_set_initial_position(cfg, p); }
        if (src.coin()) cypher_parser_config_set_error_colorization(cfg, src.coin() ? cypher_parser_ansi_colorization : src.coin() ? cypher_parser_no_colorization : &col.c);
    }
    struct cypher_input_position last, *lp = src.coin() ? &last : nullptr;
    unsigned how = src.below(6);
    static const char *const H[] = {"cypher_uparse", "cypher_fparse", "cypher_uparse_each", "cypher_fparse_each", "quick", "cypher_parse"};
    ctx.cls(std::string("through ") + H[how]);
    std::unique_ptr<InStream> st(how == 1 || how == 3 || (how == 4 && src.coin()) ? InStream::random(src, in) : nullptr);
    if (how == 0 || how == 1 || how == 5) {
        cypher_parse_result_t *r = how == 0 ? cypher_uparse(exact.get(), in.size(), lp, cfg, flags) : how == 1 ? cypher_fparse(st->f, lp, cfg, flags) : cypher_parse(in.c_str(), lp, cfg, flags);
        if (!r) ctx.fail("no result");
        if (cfg && src.coin()) { cypher_parser_config_free(cfg); cfg = nullptr; }
        exact.reset(); st.reset(); { std::string().swap(in); }
        std::vector<const cypher_astnode_t *> roots;
        for (unsigned i = 0; i < cypher_parse_result_nroots(r); i++) roots.push_back(cypher_parse_result_get_root(r, i));
        inspect(ctx, src, roots);
        for (unsigned i = 0; i < cypher_parse_result_ndirectives(r); i++) if (!cypher_parse_result_get_directive(r, i)) ctx.fail("a directive is missing");
        for (unsigned i = 0; i < cypher_parse_result_nerrors(r); i++) { Err e = get_err(cypher_parse_result_get_error(r, i)); if (e.msg == "(null)" || !e.has_ctx) ctx.fail("an error without text"); }
        char *b = nullptr; size_t n = 0; FILE *f = open_memstream(&b, &n);
        if (cypher_parse_result_fprint_ast(r, f, src.below(3) ? 0 : src.below(300), src.coin() ? &col.c : nullptr, 0)) ctx.fail("printing failed");
        fclose(f); free(b);
        cypher_parse_result_free(r);
    } else if (how == 4) {
        std::string t;
        int rc = st ? cypher_quick_fparse(st->f, qcb, &t, flags) : cypher_quick_uparse(exact.get(), in.size(), qcb, &t, flags);
        if (rc) ctx.fail(strf("the quick parse returned %d", rc));
    } else {
        Each e{&ctx, &src}; e.stop = src.chance(1, 4) ? 1 + src.below(4) : 0; e.keep = src.coin();
        int rc = how == 2 ? cypher_uparse_each(exact.get(), in.size(), each_cb, &e, lp, cfg, flags) : cypher_fparse_each(st->f, each_cb, &e, lp, cfg, flags);
        if (rc) ctx.fail(strf("the parse returned %d", rc));
        exact.reset(); st.reset();
        std::vector<const cypher_astnode_t *> roots;
        for (auto *s : e.kept) for (unsigned i = 0; i < cypher_parse_segment_nroots(s); i++) roots.push_back(cypher_parse_segment_get_root(s, i));
        inspect(ctx, src, roots);
        for (auto *s : e.kept) cypher_parse_segment_release(s);
    }
    st.reset();
    cypher_parser_config_free(cfg);
    size_t bytes, lost = vp::track_end(&bytes);
    if (lost) ctx.fail(strf("%zu blocks (%zu bytes) were not freed", lost, bytes));
}

// Deeply nested or long, but well within what a stack of 8 MB allows
PROPERTY("C01", deep, 1) {
    const size_t NN = sizeof NEST / sizeof *NEST;
    if (src.chance(1, 200)) {       // deeper than that: known_findings.txt
        ctx.text("60000 levels of parentheses"); ctx.nontrivial(); ctx.cls("deeper than the stack allows");
        std::string in = "RETURN " + std::string(60000, '(') + "1" + std::string(60000, ')') + ";";
        int fd[2]; if (pipe(fd)) return;
        fflush(nullptr);
        pid_t pid = fork();
        if (pid == 0) { dup2(fd[1], 2); close(fd[0]); cypher_parse_result_free(cypher_uparse(in.data(), in.size(), nullptr, nullptr, 0)); _exit(0); }
        close(fd[1]);
        std::string out; char buf[4096]; ssize_t n; while ((n = read(fd[0], buf, sizeof buf)) > 0) if (out.size() < 100000) out.append(buf, (size_t)n);
        close(fd[0]);
        int st; waitpid(pid, &st, 0);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return;
        if (out.find("stack-overflow") != out.npos || (WIFSIGNALED(st) && WTERMSIG(st) == SIGSEGV && out.empty())) { ctx.known("deep-nesting"); return; }
        ctx.fail("died of something else than its stack: " + out.substr(0, 500));
    }
    unsigned k = 1 + src.below(2), d = 1 + src.below(200); std::string open, close;
    for (unsigned i = 0; i < k; i++) { auto &x = NEST[src.below(NN)]; open += x.open; close = x.close + close; }
    if (known_exponential(open + open)) d = std::min(d, 4u);
    ctx.text(strf("%u levels of %s...%s", d, open.c_str(), close.c_str())); ctx.nontrivial(); ctx.cls("nested");
    std::string in = "RETURN "; for (unsigned i = 0; i < d; i++) in += open; in += "1"; for (unsigned i = 0; i < d; i++) in += close;
    in += ";";
    vp::track_begin();
    cypher_parse_result_t *r = cypher_uparse(in.data(), in.size(), nullptr, nullptr, 0);
    if (!r) ctx.fail("no result");
    if (cypher_parse_result_nerrors(r)) ctx.fail("not accepted");
    cypher_astnode_t *c = cypher_ast_clone(cypher_parse_result_get_directive(r, 0));
    if (!c) ctx.fail("not cloned");
    cypher_parse_result_free(r);
    render(c, 0, nullptr);
    cypher_ast_free(c);
    size_t bytes, lost = vp::track_end(&bytes);
    if (lost) ctx.fail(strf("%zu blocks (%zu bytes) were not freed", lost, bytes));
}

// ---------------------------------------------------------------- C25

GUIDED_PROPERTY("C25", well_formed, 1) {
    std::string in = input(src, ctx);
    unsigned flags = src.coin() ? CYPHER_PARSE_ONLY_STATEMENTS : 0;
    Problems pr;
    Parse p = parse_each(in, flags, nullptr, &pr);
    if (p.rc) ctx.fail(strf("the parse returned %d", p.rc));
    if (!pr.empty()) ctx.fail("ill-formed tree: " + pr[0]);
    bool er = false; size_t nodes = 0;
    for (auto &s : p.segs) {
        std::string d = structure(s.roots, in, s.range.start.offset, s.range.end.offset);
        if (!d.empty()) ctx.fail("segment " + range_str(s.range) + ": " + d);
        if (s.directive && !is(s.directive, "STATEMENT") && !is(s.directive, "COMMAND")) ctx.fail("a directive is a " + std::string(specs()[s.directive->spec].name));
        if (s.directive) { bool in_roots = false; for (auto &r : s.roots) in_roots |= r == s.directive; if (!in_roots) ctx.fail("a directive is not a root"); }
        er |= !s.errs.empty(); for (auto &r : s.roots) nodes += count(r);
        // a segment with skipped text has an error, and an error an error node, unless nothing was left to skip
        std::vector<TP> en; std::function<void(const TP &)> walk = [&](const TP &x) { if (is(x, "ERROR")) en.push_back(x); for (auto &c : x->children) walk(c); };
        for (auto &r : s.roots) walk(r);
        if (!en.empty() && s.errs.empty()) ctx.fail("text was skipped without an error");
    }
    ctx.cls(er ? "with errors" : "no errors");
    ctx.cls(nodes < 5 ? "under 5 nodes" : nodes < 50 ? "5 to 49 nodes" : "50 nodes or more");
}

// ---------------------------------------------------------------- C07

namespace {
std::string chardesc(const std::string &in, size_t at) {
    if (at >= in.size()) return "at end of input";
    switch (in[at]) {
    case '\a': return "'\\a'"; case '\b': return "'\\b'"; case '\f': return "'\\f'"; case '\n': return "'\\n'"; case '\r': return "'\\r'"; case '\t': return "'\\t'"; case '\v': return "'\\v'"; case '\'': return "'\\''";
    case '\0': return "'\\0'";
    default: return std::string("'") + in[at] + "'";
    }
}
// message -> labels; false if it is not of the documented form
bool labels(const std::string &msg, const std::string &in, size_t at, std::vector<std::string> &out) {
    std::string pre = "Invalid input " + chardesc(in, at) + ": expected ";
    if (msg.compare(0, pre.size(), pre)) return false;
    std::string r = msg.substr(pre.size());
    // "a", "a or b", "a, b or c"
    std::vector<std::string> v; std::string cur;
    size_t i = 0;
    while (i < r.size()) {
        if (r.compare(i, 2, ", ") == 0 && !(cur == "'" )) { v.push_back(cur); cur.clear(); i += 2; }
        else if (r.compare(i, 4, " or ") == 0) { v.push_back(cur); cur.clear(); i += 4; }
        else cur += r[i++];
    }
    v.push_back(cur);
    size_t n = 0;
    for (auto &l : v) if (l.empty()) return false; else n++;
    if (n > 1) {   // only one "or", before the last
        size_t o = r.rfind(" or "); if (o == std::string::npos || r.substr(o + 4) != v.back()) return false;
        size_t q = r.find(" or "); if (q != o) return false;
    }
    std::set<std::string> u(v.begin(), v.end());
    if (u.size() != v.size()) return false;
    out = v;
    return true;
}
// One error against the input it is about
std::string check_error(const Err &e, const std::string &in, const Lines &ln, size_t base, std::vector<std::string> *ls = nullptr) {
    std::string w = dump_err(e) + ": ";
    size_t at = e.pos.offset;
    if (at > in.size()) return w + "beyond the input";
    if (!ln.is(e.pos)) return w + "line and column do not belong to the offset";
    std::vector<std::string> l;
    if (!labels(e.msg, in, at, l)) return w + "the message does not name " + chardesc(in, at) + " and a list of what was expected";
    if (ls) *ls = l;
    if (!e.has_ctx) return w + "no context";
    if (in.find('\0') != std::string::npos) return "";       // the context ends at a NUL
    if (e.ctx.size() > 80) return w + "the context has more than 80 characters";
    if (e.ctx.find_first_of("\n\r") != std::string::npos) return w + "the context has more than one line";
    // the line in which the error is; one at a line end belongs to the line ended there, one at
    // the end of input after line ends to the line before them
    size_t q = at;
    bool eof = at >= in.size();
    if (eof) while (q > base && (q == in.size() || in[q] == '\0') && strchr("\n\r", in[q - 1]) && in[q - 1]) q--;
    auto nl = [&](size_t i) { return in[i] == '\n' || in[i] == '\r'; };
    while (q > base && q < in.size() && (nl(q) || in[q] == '\0')) { if (nl(q - 1)) q--; else break; }
    size_t b = q; while (b > base && !nl(b - 1)) b--;     // (text before the segment is gone)
    size_t en = q; while (en < in.size() && !nl(en)) en++;
    std::string line = in.substr(b, en - b);
    std::string c = e.ctx;
    // where the context begins in the input
    if (at <= en) {
        if (e.ctx_off > at) return w + "the context does not fit";
        size_t s = at - e.ctx_off;
        if (s < b || s + c.size() > en) return w + "the context is not within the line " + pbt::quote(line);
        bool cut_b = s > b || c.size() == 80, cut_e = s + c.size() < en || c.size() == 80;    // (a full context may have its dots although nothing was cut)
        if (s > b && c.compare(0, 3, "...")) return w + "the context does not begin where the line does";
        for (size_t i = 0; i < c.size(); i++) {
            if (c[i] == in[s + i]) continue;
            if (cut_b && i < 3 && c[i] == '.') continue;
            if (cut_e && i + 3 >= c.size() && c[i] == '.') continue;
            return w + "the context is not the text of the line " + pbt::quote(line);
        }
        // the character itself is shown, unless the line ends there
        if (at < en) {
            if (e.ctx_off >= c.size()) return w + "the context offset does not point at the character";
            if (c[e.ctx_off] != in[at]) return w + "the context offset points at another character";
        }
    } else {
        // past the line shown: the offset counts on from its start (the tests of line_context rely on this)
        if (e.ctx_off > at || e.ctx_off < c.size()) return w + "the context offset does not point past the line shown";
        size_t s = at - e.ctx_off;
        if (s < b || s + c.size() != en) return w + "the context is not the end of the line " + pbt::quote(line);
        bool cut = s > b || c.size() == 80;
        if (s > b && c.compare(0, 3, "...")) return w + "the context does not begin where the line does";
        for (size_t i = 0; i < c.size(); i++) if (c[i] != in[s + i] && !(cut && (i < 3 || i + 3 >= c.size()) && c[i] == '.')) return w + "the context is not the text of the line " + pbt::quote(line);
    }
    return "";
}
std::string statement_text(Src &src, int depth, std::vector<Tok> &toks, TP *tree, bool wildnames) {
    Opts o; o.depth = depth; o.clauses = 3; o.wild = wildnames;
    G g(src, o); TP x = g.statement();
    for (auto &q : fv(x, "options").k) if (is(q, "CYPHER_OPTION")) fv(q, "params").k.clear();
    g.emit(x);
    if (g.ambiguous()) throw pbt::Discard();
    toks = g.t; if (tree) *tree = x;
    return "";
}
}

GUIDED_PROPERTY("C07", any_input, 3) {
    std::string in = input(src, ctx);
    if (src.chance(1, 4)) { std::string l; unsigned n = src.len(200, 60); for (unsigned i = 0; i < n; i++) l += (char)('a' + src.below(26)); in = src.coin() ? in + " " + l : "RETURN " + l + " + " + in; ctx.text(in); }
    unsigned flags = src.coin() ? CYPHER_PARSE_ONLY_STATEMENTS : 0;
    static const Colours col;
    cypher_parser_config_t *cfg = cypher_parser_new_config();
    cypher_parser_config_set_error_colorization(cfg, &col.c);
    Parse p = parse_each(in, flags), pc = parse_each(in, flags, cfg);
    cypher_parser_config_set_error_colorization(cfg, cypher_parser_ansi_colorization);
    Parse pa = parse_each(in, flags, cfg);
    cypher_parser_config_free(cfg);
    if (p.rc || pc.rc || pa.rc) ctx.fail("the parse failed");
    Lines ln(in);
    size_t n = 0; std::vector<Err> all, allc, alla; std::vector<size_t> base;
    for (auto &s : p.segs) { all.insert(all.end(), s.errs.begin(), s.errs.end()); base.resize(all.size(), s.range.start.offset); }
    for (auto &s : pc.segs) allc.insert(allc.end(), s.errs.begin(), s.errs.end());
    for (auto &s : pa.segs) alla.insert(alla.end(), s.errs.begin(), s.errs.end());
    if (all.size() != allc.size() || all.size() != alla.size()) ctx.fail("colours change the number of errors");
    for (size_t i = 0; i < all.size(); i++) {
        std::string d = check_error(all[i], in, ln, base[i]);
        if (!d.empty()) ctx.fail(d);
        Err c = allc[i]; c.msg = col.strip(c.msg);
        if (dump_err(c) != dump_err(all[i])) ctx.fail("without its colours " + dump_err(c) + " is not " + dump_err(all[i]));
        std::string u = col.unpaired(allc[i].msg); if (!u.empty()) ctx.fail(u + ": " + allc[i].msg);
        if (allc[i].msg.compare(0, 1, "<") ) ctx.fail("the message has no colours: " + allc[i].msg);
        Err a = alla[i]; std::string t;
        for (size_t k = 0; k < a.msg.size(); k++) { if (a.msg[k] == '\033' && k + 1 < a.msg.size() && a.msg[k + 1] == '[') { while (k < a.msg.size() && a.msg[k] != 'm') k++; } else t += a.msg[k]; }
        a.msg = t;
        if (in.find('\033') == std::string::npos && dump_err(a) != dump_err(all[i])) ctx.fail("without its ANSI colours " + dump_err(a) + " is not " + dump_err(all[i]));
        if (i && base[i] == base[i - 1] && all[i].pos.offset <= all[i - 1].pos.offset) ctx.fail("errors out of order: " + dump_err(all[i]));
        n++;
    }
    ctx.cls(n == 0 ? "no errors" : n == 1 ? "1 error" : n < 5 ? "2-4 errors" : "5+ errors");
}

// The text up to the error is readable: with anything unreadable put there instead, the error is there still.
PROPERTY("C07", prefix, 2) {
    std::string in = input(src, ctx);
    unsigned flags = CYPHER_PARSE_ONLY_STATEMENTS;      // (anything may be in a command)
    Parse p = parse_each(in, flags);
    if (p.rc) ctx.fail("the parse failed");
    const Err *e = nullptr; for (auto &s : p.segs) if (!s.errs.empty()) { e = &s.errs[0]; break; }
    if (!e || e->pos.offset >= in.size()) { ctx.cls("no error before the end"); return; }
    std::string t = in.substr(0, e->pos.offset) + "\x01";
    Parse q = parse_each(t, flags);
    const Err *f = nullptr; for (auto &s : q.segs) if (!s.errs.empty()) { f = &s.errs[0]; break; }
    if (!f || f->pos.offset != e->pos.offset) ctx.fail(dump_err(*e) + "\n  but with an unreadable character there instead: " + (f ? dump_err(*f) : std::string("no error")));
    ctx.cls("compared");
}

// Whether a description given as expected covers a keyword
static bool stands_for(const std::string &label, const std::string &kw) {
    static const std::map<std::string, std::set<std::string>> M = {
        {"a clause", {"LOAD", "START", "MATCH", "OPTIONAL", "MERGE", "CREATE", "SET", "DELETE", "DETACH", "REMOVE", "FOREACH", "WITH", "UNWIND", "CALL", "RETURN", "UNION"}},
        {"a statement option", {"CYPHER", "EXPLAIN", "PROFILE"}}, {"a schema command", {"CREATE", "DROP"}}, {"a query hint", {"USING"}}};
    auto i = M.find(label);
    return i != M.end() && i->second.count(kw);
}
// An unreadable character at a place of a valid statement, before token `at` of those from `first` to `last`
static void illegal(Ctx &ctx, const Layout &l, size_t k, size_t last, const std::string &blank, char bad, const std::string &rest, unsigned flags, bool items) {
    std::string pre = l.src.substr(0, l.e[k - 1]);
    size_t at = pre.size() + blank.size();
    std::string in = pre + blank + bad + rest;
    ctx.text(in); ctx.nontrivial();
    Parse q = parse_each(in, flags);
    if (q.rc) ctx.fail("the parse failed");
    const Err *f = nullptr; size_t base = 0; for (auto &s : q.segs) if (!s.errs.empty()) { f = &s.errs[0]; base = s.range.start.offset; break; }
    if (!f) ctx.fail("no error");
    if (f->pos.offset != at) ctx.fail(strf("the unreadable character is at %zu but the first error is ", at) + dump_err(*f));
    std::vector<std::string> ls;
    std::string w = check_error(*f, in, Lines(in), base, &ls);
    if (!w.empty()) ctx.fail(w);
    // what followed in the valid text is among what was expected
    if (k < last) {
        std::string tok = l.src.substr(l.b[k], l.e[k] - l.b[k]), up; for (char c : tok) up += (char)toupper((unsigned char)c);
        bool ok = false, kw = l.kw.count(k) > 0; std::string all;
        for (auto &x : ls) {
            all += x + "; ";
            std::string lu; for (char c : x) lu += (char)toupper((unsigned char)c);
            if (isalpha((unsigned char)tok[0])) { if ((" " + lu + " ").find(" " + up + (kw ? " " : "")) != std::string::npos) ok = true; }
            else if (x.size() > 2 && x[0] == '\'' && x.compare(1, std::min(tok.size(), x.size() - 2), tok.substr(0, std::min(tok.size(), x.size() - 2))) == 0) ok = true;
            if (x[0] == 'a' && (x[1] == ' ' || x[1] == 'n') && (!kw || stands_for(x, up))) ok = true;   // a description
            if (x[0] == '"' && !kw) ok = true;
        }
        if (!ok) ctx.fail("the valid text has " + pbt::quote(tok) + " there, which is not among the expected: " + all + " in " + pbt::quote(in));
    }
    // each expected punctuation or keyword lets the parser go further
    if (items) for (auto &x : ls) {
        std::string t;
        if (x.size() > 2 && x[0] == '\'' && x.back() == '\'') t = x.substr(1, x.size() - 2);
        else { bool kw = !x.empty(); for (char c : x) if (!isupper((unsigned char)c) && c != ' ') kw = false; if (kw) t = x; }
        if (t.empty()) continue;
        // ("CREATE INDEX ON" stands for what is left of it)
        bool further = false; std::string seen, in2;
        for (;;) {
            in2 = pre + blank + t + " " + bad;
            Parse r = parse_each(in2, flags);
            const Err *g = nullptr; for (auto &s : r.segs) if (!s.errs.empty()) { g = &s.errs[0]; break; }
            if (!g || g->pos.offset > at) { further = true; break; }
            seen += dump_err(*g) + " in " + pbt::quote(in2) + "\n";
            size_t sp = isupper((unsigned char)t[0]) ? t.find(' ') : 0;
            if (sp == std::string::npos || t.size() < 2) break;
            t = t.substr(sp + 1);
        }
        if (!further) ctx.fail(pbt::quote(x) + " was expected, but with it there the error is still " + seen);
        ctx.cls("expected items tried");
    }
}
static const char BAD[] = {1, 2, '\x0e', '\x1b', '\x7f', '\\', '#', '&', '@', '~', '!', '\xff', '\x80', '\x0b', '\x0c', '\a', '\b'};
PROPERTY("C07", illegal_character, 4) {
    POpts po; po.gram.depth = (int)src.below(3); po.gram.clauses = 3; po.max = 3; po.commands = 0; po.gram.wild = src.coin(); po.tail = false;
    po.plain_options = true;
    Program p = program(src, po);
    const Dir &d = p.dirs.back();
    size_t nt = d.tok_e - d.tok_b; if (d.semi) nt--;
    if (!nt) throw pbt::Discard();
    size_t k = d.tok_b + 1 + src.below((uint32_t)nt);        // before token k (or after the last)
    char bad = src.pick(BAD);
    // a value of an option takes anything
    { std::string up; for (char c : p.l.src.substr(0, p.l.e[k - 1])) up += (char)toupper((unsigned char)c); if (up.find("CYPHER") != std::string::npos) throw pbt::Discard(); }
    std::string blank = src.coin() ? " " : src.coin() ? "\n" : std::string(src.below(100), ' ') + "\n" + std::string(1 + src.below(100), ' ');
    std::string rest = src.coin() ? "" : src.coin() ? " x" : std::string("\n") + (k < p.l.b.size() ? p.l.src.substr(p.l.b[k]) : "");
    unsigned flags = src.coin() ? CYPHER_PARSE_ONLY_STATEMENTS : 0;
    illegal(ctx, p.l, k, d.tok_b + nt, blank, bad, rest, flags, src.chance(1, 3));
}
// The same at every place of a small statement with a node of some type in it
PROPERTY("C07", each_place, 3) {
    Opts o; o.wild = false; TP x;
    auto g = statement_of(src, o, (int)src.below((uint32_t)specs().size()), x);
    for (size_t i = 0; i < g->t.size(); i++) if (g->t[i].s == "CYPHER") throw pbt::Discard();
    if (g->ambiguous()) throw pbt::Discard();
    Style st; st.mode = (int)src.below(4); Layout l; lay(src, g->t, st, l);
    char bad = src.pick(BAD); unsigned flags = src.coin() ? CYPHER_PARSE_ONLY_STATEMENTS : 0;
    for (size_t k = 1; k <= l.b.size(); k++) {
        std::string rest = k & 1 ? "" : "\n" + (k < l.b.size() ? l.src.substr(l.b[k]) : "");
        illegal(ctx, l, k, l.b.size(), " ", bad, rest, flags, false);
    }
    size_t k = 1 + src.below((uint32_t)l.b.size());
    illegal(ctx, l, k, l.b.size(), " ", bad, "", flags, true);
    ctx.cls(strf("%zu places", l.b.size() / 10 * 10));
}

// ---------------------------------------------------------------- C08

namespace {
std::vector<const Err *> errors(const Parse &p) { std::vector<const Err *> v; for (auto &s : p.segs) for (auto &e : s.errs) v.push_back(&e); return v; }
std::vector<TP> directives(const Parse &p) { std::vector<TP> v; for (auto &s : p.segs) if (s.directive) v.push_back(s.directive); return v; }
bool quiet(const std::string &s) { return s.find_first_of("'\"`\\") == std::string::npos && s.find("//") == std::string::npos && s.find("/*") == std::string::npos; }
}
PROPERTY("C08", local, 30) {
    // statements, each ended by a semicolon; the text of the damaged one has no quotes or comments
    POpts po; po.gram.depth = (int)src.below(3); po.gram.clauses = 3; po.gram.wild = src.coin(); po.plain_options = true; po.commands = 0; po.max = 1; po.tail = false;
    unsigned n = 2 + src.len(4, 1), bad = src.below(n);
    bool cmds = src.coin();
    std::vector<std::string> ps;
    std::string dam;
    for (unsigned i = 0; i < n; i++) {
        POpts q = po;
        if (i == bad) { q.gram.wild = false; q.mode = (int)src.below(3); } else if (cmds) q.commands = 2;
        Program p = program(src, q);
        std::string s = p.l.src;
        if (p.dirs[0].cmd) { if (!p.dirs[0].term) s += "\n"; } else if (!p.dirs[0].semi) s += ";";
        if (i == bad) {
            std::string body = s.substr(0, s.size() - 1);
            if (!quiet(body)) throw pbt::Discard();
            { std::string up; for (char c : body) up += (char)toupper((unsigned char)c); if (up.find("CYPHER") != std::string::npos) throw pbt::Discard(); }
            // something no statement has: an unreadable character anywhere, or unbalanced brackets
            if (src.coin()) { static const char *const B[] = {"\x01", "#", "@", "&", "~", "\x7f", "!", "\xff", "(", ")", "[", "]", "{", "}"}; unsigned k = src.below(14); size_t at = src.below((uint32_t)body.size() + 1); dam = body.substr(0, at) + B[k] + body.substr(at) + ";"; }
            else {
                std::vector<size_t> br; for (size_t k = 0; k < body.size(); k++) if (strchr("()[]{}", body[k])) br.push_back(k);
                if (br.empty()) dam = body + " \x01;"; else { size_t k = src.pick(br); dam = body; dam[k] = src.coin() ? ' ' : '\x01'; dam += ";"; }
            }
            if (cmds && dam.find(':') != std::string::npos && dam.find('\n') != std::string::npos) throw pbt::Discard();   // resumes at ':' as a command, which ends with the line
        }
        ps.push_back(s);
    }
    std::string good, text; std::vector<size_t> gb, tb;
    for (unsigned i = 0; i < n; i++) { gb.push_back(good.size()); tb.push_back(text.size()); good += ps[i]; text += i == bad ? dam : ps[i]; }
    ctx.text(text); ctx.nontrivial();
    unsigned flags = cmds ? 0 : CYPHER_PARSE_ONLY_STATEMENTS;
    Problems pr;
    Parse a = parse_each(good, flags), b = parse_each(text, flags, nullptr, &pr);
    if (a.rc || b.rc) ctx.fail("the parse failed");
    if (!pr.empty()) ctx.fail(pr[0]);
    auto ea = errors(a), eb = errors(b);
    if (!ea.empty()) ctx.fail("valid text reported " + dump_err(*ea[0]) + " in " + pbt::quote(good));
    size_t db = tb[bad], de = db + dam.size();
    if (eb.empty()) ctx.fail("no error reported for " + pbt::quote(dam));
    for (auto *e : eb) if (e->pos.offset < db || e->pos.offset >= de) ctx.fail("an error outside the damaged statement " + pbt::quote(dam) + strf(" at %zu..%zu: ", db, de) + dump_err(*e));
    // the other directives
    std::string sa, sb; Lines lg(good), lt(text);
    std::vector<TP> da = directives(a), dbv = directives(b);
    for (auto &d : da) {
        size_t o = d->range.start.offset; unsigned k = 0; while (k + 1 < n && gb[k + 1] <= o) k++;
        if (k == bad) continue;
        sa += strf("%u: ", k) + dump(d, FULL) + "\n";
    }
    (void)lg; (void)lt;
    for (auto &d : dbv) {
        size_t o = d->range.start.offset; unsigned k = 0; while (k + 1 < n && tb[k + 1] <= o) k++;
        if (k == bad) { if (d->range.end.offset > de) ctx.fail("the damaged statement takes in the next: " + range_str(d->range)); continue; }
        sb += strf("%u: ", k) + dump(d, D_CHILDREN | (k < bad ? D_RANGE : 0)) + "\n";
    }
    sa.clear();
    for (auto &d : da) {
        size_t o = d->range.start.offset; unsigned k = 0; while (k + 1 < n && gb[k + 1] <= o) k++;
        if (k == bad) continue;
        sa += strf("%u: ", k) + dump(d, D_CHILDREN | (k < bad ? D_RANGE : 0)) + "\n";
    }
    if (sa != sb) ctx.fail("the other statements " + first_diff(sa, sb));
    for (auto &s : b.segs) { std::string d = structure(s.roots, text, s.range.start.offset, s.range.end.offset); if (!d.empty()) ctx.fail(d); }
    ctx.cls(strf("errors: %zu", std::min<size_t>(eb.size(), 4)));
}
// Nonsense within one clause: the clauses before it are there, and those after it once a clause may begin
PROPERTY("C08", resumes, 20) {
    static const std::set<std::string> K = {"LOAD", "START", "MATCH", "UNWIND", "MERGE", "CREATE", "SET", "DELETE", "REMOVE", "FOREACH", "WITH", "CALL", "RETURN", "DROP"};
    Opts o; o.depth = (int)src.below(3); o.clauses = 2 + (int)src.below(3); o.wild = false;
    G g(src, o);
    TP x = g.statement(); g.emit(x);
    TP q = fv(x, "body").k.empty() ? nullptr : fv(x, "body").k[0];
    if (!q || !is(q, "QUERY") || !fv(x, "options").k.empty() || g.ambiguous()) throw pbt::Discard();
    auto &cl = fv(q, "clauses").k; auto &t = g.t;
    auto up = [](std::string w) { for (auto &c : w) c = (char)toupper((unsigned char)c); return w; };
    size_t n = cl.size(), i = src.below((uint32_t)n), b = (size_t)cl[i]->tok0, e = i + 1 < n ? (size_t)cl[i + 1]->tok0 : t.size();
    if (i + 1 < n && !K.count(up(t[e].s))) throw pbt::Discard();
    for (size_t k = b; k < e; k++) if ((k > b && K.count(up(t[k].s))) || t[k].s.find_first_of("'\"`/\\") != std::string::npos) throw pbt::Discard();
    if (i == 0 && !fv(q, "options").k.empty()) throw pbt::Discard();
    static const char *const J[] = {"\x01", "#", "&", "!", "~", "?", "@ x", "# 1 [ (", "\x7f }", "! a b c", "&)", "\xff\xfe"};
    size_t at = b + 1 + src.below((uint32_t)(e - b)); std::string junk = src.pick(J);
    static const char *const GAP[] = {" ", " ", "\n", "\t", "  ", "\r\n"};
    std::string good, bad; size_t db = 0, de = 0;
    for (size_t k = 0; k <= t.size(); k++) {
        std::string w = k && k < t.size() && t[k].gap != 2 ? src.pick(GAP) : "";
        if (k == b) db = bad.size();
        if (k == at) { bad += " " + junk + (k < t.size() ? src.pick(GAP) : ""); }
        if (k == e) de = bad.size();
        if (k == t.size()) break;
        std::string s = t[k].s; if (t[k].kw && src.coin()) for (auto &c : s) c = (char)tolower((unsigned char)c);
        good += w + s; bad += (k == at ? "" : w) + s;
    }
    std::string next = src.coin() ? "; RETURN after;" : "";
    good += next; bad += next;
    ctx.text(bad); ctx.nontrivial();
    unsigned flags = src.coin() || bad.find(':') != bad.npos ? CYPHER_PARSE_ONLY_STATEMENTS : 0;
    Parse a = parse_each(good, flags), c = parse_each(bad, flags);
    if (a.rc || c.rc) ctx.fail("the parse failed");
    if (!errors(a).empty()) ctx.fail("valid text reported " + dump_err(*errors(a)[0]) + " in " + pbt::quote(good));
    auto er = errors(c); if (er.empty()) ctx.fail("no error");
    for (auto *f : er) if (f->pos.offset < db || f->pos.offset > de) ctx.fail(strf("the clause with nonsense is at %zu..%zu, but ", db, de) + dump_err(*f));
    auto dump_clauses = [&](const Parse &p, std::vector<std::string> &out) { for (auto &d : directives(p)) { TP s = fv(d, "body").k[0]; if (is(s, "QUERY")) for (auto &y : fv(s, "clauses").k) out.push_back(dump(y, 0)); else out.push_back(dump(s, 0)); } };
    std::vector<std::string> want, got; dump_clauses(a, want); dump_clauses(c, got);
    size_t after = want.size() - i - 1;
    if (got.size() < i + after || got.size() > want.size()) ctx.fail(strf("%zu clauses were parsed, of %zu with one of them bad, from ", got.size(), want.size()) + pbt::quote(bad));
    for (size_t k = 0; k < i; k++) if (got[k] != want[k]) ctx.fail(strf("clause %zu (before the bad one, %zu) ", k, i) + first_diff(want[k], got[k]));
    for (size_t k = 0; k < after; k++) if (got[got.size() - 1 - k] != want[want.size() - 1 - k]) ctx.fail(strf("clause %zu (after the bad one, %zu) ", want.size() - 1 - k, i) + first_diff(want[want.size() - 1 - k], got[got.size() - 1 - k]));
    for (auto &s : c.segs) { std::string d = structure(s.roots, bad, s.range.start.offset, s.range.end.offset); if (!d.empty()) ctx.fail(d); }
    ctx.cls(i == 0 ? "in the first clause" : i + 1 == n ? "in the last clause" : "in between");
    if (got.size() == want.size()) ctx.cls("the clause itself is there too");
}
// Nonsense before a statement or command, which begins after a blank
PROPERTY("C08", after_nonsense, 10) {
    static const std::set<std::string> K = {"LOAD", "START", "MATCH", "UNWIND", "MERGE", "CREATE", "SET", "DELETE", "REMOVE", "FOREACH", "WITH", "CALL", "RETURN", "DROP", "CYPHER", "PROFILE", "EXPLAIN"};
    static const char *const J[] = {"\x01", "#", "&", "foo", "1", "+", "(a)", "@ x", "# 1 [ (", "\x7f }", "! a b c", "&)", "\xff\xfe", "RETURN", "MATCH", "CREATE INDEX", "DROP", "CYPHER 1.", "matching", "return_ 1", "CREATE (", "MATCH (a) WHERE", "LOAD"};
    static const char *const GAP[] = {" ", "\n", "\t", "  ", "\r\n", "/* c */", " // x\n"};
    POpts po; po.gram.depth = (int)src.below(3); po.gram.clauses = 2; po.gram.wild = src.coin(); po.max = 1; po.mode = 1; po.tail = false;
    Program p = program(src, po); const Dir &d = p.dirs[0];
    std::string s = p.l.src.substr(p.l.b[d.tok_b]), w; for (char c : s) { if (!isalpha((unsigned char)c)) break; w += (char)toupper((unsigned char)c); }
    if (!K.count(w) && !d.cmd) throw pbt::Discard();
    std::string j = src.pick(J), gap = src.pick(GAP), in = j + gap + s;
    // (words which the nonsense ends with, and the statement begins with, may belong together)
    unsigned flags = !d.cmd && (src.coin() || in.find(':') != in.npos) ? CYPHER_PARSE_ONLY_STATEMENTS : 0;
    ctx.text(in); ctx.nontrivial();
    Parse a = parse_each(s, flags), b = parse_each(in, flags);
    if (a.rc || b.rc) ctx.fail("the parse failed");
    if (!errors(a).empty()) ctx.fail("valid text reported " + dump_err(*errors(a)[0]) + " in " + pbt::quote(s));
    Parse c = parse_each(j + gap + "\x01", flags);
    if (errors(c).empty() || errors(c)[0]->pos.offset >= j.size() + gap.size()) { ctx.cls("may belong together"); return; }
    auto er = errors(b);
    if (er.size() != 1) ctx.fail(strf("%zu errors", er.size()));
    if (er[0]->pos.offset >= j.size() + gap.size()) ctx.fail("the nonsense ends at " + strf("%zu, but ", j.size() + gap.size()) + dump_err(*er[0]));
    std::string sa, sb; for (auto &y : directives(a)) sa += dump(y, 0) + "\n"; for (auto &y : directives(b)) sb += dump(y, 0) + "\n";
    if (sa != sb) ctx.fail("after " + pbt::quote(j + gap) + " the statement " + first_diff(sa, sb));
    ctx.cls(d.cmd ? "command" : "statement");
}
// Edited statements: what is accepted must be in the language (a general grammar, which knows nothing of precedence)
namespace {
void edit_tokens(Src &src, std::vector<Tok> &t) {
    static const char *const P[] = {"(", ")", "[", "]", "{", "}", ",", ".", "..", ":", "|", "-", ">", "<", "*", "+", "=", "<>", "=~", "+=", "/", "%", "^", "$", "a", "b", "`c d`", "'s'", "\"t\"", "1", "2.5", "0", "1e3",
        "RETURN", "MATCH", "WHERE", "WITH", "AS", "DISTINCT", "ORDER", "BY", "SKIP", "LIMIT", "CREATE", "UNIQUE", "MERGE", "ON", "SET", "DELETE", "DETACH", "REMOVE", "FOREACH", "IN", "UNWIND", "CALL", "YIELD", "UNION", "ALL",
        "AND", "OR", "XOR", "NOT", "IS", "NULL", "TRUE", "FALSE", "CASE", "WHEN", "THEN", "ELSE", "END", "USING", "INDEX", "JOIN", "SCAN", "PERIODIC", "COMMIT", "LOAD", "CSV", "HEADERS", "FROM", "FIELDTERMINATOR", "START", "NODE",
        "REL", "OPTIONAL", "STARTS", "ENDS", "CONTAINS", "DESC", "ASC", "FILTER", "EXTRACT", "REDUCE", "ANY", "NONE", "SINGLE", "shortestPath", "DROP", "CONSTRAINT", "ASSERT", "UNIQUE", "EXPLAIN", "PROFILE", "CYPHER"};
    unsigned n = 1 + src.len(4, 1);
    for (unsigned i = 0; i < n && !t.empty(); i++) {
        size_t k = src.below((uint32_t)t.size());
        size_t at = src.below((uint32_t)t.size() + 1);
        static const char *const C[] = {",", "(", ")", ".", "|", "*", "-", ":", "="};
        unsigned from = src.below(3);
        Tok x; x.s = from == 0 ? std::string(src.pick(P)) : from == 1 ? t[src.below((uint32_t)t.size())].s : std::string(src.pick(C)); x.kw = isupper((unsigned char)x.s[0]) && isalpha((unsigned char)x.s[0]);
        switch (src.below(9)) {
        case 0: t.erase(t.begin() + (long)k); break;
        case 1: { Tok d = t[k]; d.gap = 0; t.insert(t.begin() + (long)k, d); break; }
        case 2: { size_t j = src.below((uint32_t)t.size()); std::swap(t[k], t[j]); break; }
        case 3: t[k].s = x.s; t[k].kw = x.kw; break;
        case 4: t.insert(t.begin() + (long)at, x); break;
        case 5: { size_t m = 1 + src.below(4), e = std::min(t.size(), k + m); std::vector<Tok> c(t.begin() + (long)k, t.begin() + (long)e); t.insert(t.begin() + (long)e, c.begin(), c.end()); break; }   // a part twice
        case 6: t.erase(t.begin() + (long)k, t.begin() + (long)std::min(t.size(), k + 2 + src.below(3))); break;
        case 7: {   // two words run together
            auto word = [](char c) { return isalnum((unsigned char)c) || c == '_' || c == '$'; };
            for (size_t j = k; j + 1 < t.size(); j++) if (!t[j].s.empty() && !t[j + 1].s.empty() && word(t[j].s.back()) && word(t[j + 1].s[0])) { t[j].s += t[j + 1].s; t.erase(t.begin() + (long)j + 1); break; }
            break;
        }
        default: { size_t j = src.below((uint32_t)t.size()), m = 1 + src.below(4); std::vector<Tok> c(t.begin() + (long)j, t.begin() + (long)std::min(t.size(), j + m)); t.insert(t.begin() + (long)at, c.begin(), c.end()); }
        }
    }
}
// The statements among the segments without errors
void in_language(Ctx &ctx, const std::string &in, const Parse &p, size_t *accepted) {
    for (auto &s : p.segs) {
        if (!s.directive || !s.errs.empty() || !is(s.directive, "STATEMENT")) continue;
        std::string t = in.substr(s.directive->range.start.offset, s.directive->range.end.offset - s.directive->range.start.offset);
        ++*accepted;
        std::string u = t;
        if (!lang::statement(u) && !u.empty() && u.back() == ';') u.pop_back();
        if (!lang::statement(u)) ctx.fail("accepted without error, but not a statement: " + pbt::quote(t) + strf(" (no statement begins with its first %zu bytes and what follows)", lang::furthest()));
    }
}
}
PROPERTY("C08", accepted, 30) {
    Opts o; o.depth = (int)src.below(4); o.clauses = 3; o.wild = src.below(4) == 0;
    G g(src, o);
    TP x = statement_any(g);
    g.emit(x);
    bool valid = src.below(8) == 0;
    if (!valid) edit_tokens(src, g.t);
    Style st; st.mode = (int)src.below(4); Layout l;
    if (src.coin()) for (auto &t : g.t) if (t.gap == 0) t.gap = 1;     // mostly, tokens are to stay what they are
    lay(src, g.t, st, l);
    if (src.coin()) l.src += ";";
    ctx.text(l.src); if (l.src.size() > 8) ctx.nontrivial();
    Parse p = parse_each(l.src, src.coin() ? CYPHER_PARSE_ONLY_STATEMENTS : 0);
    if (p.rc) ctx.fail("the parse failed");
    size_t n = 0;
    in_language(ctx, l.src, p, &n);
    ctx.cls(n ? (valid ? "valid" : "edited and accepted") : "not accepted");
    // and the other way: what no derivation allows, is reported somewhere
    std::string u = l.src; if (!u.empty() && u.back() == ';') u.pop_back();
    bool err = false; for (auto &s : p.segs) err |= !s.errs.empty();
    if (!err && p.segs.size() == 1 && !lang::statement(u) && p.segs[0].directive && is(p.segs[0].directive, "STATEMENT")) ctx.fail("not a statement, but no error was reported");
    if (valid && !lang::statement(u)) ctx.fail("(the grammar of the check does not have the generated statement " + pbt::quote(u) + strf(", it gets to %zu)", lang::furthest()));
}
// Every small edit of a small statement with a node of some type in it
PROPERTY("C08", each_edit, 10) {
    Opts o; o.wild = false; TP x;
    auto g = statement_of(src, o, (int)src.below((uint32_t)specs().size()), x);
    std::vector<Tok> t = g->t;
    if (t.size() > (ctx.tier ? 60u : 40u)) throw pbt::Discard();
    Style st; st.mode = (int)src.below(3); st.random_case = false;
    std::string lay0; { Layout l; lay(src, t, st, l); lay0 = l.src; }
    ctx.text("the edits of " + lay0); ctx.nontrivial();
    static const char *const W[] = {"a", "1", "'s'", "*", ",", ":", ".", "..", "|", "-", "=", "(", ")", "[", "]", "{", "}", "<", ">", "+", "NOT", "AS", "DISTINCT", "ALL", "IN", "NULL", "ASC", "UNIQUE"};
    std::string w = src.pick(W);
    size_t n = 0, tried = 0;
    auto word = [](char c) { return isalnum((unsigned char)c) || c == '_' || c == '$'; };
    unsigned stride = 1 + (unsigned)t.size() / 8, turn = src.below(stride);     // (of a longer statement some of the edits)
    auto tryit = [&](const std::vector<Tok> &e) {
        if (turn++ % stride) return;
        std::string in;
        for (size_t i = 0; i < e.size(); i++) { if (i && e[i].gap != 2) in += " "; in += e[i].s; }
        tried++;
        Parse p = parse_each(in, CYPHER_PARSE_ONLY_STATEMENTS);
        if (p.rc) ctx.fail("the parse failed");
        size_t k = 0; in_language(ctx, in, p, &k); n += k;
        bool err = false; for (auto &s : p.segs) err |= !s.errs.empty();
        if (!err && !k && in.find(';') == in.npos && !in.empty()) { bool any = false; for (auto &s : p.segs) any |= s.directive != nullptr; if (!any && !layout_only(in)) ctx.fail("neither a statement nor an error: " + pbt::quote(in)); }
    };
    for (size_t i = 0; i <= t.size(); i++) {
        for (size_t m = 1; m <= 3 && i + m <= t.size(); m++) { std::vector<Tok> e = t; e.insert(e.begin() + (long)(i + m), t.begin() + (long)i, t.begin() + (long)(i + m)); tryit(e); }
        for (size_t m = 1; m <= 3 && i + m <= t.size(); m++) { std::vector<Tok> e = t; e.erase(e.begin() + (long)i, e.begin() + (long)(i + m)); tryit(e); }
        { std::vector<Tok> e = t; Tok y; y.s = w; e.insert(e.begin() + (long)i, y); tryit(e); }
        if (i < t.size()) { std::vector<Tok> e = t; e[i].s = w; tryit(e); }
        if (i + 1 < t.size()) {
            std::vector<Tok> e = t; std::swap(e[i], e[i + 1]); tryit(e);
            if (word(t[i].s.back()) && word(t[i + 1].s[0])) { e = t; e[i].s += e[i + 1].s; e.erase(e.begin() + (long)i + 1); tryit(e); }
        }
    }
    ctx.cls(strf("%zu of 10 edits accepted", tried ? (10 * n + tried / 2) / tried : 0));
}
// Everything that is not blank or a comment is in a directive, in skipped text, or is a terminator
GUIDED_PROPERTY("C08", accounted, 20) {
    std::string in = input(src, ctx);
    unsigned flags = src.coin() ? CYPHER_PARSE_ONLY_STATEMENTS : 0;
    Problems pr; Parse p = parse_each(in, flags, nullptr, &pr);
    if (p.rc || !pr.empty()) ctx.fail("the parse failed");
    std::vector<char> cov(in.size(), 0);
    size_t skipped = 0;
    for (auto &s : p.segs) for (auto &r : s.roots) {
        for (size_t i = r->range.start.offset; i < r->range.end.offset; i++) cov[i] = 1;
        if (is_a(r->spec, "COMMENT")) { cov[r->range.start.offset - 1] = cov[r->range.start.offset - 2] = 1; if (is(r, "BLOCK_COMMENT")) { cov[r->range.end.offset] = cov[r->range.end.offset + 1] = 1; } }
        if (is(r, "ERROR")) skipped++;
    }
    for (size_t i = 0; i < in.size(); i++) if (!cov[i] && !strchr(" \t\r\n;", in[i])) ctx.fail(strf("the text at %zu is in no root: ", i) + pbt::quote(in.substr(i, 40)));
    for (size_t i = 0; i < in.size(); i++) if (!cov[i] && in[i] == '\0') ctx.fail(strf("the NUL at %zu is in no root", i));
    if (skipped) ctx.cls("text skipped");
    size_t n = 0;
    if (in.size() < 1500) in_language(ctx, in, p, &n);
    if (n) ctx.cls("statements accepted");
}
