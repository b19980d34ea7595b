// Segments, entry points, resumption, callbacks, aggregation, quick parser and commands.
#include "gen.hpp"
#include "stream.hpp"
#include "wrap.hpp"
#include <cerrno>
#include <memory>
#include <sys/mman.h>
using namespace ax;
using namespace gg;
using pbt::Src; using pbt::Ctx; using pbt::strf;

namespace {
const int FULL = D_RANGE | D_CHILDREN;
struct Cfg {
    cypher_parser_config_t *c;
    Cfg() : c(cypher_parser_new_config()) { if (!c) throw pbt::Fail{"no configuration"}; }
    ~Cfg() { cypher_parser_config_free(c); }
};
std::string pos_str(const struct cypher_input_position &p) { return strf("%u:%u:%zu", p.line, p.column, p.offset); }
bool same(const struct cypher_input_position &a, const struct cypher_input_position &b) { return a.line == b.line && a.column == b.column && a.offset == b.offset; }
bool nonempty_error(const std::string &m) { return m.compare(0, 14, "Invalid input ") == 0 && m.find(": expected ") != std::string::npos; }

// Text of programs, valid, damaged or arbitrary
std::string any_text(Src &src, Ctx &ctx, bool *valid = nullptr) {
    std::string k, s = wild(src, &k);
    ctx.cls("input: " + k);
    if (valid) *valid = k == "valid program";
    return s;
}
void describe(Ctx &ctx, const std::string &in) { ctx.text(in); if (in.size() > 8) ctx.nontrivial(); }

struct AllData { std::vector<Seg> segs; std::vector<std::string> rendered; Problems pr; };
int collect(void *d, cypher_parse_segment_t *s) {
    AllData *a = (AllData *)d;
    a->segs.push_back(get_seg(s, &a->pr));
    char *b = nullptr; size_t n = 0; FILE *f = open_memstream(&b, &n);
    int rc = cypher_parse_segment_fprint_ast(s, f, 0, nullptr, 0);
    fclose(f);
    a->rendered.push_back(rc ? "(failed)" : std::string(b, n));
    free(b);
    return 0;
}
size_t first_ordinal(const std::string &r, bool *any) {
    // lines are "@N  b..e  > ..."
    size_t p = r.find_first_not_of(' ');
    *any = p != std::string::npos && r[p] == '@';
    return *any ? strtoul(r.c_str() + p + 1, nullptr, 10) : 0;
}
}

// ---------------------------------------------------------------- C09

PROPERTY("C09", tiling, 3) {
    std::string in = any_text(src, ctx);
    describe(ctx, in);
    unsigned flags = src.coin() ? CYPHER_PARSE_ONLY_STATEMENTS : 0;
    Cfg cfg; unsigned ord0 = src.chance(1, 3) ? src.below(100000) : 0;
    cypher_parser_config_set_initial_ordinal(cfg.c, ord0);
    AllData a; struct cypher_input_position last = cypher_input_position_zero;
    int rc = cypher_uparse_each(in.data(), in.size(), collect, &a, &last, cfg.c, flags);
    if (rc) ctx.fail(strf("the parse failed with %d", rc));
    if (!a.pr.empty()) ctx.fail("ill-formed tree: " + a.pr[0]);
    Lines ln(in);
    struct cypher_input_position at = cypher_input_position_zero;
    size_t ord = ord0;
    if (in.empty()) { if (!a.segs.empty()) ctx.fail("a segment of an empty input"); return; }
    for (size_t i = 0; i < a.segs.size(); i++) {
        const Seg &s = a.segs[i];
        std::string w = strf("segment %zu ", i) + range_str(s.range) + ": ";
        if (!same(s.range.start, at)) ctx.fail(w + "does not begin where the one before it ended, " + pos_str(at));
        if (s.range.end.offset <= s.range.start.offset) ctx.fail(w + "empty");
        if (!ln.is(s.range.end)) ctx.fail(w + "line and column of its end do not belong to the offset");
        at = s.range.end;
        std::string d = structure(s.roots, in, s.range.start.offset, s.range.end.offset);
        if (!d.empty()) ctx.fail(w + d);
        size_t prev = 0; bool have = false;
        for (auto &e : s.errs) {
            // recovery may resume (and the segment end) before the point where the text was found to be wrong
            bool resumed = in[s.range.end.offset - 1] == ';' || (s.directive && !strcmp(specs()[s.directive->spec].name, "COMMAND"));
            if (e.pos.offset < s.range.start.offset || e.pos.offset > in.size() || (e.pos.offset > s.range.end.offset && !resumed)) ctx.fail(w + "error outside it: " + dump_err(e));
            if (!ln.is(e.pos)) ctx.fail(w + "line and column of an error do not belong to the offset: " + dump_err(e));
            if (have && e.pos.offset <= prev) ctx.fail(w + "errors out of order: " + dump_err(e));
            prev = e.pos.offset; have = true;
        }
        size_t n = 0, nd = 0;
        for (auto &r : s.roots) { n += count(r); const char *t = specs()[r->spec].name; if (!strcmp(t, "STATEMENT") || !strcmp(t, "COMMAND")) nd++; }
        if (nd > 1) ctx.fail(w + "more than one directive");
        if (nd == 1 && !s.directive) ctx.fail(w + "its directive is not reported");
        if (n != s.nnodes) ctx.fail(w + strf("%u nodes reported but %zu in the tree", s.nnodes, n));
        bool any; size_t o = first_ordinal(a.rendered[i], &any);
        if (n && (!any || o != ord)) ctx.fail(w + strf("ordinals begin at %zu, not %zu", o, ord));
        ord += n;
        if (i + 1 < a.segs.size() && s.eof) ctx.fail(w + "ended by the end of input, but more follow");
    }
    if (!same(at, last)) ctx.fail("the last position is " + pos_str(last) + " but the last segment ends at " + pos_str(at));
    if (at.offset != in.size()) ctx.fail(strf("the segments end at %zu, the input at %zu", at.offset, in.size()));
    ctx.cls(strf("segments %s", a.segs.size() < 2 ? "1" : a.segs.size() < 5 ? "2-4" : "5+"));
    bool er = false; for (auto &s : a.segs) er |= !s.errs.empty();
    ctx.cls(er ? "with errors" : "no errors");
}

namespace {
// A piece of text that is complete: what follows it cannot change how it is read.
std::string piece(Src &src, bool commands) {
    if (src.chance(1, 3)) {
        // damaged, without anything that could stay open
        std::string s = src.coin() ? soup(src, 20) : [&] { POpts po; po.gram.depth = 1; po.max = 1; po.gram.wild = false; po.commands = 0; po.mode = (int)src.below(3); po.tail = false; return mutate(src, program(src, po).l.src, 1 + src.below(3)); }();
        std::string o; bool opt = strcasestr(std::string(s.c_str(), s.size()).c_str(), "cypher") || s.find('\0') != s.npos; // the value of an option ends only at a blank
        for (size_t i = 0; i < s.size(); i++) { char c = s[i]; if (opt && c == '=') c = '.'; if (strchr("'\"`\\;:/\r", c)) c = c == '\r' ? ' ' : '.'; o += c; }
        return o + ";";
    }
    POpts po; po.gram.depth = (int)src.below(3); po.gram.clauses = 3; po.gram.wild = src.coin(); po.max = 1; po.tail = false; po.commands = commands ? 3 : 0;
    Program p = program(src, po);
    std::string s = p.l.src;
    if (p.dirs[0].cmd) { if (!p.dirs[0].term) s += "\n"; }
    else if (!p.dirs[0].semi) s += ";";
    return s;
}
}
PROPERTY("C09", concatenation, 2) {
    unsigned n = 2 + src.len(5, 1);
    bool cmds = src.coin();
    std::vector<std::string> ps; std::string in;
    for (unsigned i = 0; i < n; i++) { ps.push_back(piece(src, cmds)); in += ps.back(); }
    describe(ctx, in);
    unsigned flags = cmds ? 0 : CYPHER_PARSE_ONLY_STATEMENTS;
    Parse whole = parse_each(in, flags);
    if (whole.rc) ctx.fail("the parse failed");
    std::string want, got;
    Lines ln(in);
    size_t off = 0;
    for (auto &p : ps) {
        Parse one = parse_each(p, flags);
        if (one.rc) ctx.fail("the parse of one piece failed");
        struct cypher_input_position base = ln.pos(off);
        for (auto &s : one.segs) {
            if (s.eof) ctx.fail("a terminated piece ends by end of input: " + pbt::quote(p));
            s.range.start = shifted(s.range.start, base); s.range.end = shifted(s.range.end, base);
            for (auto &r : s.roots) shift(r, base);
            for (auto &e : s.errs) e.pos = shifted(e.pos, base);
            want += dump_seg(s, FULL, false);
        }
        off += p.size();
    }
    for (auto &s : whole.segs) got += dump_seg(s, FULL, false);
    if (want != got) ctx.fail("the parts parsed alone and together " + first_diff(want, got));
}

// ---------------------------------------------------------------- C10

namespace {
std::string segs_str(const std::vector<Seg> &v) { std::string o; for (auto &s : v) o += dump_seg(s, FULL, false) + (s.eof ? " eof\n" : "\n"); return o; }
// what a result must hold, given the segments
ResultView aggregate(const std::vector<Seg> &v) {
    ResultView r;
    for (auto &s : v) {
        r.roots.insert(r.roots.end(), s.roots.begin(), s.roots.end());
        if (s.directive) r.directives.push_back(s.directive);
        r.errs.insert(r.errs.end(), s.errs.begin(), s.errs.end());
        r.nnodes += s.nnodes;
        if (s.eof && (s.directive || !s.errs.empty())) r.eof = true;
    }
    return r;
}
std::string long_text(Src &src, Ctx &ctx) {
    std::string s = any_text(src, ctx);
    if (src.chance(1, 3)) {
        // around the sizes of the parser's buffers
        static const int T[] = {512, 1024, 2048, 4096, 8192};
        size_t want = (size_t)(src.pick(T) + src.range(-4, 4));
        POpts po; po.gram.depth = 2; po.max = 4; po.commands = src.coin() ? 2 : 0;
        std::string q = s + "\n";
        while (q.size() < want / 2) { std::string p = program(src, po).l.src; q += p + ";\n"; if (p.empty()) break; }
        while (q.size() < want) switch (src.below(3)) { case 0: q += "return 1;"; break; case 1: q += ' '; break; default: q += "//c\n"; }
        s = q;
    }
    return s;
}
}
PROPERTY("C10", entry_points, 1) {
    std::string in = long_text(src, ctx);
    describe(ctx, in);
    ctx.cls(in.size() < 1000 ? "under 1000 bytes" : in.size() < 4000 ? "1000 to 4000 bytes" : "over 4000 bytes");
    unsigned flags = src.coin() ? CYPHER_PARSE_ONLY_STATEMENTS : 0;
    if (src.chance(1, 4)) flags |= CYPHER_PARSE_SINGLE;
    // exactly sized copy, not terminated
    std::unique_ptr<char[]> exact(new char[in.size()]); memcpy(exact.get(), in.data(), in.size());
    struct cypher_input_position l0 = cypher_input_position_zero, l1 = l0, l2 = l0, l3 = l0, l4 = l0;
    AllData a, b;
    int r0 = cypher_uparse_each(exact.get(), in.size(), collect, &a, &l0, nullptr, flags);
    std::unique_ptr<InStream> st(InStream::random(src, in));
    int r1 = cypher_fparse_each(st->f, collect, &b, &l1, nullptr, flags);
    if (r0 || r1) ctx.fail(strf("failed: %d from memory, %d from a stream", r0, r1));
    std::string sa = segs_str(a.segs), sb = segs_str(b.segs);
    if (sa != sb) ctx.fail("from memory and from a stream " + first_diff(sa, sb));
    if (a.rendered != b.rendered) ctx.fail("renderings differ between memory and stream");
    if (!same(l0, l1)) ctx.fail("last positions differ: " + pos_str(l0) + " from memory, " + pos_str(l1) + " from a stream");
    ResultView want = aggregate(a.segs);
    std::string sw = dump_result(want, FULL, false);
    for (int k = 0; k < 2; k++) {
        std::unique_ptr<InStream> st2(k ? InStream::random(src, in) : nullptr);
        struct cypher_input_position &l = k ? l3 : l2;
        cypher_parse_result_t *r = k ? cypher_fparse(st2->f, &l, nullptr, flags) : cypher_uparse(exact.get(), in.size(), &l, nullptr, flags);
        const char *w = k ? "cypher_fparse" : "cypher_uparse";
        if (!r) ctx.fail(std::string(w) + " returned no result");
        Problems pr; ResultView v = get_result(r, &pr);
        char *bb = nullptr; size_t bn = 0; FILE *f = open_memstream(&bb, &bn);
        int prc = cypher_parse_result_fprint_ast(r, f, 0, nullptr, 0);
        fclose(f); std::string ren(bb, bn); free(bb);
        cypher_parse_result_free(r);
        if (!pr.empty()) ctx.fail(std::string(w) + ": " + pr[0]);
        std::string s = dump_result(v, FULL, false);
        if (s != sw) ctx.fail(std::string(w) + " and the segments " + first_diff(sw, s));
        if (v.eof != want.eof) ctx.fail(std::string(w) + " reports another end-of-input indication");
        if (!same(l, l0)) ctx.fail(std::string(w) + " reports another last position");
        if (prc) ctx.fail("printing failed");
        // the same lines, but for the width of the columns
        auto squeeze = [](const std::string &x) { std::string o; for (size_t i = 0; i < x.size(); i++) if (x[i] != ' ' || (i && x[i - 1] != ' ')) o += x[i]; return o; };
        std::string all; for (auto &x : a.rendered) all += x;
        auto strip = [&](std::string x) { std::string o; for (char c : squeeze(x)) if (c != ' ') o += c; return o; };
        if (strip(all) != strip(ren)) ctx.fail(std::string(w) + ": printed result and printed segments " + first_diff(strip(all), strip(ren)));
    }
    if (in.find('\0') == std::string::npos) {
        cypher_parse_result_t *r = cypher_parse(in.c_str(), &l4, nullptr, flags);
        if (!r) ctx.fail("cypher_parse returned no result");
        Problems pr; ResultView v = get_result(r, &pr);
        cypher_parse_result_free(r);
        if (dump_result(v, FULL, false) != sw || !same(l4, l0)) ctx.fail("cypher_parse differs from the segments");
        AllData e; struct cypher_input_position l5 = cypher_input_position_zero;
        if (cypher_parse_each(in.c_str(), collect, &e, &l5, nullptr, flags)) ctx.fail("cypher_parse_each failed");
        if (segs_str(e.segs) != sa || !same(l5, l0)) ctx.fail("cypher_parse_each differs from cypher_uparse_each");
    }
}

// ---------------------------------------------------------------- C11
namespace {
struct StopAfter { AllData *a; size_t left; int value; };
int collect_stop(void *d, cypher_parse_segment_t *seg) {
    StopAfter *s = (StopAfter *)d;
    if (int rc = collect(s->a, seg)) return rc;
    if (s->left) s->left--;
    return s->left ? 0 : s->value;
}
}

PROPERTY("C11", resume, 2) {
    std::string in = long_text(src, ctx);
    describe(ctx, in);
    unsigned flags = src.coin() ? CYPHER_PARSE_ONLY_STATEMENTS : 0;
    unsigned ord0 = src.coin() ? src.below(1000) : 0;
    Cfg cfg; cypher_parser_config_set_initial_ordinal(cfg.c, ord0);
    AllData whole; struct cypher_input_position last = cypher_input_position_zero;
    if (cypher_uparse_each(in.data(), in.size(), collect, &whole, &last, cfg.c, flags)) ctx.fail("the parse failed");
    bool stream = src.coin();
    AllData part; struct cypher_input_position at = cypher_input_position_zero; unsigned ord = ord0;
    std::unique_ptr<InStream> st;
    size_t steps = 0;
    while (at.offset < in.size()) {
        cypher_parser_config_set_initial_position(cfg.c, at);
        cypher_parser_config_set_initial_ordinal(cfg.c, ord);
        size_t before = part.segs.size();
        struct cypher_input_position l = at;
        std::string rest = in.substr(at.offset);
        // stopped by the single flag, or by the callback after a few segments
        StopAfter stop{&part, 1, 0};
        if (src.chance(1, 3)) { stop.left = 1 + src.below(3); stop.value = src.coin() ? 1 : 1 + (int)src.below(1000); ctx.cls("stopped by the callback"); }
        unsigned how = stop.value ? flags : flags | CYPHER_PARSE_SINGLE;
        int rc;
        if (stream) { st.reset(InStream::random(src, rest)); rc = cypher_fparse_each(st->f, collect_stop, &stop, &l, cfg.c, how); }
        else rc = cypher_uparse_each(rest.data(), rest.size(), collect_stop, &stop, &l, cfg.c, how);
        if (rc) ctx.fail("a stopped parse failed");
        size_t got = part.segs.size() - before;
        if (stop.value ? got == 0 || (stop.left && l.offset != in.size()) : got != 1) ctx.fail(strf("a stopped parse delivered %zu segments", got));
        if (!same(l, part.segs.back().range.end)) ctx.fail("the last position is not the end of the segment: " + pos_str(l));
        if (l.offset <= at.offset) ctx.fail("a stopped parse consumed nothing");
        if (!same(part.segs[before].range.start, at)) ctx.fail("the segment does not begin at the initial position");
        for (size_t k = before; k + 1 < part.segs.size(); k++) ord += part.segs[k].nnodes;
        at = l; ord += part.segs.back().nnodes;
        if (++steps > in.size()) ctx.fail("too many steps");
    }
    // What can differ is whether an empty remainder is seen after the last terminator.
    std::string a = segs_str(whole.segs), b = segs_str(part.segs);
    if (a != b) ctx.fail("at once and one by one " + first_diff(a, b));
    if (whole.rendered != part.rendered) for (size_t i = 0; i < whole.rendered.size(); i++) if (whole.rendered[i] != part.rendered[i]) ctx.fail("rendering of a segment at once and one by one " + first_diff(whole.rendered[i], part.rendered[i]));
    ctx.cls(strf("segments %s", part.segs.size() < 2 ? "1" : part.segs.size() < 5 ? "2-4" : "5+"));
    // the result interface
    Cfg c2; struct cypher_input_position l = cypher_input_position_zero;
    cypher_parser_config_set_initial_ordinal(c2.c, ord0);
    cypher_parse_result_t *r = cypher_uparse(in.data(), in.size(), &l, c2.c, flags | CYPHER_PARSE_SINGLE);
    if (!r) ctx.fail("a single parse returned no result");
    Problems pr; ResultView v = get_result(r, &pr); cypher_parse_result_free(r);
    std::vector<Seg> first(whole.segs.begin(), whole.segs.begin() + (whole.segs.empty() ? 0 : 1));
    if (dump_result(aggregate(first), FULL, false) != dump_result(v, FULL, false)) ctx.fail("a single parse into a result differs from the first segment");
}
PROPERTY("C11", shifted_start, 2) {
    std::string in = any_text(src, ctx);
    for (char &c : in) if (c == '@') c = 'q';
    describe(ctx, in);
    unsigned flags = src.coin() ? CYPHER_PARSE_ONLY_STATEMENTS : 0;
    struct cypher_input_position base = {1 + src.len(2000, 3), 1 + src.len(3000, 5), 0};
    bool consistent = src.coin();
    base.offset = consistent ? (size_t)(base.line - 1) + base.column - 1 : src.u64() >> (8 + src.below(50));
    AllData a, b; struct cypher_input_position la = cypher_input_position_zero, lb = base;
    if (cypher_uparse_each(in.data(), in.size(), collect, &a, &la, nullptr, flags)) ctx.fail("the parse failed");
    Cfg cfg; cypher_parser_config_set_initial_position(cfg.c, base);
    unsigned ord = src.coin() ? src.below(1u << (1 + src.below(24))) : 0;
    cypher_parser_config_set_initial_ordinal(cfg.c, ord);
    if (cypher_uparse_each(in.data(), in.size(), collect, &b, &lb, cfg.c, flags)) ctx.fail("the parse failed");
    for (auto &s : a.segs) {
        s.range.start = shifted(s.range.start, base); s.range.end = shifted(s.range.end, base);
        for (auto &r : s.roots) shift(r, base);
        for (auto &e : s.errs) e.pos = shifted(e.pos, base);
    }
    std::string sa, sb; for (auto &s : a.segs) sa += dump_seg(s, FULL, true) + (s.eof ? "eof" : ""); for (auto &s : b.segs) sb += dump_seg(s, FULL, true) + (s.eof ? "eof" : "");
    if (sa != sb) ctx.fail("initial position " + pos_str(base) + ": " + first_diff(sa, sb));
    if (!in.empty() && !same(shifted(la, base), lb)) ctx.fail("the last position is not shifted: " + pos_str(lb));
    // ordinals and offsets in the rendering
    for (size_t i = 0; i < a.rendered.size(); i++) {
        auto norm = [&](const std::string &x, size_t ob, size_t pb) {
            std::string o; bool ok = true;
            size_t p = 0;
            while (p < x.size()) {
                size_t e = x.find('\n', p); if (e == std::string::npos) e = x.size();
                std::string line = x.substr(p, e - p), r;
                // "@ord  start..end  detail"
                size_t q = line.find_first_not_of(' ');
                unsigned long n, s1, e1; int used = 0;
                if (q != std::string::npos && sscanf(line.c_str() + q, "@%lu %lu..%lu%n", &n, &s1, &e1, &used) == 3) { r = strf("%ld %ld..%ld", (long)(n - ob), (long)(s1 - pb), (long)(e1 - pb)); q += used; } else { ok = false; q = 0; }
                for (; q < line.size(); q++) {
                    if (line[q] == ' ') continue;
                    if (line[q] == '@' && q + 1 < line.size() && isdigit((unsigned char)line[q + 1])) { char *z; unsigned long v = strtoul(line.c_str() + q + 1, &z, 10); r += strf("@%ld", (long)(v - ob)); q = (size_t)(z - line.c_str()) - 1; }
                    else r += line[q];
                }
                o += r + "\n"; p = e + 1;
            }
            (void)ok;
            return o;
        };
        // texts with line ends are not separable into lines
        std::string na = norm(a.rendered[i], 0, 0), nb = norm(b.rendered[i], ord, base.offset);
        if (in.find_first_of("\n\r") == std::string::npos && na != nb) ctx.fail(strf("initial ordinal %u: rendering ", ord) + first_diff(na, nb));
    }
    if (consistent) {
        std::string pre(base.line - 1, '\n'); pre += std::string(base.column - 1, ' ');
        Parse w = parse_each(pre + in, flags);
        std::string ra, rb;
        for (auto &s : w.segs) { for (auto &r : s.roots) ra += dump(r, FULL) + "\n"; for (auto &e : s.errs) ra += dump_err(e, false) + "\n"; }
        for (auto &s : b.segs) { for (auto &r : s.roots) rb += dump(r, FULL) + "\n"; for (auto &e : s.errs) rb += dump_err(e, false) + "\n"; }
        if (ra != rb) ctx.fail("real blanks before the input and initial position " + pos_str(base) + ": " + first_diff(ra, rb));
        ctx.cls("compared with real blanks");
    }
}

// ---------------------------------------------------------------- C12

namespace {
struct CbData {
    std::vector<int> rets; size_t calls = 0;
    std::vector<std::pair<cypher_parse_segment_t *, unsigned>> kept; std::vector<std::string> dumps; std::vector<unsigned> retain; std::vector<Rng> ranges;
    bool nested = false; int err = 0;
};
int cb12(void *d, cypher_parse_segment_t *s) {
    CbData *c = (CbData *)d;
    size_t i = c->calls++;
    unsigned k = i < c->retain.size() ? c->retain[i] : 0;
    c->ranges.push_back(cypher_parse_segment_get_range(s));
    if (k) {
        for (unsigned j = 0; j < k; j++) cypher_parse_segment_retain(s);
        c->kept.push_back({s, k}); Problems p; c->dumps.push_back(dump_seg(get_seg(s, &p), FULL, true));
    }
    if (c->nested) { cypher_parse_result_t *r = cypher_uparse("RETURN 1;", 9, nullptr, nullptr, 0); cypher_parse_result_free(r); }
    errno = c->err;
    return i < c->rets.size() ? c->rets[i] : 0;
}
}
PROPERTY("C12", callbacks, 3) {
    std::string in;
    unsigned n = 1 + src.len(8, 3);
    for (unsigned i = 0; i < n; i++) in += piece(src, true);
    if (src.chance(1, 4)) in = any_text(src, ctx);
    describe(ctx, in);
    Parse ref = parse_each(in, 0);
    CbData c;
    size_t total = ref.segs.size();
    size_t stop = src.below((uint32_t)total + 2);
    static const int V[] = {1, -1, 2, -2, 100, -100, INT32_MAX, INT32_MIN, -77};
    int v = src.pick(V);
    c.rets.assign(total + 2, 0);
    if (stop < total) c.rets[stop] = v;
    for (size_t i = 0; i < total; i++) c.retain.push_back(src.coin() ? src.below(4) : 0);
    c.nested = src.chance(1, 8);
    static const int ERRS[] = {0, ENOENT, ENOMEM, EINVAL, EIO}; c.err = src.pick(ERRS);
    bool early = src.coin();
    unsigned flags = src.chance(1, 5) ? CYPHER_PARSE_SINGLE : 0;
    bool use_stream = src.coin();
    std::unique_ptr<InStream> st(use_stream ? InStream::random(src, in) : nullptr);
    struct cypher_input_position last = {9, 9, 9};
    std::unique_ptr<char[]> copy(new char[in.size()]); memcpy(copy.get(), in.data(), in.size());
    vp::track_begin();
    int rc = use_stream ? cypher_fparse_each(st->f, cb12, &c, &last, nullptr, flags) : cypher_uparse_each(copy.get(), in.size(), cb12, &c, &last, nullptr, flags);
    st.reset(); copy.reset();
    size_t want_calls = (flags & CYPHER_PARSE_SINGLE) ? std::min<size_t>(total, 1) : total;
    int want_rc = 0;
    if (stop < want_calls) { want_calls = stop + 1; if (v < 0) want_rc = v; }
    if (c.calls != want_calls) ctx.fail(strf("%zu calls of the callback, expected %zu", c.calls, want_calls));
    if (rc != want_rc) ctx.fail(strf("returned %d, expected %d", rc, want_rc));
    for (size_t i = 0; i < c.calls; i++) if (range_str(c.ranges[i]) != range_str(ref.segs[i].range)) ctx.fail("segments delivered out of order");
    if (c.calls && !same(last, c.ranges.back().end)) ctx.fail("the last position is not the end of the last segment delivered: " + pos_str(last));
    // what was retained is intact; released one reference at a time, in any order
    std::vector<size_t> left; for (size_t i = 0; i < c.kept.size(); i++) left.push_back(i);
    while (!left.empty()) {
        size_t q = early ? 0 : src.below((uint32_t)left.size()); size_t i = left[q];
        Problems p; std::string d = dump_seg(get_seg(c.kept[i].first, &p), FULL, true);
        if (d != c.dumps[i]) ctx.fail("a retained segment changed: " + first_diff(c.dumps[i], d));
        cypher_parse_segment_release(c.kept[i].first);
        if (--c.kept[i].second == 0) left.erase(left.begin() + (long)q);
    }
    size_t bytes, lost = vp::track_end(&bytes);
    if (lost) ctx.fail(strf("%zu blocks (%zu bytes) were not freed", lost, bytes));
    ctx.cls(stop >= total ? "not stopped" : v < 0 ? "stopped with failure" : "stopped with success");
    if (!c.dumps.empty()) ctx.cls("segments retained");
}
namespace {
struct QSeg { bool stmt, cmd; std::string text; Rng range; struct cypher_input_position next; bool eof; };
struct QData { std::vector<QSeg> v; std::vector<int> rets; int err = 0; };
int qcb(void *d, const cypher_quick_parse_segment_t *s) {
    QData *q = (QData *)d; size_t n = 0xdead;
    const char *t = cypher_quick_parse_segment_get_text(s, &n);
    q->v.push_back({cypher_quick_parse_segment_is_statement(s), cypher_quick_parse_segment_is_command(s), std::string(t, n), cypher_quick_parse_segment_get_range(s), cypher_quick_parse_segment_get_next(s), cypher_quick_parse_segment_is_eof(s)});
    size_t i = q->v.size() - 1;
    errno = q->err;
    return i < q->rets.size() ? q->rets[i] : 0;
}
}
PROPERTY("C12", quick_callbacks, 1) {
    std::string in = any_text(src, ctx);
    describe(ctx, in);
    unsigned flags = src.coin() ? CYPHER_PARSE_ONLY_STATEMENTS : 0;
    QData all, q;
    if (cypher_quick_uparse(in.data(), in.size(), qcb, &all, flags)) ctx.fail("the quick parse failed");
    size_t total = all.v.size(), stop = src.below((uint32_t)total + 2);
    static const int V[] = {1, -1, 2, -2, 100, -100, INT32_MAX, INT32_MIN};
    int v = src.pick(V);
    q.err = src.coin() ? ENOENT : 0;
    q.rets.assign(total + 2, 0); if (stop < total) q.rets[stop] = v;
    if (src.chance(1, 5)) flags |= CYPHER_PARSE_SINGLE;
    bool use_stream = src.coin();
    std::unique_ptr<InStream> st(use_stream ? InStream::random(src, in) : nullptr);
    vp::track_begin();
    int rc = use_stream ? cypher_quick_fparse(st->f, qcb, &q, flags) : cypher_quick_uparse(in.data(), in.size(), qcb, &q, flags);
    size_t lost = vp::track_end();
    size_t want = (flags & CYPHER_PARSE_SINGLE) ? std::min<size_t>(total, 1) : total; int wrc = 0;
    if (stop < want) { want = stop + 1; if (v < 0) wrc = v; }
    if (q.v.size() != want) ctx.fail(strf("%zu calls of the callback, expected %zu", q.v.size(), want));
    if (rc != wrc) ctx.fail(strf("returned %d, expected %d", rc, wrc));
    for (size_t i = 0; i < want; i++) if (q.v[i].text != all.v[i].text || range_str(q.v[i].range) != range_str(all.v[i].range)) ctx.fail("segments differ");
    if (lost) ctx.fail(strf("%zu blocks were not freed", lost));
}

// ---------------------------------------------------------------- C10, quick parser

PROPERTY("C10", quick_entry_points, 1) {
    std::string in = long_text(src, ctx);
    describe(ctx, in);
    unsigned flags = src.coin() ? CYPHER_PARSE_ONLY_STATEMENTS : 0;
    if (src.chance(1, 4)) flags |= CYPHER_PARSE_SINGLE;
    std::unique_ptr<char[]> exact(new char[in.size()]); memcpy(exact.get(), in.data(), in.size());
    QData a, b, c;
    if (cypher_quick_uparse(exact.get(), in.size(), qcb, &a, flags)) ctx.fail("the quick parse failed");
    std::unique_ptr<InStream> st(InStream::random(src, in));
    if (cypher_quick_fparse(st->f, qcb, &b, flags)) ctx.fail("the quick parse of a stream failed");
    bool terminated = in.find('\0') == std::string::npos;
    if (terminated && cypher_quick_parse(in.c_str(), qcb, &c, flags)) ctx.fail("the quick parse of a string failed");
    auto str = [](const QData &q) { std::string o; for (auto &s : q.v) o += strf("%d%d %s next %s eof=%d ", s.stmt, s.cmd, range_str(s.range).c_str(), pos_str(s.next).c_str(), s.eof) + pbt::quote(s.text) + "\n"; return o; };
    std::string sa = str(a), sb = str(b), sc = str(c);
    if (sa != sb) ctx.fail("quick parses of memory and of a stream " + first_diff(sa, sb));
    if (terminated && sa != sc) ctx.fail("quick parses of memory and of a string " + first_diff(sa, sc));
}

namespace {
// A buffer of many gigabytes, of which only the first page is ever written or read far into.
char *huge_buffer(size_t n) {
    static char *m = nullptr; static bool tried = false;
    if (!tried) { tried = true; void *p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); m = p == MAP_FAILED ? nullptr : (char *)p; }
    return m;
}
}
PROPERTY("C10", huge_buffers, 1) {
    // The length given must not matter to a parse that stops before the end: 2 and 4 GiB are where an int and an unsigned int end.
    const size_t MAX = (size_t)9 << 30;
    bool cmds = src.coin();
    std::string in = piece(src, cmds);
    describe(ctx, in);
    unsigned flags = (cmds ? 0 : CYPHER_PARSE_ONLY_STATEMENTS) | CYPHER_PARSE_SINGLE;
    static const size_t B[] = {(size_t)1 << 31, (size_t)1 << 32, (size_t)3 << 31, (size_t)1 << 33};
    size_t n = src.pick(B) + (size_t)(long)src.range(-3, 3);
    if (src.chance(1, 4)) n += src.below(1u << 20);
    if (src.chance(1, 6)) n = in.size() + src.below(1u << 30);
    ctx.cls(n > 0xffffffffu ? "4 GiB and more" : n > 0x7fffffffu ? "2 GiB and more" : "under 2 GiB");
    char *m = huge_buffer(MAX);
    if (!m) { ctx.cls("no address space"); throw pbt::Discard{}; }
    if (in.size() > ((size_t)1 << 20)) throw pbt::Discard{};
    if (strcasestr(in.c_str(), "cypher") && in.find_first_of("'\"`/") != in.npos) throw pbt::Discard{}; // an option's value may open what the quick parser then reads to the end
    AllData a, b; struct cypher_input_position la = cypher_input_position_zero, lb = la;
    QData qa, qb;
    if (cypher_uparse_each(in.data(), in.size(), collect, &a, &la, nullptr, flags)) ctx.fail("the parse failed");
    if (cypher_quick_uparse(in.data(), in.size(), qcb, &qa, flags)) ctx.fail("the quick parse failed");
    if (a.segs.empty() || a.segs[0].eof) throw pbt::Discard{};
    if (!qa.v.empty() && qa.v[0].eof) qa.v.clear();
    memcpy(m, in.data(), in.size());
    int rb = cypher_uparse_each(m, n, collect, &b, &lb, nullptr, flags), rq = 0;
    if (qa.v.size()) rq = cypher_quick_uparse(m, n, qcb, &qb, flags);
    cypher_parse_result_t *r = cypher_uparse(m, n, nullptr, nullptr, flags);
    ResultView v; Problems pr; if (r) v = get_result(r, &pr);
    cypher_parse_result_free(r);
    memset(m, 0, in.size());
    if (rb || rq || !r) ctx.fail(strf("with a length of %zu the parse failed", n));
    std::string sa = segs_str(a.segs), sb = segs_str(b.segs);
    if (sa != sb || !same(la, lb)) ctx.fail(strf("with a length of %zu: ", n) + first_diff(sa, sb));
    if (dump_result(aggregate(a.segs), FULL, false) != dump_result(v, FULL, false)) ctx.fail(strf("with a length of %zu the result differs", n));
    auto str = [](const QData &q) { std::string o; for (auto &s : q.v) o += strf("%d%d %s next %s ", s.stmt, s.cmd, range_str(s.range).c_str(), pos_str(s.next).c_str()) + pbt::quote(s.text) + "\n"; return o; };
    if (str(qa) != str(qb)) ctx.fail(strf("with a length of %zu: quick parse ", n) + first_diff(str(qa), str(qb)));
}

// ---------------------------------------------------------------- C13

PROPERTY("C13", aggregates, 1) {
    std::string in;
    if (src.chance(1, 3)) { unsigned n = src.len(60, 8); for (unsigned i = 0; i < n; i++) { static const char *const P[] = {"RETURN 1;", ":a\n", "foo;", ";", "//c\n", "/*c*/", "MATCH (a) b;", ":\n", " ", "CREATE (a),(b);", "RETURN $ 1; "}; in += src.pick(P); } if (src.coin()) in += src.coin() ? "RETURN 1" : "foo"; }
    else in = any_text(src, ctx);
    describe(ctx, in);
    unsigned flags = (src.coin() ? CYPHER_PARSE_ONLY_STATEMENTS : 0) | (src.chance(1, 6) ? CYPHER_PARSE_SINGLE : 0);
    Parse p = parse_each(in, flags);
    if (p.rc) ctx.fail("the parse failed");
    ResultView want = aggregate(p.segs);
    vp::track_begin();
    cypher_parse_result_t *r = cypher_uparse(in.data(), in.size(), nullptr, nullptr, flags);
    if (!r) ctx.fail("no result");
    Problems pr; ResultView v = get_result(r, &pr);
    if (cypher_parse_result_ndirectives(r) != want.directives.size() || cypher_parse_result_nroots(r) != want.roots.size() || cypher_parse_result_nerrors(r) != want.errs.size())
        ctx.fail(strf("counts: %u roots, %u directives, %u errors; the segments had %zu, %zu, %zu", cypher_parse_result_nroots(r), cypher_parse_result_ndirectives(r), cypher_parse_result_nerrors(r), want.roots.size(), want.directives.size(), want.errs.size()));
    for (unsigned k : {0u, 1u, 5u, 1000u, 0xffffffffu}) {
        auto past = [&](size_t n) { return (unsigned)std::min<uint64_t>(0xffffffffu, n + (uint64_t)k); };
        if (cypher_parse_result_get_root(r, past(want.roots.size())) || cypher_parse_result_get_directive(r, past(want.directives.size())) || cypher_parse_result_get_error(r, past(want.errs.size()))) ctx.fail("something is found past the end");
    }
    cypher_parse_result_free(r);
    size_t lost = vp::track_end();
    if (lost) ctx.fail(strf("%zu blocks were not freed", lost));
    if (!pr.empty()) ctx.fail(pr[0]);
    std::string a = dump_result(want, FULL, true), b = dump_result(v, FULL, true);
    if (a != b) ctx.fail("segments and result " + first_diff(a, b));
    size_t n = 0; for (auto &x : v.roots) n += count(x);
    if (n != v.nnodes) ctx.fail(strf("%u nodes reported, %zu reachable", v.nnodes, n));
    if (v.eof != want.eof) ctx.fail(strf("end-of-input indication is %d", v.eof));
    // and that is: was the last directive or error ended by the end of input?
    ctx.cls(strf("directives %s", want.directives.size() < 2 ? "0-1" : want.directives.size() < 9 ? "2-8" : "9+"));
    ctx.cls(strf("errors %s", want.errs.size() < 1 ? "0" : want.errs.size() < 9 ? "1-8" : "9+"));
}
namespace { bool lay_only(const std::string &s) { for (char c : s) if (!strchr(" \t\n", c)) return false; return true; } }
PROPERTY("C13", end_of_input, 1) {
    POpts po; po.max = 4; po.gram.depth = 1; po.gram.clauses = 2; po.tail = false; po.min = 1;
    Program p = program(src, po);
    std::string in = p.l.src;
    const Dir &d = p.dirs.back();
    bool ended = d.term;
    std::string tail; if (ended) { static const char *const T[] = {"", " ", "\n", "\t\n ", "//c", "/*c*/", "//c\n"}; tail = src.pick(T); in += tail; }
    (void)lay_only;
    describe(ctx, in);
    cypher_parse_result_t *r = cypher_uparse(in.data(), in.size(), nullptr, nullptr, 0);
    if (!r) ctx.fail("no result");
    bool e = cypher_parse_result_eof(r); unsigned nd = cypher_parse_result_ndirectives(r);
    cypher_parse_result_free(r);
    if (nd != p.dirs.size()) ctx.fail("wrong number of directives");
    if (e == ended) ctx.fail(strf("the last directive was %sterminated but the end-of-input indication is %d", ended ? "" : "not ", e));
}

// ---------------------------------------------------------------- C14

namespace {
// The splitter, written from the documentation: one left-to-right scan.
struct Splitter {
    const std::string &s; size_t i = 0; bool only;
    struct Part { bool stmt; size_t b, e, next; bool eof; };
    std::vector<Part> out;
    Splitter(const std::string &in, bool o) : s(in), only(o) {}
    bool at(const char *t) const { return s.compare(i, strlen(t), t) == 0; }
    bool eol() const { return i < s.size() && (s[i] == '\n' || at("\r\n")); }
    void skip_eol() { i += s[i] == '\r' ? 2 : 1; }
    bool block() {                                           // a closed block comment
        if (!at("/*")) return false;
        size_t e = s.find("*/", i + 2);
        if (e == std::string::npos) return false;
        i = e + 2; return true;
    }
    bool line() {
        if (!at("//")) return false;
        while (i < s.size() && !eol()) i++;
        return true;
    }
    bool blank(bool lines) {                                 // one blank or comment
        if (i >= s.size()) return false;
        if (s[i] == ' ' || s[i] == '\t') { i++; return true; }
        if (block()) return true;
        if (!lines) return false;
        if (eol()) { skip_eol(); return true; }
        if (line()) { if (eol()) skip_eol(); return true; }
        return false;
    }
    bool escape(const char *set) { if (i + 1 < s.size() && s[i] == '\\' && strchr(set, s[i + 1]) && s[i + 1]) { i += 2; return true; } return false; }
    static const char *esc() { return "abfnrtv\"'?\\"; }
    void quoted(char q) {
        i++;
        while (i < s.size() && s[i] != q) if (q == '`' || !escape(esc())) i++;
        if (i < s.size()) i++;
    }
    void item(bool cmd) {
        if (at("/*")) { i = s.size(); return; }              // never closed
        char c = s[i];
        if (c == '\'' || c == '"') { quoted(c); return; }
        if (c == '`' && !cmd) { quoted(c); return; }
        if (escape(esc())) return;
        if (cmd && c == '\\') {
            if (i + 1 < s.size() && s[i + 1] == ';') { i += 2; return; }
            size_t save = i; i++;
            while (blank(false));
            if (line()) { if (eol()) skip_eol(); return; }
            if (eol()) { skip_eol(); return; }
            if (i >= s.size()) return;
            i = save + 1; return;
        }
        i++;
    }
    void run() {
        size_t start = 0;
        while (start < s.size() || s.empty()) {
            i = start;
            while (blank(true));
            Part p; p.b = p.e = i; p.eof = false;
            p.stmt = only || i >= s.size() || s[i] != ':';
            if (p.stmt) {
                for (;;) {
                    size_t z = i; (void)z;
                    while (blank(true));
                    if (i >= s.size()) { p.eof = true; break; }
                    if (s[i] == ';') { i++; break; }
                    item(false); p.e = i;
                }
            } else {
                i++; p.e = i;
                for (;;) {
                    while (blank(false));
                    if (i >= s.size()) { p.eof = true; break; }
                    if (s[i] == ';') { i++; break; }
                    if (eol()) { skip_eol(); break; }
                    if (at("//")) { line(); if (eol()) skip_eol(); else p.eof = true; break; }
                    item(true); p.e = i;
                }
            }
            p.next = i;
            out.push_back(p);
            if (i >= s.size() || i == start) break;
            start = i;
        }
    }
};
void check_quick(Ctx &ctx, const std::string &in, const QData &q, bool only) {
    Splitter sp(in, only); sp.run();
    Lines ln(in);
    std::vector<Splitter::Part> want; for (auto &p : sp.out) if (p.e > p.b) want.push_back(p);
    std::vector<const QSeg *> got; for (auto &s : q.v) if (!s.text.empty()) got.push_back(&s);
    for (auto &s : q.v) {
        std::string w = "quick segment " + range_str(s.range) + " " + pbt::quote(s.text, 100) + ": ";
        if (s.stmt == s.cmd) ctx.fail(w + "both or neither of statement and command");
        if (s.range.start.offset > in.size() || s.range.end.offset > in.size() || s.range.end.offset < s.range.start.offset) ctx.fail(w + "range outside the input");
        if (in.substr(s.range.start.offset, s.range.end.offset - s.range.start.offset) != s.text) ctx.fail(w + "its text is not the input at its range");
        if (!ln.is(s.range.start) || !ln.is(s.range.end) || !ln.is(s.next)) ctx.fail(w + "line and column do not belong to the offset");
        if (s.next.offset < s.range.end.offset) ctx.fail(w + "the next position is before its end");
    }
    for (size_t i = 0; i < std::min(want.size(), got.size()); i++) {
        auto &p = want[i]; auto &s = *got[i];
        std::string w = strf("quick segment %zu: ", i);
        if (s.range.start.offset != p.b || s.range.end.offset != p.e) ctx.fail(w + "reported " + pbt::quote(s.text, 200) + " at " + range_str(s.range) + " but expected " + pbt::quote(in.substr(p.b, p.e - p.b), 200));
        if (s.stmt != p.stmt) ctx.fail(w + "wrong kind");
        if (s.next.offset != p.next) ctx.fail(w + strf("next position %zu, expected %zu", s.next.offset, p.next));
        if (s.eof != p.eof) ctx.fail(w + strf("end-of-input indication %d", s.eof));
    }
    if (want.size() != got.size()) ctx.fail(strf("%zu non-empty segments reported, expected %zu", got.size(), want.size()));
}
}
PROPERTY("C14", split_any, 3) {
    std::string in;
    if (src.coin()) {
        static const char *const P[] = {"'", "\"", "`", "//", "/*", "*/", "\n", "\r\n", "\r", ";", ":", "\\", "a", "foo", " ", "\t", "\\;", "\\'", "\\\"", "\\\n", "\\ // c\n", "'x;y'", "\"x//y\"", "`p;q`", "// z\n", "/* ; */", "*", "/", "\\\\", "\\ ", "return 1"};
        unsigned n = src.len(60, 10); for (unsigned i = 0; i < n; i++) in += src.pick(P);
        ctx.cls("input: splitter tokens");
    } else in = long_text(src, ctx);
    describe(ctx, in);
    unsigned flags = src.coin() ? CYPHER_PARSE_ONLY_STATEMENTS : 0;
    QData a, b;
    std::unique_ptr<char[]> exact(new char[in.size()]); memcpy(exact.get(), in.data(), in.size());
    if (cypher_quick_uparse(exact.get(), in.size(), qcb, &a, flags)) ctx.fail("the quick parse failed");
    check_quick(ctx, in, a, flags != 0);
    std::unique_ptr<InStream> st(InStream::random(src, in));
    if (cypher_quick_fparse(st->f, qcb, &b, flags)) ctx.fail("the quick parse of a stream failed");
    bool eq = a.v.size() == b.v.size();
    for (size_t i = 0; eq && i < a.v.size(); i++) eq = a.v[i].text == b.v[i].text && a.v[i].stmt == b.v[i].stmt && a.v[i].eof == b.v[i].eof && range_str(a.v[i].range) == range_str(b.v[i].range) && same(a.v[i].next, b.v[i].next);
    if (!eq) ctx.fail("the quick parse of a stream differs from that of memory");
}
PROPERTY("C14", same_as_parser, 2) {
    POpts po; po.gram.depth = (int)src.below(3); po.max = 6; po.empties = true; po.plain_options = true; po.commands = src.coin() ? 3 : 0;
    Program p = program(src, po);
    describe(ctx, p.l.src);
    const std::string &in = p.l.src;
    QData q;
    if (cypher_quick_uparse(in.data(), in.size(), qcb, &q, 0)) ctx.fail("the quick parse failed");
    Parse full = parse_each(in, 0);
    for (auto &s : full.segs) if (!s.errs.empty()) ctx.fail("valid text reported an error");
    std::vector<const QSeg *> got; for (auto &s : q.v) if (!s.text.empty()) got.push_back(&s);
    std::vector<const Seg *> ds; for (auto &s : full.segs) if (s.directive) ds.push_back(&s);
    if (got.size() != p.dirs.size() || ds.size() != p.dirs.size()) ctx.fail(strf("%zu directives written, %zu found by the parser, %zu by the quick parser", p.dirs.size(), ds.size(), got.size()));
    Lines ln(in);
    for (size_t i = 0; i < got.size(); i++) {
        const Dir &d = p.dirs[i]; const QSeg &s = *got[i];
        std::string w = strf("directive %zu: ", i);
        if (s.cmd != d.cmd) ctx.fail(w + "wrong kind");
        if (s.range.start.offset != d.body_b || s.range.end.offset != d.body_e) ctx.fail(w + "quick parser reports " + pbt::quote(s.text, 300) + ", written was " + pbt::quote(in.substr(d.body_b, d.body_e - d.body_b), 300));
        if (s.range.start.offset != ds[i]->directive->range.start.offset) ctx.fail(w + "quick parser and parser disagree on where it starts");
        if (!same(s.next, ds[i]->range.end) || s.eof != ds[i]->eof) ctx.fail(w + "quick parser and parser disagree on where it ends: " + pos_str(s.next) + " and " + pos_str(ds[i]->range.end));
    }
}

// ---------------------------------------------------------------- C24

PROPERTY("C24", commands, 3) {
    POpts po; po.gram.depth = 1; po.gram.clauses = 1; po.max = 6; po.commands = src.coin() ? 8 : 5; po.empties = true; po.gram.wild = src.coin();
    Program p = program(src, po);
    ctx.text(p.l.src);
    size_t nc = 0, na = 0; for (auto &d : p.dirs) if (d.cmd) { nc++; na += fv(d.tree, "arguments").k.size(); }
    if (nc) ctx.nontrivial();
    ctx.cls(strf("arguments %s", na == 0 ? "0" : na < 4 ? "1-3" : "4+"));
    Parse r = parse_each(p.l.src, 0);
    if (r.rc) ctx.fail("the parse failed");
    std::vector<TP> ds, roots;
    for (auto &s : r.segs) { if (!s.errs.empty()) ctx.fail("valid text reported an error: " + dump_err(s.errs[0])); if (s.directive) ds.push_back(s.directive); roots.insert(roots.end(), s.roots.begin(), s.roots.end()); }
    std::string d = check_program(p, ds, roots, C_RANGES);
    if (!d.empty()) ctx.fail(d);
}
namespace {
std::string drop_colon(const std::string &m) {
    // the only difference allowed: a command is not among what was expected
    std::string o = m; size_t p = o.find("expected ");
    if (p == std::string::npos) return o;
    std::string head = o.substr(0, p + 9), list = o.substr(p + 9);
    std::set<std::string> items; std::string cur;
    // split at ", " and " or "
    size_t i = 0;
    while (i < list.size()) {
        if (list.compare(i, 2, ", ") == 0) { items.insert(cur); cur.clear(); i += 2; }
        else if (list.compare(i, 4, " or ") == 0) { items.insert(cur); cur.clear(); i += 4; }
        else cur += list[i++];
    }
    items.insert(cur);
    items.erase("':'"); items.erase("a command"); items.erase("command");
    for (auto &x : items) head += x + "|";
    return head;
}
}
PROPERTY("C24", only_statements, 2) {
    // Text in which no command could begin: the two modes must agree.
    std::string in;
    bool program_text = src.coin();
    if (program_text) {
        POpts po; po.commands = 0; po.gram.depth = (int)src.below(3); po.max = 4; po.empties = true;
        Program p = program(src, po); in = p.l.src;
    } else {
        in = any_text(src, ctx);
        for (char &c : in) if (c == ':') c = '=';
    }
    describe(ctx, in);
    Parse a = parse_each(in, 0), b = parse_each(in, CYPHER_PARSE_ONLY_STATEMENTS);
    if (a.rc || b.rc) ctx.fail("the parse failed");
    for (auto *p : {&a, &b}) for (auto &s : p->segs) for (auto &e : s.errs) e.msg = drop_colon(e.msg);
    std::string sa, sb; for (auto &s : a.segs) sa += dump_seg(s, FULL, true); for (auto &s : b.segs) sb += dump_seg(s, FULL, true);
    if (sa != sb) ctx.fail("default mode and statement-only mode " + first_diff(sa, sb));
}
namespace { bool has_command(const TP &x) { if (x->spec >= 0 && !strcmp(specs()[x->spec].name, "COMMAND")) return true; for (auto &c : x->children) if (has_command(c)) return true; return false; } }
PROPERTY("C24", never_commands, 1) {
    std::string in;
    POpts po; po.commands = 4; po.gram.depth = 1; po.max = 5; po.empties = true;
    in = program(src, po).l.src;
    if (src.coin()) in = mutate(src, in, 1 + src.below(4));
    describe(ctx, in);
    Parse a = parse_each(in, CYPHER_PARSE_ONLY_STATEMENTS);
    if (a.rc) ctx.fail("the parse failed");
    for (auto &s : a.segs) for (auto &r : s.roots) if (has_command(r)) ctx.fail("statement-only mode recognised a command");
}
