// Failing allocations and failing streams.
#include "gen.hpp"
#include "stream.hpp"
#include "treegen.hpp"
#include "wrap.hpp"
#include <algorithm>
#include <cerrno>
#include <memory>
using namespace ax;
using namespace gg;
using pbt::Src; using pbt::Ctx; using pbt::strf;

namespace {
const int FULL = D_RANGE | D_CHILDREN;
// Which allocations to make fail: all when there are few of them
std::vector<uint64_t> picks(Src &src, uint64_t n, unsigned few, unsigned some) {
    std::vector<uint64_t> v;
    if (n <= few) { for (uint64_t k = 1; k <= n; k++) v.push_back(k); return v; }
    for (unsigned i = 0; i < some; i++) v.push_back(1 + (src.below(3) == 0 ? src.below((uint32_t)std::min<uint64_t>(n, 24)) : src.below((uint32_t)n)));
    return v;
}
std::string text(Src &src, Ctx &ctx) {
    std::string k, s;
    if (src.coin()) { POpts po; po.gram.depth = (int)src.below(4); po.gram.clauses = 4; po.gram.wild = src.coin(); po.max = 4; po.empties = true; s = program(src, po).l.src; k = "program"; }
    else s = wild(src, &k);
    if (src.chance(1, 6)) {     // many of one thing: buffers and vectors grow
        unsigned n = 1 + src.below(60); std::string t;
        static const char *const P[] = {"//\n", "/* */", "return 1;", "x ", "\n", "$ ", "`a`.", "'abc'+"};
        const char *p = src.pick(P); for (unsigned i = 0; i < n; i++) t += p; s = src.coin() ? t + s : s + t; k += " and repetition";
    }
    ctx.cls("input: " + k); ctx.text(s);
    if (s.size() > 8) ctx.nontrivial();
    return s;
}
struct Del { std::vector<std::string> segs; size_t stop = 0; };
bool with_ctx = true;       // the contexts of errors depend on how much was read ahead
int del_cb(void *d, cypher_parse_segment_t *s) { ((Del *)d)->segs.push_back(dump_seg(get_seg(s), FULL, with_ctx)); return 0; }
int qdel_cb(void *d, const cypher_quick_parse_segment_t *s) {
    size_t n; const char *t = cypher_quick_parse_segment_get_text(s, &n);
    Rng r = cypher_quick_parse_segment_get_range(s); struct cypher_input_position x = cypher_quick_parse_segment_get_next(s);
    ((Del *)d)->segs.push_back(pbt::quote(std::string(t, n)) + range_str(r) + strf("%zu %d%d%d", x.offset, cypher_quick_parse_segment_is_eof(s), cypher_quick_parse_segment_is_statement(s), cypher_quick_parse_segment_is_command(s)));
    return 0;
}
// One parse of each kind; what it delivered and how it ended
struct Out { bool ok = false; int err = 0; std::vector<std::string> segs; uint64_t count = 0, failures = 0; size_t lost = 0; bool cfg_failed = false; };
const char *const HOW[] = {"cypher_uparse", "cypher_fparse", "cypher_uparse_each", "cypher_fparse_each", "cypher_quick_uparse", "cypher_quick_fparse"};
struct Plan { unsigned how = 0; unsigned flags = 0; bool cfg = false, colour = false; };
Out run(const std::string &in, const Plan &pl, FILE *f, uint64_t k, bool persist) {
    Out o; Del d;
    vp::track_begin();
    vp::fail_at(k, persist);
    cypher_parser_config_t *cfg = nullptr;
    errno = 0;
    if (pl.cfg) {
        cfg = cypher_parser_new_config(); int e = errno;
        if (!cfg) { o.cfg_failed = true; o.err = e; o.failures = vp::failures(); o.lost = vp::track_end(); return o; }
        struct cypher_input_position p = {3, 4, 17}; cypher_parser_config_set_initial_position(cfg, p);
        if (pl.colour) cypher_parser_config_set_error_colorization(cfg, cypher_parser_ansi_colorization);
    }
    errno = 0;
    if (pl.how < 2) {
        cypher_parse_result_t *r = pl.how == 0 ? cypher_uparse(in.data(), in.size(), nullptr, cfg, pl.flags) : cypher_fparse(f, nullptr, cfg, pl.flags);
        o.err = errno; o.count = vp::track_count(); o.failures = vp::failures(); vp::fail_at(0, false);
        o.ok = r;
        if (r) { o.segs.push_back(dump_result(get_result(r), FULL)); cypher_parse_result_free(r); }
    } else {
        int rc = pl.how == 2 ? cypher_uparse_each(in.data(), in.size(), del_cb, &d, nullptr, cfg, pl.flags) : pl.how == 3 ? cypher_fparse_each(f, del_cb, &d, nullptr, cfg, pl.flags) :
            pl.how == 4 ? cypher_quick_uparse(in.data(), in.size(), qdel_cb, &d, pl.flags) : cypher_quick_fparse(f, qdel_cb, &d, pl.flags);
        o.err = errno; o.count = vp::track_count(); o.failures = vp::failures(); vp::fail_at(0, false);
        o.ok = rc == 0; o.segs = d.segs;
        if (rc > 0) o.err = -rc;
    }
    cypher_parser_config_free(cfg);
    o.lost = vp::track_end();
    return o;
}
Plan plan(Src &src, Ctx &ctx, bool stream_only) {
    Plan p; p.how = stream_only ? 1 + 2 * src.below(3) : src.below(6);
    p.flags = src.below(2) ? CYPHER_PARSE_ONLY_STATEMENTS : 0; if (src.chance(1, 4)) p.flags |= CYPHER_PARSE_SINGLE;
    if (p.how < 4) { p.cfg = src.coin(); p.colour = src.coin(); }
    ctx.cls(std::string("through ") + HOW[p.how]);
    return p;
}
void prefix_check(Ctx &ctx, const Out &o, const Out &base, const std::string &w) {
    if (o.segs.size() > base.segs.size()) ctx.fail(w + "more was delivered than without the failure");
    for (size_t i = 0; i < o.segs.size(); i++) if (o.segs[i] != base.segs[i]) ctx.fail(w + strf("segment %zu ", i) + first_diff(base.segs[i], o.segs[i]));
}
}

// ---------------------------------------------------------------- C21

PROPERTY("C21", parse, 4) {
    std::string in = text(src, ctx);
    Plan pl = plan(src, ctx, false);
    with_ctx = true;
    auto once = [&](uint64_t k, bool persist) {
        // the stream's own memory is not the library's
        std::unique_ptr<InStream> st; if (pl.how & 1) { st.reset(new InStream(in)); st->open(); }
        return run(in, pl, st ? st->f : nullptr, k, persist);
    };
    Out base = once(0, false);
    if (!base.ok) ctx.fail(strf("the parse failed with errno %d", base.err));
    if (base.lost) ctx.fail(strf("%zu blocks were not freed", base.lost));
    ctx.cls(base.count < 20 ? "under 20 allocations" : base.count < 100 ? "20 to 99 allocations" : "100 allocations or more");
    bool persist = src.coin();
    uint64_t failed = 0;
    for (uint64_t k : picks(src, base.count, ctx.tier ? 60 : 14, ctx.tier ? 24 : 6)) {
        Out o = once(k, persist);
        std::string w = strf("allocation %zu of %zu%s failed in %s: ", (size_t)k, (size_t)base.count, persist ? " and all later ones" : "", HOW[pl.how]);
        if (o.lost) ctx.fail(w + strf("%zu blocks were not freed", o.lost));
        if (!o.failures) ctx.fail(w + "the parse was not repeated");
        if (!o.ok) {
            failed++;
            if (o.err != ENOMEM) ctx.fail(w + strf("errno is %d", o.err));
            if (pl.how >= 2) prefix_check(ctx, o, base, w);
        } else if (o.segs != base.segs) { prefix_check(ctx, o, base, w + "it succeeded but "); ctx.fail(w + "it succeeded but delivered less"); }
    }
    ctx.cls(failed ? "calls failed" : "no call failed");
    Out again = once(0, false);
    if (!again.ok || again.segs != base.segs) ctx.fail("a later parse differs");
}

// Every allocation of the parse of a small statement with a node of any type
PROPERTY("C21", parse_each_type, 4) {
    int spec = (int)src.below((uint32_t)specs().size());
    Opts go; go.wild = src.chance(1, 4); TP x; std::string in;
    std::string type = specs()[spec].name;
    if (type == "ERROR") in = "RETURN $ ;"; else if (type == "COMMAND" || type == "BLOCK_COMMENT" || type == "LINE_COMMENT") in = ":a 'b' /*c*/ d //e\n";
    else { auto g = statement_of(src, go, spec, x); Layout l; Style st; st.mode = 3 * (int)src.below(2); lay(src, g->t, st, l); in = l.src; }
    if (src.chance(1, 4)) in += ";"; if (src.chance(1, 8)) in += " x";
    ctx.text(in); if (in.size() > 8) ctx.nontrivial();
    ctx.cls("every allocation, for " + type);
    Plan pl; pl.how = src.chance(1, 4) ? 2 : 0; with_ctx = true;
    Out base = run(in, pl, nullptr, 0, false);
    if (!base.ok) ctx.fail(strf("the parse failed with errno %d", base.err));
    bool persist = src.chance(1, 4);
    uint64_t most = ctx.tier ? 2000 : 500;
    for (uint64_t k = 1; k <= base.count && k <= most; k++) {
        Out o = run(in, pl, nullptr, k, persist);
        std::string w = strf("allocation %zu of %zu%s failed in %s: ", (size_t)k, (size_t)base.count, persist ? " and all later ones" : "", HOW[pl.how]);
        if (o.lost) ctx.fail(w + strf("%zu blocks were not freed", o.lost));
        if (!o.ok) { if (o.err != ENOMEM) ctx.fail(w + strf("errno is %d", o.err)); if (pl.how >= 2) prefix_check(ctx, o, base, w); }
        else if (o.segs != base.segs) { prefix_check(ctx, o, base, w + "it succeeded but "); ctx.fail(w + "it succeeded but delivered less"); }
    }
}

PROPERTY("C21", construct, 3) {
    tg::Cfg c; c.depth = 2;
    TP t = tg::gen(src, (int)src.below((uint32_t)specs().size()), c, (int)src.below(3));
    ctx.text(dump(t)); if (tg::nfields_set(t) || !parts(t).empty()) ctx.nontrivial();
    ctx.cls(specs()[t->spec].name);
    // how many allocations
    vp::track_begin();
    std::map<const Tree *, N *> at;
    std::vector<TP> ch = t->children.empty() ? parts(t) : t->children;
    std::vector<std::string> before;
    for (auto &x : ch) { if (!build(x, at)) ctx.fail("a child was not constructed"); }
    for (auto &x : ch) before.push_back(dump(extract(at[x.get()]), FULL));
    size_t live = vp::track_live();
    bool persist = src.coin();
    unsigned refused = 0;
    for (unsigned k = 1;; k++) {
        uint64_t c0 = vp::track_count();
        vp::fail_at(c0 + k, persist);
        uint64_t f0 = vp::failures();
        errno = 0;
        N *n = build(t, at); int e = errno;
        vp::fail_at(0, false);
        bool hit = vp::failures() > f0;
        std::string w = strf("constructing %s with allocation %u%s failing: ", specs()[t->spec].name, k, persist ? " and all later ones" : "");
        if (!n) {
            if (!hit) ctx.fail(w + "failed although no allocation did");
            if (e != ENOMEM) ctx.fail(w + strf("errno is %d", e));
            if (vp::track_live() != live) ctx.fail(w + "memory was lost or given away");
            refused++;
            at.erase(t.get());
            for (size_t i = 0; i < ch.size(); i++) if (dump(extract(at[ch[i].get()]), FULL) != before[i]) ctx.fail(w + "a child was changed");
            continue;
        }
        TP got = extract(n), want = t; (void)want;
        if (hit) ctx.cls("succeeded without the allocation");
        Problems p; extract(n, &p); if (!p.empty()) ctx.fail(w + "it succeeded, but " + p[0]);
        if (!hit) { cypher_ast_free(n); break; }
        ctx.fail(w + "it succeeded");
    }
    if (!refused) ctx.fail("no allocation was made");
    size_t lost = vp::track_end();
    if (lost) ctx.fail(strf("%zu blocks were not freed", lost));
}

PROPERTY("C21", clone, 2) {
    tg::Cfg c; TP t = tg::gen_any(src, c);
    ctx.text(dump(t)); if (tg::nfields_set(t) || !parts(t).empty()) ctx.nontrivial();
    vp::track_begin();
    std::map<const Tree *, N *> at;
    N *n = build(t, at); if (!n) ctx.fail("not constructed");
    std::string before = dump(extract(n), FULL);
    size_t live = vp::track_live();
    uint64_t c0 = vp::track_count();
    N *cl = cypher_ast_clone(n); if (!cl) ctx.fail("not cloned");
    uint64_t na = vp::track_count() - c0;
    cypher_ast_free(cl);
    if (vp::track_live() != live) ctx.fail("cloning loses memory");
    bool persist = src.coin();
    for (uint64_t k : picks(src, na, 30, 12)) {
        std::string w = strf("cloning %s with allocation %zu of %zu%s failing: ", specs()[t->spec].name, (size_t)k, (size_t)na, persist ? " and all later ones" : "");
        vp::fail_at(vp::track_count() + k, persist);
        errno = 0;
        N *x = cypher_ast_clone(n); int e = errno;
        vp::fail_at(0, false);
        if (x) { if (dump(extract(x), FULL) != before) ctx.fail(w + "it succeeded with another tree"); cypher_ast_free(x); }
        else if (e != ENOMEM) ctx.fail(w + strf("errno is %d", e));
        if (vp::track_live() != live) ctx.fail(w + strf("%zd blocks were lost", (ssize_t)(vp::track_live() - live)));
        if (dump(extract(n), FULL) != before) ctx.fail(w + "the original was changed");
    }
    cypher_ast_free(n);
    if (vp::track_end()) ctx.fail("memory left after freeing");
}

namespace {
struct RelLog { std::multiset<void *> seen; };
void released(void *ud, const cypher_astnode_t *, void *a) { ((RelLog *)ud)->seen.insert(a); }
}
PROPERTY("C21", annotate, 2) {
    tg::Cfg c; c.depth = 2; TP t = tg::gen_any(src, c);
    vp::track_begin();
    std::map<const Tree *, N *> at;
    N *root = build(t, at); if (!root) ctx.fail("not constructed");
    std::vector<N *> nodes; for (auto &x : at) nodes.push_back(x.second);
    std::sort(nodes.begin(), nodes.end());
    std::string log = dump(t) + " ";
    unsigned nctx = 1 + src.below(3);
    RelLog rl; std::multiset<void *> want; std::vector<bool> handled;
    std::vector<cypher_ast_annotation_context_t *> cs;
    for (unsigned i = 0; i < nctx; i++) {
        bool hit = src.chance(1, 4);
        if (hit) vp::fail_at(vp::track_count() + 1, false);
        uint64_t f0 = vp::failures(); errno = 0;
        cypher_ast_annotation_context_t *x = cypher_ast_annotation_context(); int e = errno;
        vp::fail_at(0, false);
        hit = vp::failures() > f0;
        if (hit) { if (x) ctx.fail("a context was made without memory"); if (e != ENOMEM) ctx.fail(strf("making a context: errno is %d", e)); i--; continue; }
        if (!x) ctx.fail("no context");
        handled.push_back(src.coin());
        if (handled.back()) cypher_ast_annotation_context_set_release_handler(x, released, &rl);
        cs.push_back(x);
    }
    std::map<std::pair<size_t, N *>, void *> model;
    unsigned steps = 1 + src.len(30, 8), failed = 0; uintptr_t next = 16;
    for (unsigned s = 0; s < steps; s++) {
        size_t ci = src.below((uint32_t)cs.size()); N *n = src.pick(nodes); void *v = (void *)next; next += 16;
        bool rm = src.chance(1, 4);
        unsigned k = src.below(4); bool persist = src.coin();
        log += strf("%zu:%p%s/%u ", ci, (void *)nullptr, rm ? "-" : "+", k);
        if (k) vp::fail_at(vp::track_count() + k, persist);
        uint64_t f0 = vp::failures(); errno = 0;
        void *prev = (void *)&model, **pp = src.coin() ? &prev : nullptr;
        void *old = model.count({ci, n}) ? model[{ci, n}] : nullptr;
        int rc = rm ? (prev = cypher_astnode_remove_annotation(cs[ci], n), pp = &prev, 0) : cypher_astnode_attach_annotation(cs[ci], n, v, pp);
        int e = errno;
        vp::fail_at(0, false);
        bool hit = vp::failures() > f0;
        if (rc == 0 && pp && prev != old) ctx.fail("after " + log + ": the previous annotation was not returned");
        if (rl.seen != want) ctx.fail("after " + log + ": annotations were released that should not have been, or the other way round");
        if (rc == 0) { if (rm) model.erase({ci, n}); else model[{ci, n}] = v; }
        else { failed++; if (!hit) ctx.fail("attaching failed although no allocation did"); if (e != ENOMEM) ctx.fail(strf("attaching: errno is %d", e)); }
        for (size_t i = 0; i < cs.size(); i++) for (N *m : nodes) {
            auto it = model.find({i, m}); void *w = it == model.end() ? nullptr : it->second;
            if (cypher_astnode_get_annotation(cs[i], m) != w) ctx.fail("after " + log + ": an annotation is not as it should be");
        }
    }
    ctx.text(log); if (steps > 2) ctx.nontrivial(); if (failed) ctx.cls("attaching failed");
    if (src.coin()) { cypher_ast_free(root); root = nullptr; }
    for (auto *x : cs) cypher_ast_annotation_context_free(x);
    cypher_ast_free(root);
    for (auto &m : model) if (handled[m.first.first]) want.insert(m.second);
    if (rl.seen != want) ctx.fail("after " + log + ": in the end not every annotation was released once");
    if (size_t l = vp::track_end()) ctx.fail(strf("%zu blocks were not freed", l));
}

PROPERTY("C21", render, 2) {
    tg::Cfg c; TP t = tg::gen_any(src, c);
    ctx.text(dump(t)); if (tg::nfields_set(t) || !parts(t).empty()) ctx.nontrivial();
    vp::track_begin();
    std::map<const Tree *, N *> at;
    N *root = build(t, at); if (!root) ctx.fail("not constructed");
    std::vector<N *> nodes; for (auto &x : at) nodes.push_back(x.second);
    N *n = src.pick(nodes);
    unsigned width = src.coin() ? src.below(160) : 0;
    const struct cypher_parser_colorization *col = src.coin() ? cypher_parser_ansi_colorization : src.coin() ? cypher_parser_no_colorization : nullptr;
    unsigned flags = src.below(2);
    auto go = [&](std::string &out, int &e) {
        char *b = nullptr; size_t z = 0; FILE *f = open_memstream(&b, &z);
        errno = 0;
        int rc = cypher_ast_fprint(n, f, width, col, flags);
        e = errno; fclose(f); out.assign(b, z); free(b);
        return rc;
    };
    size_t live = vp::track_live(); uint64_t c0 = vp::track_count();
    std::string whole, s; int e;
    if (go(whole, e)) ctx.fail("rendering failed");
    uint64_t na = vp::track_count() - c0;
    ctx.cls(strf("%zu allocations", (size_t)std::min<uint64_t>(na, 6)));
    bool persist = src.coin();
    for (uint64_t k : picks(src, na, 12, 6)) {
        std::string w = strf("rendering %s with allocation %zu of %zu failing: ", specs()[t->spec].name, (size_t)k, (size_t)na);
        vp::fail_at(vp::track_count() + k, persist);
        int rc = go(s, e);
        vp::fail_at(0, false);
        if (rc) { if (e != ENOMEM) ctx.fail(w + strf("errno is %d", e)); if (whole.compare(0, s.size(), s)) ctx.fail(w + "other text was printed"); }
        else if (s != whole) ctx.fail(w + "it succeeded, but " + first_diff(whole, s));
        if (vp::track_live() != live) ctx.fail(w + "memory was lost");
    }
    if (go(s, e) || s != whole) ctx.fail("later renderings differ");
    cypher_ast_free(root);
    if (vp::track_end()) ctx.fail("memory left after freeing");
}

// ---------------------------------------------------------------- C27

namespace {
const int ERRNOS[] = {EIO, ENOSPC, EBADF, EISDIR, EOVERFLOW, ENXIO, EPERM, ECONNRESET};
}
PROPERTY("C27", input, 3) {
    std::string in = text(src, ctx);
    if (src.chance(1, 4)) { in = std::string(src.below(3000), src.coin() ? ' ' : '\n') + in; ctx.text(in); }
    Plan pl = plan(src, ctx, true);
    with_ctx = false;
    InStream whole(in); whole.open();
    Out base = run(in, pl, whole.f, 0, false);
    if (!base.ok) ctx.fail("the parse failed");
    std::unique_ptr<InStream> st(InStream::random(src, in));
    st->fail_at = (long)src.below((uint32_t)in.size() + 1); if (src.chance(1, 4)) st->fail_at = (long)in.size();
    st->fail_errno = src.pick(ERRNOS);
    Out o = run(in, pl, st->f, 0, false);
    std::string w = strf("%s, reading fails after %ld of %zu bytes with errno %d: ", HOW[pl.how], st->fail_at, in.size(), st->fail_errno);
    if (o.lost) ctx.fail(w + strf("%zu blocks were not freed", o.lost));
    if (st->failed) {
        ctx.cls("the stream failed");
        if (o.ok) {
            // (with CYPHER_PARSE_SINGLE the rest need not be read)
            if ((pl.flags & CYPHER_PARSE_SINGLE) && o.segs == base.segs) { ctx.cls("not needed"); return; }
            ctx.fail(w + "the parse succeeded");
        }
        if (o.err != st->fail_errno) ctx.fail(w + strf("errno is %d", o.err));
    } else if (!o.ok) ctx.fail(w + "failed although the stream did not");
    if (pl.how >= 2) {
        if (base.segs.size() == 0 && o.segs.size()) ctx.fail(w + "segments out of nothing");
        for (size_t i = 0; i < o.segs.size(); i++) {
            if (i >= base.segs.size()) ctx.fail(w + "more segments than there are");
            if (o.segs[i] != base.segs[i]) ctx.fail(w + strf("segment %zu ", i) + first_diff(base.segs[i], o.segs[i]));
        }
        if (!o.segs.empty()) ctx.cls("segments before the failure");
    }
    // the stream that failed does not matter any more
    InStream again(in); again.open();
    Out l = run(in, pl, again.f, 0, false);
    if (!l.ok || l.segs != base.segs) ctx.fail(w + "a later parse differs");
}
PROPERTY("C27", output, 3) {
    tg::Cfg c; TP t; cypher_parse_result_t *r = nullptr; N *root = nullptr;
    bool parsed = src.coin();
    std::map<const Tree *, N *> at;
    if (parsed) { std::string in = text(src, ctx); r = cypher_uparse(in.data(), in.size(), nullptr, nullptr, 0); if (!r) ctx.fail("the parse failed"); }
    else { t = tg::gen_any(src, c); ctx.text(dump(t)); if (tg::nfields_set(t) || !parts(t).empty()) ctx.nontrivial(); root = build(t, at); if (!root) ctx.fail("not constructed"); }
    unsigned width = src.coin() ? src.below(160) : 0, flags = src.below(2);
    const struct cypher_parser_colorization *col = src.coin() ? cypher_parser_ansi_colorization : nullptr;
    auto go = [&](FILE *f) { return parsed ? cypher_parse_result_fprint_ast(r, f, width, col, flags) : cypher_ast_fprint(root, f, width, col, flags); };
    OutStream all; all.open();
    int rc0 = go(all.f); fflush(all.f);
    if (rc0) ctx.fail("printing failed");
    OutStream st;
    unsigned m = src.below(4);
    st.open(m == 0 ? -1 : m == 1 ? _IONBF : _IOFBF, m == 1 ? 0 : 1 + src.below(m == 2 ? 16 : 600));
    st.fail_at = (long)src.below((uint32_t)all.data.size() + 1); st.fail_errno = src.pick(ERRNOS);
    vp::track_begin();
    errno = 0;
    int rc = go(st.f), e = errno;
    bool failed = st.failed;
    size_t lost = vp::track_end();
    std::string w = strf("writing fails after %ld of %zu bytes with errno %d: ", st.fail_at, all.data.size(), st.fail_errno);
    if (lost) ctx.fail(w + strf("%zu blocks were not freed", lost));
    if (failed && !rc) ctx.fail(w + "printing reported success");
    if (failed && e != st.fail_errno) ctx.fail(w + strf("errno is %d", e));
    if (!failed && rc) ctx.fail(w + "printing failed although the stream did not");
    if (all.data.compare(0, st.data.size(), st.data)) ctx.fail(w + "other text was written");
    ctx.cls(failed ? "the stream failed while printing" : "failure not reached");
    OutStream again; again.open(); if (go(again.f)) ctx.fail("printing again failed"); fflush(again.f);
    if (again.data != all.data) ctx.fail(w + "printing again differs");
    cypher_parse_result_free(r); cypher_ast_free(root);
}
