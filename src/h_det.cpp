// The same input gives the same result: after other calls, over memory with any contents,
// and in several threads at once.
#include "gen.hpp"
#include "stream.hpp"
#include "treegen.hpp"
#include "wrap.hpp"
#include <alloca.h>
#include <atomic>
#include <memory>
#include <thread>
using namespace ax;
using namespace gg;
using pbt::Src; using pbt::Ctx; using pbt::strf;

namespace {
const int FULL = D_RANGE | D_CHILDREN;
std::string text(Src &src, std::string *kind = nullptr) {
    std::string k, s;
    if (src.coin()) { POpts po; po.gram.depth = (int)src.below(4); po.gram.clauses = 4; po.gram.wild = src.coin(); po.max = 4; po.empties = true; s = program(src, po).l.src; k = "program"; }
    else s = wild(src, &k);
    if (kind) *kind = k;
    return s;
}
// What to do with a text
struct Job {
    std::string in;
    unsigned how = 0, flags = 0, ordinal = 0, width = 0, stop = 0;
    bool cfg = false, colour = false, clone = false;
    struct cypher_input_position pos = {1, 1, 0};
};
const char *const HOW[] = {"cypher_uparse", "cypher_fparse", "cypher_uparse_each", "cypher_fparse_each", "cypher_quick_uparse", "cypher_quick_fparse"};
Job job(Src &src) {
    Job j; j.in = text(src); j.how = src.below(6); j.flags = src.below(4); j.cfg = src.coin(); j.colour = src.coin(); j.clone = src.coin();
    if (src.coin()) j.ordinal = src.below(1000);
    if (src.coin()) j.pos = {1 + src.below(50), 1 + src.below(50), src.below(5000)};
    if (src.coin()) j.width = src.below(200);
    if (src.chance(1, 4)) j.stop = 1 + src.below(3);
    return j;
}
struct Sink { std::string out; const Job *j; unsigned n = 0; };
std::string prints(const Job &j, const N *n) {
    std::string o = render(n, j.width, j.colour ? cypher_parser_ansi_colorization : nullptr);
    if (j.clone) { N *c = cypher_ast_clone(n); o += c ? dump(extract(c), FULL) : "(not cloned)"; cypher_ast_free(c); }
    return o;
}
int cb(void *d, cypher_parse_segment_t *s) {
    Sink *k = (Sink *)d;
    k->out += dump_seg(get_seg(s), FULL) + "\n";
    for (unsigned i = 0; i < cypher_parse_segment_nroots(s); i++) k->out += prints(*k->j, cypher_parse_segment_get_root(s, i));
    return ++k->n == k->j->stop ? 5 : 0;
}
int qcb(void *d, const cypher_quick_parse_segment_t *s) {
    Sink *k = (Sink *)d; size_t n; const char *t = cypher_quick_parse_segment_get_text(s, &n);
    Rng r = cypher_quick_parse_segment_get_range(s); struct cypher_input_position x = cypher_quick_parse_segment_get_next(s);
    k->out += pbt::quote(std::string(t, n)) + range_str(r) + strf(" %u:%u:%zu %d%d%d\n", x.line, x.column, x.offset, cypher_quick_parse_segment_is_eof(s), cypher_quick_parse_segment_is_statement(s), cypher_quick_parse_segment_is_command(s));
    return ++k->n == k->j->stop ? 5 : 0;
}
std::string run(const Job &j) {
    Sink k; k.j = &j;
    cypher_parser_config_t *cfg = nullptr;
    struct cypher_input_position last = {7, 7, 7};
    if (j.cfg) {
        cfg = cypher_parser_new_config();
        cypher_parser_config_set_initial_ordinal(cfg, j.ordinal);
        cypher_parser_config_set_initial_position(cfg, j.pos);
        cypher_parser_config_set_error_colorization(cfg, j.colour ? cypher_parser_ansi_colorization : cypher_parser_no_colorization);
    }
    std::unique_ptr<InStream> st; if (j.how & 1) { st.reset(new InStream(j.in)); st->open(); }
    int rc = 0;
    switch (j.how) {
    case 0: case 1: {
        cypher_parse_result_t *r = j.how ? cypher_fparse(st->f, &last, cfg, j.flags) : cypher_uparse(j.in.data(), j.in.size(), &last, cfg, j.flags);
        if (!r) { k.out = "(no result)"; break; }
        k.out = dump_result(get_result(r), FULL);
        for (unsigned i = 0; i < cypher_parse_result_nroots(r); i++) k.out += prints(j, cypher_parse_result_get_root(r, i));
        cypher_parse_result_free(r);
        break; }
    case 2: rc = cypher_uparse_each(j.in.data(), j.in.size(), cb, &k, &last, cfg, j.flags); break;
    case 3: rc = cypher_fparse_each(st->f, cb, &k, &last, cfg, j.flags); break;
    case 4: rc = cypher_quick_uparse(j.in.data(), j.in.size(), qcb, &k, j.flags); break;
    default: rc = cypher_quick_fparse(st->f, qcb, &k, j.flags);
    }
    cypher_parser_config_free(cfg);
    return k.out + strf("last %u:%u:%zu rc %d\n", last.line, last.column, last.offset, rc);
}
__attribute__((noinline)) void paint_stack(int c) { volatile char *p = (volatile char *)alloca(100000); for (size_t i = 0; i < 100000; i++) p[i] = (char)c; }
}

// After other calls, failing ones among them
PROPERTY("C22", histories, 3) {
    Job a = job(src);
    ctx.text(a.in); if (a.in.size() > 8) ctx.nontrivial();
    std::string first = run(a);
    unsigned n = 1 + src.len(6, 2);
    std::string hist;
    for (unsigned i = 0; i < n; i++) {
        Job b = job(src);
        unsigned times = src.chance(1, 20) ? 1 + src.below(300) : 1;
        unsigned fail = src.chance(1, 4) ? 1 + src.below(60) : 0;
        hist += pbt::quote(b.in, 200) + strf(" through %s%s%s, ", HOW[b.how], times > 1 ? strf(" %u times", times).c_str() : "", fail ? " with a failing allocation" : "");
        for (unsigned t = 0; t < times; t++) {
            if (fail) {
                std::unique_ptr<InStream> st(new InStream(b.in)); st->open();
                vp::track_begin(); vp::fail_at(fail, src.coin());
                cypher_parse_result_t *r = b.how & 1 ? cypher_fparse(st->f, nullptr, nullptr, b.flags) : cypher_uparse(b.in.data(), b.in.size(), nullptr, nullptr, b.flags);
                vp::fail_at(0, false);
                cypher_parse_result_free(r); vp::track_end();
            } else run(b);
        }
        if (src.coin()) { std::string again = run(a); if (again != first) ctx.fail("through " + std::string(HOW[a.how]) + ", after " + hist + ": " + first_diff(first, again)); }
    }
    std::string again = run(a);
    if (again != first) ctx.fail("through " + std::string(HOW[a.how]) + ", after " + hist + ": " + first_diff(first, again));
    ctx.cls(std::string("through ") + HOW[a.how]);
}

// Nothing is taken from memory that was not written
PROPERTY("C22", memory, 3) {
    Job a = job(src);
    ctx.text(a.in); if (a.in.size() > 8) ctx.nontrivial();
    std::string first;
    static const int FILL[] = {0x00, 0xff, 0x01, 0x41, 0x7f, 0x80};
    for (int f = 0; f < 3; f++) {
        int c = f == 0 ? 0 : f == 1 ? 0xff : FILL[src.below(6)];
        vp::fill(c); paint_stack(c);
        std::string r = run(a);
        vp::fill(-1);
        if (f == 0) first = r; else if (r != first) ctx.fail("through " + std::string(HOW[a.how]) + strf(", with fresh memory full of %d instead of 0: ", c) + first_diff(first, r));
    }
    ctx.cls(std::string("through ") + HOW[a.how]);
}
PROPERTY("C22", tree_memory, 1) {
    tg::Cfg c; TP t = tg::gen_any(src, c);
    ctx.text(dump(t)); if (tg::nfields_set(t) || !parts(t).empty()) ctx.nontrivial();
    std::string first;
    for (int f = 0; f < 2; f++) {
        vp::fill(f ? 0xff : 0); paint_stack(f ? 0xff : 0);
        std::map<const Tree *, N *> at;
        N *n = build(t, at); if (!n) ctx.fail("not constructed");
        N *cl = cypher_ast_clone(n); if (!cl) ctx.fail("not cloned");
        std::string r = dump(extract(n), FULL) + render(n) + dump(extract(cl), FULL) + render(cl);
        for (auto &x : at) if (x.second) r += strf("%u ", cypher_astnode_nchildren(x.second) + 1);
        cypher_ast_annotation_context_t *ac = cypher_ast_annotation_context();
        if (cypher_astnode_get_annotation(ac, cl)) r += "annotated";
        void *prev = ac; cypher_astnode_attach_annotation(ac, cl, &first, &prev); if (prev) r += "annotated before";
        cypher_ast_annotation_context_free(ac);
        cypher_ast_free(n); cypher_ast_free(cl);
        vp::fill(-1);
        if (f == 0) first = r; else if (r != first) ctx.fail("with fresh memory full of 255 instead of 0: " + first_diff(first, r));
    }
}

// Threads
PROPERTY("C22", threads, 2) {
    unsigned n = 2 + src.below(3);
    std::vector<Job> js; std::vector<std::string> alone, got(n);
    bool same = src.chance(1, 3);
    for (unsigned i = 0; i < n; i++) { js.push_back(same && i ? js[0] : job(src)); alone.push_back(run(js[i])); }
    std::string all; for (auto &j : js) all += j.in + "\n----\n";
    ctx.text(all); ctx.nontrivial();
    unsigned rounds = 1 + src.below(3);
    std::atomic<unsigned> ready(0);
    std::vector<std::thread> th;
    std::vector<unsigned> bad(n, 0);
    for (unsigned i = 0; i < n; i++) th.emplace_back([&, i] {
        ready++; while (ready < n) std::this_thread::yield();
        for (unsigned r = 0; r < rounds; r++) { got[i] = run(js[i]); if (got[i] != alone[i]) { bad[i] = 1; break; } }
    });
    for (auto &t : th) t.join();
    for (unsigned i = 0; i < n; i++) if (bad[i]) ctx.fail(strf("thread %u of %u through %s: ", i, n, HOW[js[i].how]) + first_diff(alone[i], got[i]));
    ctx.cls(strf("%u threads", n));
}
// Threads that share a configuration, and trees that are only read
PROPERTY("C22", shared_readers, 1) {
    unsigned n = 2 + src.below(3);
    std::string in = text(src), in2 = text(src);
    ctx.text(in); ctx.nontrivial();
    cypher_parser_config_t *cfg = cypher_parser_new_config();
    cypher_parser_config_set_error_colorization(cfg, cypher_parser_ansi_colorization);
    cypher_parse_result_t *r = cypher_uparse(in.data(), in.size(), nullptr, cfg, 0);
    if (!r) ctx.fail("the parse failed");
    auto look = [&] {
        std::string o = dump_result(get_result(r), FULL);
        for (unsigned i = 0; i < cypher_parse_result_nroots(r); i++) { const N *x = cypher_parse_result_get_root(r, i); o += render(x, 80); N *c = cypher_ast_clone(x); o += dump(extract(c), FULL); cypher_ast_free(c); }
        cypher_parse_result_t *q = cypher_uparse(in2.data(), in2.size(), nullptr, cfg, 0);
        o += q ? dump_result(get_result(q), FULL) : "(no result)"; cypher_parse_result_free(q);
        return o;
    };
    std::string want = look();
    std::atomic<unsigned> ready(0);
    std::vector<std::thread> th; std::vector<std::string> got(n);
    for (unsigned i = 0; i < n; i++) th.emplace_back([&, i] { ready++; while (ready < n) std::this_thread::yield(); got[i] = look(); });
    for (auto &t : th) t.join();
    cypher_parse_result_free(r); cypher_parser_config_free(cfg);
    for (unsigned i = 0; i < n; i++) if (got[i] != want) ctx.fail(strf("thread %u: ", i) + first_diff(want, got[i]));
}
