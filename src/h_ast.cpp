// Constructed ASTs: C15 clone, C16 constructor/accessor round trip, C17 type hierarchy,
// C18 refused arguments (build without assertions), C19 annotations, C20 rendering.
#include "treegen.hpp"
#include "wrap.hpp"
#include <algorithm>
#include <cerrno>
using namespace ax;
using pbt::strf;

static const int ALL = D_RANGE | D_CHILDREN;
typedef std::map<const Tree *, N *> At;

static void fail_on(pbt::Ctx &ctx, const Problems &p, const char *where) {
    if (!p.empty()) ctx.fail(std::string(where) + ": " + p[0]);
}
static void normal(const TP &t) { if (t->children.empty()) t->children = parts(t); for (auto &c : t->children) normal(c); }

static void build_failed(pbt::Ctx &ctx, const TP &t) {
    ctx.fail(strf("constructor of %s (or of a part) returned NULL for valid arguments, errno %d", specs()[t->spec].name, errno));
}

// --- C16
static void roundtrip(pbt::Src &src, pbt::Ctx &ctx, int spec) {
    tg::Cfg c; c.depth = 1 + src.below(3);
    TP t = spec >= 0 ? tg::gen(src, spec, c, c.depth) : tg::gen_any(src, c);
    normal(t);
    std::string want = dump(t, ALL);
    ctx.text(want);
    ctx.cls(specs()[t->spec].name);
    if (tg::nfields_set(t) > 0) ctx.nontrivial();
    vp::track_begin();
    At at;
    N *n = build(t, at);
    if (!n) { vp::track_end(); build_failed(ctx, t); }
    Problems p;
    TP got = extract(n, &p);
    fail_on(ctx, p, "constructed");
    std::string have = dump(got, ALL);
    if (have != want) ctx.fail(first_diff(want, have));
    // a second reading gives the same
    if (dump(extract(n), ALL) != want) ctx.fail("reading the tree twice gives different results");
    // children are the given pointers
    for (size_t i = 0; i < t->children.size(); i++)
        if (cypher_astnode_get_child(n, (unsigned)i) != at[t->children[i].get()]) ctx.fail(strf("child %zu is not the one given", i));
    // parts are the given pointers
    for (size_t i = 0; i < t->v.size(); i++)
        for (size_t k = 0; k < t->v[i].k.size(); k++) {
            const N *g = got->v[i].k[k] ? got->v[i].k[k]->node : nullptr;
            const N *w = t->v[i].k[k] ? at[t->v[i].k[k].get()] : nullptr;
            if (g != w) ctx.fail(strf("%s.%s: part %zu is not the node given", specs()[t->spec].name, specs()[t->spec].f[i].name, k));
        }
    for (unsigned k : {0u, 1u, 7u, 1000000u, 0x7fffffffu, 0xffffffffu - (unsigned)t->children.size()})
        if (cypher_astnode_get_child(n, (unsigned)t->children.size() + k)) ctx.fail("a child past the end");
    for (auto &f : specs()[t->spec].f) if (f.kind == LIST || f.kind == PAIRS) {
        unsigned cnt = f.n(n);
        for (unsigned k : {0u, 1u, 9u, 0x7fffffffu, 0xffffffffu - cnt})
            if (f.at(n, cnt + k) || (f.at2 && f.at2(n, cnt + k))) ctx.fail(strf("%s.%s: an element past the end", specs()[t->spec].name, f.name));
    }
    cypher_ast_free(n);
    size_t live = vp::track_end();
    if (live) ctx.fail(strf("%zu blocks still allocated after cypher_ast_free", live));
}
PROPERTY("C16", constructed_any, 3) { roundtrip(src, ctx, -1); }
// every type in turn
PROPERTY("C16", constructed_each_type, 2) {
    int spec = (int)(ctx.replaying ? src.below((uint32_t)specs().size()) : src.below((uint32_t)specs().size()));
    roundtrip(src, ctx, spec);
}
PROPERTY("C16", text_nodes, 1) {
    // text of every length, given with its length (not terminated)
    std::vector<int> tx;
    for (size_t i = 0; i < specs().size(); i++) if (specs()[i].f.size() == 1 && specs()[i].f[0].kind == TEXT) tx.push_back((int)i);
    int spec = src.pick(tx);
    std::string s = tg::text(src, true);
    size_t n = src.below(3) == 0 && !s.empty() ? src.below((uint32_t)s.size() + 1) : s.size();
    ctx.text(strf("%s %s first %zu", specs()[spec].name, pbt::quote(s).c_str(), n));
    if (n) ctx.nontrivial();
    // exactly-sized buffer, so that reading past it is seen
    char *b = (char *)malloc(n ? n : 1);
    memcpy(b, s.data(), n);
    TP t = mk(specs()[spec].name);
    vp::track_begin();
    N *node;
    const std::string nm = specs()[spec].name;
    cypher_input_range r{}; r.start = {3, 4, 5}; r.end = {6, 7, 8};
#define T(NAME, f) if (nm == #NAME) node = cypher_ast_##f(b, n, r); else
    T(IDENTIFIER, identifier) T(PARAMETER, parameter) T(STRING, string) T(INTEGER, integer) T(FLOAT, float) T(LABEL, label) T(RELTYPE, reltype) T(PROP_NAME, prop_name)
    T(FUNCTION_NAME, function_name) T(INDEX_NAME, index_name) T(PROC_NAME, proc_name) T(LINE_COMMENT, line_comment) T(BLOCK_COMMENT, block_comment) T(ERROR, error) abort();
#undef T
    ctx.check(node != nullptr, "constructor returned NULL");
    if (n) memset(b, 'Z', n);
    free(b);
    ctx.check(cypher_astnode_type(node) == specs()[spec].type, "wrong type");
    std::string got = specs()[spec].f[0].t(node);
    if (got != s.substr(0, n)) ctx.fail("text is " + pbt::quote(got) + " instead of " + pbt::quote(s.substr(0, n)));
    cypher_ast_free(node);
    ctx.check(vp::track_end() == 0, "memory left after freeing");
}

// --- C15
static void collect(CN *n, std::set<CN *> &s) { s.insert(n); for (unsigned i = 0; i < cypher_astnode_nchildren(n); i++) collect(cypher_astnode_get_child(n, i), s); }
static void clone_check(pbt::Src &src, pbt::Ctx &ctx, int spec) {
    tg::Cfg c; c.depth = 1 + src.below(3);
    TP t = spec >= 0 ? tg::gen(src, spec, c, c.depth) : tg::gen_any(src, c);
    normal(t);
    std::string want = dump(t, ALL);
    unsigned order = src.below(4);
    ctx.text(strf("free order %u: ", order) + want);
    ctx.cls(specs()[t->spec].name);
    if (tg::nfields_set(t) > 0) ctx.nontrivial();
    vp::track_begin();
    At at;
    N *n = build(t, at);
    if (!n) { vp::track_end(); build_failed(ctx, t); }
    if (dump(extract(n), ALL) != want) { vp::track_end(); return; }     // C16's business
    N *k = cypher_ast_clone(n);
    if (!k) ctx.fail(strf("cypher_ast_clone returned NULL, errno %d", errno));
    Problems p;
    std::string have = dump(extract(k, &p), ALL);
    fail_on(ctx, p, "clone");
    if (have != want) ctx.fail("clone differs: " + first_diff(want, have));
    if (dump(extract(n), ALL) != want) ctx.fail("cloning changed the original");
    std::set<CN *> a, b;
    collect(n, a); collect(k, b);
    for (auto *x : a) if (b.count(x)) ctx.fail("clone and original share a node");
    if (order == 0) {
        cypher_ast_free(n);
        if (dump(extract(k), ALL) != want) ctx.fail("freeing the original changed the clone");
        cypher_ast_free(k);
    } else if (order == 1) {
        cypher_ast_free(k);
        if (dump(extract(n), ALL) != want) ctx.fail("freeing the clone changed the original");
        cypher_ast_free(n);
    } else {
        // a clone of the clone
        N *k2 = cypher_ast_clone(k);
        if (!k2) ctx.fail("cloning the clone failed");
        cypher_ast_free(order == 2 ? k : n);
        have = dump(extract(k2, &p), ALL);
        fail_on(ctx, p, "clone of clone");
        if (have != want) ctx.fail("clone of the clone differs: " + first_diff(want, have));
        if (render(k2) != render(order == 2 ? n : k)) ctx.fail("clone renders differently");
        cypher_ast_free(order == 2 ? n : k);
        if (dump(extract(k2), ALL) != want) ctx.fail("the clone of the clone changed");
        cypher_ast_free(k2);
    }
    size_t bytes, live = vp::track_end(&bytes);
    if (live) ctx.fail(strf("%zu blocks (%zu bytes) still allocated after freeing original and clone", live, bytes));
}
PROPERTY("C15", clone_any, 2) { clone_check(src, ctx, -1); }
PROPERTY("C15", clone_each_type, 2) { clone_check(src, ctx, (int)src.below((uint32_t)specs().size())); }

// --- C17
static bool ndebug() {
    const char *v = getenv("VERIF_VARIANT");
    return v && !strcmp(v, "ndebug");
}
static N *node_of(pbt::Src &src, int spec, TP &t, At &at, int depth) {
    tg::Cfg c; c.depth = depth;
    t = tg::gen(src, spec, c, depth);
    normal(t);
    return build(t, at);
}
PROPERTY("C17", instanceof_all_types, 2) {
    int spec = (int)src.below((uint32_t)specs().size());
    TP t; At at;
    N *n = node_of(src, spec, t, at, 1 + (int)src.below(2));
    ctx.text(dump(t));
    ctx.cls(specs()[spec].name);
    ctx.nontrivial();
    if (!n) build_failed(ctx, t);
    // all nodes of the tree against all types
    for (auto &p : at) {
        int sp = p.first->spec;
        ctx.check(cypher_astnode_type(p.second) == specs()[sp].type, strf("type of a %s is wrong", specs()[sp].name));
        for (auto &ty : all_types()) {
            bool want = is_a(sp, ty.name), have = cypher_astnode_instanceof(p.second, ty.type);
            if (want != have) ctx.fail(strf("%s %s an instance of %s, but instanceof says %d", specs()[sp].name, want ? "is" : "is not", ty.name, (int)have));
        }
    }
    if (cypher_astnode_instanceof(nullptr, specs()[spec].type)) ctx.fail("NULL is an instance of something");
    cypher_ast_free(n);
}
PROPERTY("C17", type_names, 1) {
    std::map<std::string, std::string> seen;
    std::set<int> codes;
    unsigned a = src.below((uint32_t)all_types().size());
    ctx.text(strf("names from type %u", a));
    ctx.nontrivial();
    for (size_t i = 0; i < all_types().size(); i++) {
        auto &ty = all_types()[(i + a) % all_types().size()];
        const char *s = cypher_astnode_typestr(ty.type);
        if (!codes.insert(ty.type).second) ctx.fail(strf("the code of type %s is used twice", ty.name));
        if (!s && find(ty.name) < 0) continue;      // no node is just that
        if (!s || !*s) ctx.fail(strf("type %s has no name", ty.name));
        if (seen.count(s)) ctx.fail(strf("types %s and %s are both named '%s'", ty.name, seen[s].c_str(), s));
        seen[s] = ty.name;
        int k = find(ty.name);
        if (k >= 0 && std::string(specs()[k].typestr) != s) ctx.fail(strf("type %s is named '%s', not '%s'", ty.name, s, specs()[k].typestr));
        if (cypher_astnode_typestr(ty.type) != s) ctx.fail("the name is not stable");
    }
    if (ndebug()) {
        int over = 256;
        for (int c = 0; c < 256; c++) if (!codes.count(c)) {
            const char *s = cypher_astnode_typestr((cypher_astnode_type_t)c);
            if (s) ctx.fail(strf("type code %d is not refused by cypher_astnode_typestr", c));
            over = std::min(over, c);
        }
        TP t = mk("TRUE");
        At at; N *n = build(t, at);
        for (int c = 0; c < 256; c++) if (!codes.count(c) && cypher_astnode_instanceof(n, (cypher_astnode_type_t)c)) ctx.fail(strf("a node is an instance of type code %d", c));
        cypher_ast_free(n);
    }
}
// accessors of a supertype work on all its instances
PROPERTY("C17", inherited_accessors, 2) {
    static const char *const kinds[] = {"FILTER", "EXTRACT", "ALL", "ANY", "SINGLE", "NONE", "NAMED_PATH", "SHORTEST_PATH", "LIST_COMPREHENSION", "PATTERN_PATH"};
    int spec = find(src.pick(kinds));
    TP t; At at;
    N *n = node_of(src, spec, t, at, 1 + (int)src.below(3));
    ctx.text(dump(t));
    ctx.cls(specs()[spec].name);
    ctx.nontrivial();
    if (!n) build_failed(ctx, t);
    if (is_a(spec, "LIST_COMPREHENSION")) {
        auto want = [&](const char *f) -> const N * { for (size_t i = 0; i < t->v.size(); i++) if (!strcmp(specs()[spec].f[i].name, f)) return t->v[i].k[0] ? at[t->v[i].k[0].get()] : nullptr; return nullptr; };
        ctx.check(cypher_ast_list_comprehension_get_identifier(n) == want("identifier"), "identifier");
        ctx.check(cypher_ast_list_comprehension_get_expression(n) == want("expression"), "expression");
        ctx.check(cypher_ast_list_comprehension_get_predicate(n) == want("predicate"), "predicate");
        ctx.check(cypher_ast_list_comprehension_get_eval(n) == want("eval"), "eval");
    } else {
        TP inner = t;
        while (inner->spec != find("PATTERN_PATH")) inner = fv(inner, "path").k[0];
        auto &els = fv(inner, "elements").k;
        if (cypher_ast_pattern_path_nelements(n) != els.size()) ctx.fail(strf("%s has %u path elements instead of %zu", specs()[spec].name, cypher_ast_pattern_path_nelements(n), els.size()));
        for (size_t i = 0; i < els.size(); i++) if (cypher_ast_pattern_path_get_element(n, (unsigned)i) != at[els[i].get()]) ctx.fail(strf("path element %zu differs", i));
        if (cypher_ast_pattern_path_get_element(n, (unsigned)els.size())) ctx.fail("path element past the end");
    }
    cypher_ast_free(n);
}

// --- C18 (build without assertions)
static void each_node(const TP &t, std::vector<TP> &o) { if (std::find(o.begin(), o.end(), t) != o.end()) return; o.push_back(t); for (auto &c : t->children) each_node(c, o); }
static int other_type(pbt::Src &src, const char *types) {
    std::vector<int> bad;
    for (size_t i = 0; i < specs().size(); i++) if (!is_a_any((int)i, types)) bad.push_back((int)i);
    return src.pick(bad);
}
PROPERTY("C18", constructors, 3) {
    if (!ndebug()) throw pbt::Discard{};
    // a valid call, then one requirement broken
    std::vector<int> nt;
    for (size_t i = 0; i < specs().size(); i++) if (!specs()[i].f.empty() && !(specs()[i].f.size() == 1 && specs()[i].f[0].kind == TEXT)) nt.push_back((int)i);
    int spec = src.pick(nt);
    const Spec &s = specs()[spec];
    tg::Cfg c; c.depth = 2; c.permute = false;
    TP t = tg::gen(src, spec, c, 2);
    normal(t);
    struct Mut { size_t f; int kind; };
    enum { NUL, WRONG, NOCHILD, EMPTY, ELNULL, ELWRONG, ELNOCHILD, OPNULL, PARITY, NOTHING, ORDER };
    static const char *const mn[] = {"missing part", "part of a wrong type", "part not among the children", "empty list", "list with a missing element", "list element of a wrong type", "list element not among the children",
        "no operator", "even number of path elements", "neither * nor projections", "path elements in wrong order"};
    std::vector<Mut> ms;
    for (size_t i = 0; i < s.f.size(); i++) switch (s.f[i].kind) {
        case ONE: ms.push_back({i, NUL}); ms.push_back({i, WRONG}); ms.push_back({i, NOCHILD}); break;
        case OPT: ms.push_back({i, WRONG}); ms.push_back({i, NOCHILD}); break;
        case LIST: if (s.f[i].min) ms.push_back({i, EMPTY}); [[fallthrough]];
        case PAIRS: ms.push_back({i, ELNULL}); ms.push_back({i, ELWRONG}); ms.push_back({i, ELNOCHILD}); break;
        case OP: ms.push_back({i, OPNULL}); break;
        case OPS: ms.push_back({i, OPNULL}); break;
        default: break;
    }
    if (!strcmp(s.name, "PATTERN_PATH")) { ms.push_back({0, PARITY}); ms.push_back({0, ORDER}); }
    if (!strcmp(s.name, "WITH") || !strcmp(s.name, "RETURN")) for (size_t i = 0; i < s.f.size(); i++) if (s.f[i].kind == LIST) ms.push_back({i, NOTHING});
    if (ms.empty()) throw pbt::Discard{};
    Mut m = src.pick(ms);
    const Fld &f = s.f[m.f];
    Val &v = t->v[m.f];
    TP removed;                     // built, but not a child
    size_t at_i = 0;
    auto fresh = [&](const char *types, bool wrong) { int ty; if (wrong) ty = other_type(src, types); else { std::vector<int> ok; for (size_t i = 0; i < specs().size(); i++) if (is_a_any((int)i, types)) ok.push_back((int)i); ty = src.pick(ok); }
        TP x = tg::gen(src, ty, c, 1); normal(x); return x; };
    auto drop_child = [&](const TP &x) { auto &ch = t->children; ch.erase(std::remove(ch.begin(), ch.end(), x), ch.end()); };
    if (m.kind == WRONG || m.kind == NOCHILD) {
        if (v.k[0]) drop_child(v.k[0]);
        v.k[0] = fresh(f.types, m.kind == WRONG);
        if (m.kind == WRONG) t->children.push_back(v.k[0]);
    } else if (m.kind >= ELNULL && m.kind <= ELNOCHILD) {
        bool pairs = f.kind == PAIRS;
        if (v.k.empty()) for (int k = 0; k < (pairs ? 2 : 1); k++) { v.k.push_back(fresh(k ? f.types2 : f.types, false)); t->children.push_back(v.k.back()); }
        at_i = src.below((uint32_t)v.k.size());
        const char *ty = pairs && at_i % 2 ? f.types2 : f.types;
        if (!strcmp(s.name, "PATTERN_PATH")) ty = at_i % 2 ? "REL_PATTERN" : "NODE_PATTERN";
        drop_child(v.k[at_i]);
        v.k[at_i] = m.kind == ELNULL ? nullptr : fresh(ty, m.kind == ELWRONG);
        if (m.kind == ELWRONG) t->children.push_back(v.k[at_i]);
        if (m.kind == ELNULL && f.kind == LIST && !strcmp(s.name, "COMPARISON")) {}
    } else if (m.kind == EMPTY || m.kind == NOTHING) {
        v.k.clear();
        if (m.kind == NOTHING) fv(t, "include_existing").s = "0";
    } else if (m.kind == PARITY) { if (v.k.size() > 1) v.k.pop_back(); else v.k.clear(); }
    else if (m.kind == ORDER) { if (v.k.size() < 3) throw pbt::Discard{}; std::swap(v.k[0], v.k[1]); }
    ctx.text(strf("%s: %s", s.name, mn[m.kind]) + (m.kind == OPNULL || m.kind == NOTHING || m.kind == PARITY ? "" : strf(" (%s[%zu])", f.name, at_i)) + ", others " + dump(t).substr(0, 1500));
    ctx.cls(mn[m.kind]);
    ctx.nontrivial();

    vp::track_begin();
    At at;
    std::vector<N *> nodes, loose;
    for (auto &x : t->children) { N *n = build(x, at); if (!n) build_failed(ctx, x); nodes.push_back(n); }
    Args a; a.r = t->range; a.ch = nodes.empty() ? nullptr : nodes.data(); a.nch = (unsigned)nodes.size();
    auto node = [&](const TP &x) -> N * { if (!x) return nullptr; auto it = at.find(x.get()); if (it != at.end()) return it->second;
        N *n = build(x, at); if (!n) build_failed(ctx, x); loose.push_back(n); return n; };
    for (size_t i = 0; i < s.f.size(); i++) {
        RArg r; const Val &w = t->v[i];
        switch (s.f[i].kind) {
        case ONE: case OPT: r.one = m.kind == NUL && i == m.f ? nullptr : node(w.k[0]); break;
        case LIST: for (auto &k : w.k) r.list.push_back(node(k)); break;
        case PAIRS: for (size_t k = 0; k + 1 < w.k.size(); k += 2) { r.list.push_back(node(w.k[k])); r.list2.push_back(node(w.k[k + 1])); } break;
        case BOOL: r.b = w.s == "1"; break;
        case OP: r.op = m.kind == OPNULL ? nullptr : op_by_name(w.s); break;
        case OPS: { if (m.kind == OPNULL) break; std::string o; for (char ch : w.s + " ") { if (ch == ' ') { if (!o.empty()) r.ops.push_back(op_by_name(o)); o.clear(); } else o += ch; }
            break; }
        case DIR: r.dir = dir_by_name(w.s); break;
        default: break;
        }
        a.v.push_back(r);
    }
    size_t live = vp::track_live();
    if (m.kind == EMPTY && !strcmp(s.name, "COMPARISON")) a.v[0].ops.clear();
    errno = 0;
    N *n = s.make(a);
    if (n) ctx.fail("the constructor accepted the call");
    if (errno != EINVAL) ctx.fail(strf("errno is %d, not EINVAL", errno));
    if (vp::track_live() != live) ctx.fail("the refused call left memory allocated");
    // what was passed is untouched and still ours
    for (size_t i = 0; i < t->children.size(); i++)
        if (dump(extract(nodes[i]), ALL) != dump(t->children[i], ALL)) ctx.fail("a node passed to the refused call was changed");
    for (auto *x : nodes) cypher_ast_free(x);
    for (auto *x : loose) cypher_ast_free(x);
    size_t left = vp::track_end();
    if (left) ctx.fail(strf("%zu blocks left allocated", left));
}
PROPERTY("C18", accessors, 2) {
    if (!ndebug()) throw pbt::Discard{};
    int spec = (int)src.below((uint32_t)specs().size());
    TP t; At at;
    N *n = node_of(src, spec, t, at, 1);
    if (!n) build_failed(ctx, t);
    ctx.text(strf("accessors of other types on a %s", specs()[spec].name));
    ctx.cls(specs()[spec].name);
    ctx.nontrivial();
    std::string before = dump(extract(n), ALL);
    for (auto &s : specs()) for (auto &f : s.f) {
        std::string req = s.name;
        if (f.get == cypher_ast_list_comprehension_get_identifier || f.get == cypher_ast_list_comprehension_get_expression || f.get == cypher_ast_list_comprehension_get_predicate || f.get == cypher_ast_list_comprehension_get_eval) req = "LIST_COMPREHENSION";
        if (is_a(spec, req)) continue;
        auto expect = [&](bool none) {
            int e = errno;
            if (!none) ctx.fail(strf("%s.%s answers for a %s", s.name, f.name, specs()[spec].name));
            if (e != EINVAL) ctx.fail(strf("%s.%s on a %s: errno is %d, not EINVAL", s.name, f.name, specs()[spec].name, e));
        };
        errno = 0;
        switch (f.kind) {
        case ONE: case OPT: expect(f.get(n) == nullptr); break;
        case LIST: case PAIRS:
            if (req == "COMPARISON") { errno = 0; unsigned c = cypher_ast_comparison_get_length(n); expect(c == 0); } else { unsigned c = f.n(n); expect(c == 0 || c == (unsigned)-1); }
            errno = 0; expect(f.at(n, 0) == nullptr);
            if (f.at2) { errno = 0; expect(f.at2(n, 0) == nullptr); }
            break;
        case BOOL: expect(!f.b(n)); break;
        case TEXT: expect(f.t(n) == nullptr); break;
        case OP: expect(f.op(n) == nullptr); break;
        case OPS: expect(f.ops(n, 0) == nullptr); break;
        case DIR: { f.dir(n); expect(true); break; }
        }
    }
    if (dump(extract(n), ALL) != before) ctx.fail("refused accessors changed the node");
    cypher_ast_free(n);
}
PROPERTY("C18", other_calls, 1) {
    if (!ndebug()) throw pbt::Discard{};
    unsigned k = src.below(9);
    ctx.text(strf("call %u with NULL", k));
    ctx.nontrivial();
    cypher_ast_annotation_context_t *ac = cypher_ast_annotation_context();
    TP t; At at; N *n = node_of(src, (int)src.below((uint32_t)specs().size()), t, at, 1);
    if (!n) build_failed(ctx, t);
    int x = 0; void *prev = &x;
    errno = 0;
    switch (k) {
    case 0: ctx.check(cypher_astnode_attach_annotation(nullptr, n, &x, &prev) == -1 && errno == EINVAL, "attach without context"); break;
    case 1: ctx.check(cypher_astnode_attach_annotation(ac, nullptr, &x, &prev) == -1 && errno == EINVAL, "attach without node"); break;
    case 2: ctx.check(cypher_astnode_attach_annotation(ac, n, nullptr, &prev) == -1 && errno == EINVAL, "attach without annotation"); break;
    case 3: ctx.check(!cypher_astnode_remove_annotation(nullptr, n) && errno == EINVAL, "remove without context"); break;
    case 4: ctx.check(!cypher_astnode_remove_annotation(ac, nullptr) && errno == EINVAL, "remove without node"); break;
    case 5: ctx.check(!cypher_astnode_get_annotation(nullptr, n) && errno == EINVAL, "get without context"); break;
    case 6: ctx.check(!cypher_astnode_get_annotation(ac, nullptr) && errno == EINVAL, "get without node"); break;
    case 7: ctx.check(cypher_ast_fprint(nullptr, stdout, 0, nullptr, 0) == -1 && errno == EINVAL, "fprint without ast"); break;
    case 8: cypher_ast_free(nullptr); cypher_astnode_free(nullptr); cypher_ast_annotation_context_free(nullptr); cypher_parse_segment_release(nullptr); cypher_parse_result_free(nullptr); cypher_parser_config_free(nullptr);
        ctx.check(cypher_ast_clone(nullptr) == nullptr, "clone of NULL"); break;
    }
    ctx.check(cypher_astnode_get_annotation(ac, n) == nullptr, "a refused call attached something");
    cypher_ast_annotation_context_free(ac);
    cypher_ast_free(n);
}

// --- C19
struct Rel { const void *ud; const N *node; void *ann; int type; };
static std::vector<Rel> released;
static void on_release(void *ud, const cypher_astnode_t *node, void *ann) {
    released.push_back({ud, node, ann, node ? (int)cypher_astnode_type(node) : -1});
}
static void on_release2(void *ud, const cypher_astnode_t *node, void *ann) { on_release((char *)ud + 1, node, ann); }
PROPERTY("C19", histories, 1) {
    static char tokens[4096], uds[4096];
    struct C { cypher_ast_annotation_context_t *c; const void *ud; };
    std::map<int, C> ctxs; int nctx = 0;
    struct Nd { N *n; int type; int tree; std::vector<int> kids; };
    std::map<int, Nd> nodes; int nnode = 0;
    std::map<int, int> root;                      // tree -> root node
    int ntrees = 0;
    std::map<std::pair<int, int>, void *> model;  // (ctx, node) -> annotation
    std::string log;
    size_t ntok = 0, nontriv = 0, nud = 0;
    released.clear();
    vp::track_begin();
    auto new_tree = [&]() {
        tg::Cfg c; c.depth = 2; c.wild_text = false;
        TP t = tg::gen_any(src, c); normal(t);
        At at; N *n = build(t, at);
        if (!n) build_failed(ctx, t);
        int tree = ntrees++;
        std::vector<TP> all; each_node(t, all);
        root[tree] = nnode;
        std::map<const Tree *, int> ids;
        for (auto &x : all) { ids[x.get()] = nnode; nodes[nnode] = {at[x.get()], (int)specs()[x->spec].type, tree, {}}; nnode++; }
        for (auto &x : all) for (auto &k : x->children) nodes[ids[x.get()]].kids.push_back(ids[k.get()]);
        log += strf("tree%d=%s(%zu) ", tree, specs()[t->spec].name, all.size());
    };
    auto new_ctx = [&]() {
        const void *ud = nullptr;
        unsigned k = src.below(4);
        cypher_ast_annotation_context_t *a = cypher_ast_annotation_context();
        ctx.check(a != nullptr, "no context");
        if (k) { ud = &uds[2 * nctx]; cypher_ast_annotation_context_set_release_handler(a, on_release, (void *)ud); }
        ctxs[nctx] = {a, ud};
        log += strf("ctx%d%s ", nctx, ud ? "+handler" : "");
        nctx++;
    };
    auto expect = [&](std::vector<Rel> want) {
        auto key = [](const Rel &r) { return std::make_tuple(r.ud, r.node, r.ann); };
        auto cmp = [&](const Rel &a, const Rel &b) { return key(a) < key(b); };
        std::sort(want.begin(), want.end(), cmp);
        std::sort(released.begin(), released.end(), cmp);
        if (want.size() != released.size()) ctx.fail(strf("the release handler ran %zu times instead of %zu\n  history: ", released.size(), want.size()) + log);
        for (size_t i = 0; i < want.size(); i++) {
            if (key(want[i]) != key(released[i])) ctx.fail(strf("the release handler got (userdata %p, node %p, annotation %p) instead of (%p, %p, %p)\n  history: ", released[i].ud, (void *)released[i].node, released[i].ann, want[i].ud, (void *)want[i].node, want[i].ann) + log);
            if (want[i].type != released[i].type) ctx.fail("the node was not intact in the release handler");
        }
        released.clear();
    };
    new_tree(); new_ctx();
    unsigned steps = 4 + src.len(150, 25);
    for (unsigned i = 0; i < steps; i++) {
        unsigned op = src.below(22);
        auto rc = [&]() { auto it = ctxs.begin(); std::advance(it, src.below((uint32_t)ctxs.size())); return it; };
        auto rn = [&]() { auto it = nodes.begin(); std::advance(it, src.below((uint32_t)nodes.size())); return it; };
        if (ctxs.empty()) new_ctx();
        if (nodes.empty()) new_tree();
        if (op < 8) {
            auto c = rc(); auto n = rn();
            void *ann = &tokens[ntok++ % sizeof tokens], *prev = &log;
            bool wp = src.below(4) != 0;
            auto key = std::make_pair(c->first, n->first);
            log += strf("attach(c%d,n%d) ", c->first, n->first);
            int r = cypher_astnode_attach_annotation(c->second.c, n->second.n, ann, wp ? &prev : nullptr);
            if (r) ctx.fail("attach failed\n  history: " + log);
            void *want = model.count(key) ? model[key] : nullptr;
            if (wp && prev != want) ctx.fail("attach reports a wrong previous annotation\n  history: " + log);
            model[key] = ann;
            nontriv++;
        } else if (op < 11) {
            auto c = rc(); auto n = rn();
            auto key = std::make_pair(c->first, n->first);
            log += strf("remove(c%d,n%d) ", c->first, n->first);
            void *want = model.count(key) ? model[key] : nullptr;
            if (cypher_astnode_remove_annotation(c->second.c, n->second.n) != want) ctx.fail("remove returns a wrong annotation\n  history: " + log);
            model.erase(key);
        } else if (op < 14) {
            auto c = rc(); auto n = rn();
            auto key = std::make_pair(c->first, n->first);
            if (cypher_astnode_get_annotation(c->second.c, n->second.n) != (model.count(key) ? model[key] : nullptr)) ctx.fail(strf("get(c%d,n%d) is wrong\n  history: ", c->first, n->first) + log);
        } else if (op == 14) { if (ctxs.size() < 5) new_ctx(); }
        else if (op == 15) { if (root.size() < 6) new_tree(); }
        else if (op == 16) {
            // free a context
            auto c = rc();
            std::vector<Rel> want;
            for (auto it = model.begin(); it != model.end();) if (it->first.first == c->first) {
                if (c->second.ud) want.push_back({c->second.ud, nodes[it->first.second].n, it->second, nodes[it->first.second].type});
                it = model.erase(it);
            } else ++it;
            log += strf("free(c%d) ", c->first);
            cypher_ast_annotation_context_free(c->second.c);
            ctxs.erase(c);
            expect(want);
        } else if (op == 17) {
            // free a tree
            auto n = rn();
            int tree = n->second.tree;
            std::vector<Rel> want;
            for (auto it = model.begin(); it != model.end();) if (nodes[it->first.second].tree == tree) {
                if (ctxs[it->first.first].ud) want.push_back({ctxs[it->first.first].ud, nodes[it->first.second].n, it->second, nodes[it->first.second].type});
                it = model.erase(it);
            } else ++it;
            log += strf("free(tree%d) ", tree);
            cypher_ast_free(nodes[root[tree]].n);
            for (auto it = nodes.begin(); it != nodes.end();) if (it->second.tree == tree) it = nodes.erase(it); else ++it;
            root.erase(tree);
            expect(want);
        } else if (op >= 20) {
            // free the root of a tree, or every node of it, alone
            auto n = rn();
            int tree = n->second.tree;
            auto release = [&](int id) {
                std::vector<Rel> want;
                for (auto it = model.begin(); it != model.end();) if (it->first.second == id) {
                    if (ctxs[it->first.first].ud) want.push_back({ctxs[it->first.first].ud, nodes[id].n, it->second, nodes[id].type});
                    it = model.erase(it);
                } else ++it;
                log += strf("freenode(n%d) ", id);
                cypher_astnode_free(nodes[id].n);
                nodes.erase(id);
                expect(want);
            };
            if (op == 20) {
                int r = root[tree]; auto kids = nodes[r].kids;
                root.erase(tree);
                release(r);
                for (int k : kids) {
                    int t = ntrees++; root[t] = k;
                    std::function<void(int)> mark = [&](int id) { nodes[id].tree = t; for (int q : nodes[id].kids) mark(q); };
                    mark(k);
                }
            } else {
                std::vector<int> ids; for (auto &x : nodes) if (x.second.tree == tree) ids.push_back(x.first);
                if (src.coin()) std::reverse(ids.begin(), ids.end());
                for (int id : ids) release(id);
                root.erase(tree);
            }
            ctx.cls("nodes freed alone");
        } else if (op == 18) {
            // change the handler
            auto c = rc();
            unsigned k = src.below(4);
            log += strf("handler(c%d,%u) ", c->first, k);
            if (k == 0) { cypher_ast_annotation_context_set_release_handler(c->second.c, nullptr, &uds[1]); c->second.ud = nullptr; }
            else if (k == 1) { c->second.ud = &uds[2 * (nud++ % 1024) + 1024]; cypher_ast_annotation_context_set_release_handler(c->second.c, on_release, (void *)c->second.ud); }
            else if (k == 2) { c->second.ud = &uds[2 * c->first]; cypher_ast_annotation_context_set_release_handler(c->second.c, on_release, (void *)c->second.ud); }
            else { cypher_ast_annotation_context_set_release_handler(c->second.c, on_release2, &uds[2 * c->first]); c->second.ud = &uds[2 * c->first] + 1; }
        } else {
            // all pairs
            for (auto &c : ctxs) for (auto &n : nodes) {
                auto key = std::make_pair(c.first, n.first);
                if (cypher_astnode_get_annotation(c.second.c, n.second.n) != (model.count(key) ? model[key] : nullptr)) ctx.fail(strf("get(c%d,n%d) is wrong\n  history: ", c.first, n.first) + log);
            }
        }
        if (!released.empty()) expect({});
        ctx.text(log);
    }
    // tear down in either order
    bool ctx_first = src.coin();
    std::vector<Rel> want;
    for (auto &m : model) if (ctxs[m.first.first].ud) want.push_back({ctxs[m.first.first].ud, nodes[m.first.second].n, m.second, nodes[m.first.second].type});
    log += ctx_first ? "end: contexts, trees" : "end: trees, contexts";
    ctx.text(log);
    for (int k = 0; k < 2; k++) {
        if ((k == 0) == ctx_first) for (auto &c : ctxs) cypher_ast_annotation_context_free(c.second.c);
        else { std::set<int> trees; for (auto &n : nodes) trees.insert(n.second.tree); for (int t : trees) cypher_ast_free(nodes[root[t]].n); }
    }
    expect(want);
    if (nontriv >= 3) ctx.nontrivial();
    size_t live = vp::track_end();
    if (live) ctx.fail(strf("%zu blocks left\n  history: ", live) + log);
}

// --- C20 (constructed trees; their ordinals are all 0)
PROPERTY("C20", render_constructed, 2) {
    tg::Cfg c; c.depth = 1 + src.below(3);
    if (src.below(4) == 0) c.ranges = false;
    TP t = tg::gen_any(src, c); normal(t);
    unsigned width = src.below(3) ? 0 : 1 + src.below(200);
    ctx.text(strf("width %u: ", width) + dump(t, ALL));
    ctx.cls(specs()[t->spec].name); if (width) ctx.cls("width");
    if (tg::nfields_set(t) > 0) ctx.nontrivial();
    At at; N *n = build(t, at);
    if (!n) build_failed(ctx, t);
    std::map<const Tree *, unsigned> ord;
    for (auto &p : at) ord[p.first] = 0;
    std::string e = rm::check({t}, ord, render(n, width), width);
    if (!e.empty()) ctx.fail(e);
    cypher_ast_free(n);
}
