// The AST node types as data: one entry per type with its documented parents, its parts and
// attributes, their accessors and its constructor.  From it: extraction of a real AST into a
// plain tree, construction of a real AST from a plain tree, and comparison of plain trees.
#pragma once
#include "pbt.hpp"
#include <functional>
#include <memory>
extern "C" {
#include "cypher-parser.h"
}

namespace ax {
typedef cypher_astnode_t N;
typedef const cypher_astnode_t CN;
typedef struct cypher_input_range Rng;

struct Tree;
typedef std::shared_ptr<Tree> TP;

// kinds of part or attribute
enum Kind { ONE, OPT, LIST, PAIRS, BOOL, TEXT, OP, OPS, DIR };

struct Fld {
    const char *name;
    Kind kind;
    const char *types = "", *types2 = "";     // allowed types of parts (space separated)
    unsigned min = 0;                          // list: least length
    CN *(*get)(CN *) = nullptr;
    unsigned (*n)(CN *) = nullptr;
    CN *(*at)(CN *, unsigned) = nullptr;
    CN *(*at2)(CN *, unsigned) = nullptr;
    bool (*b)(CN *) = nullptr;
    const char *(*t)(CN *) = nullptr;
    const cypher_operator_t *(*op)(CN *) = nullptr;
    const cypher_operator_t *(*ops)(CN *, unsigned) = nullptr;
    enum cypher_rel_direction (*dir)(CN *) = nullptr;
    bool unchecked = false;                    // the constructor states no type requirement for it
};

struct Val {
    std::string s;            // TEXT; BOOL "1"/"0"; OP name; OPS names joined by ' '; DIR
    std::vector<TP> k;        // ONE/OPT: one entry (may be null); LIST; PAIRS: flattened
};

struct Tree {
    int spec = -1;
    std::vector<Val> v;       // one per field
    Rng range{};
    std::vector<TP> children; // extraction: all children; generation: filled by link()
    // generation
    int tok0 = -1, tok1 = -1; // first and one-past-last token of its own text
    std::string key() const;
    const N *node = nullptr;  // extraction: where it came from
};

struct RArg { N *one = nullptr; std::vector<N *> list, list2; bool b = false; std::string s; const cypher_operator_t *op = nullptr;
    std::vector<const cypher_operator_t *> ops; int dir = 0; size_t slen = 0; };
struct Args { std::vector<RArg> v; N **ch = nullptr; unsigned nch = 0; Rng r{};
    N *const *L(size_t i) const { return v[i].list.empty() ? nullptr : v[i].list.data(); }
    N *const *L2(size_t i) const { return v[i].list2.empty() ? nullptr : v[i].list2.data(); }
    unsigned n(size_t i) const { return (unsigned)v[i].list.size(); } };

struct Spec {
    const char *name;                     // as in CYPHER_AST_<name>
    cypher_astnode_type_t type;
    const char *parents;                  // documented direct parents, space separated
    const char *typestr;
    bool terminal;                        // takes text or nothing, and no children
    std::vector<Fld> f;
    N *(*make)(const Args &);
};

const std::vector<Spec> &specs();
int find(const std::string &name);                      // -1 if none
int find_type(cypher_astnode_type_t t);                 // -1 if none
struct TypeName { const char *name; cypher_astnode_type_t type; };
const std::vector<TypeName> &all_types();               // including abstract ones
// Is a node of type `spec` documented to be an instance of the named type?
bool is_a(int spec, const std::string &type);
bool is_a_any(int spec, const char *types);             // space separated
std::vector<std::string> ancestors(int spec);           // itself and all documented supertypes

struct OpName { const char *name; const cypher_operator_t *op; };
const std::vector<OpName> &operators();
const cypher_operator_t *op_by_name(const std::string &);
std::string op_name(const cypher_operator_t *);
const char *dir_name(int d);
int dir_by_name(const std::string &);

TP mk(const char *type);                                // a tree with all fields empty
Val &fv(const TP &t, const char *field);
// Extracts; on inconsistency (missing parts, unknown type...) calls problem.
typedef std::vector<std::string> Problems;
TP extract(CN *n, Problems *problems = nullptr);
// Canonical text. flags: what to include
enum { D_RANGE = 1, D_CHILDREN = 2 };
std::string dump(const TP &t, int flags = 0);
std::string first_diff(const std::string &a, const std::string &b);
// Only roles, in order of source (list of all parts)
std::vector<TP> parts(const TP &t);
size_t count(const TP &t);                              // over children
// Constructs a real AST (children: t->children if set, else the parts).  The map gives the node of each tree.
struct Built { N *root = nullptr; std::map<const Tree *, N *> at; };
N *build(const TP &t, std::map<const Tree *, N *> &at);
std::string range_str(const Rng &r);

// Whole results
struct Err { std::string msg, ctx; size_t ctx_off = 0; bool has_ctx = false; struct cypher_input_position pos{}; };
struct Seg { Rng range{}; bool eof = false; std::vector<TP> roots; TP directive; int directive_index = -1; std::vector<Err> errs; unsigned nnodes = 0; };
std::string dump_err(const Err &e, bool ctx = true);
std::string dump_seg(const Seg &s, int flags, bool ctx = true);
Err get_err(const cypher_parse_error_t *e);
// Reads a segment through the API.
Seg get_seg(const cypher_parse_segment_t *s, Problems *p = nullptr);
struct Parse { std::vector<Seg> segs; int rc = 0; int err = 0; struct cypher_input_position last{}; };
Parse parse_each(const std::string &in, unsigned flags, cypher_parser_config_t *cfg = nullptr, Problems *p = nullptr);
struct ResultView { std::vector<TP> roots, directives; std::vector<Err> errs; unsigned nnodes = 0; bool eof = false; bool null = false; struct cypher_input_position last{}; };
ResultView get_result(const cypher_parse_result_t *r, Problems *p = nullptr);
std::string dump_result(const ResultView &v, int flags, bool ctx = true);
void shift(const TP &t, struct cypher_input_position base);   // as if preceded by text ending at base
struct cypher_input_position shifted(struct cypher_input_position p, struct cypher_input_position base);
std::string slurp(FILE *f);
// Prints a tree
std::string render(CN *n, unsigned width = 0, const struct cypher_parser_colorization *c = nullptr);
}
