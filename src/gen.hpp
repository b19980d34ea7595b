// Grammar-based generation of Cypher text together with the AST it denotes.
//
// A statement is generated as a plain tree (ax::Tree) first, then written out as tokens with
// only the parentheses its shape needs (and some that it does not), then laid out as text
// with random blanks, comments and letter case.  The tree, the token positions and the
// comments written are what the parser must report.
#pragma once
#include "astx.hpp"
#include <memory>
namespace gg {
using namespace ax;

struct Tok {
    std::string s;
    bool kw = false;        // letters may be in any case
    char gap = 0;           // before it: 0 optional, 1 required, 2 forbidden
    bool ws_after = false;  // the gap after it must begin with a blank
    bool id = false;        // a name (may be followed by an argument list)
    bool pat = false;       // punctuation of a relationship pattern
};

struct Opts {
    int depth = 3;          // of expressions
    int clauses = 4;        // at most
    bool wild = true;       // names in backticks with any characters, odd strings
    bool redundant = true;  // redundant parentheses
    bool full = false;      // parentheses around every operand
    bool schema = false;    // a schema command
    bool longnames = false; // names and strings as long as the parser's buffers
};

class G {
public:
    G(pbt::Src &s, const Opts &o) : src(s), o(o) {}
    pbt::Src &src;
    Opts o;
    std::vector<Tok> t;
    std::set<const Tree *> text_alias;      // aliases made from the expression's own text

    // generate trees
    TP statement();
    TP query();
    TP clause(int d, bool nested = false);
    TP expr(int d);
    TP schema();
    TP pattern_part(int d);
    TP pattern_path(int d, bool need_rel);
    TP ident(); TP string_(); TP integer(); TP float_(); TP param(); TP map(int d); TP named(const char *type); TP dotted(const char *type);
    TP leaf();
    TP projection(int d, int kind);         // 0 RETURN, 1 WITH, 2 YIELD
    TP set_item(int d); TP property_expr(int d); TP order_by(int d); TP hint(); TP start_point(int d); TP rel(int d); TP node(int d);
    std::string name(bool dotted = false);

    // write tokens
    void emit(const TP &x);
    void emit_expr(const TP &x, bool need_paren);
    void semicolon() { p(";"); }
    void kw(const char *words);
    Tok &p(const std::string &s, char gap = 0, bool pat = false);
    void symbol(const std::string &text, char gap, bool reserved_ok);
    static int prec(const TP &x);
    void reset() { t.clear(); text_alias.clear(); dotparts.clear(); budget = 60; big = 6; atom_base = false; }
    bool ambiguous() const;                 // some parenthesised name would read as a pattern
private:
    int tail(const TP &x);
    bool need_left(const TP &x, int p, bool rassoc, bool chain);
    bool need_right(const TP &x, int p, bool rassoc);
    void list(const std::vector<TP> &v, bool exprs);
    void write_string(const std::string &v);
    void pat_expr(const TP &x);
    int budget = 60, big = 6;
    std::map<const Tree *, std::vector<std::string>> dotparts;
    bool atom_base = false;                 // writing the target of SET or REMOVE
};

// A small statement with a node of the given type somewhere in it, if one is found; its tokens are written
std::unique_ptr<G> statement_of(pbt::Src &src, Opts o, int spec, TP &out);
// A statement: as the generator makes them, or (one in three) small, around a node of a type drawn from all of them
TP statement_any(G &g);

struct Style { int mode = 3; bool random_case = true; };   // 0 plain, 1 compact, 2 blanks, 3 blanks and comments
struct Cmt { bool line; size_t b, e; };                    // text without its delimiters
struct Layout { std::string src; std::vector<size_t> b, e; std::set<size_t> kw; std::vector<Cmt> comments; };   // kw: which tokens are keywords
// Lays tokens out after what `l` already holds.
void lay(pbt::Src &src, const std::vector<Tok> &t, const Style &st, Layout &l);
std::string gap(pbt::Src &src, const Style &st, bool req, bool ws_first, bool at_end, size_t at, std::vector<Cmt> *comments, char prev);

struct Lines {
    std::vector<size_t> starts;
    explicit Lines(const std::string &s);
    struct cypher_input_position pos(size_t off) const;
    bool is(const struct cypher_input_position &p) const;
};

// Compares what was parsed with what was written; "" or the difference.
enum { C_RANGES = 1 };
std::string compare(const TP &want, const TP &got, const Layout &l, const std::set<const Tree *> &text_alias, int flags);
// The comments anywhere below (or among) these roots, in tree order
void comments(const TP &x, std::vector<TP> &out);
std::string check_comments(const std::vector<TP> &roots, const Layout &l);
// Tree of a whole statement as written
void classes(pbt::Ctx &ctx, const TP &x);
bool ends_like_float(const std::string &s);
bool is_reserved(const std::string &w);
// Several statements and commands in one text
struct Dir { TP tree; bool cmd = false, semi = false, term = false; size_t b = 0, e = 0;      // with what is before it and its terminator
    size_t body_b = 0, body_e = 0;                                               // first and last token
    size_t tok_b = 0, tok_e = 0, cmt_b = 0, cmt_e = 0; };
struct Program { Layout l; std::vector<Dir> dirs; std::set<const Tree *> alias; };
struct POpts { Opts gram; unsigned min = 1, max = 8, typical = 2, commands = 2; int mode = -1; bool tail = true, empties = false, plain_options = false; };
void command(pbt::Src &src, const Style &st, bool wild, bool last, Layout &l, Dir &d);
Program program(pbt::Src &src, const POpts &po);
std::string check_program(const Program &p, const std::vector<TP> &directives, const std::vector<TP> &roots, int flags);
// Any text: token soup, bytes, repetition, programs with mutations
std::string tame(std::string s, unsigned max);
std::string wild(pbt::Src &src, std::string *kind = nullptr);
std::string mutate(pbt::Src &src, std::string s, unsigned n);
std::string soup(pbt::Src &src, unsigned max);
// Structure every parsed tree must have, whatever the input; "" or the problem
std::string structure(const std::vector<TP> &roots, const std::string &in, size_t b, size_t e);
bool layout_only(const std::string &s);                    // blanks and comments only
}
