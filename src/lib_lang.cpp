// A general (ambiguity-tolerant) recogniser: every rule gives all the ends it can reach from a
// position, so that no order of choices matters.  Written from the documentation of the
// language, not from the library's parser, and independent of it: every text that the library
// accepts must be in this language, which ignores operator precedence.
#include "lang.hpp"
#include <cctype>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <unordered_map>
#include <vector>
namespace lang {
namespace {
// UPPERCASE: keyword in any case.  'x': these characters.  #x: lexical.  lower: rule.
const char *const GRAMMAR = R"(
statement = option* (query | schema) ;
option = CYPHER #version? (#cname '=' #cvalue)* | PROFILE | EXPLAIN ;
schema = (CREATE | DROP) INDEX ON label '(' #name (',' #name)* ')'
       | (CREATE | DROP) CONSTRAINT ON '(' #name label ')' ASSERT expr (IS UNIQUE)?
       | (CREATE | DROP) CONSTRAINT ON '(' ')' '<'? '-' '[' #name label ']' '-' '>'? '(' ')' ASSERT expr ;
query = (USING PERIODIC COMMIT #integer?)* clause+ ;
clause = loadcsv | start | match | merge | create | set | delete | remove | foreach | with | unwind | call | return | UNION ALL? ;
loadcsv = LOAD CSV (WITH HEADERS)? FROM expr AS #name (FIELDTERMINATOR #string)? ;
start = START point (',' point)* where? ;
point = #name '=' (NODE | RELATIONSHIP | REL) (':' #name '(' (#name '=')? (#string | param) ')' | '(' (#integer (',' #integer)* | '*') ')') ;
where = WHERE expr ;
match = OPTIONAL? MATCH pattern hint* where? ;
hint = USING INDEX #name label '(' #name ')' | USING JOIN ON #name (',' #name)* | USING SCAN #name label ;
merge = MERGE part action* ;
action = ON (MATCH | CREATE) SET setitem (',' setitem)* ;
create = CREATE UNIQUE? pattern ;
set = SET setitem (',' setitem)* ;
setitem = property '=' expr | #name '=' expr | #name '+=' expr | #name label+ ;
delete = DETACH? DELETE exprs ;
remove = REMOVE rmitem (',' rmitem)* ;
rmitem = property | #name label+ ;
foreach = FOREACH '(' #name IN expr '|' clause+ ')' ;
with = WITH DISTINCT? ('*' | item) (',' item)* tail where? ;
return = RETURN DISTINCT? ('*' | item) (',' item)* tail ;
item = expr (AS #name)? ;
tail = (ORDER BY sort (',' sort)*)? (SKIP expr)? (LIMIT expr)? ;
sort = expr (DESCENDING | DESC | ASCENDING | ASC)? ;
unwind = UNWIND expr AS #name ;
call = CALL dotted ('(' exprs? ')')? (YIELD (yield (',' yield)* | '-'))? where? ;
yield = #name (AS #name)? ;
exprs = expr (',' expr)* ;
expr = operand (binary operand)* ;
operand = (NOT | '+' | '-')* atom post* ;
binary = AND | OR | XOR | NOT | IN | CONTAINS | STARTS WITH | ENDS WITH | '=~' | '=' | '<>' | '<=' | '>=' | '<' | '>' | '+' | '-' | '*' | '/' | '%' | '^' ;
post = IS NULL | IS NOT NULL | '.' #name | '[' expr ']' | '[' expr? '..' expr? ']' | '{' (selector (',' selector)*)? '}' | label ;
selector = #name ':' expr | '.' #name | #name | '.' '*' ;
atom = TRUE | FALSE | NULL | #string | #float | #integer | #name | param | map | '(' expr ')' | '[' exprs? ']' | case | apply | paths
     | '[' #name IN expr where? ('|' expr)? ']' | '[' (#name '=')? path1 where? '|' expr ']'
     | (FILTER | ALL | ANY | NONE | SINGLE) '(' #name IN expr where? ')' | EXTRACT '(' #name IN expr ('|' expr)? ')'
     | REDUCE '(' #name '=' expr ',' #name IN expr ('|' expr)? ')' ;
case = CASE expr? (WHEN expr THEN expr)+ (ELSE expr)? END ;
apply = dotted '(' DISTINCT? ('*' | exprs)? ')' ;
dotted = #name ('.' #name)* ;
paths = shortest | path1 ;
shortest = (SHORTESTPATH | ALLSHORTESTPATHS) '(' path ')' ;
path = node (rel node)* ;
path1 = node (rel node)+ ;
node = '(' #name? label* (map | param)? ')' ;
rel = '<'? '-' ('[' #name? (label ('|' (label | #name))*)? ('*' #integer? ('..' #integer?)?)? (map | param)? ']')? '-' '>'? ;
pattern = part (',' part)* ;
part = (#name '=')? (shortest | path) ;
property = atom ('.' #name)+ ;
label = ':' #name ;
map = '{' (#name ':' expr (',' #name ':' expr)*)? '}' ;
param = '$' #pname | '{' #pname '}' ;
)";
typedef std::vector<int> Ends;
enum Kind { SEQ, ALT, STAR, PLUS, OPT, KW, PUN, LEX, RULE };
struct Node { Kind k; std::vector<int> c; std::string s; int rule = -1; };
struct Gram {
    std::vector<Node> n; std::map<std::string, int> rule; std::vector<int> body; std::vector<std::string> name;
    const char *p;
    int add(Kind k) { n.push_back({k, {}, "", -1}); return (int)n.size() - 1; }
    void ws() { while (*p == ' ' || *p == '\n') p++; }
    int rid(const std::string &s) { auto i = rule.find(s); if (i != rule.end()) return i->second; int r = (int)body.size(); rule[s] = r; body.push_back(-1); name.push_back(s); return r; }
    int alt() { std::vector<int> v; v.push_back(seq()); while (ws(), *p == '|') { p++; v.push_back(seq()); } if (v.size() == 1) return v[0]; int a = add(ALT); n[a].c = v; return a; }
    int seq() {
        std::vector<int> v;
        for (;;) {
            ws();
            if (!*p || *p == '|' || *p == ')' || *p == ';') break;
            int x;
            if (*p == '(') { p++; x = alt(); ws(); if (*p != ')') die(); p++; }
            else if (*p == '\'') { p++; const char *q = strchr(p, '\''); x = add(PUN); n[x].s.assign(p, q); p = q + 1; }
            else if (*p == '#') { p++; std::string w = word(); x = add(LEX); n[x].s = w; }
            else { std::string w = word(); if (w.empty()) die(); bool up = isupper((unsigned char)w[0]); x = add(up ? KW : RULE); n[x].s = w; if (!up) n[x].rule = rid(w); }
            while (*p == '*' || *p == '+' || *p == '?') { int y = add(*p == '*' ? STAR : *p == '+' ? PLUS : OPT); n[y].c.push_back(x); x = y; p++; }
            v.push_back(x);
        }
        if (v.size() == 1) return v[0];
        int a = add(SEQ); n[a].c = v; return a;
    }
    std::string word() { std::string w; while (isalnum((unsigned char)*p)) w += *p++; return w; }
    [[noreturn]] void die() { fprintf(stderr, "grammar: at %.30s\n", p); abort(); }
    Gram() : p(GRAMMAR) {
        while (ws(), *p) { int r = rid(word()); ws(); if (*p++ != '=') die(); int b = alt(); body[r] = b; ws(); if (*p++ != ';') die(); }
        for (size_t i = 0; i < body.size(); i++) if (body[i] < 0) { fprintf(stderr, "grammar: no rule %s\n", name[i].c_str()); abort(); }
    }
};
bool part(char c) { return isalnum((unsigned char)c) || c == '_' || c == '$'; }
size_t far;
struct Rec {
    const Gram &g; const std::string &s; int n;
    std::unordered_map<uint64_t, Ends> memo;
    Rec(const Gram &g, const std::string &s) : g(g), s(s), n((int)s.size()) {}
    int skip(int p) const {
        for (;;) {
            if (p < n && (s[p] == ' ' || s[p] == '\t' || s[p] == '\n')) p++;
            else if (p + 1 < n && s[p] == '\r' && s[p + 1] == '\n') p += 2;
            else if (p + 1 < n && s[p] == '/' && s[p + 1] == '/') { while (p < n && s[p] != '\n') p++; }
            else if (p + 1 < n && s[p] == '/' && s[p + 1] == '*') { size_t e = s.find("*/", p + 2); if (e == std::string::npos) return p; p = (int)e + 2; }
            else return p;
        }
    }
    void got(Ends &o, int p) { if (p > (int)far) far = p; o.push_back(skip(p)); }
    void name(int p, Ends &o) {
        if (p >= n) return;
        if (s[p] == '`') { size_t e = s.find('`', p + 1); if (e != std::string::npos) got(o, (int)e + 1); return; }
        if (!isalpha((unsigned char)s[p]) && s[p] != '_') return;
        while (p < n && part(s[p])) p++;
        got(o, p);
    }
    int digits(int p) const { while (p < n && isdigit((unsigned char)s[p])) p++; return p; }
    int rest(int p) const { while (p < n && part(s[p])) p++; return p; }
    void lex(const std::string &k, int p, Ends &o) {
        if (p >= n) return;
        if (k == "name") name(p, o);
        else if (k == "pname") { name(p, o); if (s[p] >= '1' && s[p] <= '9') got(o, digits(p)); }
        else if (k == "integer") { if (isdigit((unsigned char)s[p])) got(o, rest(p)); }
        else if (k == "float") {
            int q = digits(p);
            if (q > p) { int r = q; if (r < n && s[r] == '.') r++; r = digits(r); if (r < n && (s[r] == 'e' || s[r] == 'E')) { r++; if (r < n && (s[r] == '+' || s[r] == '-')) r++; if (r < n && isdigit((unsigned char)s[r])) got(o, rest(r)); } }
            if (q + 1 < n && s[q] == '.' && isdigit((unsigned char)s[q + 1])) got(o, rest(q + 1));
        }
        else if (k == "string") {
            char c = s[p]; if (c != '\'' && c != '"') return;
            for (int q = p + 1; q < n; q++) {
                if (s[q] == '\\' && q + 1 < n && strchr("abfnrtv\\'\"?", s[q + 1]) && s[q + 1]) { q++; continue; }
                if (s[q] == c) { got(o, q + 1); return; }
            }
        }
        else if (k == "version") { int q = digits(p); if (q > p && q < n && s[q] == '.') { int r = digits(q + 1); if (r > q + 1) got(o, r); } }
        else if (k == "cname") { int q = p; while (q < n && (isalnum((unsigned char)s[q]) || s[q] == '_')) q++; if (q > p) got(o, q); }
        else if (k == "cvalue") { int q = p; while (q < n && !(s[q] == ' ' || s[q] == '\t' || s[q] == '\n' || (s[q] == '\r' && q + 1 < n && s[q + 1] == '\n'))) q++; if (q > p) got(o, q); }
        else abort();
    }
    static void add(Ends &o, int e) { for (int x : o) if (x == e) return; o.push_back(e); }
    const Ends &ends(int node, int p) {
        uint64_t key = (uint64_t)node << 32 | (unsigned)p;
        auto it = memo.find(key);
        if (it != memo.end()) return it->second;
        memo[key];              // (no left recursion)
        const Node &x = g.n[node];
        Ends o;
        switch (x.k) {
        case SEQ: {
            Ends cur{p};
            for (int c : x.c) { Ends nx; for (int q : cur) { Ends e = ends(c, q); for (int r : e) add(nx, r); } cur.swap(nx); if (cur.empty()) break; }
            o = cur; break; }
        case ALT: for (int c : x.c) { Ends e = ends(c, p); for (int r : e) add(o, r); } break;
        case OPT: { o.push_back(p); Ends e = ends(x.c[0], p); for (int r : e) add(o, r); break; }
        case STAR: case PLUS: {
            if (x.k == STAR) o.push_back(p);
            std::vector<int> todo{p}; std::set<int> seen{p};
            while (!todo.empty()) { int q = todo.back(); todo.pop_back(); Ends e = ends(x.c[0], q); for (int r : e) { add(o, r); if (seen.insert(r).second) todo.push_back(r); } }
            break; }
        case KW: {
            size_t l = x.s.size();
            if (p + (int)l > n) break;
            bool ok = true;
            for (size_t i = 0; i < l && ok; i++) ok = toupper((unsigned char)s[p + i]) == x.s[i];
            if (ok && !(p + (int)l < n && part(s[p + l]))) got(o, p + (int)l);
            break; }
        case PUN: if (!s.compare(p, x.s.size(), x.s)) got(o, p + (int)x.s.size()); break;
        case LEX: lex(x.s, p, o); break;
        case RULE: o = ends(g.body[x.rule], p); break;
        }
        return memo[key] = o;
    }
};
}
bool statement(const std::string &s) {
    static const Gram g;
    far = 0;
    Rec r(g, s);
    int root = g.body[g.rule.at("statement")];
    Ends e = r.ends(root, r.skip(0));
    for (int x : e) if (x == (int)s.size()) return true;
    return false;
}
size_t furthest() { return far; }
}
