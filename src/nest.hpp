#pragma once
#include <cctype>
#include <string>
// Ways to put an expression inside another; alone: constant work more for each level
static const struct Nest { const char *kind, *open, *close; bool unclosed; } NEST[] = {
    {"parentheses", "(", ")", true}, {"list", "[", "]", true}, {"second of a list", "[1,", "]"}, {"last of a list", "[", ",1]"}, {"map", "{a:", "}", true}, {"second of a map", "{a:1,b:", "}"}, {"argument", "f(", ")", true}, {"second argument", "f(1,", ")", true}, {"distinct argument", "f(DISTINCT ", ")", true}, {"not", "NOT ", "", true}, {"minus", "-", "", true}, {"plus", "+", "", true}, {"subscript", "a[", "]", true}, {"slice", "a[1..", "]", true}, {"slice start", "a[", "..1]", true}, {"added", "1+", "", true}, {"added in parentheses", "1+(", ")", true}, {"parentheses added", "(", ")+1", true}, {"power", "2^", "", true}, {"parentheses of a property", "(", ").b"}, {"subscript of a list", "[", "][0]"}, {"labelled", "(", "):B", true},
    {"case", "CASE ", " WHEN 1 THEN 1 END"}, {"when", "CASE WHEN ", " THEN 1 END", true}, {"then", "CASE WHEN 1 THEN ", " END"}, {"else", "CASE WHEN 1 THEN 1 ELSE ", " END", true}, {"compared", "1<", "", true}, {"compared in parentheses", "1<(", ")", true}, {"is null", "(", ") IS NULL", true}, {"and", "a AND (", ")", true}, {"or", "(", ") OR a", true}, {"in", "1 IN (", ")", true}, {"starts with", "(", ") STARTS WITH a", true}, {"regex", "a =~ (", ")", true},
    {"exists", "exists(", ")", true}, {"count", "count(", ")", true}, {"comprehended list", "[x IN ", "]"}, {"comprehension condition", "[x IN a WHERE ", "]", true}, {"comprehension value", "[x IN a | ", "]", true}, {"filter", "filter(x IN ", ")"}, {"filter condition", "filter(x IN a WHERE ", ")", true}, {"extract", "extract(x IN ", " | 1)"}, {"extract value", "extract(x IN a | ", ")", true}, {"reduce start", "reduce(x=", ",y IN a | 1)"}, {"reduce list", "reduce(x=1,y IN ", " | 1)"}, {"reduce value", "reduce(x=1,y IN a | ", ")", true}, {"all", "all(x IN ", " WHERE 1)"}, {"all condition", "all(x IN a WHERE ", ")", true}, {"any condition", "any(x IN a WHERE ", ")", true}, {"none condition", "none(x IN a WHERE ", ")", true}, {"single condition", "single(x IN a WHERE ", ")", true},
    {"map projection", "a{b:", "}", true}, {"node properties", "(a {x:", "})-->()"}, {"relationship properties", "(a)-[b {x:", "}]->()"}, {"last node's properties", "(a)-->(b {x:", "})", true}, {"pattern comprehension", "[(a)-->(b) | ", "]", true}, {"pattern comprehension condition", "[(a)-->(b) WHERE ", " | 1]", true}, {"pattern comprehension node", "[(a {x:", "})-->(b) | 1]"}, {"list of a pattern", "[(a {x:", "})-->()]"}, {"list of a longer pattern", "[(a)-->(b {x:", "})-->()]"}, {"size", "size((a {x:", "})-->())"}, {"shortest path", "shortestPath((a {x:", "})-->())"},
};
// Around a pattern, or what begins like one, that turns out to be none, each level doubles the work (known_findings.txt)
static bool known_exponential(const std::string &two) {
    for (size_t p = 0; p < two.size(); p++) {
        if (two.compare(p, 3, "[(a") == 0) return true;
        if (two[p] != '(') continue;
        size_t q = p + 1; while (q < two.size() && (isalpha((unsigned char)two[q]) || two[q] == ' ')) q++;
        if (q < two.size() && two[q] == '{') return true;
    }
    return false;
}
