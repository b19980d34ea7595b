// The language of statements as a context-free grammar, with a general recogniser.
#pragma once
#include <string>
namespace lang {
// Is s (blanks and comments around it allowed) a statement of the supported Cypher?
bool statement(const std::string &s);
// How far some derivation of a prefix of a statement could get (diagnostics)
size_t furthest();
}
