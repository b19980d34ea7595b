// Random ASTs made through the constructors, and a model of the AST rendering.
#pragma once
#include "astx.hpp"
namespace tg {
using namespace ax;
struct Cfg { int depth = 3; bool extra_children = true; bool permute = true; bool wild_text = true; bool ranges = true; };
TP gen(pbt::Src &src, int spec, const Cfg &c, int depth);
TP gen_any(pbt::Src &src, const Cfg &c);
bool has_text(const TP &t);
size_t nfields_set(const TP &t);
std::string text(pbt::Src &src, bool wild);
}
namespace rm {
using namespace ax;
// Numbers nodes depth first, from n; returns the next number.
unsigned number(const TP &t, std::map<const Tree *, unsigned> &ord, unsigned n);
std::string detail(const TP &t, const std::map<const Tree *, unsigned> &ord);
std::string op_symbol(const std::string &name);
// Checks rendered text of these trees against the model; returns "" or what is wrong.
std::string check(const std::vector<TP> &roots, const std::map<const Tree *, unsigned> &ord, const std::string &out, unsigned width);
}
