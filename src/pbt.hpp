// A small property-based testing engine.
//
// A case is a pure function of a tape of choices.  In random mode the tape is drawn from a
// generator seeded by (seed, sub-property, case index); in replay mode it is read from a
// file; in guided mode it is a mutation of a tape that reached new coverage before.  A
// failing tape is shrunk and becomes the replay file.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace pbt {

struct Fail { std::string msg; };
struct Discard {};

struct Rng {
    uint64_t s[2];
    void seed(uint64_t a, uint64_t b = 0);
    uint64_t next();
};

struct Shm;

class Src {
public:
    Src(Shm *shm) : shm_(shm) {}
    uint32_t below(uint32_t n);                 // uniform in [0, n), 0 is simplest
    int range(int lo, int hi) { return lo + (int)below((uint32_t)(hi - lo + 1)); }
    bool chance(uint32_t num, uint32_t den);    // false is simplest
    bool coin() { return below(2) == 1; }
    // geometric-ish length in [0, max], biased to small values
    unsigned len(unsigned max, unsigned typical);
    unsigned few(unsigned max);                   // often none, sometimes one or two, seldom up to max
    uint64_t u64();
    template <class T> const T &pick(const std::vector<T> &v) { return v[below((uint32_t)v.size())]; }
    template <class T, size_t N> const T &pick(const T (&v)[N]) { return v[below((uint32_t)N)]; }
    size_t drawn() const { return n_; }

    Rng rng;
    const std::vector<uint32_t> *replay = nullptr;
    bool random_tail = false;   // after the tape: random values, or zeros
private:
    Shm *shm_;
    size_t n_ = 0;
};

struct Stats {
    uint64_t evaluations = 0, discarded = 0, nontrivial = 0;
    std::map<std::string, uint64_t> classes;
    std::set<uint64_t> distinct;
    std::vector<std::string> samples;
    std::map<std::string, uint64_t> sub_evals;
};

class Ctx {
public:
    bool replaying = false;
    int tier = 0;               // 0 quick, 1 thorough
    uint64_t case_index = 0;
    // Classification
    void cls(const std::string &name) { classes_.push_back(name); }
    void nontrivial() { nontrivial_ = true; }
    // Describes the case: used in evidence, for distinctness and in the replay file
    void text(const std::string &t);
    [[noreturn]] void fail(const std::string &msg) { throw Fail{msg}; }
    void check(bool ok, const std::string &msg) { if (!ok) fail(msg); }
    void known(const std::string &id) { known_.insert(id); }

    std::vector<std::string> classes_;
    bool nontrivial_ = false;
    std::string text_;
    std::set<std::string> known_;
    Shm *shm = nullptr;
};

typedef void (*PropFn)(Src &, Ctx &);

struct Sub {
    const char *property;       // id
    const char *name;
    PropFn fn;
    unsigned weight;            // relative number of cases
    bool guided;                // use coverage feedback when it is compiled in
    double cpu_limit;           // seconds of CPU time for one case
};

std::vector<Sub> &registry();
struct Reg { Reg(Sub s) { registry().push_back(s); } };

#define PROPERTY(id, name, weight) \
    static void name(pbt::Src &, pbt::Ctx &); \
    static pbt::Reg reg_##name({id, #name, name, weight, false, 20}); \
    static void name(pbt::Src &src, pbt::Ctx &ctx)
#define GUIDED_PROPERTY(id, name, weight) \
    static void name(pbt::Src &, pbt::Ctx &); \
    static pbt::Reg reg_##name({id, #name, name, weight, true, 20}); \
    static void name(pbt::Src &src, pbt::Ctx &ctx)

std::string quote(const std::string &s, size_t max = 4000);
uint64_t hash64(const void *p, size_t n, uint64_t h = 1469598103934665603ull);
inline uint64_t hash64(const std::string &s) { return hash64(s.data(), s.size()); }
std::string strf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));

int main(int argc, char **argv);

} // namespace pbt
