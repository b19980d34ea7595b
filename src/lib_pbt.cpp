#include "pbt.hpp"
#include <algorithm>
#include <cerrno>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <ctime>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fstream>
#include <sstream>

namespace pbt {

static const size_t TAPE_MAX = 1 << 20;
static const size_t MSG_MAX = 1 << 16;

struct Shm {
    volatile uint64_t case_index;
    volatile uint32_t sub;
    volatile uint32_t status;       // 0 running, 1 failed with a message, 2 hang, 3 done
    volatile uint64_t ntape;
    volatile uint64_t evaluations, discarded, nontrivial;
    char msg[MSG_MAX];
    char text[MSG_MAX];
    volatile uint32_t text_len;
    uint32_t tape[TAPE_MAX];
};

std::vector<Sub> &registry() { static std::vector<Sub> r; return r; }

uint64_t hash64(const void *p, size_t n, uint64_t h) {
    const unsigned char *c = (const unsigned char *)p;
    for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; }
    return h;
}

std::string strf(const char *fmt, ...) {
    char buf[8192];
    va_list ap; va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    return buf;
}

std::string quote(const std::string &s, size_t max) {
    std::string o = "\"";
    for (size_t i = 0; i < s.size(); i++) {
        if (o.size() > max) { o += strf("...(%zu bytes)", s.size()); break; }
        unsigned char c = s[i];
        if (c == '\n') o += "\\n";
        else if (c == '\r') o += "\\r";
        else if (c == '\t') o += "\\t";
        else if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c < 32 || c >= 127) o += strf("\\x%02x", c);
        else o += c;
    }
    return o + "\"";
}

static uint64_t splitmix(uint64_t &x) {
    uint64_t z = (x += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
void Rng::seed(uint64_t a, uint64_t b) {
    uint64_t x = a * 0x2545F4914F6CDD1Dull + b;
    s[0] = splitmix(x); x ^= b; s[1] = splitmix(x);
    if (!s[0] && !s[1]) s[0] = 1;
}
uint64_t Rng::next() {
    uint64_t s1 = s[0], s0 = s[1], r = s0 + s1;
    s[0] = s0;
    s1 ^= s1 << 23;
    s[1] = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5);
    return r;
}

uint32_t Src::below(uint32_t n) {
    if (n <= 1) return 0;
    uint32_t v;
    if (replay && n_ < replay->size()) v = (*replay)[n_] % n;
    else if (replay && !random_tail) v = 0;
    else v = (uint32_t)((rng.next() >> 11) % n);
    if (n_ < TAPE_MAX) { shm_->tape[n_] = v; }
    n_++;
    shm_->ntape = n_ < TAPE_MAX ? n_ : TAPE_MAX;
    return v;
}
bool Src::chance(uint32_t num, uint32_t den) { return below(den) >= den - num; }
unsigned Src::len(unsigned max, unsigned typical) {
    // mostly around `typical`, sometimes up to max
    unsigned k = below(16);
    unsigned cap = k < 12 ? typical : k < 15 ? typical * 4 : max;
    if (cap > max) cap = max;
    return below(cap + 1);
}
unsigned Src::few(unsigned max) { unsigned k = below(16); return k < 9 ? 0 : k < 13 ? std::min(1u, max) : k < 15 ? std::min(2u, max) : below(max + 1); }
uint64_t Src::u64() { uint64_t a = below(1u << 31), b = below(1u << 31); return a << 31 | b; }

void Ctx::text(const std::string &t) {
    text_ = t;
    size_t n = std::min(t.size(), MSG_MAX - 1);
    memcpy(shm->text, t.data(), n);
    shm->text[n] = 0; shm->text_len = (uint32_t)n;
}

static double now() {
    struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}

static Shm *g_shm;
static void on_prof(int) {
    if (g_shm) g_shm->status = 2;
    _exit(78);
}
static void set_cpu_limit(double s) {
    struct itimerval it; memset(&it, 0, sizeof it);
    it.it_value.tv_sec = (long)s;
    it.it_value.tv_usec = (long)((s - (long)s) * 1e6);
    setitimer(ITIMER_PROF, &it, nullptr);
}

static Shm *new_shm() {
    void *p = mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(3); }
    return (Shm *)p;
}

// Coverage counters (filled in when compiled with -fsanitize-coverage=inline-8bit-counters)
static uint8_t *cov_start[64], *cov_end[64];
static int ncov;
static std::vector<uint8_t> cov_seen;   // bit per bucket
static size_t cov_size() { size_t n = 0; for (int i = 0; i < ncov; i++) n += cov_end[i] - cov_start[i]; return n; }
static void cov_reset() { for (int i = 0; i < ncov; i++) memset(cov_start[i], 0, cov_end[i] - cov_start[i]); }
static bool cov_new() {
    if (!ncov) return false;
    if (cov_seen.size() != cov_size()) cov_seen.assign(cov_size(), 0);
    bool fresh = false; size_t k = 0;
    for (int i = 0; i < ncov; i++)
        for (uint8_t *p = cov_start[i]; p < cov_end[i]; p++, k++) {
            uint8_t c = *p; if (!c) continue;
            uint8_t b = c >= 128 ? 128 : c >= 32 ? 64 : c >= 16 ? 32 : c >= 8 ? 16 : c >= 4 ? 8 : c == 3 ? 4 : c == 2 ? 2 : 1;
            if (!(cov_seen[k] & b)) { cov_seen[k] |= b; fresh = true; }
        }
    return fresh;
}
static size_t cov_hit() { size_t n = 0; for (uint8_t b : cov_seen) n += b != 0; return n; }

struct Opts {
    std::string property, tier = "quick", stats, replay_out, replay, logdir, only;
    uint64_t seed = 1, cases = 1000;
    double budget = 300, shrink_budget = 45;
    int jobs = 8;
    bool verbose = false;
};

enum Outcome { PASS, FAILED, CRASHED, HUNG, DISCARDED };

// Runs one case in this process.  Throws nothing.
static Outcome run_one(const Sub &sub, Src &src, Ctx &ctx, Shm *shm) {
    shm->ntape = 0; shm->text[0] = 0; shm->text_len = 0; shm->msg[0] = 0; shm->status = 0;
    ctx.shm = shm;
    set_cpu_limit(sub.cpu_limit);
    Outcome o = PASS;
    try { sub.fn(src, ctx); }
    catch (const Fail &f) {
        size_t n = std::min(f.msg.size(), MSG_MAX - 1);
        memcpy(shm->msg, f.msg.data(), n); shm->msg[n] = 0;
        shm->status = 1;
        o = FAILED;
    }
    catch (const Discard &) { o = DISCARDED; }
    set_cpu_limit(0);
    return o;
}

static std::vector<uint32_t> shm_tape(Shm *s) { return std::vector<uint32_t>(s->tape, s->tape + s->ntape); }

// Runs a tape in a forked child, output suppressed unless verbose.
static Outcome run_tape(const Opts &o, const Sub &sub, const std::vector<uint32_t> &tape, Shm *shm, bool verbose,
                        std::string *err = nullptr) {
    fflush(stdout); fflush(stderr);
    char tmpl[] = "/tmp/pbt-err-XXXXXX";
    int efd = -1;
    if (err) { efd = mkstemp(tmpl); unlink(tmpl); }
    pid_t pid = fork();
    if (pid == 0) {
        if (!verbose) {
            int dn = open("/dev/null", O_WRONLY);
            dup2(dn, 1); dup2(efd >= 0 ? efd : dn, 2);
        }
        g_shm = shm;
        Src src(shm); src.replay = &tape;
        Ctx ctx; ctx.replaying = true; ctx.tier = o.tier == "thorough";
        Outcome r = run_one(sub, src, ctx, shm);
        fflush(stdout); fflush(stderr);
        _exit(r == FAILED ? 10 : 0);
    }
    int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    Outcome r;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) r = PASS;
    else if (WIFEXITED(st) && WEXITSTATUS(st) == 10 && shm->status == 1) r = FAILED;
    else if (WIFEXITED(st) && WEXITSTATUS(st) == 78) r = HUNG;
    else r = CRASHED;
    if (err && efd >= 0) {
        lseek(efd, 0, SEEK_SET);
        char buf[20000]; ssize_t n = read(efd, buf, sizeof buf - 1);
        if (n > 0) err->assign(buf, n);
        close(efd);
    }
    if (r == CRASHED && WIFSIGNALED(st) && err) *err += strf("\n(signal %d)", WTERMSIG(st));
    return r;
}

static std::string json_str(const std::string &s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c >= 127) o += strf("\\u%04x", c);
        else o += c;
    }
    return o + "\"";
}

static std::string summarize_err(const std::string &e) {
    // the first lines that say what went wrong
    std::istringstream is(e); std::string l, out; int n = 0;
    while (std::getline(is, l)) {
        if (l.find("ERROR:") != std::string::npos || l.find("runtime error") != std::string::npos ||
            l.find("Assertion") != std::string::npos || l.find("WARNING: Thread") != std::string::npos || l.find("    #") == 0 || l.find("SUMMARY") == 0) {
            out += l + "\n"; if (++n > 14) break;
        }
    }
    return out.empty() ? e.substr(0, 1000) : out;
}

static void write_stats(const std::string &path, const Stats &s, const std::set<std::string> &known) {
    std::ofstream f(path);
    f << "E " << s.evaluations << " " << s.discarded << " " << s.nontrivial << "\n";
    for (auto &p : s.classes) f << "C " << p.second << " " << p.first << "\n";
    for (auto &p : s.sub_evals) f << "P " << p.second << " " << p.first << "\n";
    for (auto h : s.distinct) f << "D " << h << "\n";
    for (auto &t : s.samples) f << "S " << quote(t, 1500) << "\n";
    for (auto &k : known) f << "K " << k << "\n";
    f << "V " << cov_hit() << " " << cov_size() << "\n";
}

static void mutate(Rng &r, std::vector<uint32_t> &t, const std::vector<std::vector<uint32_t>> &corpus, bool &tail) {
    int nops = 1 + r.next() % 4;
    tail = true;
    for (int k = 0; k < nops; k++) {
        size_t n = t.size();
        switch (r.next() % 7) {
        case 0: if (n) t.resize(r.next() % n); break;
        case 1: if (n) t[r.next() % n] = (uint32_t)(r.next() >> 33); break;
        case 2: if (n) t[r.next() % n] += (r.next() & 1) ? 1 : (uint32_t)-1; break;
        case 3: if (n) { size_t a = r.next() % n, l = 1 + r.next() % 8; t.erase(t.begin() + a, t.begin() + std::min(n, a + l)); } break;
        case 4: if (n) { size_t a = r.next() % n, l = std::min<size_t>(n - a, 1 + r.next() % 32), b = r.next() % (n + 1);
                std::vector<uint32_t> c(t.begin() + a, t.begin() + a + l); t.insert(t.begin() + b, c.begin(), c.end()); } break;
        case 5: { auto &o = corpus[r.next() % corpus.size()]; if (o.empty()) break; size_t a = r.next() % o.size(), b = n ? r.next() % n : 0;
                t.resize(b); t.insert(t.end(), o.begin() + a, o.end()); } break;
        case 6: if (n) { size_t a = r.next() % n; uint32_t v = (uint32_t)(r.next() % 64); t.insert(t.begin() + a, v); } break;
        }
    }
    if (t.size() > 20000) t.resize(20000);
}

struct Plan { std::vector<uint32_t> slots; };   // sub index by slot

static void worker(const Opts &o, const std::vector<Sub> &subs, const Plan &plan, int w, Shm *shm, double deadline,
                   uint64_t stop_after) {
    g_shm = shm;
    signal(SIGPROF, on_prof);
    Stats st;
    std::set<std::string> known;
    std::map<uint32_t, std::vector<std::vector<uint32_t>>> corpus;
    Rng wr; wr.seed(o.seed * 1000003 + w, 77);
    size_t max_samples = 6;
    std::map<std::string, size_t> sub_samples;
    for (uint64_t i = w; i < o.cases; i += o.jobs) {
        if (now() > deadline) break;
        if (stop_after != (uint64_t)-1 && i > stop_after) break;
        uint32_t si = plan.slots[(i / o.jobs + w) % plan.slots.size()];
        const Sub &sub = subs[si];
        shm->case_index = i; shm->sub = si;
        Src src(shm);
        src.rng.seed(o.seed * 0x9E3779B97F4A7C15ull + hash64(std::string(sub.name)), i);
        std::vector<uint32_t> mtape;
        auto &cp = corpus[si];
        bool use_cov = sub.guided && ncov > 0;
        if (use_cov && !cp.empty() && wr.next() % 100 < 70) {
            mtape = cp[wr.next() % cp.size()];
            bool tail; mutate(wr, mtape, cp, tail);
            src.replay = &mtape; src.random_tail = tail;
        }
        if (use_cov) cov_reset();
        Ctx ctx; ctx.tier = o.tier == "thorough"; ctx.case_index = i;
        Outcome r = run_one(sub, src, ctx, shm);
        if (r == DISCARDED) { st.discarded++; shm->discarded++; continue; }
        st.evaluations++; shm->evaluations++;
        st.sub_evals[sub.name]++;
        for (auto &c : ctx.classes_) st.classes[c]++;
        for (auto &k : ctx.known_) known.insert(k);
        if (ctx.nontrivial_) {
            st.nontrivial++; shm->nontrivial++;
            bool fresh = st.distinct.insert(hash64(ctx.text_)).second;
            if (fresh && sub_samples[sub.name] < 2 && st.samples.size() < max_samples) {
                sub_samples[sub.name]++; st.samples.push_back(std::string(sub.name) + ": " + ctx.text_);
            }
        }
        if (use_cov && cov_new() && shm->ntape < 20000) cp.push_back(shm_tape(shm));
        if (r == FAILED) { write_stats(o.logdir + strf("/w%d.stats", w), st, known); _exit(10); }
    }
    write_stats(o.logdir + strf("/w%d.stats", w), st, known);
    shm->status = 3;
    fflush(stdout);
    _exit(0);
}

static std::vector<uint32_t> shrink(const Opts &o, const Sub &sub, std::vector<uint32_t> t, Shm *shm, int &execs) {
    double end = now() + o.shrink_budget;
    execs = 0;
    auto fails = [&](const std::vector<uint32_t> &c) {
        if (now() > end || execs > 4000) return false;
        execs++;
        Outcome r = run_tape(o, sub, c, shm, false);
        return r == FAILED || r == CRASHED;
    };
    while (!t.empty() && t.back() == 0) { auto c = t; c.pop_back(); if (fails(c)) t = c; else break; }
    bool progress = true;
    while (progress && now() < end && execs < 4000) {
        progress = false;
        for (size_t len = std::max<size_t>(1, t.size() / 2); len >= 1; len /= 2) {
            for (size_t a = 0; a + len <= t.size() && now() < end;) {
                auto c = t; c.erase(c.begin() + a, c.begin() + a + len);
                if (fails(c)) { t = c; progress = true; } else a += len;
            }
            if (len == 1) break;
        }
        for (size_t len = std::max<size_t>(1, t.size() / 4); len >= 1; len /= 2) {
            for (size_t a = 0; a + len <= t.size() && now() < end; a += len) {
                auto c = t; bool nz = false;
                for (size_t k = a; k < a + len; k++) { nz |= c[k] != 0; c[k] = 0; }
                if (nz && fails(c)) { t = c; progress = true; }
            }
            if (len == 1) break;
        }
        for (size_t a = 0; a < t.size() && now() < end; a++) {
            while (t[a] > 1) {
                auto c = t; c[a] = t[a] / 2;
                if (fails(c)) { t = c; progress = true; continue; }
                c = t; c[a] = t[a] - 1;
                if (t[a] < 64 && fails(c)) { t = c; progress = true; continue; }
                break;
            }
        }
    }
    return t;
}

static const char *outcome_name(Outcome o) {
    switch (o) { case PASS: return "pass"; case FAILED: return "property violated"; case CRASHED: return "crash";
        case HUNG: return "no termination within the CPU limit"; default: return "discarded"; }
}

static void write_replay(const std::string &path, const Opts &o, const Sub &sub, const std::vector<uint32_t> &tape,
                         Shm *shm, Outcome oc, const std::string &err, const std::string &extra) {
    std::ofstream f(path);
    f << "property: " << sub.property << "\nsub: " << sub.name << "\ntier: " << o.tier << "\nseed: " << o.seed << "\n";
    f << "outcome: " << outcome_name(oc) << "\n";
    f << "tape:"; for (auto v : tape) f << " " << v; f << "\n" << extra;
    f << "case: " << quote(std::string(shm->text, shm->text_len), 60000) << "\n";
    f << "message: " << (oc == FAILED ? quote(shm->msg, 60000) : quote(summarize_err(err), 20000)) << "\n";
}

static int do_replay(const Opts &o) {
    std::ifstream f(o.replay);
    if (!f) { fprintf(stderr, "cannot read %s\n", o.replay.c_str()); return 3; }
    std::string l, subname, tier = "quick"; std::vector<uint32_t> tape;
    while (std::getline(f, l)) {
        if (l.compare(0, 5, "sub: ") == 0) subname = l.substr(5);
        else if (l.compare(0, 6, "tier: ") == 0) tier = l.substr(6);
        else if (l.compare(0, 5, "tape:") == 0) { std::istringstream is(l.substr(5)); uint32_t v; while (is >> v) tape.push_back(v); }
    }
    for (auto &s : registry()) if (subname == s.name) {
        Opts o2 = o; o2.tier = tier;
        Shm *shm = new_shm();
        signal(SIGPROF, on_prof);
        Outcome r = run_tape(o2, s, tape, shm, true);
        printf("case: %s\n", quote(std::string(shm->text, shm->text_len), 60000).c_str());
        if (r == FAILED) printf("message: %s\n", shm->msg);
        printf("outcome: %s\n", outcome_name(r));
        return r == PASS ? 0 : 1;
    }
    fprintf(stderr, "no sub-property %s here\n", subname.c_str());
    return 3;
}

int main(int argc, char **argv) {
    Opts o;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto v = [&]() -> std::string { if (++i >= argc) { fprintf(stderr, "missing value\n"); exit(3); } return argv[i]; };
        if (a == "--property") o.property = v();
        else if (a == "--tier") o.tier = v();
        else if (a == "--seed") o.seed = strtoull(v().c_str(), nullptr, 10);
        else if (a == "--cases") o.cases = strtoull(v().c_str(), nullptr, 10);
        else if (a == "--budget") o.budget = atof(v().c_str());
        else if (a == "--shrink-budget") o.shrink_budget = atof(v().c_str());
        else if (a == "--jobs") o.jobs = atoi(v().c_str());
        else if (a == "--stats") o.stats = v();
        else if (a == "--replay-out") o.replay_out = v();
        else if (a == "--replay") o.replay = v();
        else if (a == "--logdir") o.logdir = v();
        else if (a == "--only") o.only = v();
        else if (a == "-v") o.verbose = true;
        else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 3; }
    }
    signal(SIGPROF, on_prof);
    signal(SIGPIPE, SIG_IGN);
    if (!o.replay.empty()) return do_replay(o);

    std::vector<Sub> subs;
    for (auto &s : registry())
        if (o.property == s.property && (o.only.empty() || o.only == s.name)) subs.push_back(s);
    std::sort(subs.begin(), subs.end(), [](const Sub &a, const Sub &b) { return strcmp(a.name, b.name) < 0; });
    if (subs.empty()) { fprintf(stderr, "no such property %s\n", o.property.c_str()); return 3; }
    Plan plan;
    {   // weighted round robin, interleaved
        unsigned total = 0; for (auto &s : subs) total += s.weight;
        std::vector<double> acc(subs.size(), 0);
        for (unsigned k = 0; k < total; k++) {
            size_t best = 0;
            for (size_t j = 0; j < subs.size(); j++) { acc[j] += subs[j].weight; if (acc[j] > acc[best]) best = j; }
            acc[best] -= total;
            plan.slots.push_back((uint32_t)best);
        }
    }
    if (o.logdir.empty()) { char t[] = "/tmp/pbt-XXXXXX"; o.logdir = mkdtemp(t); }
    double t0 = now(), deadline = t0 + o.budget;
    std::vector<Shm *> shms; std::vector<pid_t> pids;
    fflush(stdout);
    for (int w = 0; w < o.jobs; w++) {
        shms.push_back(new_shm());
        pid_t p = fork();
        if (p == 0) {
            int fd = open((o.logdir + strf("/w%d.log", w)).c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
            if (fd >= 0 && !o.verbose) { dup2(fd, 2); dup2(fd, 1); }
            worker(o, subs, plan, w, shms[w], deadline, (uint64_t)-1);
        }
        pids.push_back(p);
    }
    int failed = -1; Outcome oc = PASS;
    int live = o.jobs;
    std::vector<bool> done(o.jobs, false);
    while (live > 0) {
        int st; pid_t p = waitpid(-1, &st, 0);
        if (p < 0) { if (errno == EINTR) continue; break; }
        int w = -1;
        for (int k = 0; k < o.jobs; k++) if (pids[k] == p) w = k;
        if (w < 0) continue;
        done[w] = true; live--;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
        if (failed >= 0) continue;
        // a worker ended by SIGKILL was ended by the system (memory), which says nothing about the property
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { fprintf(stderr, "worker %d was killed\n", w); continue; }
        failed = w;
        oc = WIFEXITED(st) && WEXITSTATUS(st) == 10 ? FAILED : WIFEXITED(st) && WEXITSTATUS(st) == 78 ? HUNG : CRASHED;
        for (int k = 0; k < o.jobs; k++) if (!done[k]) kill(pids[k], SIGKILL);
    }
    double wall = now() - t0;

    int rc = 0;
    std::string vjson = "null";
    if (failed >= 0) {
        Shm *fs = shms[failed];
        const Sub sub = subs[fs->sub];
        std::vector<uint32_t> tape = shm_tape(fs);
        uint64_t idx = fs->case_index;
        std::string err;
        Shm *sh = new_shm();
        int confirmed = 0; Outcome r = PASS;
        for (int k = 0; k < 3; k++) { r = run_tape(o, sub, tape, sh, false, &err); if (r != PASS) { confirmed++; oc = r; } if (r == HUNG) { confirmed = 3; break; } }
        std::string extra;
        int execs = 0;
        if (confirmed == 3) {
            if (oc != HUNG) {
                tape = shrink(o, sub, tape, sh, execs);
                r = run_tape(o, sub, tape, sh, false, &err);
                if (r != PASS) oc = r;
            }
        } else {
            // Not a function of the case alone: run the worker's history again.
            int again = 0;
            for (int k = 0; k < 2; k++) {
                Shm *hs = new_shm();
                pid_t p = fork();
                if (p == 0) {
                    int fd = open((o.logdir + "/hist.log").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
                    if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); }
                    worker(o, subs, plan, failed, hs, now() + 1e6, idx);
                }
                int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
                if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) again++;
                if (k == 0) { memcpy(sh->msg, hs->msg, MSG_MAX); memcpy(sh->text, hs->text, MSG_MAX); }
                munmap(hs, sizeof(Shm));
            }
            confirmed = again >= 2 || confirmed > 0 ? 3 : 0;
            std::ifstream lf(o.logdir + "/hist.log"); std::stringstream ss; ss << lf.rdbuf(); if (err.empty()) err = ss.str();
            extra = strf("history: fails only after the cases worker %d of %d ran before case %llu (seed %llu, %llu cases)\n", failed, o.jobs,
                         (unsigned long long)idx, (unsigned long long)o.seed, (unsigned long long)o.cases);
        }
        if (confirmed == 3) {
            rc = 1;
            std::string path = o.replay_out.empty() ? o.logdir + "/replay.txt" : o.replay_out;
            write_replay(path, o, sub, tape, sh, oc, err, extra);
            printf("%s: %s after case %llu (%d shrink steps)\n  case: %s\n  %s\n", sub.name, outcome_name(oc), (unsigned long long)idx, execs,
                   quote(sh->text, 3000).c_str(), oc == FAILED ? sh->msg : summarize_err(err).c_str());
            printf("VIOLATION property=%s replay=%s\n", sub.property, path.c_str());
            vjson = "{\"sub\":" + json_str(sub.name) + ",\"outcome\":" + json_str(outcome_name(oc)) + ",\"case\":" + json_str(std::string(sh->text).substr(0, 3000)) + ",\"message\":" + json_str(oc == FAILED ? std::string(sh->msg).substr(0, 3000) : summarize_err(err)) + "}";
        } else {
            printf("unreproduced failure of %s (case %llu): not reported\n", sub.name, (unsigned long long)idx);
            vjson = "\"unreproduced\"";
        }
    }

    // merge
    uint64_t ev = 0, dis = 0, nt = 0; std::map<std::string, uint64_t> cls, per; std::set<uint64_t> dst; std::vector<std::string> samples; std::set<std::string> known;
    uint64_t covh = 0, covn = 0;
    for (int w = 0; w < o.jobs; w++) {
        ev += shms[w]->evaluations; dis += shms[w]->discarded; nt += shms[w]->nontrivial;
        std::ifstream f(o.logdir + strf("/w%d.stats", w)); std::string l;
        while (std::getline(f, l)) {
            if (l.size() < 2) continue;
            if (l[0] == 'C' || l[0] == 'P') { char *e; uint64_t n = strtoull(l.c_str() + 2, &e, 10); (l[0] == 'C' ? cls : per)[e + 1] += n; }
            else if (l[0] == 'D') dst.insert(strtoull(l.c_str() + 2, nullptr, 10));
            else if (l[0] == 'S') { if (samples.size() < 40) samples.push_back(l.substr(2)); }
            else if (l[0] == 'K') known.insert(l.substr(2));
            else if (l[0] == 'V') { uint64_t a, b; if (sscanf(l.c_str() + 2, "%lu %lu", &a, &b) == 2) { covh = std::max(covh, a); covn = b; } }
        }
    }
    for (auto &k : known) printf("KNOWN %s\n", k.c_str());
    if (!o.stats.empty()) {
        std::ofstream f(o.stats);
        f << "{\"evaluations\":" << ev << ",\"discarded\":" << dis << ",\"nontrivial\":" << nt << ",\"distinct_nontrivial\":" << dst.size()
          << ",\"wall_s\":" << wall << ",\"coverage_counters_hit_by_best_worker\":" << covh << ",\"coverage_counters\":" << covn << ",\"planned_cases\":" << o.cases
          << ",\"violation\":" << vjson << ",\"classes\":{";
        bool first = true;
        for (auto &p : cls) { f << (first ? "" : ",") << json_str(p.first) << ":" << p.second; first = false; }
        f << "},\"per_sub\":{"; first = true;
        for (auto &p : per) { f << (first ? "" : ",") << json_str(p.first) << ":" << p.second; first = false; }
        f << "},\"known\":["; first = true;
        for (auto &k : known) { f << (first ? "" : ",") << json_str(k); first = false; }
        f << "],\"samples\":["; first = true;
        // spread over subs
        std::map<std::string, int> per_sub_count;
        for (auto &s : samples) { std::string key = s.substr(0, s.find(':')); if (per_sub_count[key]++ >= 2) continue; f << (first ? "" : ",") << json_str(s); first = false; }
        f << "]}\n";
    }
    for (int w = 0; w < o.jobs; w++) { unlink((o.logdir + strf("/w%d.stats", w)).c_str()); unlink((o.logdir + strf("/w%d.log", w)).c_str()); }
    unlink((o.logdir + "/hist.log").c_str());
    rmdir(o.logdir.c_str());
    if (o.verbose || rc == 0) printf("%s: %llu cases, %llu non-trivial, %zu distinct, %.1fs\n", o.property.c_str(), (unsigned long long)ev, (unsigned long long)nt, dst.size(), wall);
    return rc;
}

} // namespace pbt

extern "C" void __sanitizer_cov_8bit_counters_init(uint8_t *start, uint8_t *stop) {
    if (start == stop || pbt::ncov >= 64) return;
    for (int i = 0; i < pbt::ncov; i++) if (pbt::cov_start[i] == start) return;
    // only the library's counters are of interest; the harness's own objects are small, so keep all
    pbt::cov_start[pbt::ncov] = start; pbt::cov_end[pbt::ncov] = stop; pbt::ncov++;
}

extern "C" const char *__asan_default_options() {
    return "abort_on_error=0:exitcode=66:detect_leaks=0:allocator_may_return_null=1:handle_abort=1:detect_stack_use_after_return=0:symbolize=1:malloc_context_size=12";
}
extern "C" const char *__ubsan_default_options() { return "print_stacktrace=1:halt_on_error=1:exitcode=66"; }
extern "C" const char *__tsan_default_options() { return "halt_on_error=1:exitcode=66:report_signal_unsafe=0"; }

int main(int argc, char **argv) { return pbt::main(argc, argv); }
