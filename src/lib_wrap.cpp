#include "wrap.hpp"
#include "work.hpp"
#include <cerrno>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <malloc.h>
#include <unistd.h>

extern "C" {
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void __real_free(void *);
}

namespace vp {
static const size_t N = 1 << 19;
struct Ent { void *p; size_t n; };
static Ent tab[N];
static size_t nlive, live_bytes;
static bool on;
static uint64_t count, failk, nfail;
static bool persist_;
static const size_t LIMIT = 1500ull << 20;

static size_t slot(void *p) { return (size_t)(((uintptr_t)p >> 4) * 0x9E3779B97F4A7C15ull >> 40) & (N - 1); }
static void add(void *p, size_t n) {
    if (!p || nlive > N * 3 / 4) return;
    size_t i = slot(p);
    while (tab[i].p) i = (i + 1) & (N - 1);
    tab[i] = {p, n};
    nlive++; live_bytes += n;
    if (live_bytes > LIMIT) {
        static const char m[] = "ERROR: runaway memory use in the library\n";
        (void)!write(2, m, sizeof m - 1);
        abort();
    }
}
static bool del(void *p) {
    if (!p) return false;
    size_t i = slot(p);
    while (tab[i].p && tab[i].p != p) i = (i + 1) & (N - 1);
    if (!tab[i].p) return false;
    live_bytes -= tab[i].n; nlive--;
    size_t j = i;
    for (;;) {
        tab[i].p = nullptr;
        for (;;) {
            j = (j + 1) & (N - 1);
            if (!tab[j].p) return true;
            size_t k = slot(tab[j].p);
            if (i <= j ? (i < k && k <= j) : (i < k || k <= j)) continue;
            break;
        }
        tab[i] = tab[j];
        i = j;
    }
}
static bool dirty;
void track_begin() {
    if (dirty) memset(tab, 0, sizeof tab);
    dirty = false;
    nlive = live_bytes = 0; count = 0; failk = 0; nfail = 0; on = true;
}
size_t track_end(size_t *bytes) { on = false; failk = 0; if (bytes) *bytes = live_bytes; if (nlive) dirty = true; return nlive; }
bool tracking() { return on; }
size_t track_live() { return nlive; }
uint64_t track_count() { return count; }
void fail_at(uint64_t k, bool persist) { failk = k; persist_ = persist; }
uint64_t failures() { return nfail; }
static bool refuse() {
    if (!on) return false;
    ++count;
    if (failk && (count == failk || (persist_ && count > failk))) { nfail++; errno = ENOMEM; return true; }
    return false;
}
}

namespace vp { static int fill_ = -1; void fill(int c) { fill_ = c; } }
using namespace vp;
extern "C" {
void *__wrap_malloc(size_t n) {
    if (on && refuse()) return nullptr;
    void *p = __real_malloc(n);
    if (fill_ >= 0 && p) memset(p, fill_, n);
    if (on) add(p, n);
    return p;
}
void *__wrap_calloc(size_t a, size_t b) {
    if (!on) return __real_calloc(a, b);
    if (refuse()) return nullptr;
    void *p = __real_calloc(a, b); add(p, a * b); return p;
}
void *__wrap_realloc(void *q, size_t n) {
    if (on && refuse()) return nullptr;
    size_t held = vp::work_on_ && q ? malloc_usable_size(q) : 0; uintptr_t before = (uintptr_t)q;
    size_t old = fill_ >= 0 && q ? malloc_usable_size(q) : 0;
    if (on) del(q);
    void *p = __real_realloc(q, n);
    if (held && (uintptr_t)p != before) vp::moved_ += held / 16;
    if (fill_ >= 0 && p && n > old) memset((char *)p + old, fill_, n - old);
    if (on) add(p, n);
    return p;
}
void *__wrap_realloc(void *q, size_t n);
void *__wrap_reallocarray(void *q, size_t k, size_t n) {
    if (n && k > (size_t)-1 / n) { errno = ENOMEM; return nullptr; }
    return __wrap_realloc(q, k * n);
}
void __wrap_free(void *p) {
    if (on || nlive) del(p);
    __real_free(p);
}
char *__wrap_strdup(const char *s) {
    size_t n = strlen(s) + 1;
    char *p = (char *)__wrap_malloc(n);
    if (p) memcpy(p, s, n);
    return p;
}
char *__wrap_strndup(const char *s, size_t m) {
    size_t n = strnlen(s, m);
    char *p = (char *)__wrap_malloc(n + 1);
    if (p) { memcpy(p, s, n); p[n] = 0; }
    return p;
}
}
