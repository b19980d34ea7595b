// Counts the work the library does: edges executed and bytes handled by the C library for it
// (only in the "work" variant, where these functions are linked in place of the real ones).
#include "work.hpp"
#include <cstddef>
#include <cstdio>
namespace vp {
uint64_t work_ = 0, moved_ = 0, shifted_ = 0;   // shifted_: the part of work_ done by memmove
bool work_on_ = false;
uint64_t work_limit_ = 0;
__attribute__((weak)) void work_stop() { __builtin_trap(); }
}
using vp::work_;
#define CNT(n) do { if (vp::work_on_) work_ += 1 + (n) / 16; } while (0)
extern "C" {
void __sanitizer_cov_trace_pc(void) { if (vp::work_on_) { work_++; if (vp::work_limit_ && work_ > vp::work_limit_) vp::work_stop(); } }
void *__real_memcpy(void *, const void *, size_t); void *__real_memmove(void *, const void *, size_t); void *__real_memset(void *, int, size_t);
void *__real_memchr(const void *, int, size_t); size_t __real_strlen(const char *); int __real_strcmp(const char *, const char *);
int __real_strncmp(const char *, const char *, size_t); int __real_strcasecmp(const char *, const char *); int __real_strncasecmp(const char *, const char *, size_t);
int __real_memcmp(const void *, const void *, size_t); size_t __real_fread(void *, size_t, size_t, FILE *);
#ifdef WORK
void *__wrap_memcpy(void *a, const void *b, size_t n) { CNT(n); return __real_memcpy(a, b, n); }
void *__wrap_memmove(void *a, const void *b, size_t n) { CNT(n); if (vp::work_on_) vp::shifted_ += 1 + n / 16; return __real_memmove(a, b, n); }
void *__wrap_memset(void *a, int c, size_t n) { CNT(n); return __real_memset(a, c, n); }
void *__wrap_memchr(const void *a, int c, size_t n) { void *r = __real_memchr(a, c, n); CNT(r ? (size_t)((const char *)r - (const char *)a) : n); return r; }
size_t __wrap_strlen(const char *s) { size_t n = __real_strlen(s); CNT(n); return n; }
int __wrap_strcmp(const char *a, const char *b) { if (vp::work_on_) { size_t i = 0; while (a[i] && a[i] == b[i]) i++; CNT(i); } return __real_strcmp(a, b); }
int __wrap_strncmp(const char *a, const char *b, size_t n) { if (vp::work_on_) { size_t i = 0; while (i < n && a[i] && a[i] == b[i]) i++; CNT(i); } return __real_strncmp(a, b, n); }
int __wrap_strcasecmp(const char *a, const char *b) { CNT(0); return __real_strcasecmp(a, b); }
int __wrap_strncasecmp(const char *a, const char *b, size_t n) { CNT(0); return __real_strncasecmp(a, b, n); }
int __wrap_memcmp(const void *a, const void *b, size_t n) { CNT(n); return __real_memcmp(a, b, n); }
size_t __wrap_fread(void *p, size_t a, size_t b, FILE *f) { size_t r = __real_fread(p, a, b, f); CNT(r * a); return r; }
#endif
}
