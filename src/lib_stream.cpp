#include "stream.hpp"
#include <cerrno>
#include <cstring>
#include <algorithm>
static ssize_t rd(void *c, char *b, size_t n) {
    InStream *s = (InStream *)c;
    size_t left = s->data.size() - s->at;
    if (!s->chunks.empty()) { n = std::min<size_t>(n, std::max(1u, s->chunks[s->ci % s->chunks.size()])); s->ci++; }
    n = std::min(n, left);
    if (s->fail_at >= 0 && s->at + n > (size_t)s->fail_at) {
        n = (size_t)s->fail_at - s->at;
        if (!n) { s->failed = true; errno = s->fail_errno; return -1; }
    } else if (s->fail_at >= 0 && !n && s->at == (size_t)s->fail_at) { s->failed = true; errno = s->fail_errno; return -1; }
    memcpy(b, s->data.data() + s->at, n);
    s->at += n;
    return (ssize_t)n;
}
FILE *InStream::open(int mode, size_t size) {
    cookie_io_functions_t io = {rd, nullptr, nullptr, nullptr};
    f = fopencookie(this, "r", io);
    if (mode >= 0) { buf.resize(size + 1); setvbuf(f, mode == _IONBF ? nullptr : buf.data(), mode, size); }
    return f;
}
InStream *InStream::random(pbt::Src &src, const std::string &d) {
    InStream *s = new InStream(d);
    unsigned n = src.below(4);
    for (unsigned i = 0; i < n; i++) s->chunks.push_back(src.coin() ? 1 + src.below(8) : 1 + src.below(1500));
    unsigned k = src.below(4);
    if (k == 0) s->open(); else if (k == 1) s->open(_IONBF, 0); else s->open(_IOFBF, 1 + src.below(k == 2 ? 16 : 2000));
    return s;
}
static ssize_t wr(void *c, const char *b, size_t n) {
    OutStream *s = (OutStream *)c;
    if (s->fail_at >= 0 && s->data.size() + n > (size_t)s->fail_at) {
        n = (size_t)s->fail_at - s->data.size();
        s->failed = true; errno = s->fail_errno;        // (stdio takes a short write for a failure)
    }
    s->data.append(b, n);
    return (ssize_t)n;
}
FILE *OutStream::open(int mode, size_t size) {
    cookie_io_functions_t io = {nullptr, wr, nullptr, nullptr};
    f = fopencookie(this, "w", io);
    if (mode >= 0) { buf.resize(size + 1); setvbuf(f, mode == _IONBF ? nullptr : buf.data(), mode, size); }
    return f;
}
