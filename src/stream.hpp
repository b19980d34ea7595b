// Streams whose reads come in chosen chunks and can be made to fail.
#pragma once
#include "pbt.hpp"
#include <cstdio>
#include <string>
#include <vector>
struct InStream {
    std::string data; size_t at = 0;
    std::vector<unsigned> chunks; size_t ci = 0;    // sizes of successive reads, repeated
    long fail_at = -1; int fail_errno = 0;          // reads past this offset fail
    bool failed = false;
    FILE *f = nullptr;
    std::vector<char> buf;
    InStream(const std::string &d) : data(d) {}
    ~InStream() { close(); }
    FILE *open(int bufmode = -1, size_t bufsize = 0);
    void close() { if (f) fclose(f); f = nullptr; }
    static InStream *random(pbt::Src &src, const std::string &d);
};
struct OutStream {
    std::string data;
    long fail_at = -1; int fail_errno = 0;
    bool failed = false;
    FILE *f = nullptr;
    ~OutStream() { if (f) fclose(f); }
    FILE *open(int bufmode = -1, size_t bufsize = 0);
    std::vector<char> buf;
};
