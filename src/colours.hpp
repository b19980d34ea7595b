// Colours that can be recognised and removed
#pragma once
#include "pbt.hpp"
extern "C" {
#include "cypher-parser.h"
}
struct Colours {
    struct cypher_parser_colorization c{};
    std::vector<std::string> s;
    Colours() {
        // every member is an array of two strings
        const char *(*m)[2] = (const char *(*)[2])&c;
        size_t n = sizeof c / sizeof *m;
        s.reserve(2 * n);
        for (size_t i = 0; i < n; i++) {
            s.push_back(pbt::strf("<%zu:", i + 1) + std::string(i, 'q')); m[i][0] = s.back().c_str();
            s.push_back(pbt::strf(":%zu>", i + 1)); m[i][1] = s.back().c_str();
        }
    }
    // Whether each colour is ended by its own end before another begins; "" or what is wrong
    std::string unpaired(const std::string &t) const {
        int open = -1;
        for (size_t p = 0; p < t.size(); p++) { int k = mark(t, p); if (k < 0) continue;
            if (k % 2 ? open != k / 2 : open >= 0) return pbt::strf("colour %d %s where colour %d is in use", k / 2 + 1, k % 2 ? "ends" : "begins", open + 1);
            open = k % 2 ? -1 : k / 2; p += s[k].size() - 1;
        }
        return open >= 0 ? pbt::strf("colour %d does not end", open + 1) : "";
    }
    // The mark at this place of the text, or -1
    int mark(const std::string &t, size_t p) const {
        if (t[p] != '<' && t[p] != ':') return -1;
        for (size_t k = t[p] == ':'; k < s.size(); k += 2) if (t.compare(p, s[k].size(), s[k]) == 0) return (int)k;
        return -1;
    }
    std::string strip(const std::string &t) const {
        std::string o;
        for (size_t p = 0; p < t.size();) { int k = mark(t, p); if (k < 0) o += t[p++]; else p += s[k].size(); }
        return o;
    }
};
