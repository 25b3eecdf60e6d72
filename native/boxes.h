// ISO base media file format boxes: a checked tree
#pragma once
#include "common.h"
struct Box { std::string type; size_t at, len; std::vector<Box> sub; };   // at: first byte of the contents, len: their length
static uint64_t beN(const uint8_t* p, int n) { uint64_t r = 0; while (n--) r = r << 8 | *p++; return r; }
static std::vector<Box> boxes(const uint8_t* d, size_t at, size_t end, const std::string& in)
{
    static const std::map<std::string, int> parents = {{"moof", 0}, {"traf", 0}, {"moov", 0}, {"mvex", 0}, {"trak", 0}, {"mdia", 0}, {"minf", 0}, {"dinf", 0}, {"stbl", 0},
        {"dref", 8}, {"stsd", 8}, {"avc1", 78}, {"hev1", 78}, {"mp4a", 28}};
    std::vector<Box> r;
    while (at < end) {
        CHECK(end - at >= 8, "%zu stray bytes at the end of %s", end - at, in.c_str());
        uint32_t n = beN(d + at, 4); std::string t((const char*)d + at + 4, 4);
        CHECK(n >= 8 && n <= end - at, "box %s of %u bytes in %zu bytes of %s", t.c_str(), n, end - at, in.c_str());
        Box b{t, at + 8, n - 8, {}};
        auto p = parents.find(t);
        if (p != parents.end()) { CHECK(b.len >= (size_t)p->second, "%s too short", t.c_str()); b.sub = boxes(d, b.at + p->second, at + n, t); }
        r.push_back(b);
        at += n;
    }
    return r;
}
static std::string shape(const std::vector<Box>& v) { std::string r; for (auto& b : v) { r += (r.empty() ? "" : " ") + b.type; if (!b.sub.empty()) r += "(" + shape(b.sub) + ")"; } return r; }
static const Box* find(const std::vector<Box>& v, const char* t) { for (auto& b : v) { if (b.type == t) return &b; if (auto s = find(b.sub, t)) return s; } return NULL; }
