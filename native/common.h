// Bounded stand-in drivers: seeded random exploration of the real code against an oracle.
// usage: driver <seed> <seconds> <history file> <file of interesting values>
#pragma once
#include <algorithm>
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <fstream>
#include <functional>
#include <iostream>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
#include <unistd.h>
#include <signal.h>

namespace vp {
static uint64_t rs;
static std::vector<uint64_t> dict;
static std::string hist, histfile;
static uint64_t cases;
static double limit;
static std::chrono::steady_clock::time_point t0;

static uint64_t rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs * 0x2545F4914F6CDD1DULL; }
static uint64_t upto(uint64_t n) { return n ? (rnd() >> 11) % n : 0; }          // [0, n)
static int64_t range(int64_t a, int64_t b) { return a + (int64_t)upto((uint64_t)(b - a) + 1); }
static bool chance(int pct) { return (int)upto(100) < pct; }
static uint64_t interesting()
{
    static const uint64_t c[] = {0, 1, 2, 3, 4, 7, 8, 15, 16, 17, 31, 32, 63, 64, 127, 128, 255, 256, 511, 512, 1023, 1024, 4095, 4096,
        65535, 65536, 0x7fffffff, 0x80000000u, 0xffffffffu, 0x100000000ull, 1000, 1000000, 40000, 90000};
    if (!dict.empty() && chance(40)) return dict[upto(dict.size())];
    if (chance(50)) return c[upto(sizeof c / sizeof *c)] + range(-1, 1);
    return rnd() >> upto(64);
}
static void log(const char* f, ...)
{
    char b[1024];
    va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a);
    hist += b; hist += '\n';
}
static void flush() { std::ofstream o(histfile); o << hist; }
static void begin() { hist.clear(); cases++; alarm(20); }
static void fail(const char* f, ...)
{
    char b[1024];
    va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a);
    hist += std::string("FAIL: ") + b + "\n";
    flush();
    printf("FAIL: %s\n", b);
    fflush(stdout);
    _exit(1);
}
#define CHECK(c, ...) do { if (!(c)) vp::fail(__VA_ARGS__); } while (0)
static void onalarm(int)
{
    hist += "FAIL: an operation does not return\n"; flush();
    printf("FAIL: an operation does not return\n"); fflush(stdout); _exit(1);
}
static bool more()
{
    return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() < limit;
}
static void onsig(int s) { hist += "FAIL: signal\n"; flush(); signal(s, SIG_DFL); raise(s); }
extern "C" void __asan_set_death_callback(void (*)(void));
static void init(int argc, char** argv)
{
    rs = strtoull(argv[1], 0, 10) * 0x9E3779B97F4A7C15ULL + 88172645463325252ULL;
    for (int i = 0; i < 8; i++) rnd();
    limit = atof(argv[2]);
    histfile = argv[3];
    std::ifstream f(argv[4]);
    uint64_t v;
    while (f >> v) dict.push_back(v);
    signal(SIGALRM, onalarm);
    t0 = std::chrono::steady_clock::now();
    signal(SIGABRT, onsig); signal(SIGFPE, onsig);
    __asan_set_death_callback([] { flush(); });
}
static int done() { printf("ok cases=%llu\n", (unsigned long long)cases); return 0; }
}
