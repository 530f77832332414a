// Common part of the native search drivers: they run the real code of /repo on generated inputs.
#pragma once
#include <algorithm>
#include <array>
#include <cassert>
#include <chrono>
#include <cmath>
#include <compare>
#include <concepts>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <exception>
#include <fstream>
#include <functional>
#include <iostream>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <numeric>
#include <optional>
#include <queue>
#include <random>
#include <ranges>
#include <set>
#include <span>
#include <sstream>
#include <stack>
#include <stdexcept>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <variant>
#include <vector>
#include <gmp.h>
#include <gmpxx.h>
#define private public
#define protected public

namespace hs {
inline char current[65536];      // description of the input being tried
inline unsigned long evals = 0, distinct = 0;
inline std::unordered_set<size_t> seen;
inline std::mt19937_64 rng;
inline double seconds = 10;
inline std::chrono::steady_clock::time_point t0;
inline std::string sample;

inline void setcur(std::string const& s) { std::strncpy(current, s.c_str(), sizeof current - 1); }

[[noreturn]] inline void fail(std::string const& what)
{
    std::printf("FAIL %s\ninput: %s\n", what.c_str(), current);
    std::printf("STAT %lu %lu\n", evals, distinct);
    std::fflush(stdout);
    _exit(1);
}
inline void on_signal(int s)
{
    char b[256];
    int n = std::snprintf(b, sizeof b, "FAIL the code under test stopped with signal %d\ninput: ", s);
    (void) !write(1, b, n); (void) !write(1, current, std::strlen(current)); (void) !write(1, "\n", 1);
    _exit(1);
}
inline void init(int argc, char** argv)
{
    rng.seed(argc > 1 ? std::strtoull(argv[1], nullptr, 10) : 1);
    seconds = argc > 2 ? std::atof(argv[2]) : 10;
    t0 = std::chrono::steady_clock::now();
    for (int s : {SIGABRT, SIGSEGV, SIGFPE, SIGBUS, SIGILL}) std::signal(s, on_signal);
    std::set_terminate([] { fail("uncaught exception"); });
}
inline bool more()
{
    if ((evals & 63) == 0 && std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > seconds) return false;
    return true;
}
// counts one case; desc identifies it
inline void begin_case(std::string const& desc, bool nontrivial = true)
{
    setcur(desc); ++evals;
    if (nontrivial && seen.size() < 2000000 && seen.insert(std::hash<std::string>{}(desc)).second) ++distinct;
    if (nontrivial && evals % 97 == 5 && sample.empty()) sample = desc;
}
inline int done()
{
    for (auto& c : sample) if (c == '\n') c = ' ';
    std::printf("SAMPLE %s\nSTAT %lu %lu\n", sample.c_str(), evals, distinct);
    return 0;
}
inline long ri(long a, long b) { return std::uniform_int_distribution<long>(a, b)(rng); }
inline bool coin(int n = 2) { return ri(0, n - 1) == 0; }
}
#define CHECK(c, what) do { if (!(c)) hs::fail(std::string(what) + "  [" #c "]"); } while (0)
