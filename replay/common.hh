// Common parts of the concrete searches. Usage: h PROPERTY SEED BUDGET_SECONDS
#pragma once
#include <algorithm>
#include <array>
#include <cassert>
#include <chrono>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <exception>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <numeric>
#include <random>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_map>
#include <utility>
#include <vector>
#include <boost/align/aligned_allocator.hpp>
#include <boost/align/aligned_allocator_adaptor.hpp>
#include <boost/container/flat_set.hpp>
#include <boost/container/map.hpp>
#include <boost/container/set.hpp>
#include <boost/endian/conversion.hpp>
#include <boost/optional.hpp>

static std::string prop;
static std::uint64_t seed0;
static double budget;
static unsigned long count_ = 0;
static std::chrono::system_clock::time_point start_;
static std::ostringstream story;   // what was done in the current case

struct rng
{
  std::uint64_t s;
  explicit rng(std::uint64_t x) : s(x * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
  std::uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s; }
  std::uint64_t operator()(std::uint64_t n) { return n ? (next() >> 11) % n : 0; }
  std::uint64_t in(std::uint64_t a, std::uint64_t b) { return a + (*this)(b - a + 1); }
  bool chance(unsigned pc) { return (*this)(100) < pc; }
};

static void finish(int code)
{
  std::printf("COUNT %lu\n", count_);
  std::fflush(stdout);
  std::_Exit(code);
}

static void fail(const std::string& what)
{
  std::printf("FAIL property=%s %s\n", prop.c_str(), what.c_str());
  std::printf("CASE %s\n", story.str().substr(0, 6000).c_str());
  finish(1);
}

#define CHECK(c, msg) do { if (!(c)) { std::ostringstream o_; o_ << msg; fail(o_.str()); } } while (0)

// A check that belongs to the listed properties; when it fails for another property the case is abandoned.
struct desync {};
#define CK(props, c, msg) do { if (!(c)) { if (std::string(props).find(prop) == std::string::npos) throw desync{}; std::ostringstream o_; o_ << msg; fail(o_.str()); } } while (0)

static double elapsed()
{
  return std::chrono::duration<double>(std::chrono::system_clock::now() - start_).count();
}

static bool is(const char* p) { return prop == p; }

static void on_terminate()
{
  fail("std::terminate was called");
}

static void begin_case(const std::string& s) { story.str(""); story << s << "; "; ++count_; }

static void init(int argc, char** argv, const char* bound)
{
  prop = argc > 1 ? argv[1] : "";
  seed0 = argc > 2 ? std::strtoull(argv[2], nullptr, 10) : 1;
  budget = argc > 3 ? std::atof(argv[3]) : 2;
  start_ = std::chrono::system_clock::now();
  std::setvbuf(stdout, nullptr, _IOLBF, 1 << 16);
  std::set_terminate(on_terminate);
  std::printf("BOUND %s\n", bound);
}
// On a crash (sanitizer report, signal) the case under way is printed.
extern "C" void __asan_on_error() { std::printf("FAIL property=%s memory error (AddressSanitizer)\nCASE %s\n", prop.c_str(), story.str().substr(0, 6000).c_str()); std::fflush(stdout); }
