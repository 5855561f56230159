// Shared harness runtime: case bookkeeping, violation reports, evidence.
//
// Every harness enumerates a finite space of cases.  A case has a key (a short
// string that identifies it completely); `--only KEY` replays that case alone.
// The key of the running case is kept in a file (the crumb) so that a crash or
// a hang of the code under test is attributed to the case that caused it.
#pragma once
#include <algorithm>
#include <array>
#include <atomic>
#include <cassert>
#include <chrono>
#include <cmath>
#include <complex>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <mutex>
#include <new>
#include <numeric>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>

namespace mc {

using ld = long double;
inline constexpr ld PI = 3.14159265358979323846264338327950288L;

struct Options {
  bool thorough = false;
  long seed = 1;
  std::string out, crumb, only;
  int case_seconds = 120;
  std::map<std::string, std::string> extra;
};

struct Violation { std::string key, what; };

struct Runtime {
  Options opt;
  std::map<std::string, long long> counts;       // evidence counters
  std::vector<std::string> samples;
  std::vector<Violation> violations;
  std::vector<std::string> notes;
  std::map<std::string, std::string> info;       // free text evidence
  char* crumb = nullptr;
  size_t crumb_cap = 4096;
  std::string key;
  std::mutex mtx;
  size_t per_key_reports = 0;
  long long nviol = 0;
};

inline Runtime& rt() { static Runtime r; return r; }

inline std::string js(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
    else if (c < 0x20 || c >= 0x7f) { char b[8]; std::snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += char(c);
  }
  return o + "\"";
}

template <typename... A> std::string cat(const A&... a) {
  std::ostringstream o; o.precision(17); ((o << a), ...); return o.str();
}

inline void write_out(const char* status) {
  auto& r = rt();
  if (r.opt.out.empty()) return;
  std::ofstream f(r.opt.out);
  f << "{\n \"status\": " << js(status) << ",\n \"counts\": {";
  bool first = true;
  for (auto& [k, v] : r.counts) { f << (first ? "" : ",") << "\n  " << js(k) << ": " << v; first = false; }
  f << "\n },\n \"info\": {"; first = true;
  for (auto& [k, v] : r.info) { f << (first ? "" : ",") << "\n  " << js(k) << ": " << js(v); first = false; }
  f << "\n },\n \"samples\": ["; first = true;
  for (auto& s : r.samples) { f << (first ? "" : ",") << "\n  " << js(s); first = false; }
  f << "\n ],\n \"nviolations\": " << r.nviol << ",\n \"violations\": ["; first = true;
  for (auto& v : r.violations) { f << (first ? "" : ",") << "\n  {\"key\": " << js(v.key) << ", \"what\": " << js(v.what) << "}"; first = false; }
  f << "\n ]\n}\n";
}

inline void on_alarm(int) {
  const char m[] = "\nMC-HANG\n";
  if (write(2, m, sizeof(m) - 1)) {}
  _exit(97);
}

inline void init(int argc, char** argv) {
  auto& r = rt();
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--thorough") r.opt.thorough = true;
    else if (a == "--out") r.opt.out = val();
    else if (a == "--crumb") r.opt.crumb = val();
    else if (a == "--only") r.opt.only = val();
    else if (a == "--seed") r.opt.seed = std::atol(val().c_str());
    else if (a == "--case-seconds") r.opt.case_seconds = std::atoi(val().c_str());
    else if (a.rfind("--", 0) == 0) r.opt.extra[a.substr(2)] = val();
  }
  if (!r.opt.crumb.empty()) {
    int fd = open(r.opt.crumb.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
    if (fd >= 0 && ftruncate(fd, r.crumb_cap) == 0) {
      void* p = mmap(nullptr, r.crumb_cap, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
      if (p != MAP_FAILED) r.crumb = static_cast<char*>(p);
    }
    if (fd >= 0) close(fd);
  }
  signal(SIGALRM, on_alarm);
}

inline bool thorough() { return rt().opt.thorough; }
#ifdef MC_SANITIZED
inline constexpr bool sanitized = true;    // C24: the same spaces, watched for undefined behaviour; the slowest reduced
#else
inline constexpr bool sanitized = false;
#endif

// Start of a case; false if it is filtered out by --only.
inline bool begin(const std::string& key) {
  auto& r = rt();
  if (!r.opt.only.empty() && key != r.opt.only) return false;
  r.key = key;
  r.per_key_reports = 0;
  if (r.crumb) {
    size_t n = std::min(key.size(), r.crumb_cap - 1);
    std::memcpy(r.crumb, key.data(), n); r.crumb[n] = 0;
  }
  ++r.counts["traces_validated_against_impl"];   // cases: complete, replayable executions of the real code
  alarm(r.opt.case_seconds);
  return true;
}

inline void count(const std::string& k, long long n = 1) { rt().counts[k] += n; }
inline void sample(const std::string& s, size_t cap = 12) {
  if (rt().samples.size() < cap) rt().samples.push_back(s);
}
inline void info(const std::string& k, const std::string& v) { rt().info[k] = v; }

inline void violation_at(const std::string& key, const std::string& what) {
  auto& r = rt();
  std::lock_guard<std::mutex> g(r.mtx);
  ++r.nviol;
  if (r.violations.size() < 200) {
    for (auto& v : r.violations) if (v.key == key) return;
    r.violations.push_back({key, what});
    std::fprintf(stderr, "violation %s: %s\n", key.c_str(), what.c_str());
  }
}
inline void violation(const std::string& what) { violation_at(rt().key, what); }

#define MC_CHECK(cond, ...) do { if (!(cond)) ::mc::violation(::mc::cat(__VA_ARGS__)); } while (0)

inline int finish() {
  alarm(0);
  write_out("done");
  return rt().nviol ? 1 : 0;
}

// |a-b| within a relative/absolute tolerance; false for NaN.
inline bool close(ld a, ld b, ld rel, ld abs_) {
  return std::fabs(a - b) <= abs_ + rel * std::max(std::fabs(a), std::fabs(b));
}

// Runs f and says how it ended: "" normally, otherwise the exception.
template <typename F> std::string outcome(F&& f) {
  try { f(); return ""; }
  catch (const std::bad_alloc&) { return "bad_alloc"; }
  catch (const std::exception& e) { return std::string("exception: ") + e.what(); }
  catch (...) { return "unknown exception"; }
}

inline size_t hash_str(const std::string& s) { return std::hash<std::string>{}(s); }

// Deterministic parallel for over [0,n) (independent cases only).
template <typename F> void parallel(size_t n, F&& f, unsigned nt = 8) {
  std::atomic<size_t> next{0};
  std::vector<std::thread> t;
  for (unsigned i = 0; i < nt; ++i) t.emplace_back([&] { for (size_t k; (k = next++) < n;) f(k); });
  for (auto& x : t) x.join();
}

}  // namespace mc
