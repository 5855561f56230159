// Shared pieces of the one-dimensional checks.
#pragma once
#include "common.hpp"
#include <integratorxx/quadratures/primitive.hpp>

namespace mc {
using namespace IntegratorXX;

template <class T> const char* type_name() {
  return std::is_same_v<T, float> ? "float" : std::is_same_v<T, double> ? "double" : "long double";
}
// unit roundoff a rule of this type is held to (constants of the library are of type double)
template <class T> ld unit() { return std::max<ld>(std::numeric_limits<T>::epsilon(), std::numeric_limits<double>::epsilon()); }

// all numbers of points in [first,last], in chunks; a chunk is one case, the sizes in it run in parallel
template <class F> void sweep(const std::string& name, size_t first, size_t last, F&& f) {
  for (size_t a = first; a <= last;) {
    const size_t b = std::min(last, a < 64 ? a + 15 : a < 512 ? a + 63 : a + 127);
    const std::string key = cat(name, "/", a, "-", b);
    if (begin(key)) {
      parallel(b - a + 1, [&](size_t i) {
        const size_t n = a + i;
        const std::string k = cat(key, "#n=", n);
        const auto how = outcome([&] { f(n, k); });
        if (!how.empty()) violation_at(k, cat(n, " points: ", how));
      });
      count("states", b - a + 1);
    }
    a = b + 1;
  }
}
// larger sizes, each a case of its own
inline std::vector<size_t> large_sizes(size_t above, size_t upto) {
  std::set<size_t> s;
  for (size_t p = 256; p <= upto; p *= 2) for (long d = -1; d <= 1; ++d) s.insert(p + d);
  for (size_t p = 1000; p <= upto; p += 1000) s.insert(p);
  for (size_t p = 777; p <= upto; p += 777) s.insert(p);
  std::vector<size_t> r;
  for (auto n : s) if (n > above && n <= upto) r.push_back(n);
  return r;
}
template <class F> void sweep_list(const std::string& name, const std::vector<size_t>& ns, F&& f, const char* what = "/large") {
  const std::string key = name + what;
  if (ns.empty() || !begin(key)) return;
  alarm(600);
  parallel(ns.size(), [&](size_t i) {
    const std::string k = cat(key, "#n=", ns[ns.size() - 1 - i]);
    const auto how = outcome([&] { f(ns[ns.size() - 1 - i], k); });
    if (!how.empty()) violation_at(k, cat(ns[ns.size() - 1 - i], " points: ", how));
  });
  count("states", ns.size());
}

// sizes around 2^16 and beyond, for rules made in linear time
inline std::vector<size_t> huge_sizes() { if (sanitized) return {}; return {32768, 65535, 65536, 65537, 100003, 300007}; }

// number of points, finite, ascending inside [lo,up], positive weights
template <class Q> bool shape(const Q& q, size_t n, const std::string& k, ld lo, ld up, bool open, bool strict = true) {
  if (q.npts() != n || q.points().size() != n || q.weights().size() != n) {
    violation_at(k, cat(n, " points requested, ", q.points().size(), " nodes and ", q.weights().size(), " weights generated")); return false; }
  for (size_t i = 0; i < n; ++i) {
    const ld x = q.points()[i], w = q.weights()[i];
    if (!std::isfinite(x) || !std::isfinite(w)) { violation_at(k, cat("node ", i, " or its weight is not finite")); return false; }
    if (x < lo || x > up || (open && (x <= lo || x >= up))) { violation_at(k, cat("node ", i, " = ", x, " outside the interval")); return false; }
    if (i && !(strict ? x > q.points()[i - 1] : x >= q.points()[i - 1])) { violation_at(k, cat("nodes ", i - 1, " and ", i, " are not ascending: ", q.points()[i - 1], " ", x)); return false; }
    if (!(w > 0)) { violation_at(k, cat("weight ", i, " = ", w, " is not positive")); return false; }
  }
  return true;
}
template <class Q> void symmetric(const Q& q, const std::string& k, ld tol) {
  const size_t n = q.npts();
  for (size_t i = 0; i < n; ++i) {
    if (std::fabs(ld(q.points()[i]) + ld(q.points()[n - 1 - i])) > tol) return violation_at(k, cat("nodes ", i, " and ", n - 1 - i, " are not mirror images"));
    if (!close(q.weights()[i], q.weights()[n - 1 - i], tol, 0)) return violation_at(k, cat("weights ", i, " and ", n - 1 - i, " of mirror images differ"));
  }
}
}  // namespace mc
