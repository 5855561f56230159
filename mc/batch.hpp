// The batcher, its model (a multiset of weighted points about a centre) and point sets for it.
#pragma once
#include "sph.hpp"
#include <integratorxx/batch/spherical_micro_batcher.hpp>

namespace mc {
using Batcher = SphericalMicroBatcher<std::vector<P3>, std::vector<double>>;
using AnyQuad = SphericalQuadrature<Becke<double, double>, LebedevLaikov<double>>;

// a spherical quadrature holding arbitrary points
inline AnyQuad holding(const std::vector<P3>& pts, const std::vector<double>& wts, P3 c = {0, 0, 0}) {
  static const Becke<double, double> r(1, 1.0); static const LebedevLaikov<double> a(6);
  AnyQuad q(r, a, c);
  q.points() = pts; q.weights() = wts;
  return q;
}
inline std::vector<PW> weighted(const SphBase& q) {
  std::vector<PW> v;
  for (size_t i = 0; i < q.npts(); ++i) v.push_back({q.points()[i], q.weights()[i]});
  return v;
}
inline std::vector<PW> sorted(std::vector<PW> v) { std::sort(v.begin(), v.end()); return v; }
struct Seen { P3 lo, up; std::vector<P3> p; std::vector<double> w;
  bool operator==(const Seen& o) const { return lo == o.lo && up == o.up && p == o.p && w == o.w; } };
template <class T> Seen seen(const T& t) { return {std::get<0>(t), std::get<1>(t), std::get<2>(t), std::get<3>(t)}; }

template <class B> std::vector<Seen> walk(B& b) { std::vector<Seen> v; for (auto it = b.cbegin(); it != b.cend(); ++it) v.push_back(seen(*it)); return v; }

// every batch is a non-empty set of at most `max` points in its tight box; together they are `want` (sorted)
inline std::string partition_of(const std::vector<Seen>& batches, const std::vector<PW>& want, size_t max) {
  std::vector<PW> all;
  for (size_t i = 0; i < batches.size(); ++i) {
    const auto& b = batches[i];
    if (b.p.empty() || b.p.size() != b.w.size()) return cat("batch ", i, " holds ", b.p.size(), " points and ", b.w.size(), " weights");
    if (b.p.size() > max) return cat("batch ", i, " holds ", b.p.size(), " points, more than ", max);
    for (int k = 0; k < 3; ++k) {
      double lo = b.p[0][k], up = lo;
      for (auto& p : b.p) { lo = std::min(lo, p[k]); up = std::max(up, p[k]); }
      if (!(b.lo[k] == lo) || !(b.up[k] == up)) return cat("batch ", i, ": box [", b.lo[k], ",", b.up[k], "] along ", k, " instead of [", lo, ",", up, "]");
    }
    for (size_t j = 0; j < b.p.size(); ++j) all.push_back({b.p[j], b.w[j]});
  }
  if (all.size() != want.size()) return cat("the batches hold ", all.size(), " points of ", want.size());
  std::sort(all.begin(), all.end());
  if (!(all == want)) return "the batches do not hold the weighted points of the quadrature";
  return "";
}
}  // namespace mc
