// Spherical grids: radial and angular types, and comparison of point sets.
#pragma once
#include "common.hpp"
#include <integratorxx/quadratures/primitive.hpp>
#include <integratorxx/quadratures/all.hpp>
#include <integratorxx/composite_quadratures/spherical_quadrature.hpp>
#include <integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp>

namespace mc {
using namespace IntegratorXX;
using P3 = std::array<double, 3>;
using PW = std::pair<P3, double>;
using SphBase = SphericalQuadratureBase<std::vector<P3>, std::vector<double>>;

struct RBecke { using type = Becke<double, double>;            static constexpr const char* name = "Becke"; static type make(size_t n, double R = 1) { return type(n, R); } };
struct RMHL   { using type = MurrayHandyLaming<double, double>; static constexpr const char* name = "MHL"; static type make(size_t n, double R = 1) { return type(n, R); } };
struct RMK    { using type = MuraKnowles<double, double>;      static constexpr const char* name = "MK"; static type make(size_t n, double R = 1) { return type(n, R); } };
struct RTA    { using type = TreutlerAhlrichs<double, double>; static constexpr const char* name = "TA"; static type make(size_t n, double R = 1) { return type(n, R); } };
struct RGL    { using type = GaussLegendre<double, double>;    static constexpr const char* name = "GaussLegendre"; static type make(size_t n, double = 1) { return type(n); } };
template <class F> void each_radial(F&& f) { f(RBecke{}); f(RMHL{}); f(RMK{}); f(RTA{}); }

struct ALL { using type = LebedevLaikov<double>; static constexpr const char* name = "LebedevLaikov"; static std::vector<size_t> some() { return {6, 14, 26, 38, 50, 74, 86, 110, 146, 170, 194, 302}; } };
struct ADE { using type = Delley<double>;        static constexpr const char* name = "Delley"; static std::vector<size_t> some() { return {14, 26, 50, 110, 194, 302}; } };
struct AAB { using type = AhrensBeylkin<double>; static constexpr const char* name = "AhrensBeylkin"; static std::vector<size_t> some() { return {72, 132, 192, 312}; } };
struct AWO { using type = Womersley<double>;     static constexpr const char* name = "Womersley"; static std::vector<size_t> some() { return {6, 14, 26, 32, 50, 72, 86, 128, 163, 201, 243, 314}; } };
template <class F> void each_angular(F&& f) { f(ALL{}); f(ADE{}); f(AAB{}); f(AWO{}); }

inline double norm(const P3& p) { return std::sqrt(p[0] * p[0] + p[1] * p[1] + p[2] * p[2]); }
inline std::string show(const P3& p) { return cat("(", p[0], ",", p[1], ",", p[2], ")"); }

// The grid holds exactly these points with these weights, in any order.  `slack` bounds the rounding of a
// coordinate: slack = (size of the largest coordinate involved).  "" if so.
template <class Pts, class Wts> std::string match(const Pts& pts, const Wts& wts, const std::vector<PW>& want, double slack, double reltol = 1e-12) {
  if (pts.size() != want.size() || wts.size() != want.size()) return cat(pts.size(), " points and ", wts.size(), " weights instead of ", want.size());
  const auto fits = [&](size_t i, const PW& e) {
    for (int c = 0; c < 3; ++c) if (!(std::fabs(pts[i][c] - e.first[c]) <= 1e-14 * slack * 32 + reltol * std::fabs(e.first[c]))) return false;
    return close(wts[i], e.second, reltol, 0);
  };
  size_t first_bad = want.size();
  for (size_t i = 0; i < want.size(); ++i) if (!fits(i, want[i])) { first_bad = i; break; }
  if (first_bad == want.size()) return "";
  // another order: match by place
  const double h = std::max(1e-9, slack * 1e-9);
  struct H { size_t operator()(const std::array<long long, 3>& a) const { return size_t(a[0] * 73856093LL ^ a[1] * 19349663LL ^ a[2] * 83492791LL); } };
  std::unordered_map<std::array<long long, 3>, std::vector<size_t>, H> cell;
  const auto q = [&](double x) { return (long long)std::floor(x / h); };
  for (size_t e = 0; e < want.size(); ++e) cell[{q(want[e].first[0]), q(want[e].first[1]), q(want[e].first[2])}].push_back(e);
  std::vector<char> used(want.size(), 0);
  for (size_t i = 0; i < want.size(); ++i) {
    bool ok = false;
    const long long a = q(pts[i][0]), b = q(pts[i][1]), c = q(pts[i][2]);
    for (long long x = a - 1; !ok && x <= a + 1; ++x) for (long long y = b - 1; !ok && y <= b + 1; ++y) for (long long z = c - 1; !ok && z <= c + 1; ++z) {
      auto it = cell.find({x, y, z});
      if (it == cell.end()) continue;
      for (auto e : it->second) if (!used[e] && fits(i, want[e])) { used[e] = 1; ok = true; break; }
    }
    if (!ok) return cat("point ", i, " ", show(pts[i]), " with weight ", wts[i], " is not expected (first expected in order ", show(want[first_bad].first), " with weight ", want[first_bad].second, ")");
  }
  return "";
}

// the products of radial nodes [b,e) with an angular rule, around a centre
template <class RQ, class AQ> void product(const RQ& r, size_t b, size_t e, const AQ& a, const P3& c, std::vector<PW>& out) {
  for (size_t j = 0; j < a.npts(); ++j) for (size_t i = b; i < e; ++i) {
    const double x = r.points()[i];
    out.push_back({{x * a.points()[j][0] + c[0], x * a.points()[j][1] + c[1], x * a.points()[j][2] + c[2]}, r.weights()[i] * a.weights()[j] * x * x});
  }
}
template <class RQ> double reach(const RQ& r) { double m = 1; for (auto x : r.points()) m = std::max(m, std::fabs(x)); return m; }
inline double reach(const P3& c) { return std::max({std::fabs(c[0]), std::fabs(c[1]), std::fabs(c[2])}); }
inline const std::vector<P3>& centres() {
  static const std::vector<P3> c = {{0, 0, 0}, {1, -2, 3.5}, {-100.25, 0, 0}, {0, 1e-3, 0}, {0, 0, 7}, {1e4, -1e4, 1e4}, {0, 0, 5e-7}, {1e-8, -1e-9, 0}};
  return c;
}
}  // namespace mc
