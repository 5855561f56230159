// C33: batches are separate boxes in space.
#include "batch.hpp"
using namespace mc;

namespace {
std::atomic<long long> n_pairs{0}, n_batchers{0};
struct Box { P3 lo, up; };
double ulp(double x) { x = std::fabs(x); return std::nextafter(x, std::numeric_limits<double>::infinity()) - x; }
// on two sides of a plane across k, which both may touch, where the whole set has extent along k
bool apart(const Box& a, const Box& b, const Box& all) {
  for (int k = 0; k < 3; ++k) {
    if (all.lo[k] == all.up[k]) continue;
    if (a.up[k] <= b.lo[k] || b.up[k] <= a.lo[k]) return true;
  }
  return false;
}
// all points of both within rounding of each other
bool inseparable(const Box& a, const Box& b) {
  for (int k = 0; k < 3; ++k) {
    const double lo = std::min(a.lo[k], b.lo[k]), up = std::max(a.up[k], b.up[k]);
    if (up - lo > 4 * ulp(std::max(std::fabs(lo), std::fabs(up)))) return false;
  }
  return true;
}
std::string verify(Batcher& b) {
  ++n_batchers;
  std::vector<Box> v;
  const auto& B = b;
  for (auto it = B.cbegin(); it != B.cend(); ++it) {   // the boxes of the points themselves
    auto [n, pb, pe, wb, we] = it.range(); (void)n; (void)wb; (void)we;
    Box x{*pb, *pb};
    for (auto p = pb; p != pe; ++p) for (int k = 0; k < 3; ++k) { x.lo[k] = std::min(x.lo[k], (*p)[k]); x.up[k] = std::max(x.up[k], (*p)[k]); }
    v.push_back(x);
  }
  if (v.empty()) return "";
  Box all = v[0]; for (auto& x : v) for (int k = 0; k < 3; ++k) { all.lo[k] = std::min(all.lo[k], x.lo[k]); all.up[k] = std::max(all.up[k], x.up[k]); }
  // sorted along x, only neighbours can meet
  std::sort(v.begin(), v.end(), [](const Box& p, const Box& q) { return p.lo < q.lo; });
  for (size_t i = 0; i < v.size(); ++i) for (size_t j = i + 1; j < v.size() && v[j].lo[0] <= v[i].up[0]; ++j) {
    ++n_pairs;
    if (!apart(v[i], v[j], all) && !inseparable(v[i], v[j])) return cat("the boxes ", show(v[i].lo), "..", show(v[i].up), " and ", show(v[j].lo), "..", show(v[j].up), " of two batches overlap");
  }
  return "";
}
template <class Q> void all_sizes(const std::string& what, const Q& q, const std::vector<size_t>& maxes) {
  for (size_t m : maxes) {
    std::string why, how = outcome([&] { Batcher b(m, q); why = verify(b); });
    MC_CHECK(how.empty() && why.empty(), what, ", batches of at most ", m, ": ", how, why);
    if (!how.empty() || !why.empty()) return;
  }
}
void lattice(const std::string& name, const std::vector<P3>& sites, size_t kmax) {
  for (size_t k = 2; k <= kmax; ++k) {
    if (!begin(cat("lattice/", name, "/", k))) continue;
    std::vector<std::vector<size_t>> sets; std::vector<size_t> cur;
    std::function<void(size_t)> rec = [&](size_t from) { if (cur.size() == k) { sets.push_back(cur); return; } for (size_t s = from; s < sites.size(); ++s) { cur.push_back(s); rec(s); cur.pop_back(); } };
    rec(0);
    const std::string key = rt().key; std::atomic<int> bad{0};
    parallel(sets.size(), [&](size_t i) {
      if (bad > 3) return;
      std::vector<P3> p; std::vector<double> w(k, 1.0);
      for (size_t j = 0; j < k; ++j) p.push_back(sites[sets[i][(j * (i % 3 + 1)) % k == j ? j : k - 1 - j]]);
      if (i % 2) std::rotate(p.begin(), p.begin() + k / 2, p.end());
      const auto q = holding(p, w);
      for (size_t m = 1; m <= k; ++m) {
        std::string why, how = outcome([&] { Batcher b(m, q); why = verify(b); });
        if (!how.empty() || !why.empty()) { std::string d; for (auto& x : p) d += show(x); violation_at(key, cat("points ", d, ", batches of at most ", m, ": ", how, why)); ++bad; return; }
      }
    });
    count("states", sets.size());
  }
}
template <class RQ, class AQ> void pruned(const std::string& name, const RQ& r, const std::vector<size_t>& as, const std::vector<size_t>& ms) {
  const size_t n = r.npts();
  const PrunedSphericalQuadrature<RQ, AQ> q(r, RadialGridPartition<AQ>(r, 0, AQ(as[0]), n / 4 + 1, AQ(as[1]), n / 2 + 1, AQ(as[2])), P3{0.5, 0, -1});
  all_sizes(name, q, ms); count("states");
}
}  // namespace

int main(int argc, char** argv) {
  init(argc, argv);
  const bool T = thorough();
  std::vector<P3> cube, flat, line, odd;
  for (int x = -1; x <= 1; ++x) for (int y = -1; y <= 1; ++y) for (int z = -1; z <= 1; ++z) cube.push_back({double(x), double(y), double(z)});
  for (int x = 0; x < 3; ++x) for (int y = 0; y < 3; ++y) flat.push_back({1.0 * x, 2.0 * y, 5.0});
  for (double x : {-1e6, -1.0, -1e-9, 0.0, 1e-9, 0.25, 0.5, 1.0, 1.0 + 2.3e-16, 1e6, 1e15}) line.push_back({0, x, 0});
  odd = {{0, 0, 0}, {1e-300, 0, 0}, {5e-324, 0, 0}, {1e150, 1e150, -1e150}, {-1e150, 0, 1e150}, {1, 1, 1}, {1, 1, std::nextafter(1.0, 2.0)}, {1, 1, std::nextafter(1.0, 0.0)}, {-1, 1e-8, 0}, {1e8, 1e8, 1e8 + 1}};
  lattice("cube", cube, T ? 5 : 4); lattice("plane", flat, T ? 8 : 7); lattice("line", line, T ? 7 : 5); lattice("extreme", odd, T ? 7 : 5);
  for (double scale : {1e-300, 1e-13, 1e-7, 1e13, 1e300}) { auto v = flat; for (auto& p : v) for (auto& x : p) x *= scale; lattice(cat("plane x ", scale), v, T ? 7 : 6); }
  // grids shrunk, blown up and, by the last, close together far from the origin
  for (double scale : {1e-300, 1e-100, 1e-16, 1e-13, 1e-10, 1e-6, 1e10, 1e100, 1e140, 0.}) if (begin(cat("scaled grid/", scale))) for (size_t nr : {3, 8}) for (size_t na : {14, 50}) {
    const SphericalQuadrature<Becke<double, double>, LebedevLaikov<double>> q(Becke<double, double>(nr, 1.0), LebedevLaikov<double>(na), P3{0, 0, 0});
    auto p = q.points();
    for (auto& x : p) for (int k = 0; k < 3; ++k) x[k] = scale ? x[k] * scale : 1e3 * (k + 1) + x[k] * 1e-11;
    std::vector<size_t> ms; for (size_t m = 1; m <= 60; ++m) ms.push_back(m);
    all_sizes(cat("Becke ", nr, " x LebedevLaikov ", na, " times ", scale), holding(p, std::vector<double>(p.size(), 1.0)), ms); count("states");
  }
  {
    std::vector<P3> near = {{-1e6, 0, 0}}; for (int x = 0; x < 3; ++x) for (int y = 0; y < 3; ++y) near.push_back({1.0 + 1e-12 * x, 2.0 + 3e-12 * y, 5.0});
    lattice("close together", near, T ? 7 : 6);
  }
  auto grids = [&](auto r, auto a) {
    using R = decltype(r); using A = decltype(a);
    const auto sz = A::some();
    for (size_t na : {sz[0], sz[2], sz[3]}) {
      if (!begin(cat("grid/", R::name, "x", A::name, "/", na))) continue;
      for (size_t nr : {1, 2, 4, 9, 20}) for (const P3& c : {P3{0, 0, 0}, P3{1, -2, 3.5}}) {
        const SphericalQuadrature<typename R::type, typename A::type> q(R::make(nr, 1.0), typename A::type(na), c);
        std::vector<size_t> ms = {1, 2, 3, 5, 7, 8, 16, 27, 32, 64, 100, 128, 512, 4096, ~size_t(0)};
        if (T) for (size_t m = 9; m <= 96; ++m) ms.push_back(m);
        all_sizes(cat(R::name, "x", A::name, " ", nr, "x", na, " about ", show(c)), q, ms); count("states");
      }
    }
  };
  each_radial([&](auto r) { each_angular([&](auto a) { grids(r, a); }); });
  if (begin("pruned")) for (size_t n : {8, 30, 75}) {
    pruned<Becke<double, double>, LebedevLaikov<double>>("Becke x LebedevLaikov, pruned", Becke<double, double>(n, 1.3), {26, 50, 302}, {1, 16, 64, 512});
    pruned<TreutlerAhlrichs<double, double>, Womersley<double>>("TreutlerAhlrichs x Womersley, pruned", TreutlerAhlrichs<double, double>(n, 0.7), {32, 72, 201}, {3, 64, 512});
  }
  if (begin("large")) {
    all_sizes("MuraKnowles 99 x LebedevLaikov 590", SphericalQuadrature<MuraKnowles<double, double>, LebedevLaikov<double>>(MuraKnowles<double, double>(99, 5.0), LebedevLaikov<double>(590), P3{0, 0, 0}), {32, 512});
    all_sizes("MurrayHandyLaming 75 x AhrensBeylkin 312", SphericalQuadrature<MurrayHandyLaming<double, double>, AhrensBeylkin<double>>(MurrayHandyLaming<double, double>(75, 1.0), AhrensBeylkin<double>(312), P3{3, 0, 0}), {16, 512}); count("states", 2);
  }
  // many points at few places, and one place among others
  if (begin("coinciding")) for (size_t n = 2; n <= (T ? 120 : 50); ++n) for (size_t m : {size_t(1), size_t(2), size_t(3), n / 2 + 1}) {
    std::vector<P3> p(n, P3{1, 2, 3}); p.front() = {0, 0, 0}; p.back() = {1, 2, 4}; if (n > 4) p[2] = {1, 2.5, 3};
    all_sizes(cat(n, " mostly coinciding points"), holding(p, std::vector<double>(n, 1.0)), {m}); count("states");
  }
  count("transitions", n_pairs); count("batchers", n_batchers);
  info("space", "all multisets of 2 to 4-7 points of ten lattices of extents from 1e-300 to 1e300 with every batch size; 16 radial x angular combinations x 3 x 5 sizes x 2 centres x 15 (thorough 103) batch sizes; grids scaled from 1e-300 to 1e140; pruned and large grids; coinciding points");
  sample("Becke x Womersley 9x32 about (1,-2,3.5), batches of at most 7");
  return finish();
}
