// C17: the batches partition the quadrature, whatever its points and the batch size.
#include "batch.hpp"
using namespace mc;

namespace {
std::atomic<long long> n_batchers{0}, n_batches{0};
std::string verify(const SphBase& before, const std::vector<PW>& want, Batcher& b, size_t max, const P3& centre) {
  ++n_batchers;
  if (b.max_batch_size() != max) return cat("maximum batch size is ", b.max_batch_size());
  if (b.npts() != want.size() || b.quadrature().npts() != want.size() || b.points().size() != want.size() || b.weights().size() != want.size()) return cat(b.npts(), " points instead of ", want.size());
  const auto v = walk(b); n_batches += v.size();
  if (v.size() != b.nbatches()) return cat(v.size(), " batches traversed, ", b.nbatches(), " announced");
  auto why = partition_of(v, want, max);
  if (why.size()) return why;
  if (!(sorted(weighted(b.quadrature())) == want)) return "the quadrature of the batcher does not hold the weighted points";
  if (!(b.quadrature().center() == centre)) return "the centre changed";
  if (&before != &b.quadrature() && !(sorted(weighted(before)) == want)) return "the quadrature given was changed";
  return "";
}
template <class Q> void all_sizes(const std::string& what, const Q& q, const std::vector<size_t>& maxes) {
  const auto orig = weighted(q); const auto want = sorted(orig);
  for (size_t m : maxes) {
    std::string why, how = outcome([&] { Batcher b(m, q); why = verify(q, want, b, m, q.center()); });
    MC_CHECK(how.empty() && why.empty(), what, ", batches of at most ", m, ": ", how, why);
    MC_CHECK(weighted(q) == orig, what, ": batching a copy reordered the original");
    if (!how.empty() || !why.empty()) return;
  }
}
// the batcher through every way to make one
template <class Q> void ways(const std::string& what, const Q& q, size_t m) {
  const auto want = sorted(weighted(q));
  auto judge = [&](const char* way, auto&& mk) { std::string why, how = outcome([&] { auto b = mk(); why = verify(b.quadrature(), want, b, m, q.center()); });
    MC_CHECK(how.empty() && why.empty(), what, " ", way, ": ", how, why); };
  judge("make_batcher of a constant", [&] { return make_batcher(m, q); });
  judge("make_batcher of a temporary", [&] { return make_batcher(m, Q(q)); });
  judge("from a temporary", [&] { return Batcher(m, Q(q)); });
  judge("from a shared quadrature", [&] { return Batcher(m, std::make_shared<Q>(q)); });
  judge("from a cloned base", [&] { return Batcher(m, static_cast<const SphBase&>(q).clone()); });
  judge("copied", [&] { Batcher b(m, q); return Batcher(b); });
  judge("moved", [&] { Batcher b(m, q); return Batcher(std::move(b)); });
  judge("cloned", [&] { Batcher b(m, q); return b.clone(); });
}

// all sequences (up to order: multisets) of k points of a lattice
void lattice(const std::string& name, const std::vector<P3>& sites, size_t kmax) {
  for (size_t k = 1; k <= kmax; ++k) {
    if (!begin(cat("lattice/", name, "/", k))) continue;
    std::vector<std::vector<size_t>> sets; std::vector<size_t> cur;
    std::function<void(size_t)> rec = [&](size_t from) { if (cur.size() == k) { sets.push_back(cur); return; } for (size_t s = from; s < sites.size(); ++s) { cur.push_back(s); rec(s); cur.pop_back(); } };
    rec(0);
    const std::string key = rt().key;
    std::atomic<int> bad{0};
    parallel(sets.size(), [&](size_t i) {
      if (bad > 3) return;
      std::vector<P3> p; std::vector<double> w;
      for (size_t j = 0; j < k; ++j) { p.push_back(sites[sets[i][(j * 7 + i) % k == j ? j : j]]); w.push_back(1.0 + j); }
      if (i % 2) std::reverse(p.begin(), p.end());
      const auto q = holding(p, w); const auto want = sorted(weighted(q));
      for (size_t m = 1; m <= k + 1; ++m) {
        std::string why, how = outcome([&] { Batcher b(m, q); why = verify(q, want, b, m, {0, 0, 0}); });
        if (!how.empty() || !why.empty()) { std::string d; for (auto& x : p) d += show(x); violation_at(key, cat("points ", d, ", batches of at most ", m, ": ", how, why)); ++bad; return; }
      }
    });
    count("states", sets.size());
  }
}
}  // namespace

int main(int argc, char** argv) {
  init(argc, argv);
  const bool T = thorough();
  std::vector<P3> cube, flat, line, odd;
  for (int x = -1; x <= 1; ++x) for (int y = -1; y <= 1; ++y) for (int z = -1; z <= 1; ++z) cube.push_back({double(x), double(y), double(z)});
  for (int x = 0; x < 3; ++x) for (int y = 0; y < 3; ++y) flat.push_back({1.0 * x, 2.0 * y, 5.0});
  for (double x : {-1e6, -1.0, -1e-9, -0.0, 0.0, 1e-9, 1e-9 * (1 + 2.3e-16), 0.25, 1.0, 1.0 + 2.3e-16, 1e6, 1e15}) line.push_back({x, 0, 0});
  odd = {{0, 0, 0}, {1e-300, 0, 0}, {5e-324, 0, 0}, {1e150, 1e150, -1e150}, {-1e150, 0, 1e150}, {1, 1, 1}, {1, 1, std::nextafter(1.0, 2.0)}, {1, 1, std::nextafter(1.0, 0.0)}, {-1, 1e-8, 0}, {1e8, 1e8, 1e8 + 1}};
  // extents which overflow
  const double big = std::numeric_limits<double>::max();
  const std::vector<P3> vast = {{big, 0, 0}, {-big, 0, 0}, {0, 0, 0}, {1, 1, 1}, {big, big, -big}, {-1e308, 1e308, 0}, {0.5 * big, 1, 0}};
  lattice("vast", vast, T ? 6 : 5);
  lattice("cube", cube, T ? 5 : 4); lattice("plane", flat, T ? 7 : 6); lattice("line", line, T ? 7 : 5); lattice("extreme", odd, T ? 7 : 5);
  // coinciding points, many of them, alone and among others; and permuted insertion orders of a small set
  if (begin("coinciding")) for (size_t n = 1; n <= (T ? 400 : 90); ++n) {
    std::vector<P3> p(n, P3{1, 2, 3}); std::vector<double> w(n); std::iota(w.begin(), w.end(), 1.0);
    std::vector<size_t> ms = {1, 2, 3, n / 2 + 1, n, n + 1}; all_sizes(cat(n, " coinciding points"), holding(p, w), ms);
    p.front() = {0, 0, 0}; p.back() = {1, 2, 4}; all_sizes(cat(n, " mostly coinciding points"), holding(p, w), ms);
    count("states", 2);
  }
  if (begin("orders")) {
    std::vector<P3> base = {{0, 0, 0}, {1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {1, 1, 1}, {-1, -1, -1}, {0.3, 0.3, 0.3}};
    std::vector<size_t> o(base.size()); std::iota(o.begin(), o.end(), 0);
    do { std::vector<P3> p; std::vector<double> w; for (auto i : o) { p.push_back(base[i]); w.push_back(10.0 + i); } all_sizes("an insertion order", holding(p, w), {1, 2, 3}); count("states"); } while (std::next_permutation(o.begin(), o.end()));
  }
  // real grids: every small radial size, several angular sizes, every batch size in a window, several centres
  auto grids = [&](auto r, auto a) {
    using R = decltype(r); using A = decltype(a);
    const auto sz = A::some();
    for (size_t na : {sz[0], sz[1], sz[3]}) {
      if (!begin(cat("grid/", R::name, "x", A::name, "/", na))) continue;
      for (size_t nr : {1, 2, 3, 5, 8}) for (const auto& c : centres()) {
        if (nr > 3 && reach(c) > 10) continue;
        const SphericalQuadrature<typename R::type, typename A::type> q(R::make(nr, 1.0), typename A::type(na), c);
        std::vector<size_t> ms; for (size_t m = 1; m <= (T ? 128 : 24); ++m) ms.push_back(m);
        for (size_t m : {31, 32, 33, 64, 100, 128, 512}) ms.push_back(m);
        ms.push_back(nr * na - 1 + (nr * na == 1)); ms.push_back(nr * na); ms.push_back(nr * na + 1); ms.push_back(~size_t(0));
        all_sizes(cat(R::name, "x", A::name, " ", nr, "x", na, " about ", show(c)), q, ms); count("states");
        if (nr == 2) ways(cat(R::name, "x", A::name, " ", nr, "x", na), q, 7);
      }
    }
  };
  each_radial([&](auto r) { grids(r, ALL{}); }); grids(RBecke{}, AWO{}); grids(RMK{}, AAB{}); grids(RTA{}, ADE{});
  // a pruned grid
  if (begin("pruned grid")) {
    using AQ = LebedevLaikov<double>; const Becke<double, double> r(6, 1.0);
    for (size_t i = 1; i < 5; ++i) for (size_t j = i + 1; j < 6; ++j) {
      const PrunedSphericalQuadrature<Becke<double, double>, AQ> q(r, RadialGridPartition<AQ>(r, 0, AQ(6), i, AQ(14), j, AQ(26)), P3{0, 0, 1});
      std::vector<size_t> ms; for (size_t m = 1; m <= 40; ++m) ms.push_back(m);
      all_sizes(cat("pruned at ", i, ",", j), q, ms); ways("pruned", q, 5); count("states");
    }
  }
  // larger grids with the usual batch sizes
  if (begin("large grids")) for (size_t nr : {30, 60}) for (size_t na : {194, 302}) for (size_t m : {1, 7, 64, 512, 4096}) {
    if (!T && (nr == 60 && na == 302)) continue;
    const AnyQuad q(Becke<double, double>(nr, 1.0), LebedevLaikov<double>(na)); all_sizes(cat("Becke x LebedevLaikov ", nr, "x", na), q, {m}); count("states");
  }
  // no points; no room
  // more points and batches than 16 bits count
  if (begin("huge grids")) for (auto [nr, na] : std::vector<std::pair<size_t, size_t>>{{73, 974}, {12, 5810}}) for (size_t m : T ? std::vector<size_t>{1, 3, 65535, 65536, 65537, 70000} : std::vector<size_t>{1, 65536, 70000})
    all_sizes(cat("Becke ", nr, " x LebedevLaikov ", na), AnyQuad(Becke<double, double>(nr, 1.0), LebedevLaikov<double>(na), {1, 2, 3}), {m}), count("states");
  if (begin("huge coinciding")) for (size_t n : {65535, 65536, 65537, 65541}) {
    std::vector<P3> p(n, P3{1, 2, 3}); std::vector<double> w(n); std::iota(w.begin(), w.end(), 1.0);
    all_sizes(cat(n, " coinciding points"), holding(p, w), {7, 512, 65536});
    p[0] = {0, 0, 0}; p[n / 2] = {0, 0, 1}; all_sizes(cat(n, " mostly coinciding points"), holding(p, w), {7, 512, 65536}); count("states", 2);
  }
  // points which crowd geometrically: every round of cutting takes off a few of them only
  for (double ratio : {0.75, 0.5, 0.25, 1e-3}) for (int shape = 0; shape < 6; ++shape) {
    if (!begin(cat("crowding/", ratio, "/", shape))) continue;
    for (size_t n : T ? std::vector<size_t>{10, 40, 100, 200, 400, 800} : std::vector<size_t>{10, 40, 100, 300}) {
      if (std::pow(ratio, double(n)) < 1e-320) n = size_t(std::log(1e-320) / std::log(ratio));
      std::vector<P3> p; std::vector<double> w;
      for (size_t i = 0; i < n; ++i) { const double x = std::pow(ratio, double(i)), y = std::pow(ratio, double(i) / 2);
        p.push_back(shape == 0 ? P3{x, 0, 0} : shape == 1 ? P3{-x, x, 2 * x} : shape == 2 ? P3{0, y, x} : shape == 3 ? P3{i % 2 ? x : 1 - x, 0, 1} : shape == 4 ? P3{i % 2 ? x : -x, 3, i % 3 ? y : -y} : P3{1 + x, 1 + y, i % 2 ? x : -x});
        w.push_back(1.0 + i); }
      all_sizes(cat(n, " crowding points"), holding(p, w), {1, 2, 5, n / 2}); count("states");
    }
  }
  if (begin("degenerate")) {
    for (size_t m : {1, 2, 100}) { Batcher b(m, holding({}, {})); MC_CHECK(b.nbatches() == 0 && b.npts() == 0 && walk(b).empty(), "an empty quadrature has ", b.nbatches(), " batches"); }
    for (size_t n : {0, 1, 5}) { const auto q = holding(std::vector<P3>(n, P3{0, 0, 1}), std::vector<double>(n, 1.0)); MC_CHECK(!outcome([&] { Batcher b(0, q); }).empty(), "a batch size of zero is accepted for ", n, " points"); }
    count("states", 6);
  }
  count("transitions", n_batchers); count("batches", n_batches);
  info("space", "all multisets of up to 4-6 points of five lattices (27 cube sites, a plane, a line, extreme coordinates, overflowing extents) with every batch size; coinciding points; up to 300 (800) points crowding geometrically in 24 ways; all orders of 7 points; product and pruned grids with batch sizes 1..24 (thorough 128) and larger; all ways to make a batcher");
  sample("points (0,0,0)(1,0,0)(1,0,0)(1,1,1), batches of at most 1, 2, 3, 4, 5");
  return finish();
}
