// C26: grids in any real type agree with the grids in double precision.
#include "oned.hpp"
#include "sph.hpp"
#include <integratorxx/batch/spherical_micro_batcher.hpp>
using namespace mc;

namespace {
long long n_states = 0, n_trans = 0;
// the coarser of two precisions, with room for the conditioning of the rule
template <class T> ld tol() { return std::max<ld>(std::numeric_limits<T>::epsilon(), std::numeric_limits<double>::epsilon()); }

template <class A, class B> void same(const std::string& k, const A& a, const B& b, ld tp, ld tw, ld abs_) {
  if (a.npts() != b.npts() || a.points().size() != b.points().size() || a.weights().size() != b.weights().size()) return violation(cat(k, ": another number of points"));
  for (size_t i = 0; i < a.npts(); ++i) {
    if (!close(a.points()[i], b.points()[i], tp, abs_)) return violation(cat(k, ": node ", i, " is ", ld(a.points()[i]), " for ", ld(b.points()[i])));
    if (!close(a.weights()[i], b.weights()[i], tw, 0)) return violation(cat(k, ": weight ", i, " is ", ld(a.weights()[i]), " for ", ld(b.weights()[i])));
  }
  n_trans += a.npts(); ++n_states;
}
template <template <class, class> class Q, class P, class W, class... Args> void rule(const std::string& name, size_t from, size_t to, ld cond, Args... args) {
  if (!begin(cat("rule/", name, "<", type_name<P>(), ",", type_name<W>(), ">"))) return;
  for (size_t n = from; n <= to; ++n) {
    const Q<double, double> d(n, args...); const Q<P, W> q(n, args...);
    const ld c = cond * n * n, t = std::max(tol<P>(), tol<W>());
    same(cat(name, "(", n, ")"), q, d, 64 * t * c, 64 * t * c, 64 * t);
  }
}
template <class P, class W> void rules(size_t N) {
  rule<GaussLegendre, P, W>("GaussLegendre", 1, N, 1); rule<GaussLobatto, P, W>("GaussLobatto", 2, N, 1);
  rule<GaussChebyshev1, P, W>("GaussChebyshev1", 1, N, 1); rule<GaussChebyshev2, P, W>("GaussChebyshev2", 1, N, 1); rule<GaussChebyshev3, P, W>("GaussChebyshev3", 1, N, 1);
  rule<UniformTrapezoid, P, W>("UniformTrapezoid", 2, N, 1, P(-1), P(2));
  const size_t M = std::min<size_t>(N, 100);
  rule<Becke, P, W>("Becke", 1, M, 1, 1.5); rule<MurrayHandyLaming, P, W>("MurrayHandyLaming", 1, M, 1, 1.5); rule<TreutlerAhlrichs, P, W>("TreutlerAhlrichs", 1, M, 1, 1.5);
  rule<MuraKnowles, P, W>("MuraKnowles", 1, M, 1 / 16.0L, 1.5);
}

// spherical grids, pruned grids, recentering and batches, in type T
template <class T> struct Sph {
  using PT = cartesian_pt_t<T>; using Pts = std::vector<PT>; using Wts = std::vector<T>;
  using Base = SphericalQuadratureBase<Pts, Wts>; using Bat = SphericalMicroBatcher<Pts, Wts>;
  static std::string match_(const Pts& p, const Wts& w, const std::vector<std::array<ld, 4>>& want, ld slack) {
    if (p.size() != want.size() || w.size() != want.size()) return cat(p.size(), " points instead of ", want.size());
    const ld u = std::numeric_limits<T>::epsilon(), h = 8 * u * slack;
    // the rules of this type differ between their points by much more than rounding: match in any order by sorting on a random direction
    auto proj = [](ld x, ld y, ld z) { return x * 0.8660254L + y * 0.4321L + z * 0.25171L; };
    std::vector<std::pair<ld, size_t>> s; for (size_t i = 0; i < p.size(); ++i) s.push_back({proj(p[i][0], p[i][1], p[i][2]), i});
    std::sort(s.begin(), s.end());
    std::vector<char> used(p.size(), 0);
    for (auto& e : want) {
      const ld q = proj(e[0], e[1], e[2]); bool ok = false;
      for (auto it = std::lower_bound(s.begin(), s.end(), std::make_pair(q - 3 * h, size_t(0))); !ok && it != s.end() && it->first <= q + 3 * h; ++it) {
        const size_t i = it->second; if (used[i]) continue;
        ok = close(w[i], e[3], 64 * u, 0); for (int c = 0; c < 3; ++c) ok = ok && std::fabs(ld(p[i][c]) - e[c]) <= h;
        if (ok) used[i] = 1;
      }
      if (!ok) return cat("no point at (", e[0], ",", e[1], ",", e[2], ") with weight ", e[3]);
    }
    return "";
  }
  template <class RQ, class AQ> static void product_(const RQ& r, size_t b, size_t e, const AQ& a, const PT& c, std::vector<std::array<ld, 4>>& out) {
    for (size_t i = b; i < e; ++i) for (size_t j = 0; j < a.npts(); ++j) { const ld x = r.points()[i]; const auto& o = a.points()[j];
      out.push_back({x * o[0] + c[0], x * o[1] + c[1], x * o[2] + c[2], ld(r.weights()[i]) * a.weights()[j] * x * x}); }
  }
  template <class RQ, class AQ> static void run(const std::string& name, const std::vector<size_t>& as) {
    if (!begin(cat("spherical/", name, "<", type_name<T>(), ">"))) return;
    for (size_t na : as) for (size_t nr = 1; nr <= 6; ++nr) for (const PT& c : {PT{0, 0, 0}, PT{T(1), T(-2.5), T(0.75)}, PT{T(1) / 3, -T(2) / 7, T(10) / 11}}) {
      const RQ r(nr, 1.25); const AQ a(na), a2(as[0]);
      std::vector<std::array<ld, 4>> want, home; product_(r, 0, nr, a, c, want); product_(r, 0, nr, a, PT{0, 0, 0}, home);
      ld slack = 4; for (auto x : r.points()) slack = std::max<ld>(slack, 2 * std::fabs(ld(x)) + 4);
      const std::string k = cat(name, " ", nr, "x", na);
      const SphericalQuadrature<RQ, AQ> s(r, a, c);
      auto judge = [&](const char* what, const std::string& why) { MC_CHECK(why.empty(), k, ", ", what, ": ", why); ++n_trans; };
      judge("product", match_(s.points(), s.weights(), want, slack));
      auto cl = s.clone(); cl->recenter({0, 0, 0});
      judge("recentered clone", match_(cl->points(), cl->weights(), home, slack));
      cl->recenter(c); judge("clone recentered again", match_(cl->points(), cl->weights(), want, slack));
      if (nr > 1) {
        const size_t cut = nr / 2; std::vector<std::array<ld, 4>> un; product_(r, 0, cut, a2, c, un); product_(r, cut, nr, a, c, un);
        const PrunedSphericalQuadrature<RQ, AQ> p(r, RadialGridPartition<AQ>(r, 0, a2, cut, a), c);
        judge("pruned", match_(p.points(), p.weights(), un, slack));
        PrunedSphericalQuadrature<RQ, AQ> p0(r, RadialGridPartition<AQ>(r, 0, a2, cut, a)); p0.recenter(c);
        judge("pruned, recentered", match_(p0.points(), p0.weights(), un, slack));
      }
      for (size_t m : {1, 7, 64, 100000}) {
        Bat b(m, s); size_t n = 0; Pts bp; Wts bw; bool small = true, boxed = true;
        for (auto it = b.cbegin(); it != b.cend(); ++it) { auto [lo, up, pp, ww] = *it; small = small && pp.size() <= m && pp.size() > 0; n += pp.size();
          for (auto& x : pp) for (int d = 0; d < 3; ++d) boxed = boxed && lo[d] <= x[d] && x[d] <= up[d];
          bp.insert(bp.end(), pp.begin(), pp.end()); bw.insert(bw.end(), ww.begin(), ww.end()); }
        judge("batches", match_(bp, bw, want, slack)); MC_CHECK(small && boxed, k, ": batches of more than ", m, " points or outside their box");
        b.recenter({0, 0, 0}); judge("recentered batches", match_(b.points(), b.weights(), home, slack));
      }
      ++n_states;
    }
  }
};
template <class T> struct Tag { using type = T; };
template <class T> void spherical() {
  const auto each = [](auto tag, const std::string& a, const std::vector<size_t>& sizes) {
    using A = typename decltype(tag)::type;
    Sph<T>::template run<Becke<T, T>, A>("Becke x " + a, sizes); Sph<T>::template run<MurrayHandyLaming<T, T>, A>("MurrayHandyLaming x " + a, sizes);
    Sph<T>::template run<MuraKnowles<T, T>, A>("MuraKnowles x " + a, sizes); Sph<T>::template run<TreutlerAhlrichs<T, T>, A>("TreutlerAhlrichs x " + a, sizes);
  };
  each(Tag<LebedevLaikov<T>>{}, "LebedevLaikov", {6, 14, 26, 50}); each(Tag<Delley<T>>{}, "Delley", {14, 26, 50});
  each(Tag<AhrensBeylkin<T>>{}, "AhrensBeylkin", {72, 132}); each(Tag<Womersley<T>>{}, "Womersley", {6, 14, 32});
}
}  // namespace

int main(int argc, char** argv) {
  init(argc, argv);
  const size_t N = thorough() ? 400 : 160;
  rules<float, float>(N); rules<long double, long double>(N); rules<double, float>(N); rules<double, long double>(N); rules<long double, double>(N);
  spherical<float>(); spherical<long double>(); spherical<double>();
  count("states", n_states); count("transitions", n_trans);
  info("space", "10 rules of up to 160 (thorough 400) points in 5 combinations of point and weight types; spherical and pruned grids, recentering and batching for all 16 pairs of schemes in float, double and long double");
  sample("MuraKnowles<float> x AhrensBeylkin<float>(72), pruned, batched by 7");
  return finish();
}
