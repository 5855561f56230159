// C28: sub-quadratures are slices, and the generic product pairs every node with every node.
#include "sph.hpp"
using namespace mc;

namespace {
long long n_states = 0, n_trans = 0;
template <class Q> void slices(const std::string& name, const Q& q) {
  const auto P = q.points(); const auto W = q.weights();
  const size_t n = q.npts();
  for (size_t b = 0; b < n; ++b) for (size_t e = b + 1; e <= n; ++e) {
    const SubQuadrature<Q> s({b, e}, q);
    ++n_states; ++n_trans;
    if (s.npts() != e - b || s.points().size() != e - b || s.weights().size() != e - b) { violation(cat(name, " [", b, ",", e, ") of ", n, ": ", s.npts(), " points")); return; }
    if (!std::equal(s.points().begin(), s.points().end(), P.begin() + b) || !std::equal(s.weights().begin(), s.weights().end(), W.begin() + b)) { violation(cat(name, " [", b, ",", e, ") of ", n, ": not the slice")); return; }
    // slices of slices
    if (n <= 14 || (b % 3 == 0 && e % 4 == 0)) for (size_t c = 0; c < e - b; ++c) for (size_t d = c + 1; d <= e - b; d += (n > 14 ? 3 : 1)) {
      const SubQuadrature<SubQuadrature<Q>> t({c, d}, s); ++n_trans;
      if (t.npts() != d - c || !std::equal(t.points().begin(), t.points().end(), P.begin() + b + c) || !std::equal(t.weights().begin(), t.weights().end(), W.begin() + b + c)) { violation(cat(name, " [", c, ",", d, ") of [", b, ",", e, "): not the slice")); return; }
    }
  }
  // it owns its nodes: neither follows changes of the other
  Q o(q); SubQuadrature<Q> s({0, n}, o);
  for (auto& w : o.weights()) w = 77;
  MC_CHECK(std::equal(s.weights().begin(), s.weights().end(), W.begin()), name, ": a slice follows its origin");
  for (auto& w : s.weights()) w = 55;
  for (auto& w : o.weights()) MC_CHECK(w == 77, name, ": the origin follows a slice");
  MC_CHECK(q.points() == P && q.weights() == W, name, ": the origin was changed");
  n_trans += 3;
}
// ranges of a long rule around powers of two
template <class Q> void far(const std::string& name, const Q& q) {
  if (!begin("far/" + name)) return;
  const auto P = q.points(); const auto W = q.weights(); const size_t n = q.npts();
  std::set<size_t> at = {0, 1, n / 2, n - 1, n};
  for (size_t k : {255, 256, 257, 32767, 32768, 65535, 65536, 65537}) if (k <= n) at.insert(k);
  for (size_t b : at) for (size_t e : at) if (b < e) {
    const SubQuadrature<Q> s({b, e}, q); ++n_states; ++n_trans;
    MC_CHECK(s.npts() == e - b && s.points().size() == e - b && s.weights().size() == e - b && std::equal(s.points().begin(), s.points().end(), P.begin() + b) && std::equal(s.weights().begin(), s.weights().end(), W.begin() + b), name, " [", b, ",", e, ") of ", n, ": not the slice");
    for (size_t c : at) if (c < e - b) { const SubQuadrature<SubQuadrature<Q>> t({c, e - b}, s); ++n_trans;
      MC_CHECK(t.npts() == e - b - c && std::equal(t.points().begin(), t.points().end(), P.begin() + b + c), name, " [", c, ",", e - b, ") of [", b, ",", e, "): not the slice"); }
  }
}
template <class Make> void all(const std::string& name, const std::vector<size_t>& sizes, Make&& make) {
  if (begin("slice/" + name)) for (size_t n : sizes) slices(cat(name, "(", n, ")"), make(n));
}
std::vector<size_t> upto(size_t b, size_t n) { std::vector<size_t> v; for (size_t i = b; i <= n; ++i) v.push_back(i); return v; }

// an operation which keeps both arguments apart
struct Both { std::array<double, 2> operator()(const double& a, const double& b) { return {a, b}; } };
struct Minus { double operator()(const double& a, const double& b) { return a - 3 * b; } };
template <class A, class B> void pairs(const std::string& name, const A& a, const B& b) {
  using T = quadrature_traits<ProductQuadrature<Both, A, B>>;
  auto [p, w] = T::generate(a, b);
  using E = std::array<double, 4>;
  std::vector<E> got, want;
  if (p.size() != w.size()) return violation(cat(name, ": ", p.size(), " points and ", w.size(), " weights"));
  for (size_t i = 0; i < p.size(); ++i) got.push_back({p[i][0], p[i][1], w[i][0], w[i][1]});
  for (size_t i = 0; i < a.npts(); ++i) for (size_t j = 0; j < b.npts(); ++j) want.push_back({a.points()[i], b.points()[j], a.weights()[i], b.weights()[j]});
  std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end());
  MC_CHECK(got == want, name, ": the product does not pair every node of one with every node of the other");
  auto [q, v] = quadrature_traits<ProductQuadrature<Minus, A, B>>::generate(a, b);
  std::vector<std::array<double, 2>> g2, w2;
  for (size_t i = 0; i < q.size(); ++i) g2.push_back({q[i], v[i]});
  for (auto& e : want) w2.push_back({Minus{}(e[0], e[1]), Minus{}(e[2], e[3])});
  std::sort(g2.begin(), g2.end()); std::sort(w2.begin(), w2.end());
  MC_CHECK(g2 == w2, name, ": the product does not apply the operation given");
  n_trans += 2; ++n_states;
}
template <class RA, class RB> void products(const std::string& name, RA ma, RB mb) {
  if (begin("product/" + name)) for (size_t n = 1; n <= (thorough() ? 24 : 12); ++n) for (size_t m = 1; m <= (thorough() ? 24 : 12); ++m) pairs(cat(name, " ", n, "x", m), ma(n), mb(m));
}
}  // namespace

int main(int argc, char** argv) {
  init(argc, argv);
  const size_t N = thorough() ? 40 : 20;
  all("GaussLegendre", upto(1, N), [](size_t n) { return GaussLegendre<double, double>(n); });
  all("GaussLegendre<double,float>", upto(1, N), [](size_t n) { return GaussLegendre<double, float>(n); });
  all("GaussChebyshev3", upto(1, N), [](size_t n) { return GaussChebyshev3<double, double>(n); });
  all("UniformTrapezoid<float>", upto(2, N), [](size_t n) { return UniformTrapezoid<float, float>(n, -1, 1); });
  all("Becke", upto(1, N), [](size_t n) { return Becke<double, double>(n, 1.0); });
  all("MurrayHandyLaming", upto(1, N), [](size_t n) { return MurrayHandyLaming<double, double>(n, 1.0); });
  all("MuraKnowles<long double>", upto(1, N), [](size_t n) { return MuraKnowles<long double, long double>(n, 1.0); });
  all("TreutlerAhlrichs", upto(1, N), [](size_t n) { return TreutlerAhlrichs<double, double>(n, 1.0); });
  all("LebedevLaikov", {6, 14, 26, 38, 50}, [](size_t n) { return LebedevLaikov<double>(n); });
  all("Womersley", {6, 14, 26, 32, 50}, [](size_t n) { return Womersley<double>(n); });
  all("AhrensBeylkin<float>", {72}, [](size_t n) { return AhrensBeylkin<float>(n); });
  all("Delley", {14, 26}, [](size_t n) { return Delley<double>(n); });
  all("SphericalQuadrature", upto(1, 5), [](size_t n) { return SphericalQuadrature<Becke<double, double>, LebedevLaikov<double>>(Becke<double, double>(n, 1.0), LebedevLaikov<double>(6), P3{0, 1, 2}); });
  products("GaussLegendre x Becke", [](size_t n) { return GaussLegendre<double, double>(n); }, [](size_t n) { return Becke<double, double>(n, 1.0); });
  products("GaussLegendre x GaussLegendre", [](size_t n) { return GaussLegendre<double, double>(n); }, [](size_t n) { return GaussLegendre<double, double>(n); });
  if (begin("product/with itself")) for (size_t n = 1; n <= (thorough() ? 60 : 24); ++n) {
    const GaussLegendre<double, double> g(n); pairs(cat("GaussLegendre ", n, " with itself"), g, g); const Becke<double, double> b(n, 1.5); pairs(cat("Becke ", n, " with itself"), b, b);
    auto h = g; for (auto& w : h.weights()) w *= 3; pairs(cat("GaussLegendre ", n, " with its edited copy"), g, h); h.points()[0] = 7; pairs(cat("GaussLegendre ", n, " with its moved copy"), h, g);
  }
  products("MuraKnowles x GaussChebyshev1", [](size_t n) { return MuraKnowles<double, double>(n, 2.0); }, [](size_t n) { return GaussChebyshev1<double, double>(n); });
  products("slice x slice", [](size_t n) { return SubQuadrature<Becke<double, double>>({2, 2 + n}, Becke<double, double>(30, 1.0)); }, [](size_t n) { return SubQuadrature<GaussLegendre<double, double>>({1, 1 + n}, GaussLegendre<double, double>(26)); });
  far("Becke", Becke<double, double>(70001, 1.0)); far("LebedevLaikov", LebedevLaikov<double>(5810)); far("GaussChebyshev1<float>", GaussChebyshev1<float, float>(70001));
  if (begin("product/large")) { pairs("large 300x300", Becke<double, double>(300, 1.0), GaussChebyshev1<double, double>(300)); pairs("large 2x70001", GaussLegendre<double, double>(2), Becke<double, double>(70001, 1.0)); pairs("large 70001x2", Becke<double, double>(70001, 1.0), GaussLegendre<double, double>(2)); }
  count("states", n_states); count("transitions", n_trans);
  info("space", "every range of rules of 1..20 (thorough 40) points of 13 types, and slices of slices; products of 1..12 (24) by 1..12 points of another type, the same type or the same object, with an operation that keeps its arguments apart and with an asymmetric one; ranges of rules of 70001 points around powers of two, products of up to 140002 pairs");
  sample("LebedevLaikov(26) [3,17): the 14 points and weights 3..16");
  return finish();
}
