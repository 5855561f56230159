// C08: radial quadratures are the mapped base rules, with the Jacobian in the weights.
#include "oned.hpp"
#include <integratorxx/quadratures/radial.hpp>
using namespace mc;

namespace {
std::atomic<long long> n_checks{0};

struct Ref { ld r, w, cond; };   // node, weight, condition number of the map at the base node

// The published rules, in long double.
struct BeckeRef { static constexpr const char* name = "Becke";
  static Ref at(size_t i, size_t n, ld R, ld) { const ld t = ld(n - i) * PI / (n + 1), x = std::cos(t), w = PI / (n + 1) * std::sin(t);
    return {R * (1 + x) / (1 - x), w * R * 2 / ((1 - x) * (1 - x)), 1 / (1 - x) + 1 / (1 + x)}; } };
struct TARef { static constexpr const char* name = "TreutlerAhlrichs";
  static Ref at(size_t i, size_t n, ld R, ld al) { const ld t = ld(n - i) * PI / (n + 1), x = std::cos(t), w = PI / (n + 1) * std::sin(t);
    const ld L = std::log(2 / (1 - x)), P = std::pow(1 + x, al) / std::log(2.0L);
    return {R * P * L, w * R * P * (al * L / (1 + x) + 1 / (1 - x)), 1 / (1 - x) + 1 / (1 + x)}; } };
template <size_t M> struct MHLRef { static constexpr const char* name = M == 1 ? "MHL<1>" : M == 2 ? "MurrayHandyLaming" : M == 3 ? "MHL<3>" : "MHL<4>";
  static Ref at(size_t i, size_t n, ld R, ld) { const ld x = ld(i + 1) / (n + 1), w = 1.0L / (n + 1);
    return {R * std::pow(x / (1 - x), ld(M)), w * R * M * std::pow(x, ld(M) - 1) / std::pow(1 - x, ld(M) + 1), 1 / (1 - x) + 1 / x}; } };
struct MKRef { static constexpr const char* name = "MuraKnowles";
  static Ref at(size_t i, size_t n, ld R, ld) { const ld x = ld(i + 1) / (n + 1), w = 1.0L / (n + 1);
    return {-R * std::log1p(-x * x * x), w * R * 3 * x * x / (1 - x * x * x), 1 / (1 - x * x * x) + 1 / (x * x * x)}; } };

template <class Ref_, class Q> void against(const Q& q, size_t n, ld R, ld al, const std::string& k) {
  const bool resolved = n <= 100003;   // the first nodes round to zero then
  if (!shape(q, n, k, 0, std::numeric_limits<ld>::infinity(), resolved, resolved)) return;
  for (size_t i = 0; i < n; ++i) {
    const Ref f = Ref_::at(i, n, R, al);
    const ld tol = 64 * unit<double>() * (4 + f.cond);
    if (!close(q.points()[i], f.r, tol, 0)) return violation_at(k, cat("n=", n, " R=", R, ": node ", i, " is ", q.points()[i], ", not ", f.r));
    if (!close(q.weights()[i], f.w, tol, 0)) return violation_at(k, cat("n=", n, " R=", R, ": weight ", i, " is ", q.weights()[i], ", not ", f.w));
  }
  n_checks += n;
}

const std::vector<double> SCALES = {1.0, 0.5, 2.0, 0.1, 1.7, 5.0, 7.0, 1e-3, 1e3};

const std::vector<double> FAR_SCALES = {1e-100, 1e-30, 1e-13, 1e-10, 1e-7, 1e-5, 1e5, 1e7, 1e10, 1e16, 1e30, 1e100};

template <class Q, class Ref_, class Make> void rule(const char* type, ld al, const std::string& tag, Make&& make) {
  const std::string nm = cat(Ref_::name, tag, "/", type);
  const size_t N = thorough() ? 1024 : 320;
  auto f = [&](size_t n, const std::string& k) {
    for (double R : SCALES) against<Ref_>(make(n, R), n, R, al, k);
  };
  sweep(nm, 1, N, f);
  // scales far from one
  sweep(nm + "/far scales", 1, thorough() ? 200 : 60, [&](size_t n, const std::string& k) { for (double R : FAR_SCALES) against<Ref_>(make(n, R), n, R, al, k); });
  sweep_list(nm, large_sizes(N, thorough() ? 5000 : 2100), f);
  sweep_list(nm, huge_sizes(), f, "/huge");
}

// the public map of a radial scheme: increasing, and its Jacobian is its derivative
template <class Traits> void map_of(const std::string& name, const Traits& t, double lo, ld R) {
  if (!begin("map/" + name)) return;
  const int N = thorough() ? 20000 : 2000;
  ld prev = -1;
  for (int i = 1; i < N; ++i) {
    const ld x = lo + (1 - lo) * ld(i) / N, edge = std::min(x - lo, 1 - x), h = edge * 0.05L;
    const ld r = t.radial_transform(x), J = t.radial_jacobian(x);
    auto F = [&](ld y) -> ld { return t.radial_transform(y); };
    // three-level Richardson extrapolation of the central difference
    ld D[5][5];
    for (int a = 0; a < 5; ++a) { const ld hh = h / std::pow(2.0L, a); D[a][0] = (F(x + hh) - F(x - hh)) / (2 * hh);
      for (int b = 1; b <= a; ++b) D[a][b] = D[a][b - 1] + (D[a][b - 1] - D[a - 1][b - 1]) / (std::pow(4.0L, b) - 1); }
    const ld err = 1e-16L * std::max(std::fabs(r), R * ld(1e-4)) / h * 64;
    MC_CHECK(close(J, D[4][4], 1e-8L, err), name, ": Jacobian at ", x, " is ", J, " but the derivative is ", D[4][4]);
    MC_CHECK(r > prev, name, ": map is not increasing at ", x);
    prev = r; n_checks += 2;
  }
  count("states", N - 1);
}

// int_0^inf f(r) dr converges with n
template <class Make> void integrals(const std::string& name, std::vector<double> scales, Make&& make) {
  if (!begin("integral/" + name)) return;
  for (double R : scales) for (size_t n = 100; n <= 400; n += (thorough() ? 1 : 7)) for (double a : {1.0, 3.0}) {
    auto q = make(n, R);
    ld g2 = 0, e2 = 0, g4 = 0;
    for (size_t i = 0; i < n; ++i) { const ld r = q.points()[i], w = q.weights()[i];
      g2 += w * r * r * std::exp(-a * r * r); e2 += w * r * r * std::exp(-a * r); g4 += w * r * r * r * r * std::exp(-a * r * r); }
    MC_CHECK(close(g2, std::sqrt(PI) / 4 / std::pow(ld(a), 1.5L), 2e-5L, 0), name, " n=", n, " R=", R, ": r^2 exp(-", a, " r^2) integrates to ", g2);
    MC_CHECK(close(e2, 2 / std::pow(ld(a), 3.0L), 2e-5L, 0), name, " n=", n, " R=", R, ": r^2 exp(-", a, " r) integrates to ", e2);
    MC_CHECK(close(g4, 3 * std::sqrt(PI) / 8 / std::pow(ld(a), 2.5L), 2e-5L, 0), name, " n=", n, " R=", R, ": r^4 exp(-", a, " r^2) integrates to ", g4);
    n_checks += 3; count("states");
  }
}

template <class T> void all() {
  const char* ty = type_name<T>();
  rule<Becke<T, T>, BeckeRef>(ty, 0, "", [](size_t n, double R) { return Becke<T, T>(n, R); });
  rule<MurrayHandyLaming<T, T>, MHLRef<2>>(ty, 0, "", [](size_t n, double R) { return MurrayHandyLaming<T, T>(n, R); });
  rule<MuraKnowles<T, T>, MKRef>(ty, 0, "", [](size_t n, double R) { return MuraKnowles<T, T>(n, R); });
  rule<TreutlerAhlrichs<T, T>, TARef>(ty, 0.6, "", [](size_t n, double R) { return TreutlerAhlrichs<T, T>(n, R); });
#ifdef MC_SANITIZED
  for (double al : {0.0, 0.5, 1.0, 2.0})
#else
  for (double al : {0.0, 1e-9, 0.05, 0.3, 0.5, 0.6, 0.6 + 1e-9, 1.0, 1.5, 2.0})
#endif
    rule<TreutlerAhlrichs<T, T>, TARef>(ty, al, cat(" alpha=", al), [al](size_t n, double R) { return TreutlerAhlrichs<T, T>(n, R, al); });
}
template <size_t M> using MHLM = RadialTransformQuadrature<UniformTrapezoid<double, double>, MurrayHandyLamingRadialTraits<M>>;

// the same rule whichever way it is asked for
template <class Q, class Traits> void routes(const std::string& name) {
  if (!begin("routes/" + name)) return;
  auto same = [&](const Q& a, const Q& b, const char* what) { MC_CHECK(a.points() == b.points() && a.weights() == b.weights(), name, ": ", what, " gives a different rule"); n_checks += 1; };
  for (size_t n = 1; n <= 120; ++n) {
    for (double R : SCALES) {
      const Traits t(n, R); const RadialTraits& b = t; const Q ref(n, R);
      same(Q(t), ref, "construction from the traits");
      same(Q(b), ref, "construction from the base traits");
      same(Q(*t.clone()), ref, "construction from cloned traits");
      const Q copy(ref); same(copy, ref, "a copy");
      MC_CHECK(t.npts() == n && b.npts() == n, "traits report ", t.npts(), " points instead of ", n);
      count("states");
    }
    same(Q(Traits(n)), Q(n, 1.0), "the default scale");
  }
}
}  // namespace

int main(int argc, char** argv) {
  init(argc, argv);
  all<double>(); all<long double>();
  rule<MHLM<1>, MHLRef<1>>("double", 0, "", [](size_t n, double R) { return MHLM<1>(n, R); });
  rule<MHLM<3>, MHLRef<3>>("double", 0, "", [](size_t n, double R) { return MHLM<3>(n, R); });
  rule<MHLM<4>, MHLRef<4>>("double", 0, "", [](size_t n, double R) { return MHLM<4>(n, R); });
  for (double R : {1.0, 0.3, 4.0}) {
    map_of(cat("Becke R=", R), BeckeRadialTraits(5, R), -1, R);
    map_of(cat("MuraKnowles R=", R), MuraKnowlesRadialTraits(5, R), 0, R);
    map_of(cat("MHL<1> R=", R), MurrayHandyLamingRadialTraits<1>(5, R), 0, R);
    map_of(cat("MHL<2> R=", R), MurrayHandyLamingRadialTraits<2>(5, R), 0, R);
    map_of(cat("MHL<3> R=", R), MurrayHandyLamingRadialTraits<3>(5, R), 0, R);
    for (double al : {0.0, 0.3, 0.6, 1.0}) map_of(cat("TreutlerAhlrichs R=", R, " alpha=", al), TreutlerAhlrichsRadialTraits(5, R, al), -1, R);
  }
  integrals("Becke", {0.5, 1.0, 2.0}, [](size_t n, double R) { return Becke<double, double>(n, R); });
  integrals("MurrayHandyLaming", {0.5, 1.0, 2.0}, [](size_t n, double R) { return MurrayHandyLaming<double, double>(n, R); });
  integrals("MuraKnowles", {5.0, 7.0}, [](size_t n, double R) { return MuraKnowles<double, double>(n, R); });
  integrals("TreutlerAhlrichs", {2.0, 4.0}, [](size_t n, double R) { return TreutlerAhlrichs<double, double>(n, R); });
  routes<Becke<double, double>, BeckeRadialTraits>("Becke");
  routes<MurrayHandyLaming<double, double>, MurrayHandyLamingRadialTraits<2>>("MurrayHandyLaming");
  routes<MuraKnowles<double, double>, MuraKnowlesRadialTraits>("MuraKnowles");
  routes<TreutlerAhlrichs<double, double>, TreutlerAhlrichsRadialTraits>("TreutlerAhlrichs");
  count("transitions", n_checks);
  info("space", "n = 1..320 (thorough 1024) and selected n up to 2100 (5000) and 6 up to 300007, 9 scale factors (n to 60: 12 more from 1e-100 to 1e100), 10 values of alpha, MHL exponents 1..4, double and long double; maps on 2000 points");
  sample("TreutlerAhlrichs(n, R, 0.3) for n = 1..320 and 9 R: every node and weight against equations 18/19 in long double");
  return finish();
}
