// C09: the map of (-1,1) to any interval, finite or not.
#include "oned.hpp"
#include <integratorxx/util/bound_transform.hpp>
using namespace mc;

namespace {
long long n_checks = 0;
template <class T> void maps() {
  const T inf = std::numeric_limits<T>::infinity();
  const ld u = std::numeric_limits<T>::epsilon();
  std::vector<T> ends = {-inf, T(-1000), T(-7.5), T(-2), T(-1), T(-0.25), T(0), T(0.5), T(1), T(3), T(42), T(1e4), inf};
  const T most = std::numeric_limits<T>::max(), least = std::numeric_limits<T>::min();
  for (T e : {-most / 4, T(-1e35), T(-1e30), T(-1e-30), -least * 1024, least * 1024, T(1e-30), T(1e30), T(1e35), most / 4}) ends.push_back(e);
  std::sort(ends.begin(), ends.end());
  for (size_t a = 0; a < ends.size(); ++a) for (size_t b = a + 1; b < ends.size(); ++b) {
    const T lo = ends[a], up = ends[b];
    if (std::isfinite(lo) && std::isfinite(up) && !(std::isfinite(up - lo) && std::isfinite(up + lo))) continue;
    if (!begin(cat("map/", type_name<T>(), "/", ld(lo), "..", ld(up)))) continue;
    const int N = thorough() ? 4000 : 500;
    ld prev = -std::numeric_limits<ld>::infinity();
    const bool li = std::isinf(lo), ui = std::isinf(up);
    for (int i = 1; i < N; ++i) {
      const T x = T(-1) + 2 * T(i) / N;
      auto [y, w] = transform_minus_one_to_one(lo, up, x, T(1));
      auto [y2, w2] = transform_minus_one_to_one(lo, up, x, T(0.375));
      const ld X = x, L = lo, U = up;
      const ld ey = !li && !ui ? (U - L) * X / 2 + (U + L) / 2 : li && ui ? X / ((1 - X) * (1 + X)) : ui ? L + (1 + X) / (1 - X) : U - (1 - X) / (1 + X);
      const ld ew = !li && !ui ? (U - L) / 2 : li && ui ? (1 + X * X) / ((1 - X * X) * (1 - X * X)) : ui ? 2 / ((1 - X) * (1 - X)) : 2 / ((1 + X) * (1 + X));
      const ld scale = (li ? 0 : std::fabs(L)) + (ui ? 0 : std::fabs(U)), cond = 32 * u * (1 + 1 / (1 - std::fabs(X)));
      MC_CHECK(close(y, ey, cond, 32 * u * scale), "node ", X, " goes to ", y, ", not ", ey);
      MC_CHECK(close(w, ew, cond, 0), "weight factor at ", X, " is ", w, ", not the derivative ", ew);
      MC_CHECK(y2 == y && close(w2, 0.375L * w, 8 * u, 0), "the weight factor at ", X, " depends on the weight");
      // as far as rounding resolves them
      const bool fine = (!li && !ui ? (U - L) / N : 1 / ld(N)) > 64 * u * scale;
      MC_CHECK(fine ? y > prev && y > lo && y < up : y >= prev && y >= lo && y <= up, "node ", X, " goes to ", y, ": out of order or outside the interval");
      prev = y; n_checks += 4; count("states");
    }
  }
}
// a rule mapped to an interval integrates over it
template <class T> void mapped() {
  const T inf = std::numeric_limits<T>::infinity();
  if (begin(cat("finite/", type_name<T>()))) for (size_t n = 1; n <= 24; ++n) {
    GaussLegendre<T, T> q(n);
    for (T lo : {T(-3), T(-1), T(0), T(0.5), T(2)}) for (T up : {T(-0.5), T(1), T(1.5), T(4)}) if (lo < up)
      for (size_t d = 0; d <= 2 * n - 1; ++d) {
        ld s = 0; for (size_t i = 0; i < n; ++i) { auto [x, w] = transform_minus_one_to_one(lo, up, q.points()[i], q.weights()[i]); s += ld(w) * std::pow(ld(x), ld(d)); }
        const ld e = (std::pow(ld(up), ld(d + 1)) - std::pow(ld(lo), ld(d + 1))) / (d + 1), m = std::pow(std::max(std::fabs(ld(lo)), std::fabs(ld(up))), ld(d + 1));
        MC_CHECK(std::fabs(s - e) <= unit<T>() * 512 * (d + 2) * m, "x^", d, " over [", lo, ",", up, "], ", n, " points: ", s, " instead of ", e);
        ++n_checks; count("states");
      }
  }
  if (begin(cat("infinite/", type_name<T>()))) for (size_t n : {80, 120, 200}) {
    GaussLegendre<T, T> q(n);
    auto integral = [&](T lo, T up, auto f) { ld s = 0; for (size_t i = 0; i < n; ++i) { auto [x, w] = transform_minus_one_to_one(lo, up, q.points()[i], q.weights()[i]); s += ld(w) * f(ld(x)); } return s; };
    const ld tol = 1e-7L;
    for (T c : {T(-2), T(-1), T(0), T(0.5), T(3)}) {
      auto e = integral(c, inf, [](ld x) { return std::exp(-x); });
      MC_CHECK(close(e, std::exp(-ld(c)), tol, 0), "exp(-x) over (", c, ",inf) is ", e);
      auto r = integral(c, inf, [c](ld x) { return 1 / ((x - c + 1) * (x - c + 1)); });
      MC_CHECK(close(r, 1, tol, 0), "1/(x-c+1)^2 over (", c, ",inf) is ", r);
      auto f = integral(-inf, c, [](ld x) { return std::exp(x); });
      MC_CHECK(close(f, std::exp(ld(c)), tol, 0), "exp(x) over (-inf,", c, ") is ", f);
      n_checks += 3; count("states", 3);
    }
    for (ld a : {0.5L, 1.0L, 2.0L}) {
      auto g = integral(-inf, inf, [a](ld x) { return std::exp(-a * x * x); });
      MC_CHECK(close(g, std::sqrt(PI / a), 1e-6L, 0), "exp(-", a, " x^2) over the real line is ", g);
      auto h = integral(-inf, inf, [a](ld x) { return x * std::exp(-a * x * x); });
      MC_CHECK(std::fabs(h) <= 1e-6L, "x exp(-", a, " x^2) over the real line is ", h);
      n_checks += 2; count("states", 2);
    }
  }
}
}  // namespace

int main(int argc, char** argv) {
  init(argc, argv);
  maps<double>(); maps<float>(); maps<long double>();
  mapped<double>(); mapped<long double>();
  count("transitions", n_checks);
  info("space", "all ordered pairs of 23 end points from nearly the least to nearly the largest numbers, including both infinities, 500 (thorough 4000) nodes, three types; mapped Gauss-Legendre rules on monomials and decaying functions");
  sample("(-inf, 3): node x goes to 3-(1-x)/(1+x), weight factor 2/(1+x)^2");
  return finish();
}
