// C06: the Gauss-Chebyshev rules, for every number of points.
#include "oned.hpp"
using namespace mc;

namespace {
std::atomic<long long> n_moments{0};
std::mutex worst_mtx; std::map<std::string, ld> worst;
void judge(const std::string& k, const char* tag, ld err, ld tol, size_t deg) {
  { std::lock_guard<std::mutex> g(worst_mtx); auto& m = worst[tag]; m = std::max(m, err / tol); }
  if (!(err <= tol)) violation_at(k, cat(tag, ": polynomial of degree ", deg, " integrates with error ", err));
}
// sum_i W_i T_k(y_i) against expect(k), k <= degree; `second`: U_k instead of T_k
template <class E> void cheb_moments(const std::vector<ld>& y, const std::vector<ld>& W, size_t degree, bool second, E&& expect, const std::string& k, const char* tag, ld tol) {
  const size_t n = y.size();
  if (n > 20000) degree = 24;   // the first ones
  std::vector<ld> a(n, 1), b(n);
  for (size_t i = 0; i < n; ++i) b[i] = second ? 2 * y[i] : y[i];
  ld bad = 0; size_t bad_d = 0;
  for (size_t d = 0; d <= degree; ++d) {
    ld s = 0;
    for (size_t i = 0; i < n; ++i) s += W[i] * a[i];
    const ld e = std::fabs(s - expect(d)) / (second ? d + 1 : 1);
    if (!(e <= bad)) { bad = e; bad_d = d; }
    for (size_t i = 0; i < n; ++i) { const ld c = 2 * y[i] * b[i] - a[i]; a[i] = b[i]; b[i] = c; }
  }
  n_moments += degree + 1;
  judge(k, tag, bad, tol, bad_d);
}
template <class T> size_t all_n() { return std::is_same_v<T, float> ? 200 : thorough() ? 2048 : 640; }
template <class T> size_t big_n() { return std::is_same_v<T, float> ? 0 : thorough() ? 8200 : 2100; }
template <class T, class F> void run(const char* name, F&& f) {
  const std::string nm = cat(name, "/", type_name<T>());
  sweep(nm, 1, all_n<T>(), f);
  sweep_list(nm, large_sizes(all_n<T>(), big_n<T>()), f);
  if (!std::is_same_v<T, float>) sweep_list(nm, huge_sizes(), f, "/huge");
}
// weights relative to the closed form w = c * s(theta), and nodes to x(theta)
template <class Q, class X, class W> void closed_form(const Q& q, const std::string& k, X&& x, W&& w, ld tol) {
  const size_t n = q.npts();
  for (size_t i = 0; i < n; ++i) {
    if (!(std::fabs(ld(q.points()[i]) - x(i)) <= tol)) return violation_at(k, cat("node ", i, " is ", q.points()[i], ", not ", x(i)));
    if (!(std::fabs(ld(q.weights()[i]) - w(i)) <= tol)) return violation_at(k, cat("weight ", i, " is ", q.weights()[i], ", not ", w(i)));
  }
}

template <class T> void all() {
  const ld u = unit<T>();
  run<T>("GaussChebyshev1", [u](size_t n, const std::string& k) {
    GaussChebyshev1<T, T> q(n);
    if (!shape(q, n, k, -1, 1, true)) return;
    symmetric(q, k, 64 * u);
    std::vector<ld> y(n), W(n);
    for (size_t i = 0; i < n; ++i) { y[i] = q.points()[i]; W[i] = q.weights()[i] / std::sqrt(1 - y[i] * y[i]); }
    cheb_moments(y, W, 2 * n - 1, false, [](size_t d) { return d ? 0 : PI; }, k, "GaussChebyshev1", u * (64 + 64 * n));
    closed_form(q, k, [n](size_t i) { return -std::cos((2 * ld(i) + 1) * PI / (2 * n)); },
                [n](size_t i) { return PI / n * std::sin((2 * ld(i) + 1) * PI / (2 * n)); }, 64 * u);
  });
  run<T>("GaussChebyshev2", [u](size_t n, const std::string& k) {
    GaussChebyshev2<T, T> q(n);
    if (!shape(q, n, k, -1, 1, true)) return;
    symmetric(q, k, 64 * u);
    std::vector<ld> y(n), W(n);
    for (size_t i = 0; i < n; ++i) { y[i] = q.points()[i]; W[i] = q.weights()[i] * std::sqrt(1 - y[i] * y[i]); }
    cheb_moments(y, W, 2 * n - 1, true, [](size_t d) { return d ? 0 : PI / 2; }, k, "GaussChebyshev2", u * (64 + 16 * n));
    closed_form(q, k, [n](size_t i) { return -std::cos(ld(i + 1) * PI / (n + 1)); },
                [n](size_t i) { return PI / (n + 1) * std::sin(ld(i + 1) * PI / (n + 1)); }, 64 * u);
  });
  run<T>("GaussChebyshev3", [u](size_t n, const std::string& k) {
    GaussChebyshev3<T, T> q(n);
    if (!shape(q, n, k, 0, 1, true)) return;
    std::vector<ld> y(n), W(n);
    for (size_t i = 0; i < n; ++i) { const ld x = q.points()[i]; y[i] = 2 * x - 1; W[i] = q.weights()[i] * std::sqrt(x / (1 - x)); }
    cheb_moments(y, W, 2 * n - 1, false, [](size_t d) { return d == 0 ? PI / 2 : d == 1 ? PI / 4 : 0; }, k, "GaussChebyshev3", u * (64 + 64 * n));
    closed_form(q, k, [n](size_t i) { const ld c = std::cos((2 * ld(n - i) - 1) * PI / (2 * (2 * n + 1))); return c * c; },
                [n](size_t i) { const ld t = (2 * ld(n - i) - 1) * PI / (2 * (2 * n + 1)); return 2 * PI / (2 * n + 1) * std::cos(t) * std::sin(t); }, 64 * u);
  });
  run<T>("GaussChebyshev2Modified", [u](size_t n, const std::string& k) {
    GaussChebyshev2Modified<T, T> q(n);
    // the outer nodes of this rule approach the end points like n^-5 and may round to them
    const bool resolved = !std::is_same_v<T, float> && n <= 1000;
    if (n <= 20000 ? !shape(q, n, k, -1, 1, resolved, resolved) : q.npts() != n || q.points().size() != n || q.weights().size() != n) return q.npts() == n ? void() : violation_at(k, "wrong number of points");
    symmetric(q, k, 256 * u);
    // Perez-Jorda, Becke, San-Fabian 1994, equations 32 and 33
    closed_form(q, k, [n](size_t i) { const ld t = ld(n - i) * PI / (n + 1), s = std::sin(t), c = std::cos(t);
                  return 1 - 2 * ld(n - i) / (n + 1) + 2 / PI * (1 + 2.0L / 3 * s * s) * c * s; },
                [n](size_t i) { const ld s = std::sin(ld(n - i) * PI / (n + 1)); return 16.0L / 3 / (n + 1) * s * s * s * s; }, 256 * u);
    ld s0 = 0, s1 = 0;
    for (size_t i = 0; i < n; ++i) { s0 += q.weights()[i]; s1 += q.weights()[i] * std::exp(ld(q.points()[i])); }
    if (n >= 2) judge(k, "GaussChebyshev2Modified", std::fabs(s0 - 2), u * (64 + 8 * n), 0);
    if (n >= 64) judge(k, "GaussChebyshev2Modified, exponential", std::fabs(s1 - (std::exp(1.0L) - std::exp(-1.0L))), 1e-9L + u * (64 + 16 * n), 0);
    n_moments += 2;
  });
}
}  // namespace

int main(int argc, char** argv) {
  init(argc, argv);
  all<double>(); all<float>(); all<long double>();
  count("transitions", n_moments);

  for (auto& [t, m] : worst) info(cat("largest error / tolerance, ", t), cat(double(m)));
  info("space", "every n: 1..640 (thorough 2048), selected n up to 2100 (8200) and 6 up to 300007 (first 25 degrees), in double and long double; n <= 200 in float; every degree the rule must integrate");
  sample("GaussChebyshev1<double>(n): sum w/sqrt(1-x^2) T_k = pi delta_k0 for k = 0..2n-1");
  return finish();
}
