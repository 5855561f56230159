// C05: Gauss-Legendre and Gauss-Lobatto rules are the Gauss rules, for every number of points.
#include "oned.hpp"
using namespace mc;

namespace {
std::atomic<long long> n_moments{0};
std::mutex worst_mtx; std::map<std::string, ld> worst;

// sum_i w_i P_k(x_i) = 2 delta_k0 for every k up to `degree`
template <class Q> void moments(const Q& q, size_t degree, const std::string& k, ld tol, const char* tag) {
  const size_t n = q.npts();
  if (n > 32768) degree = 200;   // the first ones
  std::vector<ld> x(n), pm(n, 0), p(n, 1), w(n);
  for (size_t i = 0; i < n; ++i) { x[i] = q.points()[i]; w[i] = q.weights()[i]; }
  ld bad = 0; size_t bad_l = 0;
  for (size_t l = 0; l <= degree; ++l) {
    ld s = 0;
    for (size_t i = 0; i < n; ++i) s += w[i] * p[i];
    const ld err = std::fabs(s - (l == 0 ? 2 : 0));
    if (!(err <= bad)) { bad = err; bad_l = l; }
    for (size_t i = 0; i < n; ++i) { const ld t = ((2 * l + 1) * x[i] * p[i] - l * pm[i]) / (l + 1); pm[i] = p[i]; p[i] = t; }
  }
  n_moments += degree + 1;
  { std::lock_guard<std::mutex> g(worst_mtx); auto& m = worst[tag]; m = std::max(m, bad / tol); }
  if (!(bad <= tol)) violation_at(k, cat("Legendre polynomial of degree ", bad_l, " integrates with error ", bad, " (rule must be exact up to ", degree, ")"));
}

// generation takes quadratic time
std::vector<size_t> huge() { if (sanitized) return {}; if (thorough()) return {12345, 16411, 20011, 32768, 65536, 65537, 70001}; return {12345, 20011, 65537}; }

template <class T> void legendre() {
  auto f = [](size_t n, const std::string& k) {
    GaussLegendre<T, T> q(n);
    if (!shape(q, n, k, -1, 1, true)) return;
    symmetric(q, k, 64 * unit<T>());
    moments(q, 2 * n - 1, k, unit<T>() * (256 + 8 * n), type_name<T>());
  };
  const bool fl = std::is_same_v<T, float>;
  const size_t N = fl ? (thorough() ? 1500 : 500) : thorough() ? 2048 : 768;
  sweep(cat("GaussLegendre/", type_name<T>()), 1, N, f);
  if (!fl) sweep_list(cat("GaussLegendre/", type_name<T>()), large_sizes(N, thorough() ? 8200 : 2100), f);
  if (std::is_same_v<T, double>) sweep_list(cat("GaussLegendre/", type_name<T>()), huge(), f, "/huge");
}
template <class T> void lobatto() {
  auto f = [](size_t n, const std::string& k) {
    GaussLobatto<T, T> q(n);
    if (!shape(q, n, k, -1, 1, false)) return;
    if (q.points().front() != T(-1) || q.points().back() != T(1)) violation_at(k, "the end points of the interval are not nodes");
    symmetric(q, k, 64 * unit<T>());
    moments(q, n == 2 ? 1 : 2 * n - 3, k, unit<T>() * (256 + 8 * n), type_name<T>());
  };
  const bool fl = std::is_same_v<T, float>;
  const size_t N = fl ? (thorough() ? 1500 : 500) : thorough() ? 2048 : 768;
  sweep(cat("GaussLobatto/", type_name<T>()), 2, N, f);
  if (!fl) sweep_list(cat("GaussLobatto/", type_name<T>()), large_sizes(N, thorough() ? 8200 : 2100), f);
  if (std::is_same_v<T, double>) sweep_list(cat("GaussLobatto/", type_name<T>()), huge(), f, "/huge");
}
}  // namespace

int main(int argc, char** argv) {
  init(argc, argv);
  legendre<double>(); legendre<float>(); legendre<long double>();
  lobatto<double>(); lobatto<float>(); lobatto<long double>();
  count("transitions", n_moments);

  for (auto& [t, m] : worst) info(cat("largest error / tolerance, ", t), cat(double(m)));
  info("space", "every n: Legendre 1..768, Lobatto 2..768 (thorough 2048) and selected n up to 2100 (8200) in double and long double, 3 (7) up to 65537 (70001) in double (from 32768 the first 200 degrees); n <= 500 (1500) in float; every degree the rule must integrate");
  sample("GaussLegendre<double>(n), n=1..768: sum w P_k = 2 delta_k0 for k = 0..2n-1");
  return finish();
}
