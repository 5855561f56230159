// C07: the trapezoid rule on any interval.
#include "oned.hpp"
using namespace mc;

namespace {
template <class T> void all() {
  const ld u = std::numeric_limits<T>::epsilon();
  std::vector<T> ends = {T(-1e6), T(-1000.25), T(-3), T(-1), T(-0.5), T(-1e-3), T(0), T(1e-6), T(0.1), T(0.5), T(1), T(2), T(3.14159265358979323846L), T(100), T(1e5), T(-1e30), T(-1e-30), T(1e-30), T(1e12), T(1e30)};
  std::sort(ends.begin(), ends.end());
  std::vector<size_t> ns;
  for (size_t n = 2; n <= (thorough() ? 1500 : 400); ++n) ns.push_back(n);
  for (auto n : large_sizes(400, thorough() ? 100000 : 5000)) ns.push_back(n);
  for (auto n : huge_sizes()) ns.push_back(n);
  auto verify = [&](const auto& x, const auto& w, size_t n, T lo, T up, const std::string& k) {
    if (x.size() != n || w.size() != n) return violation_at(k, "wrong number of nodes or weights");
    const ld h = (ld(up) - ld(lo)) / (n - 1), scale = std::fabs(ld(lo)) + std::fabs(ld(up));
    const bool resolved = h > 32 * u * scale;
    for (size_t i = 0; i < n; ++i) {
      if (!(std::fabs(ld(x[i]) - (ld(lo) + i * h)) <= 16 * u * scale)) return violation_at(k, cat("n=", n, " on [", lo, ",", up, "]: node ", i, " is ", x[i], ", not ", ld(lo) + i * h));
      if (i && resolved && !(x[i] > x[i - 1])) return violation_at(k, cat("n=", n, ": nodes are not ascending at ", i));
      if (!close(w[i], (i == 0 || i == n - 1) ? h / 2 : h, 16 * u, 16 * u * scale / (n - 1))) return violation_at(k, cat("n=", n, " on [", lo, ",", up, "]: weight ", i, " is ", w[i], ", not ", (i == 0 || i == n - 1) ? h / 2 : h));
    }
    ld s = 0, s1 = 0;
    for (size_t i = 0; i < n; ++i) { s += w[i]; s1 += ld(w[i]) * x[i]; }
    if (!(std::fabs(s - (ld(up) - lo)) <= u * (64 + n) * scale)) violation_at(k, cat("n=", n, ": the constant integrates to ", s));
    if (!(std::fabs(s1 - (ld(up) * up - ld(lo) * lo) / 2) <= u * (128 + n) * scale * scale)) violation_at(k, cat("n=", n, ": x integrates to ", s1, " over [", lo, ",", up, "]"));
  };
  for (size_t a = 0; a < ends.size(); ++a) for (size_t b = a + 1; b < ends.size(); ++b) {
    const std::string k = cat("trapezoid/", type_name<T>(), "/", ld(ends[a]), "..", ld(ends[b]));
    if (!begin(k)) continue;
    parallel(ns.size(), [&](size_t i) {
      const auto how = outcome([&] { UniformTrapezoid<T, T> q(ns[i], ends[a], ends[b]); verify(q.points(), q.weights(), ns[i], ends[a], ends[b], cat(k, "#n=", ns[i])); });
      if (!how.empty()) violation_at(cat(k, "#n=", ns[i]), how);
    });
    count("states", ns.size()); count("transitions", ns.size() * 4);
  }
  // the interval [0,1] is the default
  if (begin(cat("default/", type_name<T>()))) for (auto n : ns) {
    auto [x, w] = quadrature_traits<UniformTrapezoid<T, T>>::generate(n);
    verify(x, w, n, T(0), T(1), rt().key);
    count("states"); count("transitions", 4);
  }
}
}  // namespace

int main(int argc, char** argv) {
  init(argc, argv);
  all<double>(); all<float>(); all<long double>();
  info("space", "n = 2..400 (thorough 1500) and selected larger n up to 300007, all ordered pairs of 20 end points up to 1e30, three floating-point types");
  sample("UniformTrapezoid<double>(n, -3, 0.1), n = 2..400");
  return finish();
}
