// C01: every angular grid integrates every real spherical harmonic up to its
// advertised algebraic order.  Exhaustive over family x size x (l,m).
#include "s2.hpp"
using namespace mc;

namespace {
// Normalised associated Legendre recursion coefficients, long double.
struct Coef {
  int L; std::vector<ld> c, d, f;
  explicit Coef(int L_) : L(L_), c((L + 1) * (L + 1)), d((L + 1) * (L + 1)), f(L + 1) {
    for (int m = 0; m <= L; ++m) {
      f[m] = std::sqrt((2.0L * m + 3) / (2.0L * m + 2));
      for (int l = m + 1; l <= L; ++l) {
        c[m * (L + 1) + l] = std::sqrt((4.0L * l * l - 1) / ((ld)l * l - (ld)m * m));
        d[m * (L + 1) + l] = l - 1 > m ? std::sqrt(((l - 1.0L) * (l - 1.0L) - (ld)m * m) / (4.0L * (l - 1) * (l - 1) - 1)) : 0;
      }
    }
  }
};

// S(l,m,cos/sin) = sum_i w_i Y_lm(p_i)
template <class P, class W>
std::vector<ld> harmonic_sums(const P& pts, const W& wts, int L, const Coef& k) {
  std::vector<ld> S((size_t)(L + 1) * (L + 1) * 2, 0);
  const int K = k.L + 1;
  for (size_t i = 0; i < pts.size(); ++i) {
    const ld x = pts[i][0], y = pts[i][1], z = pts[i][2], w = wts[i];
    const ld s = std::sqrt(x * x + y * y), cp = s > 0 ? x / s : 1, sp = s > 0 ? y / s : 0;
    ld pmm = std::sqrt(1 / (4 * PI)), cm = 1, sm = 0;
    for (int m = 0; m <= L; ++m) {
      ld a = pmm, b = 0; const ld wc = w * cm, ws = w * sm;
      ld* out = &S[(size_t)m * (L + 1) * 2];
      const ld *c = &k.c[m * K], *d = &k.d[m * K];
      out[m * 2] += a * wc; out[m * 2 + 1] += a * ws;
      for (int l = m + 1; l <= L; ++l) {
        const ld n = c[l] * (z * a - d[l] * b); b = a; a = n;
        out[l * 2] += a * wc; out[l * 2 + 1] += a * ws;
      }
      pmm *= -s * k.f[m];
      const ld t = cm * cp - sm * sp; sm = sm * cp + cm * sp; cm = t;
    }
  }
  return S;
}

template <class Fam> void family(Fam, ld tol) {
  using Q = typename Fam::template type<double>;
  using tr = quadrature_traits<Q>;
  auto sz = sizes<Fam>();
  std::reverse(sz.begin(), sz.end());   // largest first: balances the threads
  int Lmax = 0;
  for (auto n : sz) Lmax = std::max<int>(Lmax, (int)tr::algebraic_order_by_npts(n));
  Lmax = std::min(std::max(Lmax, 1), 400);
  Coef coef(Lmax);
  const bool all = rt().opt.only.empty();
  if (all && !begin(Fam::name)) return;
  alarm(600);
  std::atomic<long long> nharm{0}, npts{0}, ngrid{0};
  std::mutex m; ld worst = 0; std::string worst_at;
  parallel(sz.size(), [&](size_t i) {
    const auto n = sz[i];
    const std::string key = cat("exact/", Fam::name, "/", n);
    if (!all && rt().opt.only != key) return;
    std::vector<cartesian_pt_t<double>> P; std::vector<double> W;
    const auto how = outcome([&] { Q q(n); P = q.points(); W = q.weights(); });
    if (!how.empty()) { violation_at(key, cat("cannot be constructed: ", how)); return; }
    const int L = std::min<int64_t>(tr::algebraic_order_by_npts(n), Lmax);
    if (L < 1) { violation_at(key, "no advertised order"); return; }
    if (P.size() != (size_t)n || W.size() != (size_t)n) { violation_at(key, "wrong number of points"); return; }
    auto S = harmonic_sums(P, W, L, coef);
    ld ew = 0; for (auto w : W) ew += w;
    if (!close(ew, 4 * PI, 0, 4 * tol)) violation_at(key + "#sum", cat("weights sum to ", (double)ew, ", not 4 pi"));
    nharm += (long long)(L + 1) * (L + 1); npts += n; ++ngrid;
    ld gw = 0;
    for (int l = 0; l <= L; ++l) {
      ld e = 0; int em = 0;
      for (int mm = 0; mm <= l; ++mm) for (int c = 0; c < 2; ++c) {
        ld v = S[((size_t)mm * (L + 1) + l) * 2 + c];
        if (l == 0 && c == 0) v -= std::sqrt(4 * PI);
        if (!(std::fabs(v) <= e)) { e = std::isnan(v) ? 1e300L : std::fabs(v); em = c ? -mm : mm; }
      }
      gw = std::max(gw, e);
      if (e > tol) violation_at(cat(key, "#l=", l, ",err<1e", (int)std::ceil(std::log10(e))),
          cat("order-", L, " grid of ", n, " points: harmonic l=", l, " m=", em, " integrates with error ", (double)e));
    }
    std::lock_guard<std::mutex> g(m);
    if (gw > worst && gw < tol) { worst = gw; worst_at = cat(n, " points (order ", L, ")"); }
    if (i % 16 == 0) sample(cat(Fam::name, " n=", n, " order=", L, ": ", (L + 1) * (L + 1), " harmonics, largest error ", (double)gw));
  });
  count("states", ngrid); count("transitions", nharm);
  count("quadrature_points", npts);
  info(cat(Fam::name, " worst error within tolerance"), cat((double)worst, " at ", worst_at, ", tolerance ", (double)tol));
}
}  // namespace

int main(int argc, char** argv) {
  init(argc, argv);
  family(LL{}, 2e-13L); family(DE{}, 2e-13L); family(AB{}, 2e-11L); family(WO{}, 2e-13L);
  info("space", "every family, every size up to 20000 it supports, every (l,m) up to the advertised order");
  return finish();
}
