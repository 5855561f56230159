// C02: geometry of the angular grids.  Exhaustive over family x size x point x
// precision; distinctness over all pairs of points; symmetry over every
// operation of the family's point group.
#include "s2.hpp"
#include "c02.hpp"
using namespace mc;

namespace {
using V = std::array<ld, 3>;
using M = std::array<V, 3>;

// sorted-by-z index to find points near a position
struct Finder {
  std::vector<std::pair<ld, size_t>> z; const std::vector<V>& p;
  explicit Finder(const std::vector<V>& p_) : p(p_) { for (size_t i = 0; i < p.size(); ++i) z.push_back({p[i][2], i}); std::sort(z.begin(), z.end()); }
  // nearest within eps, or -1
  long find(const V& q, ld eps) const {
    auto it = std::lower_bound(z.begin(), z.end(), std::make_pair(q[2] - eps, size_t(0)));
    for (; it != z.end() && it->first <= q[2] + eps; ++it) {
      const V& r = p[it->second];
      if (std::fabs(r[0] - q[0]) <= eps && std::fabs(r[1] - q[1]) <= eps) return (long)it->second;
    }
    return -1;
  }
};

V mul(const M& a, const V& v) { V r; for (int i = 0; i < 3; ++i) r[i] = a[i][0] * v[0] + a[i][1] * v[1] + a[i][2] * v[2]; return r; }
M mul(const M& a, const M& b) { M r; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { r[i][j] = 0; for (int k = 0; k < 3; ++k) r[i][j] += a[i][k] * b[k][j]; } return r; }
M rot(V u, ld t) {
  ld n = std::sqrt(u[0] * u[0] + u[1] * u[1] + u[2] * u[2]); for (auto& x : u) x /= n;
  ld c = std::cos(t), s = std::sin(t), o = 1 - c;
  return {{{c + u[0] * u[0] * o, u[0] * u[1] * o - u[2] * s, u[0] * u[2] * o + u[1] * s},
           {u[1] * u[0] * o + u[2] * s, c + u[1] * u[1] * o, u[1] * u[2] * o - u[0] * s},
           {u[2] * u[0] * o - u[1] * s, u[2] * u[1] * o + u[0] * s, c + u[2] * u[2] * o}}};
}
// the finite group generated by g
std::vector<M> group(const std::vector<M>& gens) {
  std::vector<M> G{{{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}}};
  for (size_t i = 0; i < G.size() && G.size() < 200; ++i) for (auto& g : gens) {
    M h = mul(g, G[i]); bool known = false;
    for (auto& k : G) { ld d = 0; for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) d = std::max(d, std::fabs(h[a][b] - k[a][b])); known |= d < 1e-6L; }
    if (!known) G.push_back(h);
  }
  return G;
}

void check(int fam, const char* name, int64_t n, const std::vector<M>& sym, long long& trans) {
  const std::string key = cat("geometry/", name, "/", n);
  Grid d, f, l;
  const auto how = outcome([&] { d = grid_d(fam, n); f = grid_f(fam, n); l = grid_l(fam, n); });
  if (!how.empty()) { violation_at(key, "cannot be constructed: " + how); return; }
  for (auto* g : {&d, &f, &l}) if (g->npts != (size_t)n || g->p.size() != (size_t)n || g->w.size() != (size_t)n) {
    violation_at(key, cat("has ", g->p.size(), " points, ", g->w.size(), " weights, npts ", g->npts)); return; }
  ld wmax = 0; for (auto w : d.w) wmax = std::max(wmax, std::fabs(w));
  for (int64_t i = 0; i < n; ++i) {
    const auto& p = d.p[i];
    const ld r = std::sqrt(p[0] * p[0] + p[1] * p[1] + p[2] * p[2]);
    if (!(std::fabs(r - 1) < 5e-14L)) { violation_at(key, cat("point ", i, " has norm ", (double)r)); return; }
    if (!std::isfinite(d.w[i]) || d.w[i] == 0) { violation_at(key, cat("weight ", i, " is ", (double)d.w[i])); return; }
    for (int c = 0; c < 3; ++c) {
      if (!close(f.p[i][c], p[c], 3e-7L, 1e-12L)) { violation_at(key, cat("point ", i, " differs in single precision: ", (double)f.p[i][c], " for ", (double)p[c])); return; }
      if (!close(l.p[i][c], p[c], 4e-16L, 1e-16L)) { violation_at(key, cat("point ", i, " differs in extended precision")); return; }
    }
    if (!close(f.w[i], d.w[i], 6e-7L, 0)) { violation_at(key, cat("weight ", i, " differs in single precision: ", (double)f.w[i], " for ", (double)d.w[i])); return; }
    if (!close(l.w[i], d.w[i], 1e-15L, 0)) { violation_at(key, cat("weight ", i, " differs in extended precision")); return; }
    trans += 3;
  }
  // pairwise distinct: sweep over z
  Finder F(d.p);
  for (size_t a = 0; a < F.z.size(); ++a) for (size_t b = a + 1; b < F.z.size() && F.z[b].first - F.z[a].first < 1e-7L; ++b) {
    const V &p = d.p[F.z[a].second], &q = d.p[F.z[b].second]; ++trans;
    if (std::fabs(p[0] - q[0]) < 1e-7L && std::fabs(p[1] - q[1]) < 1e-7L) { violation_at(key, cat("points ", F.z[a].second, " and ", F.z[b].second, " coincide")); return; }
  }
  // spherical designs have equal weights
  if (fam == 3) for (int64_t i = 0; i < n; ++i) if (!close(d.w[i], 4 * PI / n, 1e-12L, 0)) { violation_at(key, cat("weight ", i, " of a spherical design is ", (double)d.w[i], ", not 4 pi / n")); return; }
  // invariance under the point group, with equal weights
  for (auto& g : sym) for (int64_t i = 0; i < n; ++i) {
    const long j = F.find(mul(g, d.p[i]), 1e-9L); ++trans;
    if (j < 0) { violation_at(key, cat("the image of point ", i, " under a symmetry operation is not in the grid")); return; }
    if (!close(d.w[i], d.w[j], 1e-9L, 0)) { violation_at(key, cat("equivalent points ", i, " and ", j, " have weights ", (double)d.w[i], " and ", (double)d.w[j])); return; }
  }
}
}  // namespace

int main(int argc, char** argv) {
  init(argc, argv);
  const M inv{{{-1, 0, 0}, {0, -1, 0}, {0, 0, -1}}};
  const auto oct = group({rot({0, 0, 1}, PI / 2), rot({1, 1, 1}, 2 * PI / 3), inv});
  const ld ph = (1 + std::sqrt(5.0L)) / 2;
  const auto ico = group({rot({0, 1, ph}, 2 * PI / 5), rot({0, -1, ph}, 2 * PI / 5), rot({1, ph, 0}, 2 * PI / 5)});
  info("symmetry operations", cat("octahedral ", oct.size(), ", icosahedral rotations ", ico.size(), ""));
  int fam = 0; long long states = 0; std::atomic<long long> trans{0};
  each_family([&](auto F) {
    using Fam = decltype(F);
    const auto sz = sizes<Fam>();
    const std::vector<M> sym = fam < 2 ? oct : fam == 2 ? ico : std::vector<M>{};
    const bool all = rt().opt.only.empty();
    if (all) begin(Fam::name);
    alarm(600);
    parallel(sz.size(), [&](size_t i) {
      const auto n = sz[sz.size() - 1 - i];
      if (!all && rt().opt.only != cat("geometry/", Fam::name, "/", n)) return;
      long long t = 0; check(fam, Fam::name, n, sym, t); trans += t;
    });
    states += sz.size();
    sample(cat(Fam::name, ": ", sz.size(), " sizes from ", sz.front(), " to ", sz.back(), ", group of ", sym.size(), " operations"));
    ++fam;
  });
  count("states", states * 3); count("transitions", trans);
  info("space", "every family and size in float, double and long double; every point, every near pair, every symmetry operation");
  return finish();
}
