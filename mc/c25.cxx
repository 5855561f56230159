// C25: spherical grids, pruned or not, integrate over three-dimensional space.
#include "sph.hpp"
#include "s2.hpp"
#include "routes.hpp"
using namespace mc;

namespace {
std::atomic<long long> n_states{0}, n_trans{0};
std::mutex wm; ld worst = 0;
// int x^a y^b z^c exp(-r^2) over space
ld gauss(int a, int b, int c) { return (a % 2 || b % 2 || c % 2) ? 0 : std::tgamma((a + 1) / 2.0L) * std::tgamma((b + 1) / 2.0L) * std::tgamma((c + 1) / 2.0L); }
template <class G> void judge(const G& g, int L, const std::string& key, const std::string& what, ld tol) {
  // moments of the grid for all monomials of degree up to L about its centre
  std::vector<ld> M((L + 1) * (L + 1) * (L + 1), 0), A(M.size(), 0);
  const P3 o = g.center();
  for (size_t i = 0; i < g.npts(); ++i) {
    const ld x = ld(g.points()[i][0]) - o[0], y = ld(g.points()[i][1]) - o[1], z = ld(g.points()[i][2]) - o[2], e = g.weights()[i] * std::exp(-(x * x + y * y + z * z));
    ld px = e; for (int a = 0; a <= L; ++a, px *= x) { ld py = px; for (int b = 0; a + b <= L; ++b, py *= y) { ld pz = py; for (int c = 0; a + b + c <= L; ++c, pz *= z) { const size_t k = (a * (L + 1) + b) * (L + 1) + c; M[k] += pz; A[k] += std::fabs(pz); } } }
  }
  for (int a = 0; a <= L; ++a) for (int b = 0; a + b <= L; ++b) for (int c = 0; a + b + c <= L; ++c) {
    const size_t k = (a * (L + 1) + b) * (L + 1) + c; ++n_trans;
    const ld err = std::fabs(M[k] - gauss(a, b, c)) / std::max<ld>(A[k], 1e-3L);
    { std::lock_guard<std::mutex> l(wm); worst = std::max(worst, err / tol); }
    if (!(err <= tol)) { violation_at(key, cat(what, ": x^", a, " y^", b, " z^", c, " exp(-r^2) integrates to ", M[k], " instead of ", gauss(a, b, c))); return; }
  }
}
template <class Fam> void family(Fam, AngularQuad aq) {
  using tr = quadrature_traits<typename Fam::template type<double>>;
  const auto sz = sizes<Fam>();
  for (auto rq : radial_kinds()) for (auto sc : {PruningScheme::Unpruned, PruningScheme::Robust, PruningScheme::Treutler}) {
    const std::string key = cat(scheme_name(sc), "/", radial_name(rq), "/", Fam::name);
    if (!begin(key)) continue;
    const double R = rq == RadialQuad::MuraKnowles ? 5.0 : rq == RadialQuad::TreutlerAhlrichs ? 2.0 : 1.0;
    std::vector<std::pair<size_t, size_t>> jobs;
    for (auto n : sz) if (n <= (thorough() ? 1500 : 450)) for (size_t nr : thorough() ? std::vector<size_t>{70, 99, 100, 150} : std::vector<size_t>{80, 99}) jobs.push_back({n, nr});
    // every radial size, with a small angular rule
    size_t small = 0; for (auto n : sz) if (!small && n >= 20) small = n;
    for (size_t nr = 80; nr <= (thorough() ? 700 : 280); ++nr) jobs.push_back({small, nr});
    for (size_t nr : {511, 512, 513, 1000, 1025}) jobs.push_back({small, nr});
    parallel(jobs.size(), [&](size_t i) {
      const auto [n, nr] = jobs[jobs.size() - 1 - i];
      const auto how = outcome([&, n = n, nr = nr] {
        const auto spec = create_pruned_spec(sc, UnprunedSphericalGridSpecification(rq, *make_radial_traits(rq, nr, R), aq, n));
        auto g = SphericalGridFactory::generate_grid(spec);
        int L = 1000; for (auto& r : spec.pruning_regions) L = std::min<int>(L, tr::algebraic_order_by_npts(r.angular_size));
        L = std::min(L, n == small && nr != 99 ? 2 : 12);
        judge(*g, L, key, cat(n, " angular and ", nr, " radial points"), 1e-8L);
        g->recenter({1.5, -0.25, 8});
        judge(*g, std::min(L, 4), key, cat(n, " angular and ", nr, " radial points, recentered"), 1e-8L);
        n_states += 2;
      });
      if (!how.empty()) violation_at(key, cat(n, " angular and ", nr, " radial points: ", how));
    });
  }
}
}  // namespace

int main(int argc, char** argv) {
  init(argc, argv);
  family(LL{}, AngularQuad::LebedevLaikov); family(DE{}, AngularQuad::Delley); family(AB{}, AngularQuad::AhrensBeylkin); family(WO{}, AngularQuad::Womersley);
  count("states", n_states); count("transitions", n_trans);
  info("space", "3 schemes x 4 radial x 4 angular families, all angular sizes up to 450 (thorough 1500), 2 (4) radial sizes, and every radial size from 80 to 280 (700) and 5 to 1025 with a small angular rule (to degree 2); all monomials up to the lowest order of the regions (at most 12) times exp(-r^2), before and after recentering");
  info("largest error / tolerance", cat(double(worst)));
  sample("Robust / MHL / Womersley 314, 99 radial points: x^4 y^2 exp(-r^2)");
  return finish();
}
