// C13: the pruning schemes cut every radial rule as documented.
#include "s2.hpp"
#include "routes.hpp"
#include "catalogue.hpp"
using namespace mc;

namespace {
long long n_specs = 0;
std::set<std::tuple<int, int, size_t, size_t>> seen;

// Golden description of a scheme: cumulative radial cuts and the angular size in each region.
std::vector<PruningRegion> expected(PruningScheme s, AngularQuad aq, const std::map<int, int>& cat_, int order, size_t n, size_t asz) {
  const auto size_at_least = [&](int o) { return size_t(cat_.lower_bound(o)->second); };
  std::vector<PruningRegion> all, r;
  if (s == PruningScheme::Unpruned) all = {{0, n, aq, asz}};
  else if (s == PruningScheme::Robust) all = {{0, n / 4 + 1, aq, size_at_least(7)}, {n / 4 + 1, n / 2 + 1, aq, size_at_least(order > 6 ? order - 6 : order)}, {n / 2 + 1, n, aq, asz}};
  else all = {{0, n / 3 + 1, aq, size_at_least(7)}, {n / 3 + 1, n / 2 + 1, aq, size_at_least(11)}, {n / 2 + 1, n, aq, asz}};
  for (auto x : all) { x.idx_st = std::min(x.idx_st, n); x.idx_en = std::min(x.idx_en, n); if (x.idx_en > x.idx_st) r.push_back(x); }
  return r;
}
std::string show(const std::vector<PruningRegion>& r) { std::string s; for (auto& x : r) s += cat("[", x.idx_st, ",", x.idx_en, "):", x.angular_size, " "); return s; }
}  // namespace

int main(int argc, char** argv) {
  init(argc, argv);
  const size_t N = thorough() ? 900 : 320;
  std::vector<size_t> radial; for (size_t n = 1; n <= N; ++n) radial.push_back(n);
  for (size_t n : {size_t(199), size_t(200), size_t(201), size_t(255), size_t(256), size_t(257), size_t(302), size_t(511), size_t(512), size_t(1000), size_t(4096), size_t(32767), size_t(65535), size_t(65536), size_t(65537), size_t(100000),
                   size_t(1) << 31, (size_t(1) << 32) + 5, (size_t(1) << 33) - 1, (size_t(3) << 40) + 1}) if (n > N) radial.push_back(n);
  for (auto aq : angular_kinds()) for (auto rq : radial_kinds()) for (auto s : {PruningScheme::Unpruned, PruningScheme::Robust, PruningScheme::Treutler}) {
    const auto& table = catalogue().at(angular_name(aq));
    for (auto [order, size] : table) {
      if (!begin(cat(scheme_name(s), "/", angular_name(aq), "/", radial_name(rq), "/", size))) continue;
      for (size_t n : radial) {
        const double R = 0.5 + 0.25 * (n % 5);
        const auto traits = make_radial_traits(rq, n, R);
        const UnprunedSphericalGridSpecification unp(rq, *traits, aq, size);
        const auto want = expected(s, aq, table, order, n, size);
        std::vector<PrunedSphericalGridSpecification> got = {create_pruned_spec(s, unp)};
        if (s == PruningScheme::Robust) got.push_back(robust_psi4_pruning_scheme(unp));
        if (s == PruningScheme::Treutler) got.push_back(treutler_pruning_scheme(unp));
        seen.insert({int(s), int(aq), size, n});
        for (auto& g : got) {
          ++n_specs;
          MC_CHECK(g.pruning_regions == want, "n=", n, ": regions are ", show(g.pruning_regions), "instead of ", show(want));
          MC_CHECK(g.radial_quad == rq && g.radial_traits && g.radial_traits->npts() == n && g.radial_traits->compare(*traits), "n=", n, ": the radial rule is not the one given");
          size_t at = 0;
          for (auto& x : g.pruning_regions) { MC_CHECK(x.idx_st == at && x.idx_en > at && x.angular_quad == aq, "n=", n, ": regions do not tile"); at = x.idx_en; }
          MC_CHECK(at == n, "n=", n, ": regions end at ", at);
        }
        // the specification that was pruned is untouched
        MC_CHECK(unp.radial_traits && unp.radial_traits->compare(*traits) && unp.angular_size == size_t(size) && unp.angular_quad == aq, "n=", n, ": input changed");
        if (n <= 12 && size <= 400) {   // and the grid can be generated from it
          const size_t np = SphericalGridFactory::generate_grid(got[0])->npts();
          size_t e = 0; for (auto& x : want) e += (x.idx_en - x.idx_st) * x.angular_size;
          MC_CHECK(np == e, "n=", n, ": grid of ", np, " points instead of ", e);
        }
      }
    }
  }
  count("states", seen.size()); count("transitions", n_specs);
  info("space", "3 schemes x 4 angular families x every catalogued size x 4 radial schemes x radial sizes 1..320 (thorough 900) and larger ones up to 3 * 2^40");
  sample("Robust, LebedevLaikov 302, 9 radial points: [0,3):26 [3,5):194 [5,9):302");
  return finish();
}
