// C04: sizes without a rule are rejected, by every route that takes a size.
#include "s2.hpp"
#include "routes.hpp"
#include <sys/resource.h>
using namespace mc;

namespace {
// Every way to ask for an angular grid of n points.  "" = produced a grid.
struct Route { std::string name; std::function<size_t(size_t)> make; };

template <class Fam> void family(Fam, AngularQuad aq) {
  using Q = typename Fam::template type<double>;
  using tr = quadrature_traits<Q>;
  const std::string F = Fam::name;
  long long trans = 0, accepted = 0; std::set<size_t> st;
  const auto supported = [](int64_t n) { return tr::algebraic_order_by_npts(n) > 0; };
  const int64_t nmax = thorough() ? 40000 : 16000;

  std::vector<Route> cheap = {
    {"constructor", [](size_t n) { return Q(n).npts(); }},
    {"angular factory", [aq](size_t n) { return S2Factory::generate(aq, n)->npts(); }},
  };
  if (!sanitized) for (auto& r : cheap) if (begin("sweep/" + F + "/" + r.name)) for (int64_t n = 0; n <= nmax; ++n) {
    st.insert(n); ++trans; size_t got = 0;
    const auto how = outcome([&, n] { got = r.make(n); });
    if (supported(n)) { ++accepted; MC_CHECK(how.empty() && got == (size_t)n, "supported size ", n, " is rejected: ", how); }
    else MC_CHECK(!how.empty(), "unsupported size ", n, " yields a grid of ", got, " points");
  }
  // sizes congruent to a supported one modulo 2^32, and absurd ones: must fail, whichever way
  if (!sanitized) for (auto& r : cheap) if (begin("huge/" + F + "/" + r.name)) for (size_t n : {(size_t(1) << 32) + 26, (size_t(1) << 32) + 72, (size_t(1) << 32) + 6, (size_t(1) << 32) + 14, (size_t(1) << 40), ~size_t(0), ~size_t(0) - 5}) {
    st.insert(n); ++trans; size_t got = 0;
    MC_CHECK(!outcome([&, n] { got = r.make(n); }).empty(), "size ", n, " yields a grid of ", got, " points");
  }
  // composite routes: a window, and the neighbours of every supported size of every family
  std::set<int64_t> ns;
  for (int64_t n = 0; n <= (thorough() ? 1000 : 330); ++n) ns.insert(n);
  each_family([&](auto G) { for (auto n : sizes<decltype(G)>()) if (n <= (thorough() ? 20000 : 2600)) for (int d = -1; d <= 1; ++d) ns.insert(n + d); });
  int64_t good = 0; for (auto n : ns) if (n > 20 && !good && supported(n)) good = n;
  for (auto rq : radial_kinds()) for (const auto& r : composite_routes(rq, aq, good)) {
    if (!begin("composite/" + F + "/" + radial_name(rq) + "/" + r.first)) continue;
    for (auto n : ns) {
      if (n > 700 && rq != RadialQuad::Becke && !thorough()) continue;
      st.insert(n); ++trans; size_t got = 0;
      const auto how = outcome([&, n] { got = r.second(n); });
      if (supported(n)) { ++accepted; MC_CHECK(how.empty() && got > 0, "supported size ", n, " is rejected: ", how); }
      else MC_CHECK(!how.empty(), "unsupported size ", n, " yields a grid of ", got, " points");
    }
  }
  count("states", st.size()); count("transitions", trans); count("accepted_sizes", accepted);
  sample(cat(F, ": ", ns.size(), " sizes through ", composite_routes(RadialQuad::Becke, aq, good).size(), " composite routes, 0..", nmax, " through 2 direct ones"));
}

template <class Q> void too_small(const char* name, std::function<Q(size_t)> make) {
  if (!begin(cat("minimum/", name))) return;
  for (size_t n = 0; n <= 8; ++n) {
    size_t got = 0; count("states"); count("transitions");
    const auto how = outcome([&] { got = make(n).npts(); });
    if (n < 2) MC_CHECK(!how.empty(), n, " points yields a rule although both end points are nodes");
    else MC_CHECK(how.empty() && got == n, n, " points is rejected: ", how);
  }
}
}  // namespace

int main(int argc, char** argv) {
  init(argc, argv);
  struct rlimit lim { size_t(6) << 30, size_t(6) << 30 };
  if (!sanitized) setrlimit(RLIMIT_AS, &lim);
  family(LL{}, AngularQuad::LebedevLaikov);
  family(DE{}, AngularQuad::Delley);
  family(AB{}, AngularQuad::AhrensBeylkin);
  family(WO{}, AngularQuad::Womersley);
  too_small<GaussLobatto<double, double>>("GaussLobatto", [](size_t n) { return GaussLobatto<double, double>(n); });
  too_small<UniformTrapezoid<double, double>>("UniformTrapezoid", [](size_t n) { return UniformTrapezoid<double, double>(n, 0., 1.); });
  info("space", "all sizes 0..16000 (thorough 40000) directly; a window and the neighbours of all supported sizes through all composite routes and radial schemes");
  return finish();
}
