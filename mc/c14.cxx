// C14: the runtime generators agree with the types they stand for, and refuse what they cannot build.
#include "sph.hpp"
#include "routes.hpp"
#include "catalogue.hpp"
using namespace mc;

namespace {
long long n_calls = 0;
std::set<std::string> states;
template <class A> AngularQuad aq_of() { return angular_from_type<typename A::type>(); }
template <class G> std::string grid_is(const G& g, const std::vector<PW>& want, double slack, const P3& c = {0, 0, 0}) {
  ++n_calls;
  if (!g) return "no grid";
  if (g->center() != c) return "not centred at the origin";
  if (g->npts() != want.size()) return cat(g->npts(), " points instead of ", want.size());
  return match(g->points(), g->weights(), want, slack);
}

template <class R, class A> void combination(R, A, RadialQuad rq, AngularQuad aq) {
  using RQ = typename R::type; using AQ = typename A::type;
  const std::string N = cat(R::name, "x", A::name);
  for (size_t na : A::some()) {
    if (na > 310 && !thorough()) continue;
    if (!begin(cat("agree/", N, "/", na))) continue;
    const AQ a(na);
    auto s2 = S2Factory::generate(aq, na);
    MC_CHECK(s2->points() == a.points() && s2->weights() == a.weights() && s2->npts() == na, N, ": the angular generator differs from the type for ", na, " points");
    for (size_t nr : (thorough() ? std::vector<size_t>{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 13, 20} : std::vector<size_t>{1, 2, 3, 4, 5, 8, 11})) for (double Rs : {1.0, 0.4, 5.0}) {
      states.insert(cat(N, na, "/", nr, "/", Rs));
      const auto t = make_radial_traits(rq, nr, Rs);
      const RQ r(nr, Rs);
      auto rad = RadialFactory::generate(rq, *t);
      MC_CHECK(rad->points() == r.points() && rad->weights() == r.weights() && rad->npts() == nr, N, ": the radial generator differs from the type, n=", nr, " R=", Rs);
      std::vector<PW> want; product(r, 0, nr, a, {0, 0, 0}, want);
      const double slack = reach(r);
      const auto judge = [&](const char* route, const std::string& why) { MC_CHECK(why.empty(), N, " ", nr, "x", na, " R=", Rs, " ", route, ": ", why); };
      judge("unpruned", grid_is(SphericalGridFactory::generate_unpruned_grid(rq, *t, aq, na), want, slack));
      const UnprunedSphericalGridSpecification unp(rq, *t, aq, na);
      judge("unpruned specification", grid_is(SphericalGridFactory::generate_grid(unp), want, slack));
      judge("unpruned specification again", grid_is(SphericalGridFactory::generate_grid(unp), want, slack));
      judge("typed unpruned", grid_is(SphericalGridFactory::generate_unpruned_grid(r, a), want, slack));
      judge("typed unpruned, temporaries", grid_is(SphericalGridFactory::generate_unpruned_grid(RQ(nr, Rs), AQ(na)), want, slack));
      judge("one region", grid_is(SphericalGridFactory::generate_pruned_grid(rq, *t, {{0, nr, aq, na}}), want, slack));
      for (auto s : {PruningScheme::Unpruned, PruningScheme::Robust, PruningScheme::Treutler}) {
        const auto spec = create_pruned_spec(s, unp);
        std::vector<PW> un; RadialGridPartition<AQ> p;
        for (auto& x : spec.pruning_regions) { product(r, x.idx_st, x.idx_en, AQ(x.angular_size), {0, 0, 0}, un); p.add_quad(r, x.idx_st, AQ(x.angular_size)); }
        p.finalize(r);
        judge(scheme_name(s).c_str(), grid_is(SphericalGridFactory::generate_grid(spec), un, slack));
        judge("pruned arguments", grid_is(SphericalGridFactory::generate_pruned_grid(spec.radial_quad, *spec.radial_traits, spec.pruning_regions), un, slack));
        judge("typed pruned", grid_is(SphericalGridFactory::generate_pruned_grid(r, p), un, slack));
        judge("typed pruned, temporary", grid_is(SphericalGridFactory::generate_pruned_grid(r, RadialGridPartition<AQ>(p)), un, slack));
      }
      MC_CHECK(a.npts() == na && r.npts() == nr, N, ": the arguments were changed");
    }
  }
  // every size of the family through the generators, and many regions
  if (begin(cat("sizes/", N))) {
    const auto t = make_radial_traits(rq, size_t(2), 1.5); const RQ r(2, 1.5);
    for (auto& [order, n] : catalogue().at(A::name)) {
      const AQ a(n); states.insert(cat(N, "size", n));
      auto s2 = S2Factory::generate(aq, n); ++n_calls;
      MC_CHECK(s2->points() == a.points() && s2->weights() == a.weights(), N, ": the angular generator differs from the type for ", n, " points");
      std::vector<PW> want; product(r, 0, 2, a, {0, 0, 0}, want);
      auto why = grid_is(SphericalGridFactory::generate_unpruned_grid(rq, *t, aq, n), want, reach(r));
      MC_CHECK(why.empty(), N, " 2x", n, ": ", why);
      want.clear(); const size_t first = catalogue().at(A::name).begin()->second;
      product(r, 0, 1, a, {0, 0, 0}, want); product(r, 1, 2, AQ(first), {0, 0, 0}, want);
      why = grid_is(SphericalGridFactory::generate_pruned_grid(rq, *t, {{0, 1, aq, size_t(n)}, {1, 2, aq, first}}), want, reach(r));
      MC_CHECK(why.empty(), N, " ", n, " and ", first, ": ", why);
    }
  }
  if (begin(cat("many regions/", N))) for (size_t nr : {size_t(40), size_t(300)}) {
    const auto t = make_radial_traits(rq, nr, 1.5); const RQ r(nr, 1.5);
    const auto all = A::some();
    std::vector<PruningRegion> reg; std::vector<PW> want;
    for (size_t i = 0; i < nr; ++i) { const size_t n = all[i % std::min<size_t>(all.size(), 3)]; reg.push_back({i, i + 1, aq, n}); product(r, i, i + 1, AQ(n), {0, 0, 0}, want); }
    states.insert(cat(N, "many", nr));
    auto why = grid_is(SphericalGridFactory::generate_pruned_grid(rq, *t, reg), want, reach(r));
    MC_CHECK(why.empty(), N, ": ", nr, " regions: ", why);
    want.clear(); product(r, 0, nr, AQ(all[1]), {0, 0, 0}, want);
    why = grid_is(SphericalGridFactory::generate_unpruned_grid(rq, *t, aq, all[1]), want, reach(r));
    MC_CHECK(why.empty(), N, " ", nr, "x", all[1], ": ", why);
  }
  // radial sizes in between, through every route
  if (begin(cat("radial sizes/", N))) {
    std::vector<size_t> ns; for (size_t n = 12; n <= (thorough() ? 300 : 70); ++n) ns.push_back(n);
    for (size_t n : {99, 100, 101, 127, 128, 129, 200, 255, 256, 257}) ns.push_back(n);
    for (size_t nr : ns) {
      const size_t na = A::some()[nr % 3];
      const auto t = make_radial_traits(rq, nr, 1.5); const RQ r(nr, 1.5); const AQ a(na);
      std::vector<PW> want; product(r, 0, nr, a, {0, 0, 0}, want); states.insert(cat(N, "radial size", nr));
      const UnprunedSphericalGridSpecification unp(rq, *t, aq, na);
      for (auto& why : {grid_is(SphericalGridFactory::generate_unpruned_grid(rq, *t, aq, na), want, reach(r)), grid_is(SphericalGridFactory::generate_grid(unp), want, reach(r)), grid_is(SphericalGridFactory::generate_unpruned_grid(r, a), want, reach(r))}) MC_CHECK(why.empty(), N, " ", nr, "x", na, ": ", why);
      for (auto s : {PruningScheme::Unpruned, PruningScheme::Robust, PruningScheme::Treutler}) {
        const auto spec = create_pruned_spec(s, unp);
        std::vector<PW> un; for (auto& x : spec.pruning_regions) product(r, x.idx_st, x.idx_en, AQ(x.angular_size), {0, 0, 0}, un);
        const auto why = grid_is(SphericalGridFactory::generate_grid(spec), un, reach(r));
        MC_CHECK(why.empty(), N, " ", nr, "x", na, " ", scheme_name(s), ": ", why);
      }
    }
  }
  // every list of up to three regions with bounds 0..nr+1: accepted exactly if it tiles the radial rule
  if (begin(cat("tilings/", N))) {
    const size_t nr = 4, na = A::some()[0], nb = A::some()[1];
    const auto t = make_radial_traits(rq, nr, 1.0);
    const RQ r(nr, 1.0);
    std::vector<std::pair<size_t, size_t>> iv;
    for (size_t b = 0; b <= nr + 1; ++b) for (size_t e = 0; e <= nr + 1; ++e) iv.push_back({b, e});
    iv.push_back({0, size_t(-1)}); iv.push_back({size_t(-1), nr});
    const auto attempt = [&](const std::vector<std::pair<size_t, size_t>>& l) {
      std::vector<PruningRegion> reg; bool ok = !l.empty(); size_t at = 0;
      for (size_t i = 0; i < l.size(); ++i) { reg.push_back({l[i].first, l[i].second, aq, i % 2 ? nb : na}); ok = ok && l[i].first == at && l[i].second > at; at = l[i].second; }
      ok = ok && at == nr;
      std::string d; for (auto& x : l) d += cat("[", x.first, ",", x.second, ") ");
      states.insert(N + d);
      for (int route = 0; route < 4; ++route) {
        static const char* const rn[] = {"by arguments", "by a specification", "by a copy of a specification", "by an edited specification"};
        SphericalGridFactory::spherical_grid_ptr g; ++n_calls;
        const auto how = outcome([&] {
          if (route == 0) { g = SphericalGridFactory::generate_pruned_grid(rq, *t, reg); return; }
          PrunedSphericalGridSpecification spec(rq, *t, route == 3 ? std::vector<PruningRegion>{{0, nr, aq, na}} : reg);
          if (route == 3) spec.pruning_regions = reg;
          if (route == 2) { const auto c = spec; g = SphericalGridFactory::generate_grid(c); } else g = SphericalGridFactory::generate_grid(spec);
        });
        if (!ok) { MC_CHECK(!how.empty(), N, ": regions ", d, "of ", nr, " radial points are accepted ", rn[route]); continue; }
        if (!how.empty()) { violation(cat(N, ": regions ", d, "are rejected ", rn[route], ": ", how)); continue; }
        std::vector<PW> want; for (auto& x : reg) product(r, x.idx_st, x.idx_en, AQ(x.angular_size), {0, 0, 0}, want);
        const auto why = grid_is(g, want, reach(r));
        MC_CHECK(why.empty(), N, ": regions ", d, rn[route], ": ", why);
      }
    };
    attempt({});
    for (auto& x : iv) { attempt({x}); for (auto& y : iv) { attempt({x, y});
      if (std::is_same_v<A, ALL> || thorough()) for (auto& z : iv) if ((x.first + y.first + z.first) < 100) attempt({x, y, z}); } }
  }
}

void refusals() {
  const std::vector<size_t> good = {26, 26, 72, 26};
  const auto& rk = radial_kinds(); const auto& ak = angular_kinds();
  // traits of another scheme, in every place they can go
  if (begin("mismatched traits")) for (auto q : rk) for (auto t : rk) for (size_t ia = 0; ia < ak.size(); ++ia) {
    const auto tr = make_radial_traits(t, size_t(4), 1.0);
    const auto a = ak[ia]; const size_t n = good[ia];
    const std::vector<std::pair<const char*, std::function<void()>>> routes = {
      {"radial generator", [&] { RadialFactory::generate(q, *tr); }},
      {"unpruned", [&] { SphericalGridFactory::generate_unpruned_grid(q, *tr, a, n); }},
      {"unpruned specification", [&] { SphericalGridFactory::generate_grid(UnprunedSphericalGridSpecification(q, *tr, a, n)); }},
      {"pruned", [&] { SphericalGridFactory::generate_pruned_grid(q, *tr, {{0, 4, a, n}}); }},
      {"pruned specification", [&] { SphericalGridFactory::generate_grid(PrunedSphericalGridSpecification(q, *tr, std::vector<PruningRegion>{{0, 4, a, n}})); }},
      {"robust", [&] { SphericalGridFactory::generate_grid(create_pruned_spec(PruningScheme::Robust, UnprunedSphericalGridSpecification(q, *tr, a, n))); }}};
    for (auto& [nm, f] : routes) {
      ++n_calls; states.insert(cat(radial_name(q), radial_name(t), ia, nm));
      const auto how = outcome(f);
      if (q == t) MC_CHECK(how.empty(), radial_name(q), " ", nm, ": rejected: ", how);
      else MC_CHECK(!how.empty(), radial_name(q), " built by ", nm, " from the traits of ", radial_name(t));
    }
  }
  // angular families mixed in one pruned grid
  if (begin("mixed angular families")) for (auto q : rk) for (size_t i = 0; i < 4; ++i) for (size_t j = 0; j < 4; ++j) for (size_t k = 0; k < 4; ++k) {
    const auto tr = make_radial_traits(q, size_t(4), 1.0); ++n_calls; states.insert(cat("mix", radial_name(q), i, j, k));
    const std::vector<PruningRegion> reg = {{0, 1, ak[i], good[i]}, {1, 2, ak[j], good[j]}, {2, 4, ak[k], good[k]}};
    for (int route = 0; route < 2; ++route) {
      const auto how = outcome([&] { if (route) SphericalGridFactory::generate_grid(PrunedSphericalGridSpecification(q, *tr, reg)); else SphericalGridFactory::generate_pruned_grid(q, *tr, reg); });
      if (i == j && j == k) MC_CHECK(how.empty(), "rejected: ", how);
      else MC_CHECK(!how.empty(), "regions of families ", angular_name(ak[i]), ", ", angular_name(ak[j]), ", ", angular_name(ak[k]), " are accepted");
    }
  }
  // enumeration values which name no scheme
  if (begin("unknown enumerators")) {
    std::set<uint32_t> vals; for (uint32_t v = 0; v <= (thorough() ? 0xffffu : 0x1fffu); ++v) vals.insert(v);
    // everything which differs from a known value in one, two or (thorough) three bits
    std::vector<uint32_t> known; for (auto q : rk) known.push_back(static_cast<uint32_t>(q)); for (auto q : ak) known.push_back(static_cast<uint32_t>(q));
    for (auto k : known) for (int a = 0; a < 32; ++a) for (int b = a; b < 32; ++b) {
      const uint32_t two = k ^ (1u << a) ^ (a == b ? 0 : 1u << b); vals.insert(two);
      if (thorough()) for (int c = b + 1; c < 32; ++c) vals.insert(two ^ (1u << c));
    }
    for (uint32_t v : {0x1000u, 0x10010u, 0x80000010u, 0xffffffffu, 0xfffffff0u}) vals.insert(v);
    const auto tr = make_radial_traits(RadialQuad::Becke, size_t(4), 1.0);
    for (auto v : vals) {
      const auto rq = static_cast<RadialQuad>(v); const auto aq = static_cast<AngularQuad>(v); states.insert(cat("enum", v));
      if (std::find(rk.begin(), rk.end(), rq) == rk.end()) {
        n_calls += 4;
        MC_CHECK(!outcome([&] { RadialFactory::generate(rq, *tr); }).empty(), "radial scheme ", v, " is accepted");
        MC_CHECK(!outcome([&] { make_radial_traits(rq, size_t(4), 1.0); }).empty(), "traits of radial scheme ", v);
        MC_CHECK(!outcome([&] { SphericalGridFactory::generate_unpruned_grid(rq, *tr, AngularQuad::LebedevLaikov, 26); }).empty(), "radial scheme ", v, " is accepted in a spherical grid");
        MC_CHECK(!outcome([&] { SphericalGridFactory::generate_pruned_grid(rq, *tr, {{0, 4, AngularQuad::LebedevLaikov, 26}}); }).empty(), "radial scheme ", v, " is accepted in a pruned grid");
      }
      if (std::find(ak.begin(), ak.end(), aq) == ak.end()) {
        n_calls += 5;
        MC_CHECK(!outcome([&] { S2Factory::generate(aq, 26); }).empty(), "angular family ", v, " is accepted");
        MC_CHECK(!outcome([&] { SphericalGridFactory::generate_unpruned_grid(RadialQuad::Becke, *tr, aq, 26); }).empty(), "angular family ", v, " is accepted in a spherical grid");
        MC_CHECK(!outcome([&] { SphericalGridFactory::generate_pruned_grid(RadialQuad::Becke, *tr, {{0, 4, aq, 26}}); }).empty(), "angular family ", v, " is accepted in a pruned grid");
        for (auto s : {PruningScheme::Robust, PruningScheme::Treutler})
          MC_CHECK(!outcome([&] { create_pruned_spec(s, UnprunedSphericalGridSpecification(RadialQuad::Becke, *tr, aq, 26)); }).empty(), "angular family ", v, " is accepted by a pruning scheme");
      }
    }
  }
  // a specification without radial traits
  if (begin("missing traits")) for (auto q : rk) for (size_t ia = 0; ia < 4; ++ia) {
    const auto tr = make_radial_traits(q, size_t(4), 1.0);
    UnprunedSphericalGridSpecification u(q, *tr, ak[ia], good[ia]); u.radial_traits.reset();
    PrunedSphericalGridSpecification p(q, *tr, std::vector<PruningRegion>{{0, 4, ak[ia], good[ia]}}); p.radial_traits.reset();
    n_calls += 7; states.insert(cat("null", radial_name(q), ia));
    MC_CHECK(!outcome([&] { SphericalGridFactory::generate_grid(u); }).empty(), "unpruned specification without traits is accepted");
    MC_CHECK(!outcome([&] { SphericalGridFactory::generate_grid(p); }).empty(), "pruned specification without traits is accepted");
    for (auto s : {PruningScheme::Unpruned, PruningScheme::Robust, PruningScheme::Treutler})
      MC_CHECK(!outcome([&] { create_pruned_spec(s, u); }).empty(), scheme_name(s), " prunes a specification without traits");
    MC_CHECK(!outcome([&] { robust_psi4_pruning_scheme(u); }).empty(), "robust scheme prunes a specification without traits");
    MC_CHECK(!outcome([&] { treutler_pruning_scheme(u); }).empty(), "Treutler scheme prunes a specification without traits");
  }
}
}  // namespace

int main(int argc, char** argv) {
  init(argc, argv);
  const auto angular = [](auto r, RadialQuad rq) {
    combination(r, ALL{}, rq, AngularQuad::LebedevLaikov); combination(r, ADE{}, rq, AngularQuad::Delley);
    combination(r, AAB{}, rq, AngularQuad::AhrensBeylkin); combination(r, AWO{}, rq, AngularQuad::Womersley);
  };
  angular(RBecke{}, RadialQuad::Becke); angular(RMHL{}, RadialQuad::MurrayHandyLaming);
  angular(RMK{}, RadialQuad::MuraKnowles); angular(RTA{}, RadialQuad::TreutlerAhlrichs);
  // a non-default exponent reaches the grid
  if (begin("exponent")) for (double al : {0.0, 0.25, 0.6, 1.0}) for (size_t n = 1; n <= 12; ++n) {
    const auto t = make_radial_traits(RadialQuad::TreutlerAhlrichs, n, 1.5, al);
    const TreutlerAhlrichs<double, double> r(n, 1.5, al);
    auto g = RadialFactory::generate(RadialQuad::TreutlerAhlrichs, *t);
    MC_CHECK(g->points() == r.points() && g->weights() == r.weights(), "exponent ", al, " is not respected by the radial generator");
    std::vector<PW> want; product(r, 0, n, LebedevLaikov<double>(6), {0, 0, 0}, want);
    const auto why = grid_is(SphericalGridFactory::generate_unpruned_grid(RadialQuad::TreutlerAhlrichs, *t, AngularQuad::LebedevLaikov, 6), want, reach(r));
    MC_CHECK(why.empty(), "exponent ", al, ": ", why); states.insert(cat("al", al, n));
  }
  refusals();
  count("states", states.size()); count("transitions", n_calls);
  info("space", "16 radial x angular combinations with up to 12 angular sizes, 7-12 radial sizes, 3 scales through 15 routes; every radial size from 12 to 70 (300) and 10 to 257 through 6 routes; every list of up to 3 regions over 4 radial points; all 4x4 trait mismatches x 6 routes; all 64 family mixtures; enumerators 0..0x1fff (0xffff), extremes and all within two (three) bits of a known one");
  sample("MHL x Womersley, regions [0,1) [1,3) [3,4) accepted; [0,2) [3,4) refused");
  return finish();
}
