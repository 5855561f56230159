// C10: a spherical quadrature is the product of its radial and angular rules.
#include "sph.hpp"
#include "catalogue.hpp"
using namespace mc;

namespace {
long long n_pts = 0;
template <class R, class A> void pair_(R, A) {
  const std::string N = cat(R::name, "x", A::name);
  using S = SphericalQuadrature<typename R::type, typename A::type>;
  for (size_t na : A::some()) {
    if (na > 210 && !thorough()) continue;
    if (!begin(cat("product/", N, "/", na))) continue;
    const typename A::type a(na);
    const size_t top = std::is_same_v<R, RBecke> || thorough() ? 16 : 9;
    for (size_t nr = 1; nr <= top; ++nr) for (double Rs : {1.0, 2.5}) {
      const auto r = R::make(nr, Rs);
      for (const auto& c : centres()) {
        std::vector<PW> want; product(r, 0, nr, a, c, want);
        const double slack = reach(r) + reach(c);
        const S s(r, a, c);
        const Quadrature<S>& v = s; const auto p0 = v.points(); const auto w0 = v.weights();
        auto why = match(s.points(), s.weights(), want, slack);
        MC_CHECK(why.empty(), N, " ", nr, "x", na, " about ", show(c), ": ", why);
        MC_CHECK(s.npts() == nr * na && s.center() == c, N, ": size or centre");
        MC_CHECK(p0 == s.points() && w0 == s.weights() && v.npts() == nr * na, N, ": the view of the quadrature differs");
        const SphBase& b = s;
        why = match(b.points(), b.weights(), want, slack);
        MC_CHECK(why.empty() && b.npts() == nr * na && b.center() == c, N, " ", nr, "x", na, ", through the base: ", why);
        n_pts += 2 * nr * na; count("states");
        if (c == P3{0, 0, 0}) {
          const S d(r, a);
          why = match(d.points(), d.weights(), want, slack);
          MC_CHECK(why.empty() && d.center() == c, N, " ", nr, "x", na, ", default centre: ", why);
        }
      }
    }
  }
}
// every size of every family, and large numbers of radial or angular points
template <class R, class A> void one(const std::string& N, const R& r, const A& a, const P3& c) {
  std::vector<PW> want; product(r, 0, r.npts(), a, c, want);
  const SphericalQuadrature<R, A> s(r, a, c);
  const auto why = match(s.points(), s.weights(), want, reach(r) + reach(c));
  MC_CHECK(why.empty() && s.npts() == r.npts() * a.npts() && s.center() == c, N, " ", r.npts(), "x", a.npts(), " about ", show(c), ": ", why);
  n_pts += want.size(); count("states");
}
template <class R, class A> void sizes_(R, A) {
  const std::string N = cat(R::name, "x", A::name);
  if (begin("sizes/" + N)) for (auto& [order, na] : catalogue().at(A::name)) {
    const typename A::type a(na);
    one(N, R::make(1, 1.5), a, {0, 0, 0}); one(N, R::make(3, 1.5), a, {1, -2, 3.5});
  }
  if (begin("every radial size/" + N)) for (size_t nr = 1; nr <= (thorough() ? 600 : 200); ++nr) {
    one(N, R::make(nr, 1.5), typename A::type(A::some()[0]), {0, 0, 0}); one(N, R::make(nr, 1.5), typename A::type(A::some()[nr % 3]), {-1, nr % 2 ? 0. : 3., 1});
  }
  if (begin("huge/" + N)) {
    const auto& c = catalogue().at(A::name);
    int least = 1 << 30, most = 0; for (auto& [o, n] : c) { least = std::min(least, n); most = std::max(most, n); }
    one(N, R::make(thorough() ? 200 : 30, 1.5), typename A::type(most), {1, -2, 3.5});
    one(N, R::make(thorough() ? 3000 : 1100, 1.5), typename A::type(A::some()[3]), {0, 0, 7});
    one(N, R::make(thorough() ? 200003 : 70001, 1.5), typename A::type(least), {0, 0, 0});
  }
}
// the nodes of the factors are exactly what goes in, also when they were changed by the user
void edited() {
  if (!begin("edited factors")) return;
  for (size_t nr = 1; nr <= 5; ++nr) for (size_t na : {6, 14, 26}) for (int v = 0; v < 4; ++v) {
    Becke<double, double> r(nr, 1.0); LebedevLaikov<double> a(na);
    if (v & 1) for (size_t i = 0; i < nr; ++i) { r.points()[i] = 3.0 - i * 0.25; r.weights()[i] = 1.0 + i; }
    if (v & 2) for (size_t j = 0; j < na; ++j) { a.points()[j] = {1.0 + j, 2.0 - j, 0.5}; a.weights()[j] = 1.0 / (1 + j); }
    std::vector<PW> want; product(r, 0, nr, a, {1, 2, 3}, want);
    const SphericalQuadrature<Becke<double, double>, LebedevLaikov<double>> s(r, a, P3{1, 2, 3});
    auto why = match(s.points(), s.weights(), want, 100);
    MC_CHECK(why.empty(), "edited factors ", nr, "x", na, ": ", why);
    n_pts += nr * na; count("states");
  }
}
}  // namespace

int main(int argc, char** argv) {
  init(argc, argv);
  each_radial([](auto r) { each_angular([&](auto a) { pair_(r, a); }); });
  pair_(RGL{}, ALL{});
  each_angular([](auto a) { sizes_(RBecke{}, a); });
  sizes_(RMHL{}, ALL{}); sizes_(RMK{}, ALL{}); sizes_(RTA{}, ALL{});
  edited();
  count("transitions", n_pts);
  info("space", "4 radial schemes (and Gauss-Legendre) x 4 angular families, 9-16 radial sizes, all angular sizes up to 201 (thorough 314), 2 scale factors, 8 centres; every size of every family with 1 and 3 radial points; every number of radial points to 200 (600) with small angular rules; up to 70001 (thorough 200003) radial points and the largest angular rules");
  sample("Becke(7, 2.5) x LebedevLaikov(50) about (1,-2,3.5): 350 points");
  return finish();
}
