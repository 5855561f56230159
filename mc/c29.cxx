// C29: the generic parts with pieces of the user's own: arbitrary one-dimensional and angular rules, maps of the radial transform.
#include "batch.hpp"
#include <integratorxx/quadratures/radial.hpp>

// A user's rule: nodes and weights as given; and one made from a number of points, as the base of a radial transform.
struct UserLine; struct UserSphere;
template <class T, class U, bool Bounds> struct UserBase;
namespace IntegratorXX {
template <> struct quadrature_traits<UserLine> {
  using point_type = double; using weight_type = double;
  using point_container = std::vector<double>; using weight_container = std::vector<double>;
  static std::tuple<point_container, weight_container> generate(const std::vector<double>& x, const std::vector<double>& w) { return {x, w}; }
};
template <> struct quadrature_traits<UserSphere> {
  using point_type = std::array<double, 3>; using weight_type = double;
  using point_container = std::vector<point_type>; using weight_container = std::vector<double>;
  static std::tuple<point_container, weight_container> generate(const std::vector<point_type>& x, const std::vector<double>& w) { return {x, w}; }
};
template <class T, class U, bool Bounds> struct quadrature_traits<UserBase<T, U, Bounds>> {
  using point_type = T; using weight_type = U;
  using point_container = std::vector<T>; using weight_container = std::vector<U>;
  static constexpr bool bound_inclusive = Bounds;
  static T x(size_t i, size_t n) { return Bounds ? T(i) * T(0.25) : T(n - i) * T(0.25) + T(0.5); }   // ascending or descending
  static U w(size_t i, size_t n) { return U(i % 3) - U(0.5) + U(n); }
  static std::tuple<point_container, weight_container> generate(size_t n) { point_container p; weight_container v; for (size_t i = 0; i < n; ++i) { p.push_back(x(i, n)); v.push_back(w(i, n)); } return {p, v}; }
};
}  // namespace IntegratorXX
using namespace mc;
struct UserLine : Quadrature<UserLine> { using B = Quadrature<UserLine>; using B::point_type; using B::weight_type; using B::point_container; using B::weight_container;
  UserLine(const std::vector<double>& x, const std::vector<double>& w) : B(x, w) {} };
struct UserSphere : Quadrature<UserSphere> { using B = Quadrature<UserSphere>; using B::point_type; using B::weight_type; using B::point_container; using B::weight_container;
  UserSphere(const std::vector<P3>& x, const std::vector<double>& w) : B(x, w) {} };
template <class T, class U, bool Bounds> struct UserBase : Quadrature<UserBase<T, U, Bounds>> { using B = Quadrature<UserBase>; using typename B::point_type; using typename B::weight_type; using typename B::point_container; using typename B::weight_container;
  UserBase(size_t n) : B(n) {} };

// a user's map, with state
struct UserMap final : RadialTraits {
  size_t n; double a; int kind;
  UserMap(size_t n_, double a_, int k) : n(n_), a(a_), kind(k) {}
  std::unique_ptr<RadialTraits> clone() const override { return std::make_unique<UserMap>(*this); }
  size_t npts() const override { return n; }
  bool compare(const RadialTraits& o) const noexcept override { auto p = dynamic_cast<const UserMap*>(&o); return p && p->n == n && p->a == a && p->kind == kind; }
  template <class T> auto radial_transform(T x) const { return kind == 0 ? T(a) * x + T(3) : kind == 1 ? -T(a) * x : T(a) * x * x * x; }
  template <class T> auto radial_jacobian(T x) const { return kind == 0 ? T(a) : kind == 1 ? -T(a) : 3 * T(a) * x * x; }
};

namespace {
long long n_states = 0, n_trans = 0;
struct Nodes { std::vector<double> x, w; };
struct Dirs { std::vector<P3> x; std::vector<double> w; };

// all sequences of 1..len items out of n
std::vector<std::vector<int>> sequences(int n, int len) {
  std::vector<std::vector<int>> all, last = {{}};
  for (int l = 1; l <= len; ++l) { std::vector<std::vector<int>> next; for (auto& s : last) for (int i = 0; i < n; ++i) { auto t = s; t.push_back(i); next.push_back(t); } all.insert(all.end(), next.begin(), next.end()); last = next; }
  return all;
}
std::vector<Nodes> lines(int len) {
  static const double X[] = {0, 0.5, 2}, W[] = {1, -0.75, 0};
  std::vector<Nodes> v;
  for (auto& s : sequences(9, len)) { Nodes n; for (int k : s) { n.x.push_back(X[k % 3]); n.w.push_back(W[k / 3]); } v.push_back(n); }
  return v;
}
std::vector<Dirs> spheres(int len) {
  static const std::pair<P3, double> D[] = {{{0, 0, 1}, 1}, {{0, 0, 1}, -0.5}, {{0.6, -0.8, 0}, 0}, {{1, 1, 1}, 2}};
  std::vector<Dirs> v;
  for (auto& s : sequences(4, len)) { Dirs d; for (int k : s) { d.x.push_back(D[k].first); d.w.push_back(D[k].second); } v.push_back(d); }
  return v;
}
const std::vector<P3> CEN = {{0, 0, 0}, {1, -2, 0.5}};
void expect(const Nodes& r, size_t b, size_t e, const Dirs& a, const P3& c, std::vector<PW>& out) {
  for (size_t i = b; i < e; ++i) for (size_t j = 0; j < a.x.size(); ++j)
    out.push_back({{r.x[i] * a.x[j][0] + c[0], r.x[i] * a.x[j][1] + c[1], r.x[i] * a.x[j][2] + c[2]}, r.w[i] * a.w[j] * r.x[i] * r.x[i]});
}
// the same points and weights, in any order, to rounding (all coordinates are near a coarse lattice)
std::string same(std::vector<PW> got, std::vector<PW> want) {
  auto snap = [](std::vector<PW>& v) { for (auto& e : v) { for (auto& x : e.first) x = std::round(x * 1e9) / 1e9 + 0.0; e.second = std::round(e.second * 1e9) / 1e9 + 0.0; } std::sort(v.begin(), v.end()); };
  snap(got); snap(want);
  if (got.size() != want.size()) return cat(got.size(), " points instead of ", want.size());
  for (size_t i = 0; i < got.size(); ++i) if (!(got[i] == want[i])) return cat("point ", show(got[i].first), " of weight ", got[i].second, " instead of ", show(want[i].first), " of weight ", want[i].second);
  return "";
}
std::string text(const Nodes& r) { std::string s = "line{"; for (size_t i = 0; i < r.x.size(); ++i) s += cat(r.x[i], ":", r.w[i], " "); return s + "}"; }
std::string text(const Dirs& r) { std::string s = "sphere{"; for (size_t i = 0; i < r.x.size(); ++i) s += cat(show(r.x[i]), ":", r.w[i], " "); return s + "}"; }

template <class G> void judge(const std::string& what, G& g, const std::vector<PW>& want, const P3& c, bool batch) {
  ++n_states; ++n_trans;
  auto why = same(weighted(g), want);
  if (why.size()) return violation(cat(what, ": ", why));
  if (!(g.center() == c)) return violation(cat(what, ": centre is ", show(g.center())));
  if (!batch) return;
  for (size_t max = 1; max <= want.size() + 1; ++max) {
    Batcher b(max, g); ++n_trans;
    why = partition_of(walk(b), sorted(weighted(g)), max);
    if (why.size()) return violation(cat(what, ", batches of ", max, ": ", why));
  }
  // a clone, moved
  auto k = static_cast<const SphBase&>(g).clone(); ++n_trans;
  k->recenter({c[0] + 4, c[1], c[2] - 8});
  auto far = want; for (auto& e : far) { e.first[0] += 4; e.first[2] -= 8; }
  why = same(weighted(*k), far);
  if (why.size()) return violation(cat(what, ", recentered clone: ", why));
  why = same(weighted(g), want);
  if (why.size()) return violation(cat(what, ", after recentering a clone: ", why));
}

void grids(int rl, int al) {
  for (auto& r : lines(rl)) {
    if (!begin("grid/" + text(r))) continue;
    const UserLine R(r.x, r.w);
    MC_CHECK(R.points() == r.x && R.weights() == r.w && R.npts() == r.x.size(), "the rule does not hold what its traits generate");
    for (auto& a : spheres(al)) for (auto& c : CEN) {
      const UserSphere A(a.x, a.w);
      std::vector<PW> want; expect(r, 0, r.x.size(), a, c, want);
      SphericalQuadrature<UserLine, UserSphere> g(R, A, c);
      judge(cat(text(r), " x ", text(a)), g, want, c, want.size() <= 4);
    }
  }
}
void pruned(int al) {
  const std::vector<Nodes> rs = {{{0.5, 2, 2, 0}, {1, -0.75, 0, 3}}, {{2, 0.5, 0.25}, {1, 1, 2}}};
  const auto as = spheres(al);
  for (auto& r : rs) for (size_t n = r.x.size(), cuts = 0; cuts < (size_t(1) << (n - 1)); ++cuts) {
    std::vector<size_t> at = {0}; for (size_t i = 1; i < n; ++i) if (cuts >> (i - 1) & 1) at.push_back(i);
    if (at.size() > 3) continue;
    at.push_back(n);
    if (!begin(cat("pruned/", text(r), "/", cuts))) continue;
    const UserLine R(r.x, r.w);
    std::vector<UserSphere> A; for (auto& a : as) A.emplace_back(a.x, a.w);
    const size_t parts = at.size() - 1; std::vector<size_t> pick(parts, 0);
    for (;;) {
      RadialGridPartition<UserSphere> p;
      std::vector<PW> want; const auto& c = CEN[1];
      std::string what = text(r);
      for (size_t k = 0; k < parts; ++k) { p.add_quad(R, at[k], A[pick[k]]); expect(r, at[k], at[k + 1], as[pick[k]], c, want); what += cat(" [", at[k], ",", at[k + 1], ") ", text(as[pick[k]])); }
      p.finalize(R);
      PrunedSphericalQuadrature<UserLine, UserSphere> g(R, p, c);
      judge(what, g, want, c, want.size() <= 5);
      size_t k = 0; while (k < parts && ++pick[k] == as.size()) pick[k++] = 0;
      if (k == parts) break;
    }
  }
}
void slices(int rl) {
  if (!begin("slices")) return;
  for (auto& r : lines(rl)) {
    const UserLine R(r.x, r.w);
    for (size_t b = 0; b < r.x.size(); ++b) for (size_t e = b + 1; e <= r.x.size(); ++e) {
      const SubQuadrature<UserLine> s({b, e}, R); ++n_states; ++n_trans;
      MC_CHECK(s.npts() == e - b && std::equal(s.points().begin(), s.points().end(), r.x.begin() + b) && std::equal(s.weights().begin(), s.weights().end(), r.w.begin() + b), text(r), " [", b, ",", e, "): not the slice");
    }
  }
}
template <class Base> void transform(const std::string& name, size_t N, bool bounds) {
  using T = typename Base::point_type; using U = typename Base::weight_type; using Q = RadialTransformQuadrature<Base, UserMap>;
  if (!begin("map/" + name)) return;
  for (size_t n = 1; n <= N; ++n) for (double a : {1.0, 0.5, -2.0}) for (int kind = 0; kind < 3; ++kind) {
    const UserMap t(n, a, kind); const RadialTraits& base = t;
    const auto [x, w] = quadrature_traits<Base>::generate(bounds ? n + 2 : n);
    std::vector<std::pair<ld, ld>> want, got;
    for (size_t i = 0; i < n; ++i) { const ld y = x[i + bounds]; want.push_back({kind == 0 ? a * y + 3 : kind == 1 ? -a * y : a * y * y * y, w[i + bounds] * (kind == 0 ? ld(a) : kind == 1 ? -ld(a) : 3 * a * y * y)}); }
    for (int route = 0; route < 3; ++route) {
      const Q q = route == 0 ? Q(t) : route == 1 ? Q(base) : Q(n, a, kind);
      ++n_states; ++n_trans;
      got.clear(); for (size_t i = 0; i < q.npts(); ++i) got.push_back({q.points()[i], q.weights()[i]});
      MC_CHECK(q.npts() == n && q.weights().size() == n, name, " n=", n, ": ", q.npts(), " points");
      if (got.size() != want.size()) return;
      const ld tol = 32 * std::max<ld>(std::numeric_limits<T>::epsilon(), std::numeric_limits<U>::epsilon());
      bool inorder = true;
      auto fits = [&](size_t i, size_t j) { return close(got[i].first, want[j].first, tol, tol * 4) && close(got[i].second, want[j].second, tol, tol * 4); };
      for (size_t i = 0; i < n; ++i) inorder = inorder && fits(i, i);
      if (!inorder) {   // any order will do
        std::vector<char> used(n, 0);
        for (size_t i = 0; i < n; ++i) { bool ok = false; for (size_t j = 0; j < n && !ok; ++j) if (!used[j] && fits(i, j)) used[j] = ok = true;
          if (!ok) { violation(cat(name, " n=", n, " a=", a, " map ", kind, " route ", route, ": node ", got[i].first, " of weight ", got[i].second, " is not the image of a base node (expected ", want[i].first, ", ", want[i].second, ")")); return; } }
      }
    }
    MC_CHECK(outcome([&] { Q q(static_cast<const RadialTraits&>(BeckeRadialTraits(n, 1.0))); }) != "", name, ": traits of another scheme are accepted");
  }
}
}  // namespace

int main(int argc, char** argv) {
  init(argc, argv);
  const int rl = thorough() ? 4 : 3, al = thorough() ? 3 : 2;
  grids(rl, 2); if (thorough()) grids(3, 3);
  pruned(al);
  slices(thorough() ? 5 : 4);
  const size_t N = thorough() ? 200 : 48;
  transform<GaussChebyshev2<double, double>>("GaussChebyshev2", N, false);
  transform<UniformTrapezoid<double, double>>("UniformTrapezoid", N, true);
  transform<GaussChebyshev2<long double, long double>>("GaussChebyshev2<long double>", N, false);
  transform<UniformTrapezoid<float, float>>("UniformTrapezoid<float>", N, true);
  transform<UserBase<double, double, false>>("user's base, open", N, false);
  transform<UserBase<double, double, true>>("user's base, with its bounds", N, true);
  transform<UserBase<double, float, true>>("user's base<double,float>, with its bounds", N, true);
  transform<UserBase<long double, long double, false>>("user's base<long double>, open", N, false);
  count("states", n_states); count("transitions", n_trans);
  info("space", cat("all rules of 1..", rl, " nodes out of 3 places x 3 weights with all angular rules of 1..2 out of 4 weighted directions, two centres, all batch sizes; all cuts of two radial rules into up to 3 regions with all choices of angular rules; user maps over 8 base rules"));
  sample("line{2:-0.75 2:0 0:1 } x sphere{(0,0,1):1 (0,0,1):-0.5 } about (1,-2,0.5)");
  return finish();
}
