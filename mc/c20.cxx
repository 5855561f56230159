// C20: quadratures are values, and all accessors see the same nodes: every history of a small alphabet against plain vectors.
#include "sph.hpp"
#include <optional>
using namespace mc;

namespace {
long long n_states = 0, n_trans = 0;
template <class Q> struct Model { std::vector<typename Q::point_type> p; std::vector<typename Q::weight_type> w; };

template <class Base, class M> std::string view(const Base& c, const M& m) {
  auto& q = const_cast<Base&>(c);   // the objects are not constant themselves
  const size_t n = m.p.size();
  if (c.npts() != n) return cat("npts is ", c.npts(), " instead of ", n);
  if (c.points().size() != n || c.weights().size() != n || q.points().size() != n || q.weights().size() != n) return "the containers have another size";
  if (c.points_data() != c.points().data() || c.weights_data() != c.weights().data() || q.points_data() != q.points().data() || q.weights_data() != q.weights().data()) return "the data pointers are not those of the containers";
  if (static_cast<const void*>(q.points_data()) != c.points_data() || static_cast<const void*>(q.weights_data()) != c.weights_data()) return "constant and mutable access differ";
  for (size_t i = 0; i < n; ++i) {
    if (!(c.points()[i] == m.p[i]) || !(c.points(i) == m.p[i]) || !(c.points_data()[i] == m.p[i]) || !(q.points()[i] == m.p[i])) return cat("point ", i, " differs");
    if (!(c.weights()[i] == m.w[i]) || !(c.weights(i) == m.w[i]) || !(c.weights_data()[i] == m.w[i]) || !(q.weights()[i] == m.w[i])) return cat("weight ", i, " differs");
  }
  for (size_t i : {n, n + 1, n + 1000, size_t(1) << 32, (size_t(1) << 61), ~size_t(0)}) {
    if (outcome([&] { c.points(i); }).empty()) return cat("point ", i, " of ", n, " can be read");
    if (outcome([&] { c.weights(i); }).empty()) return cat("weight ", i, " of ", n, " can be read");
  }
  return "";
}
// the object as itself, as its quadrature base and as storage
template <class Q, class M> std::string agrees(const Q& q, const M& m) {
  using PC = typename Quadrature<Q>::point_container; using WC = typename Quadrature<Q>::weight_container;
  const Quadrature<Q>& b = q; const QuadratureBase<PC, WC>& s = q;
  if (q.npts() != m.p.size() || !(q.points() == m.p) || !(q.weights() == m.w)) return "the object differs";
  auto why = view(b, m); if (!why.empty()) return "as a quadrature: " + why;
  why = view(s, m); if (!why.empty()) return "as storage: " + why;
  return "";
}
template <class P> void spoil(P& p, int k) { if constexpr (std::is_arithmetic_v<P>) p = P(1000 + k); else p = {typename P::value_type(1000 + k), typename P::value_type(-k), typename P::value_type(k)}; }

template <class Q, class = void> constexpr bool movable = false;
template <class Q> constexpr bool movable<Q, std::void_t<decltype(std::declval<Q&>().recenter(std::array<double, 3>{}))>> = true;
constexpr int NOPS = 16;
// two slots holding a quadrature, one holding its base; operations construct from, move between, and write through every accessor
template <class Q> struct World {
  std::optional<Q> s[2]; std::optional<Quadrature<Q>> b; Model<Q> m[2], mb; bool gone[2] = {false, false}; int tick = 0;
  std::string bad;
  void fresh(int i, const Q& q) { s[i].emplace(q); m[i].p = q.points(); m[i].w = q.weights(); gone[i] = false; }
  bool apply(int op, const Q& first, const Q& second, std::string& hist) {
    using Base = Quadrature<Q>;
    ++tick;
    auto write = [&](int i, int how) {
      Q& q = *s[i]; Base& bq = q; const size_t n = m[i].p.size(); if (!n) return;
      const size_t at = how % 2 ? n - 1 : 0;
      if (how == 0) { spoil(q.points()[at], tick); q.weights()[at] = typename Q::weight_type(tick); }
      else if (how == 1) { spoil(bq.points()[at], tick); bq.weights()[at] = typename Q::weight_type(tick); }
      else { spoil(bq.points_data()[at], tick); bq.weights_data()[at] = typename Q::weight_type(tick); }
      spoil(m[i].p[at], tick); m[i].w[at] = typename Q::weight_type(tick);
    };
    switch (op) {
      case 0: hist += "b=copy(a); "; if (gone[0]) return false; { Q t(*s[0]); s[1].reset(); s[1].emplace(std::move(t)); m[1] = m[0]; gone[1] = false; } break;
      case 1: hist += "a=copy(b); "; if (gone[1]) return false; s[0].reset(); s[0].emplace(static_cast<const Q&>(*s[1])); m[0] = m[1]; gone[0] = false; break;
      case 2: hist += "b=move(a); "; if (gone[0]) return false; s[1].reset(); s[1].emplace(std::move(*s[0])); m[1] = m[0]; gone[0] = true; gone[1] = false; break;
      case 3: hist += "a=move(b); "; if (gone[1]) return false; s[0].reset(); s[0].emplace(std::move(*s[1])); m[0] = m[1]; gone[1] = true; gone[0] = false; break;
      case 4: hist += "a=first; "; fresh(0, first); break;
      case 5: hist += "b=second; "; fresh(1, second); break;
      case 6: case 7: case 8: hist += cat("write a by ", op - 6, "; "); if (gone[0]) return false; write(0, op - 6); break;
      case 9: hist += "write b; "; if (gone[1]) return false; write(1, 2); break;
      case 10: hist += "base=slice(a); "; if (gone[0]) return false; b.reset(); b.emplace(static_cast<const Q&>(*s[0])); mb = m[0]; break;
      case 11: hist += "base=slice(move(b)); "; if (gone[1]) return false; { Q t(*s[1]); b.reset(); b.emplace(std::move(t)); mb = m[1]; } break;
      case 12: hist += "base=copy(base); "; { Quadrature<Q> t(*b); spoilall(*b); b.reset(); b.emplace(std::move(t)); } break;
      case 13: hist += "write base; "; if (mb.p.empty()) return false; spoil(b->points()[0], tick); b->weights_data()[0] = typename Q::weight_type(tick); spoil(mb.p[0], tick); mb.w[0] = typename Q::weight_type(tick); break;
      case 14: hist += "move centre of a; "; if (gone[0] || !movable<Q>) return false; recentre(tick); break;
      default: hist += "storage copy of a; "; if (gone[0]) return false; { const QuadratureBase<typename Base::point_container, typename Base::weight_container> t(*s[0]); const auto why = view(t, m[0]); if (!why.empty()) bad = "copy of the storage: " + why; }
    }
    return true;
  }
  // a grid moved as a whole: every accessor sees the moved points
  void recentre(int k) {
    if constexpr (movable<Q>) {
    Q& q = *s[0]; const P3 was = q.center(), to{double(k), -2, 0.5 * k};
    q.recenter(to);
    if (!(q.center() == to)) bad = "the centre is not the one given";
    const Quadrature<Q>& base = q;   // the first look after the move is through the base
    if (base.npts() != m[0].p.size()) { bad = "moving the centre changed the number of points"; return; }
    for (size_t i = 0; i < m[0].p.size(); ++i) {
      const auto got = base.points_data()[i];
      for (int d = 0; d < 3; ++d) if (!(std::fabs(got[d] - (m[0].p[i][d] + (to[d] - was[d]))) <= 1e-13 * (1e4 + std::fabs(got[d])))) { bad = cat("point ", i, " did not move with the centre"); return; }
      m[0].p[i] = got;
    }
    }
  }
  void spoilall(Quadrature<Q>& q) { for (auto& p : q.points()) spoil(p, -5); for (auto& w : q.weights()) w = typename Q::weight_type(-7); }
  std::string check() const {
    if (!bad.empty()) return bad;
    for (int i = 0; i < 2; ++i) if (!gone[i]) { auto why = agrees(*s[i], m[i]); if (!why.empty()) return cat("quadrature ", i ? "b" : "a", ": ", why); }
    auto why = view(*b, mb); if (!why.empty()) return "sliced base: " + why;
    return "";
  }
};
template <class Q> void explore(const Q& first, const Q& second, std::vector<int>& prefix, int depth) {
  for (int op = 0; op < NOPS; ++op) {
    World<Q> w; w.fresh(0, first); w.fresh(1, second); w.b.emplace(first); w.mb = w.m[0];
    std::string hist;
    for (int o : prefix) w.apply(o, first, second, hist);
    if (!w.apply(op, first, second, hist)) continue;
    ++n_trans; ++n_states;
    const auto why = w.check();
    if (!why.empty()) return violation(cat("after ", hist, why));
    if (depth > 1) { prefix.push_back(op); explore(first, second, prefix, depth - 1); prefix.pop_back(); }
  }
}
// every size: a fresh object and its copies, read through every accessor
template <class Q, class Make> void type(const std::string& name, const std::vector<size_t>& sizes, Make&& make, int depth) {
  if (begin("sizes/" + name)) for (size_t n : sizes) {
    const Q q = make(n); Model<Q> m{q.points(), q.weights()};
    auto why = agrees(q, m);
    MC_CHECK(why.empty(), name, "(", n, "): ", why);
    Q c(q); for (auto& p : c.points()) spoil(p, 3); for (auto& w : c.weights()) w = 9;
    why = agrees(q, m); MC_CHECK(why.empty(), name, "(", n, "), after changing a copy: ", why);
    Q d(q), e(std::move(d)); why = agrees(e, m); MC_CHECK(why.empty(), name, "(", n, "), moved: ", why);
    const Quadrature<Q> b(q); why = view(b, m); MC_CHECK(why.empty(), name, "(", n, "), sliced: ", why);
    n_trans += 4; ++n_states;
  }
  if (begin("history/" + name)) { std::vector<int> p; explore<Q>(make(sizes[0]), make(sizes[1]), p, depth + (thorough() ? 1 : 0) - (sanitized ? 1 : 0)); }
}
template <class Q> void large(const std::string& name, const Q& q) {
  if (!begin("large/" + name)) return;
  const Model<Q> m{q.points(), q.weights()};
  auto why = agrees(q, m); MC_CHECK(why.empty(), name, "(", q.npts(), "): ", why);
  Q c(q); for (auto& p : c.points()) spoil(p, 3); for (auto& w : c.weights()) w = 9;
  why = agrees(q, m); MC_CHECK(why.empty(), name, "(", q.npts(), "), after changing a copy: ", why);
  Q d(q), e(std::move(d)); why = agrees(e, m); MC_CHECK(why.empty(), name, "(", q.npts(), "), moved: ", why);
  const Quadrature<Q> b(q); why = view(b, m); MC_CHECK(why.empty(), name, "(", q.npts(), "), sliced: ", why);
  n_trans += 4; ++n_states;
}
std::vector<size_t> upto(size_t b, size_t n) { std::vector<size_t> v; for (size_t i = b; i <= n; ++i) v.push_back(i); return v; }
template <class T> void one_dimensional(const char* ty, int d) {
  type<GaussLegendre<T, T>>(cat("GaussLegendre<", ty, ">"), upto(2, 60), [](size_t n) { return GaussLegendre<T, T>(n); }, d);
  type<GaussLobatto<T, T>>(cat("GaussLobatto<", ty, ">"), upto(2, 60), [](size_t n) { return GaussLobatto<T, T>(n); }, d);
  type<GaussChebyshev1<T, T>>(cat("GaussChebyshev1<", ty, ">"), upto(1, 60), [](size_t n) { return GaussChebyshev1<T, T>(n); }, d);
  type<GaussChebyshev2<T, T>>(cat("GaussChebyshev2<", ty, ">"), upto(1, 60), [](size_t n) { return GaussChebyshev2<T, T>(n); }, d);
  type<GaussChebyshev2Modified<T, T>>(cat("GaussChebyshev2Modified<", ty, ">"), upto(1, 60), [](size_t n) { return GaussChebyshev2Modified<T, T>(n); }, d);
  type<GaussChebyshev3<T, T>>(cat("GaussChebyshev3<", ty, ">"), upto(1, 60), [](size_t n) { return GaussChebyshev3<T, T>(n); }, d);
  type<UniformTrapezoid<T, T>>(cat("UniformTrapezoid<", ty, ">"), upto(2, 60), [](size_t n) { return UniformTrapezoid<T, T>(n, T(-1), T(2)); }, d);
  type<Becke<T, T>>(cat("Becke<", ty, ">"), upto(1, 60), [](size_t n) { return Becke<T, T>(n, 1.5); }, d);
  type<MurrayHandyLaming<T, T>>(cat("MurrayHandyLaming<", ty, ">"), upto(1, 60), [](size_t n) { return MurrayHandyLaming<T, T>(n, 1.5); }, d);
  type<MuraKnowles<T, T>>(cat("MuraKnowles<", ty, ">"), upto(1, 60), [](size_t n) { return MuraKnowles<T, T>(n, 1.5); }, d);
  type<TreutlerAhlrichs<T, T>>(cat("TreutlerAhlrichs<", ty, ">"), upto(1, 60), [](size_t n) { return TreutlerAhlrichs<T, T>(n, 1.5); }, d);
}
template <class T> void angular(const char* ty, int d) {
  type<LebedevLaikov<T>>(cat("LebedevLaikov<", ty, ">"), ALL::some(), [](size_t n) { return LebedevLaikov<T>(n); }, d);
  type<Delley<T>>(cat("Delley<", ty, ">"), ADE::some(), [](size_t n) { return Delley<T>(n); }, d);
  type<AhrensBeylkin<T>>(cat("AhrensBeylkin<", ty, ">"), AAB::some(), [](size_t n) { return AhrensBeylkin<T>(n); }, d);
  type<Womersley<T>>(cat("Womersley<", ty, ">"), AWO::some(), [](size_t n) { return Womersley<T>(n); }, d);
}
}  // namespace

int main(int argc, char** argv) {
  init(argc, argv);
  one_dimensional<double>("double", 3); one_dimensional<float>("float", 2); one_dimensional<long double>("long double", 2);
  angular<double>("double", 3); angular<float>("float", 2);
  using B = Becke<double, double>; using L = LebedevLaikov<double>;
  type<SphericalQuadrature<B, L>>("SphericalQuadrature", upto(1, 12), [](size_t n) { return SphericalQuadrature<B, L>(B(n, 1.0), L(6), P3{1, 2, 3}); }, 3);
  type<PrunedSphericalQuadrature<B, L>>("PrunedSphericalQuadrature", upto(2, 12), [](size_t n) { const B r(n, 1.0); return PrunedSphericalQuadrature<B, L>(r, RadialGridPartition<L>(r, 0, L(6), 1, L(14)), P3{1, 2, 3}); }, 3);
  type<SubQuadrature<B>>("SubQuadrature", upto(1, 12), [](size_t n) { return SubQuadrature<B>({1, 1 + n}, B(14, 1.0)); }, 3);
  large("GaussChebyshev1<double>", GaussChebyshev1<double, double>(70001)); large("GaussChebyshev3<float>", GaussChebyshev3<float, float>(70001)); large("UniformTrapezoid<double>", UniformTrapezoid<double, double>(70001, -1., 2.));
  large("Becke<double>", B(70001, 1.5)); large("MuraKnowles<long double>", MuraKnowles<long double, long double>(70001, 1.5)); large("TreutlerAhlrichs<double>", TreutlerAhlrichs<double, double>(70001, 1.5));
  large("LebedevLaikov<double>", L(5810)); large("Womersley<double>", Womersley<double>(AWO::some().back()));
  large("SphericalQuadrature", SphericalQuadrature<B, L>(B(12, 1.0), L(5810), P3{1, 2, 3})); large("SubQuadrature", SubQuadrature<B>({5, 70000}, B(70001, 1.0)));
  count("states", n_states); count("transitions", n_trans);
  info("space", "all 18 quadrature types, up to three floating-point types, 4-60 sizes each through all accessors; every history of 3 (2 in float and long double; thorough one more) out of 16 operations on two objects and a sliced base, moving the centre among them, against plain vectors; 10 rules and grids of up to 70001 points");
  sample("Becke<double>: b=move(a); base=slice(move(b)); write b");
  return finish();
}
