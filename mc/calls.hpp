// An alphabet of generating calls.  Each returns everything observable about its result as bytes, and a handle to the result.
#pragma once
#include "routes.hpp"
#include "batch.hpp"

namespace mc {
struct Made {
  std::string bytes;                    // what the caller sees, bit for bit
  std::shared_ptr<void> object;         // the result itself
  std::function<void()> spoil;          // writes over everything the caller may write
};
struct Call { std::string name; std::function<Made()> make; };

// like cat, for numbers and text, but without streams (their locale is shared by all threads)
inline void app(std::string& s, const std::string& x) { s += x; }
template <class T, class = std::enable_if_t<std::is_integral_v<T>>> void app(std::string& s, T x) { s += std::to_string(x); }
template <class... A> std::string say(const A&... a) { std::string s; (app(s, a), ...); return s; }
inline void put(std::string& s, const void* p, size_t n) { s.append(static_cast<const char*>(p), n); }
template <class T> void put_real(std::string& s, const T& x) { put(s, &x, std::is_same_v<T, long double> ? 10 : sizeof(T)); }
template <class T> void put_pt(std::string& s, const T& x) { if constexpr (std::is_arithmetic_v<T>) put_real(s, x); else for (auto& c : x) put_real(s, c); }
template <class Q> std::string bytes_of(const Q& q) {
  std::string s = say(q.npts(), "|", q.points().size(), "|", q.weights().size(), "|");
  for (auto& p : q.points()) put_pt(s, p);
  for (auto& w : q.weights()) put_real(s, w);
  return s;
}
template <class Q> void spoil_it(Q& q) {
  for (auto& p : q.points()) { if constexpr (std::is_arithmetic_v<std::decay_t<decltype(p)>>) p = -77; else for (auto& c : p) c = -77; }
  for (auto& w : q.weights()) w = -99;
}
template <class Q> Made made(Q q) {
  auto o = std::make_shared<Q>(std::move(q));
  return {bytes_of(*o), o, [o] { spoil_it(*o); }};
}
template <class T> Made made_shared(std::shared_ptr<T> o) { return {bytes_of(*o), o, [o] { spoil_it(*o); }}; }
inline Made made_sph(std::shared_ptr<SphBase> o) {
  std::string s = bytes_of(*o); put_pt(s, o->center());
  return {s, o, [o] { o->recenter({4, 5, 6}); spoil_it(*o); }};
}
inline Made made_batcher(Batcher b) {
  auto o = std::make_shared<Batcher>(std::move(b));
  std::string s = say(o->nbatches(), "/", o->max_batch_size(), "/");
  for (auto it = o->cbegin(); it != o->cend(); ++it) { auto v = seen(*it); s += say(v.p.size(), ":"); put_pt(s, v.lo); put_pt(s, v.up); for (auto& p : v.p) put_pt(s, p); for (auto w : v.w) put_real(s, w); }
  put_pt(s, o->quadrature().center());
  return {s, o, [o] { o->recenter({7, 8, 9}); spoil_it(o->quadrature()); }};
}
inline std::string bytes_of(const std::vector<PruningRegion>& r) { std::string s; for (auto& x : r) s += say(x.idx_st, "-", x.idx_en, ":", unsigned(x.angular_quad), ",", x.angular_size, ";"); return s; }

inline std::vector<Call> alphabet() {
  using B = Becke<double, double>; using M = MurrayHandyLaming<double, double>; using L = LebedevLaikov<double>; using W = Womersley<double>;
  std::vector<Call> a;
  auto add = [&](const char* n, std::function<Made()> f) { a.push_back({n, std::move(f)}); };
  add("GaussLegendre(7)", [] { return made(GaussLegendre<double, double>(7)); });
  add("GaussLegendre(8)", [] { return made(GaussLegendre<double, double>(8)); });
  add("GaussLegendre<float>(7)", [] { return made(GaussLegendre<float, float>(7)); });
  add("GaussLobatto(6)", [] { return made(GaussLobatto<double, double>(6)); });
  add("GaussChebyshev1(5)", [] { return made(GaussChebyshev1<double, double>(5)); });
  add("GaussChebyshev2(5)", [] { return made(GaussChebyshev2<double, double>(5)); });
  add("GaussChebyshev2Modified(5)", [] { return made(GaussChebyshev2Modified<double, double>(5)); });
  add("GaussChebyshev3(5)", [] { return made(GaussChebyshev3<double, double>(5)); });
  add("UniformTrapezoid(5,-1,2)", [] { return made(UniformTrapezoid<double, double>(5, -1, 2)); });
  add("Becke(6,1.5)", [] { return made(B(6, 1.5)); });
  add("Becke(6,2)", [] { return made(B(6, 2.0)); });
  add("MurrayHandyLaming(6,1.5)", [] { return made(M(6, 1.5)); });
  add("MuraKnowles(6,1.5)", [] { return made(MuraKnowles<double, double>(6, 1.5)); });
  add("TreutlerAhlrichs(6,1.5)", [] { return made(TreutlerAhlrichs<double, double>(6, 1.5)); });
  add("TreutlerAhlrichs(6,1.5,0.3)", [] { return made(TreutlerAhlrichs<double, double>(6, 1.5, 0.3)); });
  add("LebedevLaikov(26)", [] { return made(L(26)); });
  add("LebedevLaikov(14)", [] { return made(L(14)); });
  add("Delley(26)", [] { return made(Delley<double>(26)); });
  add("AhrensBeylkin(72)", [] { return made(AhrensBeylkin<double>(72)); });
  add("Womersley(26)", [] { return made(W(26)); });
  add("radial generator", [] { return made_shared(RadialFactory::generate(RadialQuad::MurrayHandyLaming, *make_radial_traits(RadialQuad::MurrayHandyLaming, size_t(6), 1.5))); });
  add("angular generator", [] { return made_shared(S2Factory::generate(AngularQuad::LebedevLaikov, 26)); });
  add("spherical grid", [] { return made_sph(std::make_shared<SphericalQuadrature<B, L>>(B(3, 1.0), L(6), P3{1, 2, 3})); });
  add("pruned grid", [] { const B r(4, 1.0); return made_sph(std::make_shared<PrunedSphericalQuadrature<B, L>>(r, RadialGridPartition<L>(r, 0, L(6), 1, L(14)), P3{0, 0, 1})); });
  add("unpruned generator", [] { return made_sph(SphericalGridFactory::generate_unpruned_grid(RadialQuad::Becke, *make_radial_traits(RadialQuad::Becke, size_t(3), 1.0), AngularQuad::Womersley, 14)); });
  add("unpruned generator, other scale", [] { return made_sph(SphericalGridFactory::generate_unpruned_grid(RadialQuad::Becke, *make_radial_traits(RadialQuad::Becke, size_t(3), 2.0), AngularQuad::Womersley, 14)); });
  add("robust scheme", [] { auto s = create_pruned_spec(PruningScheme::Robust, UnprunedSphericalGridSpecification(RadialQuad::MuraKnowles, *make_radial_traits(RadialQuad::MuraKnowles, size_t(5), 1.5), AngularQuad::LebedevLaikov, 50));
    auto m = made_sph(SphericalGridFactory::generate_grid(s)); m.bytes += bytes_of(s.pruning_regions); return m; });
  add("Treutler scheme", [] { auto s = create_pruned_spec(PruningScheme::Treutler, UnprunedSphericalGridSpecification(RadialQuad::TreutlerAhlrichs, *make_radial_traits(RadialQuad::TreutlerAhlrichs, size_t(5), 1.5), AngularQuad::Delley, 50));
    auto m = made_sph(SphericalGridFactory::generate_grid(s)); m.bytes += bytes_of(s.pruning_regions); return m; });
  add("batcher of 5", [] { return made_batcher(Batcher(5, AnyQuad(B(3, 1.0), L(6), P3{1, 0, 0}))); });
  add("batcher of 9, pruned", [] { const B r(4, 1.0); return made_batcher(Batcher(9, PrunedSphericalQuadrature<B, L>(r, RadialGridPartition<L>(r, 0, L(6), 1, L(14)), P3{0, 0, 1}))); });
  add("names", [] { return Made{say(unsigned(radial_from_string("mhl")), unsigned(angular_from_string("Lebedev")), int(angular_from_string("WOMERSLEY"))), nullptr, [] {}}; });
  add("clone and compare traits", [] { auto t = make_radial_traits(RadialQuad::TreutlerAhlrichs, size_t(5), 1.5, 0.2); auto c = t->clone(); return Made{say(c->compare(*t), c->npts()), std::shared_ptr<void>(std::move(c)), [] {}}; });
  add("a refused size", [] { std::string s = "accepted"; try { S2Factory::generate(AngularQuad::LebedevLaikov, 27); } catch (const std::exception&) { s = "refused"; } return Made{s, nullptr, [] {}}; });
  add("refused regions", [] { std::string s = "accepted"; try { SphericalGridFactory::generate_pruned_grid(RadialQuad::Becke, *make_radial_traits(RadialQuad::Becke, size_t(3), 1.0), {{0, 1, AngularQuad::LebedevLaikov, 26}, {1, 2, AngularQuad::LebedevLaikov, 14}}); } catch (const std::exception&) { s = "refused"; } return Made{s, nullptr, [] {}}; });
  return a;
}
}  // namespace mc
