// C31: every type is what it and the library's predicates say: element and container types, kinds, bases, moves.
#include "batch.hpp"
#include <integratorxx/generators/radial_factory.hpp>
#include <integratorxx/generators/s2_factory.hpp>
using namespace mc;
using RQ = RadialQuad; using AQ = AngularQuad;

namespace {
long long n_states = 0, n_trans = 0;
template <class T> const char* nm() { return std::is_same_v<T, float> ? "float" : std::is_same_v<T, double> ? "double" : "long double"; }
// the kind of a type, by its class template alone
struct Kind { int radial = -1, angular = -1; };   // index into the lists below
const RQ RADIAL[] = {RQ::Becke, RQ::MurrayHandyLaming, RQ::MuraKnowles, RQ::TreutlerAhlrichs};
const AQ ANGULAR[] = {AQ::AhrensBeylkin, AQ::Delley, AQ::LebedevLaikov, AQ::Womersley};

template <class Q, class P, class W, class Traits = quadrature_traits<Q>> void judge(const std::string& name, Kind k) {
  if (!begin(name)) return;
  ++n_states;
  auto is = [&](bool ok, const char* what) { ++n_trans; if (!ok) violation(cat(name, ": ", what)); };
  using VP = std::vector<P>; using VW = std::vector<W>;
  is(std::is_same_v<typename Q::point_type, P> && std::is_same_v<typename Q::weight_type, W>, "point_type or weight_type of the class");
  is(std::is_same_v<typename Q::point_container, VP> && std::is_same_v<typename Q::weight_container, VW>, "point_container or weight_container of the class");
  is(std::is_same_v<typename Traits::point_type, P> && std::is_same_v<typename Traits::weight_type, W>, "point_type or weight_type of its traits");
  is(std::is_same_v<typename Traits::point_container, VP> && std::is_same_v<typename Traits::weight_container, VW>, "point_container or weight_container of its traits");
  is(std::is_base_of_v<Quadrature<Q>, Q> && std::is_base_of_v<QuadratureBase<VP, VW>, Q>, "bases");
  using C = const Q&; using N = Q&;
  is(std::is_same_v<std::decay_t<decltype(std::declval<C>().points())>, VP> && std::is_same_v<std::decay_t<decltype(std::declval<C>().weights())>, VW>, "types of points() and weights()");
  is(std::is_same_v<std::decay_t<decltype(*std::declval<C>().points_data())>, P> && std::is_same_v<std::decay_t<decltype(*std::declval<C>().weights_data())>, W>, "types of points_data() and weights_data()");
  is(std::is_const_v<std::remove_reference_t<decltype(std::declval<C>().points())>> && std::is_const_v<std::remove_reference_t<decltype(std::declval<C>().weights())>>, "a constant object lets its nodes be changed");
  is(!std::is_const_v<std::remove_reference_t<decltype(std::declval<N>().points())>> && !std::is_const_v<std::remove_reference_t<decltype(std::declval<N>().weights())>>, "an object does not let its nodes be changed");
  is(std::is_const_v<std::remove_pointer_t<decltype(std::declval<C>().points_data())>> && std::is_const_v<std::remove_pointer_t<decltype(std::declval<C>().weights_data())>>, "data pointers of a constant object let its nodes be changed");
  is(std::is_copy_constructible_v<Q> && std::is_nothrow_move_constructible_v<Q>, "copying, or moving without exceptions");
  is(std::is_copy_constructible_v<Quadrature<Q>> && std::is_nothrow_move_constructible_v<Quadrature<Q>>, "copying, or moving its base without exceptions");
  is(std::is_constructible_v<Quadrature<Q>, const Q&> && std::is_convertible_v<const Q&, Quadrature<Q>>, "conversion to its base");
  // predicates and kinds
  const bool r[] = {detail::is_becke_v<Q>, detail::is_mhl_v<Q>, detail::is_mk_v<Q>, detail::is_ta_v<Q>};
  const bool a[] = {detail::is_ahrens_beyklin_v<Q>, detail::is_delley_v<Q>, detail::is_lebedev_laikov_v<Q>, detail::is_womersley_v<Q>};
  for (int i = 0; i < 4; ++i) is(r[i] == (k.radial == i), "a radial predicate");
  for (int i = 0; i < 4; ++i) is(a[i] == (k.angular == i), "an angular predicate");
  is(detail::is_cartesian_quadrature_v<Q> == std::is_same_v<P, std::array<W, 3>>, "is_cartesian_quadrature");
  bool threw = false; RQ rq{}; try { rq = radial_from_type<Q>(); } catch (const std::exception&) { threw = true; }
  is(k.radial < 0 ? threw : !threw && rq == RADIAL[k.radial], "radial_from_type");
  threw = false; AQ aq{}; try { aq = angular_from_type<Q>(); } catch (const std::exception&) { threw = true; }
  is(k.angular < 0 ? threw : !threw && aq == ANGULAR[k.angular], "angular_from_type");
}

template <class P, class W> void lines() {
  const std::string s = cat("<", nm<P>(), ",", nm<W>(), ">");
  judge<GaussLegendre<P, W>, P, W>("GaussLegendre" + s, {}); judge<GaussLobatto<P, W>, P, W>("GaussLobatto" + s, {});
  judge<GaussChebyshev1<P, W>, P, W>("GaussChebyshev1" + s, {}); judge<GaussChebyshev2<P, W>, P, W>("GaussChebyshev2" + s, {});
  judge<GaussChebyshev2Modified<P, W>, P, W>("GaussChebyshev2Modified" + s, {}); judge<GaussChebyshev3<P, W>, P, W>("GaussChebyshev3" + s, {});
  judge<UniformTrapezoid<P, W>, P, W>("UniformTrapezoid" + s, {});
  judge<Becke<P, W>, P, W>("Becke" + s, {0, -1}); judge<MurrayHandyLaming<P, W>, P, W>("MurrayHandyLaming" + s, {1, -1});
  judge<MuraKnowles<P, W>, P, W>("MuraKnowles" + s, {2, -1}); judge<TreutlerAhlrichs<P, W>, P, W>("TreutlerAhlrichs" + s, {3, -1});
  // relatives which are of no scheme
  using U = UniformTrapezoid<P, W>; using G = GaussChebyshev2<P, W>;
  judge<RadialTransformQuadrature<U, MurrayHandyLamingRadialTraits<1>>, P, W>("MHL order 1" + s, {});
  judge<RadialTransformQuadrature<U, MurrayHandyLamingRadialTraits<3>>, P, W>("MHL order 3" + s, {});
  judge<RadialTransformQuadrature<G, MurrayHandyLamingRadialTraits<2>>, P, W>("MHL map of GaussChebyshev2" + s, {});
  judge<RadialTransformQuadrature<U, BeckeRadialTraits>, P, W>("Becke map of UniformTrapezoid" + s, {});
  judge<RadialTransformQuadrature<G, MuraKnowlesRadialTraits>, P, W>("MuraKnowles map of GaussChebyshev2" + s, {});
  judge<RadialTransformQuadrature<U, TreutlerAhlrichsRadialTraits>, P, W>("TreutlerAhlrichs map of UniformTrapezoid" + s, {});
  judge<SubQuadrature<Becke<P, W>>, P, W>("slice of Becke" + s, {}); judge<SubQuadrature<GaussLobatto<P, W>>, P, W>("slice of GaussLobatto" + s, {});
}
template <class R, class A, class T> void composite(const std::string& s) {
  using P = std::array<T, 3>;
  judge<SphericalQuadrature<R, A>, P, T>("Spherical" + s, {}); judge<PrunedSphericalQuadrature<R, A>, P, T>("Pruned" + s, {});
  if (!begin("bases/" + s)) return;
  using Base = SphericalQuadratureBase<std::vector<P>, std::vector<T>>;
  ++n_states; n_trans += 4;
  MC_CHECK((std::is_base_of_v<Base, SphericalQuadrature<R, A>> && std::is_base_of_v<Base, PrunedSphericalQuadrature<R, A>>), s, ": grids are not spherical quadratures");
  MC_CHECK((std::is_convertible_v<std::shared_ptr<SphericalQuadrature<R, A>>, std::shared_ptr<Base>>), s, ": pointers to grids do not convert");
  MC_CHECK(std::has_virtual_destructor_v<Base> && std::is_abstract_v<Base>, s, ": the base of grids");
  MC_CHECK((std::is_same_v<typename Base::point_type, P> && std::is_same_v<typename Base::weight_type, T> && detail::is_cartesian_quadrature_v<Base>), s, ": types of the base of grids");
  // a batcher over it: the types of what it gives
  using B = SphericalMicroBatcher<std::vector<P>, std::vector<T>>;
  using V = std::tuple<P, P, std::vector<P>, std::vector<T>>;
  ++n_states; n_trans += 3;
  MC_CHECK((std::is_same_v<std::decay_t<decltype(*std::declval<B&>().begin())>, V> && std::is_same_v<std::decay_t<decltype(*std::declval<const B&>().cbegin())>, V> && std::is_same_v<std::decay_t<decltype(std::declval<const B&>().at(0))>, V>), s, ": what a batch consists of");
  MC_CHECK((std::is_same_v<decltype(make_batcher(size_t(1), std::declval<const SphericalQuadrature<R, A>&>())), B>), s, ": type of make_batcher");
  MC_CHECK(std::is_copy_constructible_v<B> && std::is_nothrow_move_constructible_v<B>, s, ": batchers copy, and move without exceptions");
}
template <class T> void spheres() {
  using P = std::array<T, 3>; const std::string s = cat("<", nm<T>(), ">");
  judge<AhrensBeylkin<T>, P, T>("AhrensBeylkin" + s, {-1, 0}); judge<Delley<T>, P, T>("Delley" + s, {-1, 1});
  judge<LebedevLaikov<T>, P, T>("LebedevLaikov" + s, {-1, 2}); judge<Womersley<T>, P, T>("Womersley" + s, {-1, 3});
  judge<SubQuadrature<LebedevLaikov<T>>, P, T>("slice of LebedevLaikov" + s, {}); judge<SubQuadrature<Womersley<T>>, P, T>("slice of Womersley" + s, {});
  auto angular = [&](auto* r, const std::string& rn) { using R = std::decay_t<decltype(*r)>;
    composite<R, AhrensBeylkin<T>, T>(cat(" ", rn, " x AhrensBeylkin", s)); composite<R, Delley<T>, T>(cat(" ", rn, " x Delley", s));
    composite<R, LebedevLaikov<T>, T>(cat(" ", rn, " x LebedevLaikov", s)); composite<R, Womersley<T>, T>(cat(" ", rn, " x Womersley", s)); };
  angular((Becke<T, T>*)nullptr, "Becke"); angular((MurrayHandyLaming<T, T>*)nullptr, "MurrayHandyLaming"); angular((MuraKnowles<T, T>*)nullptr, "MuraKnowles");
  angular((TreutlerAhlrichs<T, T>*)nullptr, "TreutlerAhlrichs"); angular((GaussLegendre<T, T>*)nullptr, "GaussLegendre");
}
template <class T> void traits(const std::string& name) {
  if (!begin("traits/" + name)) return;
  ++n_states; n_trans += 3;
  MC_CHECK((std::is_base_of_v<RadialTraits, T> && std::has_virtual_destructor_v<RadialTraits> && std::is_abstract_v<RadialTraits>), name, ": radial traits");
  MC_CHECK((std::is_copy_constructible_v<T> && std::is_nothrow_move_constructible_v<T> && std::is_constructible_v<T, size_t> && std::is_constructible_v<T, size_t, double>), name, ": construction of traits");
  // a cast gives the object itself; one to another scheme is refused
  const T t(7, 1.5); const RadialTraits& b = t;
  MC_CHECK(&radial_traits_cast<T>(b) == &t, name, ": a cast of traits gives another object");
  auto wrong = [&](auto* o, const char* on) { using O = std::decay_t<decltype(*o)>; if constexpr (!std::is_same_v<O, T>) { ++n_trans; MC_CHECK(outcome([&] { (void)&radial_traits_cast<O>(b); }) != "", name, ": traits can be cast to ", on); } };
  wrong((BeckeRadialTraits*)nullptr, "Becke"); wrong((MuraKnowlesRadialTraits*)nullptr, "MuraKnowles"); wrong((TreutlerAhlrichsRadialTraits*)nullptr, "TreutlerAhlrichs");
  wrong((MurrayHandyLamingRadialTraits<1>*)nullptr, "MHL 1"); wrong((MurrayHandyLamingRadialTraits<2>*)nullptr, "MHL 2"); wrong((MurrayHandyLamingRadialTraits<3>*)nullptr, "MHL 3");
}
}  // namespace

int main(int argc, char** argv) {
  init(argc, argv);
  using F = float; using D = double; using L = long double;
  lines<F, F>(); lines<F, D>(); lines<F, L>(); lines<D, F>(); lines<D, D>(); lines<D, L>(); lines<L, F>(); lines<L, D>(); lines<L, L>();
  spheres<F>(); spheres<D>(); spheres<L>();
  traits<BeckeRadialTraits>("Becke"); traits<MuraKnowlesRadialTraits>("MuraKnowles"); traits<TreutlerAhlrichsRadialTraits>("TreutlerAhlrichs");
  traits<MurrayHandyLamingRadialTraits<1>>("MHL 1"); traits<MurrayHandyLamingRadialTraits<2>>("MHL 2"); traits<MurrayHandyLamingRadialTraits<3>>("MHL 3");
  count("states", n_states); count("transitions", n_trans);
  info("space", "every class of the library in every combination of three floating-point types (point and weight apart for one-dimensional rules), with its relatives of no scheme, 5 radial rules x 4 families x 3 types of grids, all traits x all casts");
  sample("MHL map of GaussChebyshev2<float,long double>");
  return finish();
}
