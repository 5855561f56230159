// Writes what the library gives, as text: "label|exact text" lines and "label#tolerance class reals..." lines.
#include <integratorxx/batch/spherical_micro_batcher.hpp>
#include <integratorxx/composite_quadratures/product_quadrature.hpp>
#include <integratorxx/composite_quadratures/sub_quadrature.hpp>
#include <integratorxx/generators/radial_factory.hpp>
#include <integratorxx/generators/s2_factory.hpp>
#include <integratorxx/generators/spherical_factory.hpp>
#include <integratorxx/quadratures/primitive.hpp>
#include <integratorxx/quadratures/radial.hpp>
#include <integratorxx/util/bound_transform.hpp>
#ifdef C23_HEADER_ONLY
#include <integratorxx/generators/impl/impl.hpp>
#endif
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <string>
#include <vector>
using namespace IntegratorXX;

static FILE* out;
static void text(const std::string& l, const std::string& s) { std::fprintf(out, "%s|%s\n", l.c_str(), s.c_str()); }
static void reals(const std::string& l, char cls, const std::vector<double>& v) {
  std::fprintf(out, "%s#%c", l.c_str(), cls); for (double x : v) std::fprintf(out, " %.17g", x); std::fprintf(out, "\n");
}
static std::string n2s(long long n) { return std::to_string(n); }
template <class F> static void trial(const std::string& l, F&& f) {
  try { f(); } catch (const std::exception&) { text(l, "refused"); }
}
template <class Q> static void line(const std::string& l, const Q& q, char cls) {
  std::vector<double> v; for (size_t i = 0; i < q.npts(); ++i) { v.push_back(double(q.points(i))); }
  std::vector<double> w; for (size_t i = 0; i < q.npts(); ++i) w.push_back(double(q.weights(i)));
  text(l, n2s(q.npts())); reals(l + " points", cls, v); reals(l + " weights", cls, w);
}
// sums which tell the order of the points and each coordinate
template <class Q> static void cloud(const std::string& l, const Q& q) {
  double a = 0, b = 0, c = 0, m = 0; size_t i = 0;
  for (auto& p : q.points()) {
    const double w = q.weights()[i], f = w * (1 + double(i % 7));
    a += f * p[0]; b += f * p[1] * p[1]; c += w * (1 + 0.5 * p[0] + 0.25 * p[1] + 0.125 * p[2]); m += std::fabs(f) * (1 + std::fabs(p[0]) + p[1] * p[1]);
    ++i;
  }
  text(l, n2s(q.npts()) + "," + n2s(q.points().size()) + "," + n2s(q.weights().size()));
  reals(l + " sums", 'd', {m, a, b, c});
}
template <class T> static void lines(char cls) {
  for (size_t n : {1, 2, 3, 4, 5, 8, 10, 33, 64, 101}) {
    const std::string l = std::string(1, cls) + " " + n2s(n) + " ";
    trial(l + "gl", [&] { line(l + "gl", GaussLegendre<T, T>(n), cls); });
    trial(l + "lob", [&] { line(l + "lob", GaussLobatto<T, T>(n), cls); });
    trial(l + "c1", [&] { line(l + "c1", GaussChebyshev1<T, T>(n), cls); });
    trial(l + "c2", [&] { line(l + "c2", GaussChebyshev2<T, T>(n), cls); });
    trial(l + "c2m", [&] { line(l + "c2m", GaussChebyshev2Modified<T, T>(n), cls); });
    trial(l + "c3", [&] { line(l + "c3", GaussChebyshev3<T, T>(n), cls); });
    trial(l + "tr", [&] { line(l + "tr", UniformTrapezoid<T, T>(n, -1, 2), cls); });
    for (double R : {0.5, 1.0, 2.3}) {
      const std::string r = l + std::to_string(R) + " ";
      trial(r + "be", [&] { line(r + "be", Becke<T, T>(n, T(R)), cls); });
      trial(r + "mhl", [&] { line(r + "mhl", MurrayHandyLaming<T, T>(n, T(R)), cls); });
      trial(r + "mk", [&] { line(r + "mk", MuraKnowles<T, T>(n, T(R)), cls == 'f' ? 'F' : cls); });
      trial(r + "ta", [&] { line(r + "ta", TreutlerAhlrichs<T, T>(n, T(R)), cls); });
      trial(r + "ta0", [&] { line(r + "ta0", TreutlerAhlrichs<T, T>(n, T(R), T(0)), cls); });
    }
  }
}
struct Mix { double operator()(const double& a, const double& b) const { return a - 3 * b; } };
int main(int, char** argv) {
  out = std::fopen(argv[1], "w"); if (!out) return 3;
  lines<double>('d'); lines<long double>('d'); lines<float>('f');
  { GaussLegendre<double, double> g(6); SubQuadrature<GaussLegendre<double, double>> s({1, 4}, g); line("slice", s, 'd'); }
  { using G = GaussLegendre<double, double>; using R = Becke<double, double>;
    auto [p, w] = quadrature_traits<ProductQuadrature<Mix, G, R>>::generate(G(3), R(2, 1.0)); p.insert(p.end(), w.begin(), w.end()); reals("product", 'd', p); }
  for (double lo : {-2.0, 0.5}) for (double up : {1.0, 3.0, double(INFINITY)}) { auto r = transform_minus_one_to_one(lo, up, 0.25, 0.5); reals("map", 'd', {std::get<0>(r), std::get<1>(r)}); }

  const char* fam[] = {"LebedevLaikov", "Delley", "AhrensBeylkin", "Womersley"};
  const char* rad[] = {"Becke", "MurrayHandyLaming", "MuraKnowles", "TreutlerAhlrichs"};
  for (auto n : {"becke", "mhl", "MK", "TA", "muraknowles", "Treutler", "nonsense", ""}) trial(std::string("name ") + n, [&] { auto q = radial_from_string(n);
    for (auto k : rad) if (radial_from_string(k) == q) text(std::string("name ") + n, k); });
  for (auto n : {"lebedev", "ll", "AB", "delley", "WOMERSLEY", "nonsense", ""}) trial(std::string("name ") + n, [&] { auto q = angular_from_string(n);
    for (auto k : fam) if (angular_from_string(k) == q) text(std::string("name ") + n, k); });
  for (auto f : fam) for (size_t n = 0; n <= 800; ++n) {   // refusals of all sizes between
    const std::string l = std::string(f) + " " + n2s(n);
    trial(l, [&] { auto q = S2Factory::generate(angular_from_string(f), n); cloud(l, *q); });
  }
  for (auto f : fam) for (size_t n : {974, 1202, 2702, 3074, 5592, 5810, 7939}) { const std::string l = std::string(f) + " " + n2s(n); trial(l, [&] { auto q = S2Factory::generate(angular_from_string(f), n); cloud(l, *q); }); }
  for (auto r : rad) for (size_t n : {0, 1, 2, 5, 20}) for (double R : {0.7, 1.0}) {
    const std::string l = std::string("generator ") + r + " " + n2s(n) + " " + std::to_string(R);
    trial(l, [&] { auto t = make_radial_traits(radial_from_string(r), n, R); text(l + " npts", n2s(t->npts())); auto q = RadialFactory::generate(radial_from_string(r), *t); line(l, *q, 'd');
      auto c = t->clone(); text(l + " compare", n2s(c->compare(*t)) + n2s(make_radial_traits(radial_from_string("becke"), n, 1.0)->compare(*t))); });
  }
  for (auto r : rad) for (auto f : fam) for (size_t a : {14, 50, 72, 302, 974, 13}) for (auto s : {PruningScheme::Unpruned, PruningScheme::Robust, PruningScheme::Treutler}) {
    const std::string l = std::string("grid ") + r + " " + f + " " + n2s(a) + " " + n2s(int(s));
    trial(l, [&] {
      auto t = make_radial_traits(radial_from_string(r), size_t(12), 1.1);
      UnprunedSphericalGridSpecification u(radial_from_string(r), *t, angular_from_string(f), AngularSize(a));
      auto spec = create_pruned_spec(s, u);
      std::string reg; for (auto& x : spec.pruning_regions) reg += n2s(x.idx_st) + "-" + n2s(x.idx_en) + ":" + n2s(x.angular_size) + (x.angular_quad == u.angular_quad ? " " : "! ");
      text(l + " regions", reg);
      auto copy = spec; text(l + " equal", n2s(copy == spec));
      auto g = SphericalGridFactory::generate_grid(spec); cloud(l, *g);
      g->recenter({1, -2, 0.5}); cloud(l + " moved", *g);
      if (a > 302) return;
      for (size_t b : {1, 10, 100000}) {
        SphericalMicroBatcher m(b, std::shared_ptr<SphericalGridFactory::spherical_grid_ptr::element_type>(g->clone()));
        size_t n = 0; double sw = 0; bool ok = m.nbatches() > 0, tight = true;
        for (auto&& [lo, up, pts, w] : m) { n += pts.size(); ok = ok && pts.size() <= b && pts.size() == w.size() && !pts.empty(); for (auto x : w) sw += x;
          for (auto& p : pts) for (int k = 0; k < 3; ++k) tight = tight && p[k] >= lo[k] && p[k] <= up[k]; }
        text(l + " batches of " + n2s(b), n2s(n) + (ok ? " ok" : " bad") + (tight ? " tight" : " loose")); reals(l + " batch weights " + n2s(b), 'd', {sw});
      }
    });
  }
  { auto t = make_radial_traits(RadialQuad::Becke, size_t(6), 1.0);
    for (auto regs : std::vector<std::vector<PruningRegion>>{{{0, 2, AngularQuad::LebedevLaikov, 6}, {2, 6, AngularQuad::LebedevLaikov, 26}}, {{0, 3, AngularQuad::Womersley, 6}, {2, 6, AngularQuad::Womersley, 26}}, {}})
      trial("regions", [&] { auto g = SphericalGridFactory::generate_pruned_grid(RadialQuad::Becke, *t, regs); cloud("regions", *g); });
    trial("null traits", [&] { PrunedSphericalGridSpecification s; SphericalGridFactory::generate_grid(s); }); }
  std::fprintf(out, "end|\n"); std::fclose(out);
  return 0;
}
