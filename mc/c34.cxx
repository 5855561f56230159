// C34: a refused call throws an exception derived from std::exception and leaves everything as it was.
// Every refusal in every way to ask for it, every pair and triple of refusals, and every good call after them.
#include "calls.hpp"
#include "catalogue.hpp"
using namespace mc;

static long live_blocks = 0;
void* operator new(size_t n) { void* p = std::malloc(n ? n : 1); if (!p) throw std::bad_alloc(); ++live_blocks; return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { if (p) { --live_blocks; std::free(p); } }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }

namespace {
long long n_trans = 0, n_states = 0;
// a call on arguments of its own which is to be refused
struct Refusal { std::string name; std::function<void()> call; std::function<std::string()> look; };

template <class Q> std::function<std::string()> looks(std::shared_ptr<Q> q) { return [q] { return bytes_of(*q); }; }
std::string bytes_of_traits(const RadialTraits* t) {
  if (!t) return "none";
  if (auto p = dynamic_cast<const TreutlerAhlrichsRadialTraits*>(t)) return bytes_of(TreutlerAhlrichs<double, double>(*p));
  if (auto p = dynamic_cast<const BeckeRadialTraits*>(t)) return bytes_of(Becke<double, double>(*p));
  return say("other traits of ", t->npts());
}
template <class S> std::string bytes_of_unp(const S& s) { std::string o = say(unsigned(s.radial_quad), "/", unsigned(s.angular_quad), "/", size_t(s.angular_size), "/"); return o + bytes_of_traits(s.radial_traits.get()); }
template <class S> std::string bytes_of_spec(const S& s) { std::string o = say(unsigned(s.radial_quad), "/"); return o + bytes_of(s.pruning_regions) + bytes_of_traits(s.radial_traits.get()); }
}  // namespace
namespace {
using B = Becke<double, double>; using L = LebedevLaikov<double>; using SQ = SphericalQuadrature<B, L>; using PQ = PrunedSphericalQuadrature<B, L>;
using A3 = AngularQuad; using R3 = RadialQuad;

std::vector<Refusal> refusals() {
  std::vector<Refusal> r;
  const auto add = [&](std::string n, std::function<void()> f, std::function<std::string()> look = [] { return std::string(); }) { r.push_back({std::move(n), std::move(f), std::move(look)}); };
  // sizes there are not
  for (size_t n : {size_t(0), size_t(1), size_t(7), size_t(27), size_t(100000), ~size_t(0)}) {
    add(say("LebedevLaikov(", n, ")"), [n] { L q(n); }); add(say("Delley(", n, ")"), [n] { Delley<double> q(n); });
    add(say("AhrensBeylkin(", n, ")"), [n] { AhrensBeylkin<double> q(n); }); add(say("Womersley<float>(", n, ")"), [n] { Womersley<float> q(n); });
    for (auto a : angular_kinds()) {
      add(say(angular_name(a), " generator ", n), [=] { S2Factory::generate(a, n); });
      auto t = std::make_shared<std::unique_ptr<RadialTraits>>(make_radial_traits(R3::Becke, size_t(5), 1.5));
      auto u = std::make_shared<UnprunedSphericalGridSpecification>(R3::Becke, **t, a, n);
      add(say(angular_name(a), " unpruned ", n), [=] { SphericalGridFactory::generate_unpruned_grid(R3::Becke, **t, a, n); }, [t] { return bytes_of_traits(t->get()); });
      add(say(angular_name(a), " unpruned specification ", n), [=] { SphericalGridFactory::generate_grid(*u); }, [u] { return bytes_of_unp(*u); });
      for (auto s : {PruningScheme::Unpruned, PruningScheme::Robust, PruningScheme::Treutler}) add(say(angular_name(a), " ", scheme_name(s), " ", n), [=] { SphericalGridFactory::generate_grid(create_pruned_spec(s, *u)); }, [u] { return bytes_of_unp(*u); });
      const size_t good = a == A3::AhrensBeylkin ? 72 : 26;
      auto p = std::make_shared<PrunedSphericalGridSpecification>(R3::Becke, **t, std::vector<PruningRegion>{{0, 2, a, good}, {2, 5, a, n}});
      add(say(angular_name(a), " second region ", n), [=] { SphericalGridFactory::generate_grid(*p); }, [p] { return bytes_of_spec(*p); });
    }
  }
  for (size_t n : {0, 1}) {
    add(say("GaussLobatto(", n, ")"), [n] { GaussLobatto<double, double> q(n); }); add(say("GaussLobatto<long double>(", n, ")"), [n] { GaussLobatto<long double, long double> q(n); });
    add(say("UniformTrapezoid(", n, ")"), [n] { UniformTrapezoid<double, double> q(n, 0., 1.); });
  }
  // traits of another scheme, none, or what a scheme does not have
  auto tm = std::make_shared<TreutlerAhlrichsRadialTraits>(6, 1.5, 0.3);
  const auto lt = [tm] { return bytes_of_traits(tm.get()); };
  add("Becke of other traits", [tm] { const RadialTraits& t = *tm; B q(t); }, lt); add("cast of other traits", [tm] { radial_traits_cast<BeckeRadialTraits>(*tm); }, lt);
  for (auto q : {R3::Becke, R3::MuraKnowles, R3::MurrayHandyLaming}) {
    add(say(radial_name(q), " generator of other traits"), [=] { RadialFactory::generate(q, *tm); }, lt);
    add(say(radial_name(q), " grid of other traits"), [=] { SphericalGridFactory::generate_unpruned_grid(q, *tm, A3::Delley, 26); }, lt);
    add(say(radial_name(q), " pruned grid of other traits"), [=] { SphericalGridFactory::generate_pruned_grid(q, *tm, {{0, 6, A3::Delley, 26}}); }, lt);
    add(say(radial_name(q), " traits with an exponent"), [q] { make_radial_traits(q, size_t(5), 1.0, 0.3); });
    add(say(radial_name(q), " traits without a size"), [q] { make_radial_traits(q); });
  }
  auto un = std::make_shared<UnprunedSphericalGridSpecification>(R3::TreutlerAhlrichs, *tm, A3::Delley, 26); un->radial_traits.reset();
  auto pn = std::make_shared<PrunedSphericalGridSpecification>(R3::TreutlerAhlrichs, *tm, std::vector<PruningRegion>{{0, 6, A3::Delley, 26}}); pn->radial_traits.reset();
  add("unpruned specification without traits", [un] { SphericalGridFactory::generate_grid(*un); }, [un] { return bytes_of_unp(*un); });
  add("pruned specification without traits", [pn] { SphericalGridFactory::generate_grid(*pn); }, [pn] { return bytes_of_spec(*pn); });
  for (auto s : {PruningScheme::Unpruned, PruningScheme::Robust, PruningScheme::Treutler}) add(say(scheme_name(s), " scheme without traits"), [=] { create_pruned_spec(s, *un); }, [un] { return bytes_of_unp(*un); });
  // regions which do not tile or mix families
  const std::vector<std::vector<PruningRegion>> bad = {
    {}, {{0, 5, A3::Delley, 26}}, {{1, 6, A3::Delley, 26}}, {{0, 7, A3::Delley, 26}}, {{0, 3, A3::Delley, 26}, {2, 6, A3::Delley, 14}}, {{0, 3, A3::Delley, 26}, {4, 6, A3::Delley, 14}}, {{3, 6, A3::Delley, 26}, {0, 3, A3::Delley, 14}},
    {{0, 3, A3::Delley, 26}, {3, 3, A3::Delley, 26}, {3, 6, A3::Delley, 14}}, {{0, 3, A3::Delley, 26}, {3, 6, A3::LebedevLaikov, 14}}, {{0, 2, A3::Womersley, 14}, {2, 4, A3::Womersley, 14}, {4, 6, A3::Delley, 14}}, {{0, 6, static_cast<A3>(77), 14}}};
  for (size_t i = 0; i < bad.size(); ++i) {
    auto reg = std::make_shared<std::vector<PruningRegion>>(bad[i]); auto p = std::make_shared<PrunedSphericalGridSpecification>(R3::TreutlerAhlrichs, *tm, bad[i]);
    add(say("regions ", i), [=] { SphericalGridFactory::generate_pruned_grid(R3::TreutlerAhlrichs, *tm, *reg); }, [=] { std::string s = bytes_of(*reg); return s + bytes_of_traits(tm.get()); });
    add(say("specification of regions ", i), [=] { SphericalGridFactory::generate_grid(*p); }, [p] { return bytes_of_spec(*p); });
  }
  // names and enumerators of nothing
  for (const char* w : {"", "Lebedev ", "nothing"}) {
    auto s = std::make_shared<std::string>(w); const auto ls = [s] { return *s; };
    add(say("radial name '", w, "'"), [s] { radial_from_string(*s); }, ls); add(say("angular name '", w, "'"), [s] { angular_from_string(*s); }, ls);
  }
  add("unknown radial scheme", [tm] { RadialFactory::generate(static_cast<R3>(99), *tm); }, lt); add("traits of an unknown radial scheme", [] { make_radial_traits(static_cast<R3>(99), size_t(4), 1.0); });
  add("unknown angular family", [] { S2Factory::generate(static_cast<A3>(99), 26); });
  // positions there are not
  auto g = std::make_shared<GaussLegendre<double, double>>(7); auto sq = std::make_shared<SQ>(B(3, 1.0), L(6), P3{1, 2, 3}); auto pq = std::make_shared<PQ>(B(4, 1.0), RadialGridPartition<L>(B(4, 1.0), 0, L(6), 1, L(14)), P3{0, 0, 1});
  for (size_t k : {size_t(0), size_t(1), ~size_t(0) / 2}) {
    add(say("points past the end by ", k), [=] { g->points(7 + k); }, looks(g)); add(say("weights past the end by ", k), [=] { g->weights(7 + k); }, looks(g));
    add(say("grid points past the end by ", k), [=] { const Quadrature<SQ>& q = *sq; q.points(18 + k); }, looks(sq)); add(say("grid weights past the end by ", k), [=] { const Quadrature<PQ>& q = *pq; q.weights(pq->npts() + k); }, looks(pq));
  }
  add("element of an angular rule", [] { L q(14); q.points(14); });
  // batch size zero, from every way to hand over a grid which goes on to exist
  const auto lsq = [sq] { std::string s = bytes_of(*sq); put_pt(s, sq->center()); return s; };
  add("batches of none", [sq] { Batcher b(0, *sq); }, lsq); add("batches of none, made", [sq] { make_batcher(0, std::as_const(*sq)); }, lsq); add("batches of none, shared", [sq] { Batcher b(0, std::shared_ptr<SphBase>(sq)); }, lsq);
  add("batches of none of a pruned grid", [pq] { Batcher b(0, *pq); }, looks(pq)); add("batches of none of a shared pruned grid", [pq] { Batcher b(0, std::shared_ptr<SphBase>(pq)); }, looks(pq));
  auto bt = std::make_shared<Batcher>(5, *sq);
  const auto lb = [bt] { std::string s; const Batcher& c = *bt; for (auto it = c.cbegin(); it != c.cend(); ++it) { auto v = seen(*it); put_pt(s, v.lo); put_pt(s, v.up); for (auto& p : v.p) put_pt(s, p); for (auto w : v.w) put_real(s, w); } return s; };
  for (size_t k : {size_t(0), size_t(1), ~size_t(0) / 2}) { add(say("batch past the end by ", k), [=] { bt->at(bt->nbatches() + k); }, lb); add(say("constant batch past the end by ", k), [=] { std::as_const(*bt).at(bt->nbatches() + k); }, lb); }
  return r;
}
// "" if it is refused as it should be and nothing has changed
std::string refuse(const Refusal& r, const std::string& before) {
  ++n_trans; std::string how; const char* said = nullptr; const long had = live_blocks; long now = 0; bool std_exc = false, thrown = true; size_t length = 0;
  try { r.call(); thrown = false; } catch (const std::exception& e) { std_exc = true; said = e.what(); length = said ? std::strlen(said) : 0; } catch (...) {}
  now = live_blocks;
  if (!thrown) return "accepted";
  if (!std_exc) return "what is thrown is no std::exception";
  if (!length) return "the exception says nothing";
  if (now != had) return cat(now - had, " blocks of memory are lost");
  if (r.look() != before) return "what the call was given has changed";
  return "";
}
std::string outcome_of(const Call& c) { try { return c.make().bytes; } catch (const std::exception& e) { return std::string("exception: ") + e.what(); } }
}  // namespace

int main(int argc, char** argv) {
  init(argc, argv);
  const auto rs = refusals(); const auto calls = alphabet();
  std::vector<std::string> before, ref; for (auto& r : rs) before.push_back(r.look());
  for (auto& c : calls) ref.push_back(outcome_of(c));   // (C21: nothing made before matters)
  // the first time something may be set up for good: not counted as lost
  for (auto& r : rs) { try { r.call(); } catch (...) {} }
  const auto step = [&](size_t i, const std::string& path) { const auto why = refuse(rs[i], before[i]); ++n_states; MC_CHECK(why.empty(), path, rs[i].name, ": ", why); };
  if (begin("each")) for (size_t i = 0; i < rs.size(); ++i) for (int k = 0; k < 3; ++k) step(i, k ? "again, " : "");
  if (begin("pairs")) for (size_t i = 0; i < rs.size(); ++i) for (size_t j = 0; j < rs.size(); ++j) { step(i, ""); step(j, rs[i].name + ", then "); }
  if (begin("good calls after a refusal")) for (size_t i = 0; i < rs.size(); ++i) for (size_t k = 0; k < calls.size(); ++k) {
    step(i, ""); ++n_trans; const auto got = outcome_of(calls[k]);
    MC_CHECK(got == ref[k], "after ", rs[i].name, " was refused ", calls[k].name, " gives another result");
    step(i, calls[k].name + ", then ");
  }
  // while another exception is handled
  if (begin("within a handler")) for (size_t i = 0; i < rs.size(); ++i) for (size_t j = 0; j < rs.size(); j += thorough() ? 1 : 7) { try { rs[j].call(); } catch (...) { step(i, "while " + rs[j].name + " is handled, "); } }
  if (thorough() && begin("triples")) for (size_t i = 0; i < rs.size(); ++i) for (size_t j = 0; j < rs.size(); j += 3) for (size_t k = i % 5; k < rs.size(); k += 5) { step(i, ""); step(j, rs[i].name + ", then "); step(k, rs[i].name + ", " + rs[j].name + ", then "); }
  count("states", n_states); count("transitions", n_trans); count("refusals", rs.size());
  info("space", cat("each of ", rs.size(), " refused calls three times, every ordered pair of them, each followed by each of ", calls.size(), " good calls and repeated, and within the handler of another"));
  sample("a batcher of batches of none from a shared grid, then the same grid in batches of five");
  return finish();
}
