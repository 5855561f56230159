// C24: generating calls and operations under memcheck: no invalid access, and every byte of every result was written.
#include "world.hpp"
#include <valgrind/memcheck.h>
using namespace mc;

namespace {
long long n_states = 0, n_trans = 0, n_bytes = 0;
bool defined(const std::string& s) {
  n_bytes += (long long)s.size(); ++n_trans;
  for (size_t i = 0; i < s.size(); ++i) { unsigned char v = 0; if (VALGRIND_GET_VBITS(&s[i], &v, 1) == 1 && v) return false; }
  return true;
}
std::string try_(const std::function<std::string()>& f) { std::string s; const auto how = outcome([&] { s = f(); }); return how.empty() ? s : "refused"; }
}  // namespace

int main(int argc, char** argv) {
  init(argc, argv);
  if (!sanitized && !RUNNING_ON_VALGRIND) { std::fprintf(stderr, "not under memcheck\n"); return 2; }
  make_ops();
  for (size_t i = 0; i < ops.size(); ++i) {
    if (!begin(cat("operation/", i))) continue;
    MC_CHECK(defined(ops[i].run(1)), ops[i].name, ": the result holds memory that was never written");
    ++n_states;
    const size_t nj = thorough() ? ops.size() : 0;   // and after every other one
    for (size_t j = 0; j < nj; ++j) MC_CHECK(defined(ops[j].run(2)), ops[j].name, " after ", ops[i].name, ": the result holds memory that was never written");
  }
  for (auto aq : angular_kinds()) for (size_t n = 0; n <= (thorough() ? 1500u : 320u); ++n) {
    if (!begin(cat("angular/", angular_name(aq), "/", n))) continue;
    MC_CHECK(defined(try_([&] { return bytes_of(*S2Factory::generate(aq, n)); })), "a point or weight was never written");
    ++n_states;
  }
  for (auto rq : radial_kinds()) for (size_t n = 0; n <= (thorough() ? 200u : 24u); ++n) {
    if (!begin(cat("radial/", radial_name(rq), "/", n))) continue;
    MC_CHECK(defined(try_([&] { auto t = make_radial_traits(rq, n, 1.3); auto c = t->clone(); return say(t->npts(), c->compare(*t)) + bytes_of(*RadialFactory::generate(rq, *c)); })), "a point or weight was never written");
    ++n_states;
  }
  for (auto rq : radial_kinds()) for (auto aq : angular_kinds()) for (auto s : {PruningScheme::Unpruned, PruningScheme::Robust, PruningScheme::Treutler}) for (size_t n : {0, 14, 26, 50, 72, 86, 146, 194, 302, 303}) for (size_t nr : {0, 1, 2, 3, 4, 5, 8, 13}) {
    if (!thorough() && ((n > 50 && nr > 5) || (rq != RadialQuad::Becke && n != 50))) continue;
    if (!begin(cat("grid/", radial_name(rq), "/", angular_name(aq), "/", scheme_name(s), "/", n, "/", nr))) continue;
    MC_CHECK(defined(try_([&] {
      auto spec = create_pruned_spec(s, UnprunedSphericalGridSpecification(rq, *make_radial_traits(rq, nr, 1.3), aq, AngularSize(n)));
      auto copy = spec; std::string r = bytes_of(copy.pruning_regions) + say(copy == spec);
      std::shared_ptr<SphBase> g = SphericalGridFactory::generate_grid(copy); r += base_bytes(*g);
      auto c = g->clone(); c->recenter({1, 2, 3}); r += base_bytes(*c);
      if (g->npts() <= 500) for (size_t b : {1, 7, 1000}) { Batcher m(b, std::shared_ptr<SphBase>(g->clone())); m.recenter({3, 2, 1}); r += walk_bytes(m); auto d = m.clone(); r += walk_bytes(d); }
      return r; })), "something was never written");
    ++n_states;
  }
  count("states", n_states); count("transitions", n_trans); count("bytes_checked_for_definedness", n_bytes);
  info("memcheck", "all operations and generating calls of mc/world.hpp; angular sizes 0..320 (1500), radial sizes 0..24 (200), grids of all schemes, families and radial schemes with batches, under valgrind");
  return finish();
}
