// C21: generation does not depend on what was generated before, on what became of it, or on what memory held.
// Every sequence of calls runs in a process of its own (a tree of forks), so no sequence sees another.
#include "calls.hpp"
#include "catalogue.hpp"
#include <malloc.h>
#include <sys/wait.h>
using namespace mc;

namespace {
unsigned char fill_new = 0xA5, fill_old = 0xDD;
}
// what memory holds when it is handed out, and after it was given back, is the environment's choice
void* operator new(size_t n) { void* p = std::malloc(n ? n : 1); if (!p) throw std::bad_alloc(); std::memset(p, fill_new, n); return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { if (p) { volatile unsigned char* c = static_cast<unsigned char*>(p); for (size_t i = 0, n = malloc_usable_size(p) & ~size_t(7); i < n; ++i) c[i] = fill_old; std::free(p); } }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }

namespace {
struct Shared { std::atomic<long long> states, trans; std::atomic<int> failed; char text[4096]; };
Shared* sh = nullptr;
std::vector<Call> calls;
std::vector<std::string> ref;

__attribute__((noinline)) void paint_stack(unsigned char c) { volatile unsigned char b[1 << 16]; for (auto& x : b) x = c; }
std::string run(const Call& c, Made& m) {
  paint_stack(fill_new);
  try { m = c.make(); return m.bytes; } catch (const std::exception& e) { return std::string("exception: ") + e.what(); } catch (...) { return "exception"; }
}
void fail(const std::string& s) { int z = 0; if (sh->failed.compare_exchange_strong(z, 1)) { std::strncpy(sh->text, s.c_str(), sizeof(sh->text) - 1); sh->failed = 2; } }
void reap(int& live, int limit) { while (live > limit) { int st = 0; if (wait(&st) <= 0) { live = 0; return; } --live; if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) fail("a sequence of calls ends the process"); } }

// the history so far ran in this process; try every next call in a process of its own
void grow(std::vector<int>& hist, std::vector<Made>& kept, int depth, int mode, int width) {
  int live = 0;
  for (size_t k = 0; k < calls.size() && !sh->failed; ++k) {
    reap(live, width - 1);
    const pid_t pid = fork();
    if (pid < 0) { fail("fork"); break; }
    if (pid == 0) {
      alarm(60);
      hist.push_back(int(k));
      Made m; const auto got = run(calls[k], m); ++sh->trans;
      if (got != ref[k]) { std::string s; for (int h : hist) s += calls[h].name + "; "; fail(cat("after ", s, "the last result differs from that in a fresh process (mode ", mode, ", memory pattern ", int(fill_new), ")")); _exit(0); }
      ++sh->states;
      if (depth > 1) {
        if (mode == 0) m = Made{}; else { if (mode == 1 && m.spoil) m.spoil(); kept.push_back(m); }
        // results kept from before are still what they were left as
        grow(hist, kept, depth - 1, mode, 1);
      }
      _exit(0);
    }
    ++live;
  }
  reap(live, 0);
}
// the result of a call made first in a fresh process
std::string fresh_of(const Call& c) {
  int fd[2]; if (pipe(fd)) return "pipe";
  const pid_t pid = fork();
  if (pid == 0) { close(fd[0]); Made m; const auto s = run(c, m); size_t at = 0; while (at < s.size()) { const auto w = write(fd[1], s.data() + at, s.size() - at); if (w <= 0) break; at += w; } _exit(0); }
  close(fd[1]); std::string s; char b[65536]; ssize_t n; while ((n = read(fd[0], b, sizeof b)) > 0) s.append(b, n);
  close(fd[0]); int st; waitpid(pid, &st, 0);
  if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) s += "!";
  return s;
}
std::string fresh(size_t k) { return fresh_of(calls[k]); }

// Groups of calls which are alike but for one argument: whatever is remembered of one must not be taken for another.
using Group = std::pair<std::string, std::vector<Call>>;
std::vector<Group> groups() {
  std::vector<Group> g;
  auto add = [&](std::string n, std::function<Made()> f) { g.back().second.push_back({g.back().first + "/" + n, std::move(f)}); };
  const auto open = [&](const char* n) { g.push_back({n, {}}); };
  const double below = std::nextafter(1.5, 0), above = std::nextafter(1.5, 2), third = 1.5 + 1e-9;
  open("rules");
  for (size_t n : {5, 6, 261, 262}) {
    add(say("GaussLegendre(", n), [n] { return made(GaussLegendre<double, double>(n)); });
    add(say("GaussLobatto(", n), [n] { return made(GaussLobatto<double, double>(n)); });
    add(say("GaussChebyshev1(", n), [n] { return made(GaussChebyshev1<double, double>(n)); });
    add(say("GaussChebyshev2(", n), [n] { return made(GaussChebyshev2<double, double>(n)); });
    add(say("GaussChebyshev2Modified(", n), [n] { return made(GaussChebyshev2Modified<double, double>(n)); });
    add(say("GaussChebyshev3(", n), [n] { return made(GaussChebyshev3<double, double>(n)); });
    add(say("UniformTrapezoid(", n), [n] { return made(UniformTrapezoid<double, double>(n, 0., 1.)); });
  }
  open("types of rules");
  add("legendre f", [] { return made(GaussLegendre<float, float>(6)); }); add("legendre d", [] { return made(GaussLegendre<double, double>(6)); }); add("legendre l", [] { return made(GaussLegendre<long double, long double>(6)); });
  add("lobatto f", [] { return made(GaussLobatto<float, float>(6)); }); add("lobatto d", [] { return made(GaussLobatto<double, double>(6)); }); add("lobatto l", [] { return made(GaussLobatto<long double, long double>(6)); });
  add("becke f", [] { return made(Becke<float, float>(6, 1.5f)); }); add("becke d", [] { return made(Becke<double, double>(6, 1.5)); }); add("becke l", [] { return made(Becke<long double, long double>(6, 1.5L)); });
  add("LL f", [] { return made(LebedevLaikov<float>(26)); }); add("LL d", [] { return made(LebedevLaikov<double>(26)); }); add("LL l", [] { return made(LebedevLaikov<long double>(26)); });
  open("intervals");
  for (size_t n : {4, 5}) for (auto [a, b] : std::vector<std::pair<double, double>>{{0., 1.}, {-0., 1.}, {0., above}, {0., 1.5}, {0., below}, {-1., 1.5}, {-1., 1.}, {1., -1.}, {-1.5, 1.}})
    add(say("trapezoid ", n, " ", int(a * 1000), " ", int(b * 1000)), [n, a = a, b = b] { return made(UniformTrapezoid<double, double>(n, a, b)); });
  open("radial");
  for (size_t n : {6, 7}) for (double R : {1.5, above, third, 0.5}) {
    add(say("Becke ", n), [=] { return made(Becke<double, double>(n, R)); });
    add(say("MHL ", n), [=] { return made(MurrayHandyLaming<double, double>(n, R)); });
    add(say("MK ", n), [=] { return made(MuraKnowles<double, double>(n, R)); });
    for (double al : {0.6, 0.3, std::nextafter(0.6, 1.)}) add(say("TA ", n), [=] { return made(TreutlerAhlrichs<double, double>(n, R, al)); });
  }
  open("radial generator");
  for (auto q : radial_kinds()) for (size_t n : {6, 7}) for (double R : {1.5, below, third}) add(say(radial_name(q), " ", n), [=] { return made_shared(RadialFactory::generate(q, *make_radial_traits(q, n, R))); });
  for (double al : {0.3, 0.3000000001}) add("TA exponent", [=] { return made_shared(RadialFactory::generate(RadialQuad::TreutlerAhlrichs, *make_radial_traits(RadialQuad::TreutlerAhlrichs, size_t(6), 1.5, al))); });
  open("orders of the map");
  for (double R : {1.5, 2.0}) {
    add("1", [=] { return made(RadialTransformQuadrature<UniformTrapezoid<double, double>, MurrayHandyLamingRadialTraits<1>>(6, R)); });
    add("2", [=] { return made(RadialTransformQuadrature<UniformTrapezoid<double, double>, MurrayHandyLamingRadialTraits<2>>(6, R)); });
    add("3", [=] { return made(RadialTransformQuadrature<UniformTrapezoid<double, double>, MurrayHandyLamingRadialTraits<3>>(6, R)); });
    add("4", [=] { return made(RadialTransformQuadrature<UniformTrapezoid<double, double>, MurrayHandyLamingRadialTraits<4>>(6, R)); });
  }
  open("angular");
  for (auto q : angular_kinds()) for (auto [o, n] : catalogue().at(angular_name(q))) if (n <= 110) add(say(angular_name(q), " ", n), [q = q, n = size_t(n)] { return made_shared(S2Factory::generate(q, n)); });
  open("centres");
  using SQ = SphericalQuadrature<Becke<double, double>, LebedevLaikov<double>>;
  for (P3 c : std::vector<P3>{{0, 0, 0}, {-0., 0, 0}, {1.5, 0, 0}, {0, 1.5, 0}, {0, 0, 1.5}, {above, 0, 0}, {0, above, 0}, {0, 0, above}, {-1.5, 0, 0}, {1.5, 1.5, 1.5}})
    for (size_t n : {6, 14}) add(say("grid ", n), [=] { return made_sph(std::make_shared<SQ>(Becke<double, double>(3, 1.0), LebedevLaikov<double>(n), c)); });
  open("spherical generator");
  for (auto r : radial_kinds()) for (auto q : {AngularQuad::LebedevLaikov, AngularQuad::Womersley}) for (size_t nr : {3, 4}) for (double R : {1.5, above}) add(say(radial_name(r), angular_name(q), nr), [=] {
    return made_sph(SphericalGridFactory::generate_unpruned_grid(r, *make_radial_traits(r, nr, R), q, 14)); });
  open("regions");
  for (auto r : {RadialQuad::Becke, RadialQuad::MuraKnowles}) for (size_t cut : {1, 2, 3}) for (auto [a, b] : std::vector<std::pair<size_t, size_t>>{{6, 14}, {14, 6}, {6, 26}, {14, 14}}) add(say(radial_name(r), " cut at ", cut, " ", a, " ", b), [r, cut, a = a, b = b] {
    return made_sph(SphericalGridFactory::generate_pruned_grid(r, *make_radial_traits(r, size_t(4), 1.5), {{0, cut, AngularQuad::LebedevLaikov, a}, {cut, 4, AngularQuad::LebedevLaikov, b}})); });
  open("schemes");
  for (auto s : {PruningScheme::Unpruned, PruningScheme::Robust, PruningScheme::Treutler}) for (auto q : angular_kinds()) for (size_t nr : {5, 6}) add(say(scheme_name(s), angular_name(q), nr), [=] {
    const size_t na = q == AngularQuad::AhrensBeylkin ? 132 : 50;
    auto p = create_pruned_spec(s, UnprunedSphericalGridSpecification(RadialQuad::TreutlerAhlrichs, *make_radial_traits(RadialQuad::TreutlerAhlrichs, nr, 1.5), q, na));
    auto m = made_sph(SphericalGridFactory::generate_grid(p)); m.bytes += bytes_of(p.pruning_regions); return m; });
  open("batchers");
  for (size_t bs : {1, 5, 6, 90}) for (int v = 0; v < 7; ++v) add(say("batches of ", bs, " of grid ", v), [=] {
    AnyQuad g(Becke<double, double>(3, v == 1 ? 2.0 : 1.0), LebedevLaikov<double>(v == 2 ? 14 : 6), P3{v == 3 ? 1. : 0., 0, v == 4 ? above : 0.});
    if (v == 5) g.weights()[3] = 7.5;
    if (v == 6) g.points()[3] = P3{9, 9, 9};
    return made_batcher(Batcher(bs, g)); });
  open("slices and products");
  for (size_t n : {8, 9}) for (size_t b : {0, 1, 2}) for (size_t e : {4, 5}) add(say(n, " ", b, " ", e), [=] { return made(SubQuadrature<GaussLegendre<double, double>>({b, e}, GaussLegendre<double, double>(n))); });
  open("names");
  for (const char* w : {"Becke", "becke", "BECKE", "MHL", "mhl", "MK", "TA", "Becke ", "Mk", "MuraKnowles", "x", ""}) add(w, [w] { std::string s = "refused"; try { s = say(unsigned(radial_from_string(w))); } catch (const std::exception&) {} return Made{s, nullptr, [] {}}; });
  for (const char* w : {"Delley", "delley", "AhrensBeylkin", "Womersley", "LebedevLaikov", "LEBEDEV", "MK", "x", ""}) add(say("angular ", w), [w] { std::string s = "refused"; try { s = say(unsigned(angular_from_string(w))); } catch (const std::exception&) {} return Made{s, nullptr, [] {}}; });
  open("refusals");
  for (auto q : angular_kinds()) for (size_t n : {25, 26, 49, 50, 72, 73}) add(say(angular_name(q), " ", n), [=] { std::string s = "refused"; try { s = bytes_of(*S2Factory::generate(q, n)); } catch (const std::exception&) {} return Made{s, nullptr, [] {}}; });
  for (auto q : radial_kinds()) for (auto t : radial_kinds()) add(say(radial_name(q), " from ", radial_name(t)), [=] { std::string s = "refused"; try { s = bytes_of(*RadialFactory::generate(q, *make_radial_traits(t, size_t(4), 1.0))); } catch (const std::exception&) {} return Made{s, nullptr, [] {}}; });
  open("many sizes");
  for (size_t n = 2; n <= (thorough() ? 200 : 70); ++n) {
    add(say("GaussLegendre(", n), [n] { return made(GaussLegendre<double, double>(n)); });
    add(say("TreutlerAhlrichs(", n), [n] { return made(TreutlerAhlrichs<double, double>(n, 1.0)); });
    add(say("unpruned ", n), [n] { return made_sph(SphericalGridFactory::generate_unpruned_grid(RadialQuad::Becke, *make_radial_traits(RadialQuad::Becke, n, 1.0), AngularQuad::LebedevLaikov, 6)); });
  }
  return g;
}
// in a process of its own
template <class F> void apart(int& live, F&& f) {
  reap(live, 7);
  const pid_t pid = fork();
  if (pid < 0) { fail("fork"); return; }
  if (pid == 0) { alarm(120); f(); _exit(0); }
  ++live;
}
void expect(const Call& c, const std::string& want, Made& m, const std::string& before) {
  const auto got = run(c, m); ++sh->trans;
  if (got != want) { fail(cat("after ", before, " the result of ", c.name, " differs from that in a fresh process")); _exit(0); }
}
void group(const Group& g) {
  const auto& cs = g.second; std::vector<std::string> want;
  for (auto& c : cs) want.push_back(fresh_of(c));
  int live = 0;
  // every pair a, b, a: results destroyed at once, or written over and kept
  if (g.first != "many sizes") for (size_t i = 0; i < cs.size() && !sh->failed; ++i) for (int mode : {0, 1}) apart(live, [&] {
    for (size_t j = 0; j < cs.size(); ++j) {
      int one = 0;
      apart(one, [&] {
        Made a, b, c; expect(cs[i], want[i], a, "nothing");
        if (mode == 0) a = Made{}; else if (a.spoil) a.spoil();
        expect(cs[j], want[j], b, cs[i].name);
        if (mode == 0) b = Made{}; else if (b.spoil) b.spoil();
        expect(cs[i], want[i], c, cs[i].name + ", " + cs[j].name); ++sh->states;
      });
      reap(one, 0);
    }
  });
  // long histories: the whole list forwards and backwards three times; one call over and over, then all
  for (int mode : {0, 1}) apart(live, [&] {
    std::vector<Made> kept;
    const auto step = [&](size_t k, const char* when) { Made m; expect(cs[k], want[k], m, cat("all of the calls \"", g.first, "\" ", when)); if (mode && m.spoil) { m.spoil(); if (kept.size() < 200) kept.push_back(m); } };
    for (int r = 0; r < 3; ++r) { for (size_t k = 0; k < cs.size(); ++k) step(k, "forwards"); for (size_t k = cs.size(); k-- > 0;) step(k, "backwards"); }
  });
  if (g.first != "many sizes") for (size_t i = 0; i < cs.size() && !sh->failed; ++i) apart(live, [&] {
    Made m; for (int r = 0; r < 300; ++r) expect(cs[i], want[i], m, cat(r, " times itself"));
    for (size_t j = 0; j < cs.size(); ++j) expect(cs[j], want[j], m, cat("300 times ", cs[i].name));
  });
  reap(live, 0);
}
}  // namespace

int main(int argc, char** argv) {
  init(argc, argv);
  sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  calls = alphabet();
  alarm(120);
  fill_new = 0; for (size_t k = 0; k < calls.size(); ++k) ref.push_back(fresh(k));
  std::set<std::string> distinct(ref.begin(), ref.end());
  auto part = [&](const std::string& key, int depth, int mode, unsigned char pat) {
    if (!begin(key)) return;
    alarm(depth > 2 ? 780 : 300);
    sh->failed = 0; fill_new = pat;
    std::vector<int> h; std::vector<Made> kept; grow(h, kept, depth, mode, 8);
    if (sh->failed) violation(sh->text);
  };
  // what memory holds does not matter
  for (int p : {0x00, 0x01, 0x3F, 0x7F, 0xA5, 0xFF}) part(cat("memory/", p), 1, 0, (unsigned char)p);
  // every pair, whatever becomes of the first result: destroyed, written over and kept, kept
  for (int mode : {0, 1, 2}) for (int p : {0x3F, 0xFF}) part(cat("pairs/", mode, "/", p), 2, mode, (unsigned char)p);
  for (const auto& g : groups()) if (begin(cat("alike/", g.first))) { alarm(300); sh->failed = 0; fill_new = 0xA5; group(g); if (sh->failed) violation(sh->text); }
  part("triples/1", 3, 1, 0xA5);
  if (thorough()) { part("triples/0", 3, 0, 0xFF); part("triples/2", 3, 2, 0x3F); }
  count("states", sh->states); count("transitions", sh->trans); count("calls", calls.size()); count("distinct_results", distinct.size());
  info("space", cat("every sequence of up to 3 of ", calls.size(), " generating calls, each in a fresh process, with results destroyed, kept, or written over; six memory patterns; compared bit for bit with the call made first in a fresh process"));
  sample("angular generator; (write over the result); LebedevLaikov(26); angular generator");
  return finish();
}
