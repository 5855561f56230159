// C16: traits and grid specifications are values: every history of a small alphabet against plain records.
#include "routes.hpp"
using namespace mc;

namespace {
long long n_states = 0, n_trans = 0;

// ---- radial traits ----
struct TM { int kind; size_t n; double R, al; bool operator==(const TM& o) const { return kind == o.kind && n == o.n && R == o.R && al == o.al; } };
std::unique_ptr<RadialTraits> make(const TM& t) {
  switch (t.kind) {
    case 0: return std::make_unique<BeckeRadialTraits>(t.n, t.R);
    case 1: return std::make_unique<MurrayHandyLamingRadialTraits<2>>(t.n, t.R);
    case 2: return std::make_unique<MuraKnowlesRadialTraits>(t.n, t.R);
    case 3: return std::make_unique<TreutlerAhlrichsRadialTraits>(t.n, t.R, t.al);
    default: return std::make_unique<MurrayHandyLamingRadialTraits<3>>(t.n, t.R);
  }
}
std::vector<TM> population() {
  std::vector<TM> p;
  for (int k = 0; k < 5; ++k) for (size_t n : {size_t(0), size_t(1), size_t(2), size_t(75), size_t(257), size_t(1) << 32}) for (double R : {1.0, 0.5, -1.0, 1.0 + 1e-15, 1e300}) for (double al : {0.6, 0.0, 0.6 + 1e-12})
    if (k == 3 || al == 0.6) p.push_back({k, n, R, al});
  return p;
}
template <class T> void direct(const char* nm, const T& a, const T& b, bool eq) { MC_CHECK((a == b) == eq, nm, ": operator== is ", !eq); }
void traits() {
  const auto p = population();
  if (begin("traits/equality")) for (auto& a : p) for (auto& b : p) {
    const auto x = make(a), y = make(b); ++n_trans;
    MC_CHECK(x->compare(*y) == (a == b), "traits (", a.kind, ",", a.n, ",", a.R, ",", a.al, ") and (", b.kind, ",", b.n, ",", b.R, ",", b.al, ") compare ", x->compare(*y));
    MC_CHECK(x->clone()->compare(*y) == (a == b) && y->compare(*x->clone()) == (a == b), "clones compare differently");
    if (a.kind == b.kind) switch (a.kind) {
      case 0: direct("Becke", BeckeRadialTraits(a.n, a.R), BeckeRadialTraits(b.n, b.R), a == b); break;
      case 1: direct("MHL", MurrayHandyLamingRadialTraits<2>(a.n, a.R), MurrayHandyLamingRadialTraits<2>(b.n, b.R), a == b); break;
      case 2: direct("MK", MuraKnowlesRadialTraits(a.n, a.R), MuraKnowlesRadialTraits(b.n, b.R), a == b); break;
      case 3: direct("TA", TreutlerAhlrichsRadialTraits(a.n, a.R, a.al), TreutlerAhlrichsRadialTraits(b.n, b.R, b.al), a == b); break;
      default: direct("MHL3", MurrayHandyLamingRadialTraits<3>(a.n, a.R), MurrayHandyLamingRadialTraits<3>(b.n, b.R), a == b);
    }
  }
  n_states += p.size();
  if (begin("traits/clone")) for (auto& a : p) {
    auto x = make(a); auto y = x->clone(); auto z = y->clone(); x.reset(); ++n_trans;
    MC_CHECK(y->npts() == a.n && z->npts() == a.n && y->compare(*z) && z->compare(*make(a)) && y.get() != z.get(), "a clone differs from what was cloned");
    y.reset(); MC_CHECK(z->npts() == a.n, "a clone of a clone depends on it");
  }
  if (begin("traits/make")) {
    for (auto q : radial_kinds()) for (size_t n : {size_t(1), size_t(7), size_t(300)}) for (double R : {1.0, 0.25, 3.0}) {
      const int kind = q == RadialQuad::Becke ? 0 : q == RadialQuad::MurrayHandyLaming ? 1 : q == RadialQuad::MuraKnowles ? 2 : 3;
      n_trans += 4; n_states += 1;
      MC_CHECK(make_radial_traits(q, n)->compare(*make(TM{kind, n, 1.0, 0.6})), radial_name(q), ": default parameters");
      MC_CHECK(make_radial_traits(q, n, R)->compare(*make(TM{kind, n, R, 0.6})), radial_name(q), ": size and scale");
      std::unique_ptr<RadialTraits> t;
      const auto how = outcome([&] { t = make_radial_traits(q, n, R, 0.3); });
      if (q == RadialQuad::TreutlerAhlrichs) MC_CHECK(how.empty() && t->compare(*make(TM{3, n, R, 0.3})), "exponent of Treutler-Ahlrichs: ", how);
      else MC_CHECK(!how.empty(), radial_name(q), " accepts a parameter it does not have");
      MC_CHECK(!outcome([&] { make_radial_traits(q); }).empty(), radial_name(q), ": traits without a size");
    }
  }
}

// ---- regions and specifications ----
struct RM { size_t b, e; int aq; size_t n; bool operator==(const RM& o) const { return b == o.b && e == o.e && aq == o.aq && n == o.n; } };
struct SM { int rq; bool has; TM t; std::vector<RM> reg; bool operator==(const SM& o) const { return rq == o.rq && has == o.has && (!has || t == o.t) && reg == o.reg; } };
PruningRegion make(const RM& r) { return {r.b, r.e, angular_kinds()[r.aq], r.n}; }
std::vector<PruningRegion> make(const std::vector<RM>& v) { std::vector<PruningRegion> o; for (auto& r : v) o.push_back(make(r)); return o; }
PrunedSphericalGridSpecification make(const SM& s) {
  if (!s.has) return PrunedSphericalGridSpecification(radial_kinds()[s.rq], radial_traits_ptr{}, make(s.reg));
  return PrunedSphericalGridSpecification(radial_kinds()[s.rq], *make(s.t), make(s.reg));
}
bool is(const PrunedSphericalGridSpecification& s, const SM& m) {
  return s.radial_quad == radial_kinds()[m.rq] && bool(s.radial_traits) == m.has && (!m.has || s.radial_traits->compare(*make(m.t))) && s.pruning_regions == make(m.reg);
}
void regions() {
  if (!begin("regions/equality")) return;
  std::vector<RM> p;
  const size_t far = size_t(1) << 32;
  for (size_t b : {size_t(0), size_t(1), size_t(2), far}) for (size_t e : {size_t(1), size_t(2), size_t(3), far + 1}) for (int a = 0; a < 4; ++a) for (size_t n : {size_t(26), size_t(50), size_t(302), far + 26}) p.push_back({b, e, a, n});
  for (auto& x : p) for (auto& y : p) { ++n_trans; MC_CHECK((make(x) == make(y)) == (x == y), "regions [", x.b, ",", x.e, ") ", x.aq, " ", x.n, " and [", y.b, ",", y.e, ") ", y.aq, " ", y.n); }
  n_states += p.size();
}
std::vector<SM> specs() {
  const std::vector<RM> r1 = {{0, 4, 0, 26}}, r2 = {{0, 2, 0, 26}, {2, 4, 0, 50}}, r3 = {{0, 2, 0, 26}, {2, 4, 1, 50}}, r0;
  std::vector<SM> s;
  for (int q = 0; q < 4; ++q) for (bool h : {true, false}) for (auto* r : {&r0, &r1, &r2, &r3}) {
    const TM t{q, 4, 1.0, 0.6};
    s.push_back({q, h, t, *r});
    if (h) { s.push_back({q, h, {q, 5, 1.0, 0.6}, *r}); s.push_back({q, h, {q, 4, 2.0, 0.6}, *r}); s.push_back({q, h, {(q + 1) % 4, 4, 1.0, 0.6}, *r}); if (q == 3) s.push_back({q, h, {q, 4, 1.0, 0.1}, *r}); }
  }
  return s;
}
void equality() {
  const auto p = specs();
  if (!begin("specifications/equality")) return;
  std::vector<PrunedSphericalGridSpecification> v; for (auto& m : p) v.push_back(make(m));
  for (size_t i = 0; i < p.size(); ++i) for (size_t j = 0; j < p.size(); ++j) { ++n_trans; MC_CHECK((v[i] == v[j]) == (p[i] == p[j]), "specifications ", i, " and ", j, " compare ", v[i] == v[j]); }
  const PrunedSphericalGridSpecification e{}, f{};
  MC_CHECK(e == f && !(e == v[1]) && e.pruning_regions.empty() && !e.radial_traits, "empty specifications");
  n_states += p.size();
}
// Two slots; operations assign, copy, swap through a copy, and change parts of one slot.
struct World { PrunedSphericalGridSpecification s[2]; SM m[2]; };
constexpr int NOPS = 16;
std::string apply(World& w, int op) {
  static const std::vector<SM> base = {{0, true, {0, 4, 1.0, 0.6}, {{0, 4, 0, 26}}}, {3, true, {3, 8, 2.0, 0.3}, {{0, 2, 2, 72}, {2, 8, 2, 132}}}, {2, false, {}, {}}};
  auto& a = w.s[0]; auto& b = w.s[1];
  switch (op) {
    case 0: case 1: case 2: a = make(base[op]); w.m[0] = base[op]; return cat("a = spec", op);
    case 3: a = b; w.m[0] = w.m[1]; return "a = b";
    case 4: b = a; w.m[1] = w.m[0]; return "b = a";
    case 5: { auto& self = a; a = self; return "a = a"; }
    case 6: b = PrunedSphericalGridSpecification(a); w.m[1] = w.m[0]; return "b = copy(a)";
    case 7: { auto t(a); a = b; b = t; std::swap(w.m[0], w.m[1]); return "swap"; }
    case 8: a.radial_traits.reset(); w.m[0].has = false; return "a.traits.reset()";
    case 9: a.radial_traits = make(TM{1, 3, 0.5, 0.6}); w.m[0].has = true; w.m[0].t = TM{1, 3, 0.5, 0.6}; return "a.traits = MHL";
    case 10: a.pruning_regions.push_back(make(RM{7, 9, 1, 50})); w.m[0].reg.push_back({7, 9, 1, 50}); return "a.push(region)";
    case 11: if (a.pruning_regions.size()) { a.pruning_regions[0].angular_size += 1; w.m[0].reg[0].n += 1; } return "a.region0.size++";
    case 12: a.pruning_regions.clear(); w.m[0].reg.clear(); return "a.clear()";
    case 13: a.radial_quad = RadialQuad::MuraKnowles; w.m[0].rq = 2; return "a.kind = MK";
    case 14: { PrunedSphericalGridSpecification t(std::move(b)); b = t; return "b moved out and back"; }
    default: if (a.radial_traits) { auto u = UnprunedSphericalGridSpecification(a.radial_quad, *a.radial_traits, AngularQuad::LebedevLaikov, 26); const UnprunedSphericalGridSpecification v(u); u.radial_traits.reset();
        if (!v.radial_traits || !v.radial_traits->compare(*a.radial_traits) || v.radial_quad != a.radial_quad || v.angular_quad != AngularQuad::LebedevLaikov || v.angular_size != 26) return "!copy of an unpruned specification";
        const UnprunedSphericalGridSpecification n(u); if (n.radial_traits) return "!copy of an emptied unpruned specification"; } return "copy unpruned";
  }
}
void explore(const std::vector<int>& prefix, int depth) {
  for (int op = 0; op < NOPS; ++op) {
    World w; w.m[0] = w.m[1] = SM{0, true, {0, 1, 1.0, 0.6}, {{0, 1, 0, 6}}}; w.s[0] = make(w.m[0]); w.s[1] = make(w.m[1]);
    std::string hist;
    for (int o : prefix) hist += apply(w, o) + "; ";
    const auto last = apply(w, op); hist += last;
    ++n_trans; ++n_states;
    if (last[0] == '!') violation(hist);
    for (int i = 0; i < 2; ++i) if (!is(w.s[i], w.m[i])) { violation(cat("after ", hist, ": specification ", i ? "b" : "a", " is not what was put there")); return; }
    if ((w.s[0] == w.s[1]) != (w.m[0] == w.m[1]) || (w.s[1] == w.s[0]) != (w.m[0] == w.m[1]) || !(w.s[0] == w.s[0])) { violation(cat("after ", hist, ": equality is wrong")); return; }
    if (depth > 1) { auto p = prefix; p.push_back(op); explore(p, depth - 1); }
  }
}
}  // namespace

int main(int argc, char** argv) {
  init(argc, argv);
  traits(); regions(); equality();
  for (int op = 0; op < NOPS; ++op) if (begin(cat("specifications/history/", op))) explore({op}, thorough() ? 4 : 3);
  count("states", n_states); count("transitions", n_trans);
  info("space", "all pairs of 210 radial traits, of 256 regions and of 140 specifications; every history of 4 (thorough 5) out of 16 operations on two specifications, against plain records");
  sample("a = spec1; b = a; a.traits.reset(); a = b");
  return finish();
}
