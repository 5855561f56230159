// C12: a pruned spherical quadrature is the union of its regions.
#include "sph.hpp"
using namespace mc;

namespace {
long long n_trans = 0;
struct Region { size_t b, e, na; };

template <class R, class A> struct Prune {
  using RQ = typename R::type; using AQ = typename A::type;
  using PQ = PrunedSphericalQuadrature<RQ, AQ>; using RGP = RadialGridPartition<AQ>; using SQ = SphericalQuadrature<RQ, AQ>;

  // a size beyond 100000 stands for the rule of that size less 100000 with nodes written over
  static AQ rule(size_t na) {
    if (na < 100000) return AQ(na);
    AQ a(na - 100000);
    for (size_t j = 0; j < a.npts(); ++j) { a.weights()[j] = -0.5 * double(j + 3); a.points()[j][1] += 0.25; }
    return a;
  }
  static std::string contents(const RGP& c, const std::vector<Region>& t) {
    // every way to walk the partition sees the regions in order, with their rules
    RGP m(c);
    std::vector<std::vector<std::pair<std::pair<size_t, size_t>, Quadrature<AQ>>>> walks(7);
    for (auto it = m.begin(); it != m.end(); ++it) walks[0].push_back(*it);
    for (auto it = c.begin(); it != c.end(); it++) walks[1].push_back(*it);
    for (auto it = c.cbegin(); it != c.cend(); ++it) walks[2].push_back(*it);
    for (auto&& v : m) walks[3].push_back(v);
    for (auto&& v : c) walks[4].push_back(v);
    for (size_t i = 0; i < t.size(); ++i) { auto it = m.begin() + int(i); walks[5].push_back(*it); }
    for (size_t i = 0; i < t.size(); ++i) { auto it = c.cbegin() + int(i); walks[6].push_back(*it); }
    for (size_t w = 0; w < walks.size(); ++w) {
      ++n_trans;
      if (walks[w].size() != t.size()) return cat("walk ", w, " sees ", walks[w].size(), " regions instead of ", t.size());
      for (size_t i = 0; i < t.size(); ++i) {
        if (walks[w][i].first != std::make_pair(t[i].b, t[i].e)) return cat("walk ", w, ": region ", i, " is [", walks[w][i].first.first, ",", walks[w][i].first.second, ")");
        const AQ a = rule(t[i].na);
        if (!(walks[w][i].second.points() == a.points() && walks[w][i].second.weights() == a.weights())) return cat("walk ", w, ": rule of region ", i, " is not the one given");
      }
    }
    if (m.begin() + int(t.size()) != m.end() || !(c.cbegin() + int(t.size()) == c.cend()) || !(m.begin() == m.begin())) return "begin plus the number of regions is not end";
    return "";
  }

  static void tiling(const RQ& r, const std::vector<Region>& t, const std::string& what, bool all_centres) {
    std::vector<std::pair<std::string, RGP>> ways;
    { RGP p; for (auto& x : t) p.add_quad(r, x.b, AQ(x.na)); p.finalize(r); ways.push_back({"incremental", p}); p.finalize(r); ways.push_back({"finalized twice", p}); }
    if (t.size() == 1) ways.push_back({"constructor", RGP(r, t[0].b, AQ(t[0].na))});
    if (t.size() == 2) ways.push_back({"constructor", RGP(r, t[0].b, AQ(t[0].na), t[1].b, AQ(t[1].na))});
    if (t.size() == 3) ways.push_back({"constructor", RGP(r, t[0].b, AQ(t[0].na), t[1].b, AQ(t[1].na), t[2].b, AQ(t[2].na))});
    if (t.size() == 4) ways.push_back({"constructor", RGP(r, t[0].b, AQ(t[0].na), t[1].b, AQ(t[1].na), t[2].b, AQ(t[2].na), t[3].b, AQ(t[3].na))});
    if (t.size() == 5) ways.push_back({"constructor", RGP(r, t[0].b, AQ(t[0].na), t[1].b, AQ(t[1].na), t[2].b, AQ(t[2].na), t[3].b, AQ(t[3].na), t[4].b, AQ(t[4].na))});
    if (t.size() == 6) ways.push_back({"constructor", RGP(r, t[0].b, AQ(t[0].na), t[1].b, AQ(t[1].na), t[2].b, AQ(t[2].na), t[3].b, AQ(t[3].na), t[4].b, AQ(t[4].na), t[5].b, AQ(t[5].na))});
    { RGP s(ways[0].second), d; d.add_quad(r, 0, AQ(A::some()[0])); d.finalize(r); d = s; ways.push_back({"copy assigned", d}); RGP e; e = std::move(s); ways.push_back({"move assigned", e}); RGP f(std::move(e)); ways.push_back({"moved", f}); }
    for (auto& [way, p] : ways) {
      const auto why = contents(p, t);
      MC_CHECK(why.empty(), what, " (", way, "): ", why);
      for (const auto& c : centres()) {
        if (!all_centres && reach(c) > 0 && c[2] != 7) continue;
        std::vector<PW> want;
        for (auto& x : t) product(r, x.b, x.e, AQ(x.na), c, want);
        const PQ q(r, p, c);
        auto bad = match(q.points(), q.weights(), want, reach(r) + reach(c));
        MC_CHECK(bad.empty(), what, " (", way, ") about ", show(c), ": ", bad);
        const SphBase& b = q;
        MC_CHECK(q.center() == c && b.center() == c && q.npts() == want.size() && b.npts() == want.size() && b.points() == q.points() && b.weights() == q.weights(), what, " (", way, "): size, centre or base view");
        ++n_trans; count("states");
        if (way == "incremental" && c == P3{0, 0, 0}) {
          const PQ d(r, p);
          MC_CHECK(d.points() == q.points() && d.weights() == q.weights() && d.center() == c, what, ": default centre");
          bool one = true; for (auto& x : t) one = one && x.na == t[0].na;
          if (one) {   // the same rule everywhere: the unpruned grid
            const SQ s(r, AQ(t[0].na));
            std::vector<PW> all; for (size_t i = 0; i < s.npts(); ++i) all.push_back({s.points()[i], s.weights()[i]});
            bad = match(q.points(), q.weights(), all, reach(r));
            MC_CHECK(bad.empty(), what, ": differs from the unpruned grid: ", bad); ++n_trans;
          }
        }
      }
    }
  }

  // without regions: nothing to walk, an empty grid about its centre
  static void none(const std::string& N) {
    if (!begin(cat("no regions/", N))) return;
    for (size_t nr : {1, 2, 5}) {
      const auto r = R::make(nr, 1.3);
      std::vector<std::pair<std::string, RGP>> ways;
      ways.push_back({"default", RGP()}); { RGP p; p.finalize(r); ways.push_back({"finalized", p}); p.finalize(r); ways.push_back({"finalized twice", p}); RGP f; f.add_quad(r, 0, AQ(A::some()[0])); f.finalize(r); f = RGP(); ways.push_back({"assigned", f}); }
      for (auto& [way, p] : ways) {
        const auto why = contents(p, {});
        MC_CHECK(why.empty(), N, " without regions (", way, "): ", why);
        for (const auto& c : centres()) {
          PQ q(r, p, c); ++n_trans; count("states");
          MC_CHECK(q.npts() == 0 && q.points().empty() && q.weights().empty() && q.center() == c, N, " without regions (", way, "): ", q.npts(), " points about ", show(q.center()));
          q.recenter({1, 2, 3}); const auto k = q.clone();
          MC_CHECK(q.npts() == 0 && q.center() == (P3{1, 2, 3}) && k->npts() == 0 && k->center() == (P3{1, 2, 3}), N, " without regions (", way, "), recentered");
        }
      }
    }
  }

  // rules whose nodes were written over: the grid is made of what they hold, and so is every copy of the partition
  static void edited(const std::string& N) {
    if (!begin(cat("edited rules/", N))) return;
    const auto sizes = A::some();
    for (size_t nr : {1, 3, 5}) for (unsigned mask = 0; mask < (1u << (nr - 1)); ++mask) for (int how = 1; how < 4; ++how) {
      RQ r = R::make(nr, 1.3);
      if (how & 1) { for (size_t i = 0; i < nr; ++i) { r.points()[i] = 0.25 + 1.5 * double((i * 3) % 7); r.weights()[i] = i % 2 ? -0.5 : 2.0 + double(i); } }
      std::vector<std::pair<std::pair<size_t, size_t>, AQ>> t; size_t b = 0;
      for (size_t i = 1; i <= nr; ++i) if (i == nr || (mask >> (i - 1) & 1)) {
        AQ a(sizes[t.size() % 2]);   // regions of the same size differ in what was written
        if (how & 2) for (size_t j = 0; j < a.npts(); ++j) { a.weights()[j] = double(j + 1) * (t.size() % 3 ? 0.125 : -0.75); a.points()[j][0] += 0.001 * double(t.size() + 1); }
        t.push_back({{b, i}, a}); b = i;
      }
      RGP p; for (auto& x : t) p.add_quad(r, x.first.first, x.second);
      p.finalize(r);
      RGP c(p), d; d = c; RGP m(std::move(c));
      std::vector<PW> want; for (auto& x : t) product(r, x.first.first, x.first.second, x.second, {1, 2, 3}, want);
      const auto keep = t;
      for (auto& x : t) { for (auto& w : x.second.weights()) w = 77; for (auto& y : x.second.points()) y = {7, 7, 7}; }
      int k = 0;
      for (const RGP* g : {&p, &d, &m}) {
        size_t i = 0; for (auto it = g->cbegin(); it != g->cend(); ++it, ++i) { const auto& v = *it; MC_CHECK(i < keep.size() && v.first == keep[i].first && v.second.points() == keep[i].second.points() && v.second.weights() == keep[i].second.weights(), N, " nr=", nr, ": region ", i, " does not hold the nodes it was given"); }
        const PQ q(r, *g, {1, 2, 3}); const auto bad = match(q.points(), q.weights(), want, reach(r) + 3);
        MC_CHECK(bad.empty(), N, " nr=", nr, " of edited rules, partition ", k++, ": ", bad); ++n_trans; count("states");
      }
    }
  }

  static void run() {
    const std::string N = cat(R::name, "x", A::name);
    none(N); edited(N);
    const auto sizes = A::some();
    const bool full = std::is_same_v<R, RBecke> || thorough();
    // every composition of nr into regions; the angular sizes go round so that neighbours differ, or are all equal
    for (size_t nr = 1; nr <= (full ? 6 : 4); ++nr) {
      if (!begin(cat("compositions/", N, "/", nr))) continue;
      const auto r = R::make(nr, 1.3);
      for (unsigned mask = 0; mask < (1u << (nr - 1)); ++mask) for (int assign = 0; assign < 4; ++assign) {
        std::vector<Region> t; size_t b = 0;
        for (size_t i = 1; i <= nr; ++i) if (i == nr || (mask >> (i - 1) & 1)) { t.push_back({b, i, 0}); b = i; }
        for (size_t k = 0; k < t.size(); ++k) t[k].na = assign == 0 ? sizes[0] : assign == 1 ? sizes[k % 3] : assign == 2 ? sizes[(t.size() - k) % 4] : sizes[k == 0 ? 3 : k + 1 == t.size() ? 0 : 2];
        std::string what = cat(N, " nr=", nr); for (auto& x : t) what += cat(" [", x.b, ",", x.e, "):", x.na);
        tiling(r, t, what, mask == 1 && assign == 1);
      }
    }
    // larger radial rules: every pair of cuts
    for (size_t nr : {9, 16, 30}) {
      if (!begin(cat("cuts/", N, "/", nr)) ) continue;
      const auto r = R::make(nr, 0.7);
      for (size_t i = 1; i < nr; i += (full ? 1 : 4)) for (size_t j = i + 1; j < nr; j += (full && nr < 20 ? 1 : 5)) {
        std::vector<Region> t = {{0, i, sizes[1]}, {i, j, sizes[2]}, {j, nr, sizes[3]}};
        tiling(r, t, cat(N, " nr=", nr, " cuts ", i, " ", j), false);
      }
    }
  }
};
}  // namespace

namespace {
// Two partitions as a state machine: every history of a small alphabet of operations up to a depth.
struct Histories {
  using P = Prune<RBecke, ALL>; using RGP = P::RGP; using AQ = P::AQ;
  struct Model { std::vector<Region> t; bool done = false; };
  const Becke<double, double> r = RBecke::make(4, 1.3); std::string path; long long states = 0;
  std::string check(const RGP& p, Model m) {
    RGP f(p); if (!m.done) f.finalize(r);
    for (size_t i = 0; i < m.t.size(); ++i) m.t[i].e = i + 1 < m.t.size() ? m.t[i + 1].b : 4;
    auto why = P::contents(f, m.t); if (why.size()) return why;
    std::vector<PW> want; for (auto& x : m.t) product(r, x.b, x.e, P::rule(x.na), P3{0, 0, 0}, want);
    const P::PQ q(r, f); return match(q.points(), q.weights(), want, reach(r));
  }
  void go(const RGP& a, const Model& ma, const RGP& b, const Model& mb, int depth) {
    ++states;
    for (auto& why : {check(a, ma), check(b, mb)}) if (!why.empty()) { violation(cat("history", path, ": ", why)); return; }
    if (!depth) return;
    for (int op = 0; op < 10; ++op) {
      RGP x(a), y(b); Model mx = ma, my = mb; const char* n = "";
      RGP& self = x;
      switch (op) {
        case 0: n = "a=b"; x = y; mx = my; break;
        case 1: n = "a=a"; x = self; break;
        case 2: n = "a=copy of b, b cleared"; x = RGP(y); y = RGP(); mx = my; my = {}; break;
        case 3: n = "a=move of b"; x = std::move(y); y = RGP(); mx = my; my = {}; break;
        case 4: n = "a moved out and back"; { RGP t(std::move(x)); x = std::move(t); } break;
        case 5: n = "swap"; { RGP t(std::move(x)); x = std::move(y); y = std::move(t); std::swap(mx, my); } break;
        case 6: { n = "add to a"; const size_t at = mx.t.empty() ? 0 : mx.t.back().b + 1; if (mx.done || at >= 4) continue; const size_t na = at % 2 ? 14 : 6; x.add_quad(r, at, AQ(na)); mx.t.push_back({at, 0, na}); break; }
        case 7: { n = "skip one, add to a"; const size_t at = mx.t.empty() ? 0 : mx.t.back().b + 2; if (mx.done || at >= 4 || mx.t.empty()) continue; x.add_quad(r, at, AQ(26)); mx.t.push_back({at, 0, 26}); break; }
        case 9: { n = "add a rule which was written over to a"; const size_t at = mx.t.empty() ? 0 : mx.t.back().b + 1; if (mx.done || at >= 4) continue; const size_t na = 100000 + (at % 2 ? 14 : 6); x.add_quad(r, at, P::rule(na)); mx.t.push_back({at, 0, na}); break; }
        case 8: n = "finalize a"; x.finalize(r); mx.done = true; break;
      }
      const auto keep = path; path += cat(" | ", n); ++n_trans;
      go(x, mx, y, my, depth - 1); path = keep;
    }
  }
};
// many regions, many radial points, large rules
void large() {
  using P = Prune<RBecke, ALL>;
  const auto sizes = ALL::some();
  if (begin("large/many regions")) for (size_t nr : {size_t(40), size_t(300)}) {
    const auto r = RBecke::make(nr, 1.3); std::vector<Region> t;
    for (size_t i = 0; i < nr; ++i) t.push_back({i, i + 1, sizes[i * i % 4]});
    P::tiling(r, t, cat(nr, " regions of one radial point"), false);
  }
  for (size_t cut : {size_t(1), size_t(255), size_t(256), size_t(32767), size_t(32768), size_t(65535), size_t(65536), size_t(65537), size_t(70000)}) {
    if (!begin(cat("large/cut at ", cut))) continue;
    const auto r = RBecke::make(70001, 1.3);
    P::tiling(r, {{0, cut, 14}, {cut, 70001, 6}}, cat("70001 radial points cut at ", cut), false);
  }
  if (begin("large/large rules")) {
    const auto r = RBecke::make(20, 1.3);
    P::tiling(r, {{0, 3, 4334}, {3, 11, 26}, {11, 20, 5810}}, "large rules", false);
    P::tiling(r, {{0, 20, 4802}}, "one large rule", false);
    P::tiling(RBecke::make(1000, 1.3), {{0, 17, 6}, {17, 600, 110}, {600, 1000, 194}}, "large grid", false);
  }
}
}  // namespace

int main(int argc, char** argv) {
  init(argc, argv);
  Prune<RBecke, ALL>::run(); Prune<RMHL, ADE>::run(); Prune<RMK, AWO>::run(); Prune<RTA, AAB>::run();
  Prune<RMK, ALL>::run(); Prune<RBecke, AWO>::run();
  large();
  for (int start = 0; start < 4; ++start) if (begin(cat("histories/", start))) {
    Histories h; Histories::RGP a, b; Histories::Model ma, mb;
    if (start) { a = Histories::RGP(h.r, 0, Histories::AQ(6), 2, Histories::AQ(14)); ma = {{{0, 0, 6}, {2, 0, 14}}, true}; }
    if (start == 3) { b = Histories::RGP(h.r, 0, Histories::AQ(6), 2, Histories::P::rule(100014)); mb = {{{0, 0, 6}, {2, 0, 100014}}, true}; }
    else if (start > 1) { b.add_quad(h.r, 0, Histories::AQ(26)); mb.t = {{0, 0, 26}}; }
    h.go(a, ma, b, mb, thorough() ? 6 : 4); count("states", h.states);
  }
  count("transitions", n_trans);
  info("space", "every composition of 1..6 radial points into regions with 4 assignments of angular sizes, of 1..5 with rules that were written over, every pair of cuts of 9..30 radial points; partitions without regions; every way to build and to walk the partition; up to 8 centres; 40 and 300 regions, 70001 radial points cut at 9 places, rules of up to 5810 points; every history of up to 4 (thorough 6) of 10 operations on two partitions from 4 starts, with rules written over among them");
  sample("Becke x LebedevLaikov nr=5, [0,2):6 [2,3):14 [3,5):26 built incrementally, by constructor, copied, moved, assigned");
  return finish();
}
