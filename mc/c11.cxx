// C11: recentering, as a state machine: every history of operations up to a depth.
#include "sph.hpp"
using namespace mc;

namespace {
// Reference state of one grid: its shape (offsets and weights about the origin) never changes, its centre is the last one set.
struct Model { std::vector<PW> shape; P3 centre; double slack; };
long long n_states = 0, n_trans = 0;

const std::vector<P3>& targets() { static const std::vector<P3> t = {{0, 0, 0}, {1, 2, 3}, {1, 2, 3.0000000001}, {-50, 0.5, 1e3}, {1, 0, 0}}; return t; }

std::string agrees(const SphBase& g, const Model& m, double drift) {
  if (!(g.center() == m.centre)) return cat("centre is ", show(g.center()), ", not ", show(m.centre));
  if (g.npts() != m.shape.size()) return "number of points changed";
  std::vector<PW> want = m.shape;
  for (auto& p : want) for (int k = 0; k < 3; ++k) p.first[k] += m.centre[k];
  return match(g.points(), g.weights(), want, m.slack + drift, 1e-13);
}

// ops: 0..4 recenter to a target; 5 continue with a copy; 6 with a moved-to object; 7 with a clone; 8 recenter a clone, and keep the original;
// 9 recenter to a point of the grid itself, given by reference
template <class S> void step(const S& cur, const Model& m, std::vector<int>& hist, int depth, double drift, const char* name) {
  ++n_states;
  const auto text = [&] { std::string s; for (int h : hist) s += cat(h, " "); return s; };
  {   // the views of the quadrature, before the others are looked at
    const Quadrature<S>& qb = cur; const auto p0 = qb.points(); const auto w0 = qb.weights();
    const P3 first = qb.points(0), last = qb.points_data()[p0.size() - 1]; const double wl = qb.weights(p0.size() - 1);
    if (!(p0 == cur.points() && w0 == cur.weights() && first == cur.points()[0] && last == cur.points().back() && wl == cur.weights().back() && qb.npts() == cur.npts())) { violation(cat(name, " after history [", text(), "]: the view of the quadrature differs from that of the spherical grid")); return; }
  }
  for (int via_base = 0; via_base < 2; ++via_base) {
    const SphBase& b = cur;
    const auto why = via_base ? agrees(b, m, drift) : (cur.npts() == m.shape.size() && cur.points() == b.points() && cur.weights() == b.weights() ? "" : std::string("derived and base views differ"));
    if (!why.empty()) { violation(cat(name, " after history [", text(), "]: ", why)); return; }
  }
  if (depth == 0) return;
  for (int op = 0; op < 10; ++op) {
    hist.push_back(op); ++n_trans;
    S work(cur);
    Model n = m; double d = drift;
    if (op < 5) {
      const P3 before = cur.center();
      if (op & 1) static_cast<SphBase&>(work).recenter(targets()[op]); else work.recenter(targets()[op]);
      n.centre = targets()[op]; d = std::max(d, reach(targets()[op]));
      // weights are untouched, and setting the same centre changes nothing at all
      if (!(work.weights() == cur.weights())) violation(cat(name, " [", text(), "]: recentering changed the weights"));
      if (before == targets()[op] && !(work.points() == cur.points())) violation(cat(name, " [", text(), "]: recentering to the current centre moved points"));
      step(work, n, hist, depth - 1, d, name);
    } else if (op == 5) { S other(work); work.recenter({9, 9, 9}); step(other, n, hist, depth - 1, d, name); }
    else if (op == 6) { S other(std::move(work)); step(other, n, hist, depth - 1, d, name); }
    else if (op == 9) {
      const size_t i = (work.npts() * 2) / 3;
      const P3 to = work.points()[i];
      if (hist.size() & 1) work.recenter(work.points()[i]); else static_cast<SphBase&>(work).recenter(work.points()[i]);
      n.centre = to; d = std::max(d, reach(to));
      if (!(work.weights() == cur.weights())) violation(cat(name, " [", text(), "]: recentering changed the weights"));
      step(work, n, hist, depth - 1, d, name);
    }
    else {
      auto c = static_cast<const SphBase&>(work).clone();
      const auto why = agrees(*c, n, d);
      if (!why.empty()) violation(cat(name, " [", text(), "]: clone: ", why));
      if (op == 7) { auto* s = dynamic_cast<S*>(c.get()); if (!s) violation(cat(name, ": clone has another type")); else { work.recenter({9, 9, 9}); step(*s, n, hist, depth - 1, d, name); } }
      else { c->recenter({-3, 1, 4}); c->weights()[0] = 77; c->points()[0] = {5, 5, 5}; step(work, n, hist, depth - 1, d, name); }
    }
    hist.pop_back();
  }
}

template <class S, class Make> void explore(const char* name, Make&& make, std::vector<PW> shape, double slack, int depth) {
  for (size_t s = 0; s < targets().size(); ++s) {
    if (!begin(cat(name, "/start=", s))) continue;
    const S start = make(targets()[s]);
    std::vector<int> hist;
    step(start, Model{shape, targets()[s], slack}, hist, depth, reach(targets()[s]), name);
  }
}
}  // namespace

int main(int argc, char** argv) {
  init(argc, argv);
  using RQ = Becke<double, double>; using AQ = LebedevLaikov<double>;
  using MQ = MurrayHandyLaming<double, double>; using WQ = Womersley<double>;
  const int depth = thorough() ? 6 : 5;
  {
    const RQ r(2, 1.0); const AQ a(6);
    std::vector<PW> shape; product(r, 0, 2, a, {0, 0, 0}, shape);
    explore<SphericalQuadrature<RQ, AQ>>("unpruned", [&](P3 c) { return SphericalQuadrature<RQ, AQ>(r, a, c); }, shape, reach(r), depth);
  }
  {
    const MQ r(4, 2.0); const WQ a(14);
    std::vector<PW> shape; product(r, 0, 4, a, {0, 0, 0}, shape);
    explore<SphericalQuadrature<MQ, WQ>>("unpruned MHL Womersley", [&](P3 c) { return SphericalQuadrature<MQ, WQ>(r, a, c); }, shape, reach(r), depth - 1);
  }
  {
    const RQ r(3, 1.0); const AQ a(6), b(14);
    std::vector<PW> shape; product(r, 0, 1, a, {0, 0, 0}, shape); product(r, 1, 3, b, {0, 0, 0}, shape);
    const RadialGridPartition<AQ> p(r, 0, a, 1, b);
    explore<PrunedSphericalQuadrature<RQ, AQ>>("pruned", [&](P3 c) { return PrunedSphericalQuadrature<RQ, AQ>(r, p, c); }, shape, reach(r), depth);
  }
  {   // large grids: many points, single steps
    const RQ r(12, 1.0); const AQ a(5810);
    std::vector<PW> shape; product(r, 0, 12, a, {0, 0, 0}, shape);
    explore<SphericalQuadrature<RQ, AQ>>("large", [&](P3 c) { return SphericalQuadrature<RQ, AQ>(r, a, c); }, shape, reach(r), thorough() ? 2 : 1);
  }
  {
    const RQ r(20, 1.0); const AQ a(6), b(4334);
    std::vector<PW> shape; product(r, 0, 7, a, {0, 0, 0}, shape); product(r, 7, 20, b, {0, 0, 0}, shape);
    const RadialGridPartition<AQ> p(r, 0, a, 7, b);
    explore<PrunedSphericalQuadrature<RQ, AQ>>("large pruned", [&](P3 c) { return PrunedSphericalQuadrature<RQ, AQ>(r, p, c); }, shape, reach(r), thorough() ? 2 : 1);
  }
  count("states", n_states); count("transitions", n_trans);
  info("space", cat("every history of up to ", depth, " operations out of 10 (recenter to 5 targets or a point of its own, copy, move, clone, disturb a clone), from 5 start centres, on unpruned and pruned grids; single operations (thorough: pairs) on grids of about 69000 points"));
  sample("start (1,2,3); recenter (1,2,3.0000000001) through the base; clone; recenter (0,0,0)");
  return finish();
}
