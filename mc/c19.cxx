// C19: histories of batcher operations.
#include "batch.hpp"
using namespace mc;

namespace {
long long n_states = 0, n_trans = 0;
// Model: the batches about the origin (fixed at the start) and the centre.
struct Model { std::vector<Seen> rel; P3 centre; };
double drift = 0;

std::string agrees(Batcher& b, const Model& m, size_t max, double slack) {
  const auto v = walk(b);
  if (b.max_batch_size() != max) return "maximum batch size changed";
  if (v.size() != m.rel.size() || b.nbatches() != m.rel.size()) return cat("number of batches changed to ", v.size());
  if (!(b.quadrature().center() == m.centre)) return cat("centre is ", show(b.quadrature().center()));
  size_t k = 0;
  for (size_t i = 0; i < v.size(); ++i) {
    if (v[i].p.size() != m.rel[i].p.size() || !(v[i].w == m.rel[i].w)) return cat("batch ", i, " changed its weights");
    for (int d = 0; d < 3; ++d) {
      double lo = v[i].p[0][d], up = lo;
      for (size_t j = 0; j < v[i].p.size(); ++j) {
        if (!(std::fabs(v[i].p[j][d] - (m.rel[i].p[j][d] + m.centre[d])) <= 1e-14 * slack)) return cat("batch ", i, " point ", j, " is at ", show(v[i].p[j]), ", not at ", show(m.rel[i].p[j]), " from ", show(m.centre));
        lo = std::min(lo, v[i].p[j][d]); up = std::max(up, v[i].p[j][d]);
      }
      if (v[i].lo[d] != lo || v[i].up[d] != up) return cat("box of batch ", i, " is stale");
    }
    k += v[i].p.size();
  }
  if (k != b.npts() || b.points().size() != k || b.weights().size() != k) return "number of points changed";
  for (size_t i = 0; i < v.size(); ++i) if (!(seen(b.at(i)) == v[i])) return "at() and the iterators differ";
  return "";
}
const std::vector<P3>& targets() { static const std::vector<P3> t = {{0, 0, 0}, {1, 2, 3}, {-7, 1e3, 0.125}, {1, 2, 3.000000002}, {0, -5e-9, 0}}; return t; }

// ops: 0-2 recenter the batcher; 3 recenter through its quadrature; 4 continue with a clone, spoil the original;
//      5 spoil a clone, continue with the original; 6 move; 7 copy; 8 batcher of the batched quadrature's clone with the same partition sizes;
//      9 recenter to one of its own points, given by reference; 10 the same through the quadrature; 11, 12 recenter next to another target
void step(Batcher cur, const Model& m, size_t max, std::vector<int>& hist, int depth) {
  ++n_states;
  double slack = 64 * (16 + drift);
  const auto why = agrees(cur, m, max, slack);
  if (why.size()) { std::string s; for (int h : hist) s += cat(h, " "); violation(cat("after history [", s, "]: ", why)); return; }
  if (!depth) return;
  for (int op = 0; op < 13; ++op) {
    ++n_trans; hist.push_back(op);
    Batcher w = cur.clone(); Model n = m;
    switch (op) {
      case 0: case 1: case 2: case 11: case 12: { const P3 to = targets()[op > 2 ? op - 8 : op]; w.recenter(to); n.centre = to; step(w.clone(), n, max, hist, depth - 1); break; }
      case 3: w.quadrature().recenter({1, 2, 3}); n.centre = {1, 2, 3}; step(w.clone(), n, max, hist, depth - 1); break;
      case 4: { Batcher c = w.clone(); w.recenter({99, 99, 99}); w.weights()[0] = -1; step(std::move(c), n, max, hist, depth - 1); break; }
      case 5: { Batcher c = w.clone(); c.recenter({99, 99, 99}); c.weights()[0] = -1; c.points()[0] = {0, 0, 0}; step(std::move(w), n, max, hist, depth - 1); break; }
      case 6: { Batcher c(std::move(w)); step(std::move(c), n, max, hist, depth - 1); break; }
      case 7: { Batcher c(w); const auto y = agrees(c, n, max, slack); if (y.size()) violation("copy: " + y); step(std::move(c), n, max, hist, depth - 1); break; }
      case 9: { const P3 to = w.points()[w.npts() / 2]; w.recenter(w.points()[w.npts() / 2]); n.centre = to; step(w.clone(), n, max, hist, depth - 1); break; }
      case 10: { auto& q = w.quadrature(); const P3 to = q.points()[0]; q.recenter(q.points()[0]); n.centre = to; step(w.clone(), n, max, hist, depth - 1); break; }
      default: { std::vector<size_t> idx = {0}; for (auto& x : n.rel) idx.push_back(idx.back() + x.p.size());
        Batcher c(max, w.quadrature().clone(), idx); w.recenter({5, 5, 5}); step(std::move(c), n, max, hist, depth - 1); }
    }
    hist.pop_back();
  }
}
template <class Q> void explore(const std::string& name, const Q& at_origin, int depth) {
  for (size_t max : {1, 4, 9, 1000}) for (size_t s = 0; s < 3; ++s) {
    if (!begin(cat(name, "/", max, "/start=", s))) continue;
    drift = 1000;
    Q q(at_origin); q.recenter(targets()[s]);
    const auto before = weighted(q);
    Batcher b(max, q);
    Model m; m.centre = targets()[s];
    for (auto& x : walk(b)) { m.rel.push_back(x); for (auto& p : m.rel.back().p) for (int d = 0; d < 3; ++d) p[d] -= m.centre[d]; }
    std::vector<int> hist;
    step(b.clone(), m, max, hist, depth);
    // the quadrature given was copied: recentering the batcher does not reach it
    b.recenter({3, 3, 3}); b.weights()[0] = 42;
    MC_CHECK(weighted(q) == before && q.center() == targets()[s], name, ": a batcher changes the quadrature it was made from");
    Batcher b2(max, q); q.recenter({8, 8, 8});
    const auto y = agrees(b2, m, max, 64 * (16 + drift));
    MC_CHECK(y.empty(), name, ": changing the quadrature reaches the batcher made from it: ", y);
  }
}
}  // namespace

int main(int argc, char** argv) {
  init(argc, argv);
  const int depth = thorough() ? 5 : 4;
  explore("unpruned", AnyQuad(Becke<double, double>(2, 1.0), LebedevLaikov<double>(6)), depth);
  {
    using AQ = LebedevLaikov<double>; const Becke<double, double> r(3, 1.0); const AQ a(6), b(14);
    explore("pruned", PrunedSphericalQuadrature<Becke<double, double>, AQ>(r, RadialGridPartition<AQ>(r, 0, a, 1, b), P3{0, 0, 0}), depth - 1);
  }
  count("states", n_states); count("transitions", n_trans);
  info("space", cat("every history of up to ", depth, " of 13 operations (recenter to 5 targets, some 5e-9 apart, to own points or through the quadrature, continue with or spoil a clone, move, copy, rebuild with the same partition) on an unpruned grid, ", depth - 1, " on a pruned one; 4 batch sizes, 3 start centres"));
  sample("recenter (1,2,3); clone and spoil the original; recenter (-7,1000,0.125); move");
  return finish();
}
