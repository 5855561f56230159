// C18: all ways to walk a batcher see the same batches.
#include "batch.hpp"
using namespace mc;

namespace {
long long n_walks = 0, n_states = 0;
template <class It> void forward(const char* nm, It b, It e, const std::vector<Seen>& want, const std::string& what) {
  ++n_walks;
  size_t i = 0;
  for (It it = b; it != e; ++it, ++i) {
    if (i >= want.size()) return violation(cat(what, ", ", nm, ": more batches than announced"));
    if (!(seen(*it) == want[i])) return violation(cat(what, ", ", nm, ": batch ", i, " differs"));
    if (!(seen(*it) == want[i])) return violation(cat(what, ", ", nm, ": batch ", i, " differs when read again"));
    if (!(it == b + int(i)) || it != b + int(i)) return violation(cat(what, ", ", nm, ": iterator ", i, " is not begin plus ", i));
    if ((i > 0) == (it == b)) return violation(cat(what, ", ", nm, ": comparison with begin is wrong at ", i));
    auto [n, pb, pe, wb, we] = it.range();
    if (size_t(n) != want[i].p.size() || !std::equal(pb, pe, want[i].p.begin(), want[i].p.end()) || !std::equal(wb, we, want[i].w.begin(), want[i].w.end())) return violation(cat(what, ", ", nm, ": range of batch ", i, " differs from its contents"));
  }
  if (i != want.size()) violation(cat(what, ", ", nm, ": ", i, " batches instead of ", want.size()));
}
void walks(Batcher& b, const std::string& what) {
  ++n_states;
  const Batcher& c = b;
  std::vector<Seen> want;
  // reference: consecutive slices of the quadrature, of the sizes the iterators report
  for (auto it = c.cbegin(); it != c.cend(); ++it) want.push_back(seen(*it));
  if (want.size() != b.nbatches()) return violation(cat(what, ": ", want.size(), " batches traversed, ", b.nbatches(), " announced"));
  forward("iterator", b.begin(), b.end(), want, what);
  forward("constant iterator", b.cbegin(), b.cend(), want, what);
  forward("constant iterator of a constant batcher", c.cbegin(), c.cend(), want, what);
  { ++n_walks; size_t i = 0; for (auto&& x : b) { if (i < want.size() && !(seen(x) == want[i])) return violation(cat(what, ", range for: batch ", i, " differs")); ++i; } MC_CHECK(i == want.size(), what, ", range for: ", i, " batches"); }
  { ++n_walks; auto it = b.begin(); auto ct = c.cbegin();
    for (size_t i = 0; i < want.size(); ++i) {
      auto old = it++; auto cold = ct++;
      if (!(seen(*old) == want[i]) || !(seen(*cold) == want[i])) return violation(cat(what, ": postfix increment does not return the previous position at ", i));
      if (!(old != it) || !(cold != ct)) return violation(cat(what, ": postfix increment does not move at ", i));
    }
    MC_CHECK(it == b.end() && ct == c.cend(), what, ": postfix increments do not reach the end"); }
  // adding does not move the iterator added to; sums compose
  ++n_walks;
  const auto bi = b.begin(); const auto ci = c.cbegin(); const size_t n = want.size();
  for (size_t i = 0; i < n; ++i) {
    auto x = bi + int(i); auto y = ci + int(i);
    if (!(seen(*x) == want[i]) || !(seen(*y) == want[i])) return violation(cat(what, ": begin plus ", i, " is another batch"));
    for (size_t j = i; j < n; j += 1 + (n > 40 ? 7 : 0)) if (!(seen(*(x + int(j - i))) == want[j]) || !(seen(*(y + int(j - i))) == want[j])) return violation(cat(what, ": begin plus ", i, " plus ", j - i, " is another batch"));
    if (!(seen(*x) == want[i]) || !(x == bi + int(i)) || !(y == ci + int(i))) return violation(cat(what, ": adding to an iterator moves it"));
  }
  MC_CHECK(bi + int(n) == b.end() && ci + int(n) == c.cend(), what, ": begin plus the number of batches is not end");
  // at
  ++n_walks;
  for (size_t i = 0; i < n; ++i) { if (!(seen(b.at(i)) == want[i]) || !(seen(c.at(i)) == want[i])) return violation(cat(what, ": at(", i, ") differs")); }
  for (size_t i : {n, n + 1, n + 1000, size_t(1) << 31, size_t(1) << 32, (size_t(1) << 32) + 1, ~size_t(0)}) {
    MC_CHECK(!outcome([&] { b.at(i); }).empty(), what, ": at(", i, ") of ", n, " batches gives a batch");
    MC_CHECK(!outcome([&] { c.at(i); }).empty(), what, ": at(", i, ") of ", n, " batches gives a batch of a constant batcher");
  }
  // batches are consecutive in the quadrature of the batcher
  size_t k = 0;
  for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < want[i].p.size(); ++j, ++k)
    if (k >= c.npts() || !(c.points()[k] == want[i].p[j]) || !(c.weights()[k] == want[i].w[j])) return violation(cat(what, ": batch ", i, " is not the next slice of the quadrature"));
  MC_CHECK(k == c.npts(), what, ": the batches cover ", k, " of ", c.npts(), " points");
}
// the same for very many batches, in linear time
void long_walk(Batcher& b, const std::string& what) {
  ++n_states; n_walks += 8;
  const Batcher& c = b; const size_t n = b.nbatches();
  size_t k = 0, i = 0;
  auto it = b.begin(), pt = b.begin(); auto ct = c.cbegin();
  for (const auto& x : b) {
    if (i >= n) return violation(cat(what, ": more batches than announced"));
    const auto want = seen(x);
    for (size_t j = 0; j < want.p.size(); ++j, ++k) if (k >= c.npts() || !(c.points()[k] == want.p[j]) || !(c.weights()[k] == want.w[j])) return violation(cat(what, ": batch ", i, " is not the next slice of the quadrature"));
    for (const auto& got : {seen(*it), seen(*pt), seen(*ct), seen(b.at(i)), seen(c.at(i)), seen(*(b.begin() + int(i))), seen(*(c.cbegin() + int(i)))}) if (!(got == want)) return violation(cat(what, ": batch ", i, " depends on the way it is reached"));
    ++it; pt++; ++ct; ++i;
  }
  MC_CHECK(i == n && k == c.npts() && it == b.end() && pt == b.end() && ct == c.cend() && b.begin() + int(n) == b.end(), what, ": ", i, " of ", n, " batches, ", k, " of ", c.npts(), " points");
  for (size_t j : {n, n + 65536, n + (size_t(1) << 32), ~size_t(0)}) MC_CHECK(!outcome([&] { b.at(j); }).empty() && !outcome([&] { c.at(j); }).empty(), what, ": at(", j, ") gives a batch");
}
}  // namespace

int main(int argc, char** argv) {
  init(argc, argv);
  for (size_t nr = 1; nr <= (thorough() ? 8u : 5u); ++nr) for (size_t na : {6, 14, 26, 50}) {
    if (!begin(cat("grid/", nr, "x", na))) continue;
    const AnyQuad q(Becke<double, double>(nr, 1.0), LebedevLaikov<double>(na), nr % 2 ? P3{0, 0, 0} : P3{1, -1, 2});
    for (size_t m : {1, 2, 3, 4, 5, 7, 8, 11, 16, 25, 50, 64, 1000}) { Batcher b(m, q); walks(b, cat(nr, "x", na, " by ", m)); auto d = b.clone(); walks(d, cat(nr, "x", na, " by ", m, ", clone")); b.recenter({4, 5, 6}); walks(b, cat(nr, "x", na, " by ", m, ", recentered")); }
  }
  // batchers with a given partition: every composition of 7 points
  if (begin("given partition")) for (unsigned mask = 0; mask < 64; ++mask) {
    std::vector<P3> p; std::vector<double> w; for (int i = 0; i < 7; ++i) { p.push_back({1.0 * i, -0.5 * i, 2.0 * (i % 3)}); w.push_back(1.0 + i); }
    std::vector<size_t> idx = {0}; for (size_t i = 1; i < 7; ++i) if (mask >> (i - 1) & 1) idx.push_back(i); idx.push_back(7);
    const auto q = holding(p, w);
    for (int way = 0; way < 3; ++way) {
      auto b = way == 0 ? Batcher(7, q, idx) : way == 1 ? Batcher(7, AnyQuad(q), idx) : Batcher(7, std::static_pointer_cast<SphBase>(std::make_shared<AnyQuad>(q)), idx);
      walks(b, cat("given partition ", mask));
      MC_CHECK(b.nbatches() == idx.size() - 1, "given partition: ", b.nbatches(), " batches");
      for (size_t i = 0; i + 1 < idx.size(); ++i) MC_CHECK(seen(b.at(i)).p == std::vector<P3>(p.begin() + idx[i], p.begin() + idx[i + 1]), "given partition: batch ", i, " is not the slice given");
    }
  }
  if (begin("single")) { Batcher b(10, holding({{1, 2, 3}}, {4})); walks(b, "one point"); Batcher e(10, holding({}, {})); walks(e, "no points"); }
  // more batches than 16 bits count
  for (size_t n : thorough() ? std::vector<size_t>{33000, 70001, 200003} : std::vector<size_t>{70001}) if (begin(cat("many/", n))) {
    std::vector<P3> p(n); std::vector<double> w(n); std::vector<size_t> idx(n + 1);
    for (size_t i = 0; i < n; ++i) { p[i] = {1.0 * (i % 41), 1.0 * (i / 41 % 41), 1.0 * (i / 1681)}; w[i] = 1.0 + i; idx[i] = i; }
    idx[n] = n;
    for (int way = 0; way < 2; ++way) { auto b = way ? Batcher(1, holding(p, w)) : Batcher(1, holding(p, w), idx); long_walk(b, cat(n, " batches", way ? "" : " given")); }
  }
  count("states", n_states); count("transitions", n_walks);
  info("space", "grids of 1..5 (thorough 8) x 4 sizes with 13 batch sizes, their clones and after recentering; all 64 given partitions of 7 points by 3 constructors; every pair of positions; 7 positions past the end; 70001 batches (thorough 3 sizes to 200003) walked in every way");
  sample("Becke 3 x LebedevLaikov 14 by 5: begin+i+j, it++, ++it, range-for, at(i), range()");
  return finish();
}
