// Operations on shared objects (constant ones), on own objects, and generating calls: each returns what can be observed, as bytes.
#pragma once
#include "calls.hpp"

namespace mc {
using B = Becke<double, double>; using L = LebedevLaikov<double>; using S = SphericalQuadrature<B, L>; using P = PrunedSphericalQuadrature<B, L>;
struct World {   // shared by the threads: only constant operations
  B rad{4, 1.0}; L ang{6}; RadialGridPartition<L> part{rad, 0, L(6), 2, L(14)};
  S sph{rad, ang, P3{1, 2, 3}}; P pruned{rad, part, P3{0, 0, 1}};
  Batcher batcher{5, sph}; GaussLegendre<double, double> gl{7}; TreutlerAhlrichs<double, double> ta{5, 1.5};
  std::unique_ptr<RadialTraits> traits = make_radial_traits(RadialQuad::TreutlerAhlrichs, size_t(5), 1.5, 0.3);
  UnprunedSphericalGridSpecification unp{RadialQuad::TreutlerAhlrichs, *traits, AngularQuad::LebedevLaikov, 26};
  PrunedSphericalGridSpecification spec = create_pruned_spec(PruningScheme::Robust, unp);
  std::shared_ptr<SphBase> base = std::make_shared<S>(sph);
};
struct Own {     // one per thread, copied from the shared ones beforehand
  S sph; P pruned; Batcher batcher; std::shared_ptr<SphBase> base; PrunedSphericalGridSpecification spec; RadialGridPartition<L> part;
  explicit Own(const World& w) : sph(w.sph), pruned(w.pruned), batcher(w.batcher.clone()), base(w.base->clone()), spec(w.spec), part(w.part) {}
};
inline World* world = nullptr; inline Own* own[4] = {};
struct Op { std::string name; std::function<std::string(int)> run; };
inline std::vector<Op> ops; inline size_t n_calls = 0;

inline std::string walk_bytes(const Batcher& b) {
  std::string s = say(b.nbatches(), "/", b.npts(), "/", b.max_batch_size(), "/");
  for (auto it = b.cbegin(); it != b.cend(); ++it) { auto v = seen(*it); put_pt(s, v.lo); put_pt(s, v.up); for (auto& p : v.p) put_pt(s, p); for (auto w : v.w) put_real(s, w); }
  for (size_t i = 0; i < b.nbatches(); ++i) { auto v = seen(b.at(i)); put_pt(s, v.lo); put_real(s, v.w[0]); }
  put_pt(s, b.quadrature().center()); s += bytes_of(b.quadrature()); return s;
}
template <class R> std::string part_bytes(const R& r) { std::string s; for (auto it = r.cbegin(); it != r.cend(); ++it) { auto v = *it; s += say(v.first.first, "-", v.first.second, ":") + bytes_of(v.second); } return s; }
inline std::string base_bytes(const SphBase& b) { std::string s = bytes_of(b); put_pt(s, b.center()); return s; }
template <class Q> std::string elements(const Q& q) { std::string s; for (size_t i = 0; i < q.npts(); ++i) { put_pt(s, q.points(i)); put_real(s, q.weights(i)); } s += bytes_of(q); put_real(s, q.weights_data()[0]); put_pt(s, q.points_data()[0]); return s + outcome([&] { q.points(q.npts()); }); }

inline void make_ops() {
  world = new World; for (int t = 1; t < 4; ++t) own[t] = new Own(*world);
  for (auto& c : alphabet()) ops.push_back({c.name, [f = c.make](int) { auto m = f(); if (m.spoil) m.spoil(); return m.bytes; }});
  n_calls = ops.size();
  const World& w = *world;
  auto add = [&](const char* n, std::function<std::string(int)> f) { ops.push_back({n, std::move(f)}); };
  add("read a shared grid", [&w](int) { return base_bytes(w.sph); });
  add("copy a shared grid", [&w](int) { S c(w.sph); c.recenter({5, 5, 5}); return base_bytes(c); });
  add("clone a shared grid", [&w](int) { auto c = w.base->clone(); c->recenter({4, 5, 5}); return base_bytes(*c) + base_bytes(*w.base); });
  add("clone a shared pruned grid", [&w](int) { auto c = w.pruned.clone(); c->recenter({4, 5, 5}); P d(w.pruned); return base_bytes(*c) + base_bytes(d) + base_bytes(w.pruned); });
  add("walk a shared batcher", [&w](int) { return walk_bytes(w.batcher); });
  add("clone a shared batcher", [&w](int) { auto c = w.batcher.clone(); c.recenter({1, 1, 1}); return walk_bytes(c); });
  add("copy a shared batcher", [&w](int) { const Batcher c(w.batcher); return walk_bytes(c); });
  add("batch a shared grid", [&w](int) { Batcher a(4, w.sph); Batcher b(7, w.pruned); a.recenter({0, 0, 0}); return walk_bytes(a) + walk_bytes(b); });
  add("grids from shared rules", [&w](int) { S s(w.rad, w.ang); SubQuadrature<B> r({1, 3}, w.rad); return base_bytes(s) + bytes_of(r); });
  add("grids from a shared partition", [&w](int) { P p(w.rad, w.part); RadialGridPartition<L> c(w.part); return base_bytes(p) + part_bytes(c) + part_bytes(w.part); });
  add("shared traits", [&w](int) { auto c = w.traits->clone(); return say(c->compare(*w.traits), w.traits->compare(*c), w.traits->npts()) + bytes_of(*RadialFactory::generate(RadialQuad::TreutlerAhlrichs, *w.traits)); });
  add("a shared specification", [&w](int) { PrunedSphericalGridSpecification c(w.spec), d; d = w.spec; return say(c == w.spec, d == c) + base_bytes(*SphericalGridFactory::generate_grid(c)) + bytes_of(create_pruned_spec(PruningScheme::Treutler, w.unp).pruning_regions); });
  add("elements of shared rules", [&w](int) { return elements(w.gl) + elements(w.ta) + elements(w.rad) + elements(w.ang); });
  add("move an own grid", [](int t) { Own& o = *own[t]; o.sph.recenter({9, 8, 7}); o.pruned.recenter({1, 0, 2}); o.base->recenter({0, 0, 0}); return base_bytes(o.sph) + base_bytes(o.pruned) + base_bytes(*o.base); });
  add("move an own batcher", [](int t) { Own& o = *own[t]; o.batcher.recenter({9, 8, 7}); std::string s; for (auto it = o.batcher.begin(); it != o.batcher.end(); ++it) { auto v = seen(*it); put_pt(s, v.lo); put_real(s, v.w[0]); } return s + walk_bytes(o.batcher); });
  add("write an own grid", [](int t) { Own& o = *own[t]; spoil_it(o.sph); spoil_it(o.batcher.quadrature()); return base_bytes(o.sph) + walk_bytes(o.batcher); });
  add("edit an own specification", [](int t) { Own& o = *own[t]; o.spec.pruning_regions.pop_back(); o.spec.radial_quad = RadialQuad::Becke; o.part.partition_idx().back() = 3; return bytes_of(o.spec.pruning_regions) + part_bytes(o.part); });
}

// all that can be seen of the shared objects
inline std::string world_bytes() {
  const World& w = *world;
  return bytes_of(w.rad) + bytes_of(w.ang) + part_bytes(w.part) + base_bytes(w.sph) + base_bytes(w.pruned) + walk_bytes(w.batcher) + bytes_of(w.gl) + bytes_of(w.ta) + say(w.traits->npts()) +
         say(w.unp.angular_size, w.spec.pruning_regions.size()) + bytes_of(w.spec.pruning_regions) + base_bytes(*w.base);
}
}  // namespace mc
