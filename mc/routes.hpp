// Radial kinds and the routes to a spherical grid through the runtime generator.
#pragma once
#include "common.hpp"
#include <integratorxx/quadratures/all.hpp>
#include <integratorxx/quadratures/primitive.hpp>
#include <integratorxx/generators/spherical_factory.hpp>

namespace mc {
using namespace IntegratorXX;

inline const std::vector<RadialQuad>& radial_kinds() {
  static const std::vector<RadialQuad> k = {RadialQuad::Becke, RadialQuad::MurrayHandyLaming, RadialQuad::MuraKnowles, RadialQuad::TreutlerAhlrichs};
  return k;
}
inline const std::vector<AngularQuad>& angular_kinds() {
  static const std::vector<AngularQuad> k = {AngularQuad::LebedevLaikov, AngularQuad::Delley, AngularQuad::AhrensBeylkin, AngularQuad::Womersley};
  return k;
}
inline std::string radial_name(RadialQuad q) {
  switch (q) { case RadialQuad::Becke: return "Becke"; case RadialQuad::MurrayHandyLaming: return "MHL";
    case RadialQuad::MuraKnowles: return "MK"; case RadialQuad::TreutlerAhlrichs: return "TA"; }
  return "?";
}
inline std::string angular_name(AngularQuad q) {
  switch (q) { case AngularQuad::LebedevLaikov: return "LebedevLaikov"; case AngularQuad::Delley: return "Delley";
    case AngularQuad::AhrensBeylkin: return "AhrensBeylkin"; case AngularQuad::Womersley: return "Womersley"; }
  return "?";
}
inline std::string scheme_name(PruningScheme s) {
  return s == PruningScheme::Unpruned ? "Unpruned" : s == PruningScheme::Robust ? "Robust" : "Treutler";
}

using spherical_ptr = SphericalGridFactory::spherical_grid_ptr;

// size -> number of points, for every route through which an angular size reaches a spherical grid
inline std::vector<std::pair<std::string, std::function<size_t(size_t)>>> composite_routes(RadialQuad rq, AngularQuad aq, size_t good) {
  const auto traits = [rq] { return make_radial_traits(rq, size_t(4), 1.0); };
  std::vector<std::pair<std::string, std::function<size_t(size_t)>>> r;
  r.push_back({"unpruned arguments", [=](size_t n) { return SphericalGridFactory::generate_unpruned_grid(rq, *traits(), aq, n)->npts(); }});
  r.push_back({"unpruned specification", [=](size_t n) {
    return SphericalGridFactory::generate_grid(UnprunedSphericalGridSpecification(rq, *traits(), aq, n))->npts(); }});
  for (auto s : {PruningScheme::Unpruned, PruningScheme::Robust, PruningScheme::Treutler})
    r.push_back({scheme_name(s) + " scheme", [=](size_t n) {
      return SphericalGridFactory::generate_grid(create_pruned_spec(s, UnprunedSphericalGridSpecification(rq, *traits(), aq, n)))->npts(); }});
  for (int pos = 0; pos < 3; ++pos)
    r.push_back({cat("pruning region ", pos), [=](size_t n) {
      std::vector<PruningRegion> reg = {{0, 1, aq, good}, {1, 2, aq, good}, {2, 4, aq, good}};
      reg[pos].angular_size = n;
      return SphericalGridFactory::generate_pruned_grid(rq, *traits(), reg)->npts(); }});
  return r;
}
}  // namespace mc
