// The four angular families behind one static interface.
#pragma once
#include "common.hpp"
#include <integratorxx/quadratures/s2.hpp>

namespace mc {
using namespace IntegratorXX;

struct LL { template <class R> using type = LebedevLaikov<R>; static constexpr const char* name = "LebedevLaikov"; };
struct DE { template <class R> using type = Delley<R>;        static constexpr const char* name = "Delley"; };
struct AB { template <class R> using type = AhrensBeylkin<R>; static constexpr const char* name = "AhrensBeylkin"; };
struct WO { template <class R> using type = Womersley<R>;     static constexpr const char* name = "Womersley"; };

template <class F> void each_family(F&& f) { f(LL{}); f(DE{}); f(AB{}); f(WO{}); }

inline constexpr int64_t MAX_SIZE = 20000, MAX_ORDER = 400;

// Every size a family says it supports (from either lookup), ascending.
template <class Fam> std::vector<int64_t> sizes() {
  using tr = quadrature_traits<typename Fam::template type<double>>;
  std::set<int64_t> s;
  for (int64_t n = 1; n <= MAX_SIZE; ++n) if (tr::algebraic_order_by_npts(n) > 0) s.insert(n);
  for (int64_t o = 0; o <= MAX_ORDER; ++o) { auto n = tr::npts_by_algebraic_order(o); if (n > 0) s.insert(n); }
  return {s.begin(), s.end()};
}
}  // namespace mc
