// One floating-point instantiation of the four families: PREC, FN.
#include "s2.hpp"
#include "c02.hpp"
namespace {
template <class Q> Grid get(int64_t n) {
  Q q(n); Grid g; g.npts = q.npts();
  for (auto& p : q.points()) g.p.push_back({p[0], p[1], p[2]});
  for (auto w : q.weights()) g.w.push_back(w);
  return g;
}
}
Grid FN(int fam, int64_t n) {
  using namespace IntegratorXX;
  switch (fam) {
    case 0: return get<LebedevLaikov<PREC>>(n);
    case 1: return get<Delley<PREC>>(n);
    case 2: return get<AhrensBeylkin<PREC>>(n);
    default: return get<Womersley<PREC>>(n);
  }
}
