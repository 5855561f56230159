// C03: the look-ups between order and size are mutually consistent, over every
// argument in a window plus wrapped and extreme values.
#include "s2.hpp"
using namespace mc;

namespace {
// The published (order,size) pairs of each family.  A family may gain pairs, not lose them.
const std::map<std::string, std::vector<std::pair<int, int>>> catalogue = {
#include "catalogue.inc"
};

template <class Fam> void family(Fam) {
  using Q = typename Fam::template type<double>;
  using tr = quadrature_traits<Q>;
  const std::string F = Fam::name;
  long long st = 0, trans = 0, traces = 0;
  const auto npts = [&](int64_t o) { ++trans; return (int64_t)tr::npts_by_algebraic_order(o); };
  const auto order = [&](int64_t n) { ++trans; return (int64_t)tr::algebraic_order_by_npts(n); };
  const auto next = [&](int64_t o) { ++trans; return (int64_t)tr::next_algebraic_order(o); };
  std::vector<int64_t> orders, sz;

  if (begin("order-to-size/" + F)) for (int64_t o = -50; o <= 1000; ++o) {
    const auto n = npts(o); ++st;
    if (n == -1) continue;
    MC_CHECK(o > 0 && n > 0, "order ", o, " maps to size ", n);
    MC_CHECK(order(n) == o, "order ", o, " has size ", n, " but that size has order ", order(n));
    if (orders.size()) MC_CHECK(npts(orders.back()) < n, "order ", o, " needs ", n, " points, fewer than the lower order ", orders.back());
    orders.push_back(o);
  }
  if (begin("size-to-order/" + F)) for (int64_t n = -50; n <= 40000; ++n) {
    const auto o = order(n); ++st;
    if (o == -1) continue;
    MC_CHECK(o > 0 && n > 0, "size ", n, " maps to order ", o);
    MC_CHECK(npts(o) == n, "size ", n, " has order ", o, " but that order has size ", npts(o));
    sz.push_back(n);
  }
  if (begin("next-order/" + F)) {
    std::vector<int64_t> os; for (int64_t o = -50; o <= 1000; ++o) if (npts(o) > 0) os.push_back(o);
    std::vector<int64_t> args; for (int64_t o = -50; o <= 1000; ++o) args.push_back(o);
    for (auto x : {std::numeric_limits<int64_t>::min(), (int64_t)-(1LL << 32), (int64_t)(1LL << 31), (int64_t)(1LL << 32), (int64_t)(1LL << 32) + 5, std::numeric_limits<int64_t>::max()}) args.push_back(x);
    for (auto o : args) {
      auto it = std::lower_bound(os.begin(), os.end(), o);
      const auto want = it == os.end() ? os.back() : *it;
      const auto got = next(o); ++st;
      MC_CHECK(got == want, "the next order for ", o, " is ", got, ", expected ", want);
      MC_CHECK(npts(got) > 0, "the next order for ", o, ", ", got, ", has no size");
    }
  }
  if (begin("out-of-range/" + F)) {
    std::vector<int64_t> os, ns;
    for (int64_t o = 0; o <= 1000; ++o) if (npts(o) > 0) os.push_back(o);
    for (int64_t n = 0; n <= 40000; ++n) if (order(n) > 0) ns.push_back(n);
    for (int64_t wrap : {(int64_t)1 << 16, (int64_t)1 << 32, (int64_t)1 << 33, -((int64_t)1 << 32), -((int64_t)1 << 16)}) {
      for (auto o : os) { ++st; MC_CHECK(npts(o + wrap) == -1, "order ", o + wrap, " maps to size ", npts(o + wrap)); }
      for (auto n : ns) { ++st; MC_CHECK(order(n + wrap) == -1 || wrap == ((int64_t)1 << 16), "size ", n + wrap, " maps to order ", order(n + wrap)); }
    }
    for (auto o : os) MC_CHECK(npts(-o) == -1, "order ", -o, " has a size");
    for (auto n : ns) MC_CHECK(order(-n) == -1, "size ", -n, " has an order");
  }
  if (begin("catalogue/" + F)) {
    for (auto [o, n] : catalogue.at(F)) {
      ++st;
      MC_CHECK(npts(o) == n, "order ", o, " has size ", npts(o), ", published ", n);
      MC_CHECK(order(n) == o, "size ", n, " has order ", order(n), ", published ", o);
    }
  }
  // a size has an order exactly if its grid can be constructed (the converse is C04)
  if (begin("constructible/" + F)) for (int64_t n = 1; n <= 20000; ++n) if (order(n) > 0) {
    ++traces; size_t got = 0;
    const auto how = outcome([&, n] { Q q(n); got = q.npts(); });
    MC_CHECK(how.empty() && got == (size_t)n, "size ", n, " has an order but cannot be constructed: ", how, " ", got);
  }
  // the documented chain: any order -> next order -> size -> grid -> order
  if (begin("chain/" + F)) for (int64_t o = 0; o <= (orders.empty() ? 0 : orders.back()); ++o) {
    ++traces;
    const auto a = next(o); const auto n = npts(a);
    MC_CHECK(a >= o && n > 0 && order(n) == a && next(a) == a, "order ", o, " leads to order ", a, ", size ", n, ", order ", order(n));
  }
  count("states", st); count("transitions", trans);
  sample(cat(F, ": ", orders.size(), " orders, ", sz.size(), " sizes, largest order ", orders.empty() ? 0 : orders.back()));
}
}  // namespace

int main(int argc, char** argv) {
  init(argc, argv);
  each_family([](auto F) { family(F); });
  info("space", "orders -50..1000, sizes -50..40000, wrapped by 2^16/2^32/2^33, int64 extremes for the next order; every supported size constructed");
  return finish();
}
