// C32: the Legendre evaluation used by the Gauss rules, for every degree.
#include "common.hpp"
#include <integratorxx/util/legendre.hpp>
using namespace mc;

namespace {
using Q = __float128;
long long n_states = 0, n_trans = 0;
struct Ref { Q p, d, m1; };
// P_n by the recurrence and P_n' by P_n' = n P_{n-1} + x P_{n-1}', in quadruple precision
std::vector<Ref> reference(Q x, size_t N) {
  std::vector<Ref> r{{1, 0, 0}};
  Q a = 0, b = 1, db = 0;
  for (size_t n = 1; n <= N; ++n) { const Q c = ((2 * Q(n) - 1) * x * b - (Q(n) - 1) * a) / Q(n), dc = n * b + x * db; a = b; b = c; db = dc; r.push_back({b, db, a}); }
  return r;
}
template <class T> void point(T x, const std::vector<size_t>& degrees, const char* ty) {
  const auto ref = reference(Q(x), degrees.back());
  const ld u = std::max<ld>(std::numeric_limits<T>::epsilon(), std::numeric_limits<double>::epsilon());   // coefficients may be in double
  const ld gap = (1 - ld(x)) * (1 + ld(x));
  for (size_t n : degrees) {
    const std::tuple<T, T, T> got = IntegratorXX::eval_Pn(x, n);
    const ld tp = 8 * u * (4 + ld(n)) * (1 + std::min<ld>(n, 1 / std::sqrt(std::max<ld>(gap, 1e-40L))));   // rounding grows towards the ends
    const ld p = std::get<0>(got), d = std::get<1>(got), m = std::get<2>(got);
    ++n_states; n_trans += 3;
    MC_CHECK(std::fabs(p - ld(ref[n].p)) <= tp, "P_", n, "(", ld(x), ") in ", ty, " is ", p, " instead of ", ld(ref[n].p));
    if (n > 0) MC_CHECK(std::fabs(m - ld(ref[n].m1)) <= tp, "P_", n - 1, "(", ld(x), ") in ", ty, " is ", m, " instead of ", ld(ref[n].m1));
    if (std::fabs(ld(x)) < 1) MC_CHECK(std::fabs(d - ld(ref[n].d)) <= 4 * n * tp / gap + 8 * u * std::fabs(d), "P_", n, "'(", ld(x), ") in ", ty, " is ", d, " instead of ", ld(ref[n].d));
  }
}
template <class T> void type(const char* ty) {
  std::vector<size_t> deg; for (size_t n = 0; n <= (thorough() ? 1500 : 600); ++n) deg.push_back(n);
  for (size_t n : {255, 256, 257, 500, 1000, 2048}) if (n > deg.back()) deg.push_back(n);
  const int K = thorough() ? 512 : 128;
  for (int b = 0; b < 8; ++b) {   // a block of abscissae per case
    if (!begin(cat("grid/", ty, "/", b))) continue;
    for (int k = -K + b; k <= K; k += 8) point(T(k) / K, deg, ty);
  }
  if (begin(cat("uneven/", ty))) for (int k = 1; k <= 60; ++k) for (int s : {-1, 1}) {
    point<T>(s * (1 - std::ldexp(T(1), -k)), deg, ty);            // towards the ends
    point<T>(s * std::ldexp(T(1), -2 * k), deg, ty);              // towards the middle
    point<T>(s * std::cos(T(k) / 20), deg, ty);                   // no short binary fraction
  }
  if (begin(cat("large/", ty))) for (int k = -6; k <= 6; ++k) point<T>(T(k) / 7, {0, 70001}, ty);
}
}  // namespace

int main(int argc, char** argv) {
  init(argc, argv);
  type<double>("double"); type<float>("float"); type<long double>("long double");
  count("states", n_states); count("transitions", n_trans);
  info("space", "degrees 0..600 (thorough 1500), six to 2048 and 70001, at 257 (1025) equidistant abscissae, 240 towards the ends and the middle and 120 others, in three types");
  sample("P_37(-5/128), its derivative and P_36 in float");
  return finish();
}
