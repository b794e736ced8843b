// C15: conversion to floating point is accurate, exact where it can be.
#include "frac.hpp"

#include <cmath>

using namespace fx;
typedef __float128 quad; // 113-bit significand: the reference quotient

template <class F> static bool exact_int(i128 v) // is v exactly an F?
{
  v = iabs(v);
  while (v && v % 2 == 0)
    v /= 2;
  return v < (i128(1) << std::numeric_limits<F>::digits);
}

template <class F, class R, class P, class Conv> void one(const char* name, Fr a, i128 k, Conv conv)
{
  Ri const r = ri<R>;
  auto const x = mk<R, P>(a);
  mon::begin(name, pol<P>::s, type_name<R>::s, nullptr, a.n, a.d, k);
  auto const got = conv(x);
  mon::same_type<std::decay_t<decltype(got)>, F>("result type");
  mon::seen();
  if (a.d == 0)
  {
    if (!std::isnan(got))
      mon::fail(name, "%s of the undefined %s is %Lg", name, sh(a).c_str(), (long double)got);
    mon::done();
    MON_BUCKET("undefined");
    return;
  }
  Fr const q = red(a, true);
  bool const sign_ok = q.n == 0 ? got == 0 : (got < 0) == (q.n < 0) && got != 0;
  quad const ref = quad(q.n) / quad(q.d);
  quad const err = quad(got) > ref ? quad(got) - ref : ref - quad(got);
  quad const mag = ref < 0 ? -ref : ref;
  quad const u = quad(std::numeric_limits<F>::epsilon()) / 2;
  // three roundings of relative size u each (and the reference's own 2^-113)
  if (!std::isfinite(got) || !sign_ok || err > mag * (3 * u + 16 * u * u))
    mon::fail(name, "%s(%s) [%s] = %.21Lg is off by %.4g relative units of %g", name, sh(a).c_str(), type_name<R>::s,
              (long double)got, double(err / (mag * u)), double(u));
  // exactness: components are floats and the quotient is one
  i128 dd = q.d;
  while (dd % 2 == 0)
    dd /= 2;
  bool const exact_q = exact_int<F>(q.n) && exact_int<F>(q.d) && dd == 1;
  if (exact_q)
  {
    mon::seen();
    if (quad(got) != ref) // ref is exact here: power-of-two denominator
      mon::fail(name, "%s(%s) [%s] = %.21Lg is not exact", name, sh(a).c_str(), type_name<R>::s, (long double)got);
    if constexpr (!std::is_same_v<F, long double>)
    {
      auto const back = ieme::to_fraction<R, P>(got);
      mon::seen();
      if (get(back).d == 0 || !eqv(get(back), a))
        mon::fail(name, "to_fraction of %s(%s) [%s] = %s", name, sh(a).c_str(), type_name<R>::s, sh(get(back)).c_str());
    }
  }
  // another representation of the value gives the same result
  i128 const m = std::max(iabs(q.n), q.d);
  i128 kk = k % (r.max / m + 1);
  if (kk == 0)
    kk = 1;
  Fr const b {q.n * kk, q.d * kk};
  auto const got2 = conv(mk<R, P>(b));
  mon::seen();
  if (!(got == got2) || std::signbit(got) != std::signbit(got2))
    mon::fail(name, "%s of %s is %.21Lg, of the equal %s it is %.21Lg", name, sh(a).c_str(), (long double)got,
              sh(b).c_str(), (long double)got2);
  mon::done();
  static uint64_t* const bk[3] = {mon::bucket("%s %s exact", name, type_name<R>::s),
                                  mon::bucket("%s %s rounded", name, type_name<R>::s),
                                  mon::bucket("%s %s component beyond the significand", name, type_name<R>::s)};
  ++*bk[exact_q ? 0 : 1];
  if (!exact_int<F>(q.n) || !exact_int<F>(q.d))
    ++*bk[2];
}

#include "parts1.hpp"

template <class R, class Ps> void go1(mon::Env& e, double w)
{
  Ri const r = ri<R>;
  auto all = [&](Fr a, i128 k) {
    each(Ps {}, [&]<class P>() {
      one<float, R, P>("to_float", a, k, [](auto const& x) { return to_float(x); });
      one<double, R, P>("to_double", a, k, [](auto const& x) { return to_double(x); });
      one<long double, R, P>("to_long_double", a, k, [](auto const& x) { return to_long_double(x); });
    });
  };
  int const K = int(std::min<i128>(r.max, e.thorough ? 100 : 16)), lo = r.sg ? -K : 0;
  for (int n = lo; n <= K; ++n)
    for (int d = lo; d <= K; ++d)
      all({n, d}, r.sg ? -3 : 3);
  ++mon::S->exhausted_spaces;
  each_landmark(r, true, [&](Fr a) { all(a, r.sg ? -2 : 2); });
  uint64_t const n = uint64_t(double(e.count(40000, 2500000)) * w);
  for (uint64_t i = 0; e.go(i, n); ++i)
  {
    Fr a = gen_any(e.rng, r);
    switch (e.rng.below(5))
    {
      case 0: // dyadic
        a.d = i128(1) << e.rng.range(0, r.bits - 1);
        if (e.rng.chance(50))
        {
          i128 const t = 1 + e.rng.upto(r.max / a.d - 1);
          a = {a.n % (r.max / t + 1) * t, a.d * t};
        }
        a.d = sgn_(e.rng, r, a.d, 30);
        break;
      case 1: // next to the significand's width
      {
        int const b = std::min(r.bits, (e.rng.chance(50) ? 24 : 53) + e.rng.range(0, 3));
        i128 const v = ((i128(1) << b) - 1 - e.rng.range(0, 4));
        (e.rng.chance(50) ? a.n : a.d) = std::min(v, r.max);
        break;
      }
      default: break;
    }
    a = clampfr(a, r);
    if (e.rng.chance(2))
      a.d = 0;
    all(a, sgn_(e.rng, r, 1 + gen_mag(e.rng, r, e.rng.range(1, r.bits - 1)), 40));
  }
}

int main(int argc, char** argv) { return mon::main_impl(argc, argv, all_parts1); }
