// C14: a float or double converts to the exactly equal fraction or to undefined.
#include "frac.hpp"

#include <cmath>

using namespace fx;

// the exact value of finite f as an integer significand and a power of two
template <class F> static bool exact_parts(F f, i128& m, int& ex)
{
  if (!std::isfinite(f))
    return false;
  int e;
  F const fr = std::frexp(f, &e); // |fr| in [1/2, 1)
  m = i128(std::ldexp(fr, std::numeric_limits<F>::digits));
  ex = e - std::numeric_limits<F>::digits;
  if (m == 0)
    ex = 0;
  while (m != 0 && m % 2 == 0)
    m /= 2, ++ex;
  return true;
}

template <class R, class P, class F> void one(F f, const char* fname)
{
  Ri const r = ri<R>;
  i128 m = 0;
  int ex = 0;
  bool fits = exact_parts(f, m, ex);
  Fr want {0, 0};
  if (fits)
  {
    if (ex >= 0)
      fits = ex < 70 && (m == 0 || (iabs(m) <= r.max && iabs(m) <= (r.max >> ex) && within(m << ex, r)));
    else
      fits = -ex < 70 && within(m, r) && (i128(1) << -ex) <= r.max;
    if (fits)
      want = ex >= 0 ? Fr {m * (i128(1) << ex), 1} : Fr {m, i128(1) << -ex};
  }
  uint64_t bits = 0;
  memcpy(&bits, &f, sizeof f);
  mon::begin("to_fraction", pol<P>::s, type_name<R>::s, fname, i128(bits));
  auto const res = ieme::to_fraction<R, P>(f);
  mon::same_type<std::decay_t<decltype(res)>, fraction<R, P>>("result type");
  Fr const g = get(res);
  mon::seen();
  if (!fits)
  {
    if (g.d != 0)
      mon::fail("to_fraction", "to_fraction<%s>(%s %.17g) = %s, expected undefined", type_name<R>::s, fname, double(f),
                sh(g).c_str());
  }
  else if (g.d == 0 || !eqv(g, want))
    mon::fail("to_fraction", "to_fraction<%s>(%s %.17g) = %s, expected %s", type_name<R>::s, fname, double(f),
              sh(g).c_str(), sh(want).c_str());
  mon::done();
  static uint64_t* bk[8] = {};
  static const char* const what[8] = {"zero", "integral", "fractional", "negative", "subnormal", "no such fraction", "NaN or infinite", "at the limit"};
  auto hit = [&](int i) {
    if (!bk[i])
      bk[i] = mon::bucket("%s from %s: %s", type_name<R>::s, fname, what[i]);
    ++*bk[i];
  };
  if (!std::isfinite(f))
    hit(6);
  else if (!fits)
    hit(5);
  else
  {
    hit(m == 0 ? 0 : ex >= 0 ? 1 : 2);
    if (iabs(want.n) > r.max / 2 || want.d > r.max / 2)
      hit(7);
  }
  if (std::signbit(f))
    hit(3);
  if (f != 0 && std::fabs(f) < std::numeric_limits<F>::min())
    hit(4);
}

template <class R, class F, class U> void reps(F f, const char* n)
{
  one<R, ops::safe_reduced_io>(f, n);
  (void)n;
}

template <class F, class U> struct Bits {
  static F of(U u)
  {
    F f;
    memcpy(&f, &u, sizeof f);
    return f;
  }
  static constexpr int mant = std::numeric_limits<F>::digits - 1;
  static constexpr int expo = int(sizeof(U) * 8) - 1 - mant;
};

template <class F, class U, class Go> void sweep(mon::Env& e, const char* name, uint64_t n, Go&& go)
{
  using B = Bits<F, U>;
  // every exponent with structured significands, both signs
  for (U ex = 0; ex < (U(1) << B::expo); ++ex)
  {
    U const full = (U(1) << B::mant) - 1;
    static const int near[] = {0, 1, 2, 3};
    auto put = [&](U m) {
      for (U s = 0; s < 2; ++s)
        go(B::of((s << (B::mant + B::expo)) | (ex << B::mant) | (m & full)), name);
    };
    for (int v : near)
    {
      put(U(v));
      put(full - U(v));
    }
    for (int b = 0; b < B::mant; ++b)
    {
      put(U(1) << b);
      put(full & ~((U(1) << b) - 1)); // leading ones
      put((U(1) << b) | (U(1) << (B::mant - 1)));
      put(((U(1) << b) - 1)); // trailing ones
    }
  }
  ++mon::S->exhausted_spaces;
  // n / 2^k and random bit patterns
  for (uint64_t i = 0; e.go(i, n); ++i)
  {
    F f;
    switch (e.rng.below(5))
    {
      case 0: f = B::of(U(e.rng.u())); break;
      case 1: // an exponent around the representable range
      {
        U const bias = (U(1) << (B::expo - 1)) - 1;
        U const ex = bias + U(e.rng.range(-70, 70));
        U const m = U(e.rng.u()) & ((U(1) << B::mant) - 1) & ~((U(1) << e.rng.range(0, B::mant)) - 1);
        f = B::of((U(e.rng.below(2)) << (B::mant + B::expo)) | (ex << B::mant) | m);
        break;
      }
      case 2:
        f = F(std::ldexp(double(int64_t(e.rng.u() >> e.rng.range(1, 63))), -e.rng.range(0, 64)));
        break;
      case 3:
        f = F(std::ldexp(1.0, e.rng.range(-70, 70)));
        f = std::nextafter(f, F(e.rng.chance(50) ? 0 : 1e30f));
        break;
      default:
        f = F(int64_t(e.rng.u() >> e.rng.range(0, 62))) / F(1 << e.rng.range(0, 20));
    }
    if (e.rng.chance(30))
      f = -f;
    go(f, name);
  }
  static const F special[] = {F(0), -F(0), std::numeric_limits<F>::infinity(), -std::numeric_limits<F>::infinity(),
                              std::numeric_limits<F>::quiet_NaN(), -std::numeric_limits<F>::quiet_NaN(),
                              std::numeric_limits<F>::signaling_NaN(), std::numeric_limits<F>::max(),
                              std::numeric_limits<F>::lowest(), std::numeric_limits<F>::min(),
                              std::numeric_limits<F>::denorm_min(), std::numeric_limits<F>::epsilon(),
                              F(0.1), F(0.5), F(2147483647.0), F(2147483648.0), F(-2147483648.0), F(4294967295.0),
                              F(4294967296.0), F(9223372036854775807.0), F(18446744073709551615.0), F(1.0 / 3)};
  for (F f : special)
    go(f, name);
}

template <class R, class Ps> void all(mon::Env& e, bool dbl, bool flt)
{
  uint64_t const n = e.count(800000, 15000000);
  auto go = [&](auto f, const char* name) { each(Ps {}, [&]<class P>() { one<R, P>(f, name); }); };
  if (dbl)
    sweep<double, uint64_t>(e, "double", n, go);
  if (flt)
    sweep<float, uint32_t>(e, "float", n, go);
}

// thorough: every float there is
template <class R> void every_float(mon::Env& e, unsigned from, unsigned step)
{
  for (uint64_t u = from; u < (uint64_t(1) << 32); u += step)
  {
    if (!e.go(u / step, UINT64_MAX))
      return;
    one<R, ops::safe_reduced_io>(Bits<float, uint32_t>::of(uint32_t(u)), "float");
  }
  ++mon::S->exhausted_spaces;
}

int main(int argc, char** argv)
{
  return mon::main_impl(argc, argv, [](mon::Env& e) {
    using io = fx::list<ops::safe_reduced_io>;
    using two = fx::list<ops::safe, ops::fast_reduced_o>;
#if PART == 0
    all<int, io>(e, true, true);
#elif PART == 1
    all<long, io>(e, true, true);
#elif PART == 2
    all<unsigned int, io>(e, true, true);
    all<unsigned long, io>(e, true, false);
#elif PART == 3
    all<int, two>(e, true, true);
#elif PART == 4
    all<long long, two>(e, true, false);
    all<unsigned long, two>(e, false, true);
#elif PART == 5 // optional
    all<short, io>(e, true, true);
    all<signed char, io>(e, true, true);
#elif PART >= 10 // thorough only: every float bit pattern, in eight slices
    every_float<int>(e, PART - 10, 8);
#endif
  });
}
