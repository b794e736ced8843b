// C11: pow and pow2.
#include "frac.hpp"

#include <climits>

using namespace fx;

// |base|^e, or false when base^e is not representable
static bool ipow(i128 base, unsigned e, Ri r, i128& out)
{
  i128 v = 1;
  i128 const limit = r.max + (r.sg && base < 0 && e % 2 ? 1 : 0);
  base = iabs(base);
  if (base <= 1)
  {
    out = e == 0 ? 1 : base;
    return true;
  }
  for (unsigned i = 0; i < e; ++i)
  {
    v *= base;
    if (v > limit)
      return false;
  }
  out = v;
  return true;
}

template <class R, class P> bool one(i128 base, int e)
{
  Ri const r = ri<R>;
  unsigned const m = e < 0 ? 0u - unsigned(e) : unsigned(e);
  i128 v;
  if (i128(m) > r.max || (e < 0 && base == 0) || !ipow(base, m, r, v))
  {
    mon::ood();
    return false;
  }
  if (base < 0 && m % 2)
    v = -v;
  Fr const want = e < 0 ? Fr {1, v} : Fr {v, 1};
  mon::begin("pow", pol<P>::s, type_name<R>::s, nullptr, base, e);
  auto const res = ieme::pow<R, P>(static_cast<R>(base), e);
  mon::same_type<std::decay_t<decltype(res)>, fraction<R, P>>("result type");
  exact("pow", get(res), want);
  mon::done();
  if (v == -r.max - 1)
    MON_BUCKET("the power is the lowest value");
  static uint64_t* const bk[5] = {
    mon::bucket("pow %s %s positive exponent", pol<P>::s, type_name<R>::s),
    mon::bucket("pow %s %s negative exponent", pol<P>::s, type_name<R>::s),
    mon::bucket("pow %s %s exponent 0", pol<P>::s, type_name<R>::s),
    mon::bucket("pow %s %s result above half the maximum", pol<P>::s, type_name<R>::s),
    mon::bucket("pow %s %s negative base", pol<P>::s, type_name<R>::s)};
  ++*bk[e > 0 ? 0 : e < 0 ? 1 : 2];
  if (iabs(v) > r.max / 2)
    ++*bk[3];
  if (base < 0)
    ++*bk[4];
  return true;
}

template <class R, class P> void two()
{
  Ri const r = ri<R>;
  for (int e = -r.bits; e <= r.bits; ++e)
  {
    i128 const v = i128(1) << (e < 0 ? -e : e);
    if (v > r.max)
      continue;
    mon::begin("pow2", pol<P>::s, type_name<R>::s, nullptr, e);
    auto const res = ieme::pow2<R, P>(e);
    mon::same_type<std::decay_t<decltype(res)>, fraction<R, P>>("result type");
    exact("pow2", get(res), e < 0 ? Fr {1, v} : Fr {v, 1});
    if (e >= 0)
    {
      auto const p = ieme::pow<R, P>(R(2), e);
      exact("pow(2, e)", get(p), {v, 1});
    }
    mon::done();
    static uint64_t* const bk = mon::bucket("pow2 %s %s", pol<P>::s, type_name<R>::s);
    ++*bk;
  }
}

template <class R, class P> void defaults()
{
  // with the policy left to its default
  for (int e = -9; e <= 9; ++e)
    for (int b = 1; b <= 9; ++b)
    {
      i128 v;
      if (!ipow(b, unsigned(e < 0 ? -e : e), ri<R>, v))
        continue;
      mon::begin("pow, default policy", nullptr, type_name<R>::s, nullptr, b, e);
      auto const res = ieme::pow(R(b), e);
      exact("pow, default policy", get(res), e < 0 ? Fr {1, v} : Fr {v, 1});
      mon::done();
    }
}

template <class R, class Ps> void go1(mon::Env& e, double w)
{
  Ri const r = ri<R>;
  each(Ps {}, [&]<class P>() { two<R, P>(); defaults<R, P>(); });
  // every base up to a bound, every exponent until the result leaves the range
  int const k = e.thorough ? 3000 : 300;
  for (int b = r.sg ? -k : 0; b <= k; ++b)
    for (int x = 0; x <= (b >= -1 && b <= 1 ? 130 : 66); ++x)
      each(Ps {}, [&]<class P>() {
        one<R, P>(b, x);
        one<R, P>(b, -x);
      });
  ++mon::S->exhausted_spaces;
  // bases 0, 1 and -1 with extreme exponents
  static const int ext[] = {INT_MAX, INT_MAX - 1, INT_MIN, INT_MIN + 1, 1 << 30, -(1 << 30), 65535, -65536, 1000003};
  for (int x : ext)
    each(Ps {}, [&]<class P>() {
      one<R, P>(1, x);
      one<R, P>(0, x);
      if (r.sg)
        one<R, P>(-1, x);
    });
  // bases at the integer roots of the maximum
  for (int x = 2; x <= 64; ++x)
  {
    i128 lo = 1, hi = r.max, v;
    while (lo < hi)
    {
      i128 const mid = lo + (hi - lo + 1) / 2;
      bool ok = true;
      v = 1;
      for (int i = 0; i < x && ok; ++i)
        ok = mul(v, mid, v) && v <= r.max;
      ok ? lo = mid : hi = mid - 1;
    }
    for (int d = 0; d <= 3; ++d)
      if (lo - d >= 0)
        each(Ps {}, [&]<class P>() {
          one<R, P>(lo - d, x);
          one<R, P>(lo - d, -x);
          if (r.sg)
          {
            one<R, P>(-(lo - d), x);
            one<R, P>(-(lo - d), -x);
          }
        });
  }
  // powers that are the lowest value
  for (int k = 1; r.sg && k <= r.bits; ++k)
    if (r.bits % k == 0 && r.bits / k % 2 == 1)
      each(Ps {}, [&]<class P>() {
        one<R, P>(-(i128(1) << k), r.bits / k);
        one<R, P>(-(i128(1) << k), -(r.bits / k));
        one<R, P>(-r.max - 1, 0);
      });
  uint64_t const n = uint64_t(double(e.count(400000, 8000000)) * w);
  for (uint64_t i = 0; e.go(i, n); ++i)
  {
    int const x = int(e.rng.below(e.rng.chance(50) ? 5 : 70));
    i128 const b = sgn_(e.rng, r, gen_mag(e.rng, r, std::max(1, x ? r.bits / x + 1 : r.bits)), 40);
    int const s = e.rng.chance(50) ? x : -x;
    each(Ps {}, [&]<class P>() { one<R, P>(b, s); });
  }
}

int main(int argc, char** argv)
{
  return mon::main_impl(argc, argv, [](mon::Env& e) {
#if PART == 0
    go1<int, fx::builtin>(e, 1);
    go1<long, fx::few>(e, 1);
#elif PART == 1
    go1<unsigned int, fx::few>(e, 1);
    go1<unsigned long, fx::few>(e, 1);
    go1<long long, fx::list<fx::ops::safe_reduced_io>>(e, 1);
    go1<int, fx::custom>(e, 1);
#else
#error "unknown part"
#endif
  });
}
