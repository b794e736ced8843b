// C08: trunc, floor, ceil, round and to_whole give the mathematical integer.
#include "frac.hpp"

using namespace fx;

struct Ints {
  i128 trunc, floor, ceil, round;
};

static Ints oracle(Fr f)
{
  if (f.d < 0)
    f = {-f.n, -f.d};
  Ints r;
  r.floor = floordiv(f.n, f.d);
  bool const whole = f.n % f.d == 0;
  r.ceil = whole ? r.floor : r.floor + 1;
  r.trunc = f.n < 0 ? r.ceil : r.floor;
  i128 const rem = f.n - r.floor * f.d; // in [0, d)
  r.round = 2 * rem >= f.d ? r.floor + 1 : r.floor; // halves up
  return r;
}

template <class R, class P> void one(Fr a)
{
  auto const x = mk<R, P>(a);
  Ints const w = oracle(a);
  using ieme::round_mode;
  auto judge = [&](const char* n, auto got, i128 want) {
    mon::seen();
    if (i128(got) != want)
      mon::fail(n, "%s(%s) [%s, %s] = %s, expected %s", n, sh(a).c_str(), pol<P>::s, type_name<R>::s,
                mon::str(i128(got)).c_str(), mon::str(want).c_str());
  };
  auto run = [&](const char* n, i128 want, auto f) {
    if (!within(want, ri<R>))
      return mon::ood();
    mon::begin(n, pol<P>::s, type_name<R>::s, nullptr, a.n, a.d);
    auto const got = f();
    mon::same_type<std::decay_t<decltype(got)>, R>("result type");
    judge(n, got, want);
    mon::done();
  };
  run("trunc", w.trunc, [&] { return trunc(x); });
  run("floor", w.floor, [&] { return floor(x); });
  run("ceil", w.ceil, [&] { return ceil(x); });
  run("round", w.round, [&] { return round(x); });
  run("to_whole", w.round, [&] { return to_whole(x); });
  run("to_whole(trunc)", w.trunc, [&] { return to_whole(x, round_mode::trunc); });
  run("to_whole(floor)", w.floor, [&] { return to_whole(x, round_mode::floor); });
  run("to_whole(ceil)", w.ceil, [&] { return to_whole(x, round_mode::ceil); });
  run("to_whole(round)", w.round, [&] { return to_whole(x, round_mode::round); });
  mon::seen();
  if (get(x).n != a.n || get(x).d != a.d)
    mon::fail("operand", "operand changed");
  static uint64_t* const bk[6] = {
    mon::bucket("%s %s integer", pol<P>::s, type_name<R>::s),  mon::bucket("%s %s exact half", pol<P>::s, type_name<R>::s),
    mon::bucket("%s %s below half", pol<P>::s, type_name<R>::s), mon::bucket("%s %s above half", pol<P>::s, type_name<R>::s),
    mon::bucket("%s %s magnitude below 1, negative", pol<P>::s, type_name<R>::s), mon::bucket("%s %s twice the denominator overflows", pol<P>::s, type_name<R>::s)};
  i128 const d = iabs(a.d), m = iabs(a.n) % d;
  ++*bk[m == 0 ? 0 : 2 * m == d ? 1 : 2 * m < d ? 2 : 3];
  if (a.n && iabs(a.n) < d && (a.n < 0) != (a.d < 0))
    ++*bk[4];
  if (2 * d > ri<R>.max)
    ++*bk[5];
}

#include "parts1.hpp"

template <class R, class Ps> void go1(mon::Env& e, double w)
{
  Ri const r = ri<R>;
  int const k = int(std::min<i128>(r.max, e.thorough ? 250 : 40)), lo = r.sg ? -k : 0;
  for (int n = lo; n <= k; ++n)
    for (int d = lo; d <= k; ++d)
      if (d)
        each(Ps {}, [&]<class P>() { one<R, P>({n, d}); });
  ++mon::S->exhausted_spaces;
  each_landmark(r, false, [&](Fr a) { each(Ps {}, [&]<class P>() { one<R, P>(a); }); });
  uint64_t const n = uint64_t(double(e.count(160000, 8000000)) * w);
  for (uint64_t i = 0; e.go(i, n); ++i)
  {
    Fr a;
    switch (e.rng.below(6))
    {
      case 0: // halves at any scale
      {
        i128 const d = 2 * (1 + gen_mag(e.rng, r, e.rng.range(1, r.bits - 1)) % (r.max / 2));
        i128 const q = r.max / d;
        i128 const t = q ? e.rng.upto(q - (d / 2 > r.max - q * d)) : 0;
        a = {sgn_(e.rng, r, t * d + d / 2 + e.rng.range(-1, 1), 50), sgn_(e.rng, r, d, 30)};
        break;
      }
      case 1: // huge denominators
        a = {sgn_(e.rng, r, r.max - gen_mag(e.rng, r, e.rng.range(1, r.bits)), 50),
             sgn_(e.rng, r, r.max - gen_mag(e.rng, r, e.rng.range(1, r.bits)) % r.max, 30)};
        break;
      case 2: // next to an integer
      {
        i128 const d = 1 + gen_mag(e.rng, r, e.rng.range(1, r.bits)) % r.max;
        i128 const t = e.rng.upto(r.max / d);
        a = {sgn_(e.rng, r, t * d + e.rng.range(-1, 1), 50), sgn_(e.rng, r, d, 30)};
        break;
      }
      default:
        a = gen_any(e.rng, r);
    }
    a = clampfr(a, r);
    each(Ps {}, [&]<class P>() { one<R, P>(a); });
  }
}

int main(int argc, char** argv) { return mon::main_impl(argc, argv, all_parts1); }
