// C09: redenominate.
#include "frac.hpp"

using namespace fx;
using ieme::round_mode;

template <class R, class P> void one(Fr a, i128 den)
{
  Ri const r = ri<R>;
  // x*d is in range: the product under the policy (either sign of d is the same
  // magnitude), and so is every multiple that can be selected
  Fr prod;
  if (!domain(pol<P>::d, MUL, a, false, {den, 1}, true, r, prod))
    return mon::ood();
  Fr const q = red(a, true);
  i128 N;
  if (!mul(q.n, iabs(den), N)) // x*|d| = N / q.d
    return mon::ood();
  i128 const lo = floordiv(N, q.d), hi = N % q.d == 0 ? lo : lo + 1;
  if (!within(lo, r) || !within(hi, r))
    return mon::ood();
  auto const x = mk<R, P>(a);
  R const d = static_cast<R>(den);
  auto run = [&](const char* n, int mode, auto f) {
    mon::begin(n, pol<P>::s, type_name<R>::s, nullptr, a.n, a.d, den);
    auto const res = f();
    mon::same_type<std::decay_t<decltype(res)>, fraction<R, P>>("result type");
    Fr const g = get(res);
    mon::seen(2);
    if (g.d != den)
      mon::fail(n, "%s(%s, %s) [%s, %s] = %s: wrong denominator", n, sh(a).c_str(), mon::str(den).c_str(), pol<P>::s,
                type_name<R>::s, sh(g).c_str());
    i128 const k = den < 0 ? -g.n : g.n; // multiple of 1/|d|
    bool ok = true;
    switch (mode)
    {
      case 0: ok = k == (q.n < 0 ? hi : lo); break;
      case 1: ok = k == hi; break;
      case 2: ok = k == lo; break;
      default:
      {
        // |k - N/q.d| <= 1/2
        ok = k >= lo && k <= hi;
        if (ok)
        {
          i128 const rem = N - lo * q.d;
          i128 const dist = k == lo ? rem : q.d - rem;
          ok = dist <= q.d - dist;
        }
      }
    }
    if (!ok)
      mon::fail(n, "%s(%s, %s) [%s, %s] = %s", n, sh(a).c_str(), mon::str(den).c_str(), pol<P>::s, type_name<R>::s,
                sh(g).c_str());
    if (lo == hi && !eqv(g, a))
      mon::fail(n, "%s(%s, %s) [%s, %s] = %s changed an exactly representable value", n, sh(a).c_str(),
                mon::str(den).c_str(), pol<P>::s, type_name<R>::s, sh(g).c_str());
    mon::done();
  };
  run("redenominate", 3, [&] { return redenominate(x, d); });
  run("redenominate(trunc)", 0, [&] { return redenominate(x, d, round_mode::trunc); });
  run("redenominate(ceil)", 1, [&] { return redenominate(x, d, round_mode::ceil); });
  run("redenominate(floor)", 2, [&] { return redenominate(x, d, round_mode::floor); });
  run("redenominate(round)", 3, [&] { return redenominate(x, d, round_mode::round); });
  run("trunc_redenominate", 0, [&] { return trunc_redenominate(x, d); });
  run("ceil_redenominate", 1, [&] { return ceil_redenominate(x, d); });
  run("floor_redenominate", 2, [&] { return floor_redenominate(x, d); });
  run("round_redenominate", 3, [&] { return round_redenominate(x, d); });
  static uint64_t* const bk[4] = {mon::bucket("%s %s exact", pol<P>::s, type_name<R>::s),
                                  mon::bucket("%s %s tie", pol<P>::s, type_name<R>::s),
                                  mon::bucket("%s %s inexact", pol<P>::s, type_name<R>::s),
                                  mon::bucket("%s %s negative new denominator", pol<P>::s, type_name<R>::s)};
  ++*bk[lo == hi ? 0 : (N - lo * q.d) * 2 == q.d ? 1 : 2];
  if (den < 0)
    ++*bk[3];
}

#include "parts1.hpp"

template <class R, class Ps> void go1(mon::Env& e, double w)
{
  Ri const r = ri<R>;
  int const k = e.thorough ? 24 : 8, lo = r.sg ? -k : 0;
  for (int n = lo; n <= k; ++n)
    for (int d = lo; d <= k; ++d)
      for (int q = lo; q <= k; ++q)
        if (d && q)
          each(Ps {}, [&]<class P>() { one<R, P>({n, d}, q); });
  ++mon::S->exhausted_spaces;
  uint64_t const n = uint64_t(double(e.count(120000, 6000000)) * w);
  for (uint64_t i = 0; e.go(i, n); ++i)
  {
    Fr a = e.rng.chance(70) ? gen_fr(e.rng, r, e.rng.range(1, r.bits - 1), e.rng.range(1, r.bits)) : gen_any(e.rng, r);
    a = clampfr(a, r);
    Fr const q = red(a, true);
    i128 const room = r.max / std::max<i128>(1, iabs(e.rng.chance(50) ? a.n : q.n));
    i128 den;
    switch (e.rng.below(6))
    {
      case 0: den = room - e.rng.range(0, 2); break;
      case 1: den = q.d; break;
      case 2: den = q.d * (1 + i128(e.rng.below(9))); break;
      case 3: den = q.d / std::max(1, e.rng.range(1, 6)); break; // ties are common here
      case 4: den = e.rng.range(1, 100); break;
      default: den = 1 + gen_mag(e.rng, r, r.bits) % std::max<i128>(1, room);
    }
    if (den <= 0 || den > r.max)
      den = 1 + e.rng.range(0, 9);
    den = sgn_(e.rng, r, den, 40);
    each(Ps {}, [&]<class P>() { one<R, P>(a, den); });
  }
}

int main(int argc, char** argv) { return mon::main_impl(argc, argv, all_parts1); }
