// C02: the remainder is exact and truncated.
#include "frac.hpp"

using namespace fx;

template <class P, class L, class R> struct Judge {
  using C = std::common_type_t<L, R>;
  static constexpr Ri r = ri<C>;

  template <class Do>
  static void one(const char* name, Fr a, bool aw, Fr b, bool bw, Do&& run)
  {
    Fr want;
    if (!domain(pol<P>::d, MOD, a, aw, b, bw, r, want))
    {
      mon::ood();
      return;
    }
    mon::begin(name, pol<P>::s, type_name<L>::s, type_name<R>::s, a.n, a.d, b.n, b.d);
    auto const res = run();
    mon::same_type<std::decay_t<decltype(res)>, fraction<C, P>>("result type");
    Fr const got = get(res);
    if (exact(name, got, want))
    {
      // second, independent characterisation: sign of a and magnitude below b
      mon::seen(2);
      Fr const g = red(got, true), x = red(a, true), y = red(b, true);
      if (g.n != 0 && (g.n < 0) != (x.n < 0))
        mon::fail(name, "remainder %s does not have the sign of the dividend", sh(got).c_str());
      if (cmpv({iabs(g.n), g.d}, {iabs(y.n), y.d}) >= 0)
        mon::fail(name, "remainder %s is not below the divisor", sh(got).c_str());
      if (g.n == 0)
        MON_BUCKET("remainder zero");
      else if (cmpv({iabs(x.n), x.d}, {iabs(y.n), y.d}) < 0)
        MON_BUCKET("dividend smaller than divisor");
      else
        MON_BUCKET("quotient and remainder both non-zero");
    }
    mon::done(a.n != 0);
    static uint64_t* const bk
      = mon::bucket("%s %s %s,%s", name, pol<P>::s, type_name<L>::s, type_name<R>::s);
    ++*bk;
  }
  static void pair(Fr a, Fr b)
  {
    fraction<L, P> const x = mk<L, P>(a);
    fraction<R, P> const y = mk<R, P>(b);
    one("frac%frac", a, false, b, false, [&] { return x % y; });
  }
  static void whole_right(Fr a, i128 w)
  {
    fraction<L, P> const x = mk<L, P>(a);
    R const v = static_cast<R>(w);
    one("frac%whole", a, false, {w, 1}, true, [&] { return x % v; });
  }
  static void whole_left(i128 w, Fr b)
  {
    fraction<R, P> const y = mk<R, P>(b);
    L const v = static_cast<L>(w);
    one("whole%frac", {w, 1}, true, b, false, [&] { return v % y; });
  }
};

template <class L, class R, class Ps> void random_pairs(mon::Env& e, uint64_t n)
{
  using C = std::common_type_t<L, R>;
  Ri la = ri<L>, ra = ri<R>;
  la.sg = la.sg && ri<C>.sg;
  ra.sg = ra.sg && ri<C>.sg;
  Ri const lo = la.bits < ra.bits ? la : ra;
  for (uint64_t i = 0; e.go(i, n); ++i)
  {
    Fr a, b;
    Ri g = e.rng.chance(50) ? lo : ri<C>;
    g.sg = la.sg && ra.sg;
    gen_pair(e.rng, g, a, b);
    if (e.rng.chance(35) && b.n) // a = k*b + small: near multiples of b
    {
      i128 const k = gen_mag(e.rng, g, e.rng.range(1, g.bits));
      i128 v;
      if (mul(k, b.n, v))
        a = {v + e.rng.range(-1, 1), b.d};
    }
    a = clampfr(a, la);
    b = clampfr(b, ra);
    shape(a, b, ri<C>);
    Ri cw = ri<C>;
    cw.sg = la.sg && ra.sg;
    i128 wr = clampfr({gen_whole(e.rng, cw, a), 1}, ra).n;
    i128 wl = clampfr({gen_whole(e.rng, cw, b), 1}, la).n;
    if (e.rng.chance(40)) // small divisors of large dividends
      wr = clampfr({sgn_(e.rng, cw, gen_mag(e.rng, cw, e.rng.range(1, cw.bits / 2)), 40), 1}, ra).n;
    each(Ps {}, [&]<class P>() {
      Judge<P, L, R>::pair(a, b);
      Judge<P, L, R>::whole_right(a, wr);
      Judge<P, L, R>::whole_left(wl, b);
    });
  }
}

template <class R, class Ps> void exhaustive(mon::Env& e, int k)
{
  int const lo = ri<R>.sg ? -k : 0;
  uint64_t it = 0;
  for (int an = 2 * lo; an <= 2 * k; ++an)
    for (int ad = lo; ad <= k; ++ad)
      for (int bn = lo; bn <= k; ++bn)
        for (int bd = lo; bd <= k; ++bd)
        {
          if (!ad || !bd || !bn)
            continue;
          if (!e.go(it++, UINT64_MAX))
            return;
          each(Ps {}, [&]<class P>() {
            Judge<P, R, R>::pair({an, ad}, {bn, bd});
            if (bd == 1)
              Judge<P, R, R>::whole_right({an, ad}, bn);
            if (ad == 1)
              Judge<P, R, R>::whole_left(an, {bn, bd});
          });
        }
  ++mon::S->exhausted_spaces;
}

#include "parts.hpp"

template <class L, class R, class Ps> void go(mon::Env& e, double w)
{
  if constexpr (std::is_same_v<L, R>)
    exhaustive<L, Ps>(e, e.thorough ? 10 : ri<L>.sg ? 5 : 8);
  {
    using C = std::common_type_t<L, R>;
    Ri la = ri<L>, ra = ri<R>;
    la.sg = la.sg && ri<C>.sg;
    ra.sg = ra.sg && ri<C>.sg;
    each_landmark_pair(e, la, ra, [&](Fr a, Fr b) {
      if (b.n == 0)
        return;
      each(Ps {}, [&]<class P>() {
        Judge<P, L, R>::pair(a, b);
        if (b.d == 1)
          Judge<P, L, R>::whole_right(a, b.n);
        if (a.d == 1)
          Judge<P, L, R>::whole_left(a.n, b);
      });
    });
  }
  random_pairs<L, R, Ps>(e, uint64_t(double(e.count(220000, 9000000)) * w));
}

int main(int argc, char** argv) { return mon::main_impl(argc, argv, all_parts); }
