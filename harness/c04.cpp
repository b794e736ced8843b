// C04: undefined values propagate through everything and never trap.
#include "frac.hpp"

using namespace fx;

// products of any component of one operand with any of the other are in range
static bool products_fit(Pol p, Fr a, bool aw, Fr b, bool bw, Ri r)
{
  // a reducing policy may or may not look at the unreduced form first
  auto fit = [&](Fr x, Fr y) {
    i128 o;
    return mulw(x.n, y.n, o, r) && mulw(x.n, y.d, o, r) && mulw(x.d, y.n, o, r)
           && mulw(x.d, y.d, o, r) && within(x.n + y.n, r);
  };
  (void)aw;
  (void)bw;
  (void)p;
  // scaled sums must fit as well where both sides count
  i128 x, y, s;
  return within(a, r) && within(b, r) && fit(a, b) && mul(a.n, b.d, x) && mul(a.d, b.n, y)
         && !__builtin_add_overflow(iabs(x), iabs(y), &s) && s <= r.max;
}

template <class P, class L, class R> struct Judge {
  using C = std::common_type_t<L, R>;
  static constexpr Ri r = ri<C>;

  template <class F> static void undef(const char* name, F const& res)
  {
    mon::seen();
    if (i128(res.denominator()) != 0)
      mon::fail(name, "%s (policy %s): result %s is defined", name, pol<P>::s,
                sh({i128(res.numerator()), i128(res.denominator())}).c_str());
  }

  template <class X, class Y>
  static void arithmetic(const char* const (&nm)[6], Fr a, Fr b, X const& x, Y const& y, bool div_only)
  {
    auto run = [&](const char* n, auto f) {
      mon::begin(n, pol<P>::s, type_name<L>::s, type_name<R>::s, a.n, a.d, b.n, b.d);
      auto const res = f();
      undef(n, res);
      mon::done();
      // the result as an operand again
      auto const again = res + res;
      undef("sum of undefined results", again);
    };
    if (!div_only)
    {
      run(nm[0], [&] { return x + y; });
      run(nm[1], [&] { return x - y; });
      run(nm[2], [&] { return x * y; });
    }
    run(nm[3], [&] { return x / y; });
    run(nm[4], [&] { return x % y; });
    if (!div_only)
    {
      mon::begin(nm[5], pol<P>::s, type_name<L>::s, type_name<R>::s, a.n, a.d, b.n, b.d);
      bool const eq = x == y, ne = x != y, lt = x < y, le = x <= y, gt = x > y, ge = x >= y;
      mon::seen(6);
      if (eq || !ne || lt || le || gt || ge)
        mon::fail(nm[5], "%s (policy %s) with an undefined operand: == %d != %d < %d <= %d > %d >= %d",
                  nm[5], pol<P>::s, eq, ne, lt, le, gt, ge);
      mon::done();
    }
  }

  static void pair(Fr a, Fr b)
  {
    bool const div_only = a.d != 0 && b.d != 0;
    if ((div_only && b.n != 0) || !products_fit(pol<P>::d, a, false, b, false, r))
      return mon::ood();
    static const char* const nm[6] = {"frac+frac", "frac-frac", "frac*frac", "frac/frac", "frac%frac", "frac?frac"};
    arithmetic(nm, a, b, mk<L, P>(a), mk<R, P>(b), div_only);
    static uint64_t* const bk[4]
      = {mon::bucket("frac,frac %s zero divisor", pol<P>::s), mon::bucket("frac,frac %s right undefined", pol<P>::s),
         mon::bucket("frac,frac %s left undefined", pol<P>::s), mon::bucket("frac,frac %s both undefined", pol<P>::s)};
    ++*bk[(a.d == 0) * 2 + (b.d == 0)];
    // compound assignment; b's components must fit the left type
    if (!within(b, ri<L>) || !products_fit(pol<P>::d, a, false, b, false, ri<L>))
      return;
    auto comp = [&](const char* n, auto f) {
      mon::begin(n, pol<P>::s, type_name<L>::s, type_name<R>::s, a.n, a.d, b.n, b.d);
      auto x = mk<L, P>(a);
      auto const y = mk<R, P>(b);
      f(x, y);
      undef(n, x);
      mon::done();
    };
    if (!div_only)
    {
      comp("frac+=frac", [](auto& x, auto& y) { x += y; });
      comp("frac-=frac", [](auto& x, auto& y) { x -= y; });
      comp("frac*=frac", [](auto& x, auto& y) { x *= y; });
    }
    comp("frac/=frac", [](auto& x, auto& y) { x /= y; });
    comp("frac%=frac", [](auto& x, auto& y) { x %= y; });
  }
  static void whole_right(Fr a, i128 w)
  {
    bool const div_only = a.d != 0;
    if ((div_only && w != 0) || !products_fit(pol<P>::d, a, false, {w, 1}, true, r))
      return mon::ood();
    static const char* const nm[6] = {"frac+whole", "frac-whole", "frac*whole", "frac/whole", "frac%whole", "frac?whole"};
    R const v = static_cast<R>(w);
    arithmetic(nm, a, {w, 1}, mk<L, P>(a), v, div_only);
    static uint64_t* const bk[2] = {mon::bucket("frac,whole %s zero divisor", pol<P>::s),
                                    mon::bucket("frac,whole %s undefined", pol<P>::s)};
    ++*bk[!div_only];
    if (!within(w, ri<L>) || !products_fit(pol<P>::d, a, false, {w, 1}, true, ri<L>))
      return;
    auto comp = [&](const char* n, auto f) {
      mon::begin(n, pol<P>::s, type_name<L>::s, type_name<R>::s, a.n, a.d, w);
      auto x = mk<L, P>(a);
      f(x);
      undef(n, x);
      mon::done();
    };
    if (!div_only)
    {
      comp("frac+=whole", [&](auto& x) { x += v; });
      comp("frac-=whole", [&](auto& x) { x -= v; });
      comp("frac*=whole", [&](auto& x) { x *= v; });
    }
    comp("frac/=whole", [&](auto& x) { x /= v; });
    comp("frac%=whole", [&](auto& x) { x %= v; });
  }
  static void whole_left(i128 w, Fr b)
  {
    bool const div_only = b.d != 0;
    if ((div_only && b.n != 0) || !products_fit(pol<P>::d, {w, 1}, true, b, false, r))
      return mon::ood();
    static const char* const nm[6] = {"whole+frac", "whole-frac", "whole*frac", "whole/frac", "whole%frac", "whole?frac"};
    L const v = static_cast<L>(w);
    arithmetic(nm, {w, 1}, b, v, mk<R, P>(b), div_only);
    static uint64_t* const bk[2] = {mon::bucket("whole,frac %s zero divisor", pol<P>::s),
                                    mon::bucket("whole,frac %s undefined", pol<P>::s)};
    ++*bk[!div_only];
  }
};

// unary operations and functions on an undefined fraction
template <class R, class P> void unary(Fr u, i128 den)
{
  auto const x = mk<R, P>(u);
  R const d = static_cast<R>(den);
  auto judge = [&](const char* n, auto f) {
    mon::begin(n, pol<P>::s, type_name<R>::s, nullptr, u.n, u.d, den);
    auto const res = f();
    mon::seen();
    if (i128(get(res).d) != 0)
      mon::fail(n, "%s (policy %s) of %s: %s is defined", n, pol<P>::s, sh(u).c_str(), sh(get(res)).c_str());
    mon::done();
  };
  judge("negate", [&] { return -x; });
  judge("unary plus", [&] { return +x; });
  judge("abs", [&] { return abs(x); });
  judge("reduce", [&] { return reduce(x); });
  judge("reduce ignore signs", [&] { return reduce(x, reduce_mode::ignore_signs); });
  judge("reduce_normalize_signs", [&] { return reduce_normalize_signs(x); });
  judge("reduce_ignore_signs", [&] { return reduce_ignore_signs(x); });
  judge("normalize_signs", [&] { return normalize_signs(x); });
  judge("raw reduce", [&] { return reduce(x.raw()); });
  judge("raw reduce ignore signs", [&] { return reduce(x.raw(), reduce_mode::ignore_signs); });
  judge("raw normalize_signs", [&] { return normalize_signs(x.raw()); });
  using ieme::round_mode;
  judge("redenominate", [&] { return redenominate(x, d); });
  judge("redenominate trunc", [&] { return redenominate(x, d, round_mode::trunc); });
  judge("redenominate ceil", [&] { return redenominate(x, d, round_mode::ceil); });
  judge("redenominate floor", [&] { return redenominate(x, d, round_mode::floor); });
  judge("redenominate round", [&] { return redenominate(x, d, round_mode::round); });
  judge("trunc_redenominate", [&] { return trunc_redenominate(x, d); });
  judge("ceil_redenominate", [&] { return ceil_redenominate(x, d); });
  judge("floor_redenominate", [&] { return floor_redenominate(x, d); });
  judge("round_redenominate", [&] { return round_redenominate(x, d); });
  judge("copy", [&] { return fraction<R, P>(x); });
  judge("to another policy", [&] { return fraction<R, ops::fast>(x); });
  judge("to a wider type", [&] { return fraction<std::conditional_t<std::is_signed_v<R>, long long, unsigned long long>, P>(x); });
  judge("from raw", [&] { return fraction<R, P>(x.raw()); });
  using Literal = ieme::denominator_literal<false, P>;
  Literal const lit(static_cast<unsigned long long>(iabs(d))), zero_lit(0);
  judge("undefined / literal", [&] { return x / lit; });
  if constexpr (std::is_signed_v<R>)
  {
    judge("undefined / -literal", [&] { return x / -lit; });
    judge("fraction / -zero literal", [&] { return fraction<R, P>(R(1), d) / -zero_lit; });
  }
  judge("fraction / zero literal", [&] { return fraction<R, P>(R(1), d) / zero_lit; });
  judge("whole / zero literal", [&] { return d / zero_lit; });
  judge("reciprocal of zero", [&] { return reciprocal(fraction<R, P>(R(0), d)); });
  judge("raw reciprocal of zero", [&] { return reciprocal(raw_fraction<R>(R(0), d)); });
  int const ex = -1 - int(iabs(den) % 20);
  if constexpr (sizeof(R) >= sizeof(int)) // pow of narrower types is no part of the interface
    judge("0 to a negative power", [&] { return ieme::pow<R, P>(R(0), ex); });
  static uint64_t* const bk = mon::bucket("unary %s %s", pol<P>::s, type_name<R>::s);
  ++*bk;
}

// Once undefined, always undefined: chains of operations in random order.
template <class R, class P> void chain(mon::Env& e)
{
  Ri const r = ri<R>;
  int const len = e.rng.range(3, 30);
  Fr const start {sgn_(e.rng, r, e.rng.range(0, 9), 40), 0};
  fraction<R, P> x = mk<R, P>(start);
  mon::begin("chain", pol<P>::s, type_name<R>::s, nullptr, start.n, len, i128(e.rng.s));
  for (int i = 0; i < len; ++i)
  {
    Fr const o = gen_small(e.rng, r, 5);
    fraction<R, P> const y = mk<R, P>(e.rng.chance(10) ? Fr {o.n, 0} : o);
    R const w = static_cast<R>(o.n);
    // keep the components small enough for any product
    if (iabs(get(x).n) > 10 || iabs(get(x).d) > 10)
      x = fraction<R, P>(R(1), R(0));
    switch (e.rng.below(18))
    {
      case 0: x = x + y; break;
      case 1: x = y - x; break;
      case 2: x = x * y; break;
      case 3: x = y / x; break;
      case 4: x = x / y; break;
      case 5: x = x % y; break;
      case 6: x = y % x; break;
      case 7: x += y; break;
      case 8: x -= w; break;
      case 9: x *= x; break;
      case 10: x /= y; break;
      case 11: x %= w; break;
      case 12: x = -x; break;
      case 13: x = reduce(x); break;
      case 14: x = w + x; break;
      case 15: x = w / x; break;
      case 16: x = abs(x); break;
      default: x = w % x; break;
    }
    mon::seen();
    if (i128(x.denominator()) != 0)
    {
      mon::fail("chain", "a defined value %s came back after %d steps", sh(get(x)).c_str(), i + 1);
      break;
    }
  }
  mon::done();
  static uint64_t* const bk = mon::bucket("chain %s %s", pol<P>::s, type_name<R>::s);
  ++*bk;
}

static Fr undefined_of(mon::Rng& g, Ri r)
{
  return {sgn_(g, r, gen_mag(g, r, g.range(1, r.bits)), 45), 0};
}
static Fr zero_of(mon::Rng& g, Ri r)
{
  i128 const m = gen_mag(g, r, g.range(1, r.bits));
  return {0, sgn_(g, r, m ? m : 1, 40)};
}

template <class L, class R, class Ps> void random_pairs(mon::Env& e, uint64_t n)
{
  using C = std::common_type_t<L, R>;
  Ri la = ri<L>, ra = ri<R>;
  la.sg = la.sg && ri<C>.sg;
  ra.sg = ra.sg && ri<C>.sg;
  for (uint64_t i = 0; e.go(i, n); ++i)
  {
    Fr a = gen_any(e.rng, la), b = gen_any(e.rng, ra);
    switch (e.rng.below(8))
    {
      case 0: a = undefined_of(e.rng, la), b = undefined_of(e.rng, ra); break;
      case 1:
      case 2: a = undefined_of(e.rng, la); break;
      case 3:
      case 4: b = undefined_of(e.rng, ra); break;
      case 5: a = undefined_of(e.rng, la), b = zero_of(e.rng, ra); break;
      default: b = zero_of(e.rng, ra);
    }
    if (e.rng.chance(30)) // extremes against small values
    {
      Fr const s {sgn_(e.rng, la, e.rng.range(0, 1), 40), 1};
      (b.d == 0 || b.n == 0) ? (a.d ? (void)(a = s) : (void)0) : (void)(b = clampfr(s, ra));
    }
    i128 const wr = e.rng.chance(50) ? 0 : clampfr({gen_whole(e.rng, ra, {a.n, 1}), 1}, ra).n;
    i128 const wl = clampfr({gen_whole(e.rng, la, {b.n, 1}), 1}, la).n;
    i128 den = gen_mag(e.rng, la, la.bits);
    if (!den)
      den = 1;
    if (la.sg && e.rng.chance(40))
      den = -den;
    Fr const u = undefined_of(e.rng, la);
    each(Ps {}, [&]<class P>() {
      Judge<P, L, R>::pair(a, b);
      Judge<P, L, R>::whole_right(a.d ? Fr {a.n, a.d} : a, a.d ? 0 : wr);
      Judge<P, L, R>::whole_left(wl, b);
      if constexpr (std::is_same_v<L, R>)
      {
        if ((i & 3) == 0)
          unary<L, P>(u, den);
        if ((i & 7) == 0 && sizeof(L) >= 4)
          chain<L, P>(e);
      }
    });
  }
}

template <class R, class Ps> void exhaustive(mon::Env& e, int k)
{
  int const lo = ri<R>.sg ? -k : 0;
  for (int an = lo; an <= k; ++an)
    for (int ad = lo; ad <= k; ++ad)
      for (int bn = lo; bn <= k; ++bn)
        for (int bd = lo; bd <= k; ++bd)
        {
          if (ad && bd && bn)
            continue;
          each(Ps {}, [&]<class P>() {
            Judge<P, R, R>::pair({an, ad}, {bn, bd});
            if (bd == 1)
              Judge<P, R, R>::whole_right({an, ad}, bn);
            if (ad == 1)
              Judge<P, R, R>::whole_left(an, {bn, bd});
            if (ad == 0 && bd == 1 && bn)
              unary<R, P>({an, 0}, bn);
          });
        }
  ++mon::S->exhausted_spaces;
  (void)e;
}

#include "parts.hpp"

template <class L, class R, class Ps> void go(mon::Env& e, double w)
{
  if constexpr (std::is_same_v<L, R>)
    exhaustive<L, Ps>(e, e.thorough ? 9 : 3);
  {
    using C = std::common_type_t<L, R>;
    Ri la = ri<L>, ra = ri<R>;
    la.sg = la.sg && ri<C>.sg;
    ra.sg = ra.sg && ri<C>.sg;
    each_landmark_pair(e, la, ra, [&](Fr a, Fr b) {
      if (a.d && b.d && b.n)
        return;
      each(Ps {}, [&]<class P>() {
        Judge<P, L, R>::pair(a, b);
        if (b.d == 1)
          Judge<P, L, R>::whole_right(a, b.n);
        if (a.d == 1)
          Judge<P, L, R>::whole_left(a.n, b);
        if constexpr (std::is_same_v<L, R>)
          if (a.d == 0 && b.d == 1 && b.n)
            unary<L, P>(a, b.n);
      });
    }, true);
  }
  random_pairs<L, R, Ps>(e, uint64_t(double(e.count(100000, 2500000)) * w));
}

int main(int argc, char** argv) { return mon::main_impl(argc, argv, all_parts); }
