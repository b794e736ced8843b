// C13: construction, literals and conversions keep the value and the components.
#include "frac.hpp"

#include <ratio>

using namespace fx;
using namespace ieme::literals;

static void same(const char* n, Fr got, Fr want)
{
  mon::seen();
  if (got.n != want.n || got.d != want.d)
    mon::fail(n, "%s: components %s, expected %s", n, sh(got).c_str(), sh(want).c_str());
}

template <class T> static Fr g(T const& f) { return {i128(f.numerator()), i128(f.denominator())}; }

// conversion to another representation type, explicit policy conversion
template <class R, class P, class T> void convert(Fr a)
{
  bool const fits = holds(a, ri<T>);
  if (!fits)
    return mon::ood();
  auto const x = mk<R, P>(a);
  mon::begin("representation conversion", pol<P>::s, type_name<R>::s, type_name<T>::s, a.n, a.d);
  if constexpr (sizeof(T) >= sizeof(R) || sizeof(T) >= sizeof(int))
  {
    fraction<T, P> const y = x; // implicit
    same("implicit representation conversion", g(y), a);
    fraction<T, P> z;
    z = x;
    same("assignment from another representation", g(z), a);
    fraction<T, ops::fast> const u(x);
    same("conversion to another policy and type", g(u), a);
    fraction<T, ops::safe_reduced_io> const v {x};
    same("conversion to another policy and type", g(v), a);
    raw_fraction<T> const w = x.raw();
    same("raw conversion", {i128(w.numerator), i128(w.denominator)}, a);
    fraction<R, P> const back(y);
    same("conversion back", g(back), a);
  }
  mon::done();
  static uint64_t* const bk = mon::bucket("convert %s to %s", type_name<R>::s, type_name<T>::s);
  ++*bk;
}

template <class R, class P> void one(Fr a)
{
  Ri const r = ri<R>;
  R const n = static_cast<R>(a.n), d = static_cast<R>(a.d);
  mon::begin("construction", pol<P>::s, type_name<R>::s, nullptr, a.n, a.d);
  fraction<R, P> const def;
  same("default construction", g(def), {0, 1});
  fraction<R, P> const def2 {};
  same("value initialisation", g(def2), {0, 1});
  fraction<R, P> const w(n);
  same("from a whole number", g(w), {a.n, 1});
  fraction<R, P> const wi = n;
  same("implicitly from a whole number", g(wi), {a.n, 1});
  fraction<R, P> const x(n, d);
  same("from numerator and denominator", g(x), a);
  fraction<R, P> const xb = {n, d};
  same("from a braced pair", g(xb), a);
  raw_fraction<R> const raw(n, d);
  same("raw fraction", {i128(raw.numerator), i128(raw.denominator)}, a);
  raw_fraction<R> const raw0;
  same("raw default", {i128(raw0.numerator), i128(raw0.denominator)}, {0, 0});
  fraction<R, P> const fr = raw;
  same("from a raw fraction", g(fr), a);
  // accessors agree
  same("num/den", {i128(x.num()), i128(x.den())}, a);
  same("raw()", get(x.raw()), a);
  // mutation through one accessor is visible through the others
  for (int k = 0; k < 3; ++k)
  {
    fraction<R, P> m;
    fraction<R, P> const before = m;
    switch (k)
    {
      case 0: m.numerator() = n, m.denominator() = d; break;
      case 1: m.num() = n, m.den() = d; break;
      default: m.raw().numerator = n, m.raw().denominator = d;
    }
    same("after assignment: numerator()", g(m), a);
    same("after assignment: num()", {i128(m.num()), i128(m.den())}, a);
    same("after assignment: raw()", get(m.raw()), a);
    fraction<R, P> const& c = m;
    same("after assignment: const access", {i128(c.numerator()), i128(c.den())}, a);
    same("the copy taken before", g(before), {0, 1});
    fraction<R, P> copy = m;
    copy.numerator() = R(1);
    copy.den() = R(1);
    same("source after its copy is changed", g(m), a);
    m.raw() = raw_fraction<R>(R(1), R(2));
    same("assigned through raw()", g(m), {1, 2});
    copy = x;
    same("copy assignment", g(copy), a);
    fraction<R, P> mv = std::move(copy);
    same("move", g(mv), a);
  }
  // literals: the denominator as a literal of either sign
  using D = ieme::ops::defaults;
  mon::seen(0);
  if (a.d >= 0 && a.d <= i128(INT64_MAX))
  {
    auto const lit = operator""_fr(static_cast<unsigned long long>(a.d));
    auto const p = n / lit;
    mon::same_type<std::decay_t<decltype(p)>, fraction<R, D>>("type of whole/literal");
    same("whole / literal", g(p), a);
    same("whole / +literal", g(n / +lit), a);
    if (r.sg)
    {
      same("whole / -literal", g(n / -lit), {a.n, -a.d});
      same("whole / -(-literal)", g(n / -(-lit)), a);
    }
    // a fraction divided by a literal is the fraction of the quotient
    for (i128 den : {i128(1), i128(2), i128(3), i128(5)})
    {
      auto const f = fraction<R, D>(n, static_cast<R>(den));
      i128 v;
      Fr want;
      if (a.d != 0 && mul(den, a.d, v) && domain(pol<D>::d, DIV, {a.n, den}, false, {a.d, 1}, true, r, want))
      {
        auto const q = f / lit;
        mon::same_type<std::decay_t<decltype(q)>, fraction<R, D>>("type of fraction/literal");
        exact("fraction / literal", g(q), want);
        if (r.sg)
          exact("fraction / -literal", g(f / -lit), {-want.n, want.d});
      }
    }
  }
  mon::done();
  static uint64_t* const bk = mon::bucket("construct %s %s", pol<P>::s, type_name<R>::s);
  ++*bk;
  convert<R, P, int>(a);
  convert<R, P, long>(a);
  convert<R, P, long long>(a);
  convert<R, P, unsigned int>(a);
  convert<R, P, unsigned long>(a);
}

template <class R, class P, intmax_t N, intmax_t D> void ratio_one()
{
  mon::begin("from std::ratio", pol<P>::s, type_name<R>::s, nullptr, N, D);
  using Q = std::ratio<N, D>;
  fraction<R, P> const x = Q {};
  same("from std::ratio", g(x), {Q::num, Q::den});
  fraction<R, P> const y(typename Q::type {});
  same("from std::ratio", g(y), {Q::num, Q::den});
  mon::done();
  MON_BUCKET("std::ratio");
}

template <class R, class P> void ratios()
{
  ratio_one<R, P, 0, 1>();
  ratio_one<R, P, 1, 1>();
  ratio_one<R, P, 1, 2>();
  ratio_one<R, P, 6, 4>();
  ratio_one<R, P, 1, 1000000000>();
  ratio_one<R, P, 3600, 1>();
  ratio_one<R, P, 2147483647, 2147483646>();
  ratio_one<R, P, 22, 7>();
  if constexpr (std::is_signed_v<R>)
  {
    ratio_one<R, P, -1, 2>();
    ratio_one<R, P, 1, -2>();
    ratio_one<R, P, -6, -9>();
    ratio_one<R, P, -2147483647, 2>();
  }
  if constexpr (sizeof(R) == 8)
  {
    ratio_one<R, P, 1, INT64_MAX>();
    ratio_one<R, P, INT64_MAX, 1>();
    ratio_one<R, P, INT64_MAX, INT64_MAX - 1>();
  }
}

static void tokens()
{
  // literal tokens, as written in programs
  using D = ieme::ops::defaults;
  mon::begin("literal tokens", nullptr, nullptr, nullptr);
#define TOK(expr, R, n, d)                                                     \
  {                                                                            \
    auto const v = expr;                                                       \
    mon::same_type<std::decay_t<decltype(v)>, fraction<R, D>>(#expr); \
    same(#expr, g(v), {n, d});                                                 \
  }
  TOK(1 / 2_fr, int, 1, 2)
  TOK(-1 / 2_fr, int, -1, 2)
  TOK(1 / -2_fr, int, 1, -2)
  TOK(-1 / -2_fr, int, -1, -2)
  TOK(1 / +2_fr, int, 1, 2)
  TOK(2 / 4_fr, int, 2, 4)
  TOK(5L / 3_fr, long, 5, 3)
  TOK(5L / 9223372036854775807_fr, long, 5, INT64_MAX)
  TOK(5LL / -9223372036854775807_fr, long long, 5, -i128(INT64_MAX))
  TOK(5u / 3_fr, unsigned int, 5, 3)
  TOK(5ul / 18446744073709551615_fr, unsigned long, 5, i128(UINT64_MAX))
  TOK(0x10 / 0x20_fr, int, 16, 32)
  TOK(3 / 1'000_fr, int, 3, 1000)
  TOK(0 / 1_fr, int, 0, 1)
  TOK(1 / 0_fr, int, 1, 0)
  TOK(2147483647 / 2147483647_fr, int, 2147483647, 2147483647)
#undef TOK
  mon::done();
  // implicit and explicit conversions
  mon::begin("implicit and explicit", nullptr, nullptr, nullptr);
  mon::seen(6);
  using A = fraction<int, ops::safe>;
  using B = fraction<int, ops::fast>;
  using L = fraction<long, ops::safe>;
  using LB = fraction<long, ops::fast>;
  if (std::is_convertible_v<A, B> || std::is_convertible_v<A, LB>)
    mon::fail("explicit policy conversion", "a fraction converts implicitly to another policy");
  if (!std::is_constructible_v<B, A> || !std::is_constructible_v<LB, A>)
    mon::fail("explicit policy conversion", "a fraction does not convert explicitly to another policy");
  if (!std::is_convertible_v<A, L> || !std::is_convertible_v<int, A> || !std::is_convertible_v<raw_fraction<int>, A>)
    mon::fail("implicit conversion", "a documented implicit conversion is missing");
  mon::done();
}

#include "parts1.hpp"

template <class R, class Ps> void go1(mon::Env& e, double w)
{
  Ri const r = ri<R>;
  static bool once = false;
  if (!once)
    tokens(), once = true;
  if constexpr (sizeof(R) >= 4)
    each(Ps {}, [&]<class P>() { ratios<R, P>(); });
  each_landmark(r, true, [&](Fr a) { each(Ps {}, [&]<class P>() { one<R, P>(a); }); });
  each_lowest(e, r, true, e.count(300, 20000), [&](Fr a) { each(Ps {}, [&]<class P>() { one<R, P>(a); }); });
  uint64_t const n = uint64_t(double(e.count(40000, 2500000)) * w);
  for (uint64_t i = 0; e.go(i, n); ++i)
  {
    Fr a = clampfr(gen_any(e.rng, r), r);
    if (e.rng.chance(5))
      a.d = 0;
    each(Ps {}, [&]<class P>() { one<R, P>(a); });
  }
}

int main(int argc, char** argv) { return mon::main_impl(argc, argv, all_parts1); }
