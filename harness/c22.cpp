// C22: limits and numeric_limits bound every value.
#include "frac.hpp"

using namespace fx;
using ieme::mixed_number;

// Bounds that include the lowest value, which the limits themselves use.
static bool in(i128 v, Ri r) { return v <= r.max && v >= (r.sg ? -r.max - 1 : 0); }
static bool inmul(i128 a, i128 b, i128& o, Ri r) { return mul(a, b, o) && in(o, r); }

// Like fx::domain, for operands with positive denominators and numerators down
// to the lowest value.
static bool dom(Pol p, Op op, Fr a, bool aw, Fr b, bool bw, Ri r, Fr& out)
{
  if (p.in)
  {
    if (!aw)
      a = red(a, p.in_norm);
    if (!bw)
      b = red(b, p.in_norm);
  }
  if (!in(a.n, r) || !in(b.n, r) || a.d <= 0 || b.d <= 0)
    return false;
  i128 s, t, den;
  if (p.safe && !aw && !bw)
  {
    i128 const g = igcd(a.d, b.d);
    if (!inmul(a.d / g, b.d, den, r) || !inmul(den / a.d, a.n, s, r) || !inmul(den / b.d, b.n, t, r))
      return false;
  }
  else if (!inmul(a.d, b.d, den, r) || !inmul(a.n, b.d, s, r) || !inmul(b.n, a.d, t, r))
    return false;
  if (op == CMP)
  {
    out = {s < t ? -1 : s > t, 1};
    return true;
  }
  out = op == ADD ? Fr {s + t, den} : Fr {s - t, den};
  return in(out.n, r);
}

template <class R, class P, class X, class Y> static void relations(X const& x, Y const& y, Fr a, bool aw, Fr b, bool bw, const char* what)
{
  auto j = [&](const char* n, bool got, bool want) {
    mon::seen();
    if (got != want)
      mon::fail(n, "%s: %s %s %s is %d, expected %d [%s, %s]", what, sh(a).c_str(), n, sh(b).c_str(), got, want, pol<P>::s, type_name<R>::s);
  };
  if (a.d == 0 || b.d == 0)
  {
    j("==", x == y, false);
    j("!=", x != y, true);
    j("<", x < y, false);
    j("<=", x <= y, false);
    j(">", x > y, false);
    j(">=", x >= y, false);
    MON_BUCKET("comparisons with undefined");
    return;
  }
  Fr v;
  if (!dom(pol<P>::d, CMP, a, aw, b, bw, ri<R>, v))
    return mon::ood();
  int const c = int(v.n);
  j("==", x == y, c == 0);
  j("!=", x != y, c != 0);
  j("<", x < y, c < 0);
  j("<=", x <= y, c <= 0);
  j(">", x > y, c > 0);
  j(">=", x >= y, c >= 0);
  MON_BUCKET("comparisons");
}

template <class R, class P, class X, class Y> static void sums(X const& x, Y const& y, Fr a, bool aw, Fr b, bool bw, const char* what)
{
  auto go = [&](Op op, const char* n, auto&& f) {
    if (a.d == 0 || b.d == 0)
    {
      mon::seen();
      Fr const g = get(f());
      if (g.d != 0)
        mon::fail(n, "%s: %s %s %s is defined", what, sh(a).c_str(), n, sh(b).c_str());
      MON_BUCKET("sums with undefined");
      return;
    }
    Fr v;
    if (!dom(pol<P>::d, op, a, aw, b, bw, ri<R>, v))
      return mon::ood();
    Fr const g = get(f());
    exact(n, g, v);
    MON_BUCKET("sums and differences");
  };
  go(ADD, "+", [&] { return x + y; });
  go(SUB, "-", [&] { return x - y; });
}

template <class R, class P> void bound(Fr f)
{
  Ri const r = ri<R>;
  using X = fraction<R, P>;
  using L = ieme::limits<X>;
  using N = std::numeric_limits<X>;
  if (!in(f.n, r) || !in(f.d, r) || (f.d != 0 && (!within(f, r))))
    return mon::ood();
  mon::begin("limits against a fraction", pol<P>::s, type_name<R>::s, nullptr, f.n, f.d);
  struct {
    const char* n;
    Fr v;
  } const lim[] = {{"min", get(L::min())}, {"max", get(L::max())}, {"lowest", get(N::lowest())}, {"numeric_limits::min", get(N::min())},
                   {"numeric_limits::max", get(N::max())}};
  if (f.d != 0)
  {
    Fr const q = red(f, true);
    for (auto const& l : lim)
    {
      bool const top = strstr(l.n, "max");
      // sign of l.v - f, with components up to 64 bits and a positive l.v.d
      mon::seen();
      if (l.v.d == 0 || (top ? cmpv(l.v, q) < 0 : cmpv(l.v, q) > 0))
        mon::fail(l.n, "%s is %s, but %s is %s it [%s, %s]", l.n, sh(l.v).c_str(), sh(f).c_str(), top ? "above" : "below", pol<P>::s, type_name<R>::s);
    }
    for (Fr s : {get(L::smallest()), get(N::epsilon())})
    {
      mon::seen();
      if (s.d == 0 || cmpv(s, {0, 1}) <= 0 || (q.n > 0 && cmpv(s, q) > 0))
        mon::fail("smallest", "smallest is %s, and %s is a fraction [%s, %s]", sh(s).c_str(), sh(f).c_str(), pol<P>::s, type_name<R>::s);
    }
  }
  for (Fr s : {get(L::undefined()), get(N::quiet_NaN())})
  {
    mon::seen();
    if (s.d != 0)
      mon::fail("undefined", "limits<>::undefined() is %s", sh(s).c_str());
  }
  // all of them as operands
  X const x = f.d ? mk<R, P>(f) : mk<R, P>({f.n, 0});
  if (f.d >= 0)
  {
    X const v[] = {L::min(), L::max(), L::smallest(), L::undefined(), N::lowest(), N::epsilon(), N::quiet_NaN()};
    for (auto const& l : v)
    {
      Fr const lv = get(l);
      if (f.d == 0 && lv.d != 0)
      {
        // 0/0 is always in range; n/0 only as long as the products are
        i128 t;
        if (!inmul(f.n, lv.d, t, r) || !inmul(f.n, lv.n, t, r))
          continue;
      }
      relations<R, P>(x, l, f, false, lv, false, "fraction with a limit");
      relations<R, P>(l, x, lv, false, f, false, "limit with a fraction");
      sums<R, P>(x, l, f, false, lv, false, "fraction with a limit");
      sums<R, P>(l, x, lv, false, f, false, "limit with a fraction");
      if (f.d == 1)
      {
        R const w = static_cast<R>(f.n);
        relations<R, P>(w, l, f, true, lv, false, "whole with a limit");
        relations<R, P>(l, w, lv, false, f, true, "limit with a whole");
        sums<R, P>(w, l, f, true, lv, false, "whole with a limit");
        sums<R, P>(l, w, lv, false, f, true, "limit with a whole");
      }
    }
  }
  mon::done();
  static uint64_t* const bk = mon::bucket("%s %s", pol<P>::s, type_name<R>::s);
  ++*bk;
}

template <class R, class P> void each_other()
{
  using X = fraction<R, P>;
  using L = ieme::limits<X>;
  X const v[] = {L::min(), L::max(), L::smallest(), L::undefined()};
  for (auto const& a : v)
    for (auto const& b : v)
    {
      mon::begin("limits with each other", pol<P>::s, type_name<R>::s, nullptr, get(a).n, get(a).d, get(b).n, get(b).d);
      relations<R, P>(a, b, get(a), false, get(b), false, "limits");
      sums<R, P>(a, b, get(a), false, get(b), false, "limits");
      mon::done();
    }
}

template <class R, class P> void traits()
{
  using X = fraction<R, P>;
  using N = std::numeric_limits<X>;
  using B = std::numeric_limits<R>;
  using L = ieme::limits<X>;
  mon::begin("traits", pol<P>::s, type_name<R>::s, nullptr);
  auto j = [&](const char* n, long got, long want) {
    mon::seen();
    if (got != want)
      mon::fail(n, "numeric_limits<fraction<%s>>::%s is %ld, expected %ld", type_name<R>::s, n, got, want);
  };
  j("is_specialized", N::is_specialized, true);
  j("is_signed", N::is_signed, B::is_signed);
  j("is_integer", N::is_integer, false);
  j("is_exact", N::is_exact, true);
  j("has_infinity", N::has_infinity, false);
  j("has_quiet_NaN", N::has_quiet_NaN, true);
  j("has_signaling_NaN", N::has_signaling_NaN, false);
  j("is_iec559", N::is_iec559, false);
  j("is_bounded", N::is_bounded, true);
  j("digits", N::digits, B::digits);
  j("digits10", N::digits10, B::digits10);
  j("radix", N::radix, B::radix);
  j("max_digits10", N::max_digits10, B::max_digits10);
  j("is_modulo", N::is_modulo, B::is_modulo);
  j("min_exponent", N::min_exponent, B::min_exponent);
  j("min_exponent10", N::min_exponent10, B::min_exponent10);
  j("max_exponent", N::max_exponent, B::max_exponent);
  j("max_exponent10", N::max_exponent10, B::max_exponent10);
  j("has_denorm_loss", N::has_denorm_loss, false);
  j("traps", N::traps, false);
  j("tinyness_before", N::tinyness_before, B::tinyness_before);
  j("has_denorm", N::has_denorm != std::denorm_present, true);
  j("round_style", N::round_style, N::round_style);
  // a traits class is asked through qualified types as well
  j("const: is_specialized", std::numeric_limits<X const>::is_specialized, true);
  j("const volatile: is_exact", std::numeric_limits<X const volatile>::is_exact, true);
  auto same = [&](const char* n, X a, X b) {
    mon::seen();
    if (get(a).n != get(b).n || get(a).d != get(b).d)
      mon::fail(n, "%s: %s and %s differ [%s]", n, sh(get(a)).c_str(), sh(get(b)).c_str(), type_name<R>::s);
  };
  same("min and numeric_limits::min", L::min(), N::min());
  same("max and numeric_limits::max", L::max(), N::max());
  same("lowest and min", N::lowest(), L::min());
  same("epsilon and smallest", N::epsilon(), L::smallest());
  same("undefined and quiet_NaN", N::quiet_NaN(), L::undefined());
  // infinity, round_error, signaling_NaN, denorm_min: there are none, so zero as for Rep
  same("round_error", N::round_error(), X(R(0)));
  same("infinity", N::infinity(), X(R(0)));
  same("signaling_NaN", N::signaling_NaN(), X(R(0)));
  same("denorm_min", N::denorm_min(), X(R(0)));
  exact("max", get(L::max()), {ri<R>.max, 1});
  exact("min", get(L::min()), {ri<R>.sg ? -ri<R>.max - 1 : 0, 1});
  exact("smallest", get(L::smallest()), {1, ri<R>.max});
  mon::done();
}

// ------------------------------------------------------------- mixed numbers

// Normal form: |f| < 1, never of the opposite sign to w, f.d > 0.  In that form
// the whole parts order the values, and then the fractional parts do.
struct Mv {
  i128 w;
  Fr f;
};

static Mv normal(i128 w, Fr f)
{
  f = red(f, true);
  w += f.n / f.d;
  f.n %= f.d;
  if (w > 0 && f.n < 0)
    --w, f.n += f.d;
  else if (w < 0 && f.n > 0)
    ++w, f.n -= f.d;
  return {w, f};
}

static int cmpm(Mv a, Mv b) { return a.w != b.w ? (a.w < b.w ? -1 : 1) : cmpv(a.f, b.f); }

static std::string sh(Mv m) { return mon::str(m.w) + " & " + fx::sh(m.f); }

template <class M> static bool mixed_value(M const& m, Mv& out)
{
  Fr const f = get(m.fractional());
  if (f.d == 0)
    return false;
  out = normal(i128(m.whole()), f);
  return true;
}

template <class W, class F, class P> void mixed_limits(mon::Env& e, double weight)
{
  using M = mixed_number<W, F, P>;
  using L = ieme::limits<M>;
  using N = std::numeric_limits<M>;
  using B = std::numeric_limits<W>;
  Ri const rw = ri<W>, rf = ri<F>;
  mon::begin("limits of mixed numbers", pol<P>::s, type_name<W>::s, type_name<F>::s);
  Mv lo {}, hi {}, sm {}, t {};
  auto must = [&](const char* n, bool ok) {
    mon::seen();
    if (!ok)
      mon::fail(n, "limits of mixed numbers: %s does not hold [%s, %s, %s]", n, pol<P>::s, type_name<W>::s, type_name<F>::s);
  };
  must("min is defined", mixed_value(L::min(), lo));
  must("max is defined", mixed_value(L::max(), hi));
  must("smallest is defined", mixed_value(L::smallest(), sm));
  must("undefined is undefined", get(L::undefined().fractional()).d == 0);
  must("quiet_NaN is undefined", get(N::quiet_NaN().fractional()).d == 0);
  must("lowest is min", mixed_value(N::lowest(), t) && cmpm(t, lo) == 0);
  must("numeric_limits::min is min", mixed_value(N::min(), t) && cmpm(t, lo) == 0);
  must("numeric_limits::max is max", mixed_value(N::max(), t) && cmpm(t, hi) == 0);
  must("epsilon is smallest", mixed_value(N::epsilon(), t) && cmpm(t, sm) == 0);
  Mv z {0, {0, 1}};
  must("round_error is zero", mixed_value(N::round_error(), t) && cmpm(t, z) == 0);
  must("infinity is zero", mixed_value(N::infinity(), t) && cmpm(t, z) == 0);
  must("signaling_NaN is zero", mixed_value(N::signaling_NaN(), t) && cmpm(t, z) == 0);
  must("denorm_min is zero", mixed_value(N::denorm_min(), t) && cmpm(t, z) == 0);
  must("smallest is positive", cmpm(sm, {0, {0, 1}}) > 0);
  must("is_signed", N::is_signed == B::is_signed);
  must("is_integer", !N::is_integer);
  must("is_exact", N::is_exact);
  must("is_specialized", N::is_specialized);
  must("has_infinity", !N::has_infinity);
  must("has_quiet_NaN", N::has_quiet_NaN);
  must("has_signaling_NaN", !N::has_signaling_NaN);
  must("digits", N::digits == B::digits && N::digits10 == B::digits10 && N::radix == B::radix);
  must("max_digits10", N::max_digits10 == B::max_digits10);
  must("is_modulo", N::is_modulo == B::is_modulo);
  must("exponents", N::min_exponent == B::min_exponent && N::min_exponent10 == B::min_exponent10
                      && N::max_exponent == B::max_exponent && N::max_exponent10 == B::max_exponent10);
  must("is_iec559", !N::is_iec559);
  must("has_denorm_loss", !N::has_denorm_loss);
  must("traps", !N::traps);
  must("tinyness_before", N::tinyness_before == B::tinyness_before);
  must("has_denorm", N::has_denorm == std::numeric_limits<fraction<W, P>>::has_denorm);
  must("round_style", N::round_style == std::numeric_limits<fraction<W, P>>::round_style);
  must("const: is_specialized", std::numeric_limits<M const>::is_specialized);
  must("is_bounded", N::is_bounded);
  mon::done();
  M const u = L::undefined();
  uint64_t const n = uint64_t(double(e.count(20000, 1000000)) * weight);
  for (uint64_t i = 0; e.go(i, n); ++i)
  {
    auto& g = e.rng;
    Fr f = clampfr(gen_any(g, rf), rf);
    if (g.chance(10))
      f = {sgn_(g, rf, rf.max - g.range(1, 3), 50), rf.max - g.range(0, 1)};
    if (iabs(f.n) >= iabs(f.d))
      f.n %= f.d;
    if (iabs(f.n) >= iabs(f.d))
      continue;
    i128 w = sgn_(g, rw, g.chance(30) ? rw.max - g.range(0, 2) : gen_mag(g, rw, rw.bits), 45);
    if (rw.sg && g.chance(5))
      w = -rw.max - 1;
    bool const fneg = f.n != 0 && (f.n < 0) != (f.d < 0), fpos = f.n != 0 && !fneg;
    if ((w < 0 && fpos) || (w > 0 && fneg) || (!rw.sg && fneg))
      continue;
    mon::begin("limits against a mixed number", pol<P>::s, type_name<W>::s, type_name<F>::s, w, f.n, f.d);
    M const m(static_cast<W>(w), mk<F, P>(f));
    Mv v;
    mon::seen(4);
    if (!mixed_value(m, v))
      continue; // C18
    if (cmpm(lo, v) > 0 || cmpm(hi, v) < 0)
      mon::fail("mixed min and max", "%s is outside [%s, %s]", sh(v).c_str(), sh(lo).c_str(), sh(hi).c_str());
    if (cmpm(v, {0, {0, 1}}) > 0 && cmpm(sm, v) > 0)
      mon::fail("mixed smallest", "%s is below smallest %s", sh(v).c_str(), sh(sm).c_str());
    // operands: whatever is in range
    mon::begin("sum with undefined mixed limit", pol<P>::s, type_name<W>::s, type_name<F>::s, w, f.n, f.d);
    if (in(w + 0, rw) && (get((m + u).fractional()).d != 0 || get((u + m).fractional()).d != 0))
      mon::fail("mixed undefined operand", "a sum with undefined() is defined");
    for (int which = 0; which < 3; ++which)
    {
      M const l = which == 0 ? L::max() : which == 1 ? L::min() : L::smallest();
      i128 const s = i128(l.whole()) + i128(m.whole());
      Fr fs;
      Fr const lf = get(l.fractional()), mf = get(m.fractional());
      if (!in(s, rw) || mf.d < 0 || lf.d < 0 || !dom(pol<P>::d, ADD, lf, false, mf, false, rf, fs) || !within(fs, rf))
        continue;
      Mv const want = normal(s, fs);
      if (!in(s + fs.n / fs.d, rw) || !in(want.w, rw) || (!rw.sg && want.f.n < 0))
        continue;
      mon::begin("sum with a mixed limit", pol<P>::s, type_name<W>::s, type_name<F>::s, w, f.n, f.d, which);
      mon::seen();
      Mv got;
      auto const sum = l + m;
      if (!mixed_value(sum, got) || cmpm(got, want) != 0)
        mon::fail("mixed limit as operand", "limit %d + %s is %s & %s", which, sh(v).c_str(), mon::str(i128(sum.whole())).c_str(),
                  fx::sh(get(sum.fractional())).c_str());
      MON_BUCKET("sums with a mixed limit");
    }
    mon::done();
    static uint64_t* const bk = mon::bucket("mixed %s %s %s", pol<P>::s, type_name<W>::s, type_name<F>::s);
    ++*bk;
  }
}

#include "parts1.hpp"

template <class R, class Ps> void go1(mon::Env& e, double w)
{
  Ri const r = ri<R>;
  each(Ps {}, [&]<class P>() {
    traits<R, P>();
    each_other<R, P>();
    if constexpr (sizeof(R) >= sizeof(int))
    {
      mixed_limits<R, R, P>(e, w);
      if constexpr (std::is_same_v<R, int>)
      {
        mixed_limits<int, long, P>(e, 0.3);
        mixed_limits<long, int, P>(e, 0.3);
      }
    }
  });
  int const k = int(std::min<i128>(r.max, 20)), lo = r.sg ? -k : 0;
  for (int n = lo; n <= k; ++n)
    for (int d = lo; d <= k; ++d)
      each(Ps {}, [&]<class P>() { bound<R, P>({n, d}); });
  ++mon::S->exhausted_spaces;
  each_landmark(r, true, [&](Fr a) { each(Ps {}, [&]<class P>() { bound<R, P>(a); }); });
  uint64_t const n = uint64_t(double(e.count(8000, 800000)) * w);
  for (uint64_t i = 0; e.go(i, n); ++i)
  {
    auto& g = e.rng;
    Fr f = clampfr(gen_any(g, r), r);
    switch (g.below(6))
    {
      case 0: f.n = sgn_(g, r, r.max - g.range(0, 2), 50); break;
      case 1: f = {sgn_(g, r, g.range(0, 3), 50), r.max - g.range(0, 3)}; break;
      case 2: f.d = 1; break;
      case 3: f.d = g.range(1, 3); break;
      case 4: f.d = 0; break;
      default: break;
    }
    each(Ps {}, [&]<class P>() { bound<R, P>(f); });
  }
}

int main(int argc, char** argv) { return mon::main_impl(argc, argv, all_parts1); }
