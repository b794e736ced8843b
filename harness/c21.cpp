// C21: fractional chrono durations and time points are exact.
#include "frac.hpp"

#include <chrono>
#include <ratio>
#include <tuple>

using namespace fx;
namespace ich = ieme::chrono;

template <class R> struct period_name;
using nano = std::nano;
using micro = std::micro;
using milli = std::milli;
using one_s = std::ratio<1>;
using minute = std::ratio<60>;
using hour = std::ratio<3600>;
using sixtieth = std::ratio<1, 60>;
using ntsc = std::ratio<1001, 30000>;
using odd = std::ratio<7, 3>;
using pico = std::pico;
using ticks = std::ratio<1, 10000000>;
using day = std::ratio<86400>;
using year = std::ratio<31556952>;
using atto = std::atto;
#define PERIOD(T)                                                              \
  template <> struct period_name<T> { static constexpr const char* s = #T; };
PERIOD(nano)
PERIOD(micro)
PERIOD(milli)
PERIOD(one_s)
PERIOD(minute)
PERIOD(hour)
PERIOD(sixtieth)
PERIOD(ntsc)
PERIOD(odd)
PERIOD(pico)
PERIOD(ticks)
PERIOD(day)
PERIOD(year)
PERIOD(atto)

// Model of the standard conversion of a count between periods (the factor is
// N/D), for the domain: the count over the policy, and its exact value.
static bool convert(Pol p, Fr a, i128 N, i128 D, Ri r, Fr& out)
{
  auto step = [&](Op op, Fr b) {
    Fr t;
    if (!domain(p, op, a, false, b, false, r, t))
      return false;
    a = p.out ? red(t, p.out_norm) : t;
    return true;
  };
  if (!within(N, r) || !within(D, r))
    return false;
  if (N != 1 && !step(MUL, {N, 1}))
    return false;
  if (D != 1 && !step(DIV, {D, 1}))
    return false;
  out = a;
  return within(a, r);
}

template <class From, class To> struct factor {
  using type = std::ratio_divide<From, To>;
  static constexpr i128 N = type::num, D = type::den;
};

template <class D> static Fr cnt(D const& d) { return get(d.count()); }

static void hit(const char* what, const char* a, const char* b, const char* t)
{
  ++*mon::bucket("%s: %s %s %s", what, a, b, t);
}

struct fake_base {
  static inline long long reading = 0;
};
template <class R, class Period, bool Steady> struct fake_clock : fake_base {
  using rep = R;
  using period = Period;
  using duration = std::chrono::duration<R, Period>;
  using time_point = std::chrono::time_point<fake_clock>;
  static constexpr bool is_steady = Steady;
  static time_point now() noexcept { return time_point(duration(static_cast<R>(reading))); }
};

// time points need not have the units of their clock
using other_clock = fake_clock<short, std::ratio<7, 3>, false>;

// --------------------------------------------------------- one pair of periods

template <class R, class P, class A, class B> void fractional_conversion(Fr a)
{
  using DA = ich::duration<R, A, P>;
  using DB = ich::duration<R, B, P>;
  using FAB = factor<A, B>;
  Fr v;
  if (!within(a, ri<R>) || a.d == 0 || !convert(pol<P>::d, a, FAB::N, FAB::D, ri<R>, v))
    return mon::ood();
  mon::begin("fractional duration to another period", pol<P>::s, period_name<A>::s, period_name<B>::s, a.n, a.d);
  DA const x(mk<R, P>(a));
  DB const y = x; // implicit
  exact("implicit conversion", cnt(y), v);
  exact("duration_cast", cnt(std::chrono::duration_cast<DB>(x)), v);
  exact("source of a conversion", cnt(x), a);
  using clk = fake_clock<R, A, true>;
  ich::time_point<clk, R, A, P> const t(x);
  ich::time_point<clk, R, B, P> const u = t; // implicit
  exact("time point conversion", get(u.time_since_epoch().count()), v);
  exact("time_point_cast", get(std::chrono::time_point_cast<DB>(t).time_since_epoch().count()), v);
  ich::time_point<other_clock, R, A, P> const to(x);
  ich::time_point<other_clock, R, B, P> const uo = to; // implicit
  exact("time point of a clock with other units", get(uo.time_since_epoch().count()), v);
  exact("time_point_cast of a clock with other units", get(std::chrono::time_point_cast<DB>(to).time_since_epoch().count()), v);
  mon::done();
  static uint64_t* const bk = mon::bucket("fractional %s: %s to %s", type_name<R>::s, period_name<A>::s, period_name<B>::s);
  ++*bk;
}

template <class R, class P, class A, class B> void standard_conversion(i128 n)
{
  using SA = std::chrono::duration<R, A>;
  using DB = ich::duration<R, B, P>;
  using FAB = factor<A, B>;
  Fr v;
  if (!within(n, ri<R>) || !convert(pol<P>::d, {n, 1}, FAB::N, FAB::D, ri<R>, v))
    return mon::ood();
  mon::begin("std duration to fractional", pol<P>::s, period_name<A>::s, period_name<B>::s, n);
  SA const s(static_cast<R>(n));
  DB const y = s; // implicit
  exact("implicit conversion from std", cnt(y), v);
  auto const same = ich::to_fractional(s); // in the default policy
  mon::same_type<std::decay_t<decltype(same)>, ich::duration<R, A>>("result type");
  exact("to_fractional(duration)", cnt(same), {n, 1});
  using clk = fake_clock<R, A, true>;
  std::chrono::time_point<clk, SA> const t(s);
  ich::time_point<clk, R, B, P> const u = t; // implicit
  exact("time point from std", get(u.time_since_epoch().count()), v);
  auto const ft = ich::to_fractional(t);
  mon::same_type<std::decay_t<decltype(ft)>, ich::time_point<clk, R, A>>("result type");
  ich::duration_like<SA, P> const like = s;
  exact("duration_like", cnt(like), {n, 1});
  ich::time_point_like<std::chrono::time_point<clk, SA>, P> const tlike = t;
  exact("time_point_like", get(tlike.time_since_epoch().count()), {n, 1});
  exact("to_fractional(time_point)", get(ft.time_since_epoch().count()), {n, 1});
  std::chrono::time_point<other_clock, SA> const o(s);
  auto const fo = ich::to_fractional(o);
  mon::same_type<std::decay_t<decltype(fo)>, ich::time_point<other_clock, R, A>>("result type");
  exact("to_fractional(time_point of a clock with other units)", get(fo.time_since_epoch().count()), {n, 1});
  ich::time_point<other_clock, R, B, P> const uo = o; // implicit
  exact("time point from std, of a clock with other units", get(uo.time_since_epoch().count()), v);
  ich::time_point_like<std::chrono::time_point<other_clock, SA>, P> const olike = o;
  exact("time_point_like of a clock with other units", get(olike.time_since_epoch().count()), {n, 1});
  // the wrapped clock reads what the clock reads
  fake_base::reading = static_cast<long long>(n);
  using w = ich::clock_wrapper<clk, B, P>;
  mon::same_type<typename w::time_point, ich::time_point<clk, R, B, P>>("clock_wrapper::time_point");
  auto const now = w::now();
  mon::same_type<std::decay_t<decltype(now)>, typename w::time_point>("clock_wrapper::now");
  exact("clock_wrapper::now", get(now.time_since_epoch().count()), v);
  mon::seen(2);
  if (w::is_steady != clk::is_steady || ich::clock_wrapper<fake_clock<R, A, false>, B, P>::is_steady)
    mon::fail("clock_wrapper::is_steady", "is_steady differs from the wrapped clock's");
  exact("clock_wrapper::now, own period", get(ich::clock_wrapper<clk, A, P>::now().time_since_epoch().count()), {n, 1});
  // a clock that is not steady may be set back, and is read as it is
  exact("clock_wrapper::now, not steady", get(ich::clock_wrapper<fake_clock<R, A, false>, B, P>::now().time_since_epoch().count()), v);
  static long long before = 0;
  ++*(fake_base::reading < before ? mon::bucket("clock set back") : mon::bucket("clock gone on"));
  before = fake_base::reading;
  mon::done();
  static uint64_t* const bk = mon::bucket("std %s: %s to %s", type_name<R>::s, period_name<A>::s, period_name<B>::s);
  ++*bk;
}

template <class R, class P, class A, class B> void arithmetic(Fr a, Fr b, i128 k)
{
  using DA = ich::duration<R, A, P>;
  using DB = ich::duration<R, B, P>;
  using DC = std::common_type_t<DA, DB>;
  using C = typename DC::period;
  Ri const r = ri<R>;
  Pol const p = pol<P>::d;
  if (!within(a, r) || !within(b, r) || a.d == 0 || b.d == 0)
    return mon::ood();
  Fr ca, cb, v;
  bool const both = convert(p, a, factor<A, C>::N, factor<A, C>::D, r, ca) && convert(p, b, factor<B, C>::N, factor<B, C>::D, r, cb);
  DA const x(mk<R, P>(a));
  DB const y(mk<R, P>(b));
  mon::begin("arithmetic of durations", pol<P>::s, period_name<A>::s, period_name<B>::s, a.n, a.d, b.n, b.d, k);
  bool any = false;
  using clk = fake_clock<R, A, true>;
  using TA = ich::time_point<clk, R, A, P>;
  using TB = ich::time_point<clk, R, B, P>;
  if (both && domain(p, ADD, ca, false, cb, false, r, v))
  {
    any = true;
    mon::same_type<decltype(x + y), DC>("common type");
    exact("duration + duration", cnt(x + y), v);
    exact("time_point + duration", get((TA(x) + y).time_since_epoch().count()), v);
    exact("duration + time_point", get((x + TB(y)).time_since_epoch().count()), v);
    if constexpr (std::is_same_v<A, B>)
    {
      DA z = x;
      z += y;
      exact("duration += duration", cnt(z), v);
      TA t(x);
      t += y;
      exact("time_point += duration", get(t.time_since_epoch().count()), v);
    }
  }
  if (both && domain(p, SUB, ca, false, cb, false, r, v))
  {
    any = true;
    exact("duration - duration", cnt(x - y), v);
    exact("time_point - duration", get((TA(x) - y).time_since_epoch().count()), v);
    exact("time_point - time_point", cnt(TA(x) - TB(y)), v);
    if constexpr (std::is_same_v<A, B>)
    {
      DA z = x;
      z -= y;
      exact("duration -= duration", cnt(z), v);
      TA t(x);
      t -= y;
      exact("time_point -= duration", get(t.time_since_epoch().count()), v);
    }
  }
  if (both && domain(p, DIV, ca, false, cb, false, r, v))
  {
    any = true;
    exact("duration / duration", get(x / y), v);
  }
  if (both && domain(p, MOD, ca, false, cb, false, r, v))
  {
    any = true;
    exact("duration % duration", cnt(x % y), v);
  }
  if (both && domain(p, CMP, ca, false, cb, false, r, v) && domain(p, CMP, cb, false, ca, false, r, v))
  {
    any = true;
    int const c = cmpv(ca, cb);
    auto j = [&](const char* w, bool got, bool want) {
      mon::seen();
      if (got != want)
        mon::fail(w, "%s of %s %s and %s %s is %d, expected %d", w, sh(a).c_str(), period_name<A>::s, sh(b).c_str(), period_name<B>::s, got, want);
    };
    j("duration ==", x == y, c == 0);
    j("duration !=", x != y, c != 0);
    j("duration <", x < y, c < 0);
    j("duration <=", x <= y, c <= 0);
    j("duration >", x > y, c > 0);
    j("duration >=", x >= y, c >= 0);
    TA const t(x);
    TB const u(y);
    j("time_point ==", t == u, c == 0);
    j("time_point !=", t != u, c != 0);
    j("time_point <", t < u, c < 0);
    j("time_point <=", t <= u, c <= 0);
    j("time_point >", t > u, c > 0);
    j("time_point >=", t >= u, c >= 0);
  }
  // whole-number scalars
  if (within(k, r))
  {
    R const s = static_cast<R>(k);
    // a whole number reaches the count either as it is or as a fraction
    Fr w;
    if (domain(p, MUL, a, false, {k, 1}, true, r, v) && domain(p, MUL, a, false, {k, 1}, false, r, w))
    {
      any = true;
      exact("duration * whole", cnt(x * s), v);
      exact("whole * duration", cnt(s * x), v);
      DA z = x;
      z *= mk<R, P>({k, 1});
      exact("duration *= whole", cnt(z), v);
    }
    if (k != 0 && domain(p, DIV, a, false, {k, 1}, true, r, v) && domain(p, DIV, a, false, {k, 1}, false, r, w))
    {
      any = true;
      exact("duration / whole", cnt(x / s), v);
      DA z = x;
      z /= mk<R, P>({k, 1});
      exact("duration /= whole", cnt(z), v);
    }
  }
  if (r.sg)
  {
    any = true;
    exact("-duration", cnt(-x), {-a.n, a.d});
  }
  exact("+duration", cnt(+x), a);
  exact("operand after arithmetic", cnt(x), a);
  exact("operand after arithmetic", cnt(y), b);
  mon::seen(2);
  if (get(DA::zero().count()).n != 0)
    mon::fail("duration::zero", "duration::zero() is not zero");
  (void)any;
  mon::done();
  static uint64_t* const bk = mon::bucket("arithmetic %s: %s with %s", type_name<R>::s, period_name<A>::s, period_name<B>::s);
  static uint64_t* const bk2 = mon::bucket("arithmetic %s: %s with %s, operands in range together", type_name<R>::s, period_name<A>::s, period_name<B>::s);
  ++*bk;
  if (both)
    ++*bk2;
}

template <class R> Fr gen_count(mon::Rng& g)
{
  Ri const r = ri<R>;
  switch (g.below(4))
  {
    case 0: return gen_small(g, r, 20);
    case 1: return clampfr({sgn_(g, r, gen_mag(g, r, r.bits), 45), g.range(1, 4)}, r);
    case 2: return clampfr(gen_fr(g, r, g.range(1, r.bits), g.range(1, r.bits / 4)), r);
    default: return clampfr(gen_fr(g, r, r.bits / 3, r.bits / 6), r);
  }
}

template <class R, class A, class B, class Ps> void pair(mon::Env& e, uint64_t n)
{
  Ri const r = ri<R>;
  for (int k = r.sg ? -70 : 0; k <= 70; ++k)
    each(Ps {}, [&]<class P>() { standard_conversion<R, P, A, B>(k); });
  for (uint64_t i = 0; e.go(i, n); ++i)
  {
    auto& g = e.rng;
    Fr const a = gen_count<R>(g);
    Fr b = gen_count<R>(g);
    if (g.chance(25)) // the same time, or next to it, in the other period
    {
      i128 x, y;
      using F = factor<A, B>;
      if (mul(a.n, F::N, x) && mul(a.d, F::D, y) && y)
      {
        b = red({x, y}, true);
        b.n += g.chance(50) ? 0 : g.range(-1, 1);
        b = clampfr(b, r);
      }
    }
    i128 w = sgn_(g, r, gen_mag(g, r, g.range(1, r.bits)), 45);
    if (g.chance(20))
      w = sgn_(g, r, r.max / std::max<i128>(1, std::max(factor<A, B>::N, factor<A, B>::D)) - g.range(0, 1), 45);
    i128 const k = sgn_(g, r, g.range(0, 1000), 40);
    each(Ps {}, [&]<class P>() {
      fractional_conversion<R, P, A, B>(a);
      standard_conversion<R, P, A, B>(w);
      arithmetic<R, P, A, B>(a, b, k);
    });
  }
}

template <class R, class A, class Ps, class... B> void against(mon::Env& e, uint64_t n) { (pair<R, A, B, Ps>(e, n), ...); }

// --------------------------------------------------------------- real clocks

template <class Clock> void real(const char* name)
{
  using P = ieme::ops::defaults;
  for (int i = 0; i < 2000; ++i)
  {
    mon::begin("clock_wrapper around a real clock", name, nullptr, nullptr, i);
    auto const before = Clock::now();
    auto const mid = ich::clock_wrapper<Clock>::now();
    auto const sec = ich::clock_wrapper<Clock, std::ratio<1>>::now();
    auto const hr = ich::clock_wrapper<Clock, std::ratio<3600>>::now();
    auto const after = Clock::now();
    i128 const lo = before.time_since_epoch().count(), hi = after.time_since_epoch().count();
    using per = typename Clock::period;
    auto in = [&](const char* what, Fr f, i128 unit) { // f is in units of `unit` seconds
      mon::seen();
      // f * unit seconds against [lo, hi] * per
      i128 const num = f.n * unit * per::den, den = f.d * per::num;
      if (f.d == 0 || num < lo * den || num > hi * den)
        mon::fail(what, "%s (%s): %s is not between the readings %s and %s", what, name, sh(f).c_str(), mon::str(lo).c_str(), mon::str(hi).c_str());
    };
    Fr const m = get(mid.time_since_epoch().count());
    mon::seen();
    if (m.d != 1 || m.n < lo || m.n > hi)
      mon::fail("clock_wrapper::now", "%s is not between %s and %s", sh(m).c_str(), mon::str(lo).c_str(), mon::str(hi).c_str());
    in("clock_wrapper::now in seconds", get(sec.time_since_epoch().count()), 1);
    in("clock_wrapper::now in hours", get(hr.time_since_epoch().count()), 3600);
    static_assert(ich::clock_wrapper<Clock>::is_steady == Clock::is_steady, "is_steady");
    mon::done();
    ++*mon::bucket("real clock %s", name);
  }
}

// ------------------------------------------------- the named duration types

template <class F, class S> void named(const char* what)
{
  mon::begin("named duration", what, nullptr, nullptr, 0);
  mon::same_type<typename F::rep, fraction<typename S::rep>>("rep");
  mon::same_type<typename F::period, typename S::period>("period");
  for (long n = -100; n <= 100; ++n)
  {
    F const f = S(static_cast<typename S::rep>(n));
    exact(what, cnt(f), {n, 1});
    auto const g = ich::to_fractional(S(static_cast<typename S::rep>(n)));
    mon::same_type<std::decay_t<decltype(g)>, F>("to_fractional");
    exact(what, cnt(g), {n, 1});
  }
  mon::done();
}

int main(int argc, char** argv)
{
  return mon::main_impl(argc, argv, [](mon::Env& e) {
    using io = fx::list<ops::safe_reduced_io>;
    using two = fx::list<ops::safe_reduced_io, ops::fast_reduced_o>;
    uint64_t const n = e.count(5000, 90000);
#define ALL nano, micro, milli, one_s, minute, hour, sixtieth, ntsc, odd
#if PART == 0
    against<long, nano, io, ALL>(e, n);
    against<long, micro, io, ALL>(e, n);
    against<long, milli, io, ALL>(e, n);
    real<std::chrono::steady_clock>("steady_clock");
    real<std::chrono::system_clock>("system_clock");
    real<std::chrono::high_resolution_clock>("high_resolution_clock");
#elif PART == 1
    against<long, one_s, io, ALL>(e, n);
    against<long, minute, io, ALL>(e, n);
    against<long, hour, io, ALL>(e, n);
    named<ich::nanoseconds, std::chrono::nanoseconds>("nanoseconds");
    named<ich::microseconds, std::chrono::microseconds>("microseconds");
    named<ich::milliseconds, std::chrono::milliseconds>("milliseconds");
    named<ich::seconds, std::chrono::seconds>("seconds");
    named<ich::minutes, std::chrono::minutes>("minutes");
    named<ich::hours, std::chrono::hours>("hours");
#elif PART == 2
    against<long, sixtieth, io, ALL>(e, n);
    against<long, ntsc, io, ALL>(e, n);
    against<int, one_s, io, milli, minute, sixtieth, ntsc, one_s>(e, n);
    against<int, milli, io, one_s, sixtieth, odd, milli>(e, n);
#elif PART == 3
    pair<long, milli, one_s, fx::builtin>(e, n);
    pair<long, one_s, nano, fx::builtin>(e, n);
    pair<long, ntsc, sixtieth, fx::builtin>(e, n);
    pair<long long, minute, hour, two>(e, n);
    pair<unsigned long, milli, hour, two>(e, n);
    pair<unsigned long, odd, odd, two>(e, n);
#elif PART == 4
    against<long, pico, io, pico, nano, ticks, milli, one_s, day>(e, n);
    against<long, ticks, io, ticks, nano, one_s, minute, pico>(e, n);
    against<long, day, io, day, hour, year, one_s, milli>(e, n);
    against<long, year, io, year, day, one_s, odd>(e, n);
    against<long long, atto, io, atto, pico>(e, n);
    against<int, day, io, minute, year, day>(e, n);
    against<unsigned int, one_s, io, milli, day, odd>(e, n);
#elif PART == 5 // optional: narrow counts
    named<ich::duration_like<std::chrono::duration<short, milli>>, std::chrono::duration<short, milli>>("short milliseconds");
    named<ich::duration_like<std::chrono::duration<signed char, pico>>, std::chrono::duration<signed char, pico>>("tiny picoseconds");
    named<ich::duration_like<std::chrono::duration<short, ntsc>>, std::chrono::duration<short, ntsc>>("short frames");
#else
#error "unknown part"
#endif
  });
}
