// C24: the default-policy macros.
//
// Each part is one setting of the IEME_DEFAULT_OPS_* macros (part 0: none),
// with EXPECT the like-named policy.
#if PART == 1
#define IEME_DEFAULT_OPS_SAFE
#define EXPECT safe
#elif PART == 2
#define IEME_DEFAULT_OPS_SAFE_REDUCED_I
#define EXPECT safe_reduced_i
#elif PART == 3
#define IEME_DEFAULT_OPS_SAFE_REDUCED_O
#define EXPECT safe_reduced_o
#elif PART == 4
#define IEME_DEFAULT_OPS_SAFE_REDUCED_IO
#define EXPECT safe_reduced_io
#elif PART == 5
#define IEME_DEFAULT_OPS_FAST
#define EXPECT fast
#elif PART == 6
#define IEME_DEFAULT_OPS_FAST_REDUCED_I
#define EXPECT fast_reduced_i
#elif PART == 7
#define IEME_DEFAULT_OPS_FAST_REDUCED_O
#define EXPECT fast_reduced_o
#elif PART == 8
#define IEME_DEFAULT_OPS_FAST_REDUCED_IO
#define EXPECT fast_reduced_io
#else
#define EXPECT safe_reduced_io
#endif

#include "everything.hpp"

using E = ops::EXPECT;
static constexpr const char* setting = pol<E>::s;

// ------------------------------------------------------------------ types

template <class Got, class Want> static void type(const char* what)
{
  mon::seen();
  if (!std::is_same_v<Got, Want>)
    mon::fail(what, "%s does not use %s", what, setting);
}

static void types()
{
  using namespace ieme;
  using namespace ieme::fraction_literals;
  namespace sc = std::chrono;
  namespace fc = ieme::chrono;
  mon::begin("types", setting, nullptr, nullptr);
#define T(got, ...) type<std::decay_t<got>, __VA_ARGS__>(#got)
  T(ops::defaults, E);
  T(fraction<int>::ops_type, E);
  T(fraction<unsigned long>, fraction<unsigned long, E>);
  T(mixed_number<int>, mixed_number<int, int, E>);
  T(mixed_number<int COMMA long>, mixed_number<int, long, E>);
  T(mixed_number<long>::fractional_type, fraction<long, E>);
  T(decltype(1 / 2_fr), fraction<int, E>);
  T(decltype(1L / -2_fr), fraction<long, E>);
  T(decltype(1u / +2_fr), fraction<unsigned, E>);
  T(decltype(1 / 2_fr / 3_fr), fraction<int, E>);
  T(denominator_literal<true>::ops_type, E);
  T(denominator_literal<false>, denominator_literal<false, E>);
  T(decltype(2_fr)::ops_type, E);
  T(decltype(0.5_dec), fraction<std::intmax_t, E>);
  T(decltype(pow(2, -3)), fraction<int, E>);
  T(decltype(pow(2L, 3)), fraction<long, E>);
  T(decltype(pow2<int>(3)), fraction<int, E>);
  T(decltype(to_fraction<int>(0.5f)), fraction<int, E>);
  T(decltype(to_fraction<long>(0.5)), fraction<long, E>);
  T(decltype(floating_point_string_to_fraction<int>("0.5")), fraction<int, E>);
  T(decltype(limits<fraction<int>>::max()), fraction<int, E>);
  T(decltype(std::numeric_limits<fraction<int>>::max()), fraction<int, E>);
  T(decltype(reciprocal(fraction<int>())), fraction<int, E>);
  T(decltype(fraction<int>() + fraction<long>()), fraction<long, E>);
  T(fc::duration<int COMMA std::ratio<1>>::rep, fraction<int, E>);
  T(fc::duration_like<sc::minutes>::rep, fraction<sc::minutes::rep, E>);
  T(fc::nanoseconds::rep, fraction<sc::nanoseconds::rep, E>);
  T(fc::microseconds::rep, fraction<sc::microseconds::rep, E>);
  T(fc::milliseconds::rep, fraction<sc::milliseconds::rep, E>);
  T(fc::seconds::rep, fraction<sc::seconds::rep, E>);
  T(fc::minutes::rep, fraction<sc::minutes::rep, E>);
  T(fc::hours::rep, fraction<sc::hours::rep, E>);
  T(decltype(fc::to_fractional(sc::seconds(3)))::rep, fraction<sc::seconds::rep, E>);
  T(fc::time_point<sc::steady_clock COMMA int COMMA std::milli>::rep, fraction<int, E>);
  T(fc::time_point_like<sc::steady_clock::time_point>::rep, fraction<sc::steady_clock::rep, E>);
  T(decltype(fc::to_fractional(sc::steady_clock::time_point()))::rep, fraction<sc::steady_clock::rep, E>);
  T(fc::clock_wrapper<sc::steady_clock>::ops_type, E);
  T(fc::clock_wrapper<sc::steady_clock>::rep, fraction<sc::steady_clock::rep, E>);
  T(fc::clock_wrapper<sc::system_clock>::duration::rep, fraction<sc::system_clock::rep, E>);
  T(fc::clock_wrapper<sc::system_clock>::time_point::rep, fraction<sc::system_clock::rep, E>);
  T(decltype(fc::clock_wrapper<sc::steady_clock>::now())::rep, fraction<sc::steady_clock::rep, E>);
  // a policy that is named is not replaced
  T(fraction<int COMMA ops::fast_reduced_o>::ops_type, ops::fast_reduced_o);
  T(decltype(pow<int COMMA ops::safe>(2, 3)), fraction<int, ops::safe>);
  T(mixed_number<int COMMA int COMMA ops::fast>::ops_type, ops::fast);
  mon::done();
}

// ------------------------------------------------------------------ behaviour

// what the like-named policy promises, judged on fractions that name none
template <class R> static void promise(Fr a, Fr b, i128 w)
{
  constexpr Ri r = ri<R>;
  constexpr Pol p = pol<E>::d;
  using X = fraction<R>;
  X const x {static_cast<R>(a.n), static_cast<R>(a.d)}, y {static_cast<R>(b.n), static_cast<R>(b.d)};
  R const k = static_cast<R>(w);
  Fr const ww {w, 1};
  Fr v;
  bool any = false;
  mon::begin("default arithmetic", setting, type_name<R>::s, nullptr, a.n, a.d, b.n, b.d, w);
  auto ar = [&](const char* n, Op op, Fr l, bool lw, Fr m, bool mw, auto f) {
    if (!domain(p, op, l, lw, m, mw, r, v))
      return mon::ood();
    any = true;
    Fr const g = get(f());
    exact(n, g, v);
    canonical(n, p, g);
  };
#define A(OP, S)                                                                                                       \
  ar("fraction " #S " fraction", OP, a, false, b, false, [&] { return x S y; });                                       \
  ar("fraction " #S " whole", OP, a, false, ww, true, [&] { return x S k; });                                          \
  ar("whole " #S " fraction", OP, ww, true, b, false, [&] { return k S y; });                                          \
  ar("fraction " #S "= fraction", OP, a, false, b, false, [&] {                                                        \
    X t = x;                                                                                                           \
    t = t S y;                                                                                                         \
    return t;                                                                                                          \
  });
  A(ADD, +)
  A(SUB, -)
  A(MUL, *)
  A(DIV, /)
  A(MOD, %)
  if (domain(p, CMP, a, false, b, false, r, v))
  {
    any = true;
    int const c = int(v.n);
    mon::seen(6);
    if ((x == y) != (c == 0) || (x != y) != (c != 0) || (x < y) != (c < 0) || (x <= y) != (c <= 0) || (x > y) != (c > 0)
        || (x >= y) != (c >= 0))
      mon::fail("default comparisons", "the relations of %s and %s are wrong", sh(a).c_str(), sh(b).c_str());
  }
  if (!any)
    return;
  mon::done();
  static uint64_t* const bk = mon::bucket("promises of %s kept for %s", setting, type_name<R>::s);
  ++*bk;
}

// the calls that take a default policy against the same calls naming it
template <class R> static void named(mon::Env& e)
{
  using namespace ieme;
  constexpr Ri r = ri<R>;
  auto id = [](const char* n, auto const& d, auto const& x) {
    mon::seen();
    Fr const a = get(d), b = get(x);
    if (a.n != b.n || a.d != b.d)
      mon::fail(n, "%s: %s by default, %s with %s named", n, sh(a).c_str(), sh(b).c_str(), setting);
  };
  auto idm = [](const char* n, auto const& d, auto const& x) {
    mon::seen();
    Fr const a = get(d.fractional()), b = get(x.fractional());
    if (a.n != b.n || a.d != b.d || d.whole() != x.whole())
      mon::fail(n, "%s: %s & %s by default, %s & %s with %s named", n, mon::str(i128(d.whole())).c_str(), sh(a).c_str(),
                mon::str(i128(x.whole())).c_str(), sh(b).c_str(), setting);
  };
  uint64_t const n = e.count(4000, 200000);
  for (uint64_t i = 0; e.go(i, n); ++i)
  {
    mon::begin("defaults against named", setting, type_name<R>::s, nullptr, i128(e.seed), i128(i));
    mon::Rng& g = e.rng;
    R const b = static_cast<R>(g.range(r.sg ? -9 : 0, 9));
    int const k = g.range(-8, 8);
    id("pow", pow(b, k), pow<R, E>(b, k));
    id("pow2", pow2<R>(k), pow2<R, E>(k));
    float const f = float(g.range(r.sg ? -4000 : 0, 4000)) / float(1 << g.range(0, 12));
    id("to_fraction(float)", to_fraction<R>(f), to_fraction<R, E>(f));
    id("to_fraction(double)", to_fraction<R>(double(f)), to_fraction<R, E>(double(f)));
    Text const t = make_text(g.u());
    id("floating_point_string_to_fraction", floating_point_string_to_fraction<R>(t), floating_point_string_to_fraction<R, E>(t));
    std::string const z = std::string_view(t).empty() ? std::string() : std::string(std::string_view(t));
    if (auto const want = floating_point_string_to_fraction<std::intmax_t, E>(z); want.denominator() != 0)
      id("_dec", ieme::operator""_dec(z.c_str()), want);
    R const nn = static_cast<R>(g.range(r.sg ? -900 : 0, 900));
    id("literal", nn / 12_fr, fraction<R, E>(nn, R(12)));
    id("fraction over literal", fraction<R>(nn, R(8)) / 6_fr, fraction<R, E>(nn, R(8)) / R(6));
    Fr const a = gen_small(g, r, 60), c = gen_small(g, r, 60);
    auto const x = fraction<R>(static_cast<R>(a.n), static_cast<R>(a.d));
    auto const y = fraction<R>(static_cast<R>(c.n), static_cast<R>(c.d));
    auto const X = mk<R, E>(a), Y = mk<R, E>(c);
    id("chain", (x + y) * x / R(3) + R(2), (X + Y) * X / R(3) + R(2));
    id("reciprocal", reciprocal(x), reciprocal(X));
    mixed_number<R> const m(nn, x);
    mixed_number<R, R, E> const M(nn, X);
    if (r.sg || a.n >= 0)
    {
      idm("mixed number", m, M);
      idm("mixed sum", m + mixed_number<R>(y), M + mixed_number<R, R, E>(Y));
      id("mixed as fraction", m.as_fraction(), M.as_fraction());
    }
    if constexpr (r.sg)
    {
      namespace fc = ieme::chrono;
      fc::duration<R, std::ratio<1>> const s {x};
      fc::duration<R, std::ratio<1>, E> const S {X};
      id("duration", fc::duration<R, std::milli>(s).count(), fc::duration<R, std::milli, E>(S).count());
      id("duration sum", (s + fc::duration<R, std::ratio<60>>(y)).count(), (S + fc::duration<R, std::ratio<60>, E>(Y)).count());
    }
    mon::done();
    MON_BUCKET("defaults against named policy");
  }
}

static void tokens()
{
  using namespace ieme;
  using namespace ieme::fraction_literals;
#define DEC(tok)                                                                                                       \
  {                                                                                                                    \
    mon::begin("decimal literal " #tok, setting, nullptr, nullptr);                                                    \
    Fr const g = get(tok##_dec), w = get(floating_point_string_to_fraction<std::intmax_t, E>(#tok));                  \
    mon::seen();                                                                                                       \
    if (g.n != w.n || g.d != w.d)                                                                                      \
      mon::fail("decimal literal", #tok "_dec: %s, but %s by parsing with %s", sh(g).c_str(), sh(w).c_str(), setting); \
    mon::done();                                                                                                       \
  }
  DEC(0.750)
  DEC(0.5)
  DEC(12.50)
  DEC(100.00)
  DEC(0.0)
  DEC(00.10)
  DEC(1e3)
  DEC(25e-2)
  DEC(2.5e1)
  DEC(6.e0)
  DEC(.125)
  DEC(1'000.500)
  DEC(0x1.8p0)
  DEC(0xA.Ap-3)
  DEC(0X.80P+4)
#undef DEC
}

// every policy, named explicitly: the macro must not change what it does
template <class R, class P> static void explicit_policy(uint64_t seed, int n)
{
  mon::begin("explicit policy", setting, pol<P>::s, type_name<R>::s);
  Digest d;
  for (int i = 0; i < n; ++i)
  {
    Pair const q = launder(operands<R>(seed * 1000 + uint64_t(i)));
    d.add(binary<R, P>(q));
    d.add(unary_no_literals<R, P>(q));
    d.add(mixed<R, P>(q));
    d.add(parsed<R, P>(make_text(seed + uint64_t(i))));
    mon::seen();
    mon::S->progress = mon::S->progress + 1;
  }
  d.publish("explicit", pol<P>::s, type_name<R>::s);
  mon::done();
}

template <class R> static void random_promises(mon::Env& e, uint64_t n)
{
  Ri const r = ri<R>;
  for (uint64_t i = 0; e.go(i, n); ++i)
  {
    Fr a, b;
    if (e.rng.chance(60))
      gen_pair(e.rng, r, a, b);
    else
      gen_pair_mul(e.rng, r, a, b);
    if (!r.sg && a.n < b.n && e.rng.chance(50))
      std::swap(a, b);
    promise<R>(a, b, gen_whole(e.rng, r, a));
  }
}

static void run(mon::Env& e)
{
  types();
  tokens();
  random_promises<int>(e, e.count(40000, 3000000));
  random_promises<long>(e, e.count(40000, 3000000));
  random_promises<unsigned int>(e, e.count(15000, 800000));
  named<int>(e);
  named<long>(e);
  named<unsigned int>(e);
  uint64_t const seed = e.thorough ? 77 : e.seed; // the same in every executable
  int const n = int(e.count(600, 20000));
  each(builtin {}, [&]<class P>() { explicit_policy<int, P>(seed, n); });
}

int main(int argc, char** argv) { return mon::main_impl(argc, argv, run); }
