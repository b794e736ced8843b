// Everything the library offers on one set of operands, recorded result by
// result: shared by the properties that compare two ways of evaluating the same
// calls (constant evaluation, default policies, repetition, order, threads,
// builds).  The operands are in the domain of every call made on them.
#ifndef VERIF_EVERYTHING_HPP
#define VERIF_EVERYTHING_HPP

#include "frac.hpp"

#include <array>
#include <string_view>

using namespace fx;
using namespace std::literals;

#define COMMA ,

// ------------------------------------------------------------------ records

struct Val {
  const char* what = nullptr;
  int kind = 0; // 1 fraction, 2 integer or bool, 3 floating, 4 mixed
  long long w = 0, n = 0, d = 0;
  long double f = 0;
};

template <int N> struct Out {
  std::array<Val, N> v {};
  int n = 0;
  int skipped = 0;
  constexpr void add(Val x)
  {
    if (n < N)
      v[n] = x;
    ++n;
  }
  template <class R, class P> constexpr void put(const char* s, fraction<R, P> const& f)
  {
    add({s, 1, 0, static_cast<long long>(f.num()), static_cast<long long>(f.den()), 0});
  }
  template <class R> constexpr void put(const char* s, raw_fraction<R> const& f)
  {
    add({s, 1, 0, static_cast<long long>(f.numerator), static_cast<long long>(f.denominator), 0});
  }
  template <class W, class F, class P> constexpr void put(const char* s, ieme::mixed_number<W, F, P> const& m)
  {
    add({s, 4, static_cast<long long>(m.whole()), static_cast<long long>(m.fractional().num()),
         static_cast<long long>(m.fractional().den()), 0});
  }
  template <class I> requires std::is_integral_v<I> constexpr void put(const char* s, I i)
  {
    add({s, 2, 0, static_cast<long long>(i), 0, 0});
  }
  template <class I> requires std::is_floating_point_v<I> constexpr void put(const char* s, I x) { add({s, 3, 0, 0, 0, x}); }
};

static bool same(Val const& a, Val const& b)
{
  return a.kind == b.kind && a.w == b.w && a.n == b.n && a.d == b.d && (a.f == b.f || (a.f != a.f && b.f != b.f))
         && !__builtin_signbit(a.f) == !__builtin_signbit(b.f);
}

static std::string text(Val const& v)
{
  char b[160];
  switch (v.kind)
  {
    case 1: snprintf(b, sizeof b, "%lld/%lld", v.n, v.d); break;
    case 2: snprintf(b, sizeof b, "%lld", v.n); break;
    case 3: snprintf(b, sizeof b, "%La", v.f); break;
    case 4: snprintf(b, sizeof b, "%lld & %lld/%lld", v.w, v.n, v.d); break;
    default: snprintf(b, sizeof b, "(nothing)");
  }
  return b;
}

// compare two records and count them
template <int N> static void agree(const char* what, Out<N> const& c, Out<N> const& r)
{
  mon::seen(uint64_t(r.n));
  if (c.n != r.n || c.n > N)
    mon::fail(what, "%s: %d results in constant evaluation, %d at run time", what, c.n, r.n);
  for (int i = 0; i < N && i < c.n && i < r.n; ++i)
  {
    const char* const nm = c.v[i].what ? c.v[i].what : what;
    if (!same(c.v[i], r.v[i]))
      mon::fail(nm, "%s: %s in a constant expression, %s at run time", nm, text(c.v[i]).c_str(), text(r.v[i]).c_str());
    if (c.v[i].what)
    {
      ++*mon::bucket("%s", c.v[i].what);
    }
  }
}

// ------------------------------------------------------------------ operands

struct Gen {
  uint64_t s;
  constexpr uint64_t u()
  {
    s += 0x9e3779b97f4a7c15ULL;
    uint64_t z = s;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
  }
  constexpr int below(int n) { return int(u() % uint64_t(n)); }
  constexpr i128 mag(Ri r)
  {
    int const b = 1 + below(r.bits);
    i128 const cap = b >= r.bits ? r.max : (i128(1) << b) - 1;
    switch (below(5))
    {
      case 0: return below(13);
      case 1: return cap - below(2);
      default: return i128(u() & 0x7fffffffffffffffULL) % (cap + 1);
    }
  }
  constexpr i128 sign(Ri r, i128 v, int percent) { return r.sg && below(100) < percent ? -v : v; }
};

struct Pair {
  long long an, ad, bn, bd, w;
  int k;
};

template <class R> constexpr Pair operands(uint64_t seed)
{
  Ri const r = ri<R>;
  Gen g {seed * 0x2545f4914f6cdd1dULL + 99};
  i128 an = g.mag(r), ad = g.mag(r), bn = g.mag(r), bd = g.mag(r);
  switch (g.below(8))
  {
    case 0:
    case 1: // small
      an %= 40, ad %= 40, bn %= 40, bd %= 40;
      break;
    case 2:
    case 3: // products that fit
    {
      i128 const h = (i128(1) << (r.bits / 2)) - 1;
      an %= h, ad %= h, bn %= h, bd %= h;
      break;
    }
    case 4: // a shared denominator factor
    {
      i128 const f = 1 + g.mag(r) % (r.max / 64), x = 1 + g.below(7), y = 1 + g.below(7);
      ad = f * x, bd = f * y;
      an %= r.max / 8, bn %= r.max / 8;
      break;
    }
    case 5: // the same value
      an %= 1000, ad %= 1000;
      bn = an * 3, bd = ad * 3;
      break;
    case 6: // undefined
      an %= 40, bn %= 40, ad %= 40, bd %= 40;
      (g.below(2) ? ad : bd) = 0;
      return {(long long)(g.sign(r, an, 40)), (long long)(ad), (long long)(g.sign(r, bn, 40)), (long long)(bd),
              (long long)(g.below(9)), g.below(9)};
    default: break;
  }
  if (!ad)
    ad = 1;
  if (!bd)
    bd = 1;
  // one draw per statement: the same operands with every compiler
  i128 const room = r.max / (g.below(2) ? 1 : ad);
  i128 const w = g.mag(r) % (room + 1);
  return {(long long)(g.sign(r, an, 45)), (long long)(g.sign(r, ad, 30)), (long long)(g.sign(r, bn, 45)),
          (long long)(g.sign(r, bd, 30)), (long long)(g.sign(r, w, 40)), g.below(40)};
}

// ------------------------------------------------------------------ what is computed

constexpr int NA = 150, NB = 110;

// arithmetic and comparisons of two operands
template <class R, class P>
constexpr Out<NA> binary_on(fraction<R, P> const& x, fraction<R, P> const& y, R const& w, Pair const& q)
{
  using X = fraction<R, P>;
  constexpr Ri r = ri<R>;
  constexpr Pol p = pol<P>::d;
  Fr const a {q.an, q.ad}, b {q.bn, q.bd}, ww {q.w, 1};
  Out<NA> o;
  Fr v {0, 0};
  // undefined operands are made with small components, so always in the domain
  bool const u = q.ad == 0 || q.bd == 0;
  auto const in = [&](Op op, Fr l, bool lw, Fr m, bool mw) {
    if (op == DIV && m.n == 0)
      return false;
    bool const k = u ? (r.sg || op != SUB) : domain(p, op, l, lw, m, mw, r, v);
    o.skipped += !k;
    return k;
  };
#define BIN(OP, SYM, SYMEQ)                                                                                            \
  if (in(OP, a, false, b, false))                                                                                      \
  {                                                                                                                    \
    o.put("fraction " #SYM " fraction", x SYM y);                                                                      \
    X t = x;                                                                                                           \
    t SYMEQ y;                                                                                                         \
    o.put("fraction " #SYMEQ " fraction", t);                                                                          \
  }                                                                                                                    \
  if (in(OP, a, false, ww, true))                                                                                      \
  {                                                                                                                    \
    o.put("fraction " #SYM " whole", x SYM w);                                                                         \
    X t = x;                                                                                                           \
    t SYMEQ w;                                                                                                         \
    o.put("fraction " #SYMEQ " whole", t);                                                                             \
  }
#define BINW(OP, SYM)                                                                                                  \
  if (in(OP, ww, true, b, false))                                                                                      \
    o.put("whole " #SYM " fraction", w SYM y);
  BIN(ADD, +, +=)
  BINW(ADD, +)
  BIN(SUB, -, -=)
  BINW(SUB, -)
  BIN(MUL, *, *=)
  BINW(MUL, *)
  BIN(DIV, /, /=)
  BINW(DIV, /)
  BIN(MOD, %, %=)
  BINW(MOD, %)
#define REL(SYM)                                                                                                       \
  if (in(CMP, a, false, b, false))                                                                                     \
    o.put("fraction " #SYM " fraction", x SYM y);                                                                      \
  if (in(CMP, a, false, ww, true))                                                                                     \
    o.put("fraction " #SYM " whole", x SYM w);                                                                         \
  if (in(CMP, ww, true, b, false))                                                                                     \
    o.put("whole " #SYM " fraction", w SYM y);
  REL(==)
  REL(!=)
  REL(<)
  REL(<=)
  REL(>)
  REL(>=)
  if (!u && !o.skipped && domain(p, ADD, a, false, b, false, r, v) && domain(p, MUL, v, false, b, false, r, v))
    o.put("chain of operators", (x + y) * y);
  return o;
}

template <class R, class P> constexpr fraction<R, P> first(Pair const& q)
{
  return {static_cast<R>(q.an), static_cast<R>(q.ad)};
}
template <class R, class P> constexpr fraction<R, P> second(Pair const& q)
{
  return {static_cast<R>(q.bn), static_cast<R>(q.bd)};
}

template <class R, class P> constexpr Out<NA> binary(Pair q)
{
  return binary_on<R, P>(first<R, P>(q), second<R, P>(q), static_cast<R>(q.w), q);
}

// everything about one operand
template <class R, class P, bool Literals = true>
constexpr Out<NB> unary_on(fraction<R, P> const& x, fraction<R, P> const& y, Pair const& q)
{
  using namespace ieme;
  using X = fraction<R, P>;
  constexpr Ri r = ri<R>;
  Fr const a {q.an, q.ad};
  bool const def = q.ad != 0;
  Out<NB> o;
  raw_fraction<R> const X0 = x.raw();
  // construction and conversion
  o.put("default construction", X());
  o.put("construction", x);
  o.put("raw()", X0);
  o.put("construction from raw", X(X0));
  o.put("construction from whole", X(static_cast<R>(q.an)));
  o.put("construction from ratio", X(std::ratio<3, 7>()));
  o.put("conversion to another policy", fraction<R, ops::fast_reduced_o>(x));
  if constexpr (r.bits <= 31)
    o.put("conversion to a wider type", fraction<long, P>(x));
  {
    X t;
    t = x;
    o.put("copy assignment", t);
    t.numerator() = static_cast<R>(5);
    t.den() = static_cast<R>(9);
    o.put("assignment through accessors", t);
    t = static_cast<R>(3);
    o.put("assignment of a whole", t);
  }
  // queries
#define Q(f)                                                                                                           \
  o.put(#f, f(x));                                                                                                     \
  o.put("raw " #f, f(X0));
  Q(is_defined)
  Q(is_undefined)
  Q(is_positive)
  Q(is_negative)
  Q(is_zero)
  Q(is_non_negative)
  Q(is_non_positive)
  Q(is_integer)
  Q(is_unit_fraction)
  Q(is_reduced)
  Q(is_reduced_ignore_signs)
  if (def)
  {
    Q(is_proper)
    Q(is_improper)
  }
  o.put("are_identical", are_identical(x, y));
  o.put("are_different", are_different(x, y));
  o.put("raw are_identical", are_identical(X0, y.raw()));
  // reduction, signs
  o.put("unary plus", +x);
  if (r.sg)
    o.put("negation", -x);
  o.put("reduce", reduce(x));
  o.put("reduce(ignore_signs)", reduce(x, reduce_mode::ignore_signs));
  o.put("reduce(normalize_signs)", reduce(x, reduce_mode::normalize_signs));
  o.put("reduce_normalize_signs", reduce_normalize_signs(x));
  o.put("reduce_ignore_signs", reduce_ignore_signs(x));
  o.put("raw reduce", reduce(X0));
  o.put("raw reduce_ignore_signs", reduce_ignore_signs(X0));
  o.put("normalize_signs", normalize_signs(x));
  o.put("raw normalize_signs", normalize_signs(X0));
  o.put("reciprocal", reciprocal(x));
  o.put("raw reciprocal", reciprocal(X0));
  o.put("abs", abs(x));
  // rounding
  if (def)
  {
    i128 const fl = floordiv(a.d < 0 ? -a.n : a.n, iabs(a.d));
    if (within(fl, r) && within(fl + 1, r))
    {
      o.put("trunc", trunc(x));
      o.put("floor", floor(x));
      o.put("ceil", ceil(x));
      o.put("round", round(x));
      o.put("to_whole", to_whole(x));
      o.put("to_whole(trunc)", to_whole(x, round_mode::trunc));
      o.put("to_whole(floor)", to_whole(x, round_mode::floor));
      o.put("to_whole(ceil)", to_whole(x, round_mode::ceil));
    }
    i128 t = 0;
    i128 const den = q.bd == 0 ? 7 : i128(q.bd) % 1000 + (i128(q.bd) % 1000 == 0);
    if (mulw(a.n, den, t, r) && iabs(t) < r.max)
    {
      R const d = static_cast<R>(den);
      o.put("redenominate", redenominate(x, d));
      o.put("redenominate(trunc)", redenominate(x, d, round_mode::trunc));
      o.put("redenominate(floor)", redenominate(x, d, round_mode::floor));
      o.put("redenominate(ceil)", redenominate(x, d, round_mode::ceil));
      o.put("trunc_redenominate", trunc_redenominate(x, d));
      o.put("ceil_redenominate", ceil_redenominate(x, d));
      o.put("floor_redenominate", floor_redenominate(x, d));
      o.put("round_redenominate", round_redenominate(x, d));
    }
    o.put("to_float", to_float(x));
    o.put("to_double", to_double(x));
    o.put("to_long_double", to_long_double(x));
  }
  // powers
  int const e = q.k % r.bits;
  o.put("pow2", pow2<R, P>(e));
  o.put("pow2 negative", pow2<R, P>(-e));
  {
    i128 v = 1;
    R const base = static_cast<R>(r.sg ? q.k % 11 - 5 : q.k % 6);
    int n = 0;
    while (n < q.k && mulw(v, base ? i128(base) : 1, v, r))
      ++n;
    o.put("pow", pow<R, P>(base, n));
    o.put("pow negative", pow<R, P>(base, -n));
    o.put("pow zero", pow<R, P>(base, 0));
  }
  // literals
  if constexpr (Literals && std::is_same_v<P, ops::defaults>)
  {
    R const n = static_cast<R>(q.an);
    o.put("literal", n / 7_fr);
    o.put("literal +", n / +9_fr);
    if (r.sg)
      o.put("literal -", n / -9_fr);
    o.put("0.759_dec", 0.759_dec);
    o.put("0x1.8p1_dec", 0x1.8p1_dec);
  }
  // limits
  using L = limits<X>;
  using N = std::numeric_limits<X>;
  o.put("limits::min", L::min());
  o.put("limits::max", L::max());
  o.put("limits::smallest", L::smallest());
  o.put("limits::undefined", L::undefined());
  o.put("numeric_limits::lowest", N::lowest());
  o.put("numeric_limits::epsilon", N::epsilon());
  o.put("numeric_limits::quiet_NaN", N::quiet_NaN());
  using ML = limits<mixed_number<R, R, P>>;
  o.put("limits<mixed>::max", ML::max());
  o.put("limits<mixed>::undefined", ML::undefined());
  return o;
}

template <class R, class P, bool Literals = true> constexpr Out<NB> unary(Pair q)
{
  return unary_on<R, P, Literals>(first<R, P>(q), second<R, P>(q), q);
}
template <class R, class P> constexpr Out<NB> unary_no_literals(Pair q) { return unary<R, P, false>(q); }

constexpr int NC = 40;

template <class R, class P> constexpr Out<NC> mixed(Pair q)
{
  using namespace ieme;
  using X = fraction<R, P>;
  using M = mixed_number<R, R, P>;
  constexpr Ri r = ri<R>;
  Out<NC> o;
  R const w = static_cast<R>(q.w % 1000), v = static_cast<R>(q.k);
  auto const nz = [](long long d) { return d ? d : 1; };
  X const f {static_cast<R>(q.an % 100), static_cast<R>(nz(q.ad % 100))}, g {static_cast<R>(q.bn % 100), static_cast<R>(nz(q.bd % 100))};
  bool const u = q.ad == 0;
  o.put("mixed()", M());
  // an unsigned mixed number of two parts has no negative intermediate
  M const m(w, f), n(v, g), k(f), s(static_cast<R>(4));
  o.put("mixed(whole, fraction)", m);
  o.put("mixed(whole, fraction)", n);
  o.put("mixed(fraction)", k);
  o.put("mixed(whole)", s);
  o.put("whole()", k.whole());
  o.put("fractional()", k.fractional());
  o.put("as_fraction", m.as_fraction());
  o.put("conversion to fraction", X(k));
  if (r.sg)
    o.put("mixed negation", -m);
  o.put("mixed unary plus", +m);
  o.put("mixed + mixed", m + n);
  o.put("mixed + fraction", m + g);
  o.put("fraction + mixed", g + m);
  o.put("mixed + whole", m + w);
  o.put("whole + mixed", w + m);
  M const e {fraction<R, ops::fast_reduced_io>(f)};
  o.put("mixed from another policy", e);
  if (u)
  {
    X const z {static_cast<R>(q.an % 30), static_cast<R>(0)};
    M const y(z), t(w, z);
    o.put("undefined mixed", y);
    o.put("undefined mixed with whole", t);
    o.put("undefined mixed + mixed", y + n);
    o.put("undefined mixed as fraction", t.as_fraction());
  }
  // durations
  if constexpr (r.bits >= 31 && r.sg)
  {
    namespace fc = ieme::chrono;
    using S = fc::duration<R, std::ratio<1>, P>;
    using T = fc::duration<R, std::milli, P>;
    X const c(static_cast<R>(q.k * 3 + 1), static_cast<R>(4));
    S const a {c};
    T const b = a;
    o.put("seconds in milliseconds", b.count());
    o.put("milliseconds in seconds", S(T(c)).count());
    o.put("sum of durations", (a + T(c)).count());
    o.put("comparison of durations", a < T(c));
    S const i = std::chrono::duration<R, std::ratio<60>>(static_cast<R>(q.k));
    o.put("whole minutes in seconds", i.count());
  }
  return o;
}

template <class R, class P> constexpr Out<4> parsed(std::string_view s)
{
  Out<4> o;
  o.put("floating_point_string_to_fraction", ieme::floating_point_string_to_fraction<R, P>(s));
  return o;
}

// ------------------------------------------------------------------ strings

constexpr std::string_view texts[] = {
  "0.0", "1.0", ".5", "5.", "0.25", "12.5", "1e2", "1E2", "1e+2", "25e-2", "1.5e1", "1.5e-1", "0.1e1", "0x1p0", "0x1.8p1",
  "0X1.8P1", "0x.8p0", "0x8.p-1", "0xAp1", "0xa.cp+1", "1'000.5", "1'2'3.4", "0.0'5", "0x1'0.8p1", "00012.50", "0.000", "3.0e0",
  "7.e1", ".7e1", "99.99", "0e0", "0.5e-0", "0x0p0", "0x0.0p0", "2.5e-3", "1'0e1'0x",
  // malformed
  "", "1", "12", "+1.0", "-1.0", " 1.0", "1.0 ", "1..0", "1.0.0", "e1", ".e1", "1e", "1e+", "1.0e-", "0x1.8", "0x", "0x.p1",
  "1'", "'1.0", "1'.0", "1.'0", "1.0'", "1''0.0", "1.0f", "0x1.8e1", "0xg.8p1", "1p1", "1.0p1", ".", "'", "\0"sv, "1.0\0"sv,
  "1,0", "0b1.0", "nan", "inf", "1.0e1.0", "1.0e'1", "1e1'", "0x1p", "0x1p+", "0x1pA", "\xff\xfe", "1.\xe9"};
constexpr int NT = sizeof texts / sizeof texts[0];

struct Text {
  char c[24] {};
  int n = 0;
  constexpr void push(char x) { c[n++] = x; }
  constexpr operator std::string_view() const { return {c, size_t(n)}; }
};

// a well-formed literal small enough for every type of at least 31 digits under
// every policy, then perhaps damaged
constexpr Text make_text(uint64_t seed)
{
  Gen g {seed * 77777 + 5};
  Text t;
  bool const hex = g.below(3) == 0;
  if (hex)
  {
    t.push('0');
    t.push(g.below(2) ? 'x' : 'X');
  }
  auto const digits = [&](int n, bool h) {
    for (int i = 0; i < n; ++i)
    {
      int const d = g.below(h ? 16 : 10);
      t.push(d < 10 ? char('0' + d) : char((g.below(2) ? 'a' : 'A') + d - 10));
      if (i + 1 < n && g.below(6) == 0)
        t.push('\'');
    }
  };
  int const form = g.below(4);
  if (form != 0)
    digits(1 + g.below(2), hex);
  if (form != 1)
    t.push('.');
  if (form == 0 || form == 2)
    digits(1 + g.below(hex ? 2 : 3), hex);
  if (hex || form == 1 || g.below(2))
  {
    t.push(hex ? (g.below(2) ? 'p' : 'P') : g.below(2) ? 'e' : 'E');
    int const sg = g.below(3);
    if (sg)
      t.push(sg == 1 ? '+' : '-');
    t.push(char('0' + g.below(hex ? 6 : 3)));
  }
  if (g.below(5) == 0 && t.n > 1)
  {
    int const i = g.below(t.n);
    static_assert(sizeof(t.c) > 20);
    constexpr char bad[] = {'.', '\'', '+', ' ', 'x', 'z'}; // no new exponents: they could leave the domain
    t.c[i] = bad[g.below(6)];
  }
  return t;
}

// ------------------------------------------------------------------ digests

// folded into one number per stream of results, for comparison across builds
struct Digest {
  uint64_t h = 0x9e3779b97f4a7c15ULL;
  uint64_t n = 0;
  void word(uint64_t w) { h = mon::mix(h ^ w) + 0x632be59bd9b4e019ULL; }
  template <int N> void add(Out<N> const& o)
  {
    word(uint64_t(o.n));
    for (int i = 0; i < o.n && i < N; ++i)
    {
      Val const& v = o.v[size_t(i)];
      word(uint64_t(v.kind));
      word(uint64_t(v.w));
      word(uint64_t(v.n));
      word(uint64_t(v.d));
      if (v.kind == 3)
      {
        if (v.f != v.f)
          word(0x7ff8);
        else
        {
          int e = 0;
          long double const m = __builtin_frexpl(v.f, &e);
          word(uint64_t(int64_t(__builtin_ldexpl(m, 63))));
          word(uint64_t(e));
          word(__builtin_signbit(v.f) != 0);
        }
      }
      ++n;
    }
  }
  // published as the name of a bucket; run.py compares equal names before " = "
  void publish(const char* a, const char* b, const char* c) const
  {
    *mon::bucket("digest of %s %s %s = %016llx", a, b, c, (unsigned long long)h) += n;
  }
};

template <class T> __attribute__((noinline)) static T launder(T const& t)
{
  T c = t;
  __asm__ volatile("" : : "r"(&c) : "memory");
  return c;
}

#endif
