// C29: every operation makes do with its operands: a bounded number of steps, a
// small stack, no heap, no other state of the process.
//
// The whole executable is compiled with coverage callbacks: each basic block
// entered is counted and the stack pointer is noted; malloc and its relatives
// are interposed.  The counters are read around each single call.
#include "frac.hpp"

#include <ieme/chrono.hpp>
#include <ieme/mixed_number.hpp>

#include <array>
#include <cerrno>
#include <cfenv>
#include <climits>
#include <clocale>
#include <cstring>
#include <locale>
#include <string>

using namespace fx;

// ---------------------------------------------------------------- the meters

#ifdef __clang__
#define NOCOV __attribute__((no_sanitize("coverage"), noinline, used))
#else
#define NOCOV __attribute__((no_sanitize_coverage, noinline, used))
#endif

static volatile uint64_t steps, allocations, ceiling = ~uint64_t(0);
static volatile uintptr_t lowest_frame;

// a call that is far beyond its limit is not waited for
static NOCOV void runaway()
{
  ceiling = ~uint64_t(0);
  mon::fail("runaway", "a call has taken a hundred times the expected number of steps and goes on");
  mon::stop_now();
}

extern "C" NOCOV void __sanitizer_cov_trace_pc()
{
  steps = steps + 1;
  if (steps > ceiling)
    runaway();
  uintptr_t const f = reinterpret_cast<uintptr_t>(__builtin_frame_address(0));
  if (f < lowest_frame)
    lowest_frame = f;
}

extern "C" {
void* __libc_malloc(size_t);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
NOCOV void* malloc(size_t n)
{
  allocations = allocations + 1;
  return __libc_malloc(n);
}
NOCOV void* calloc(size_t a, size_t b)
{
  allocations = allocations + 1;
  return __libc_calloc(a, b);
}
NOCOV void* realloc(void* p, size_t n)
{
  allocations = allocations + 1;
  return __libc_realloc(p, n);
}
NOCOV void* aligned_alloc(size_t a, size_t n)
{
  allocations = allocations + 1;
  return __libc_memalign(a, n);
}
}

static constexpr uint64_t stack_limit = 64 * 1024;

// what the widest of the operations needs, with room for another way to write it
static uint64_t step_limit(int bits) { return 100u * uint64_t(bits) + 2000; }

template <class F>
static __attribute__((noinline)) auto metered(const char* name, uint64_t limit, bool text, F&& f, bool judge_errno = true)
{
  int const sentinel = 7777;
  errno = sentinel;
  lowest_frame = ~uintptr_t(0);
  uint64_t const s0 = steps, a0 = allocations;
  ceiling = s0 + limit * 100;
  asm volatile("" : : : "memory");
  auto r = f();
  asm volatile("" : : "r"(&r) : "memory");
  uint64_t const s = steps - s0, a = allocations - a0;
  ceiling = ~uint64_t(0);
  uintptr_t const low = lowest_frame, here = reinterpret_cast<uintptr_t>(__builtin_frame_address(0));
  int const err = errno;
  mon::seen(4);
  if (a)
    mon::fail(name, "%s allocates from the heap (%llu times)", name, (unsigned long long)a);
  if (s > limit)
    mon::fail(name, "%s takes %llu steps, at most %llu are expected for operands of this width", name,
              (unsigned long long)s, (unsigned long long)limit);
  uint64_t const depth = low < here ? here - low : 0;
  if (depth > stack_limit)
    mon::fail(name, "%s uses %llu bytes of stack", name, (unsigned long long)depth);
  if (judge_errno && err != sentinel)
    mon::fail(name, "%s changes errno", name);
  static uint64_t* const most = mon::bucket("most steps of any call");
  static uint64_t* const deep = mon::bucket("deepest stack of any call (bytes)");
  static uint64_t* const bk = mon::bucket("calls metered");
  if (!text && s > *most)
    *most = s;
  if (depth > *deep)
    *deep = depth;
  ++*bk;
  return r;
}

template <class R, class P> struct Calls {
  static constexpr Ri r = ri<R>;
  using F = fraction<R, P>;
  static uint64_t lim() { return step_limit(r.bits); }

  template <class Do> static void
  two(const char* name, Op op, Fr a, bool aw, Fr b, bool bw, Do&& run)
  {
    Fr want;
    bool const undefined = a.d == 0 || b.d == 0 || ((op == DIV || op == MOD) && b.n == 0);
    if (undefined)
    {
      auto const big = [](Fr f) { return iabs(f.n) > iabs(f.d) ? iabs(f.n) : iabs(f.d); };
      if (big(a) * big(b) > r.max)
        return mon::ood();
    }
    else if (!domain(pol<P>::d, op, a, aw, b, bw, r, want))
      return mon::ood();
    mon::begin(name, pol<P>::s, type_name<R>::s, nullptr, a.n, a.d, b.n, b.d);
    metered(name, lim(), false, run);
    mon::done();
  }

  static void pair(Fr a, Fr b)
  {
    F const x = mk<R, P>(a), y = mk<R, P>(b);
    two("frac+frac", ADD, a, false, b, false, [&] { return x + y; });
    two("frac-frac", SUB, a, false, b, false, [&] { return x - y; });
    two("frac*frac", MUL, a, false, b, false, [&] { return x * y; });
    two("frac/frac", DIV, a, false, b, false, [&] { return x / y; });
    two("frac%frac", MOD, a, false, b, false, [&] { return x % y; });
    two("frac==frac", CMP, a, false, b, false, [&] { return x == y; });
    two("frac!=frac", CMP, a, false, b, false, [&] { return x != y; });
    two("frac<frac", CMP, a, false, b, false, [&] { return x < y; });
    two("frac<=frac", CMP, a, false, b, false, [&] { return x <= y; });
    two("frac>frac", CMP, a, false, b, false, [&] { return x > y; });
    two("frac>=frac", CMP, a, false, b, false, [&] { return x >= y; });
    F z = x;
    two("frac+=frac", ADD, a, false, b, false, [&] { return z += y; });
    z = x;
    two("frac-=frac", SUB, a, false, b, false, [&] { return z -= y; });
    z = x;
    two("frac*=frac", MUL, a, false, b, false, [&] { return z *= y; });
    z = x;
    two("frac/=frac", DIV, a, false, b, false, [&] { return z /= y; });
    z = x;
    two("frac%=frac", MOD, a, false, b, false, [&] { return z %= y; });
    R const v = static_cast<R>(b.n);
    Fr const w {b.n, 1};
    two("frac+whole", ADD, a, false, w, true, [&] { return x + v; });
    two("frac-whole", SUB, a, false, w, true, [&] { return x - v; });
    two("frac*whole", MUL, a, false, w, true, [&] { return x * v; });
    two("frac/whole", DIV, a, false, w, true, [&] { return x / v; });
    two("frac%whole", MOD, a, false, w, true, [&] { return x % v; });
    two("frac<whole", CMP, a, false, w, true, [&] { return x < v; });
    two("frac==whole", CMP, a, false, w, true, [&] { return x == v; });
    two("whole-frac", SUB, w, true, a, false, [&] { return v - x; });
    two("whole/frac", DIV, w, true, a, false, [&] { return v / x; });
    two("whole%frac", MOD, w, true, a, false, [&] { return v % x; });
    two("whole<=frac", CMP, w, true, a, false, [&] { return v <= x; });
  }

  template <class Do> static void one(const char* name, Fr a, Do&& run)
  {
    mon::begin(name, pol<P>::s, type_name<R>::s, nullptr, a.n, a.d);
    metered(name, lim(), false, run);
    mon::done();
  }

  static void single(Fr a, i128 d)
  {
    F const x = mk<R, P>(a);
    auto const raw = x.raw();
    if constexpr (r.sg)
    {
      one("negate", a, [&] { return -x; });
      one("abs", a, [&] { return abs(x); });
      one("normalize_signs", a, [&] { return normalize_signs(x); });
    }
    one("reciprocal", a, [&] { return reciprocal(x); });
    one("reduce", a, [&] { return reduce(x); });
    one("reduce ignore_signs", a, [&] { return reduce(x, reduce_mode::ignore_signs); });
    one("reduce raw", a, [&] { return reduce(raw); });
    one("queries", a, [&] {
      return int(is_defined(x)) + int(is_undefined(x)) * 2 + int(is_positive(x)) * 4 + int(is_negative(x)) * 8
             + int(is_zero(x)) * 16 + int(is_integer(x)) * 32 + int(is_unit_fraction(x)) * 64 + int(is_reduced(x)) * 128
             + int(is_non_negative(x)) * 256 + int(is_non_positive(x)) * 512;
    });
    one("to_float", a, [&] { return to_float(x); });
    one("to_double", a, [&] { return to_double(x); });
    one("to_long_double", a, [&] { return to_long_double(x); });
    one("hash", a, [&] { return std::hash<F>()(x); });
    one("hash raw", a, [&] { return ieme::hash(raw); });
    one("copy", a, [&] { return F(x); });
    one("conversion", a, [&] { return fraction<long long, ops::fast>(x); });
    if (a.d == 0)
      return;
    one("trunc", a, [&] { return trunc(x); });
    one("floor", a, [&] { return floor(x); });
    one("ceil", a, [&] { return ceil(x); });
    one("round", a, [&] { return round(x); });
    one("is_proper", a, [&] { return is_proper(x); });
    i128 p;
    if (d != 0 && mulw(iabs(a.n), iabs(d), p, r))
    {
      R const nd = static_cast<R>(d);
      one("redenominate", a, [&] { return redenominate(x, nd); });
      one("trunc_redenominate", a, [&] { return trunc_redenominate(x, nd); });
      one("floor_redenominate", a, [&] { return floor_redenominate(x, nd); });
      one("ceil_redenominate", a, [&] { return ceil_redenominate(x, nd); });
    }
    if (iabs(a.n) < (i128(1) << (r.bits / 4)) && iabs(a.d) < (i128(1) << (r.bits / 4)))
    {
      using M = ieme::mixed_number<R, R, P>;
      one("mixed number", a, [&] { return M(x); });
      M const m(x);
      one("mixed number to fraction", a, [&] { return F(m); });
      one("mixed+mixed", a, [&] { return m + m; });
      one("mixed+frac", a, [&] { return m + x; });
      one("mixed+whole", a, [&] { return m + R(1); });
      if constexpr (r.sg)
        one("-mixed", a, [&] { return -m; });
      one("hash of a mixed number", a, [&] { return ieme::hash(m); });
    }
  }

  static void powers(int e)
  {
    auto go = [&](i128 b) {
      mon::begin("pow", pol<P>::s, type_name<R>::s, nullptr, b, e);
      metered("pow", lim(), false, [&] { return ieme::pow<R, P>(static_cast<R>(b), e); });
      mon::done();
    };
    unsigned const m = e < 0 ? 0u - unsigned(e) : unsigned(e);
    if (i128(m) > r.max)
      return mon::ood();
    go(1);
    if (e >= 0)
      go(0);
    if (r.sg)
      go(-1);
    if (m < unsigned(r.bits))
    {
      go(2);
      mon::begin("pow2", pol<P>::s, type_name<R>::s, nullptr, e);
      metered("pow2", lim(), false, [&] { return ieme::pow2<R, P>(e); });
      mon::done();
    }
    if (m < unsigned(r.bits) / 4)
      go(10);
  }

  template <class T> static void from(T v, uint64_t bits)
  {
    mon::begin("to_fraction", pol<P>::s, type_name<R>::s, sizeof(T) == 4 ? "float" : "double", i128(bits));
    // a value out of range may well be noticed by way of errno
    T const m = v < 0 ? -v : v;
    metered("to_fraction", step_limit(64), false, [&] { return ieme::to_fraction<R, P>(v); }, m == 0 || (m > T(1e-6) && m < T(1e6)));
    mon::done();
  }

  static void parse(std::string const& s, const char* kind)
  {
    mon::begin("floating_point_string_to_fraction", pol<P>::s, type_name<R>::s, kind, i128(s.size()));
    std::string_view const v = s;
    // some passes over the text: in proportion to its length
    metered("floating_point_string_to_fraction", lim() + 400 * s.size(), true,
            [&] { return ieme::floating_point_string_to_fraction<R, P>(v); });
    mon::done();
    static uint64_t* const bk = mon::bucket("characters parsed");
    *bk += s.size();
  }
};

// ---------------------------------------------------------------- workloads

// the operands that keep an algorithm busiest
template <class F> static void hard_pairs(Ri r, F f)
{
  // consecutive Fibonacci numbers, powers of two against powers of three,
  // a huge component against a tiny one
  for (i128 p = 1, q = 2; q <= r.max; q += p, p = q - p)
  {
    f(p, q);
    f(q, p);
    i128 const k = r.max / q;
    f(p * k, q * k);
  }
  for (i128 a = 1; a <= r.max; a *= 2)
    for (i128 b = 1; b <= r.max; b *= 3)
      f(a, b);
  for (i128 t : {i128(1), i128(2), i128(3), i128(7), i128(1000003)})
    for (i128 k : {i128(0), i128(1), i128(2), i128(3)})
    {
      f(t, r.max - k);
      f(r.max - k, t);
      f(r.max / 2 - k, r.max - k);
      f((r.max - k) / 2 * 2, 2 * t);
    }
}

template <class R, class Ps> static void go(mon::Env& e, double weight)
{
  Ri const r = ri<R>;
  std::vector<Fr> hard;
  hard_pairs(r, [&](i128 n, i128 d) {
    if (within(n, r) && within(d, r))
    {
      hard.push_back({n, d});
      if (r.sg)
      {
        hard.push_back({-n, d});
        hard.push_back({n, -d});
      }
    }
  });
  for (Fr const& f : hard)
    each(Ps {}, [&]<class P>() { Calls<R, P>::single(f, f.d / 2 + 1); });
  each_landmark(r, true, [&](Fr f) { each(Ps {}, [&]<class P>() { Calls<R, P>::single(f, f.d); }); });
  each_landmark_pair(e, r, r, [&](Fr a, Fr b) { each(Ps {}, [&]<class P>() { Calls<R, P>::pair(a, b); }); }, true);
  uint64_t const n = uint64_t(double(e.count(6000, 1000000)) * weight);
  for (uint64_t i = 0; e.go(i, n); ++i)
  {
    auto& g = e.rng;
    Fr a, b;
    g.chance(60) ? gen_pair(g, r, a, b) : gen_pair_mul(g, r, a, b);
    if (g.chance(40))
      a = hard[g.below(hard.size())];
    if (g.chance(40))
    {
      b = hard[g.below(hard.size())];
      if (g.chance(50))
        b.d = a.d;
    }
    a = clampfr(a, r);
    b = clampfr(b, r);
    each(Ps {}, [&]<class P>() {
      Calls<R, P>::pair(a, b);
      Calls<R, P>::single(a, b.n);
    });
  }
  static const int ext[] = {INT_MAX, INT_MAX - 1, INT_MIN + 1, 1 << 30, -(1 << 30), 0x55555555, -0x55555555, 65535, -65536, 1000003};
  for (int x : ext)
    each(Ps {}, [&]<class P>() { Calls<R, P>::powers(x); });
  for (int x = -80; x <= 80; ++x)
    each(Ps {}, [&]<class P>() { Calls<R, P>::powers(x); });
  // every exponent of float and double, with easy and busy significands
  for (unsigned s = 0; s < 2; ++s)
  {
    for (unsigned x = 0; x < 256; ++x)
      for (unsigned m : {0u, 1u, 0x400000u, 0x7fffffu, 0x2aaaaau})
      {
        uint32_t const u = s << 31 | x << 23 | m;
        float v;
        memcpy(&v, &u, sizeof v);
        each(Ps {}, [&]<class P>() { Calls<R, P>::from(v, u); });
      }
    for (unsigned x = 0; x < 2048; ++x)
      for (uint64_t m : {0ull, 1ull, 1ull << 51, (1ull << 52) - 1, 0x5555555555555ull})
      {
        uint64_t const u = uint64_t(s) << 63 | uint64_t(x) << 52 | m;
        double v;
        memcpy(&v, &u, sizeof v);
        each(Ps {}, [&]<class P>() { Calls<R, P>::from(v, u); });
      }
  }
}

template <class R, class Ps> static void texts(mon::Env& e)
{
  auto all = [&](std::string const& s, const char* kind) { each(Ps {}, [&]<class P>() { Calls<R, P>::parse(s, kind); }); };
  std::string const big(size_t(e.thorough ? 20000 : 3000), '0'), sep = [&] {
    std::string t;
    for (size_t i = 0; i < big.size() / 2; ++i)
      t += i ? "'0" : "0";
    return t;
  }();
  for (std::string const& z : {std::string(), std::string("0"), std::string(12, '0'), std::string(24, '0'), std::string(200, '0'), big, sep})
  {
    std::string const p = z;
    all(p + "1.5", "leading zeros");
    all(p + "12'3.25", "leading zeros, separators");
    all(p + "1e" + p + "1", "leading zeros of whole and exponent");
    all(p + "1.5e-" + p + "1", "leading zeros of whole and exponent");
    all("0x" + p + "1p" + p + "1", "hexadecimal, leading zeros");
    all("0x" + p + "f.8p+" + p + "1", "hexadecimal, leading zeros");
    all(p, "malformed: zeros only");
    all(p + "1.5x", "malformed: trailing character");
    all(p + "'", "malformed: trailing separator");
    all(p + "1..5", "malformed: two points");
    all(p + "1.5e", "malformed: no exponent");
    all("0x" + p + "1.8", "malformed: no exponent");
    all(std::string(p.size(), '.'), "malformed: points");
    all(std::string(p.size(), 'e'), "malformed: e");
    all(std::string(p.size(), '\''), "malformed: separators");
    all(std::string(p.size(), 'x') + "1.5", "malformed: letters");
    all(std::string(p.size(), ' ') + "1.5", "malformed: blanks");
  }
  for (uint64_t i = 0; e.go(i, e.count(10000, 1000000)); ++i)
  {
    auto& g = e.rng;
    std::string s;
    int const n = g.range(0, g.chance(10) ? 300 : 30);
    static const char c[] = "00000123456789abcdefxXpPeE.''+- ";
    for (int k = 0; k < n; ++k)
      s += c[g.below(sizeof c - 1)];
    // without values that do not fit: at most two digits that are not zero
    int digits = 0;
    for (char& x : s)
      if (((x >= '1' && x <= '9') || (x >= 'a' && x <= 'd') || x == 'f') && ++digits > 2)
        x = '0';
    size_t const dot = s.find('.'), ex = s.find_first_of("eEpP");
    if (dot != s.npos && (ex == s.npos ? s.size() : ex) - dot > 6)
      continue;
    if (ex != s.npos && s.find_first_of("123456789abcdf", ex) != s.npos)
      continue;
    all(s, "generated");
  }
}

// a locale in which numbers look different
struct Punct : std::numpunct<char> {
  char do_decimal_point() const override { return ','; }
  char do_thousands_sep() const override { return '.'; }
  std::string do_grouping() const override { return "\1"; }
};

template <class R> static void locale_independent()
{
  struct {
    const char* t;
    long n, d;
  } const cases[] = {{"1.5", 3, 2}, {"12'3.25", 493, 4}, {"0x1.8p1", 3, 1}, {"2.5e-1", 1, 4}, {"1,5", 0, 0}, {"1.234,5", 0, 0}};
  for (auto const& c : cases)
  {
    mon::begin("text under another locale", nullptr, type_name<R>::s, c.t);
    auto const f = ieme::floating_point_string_to_fraction<R>(c.t);
    mon::seen();
    if (c.d ? !(f == fraction<R>(R(c.n), R(c.d))) : is_defined(f))
      mon::fail("text under another locale", "'%s' is read as %s", c.t, sh(get(f)).c_str());
    mon::done();
  }
}

template <class R, class P> static void sizes()
{
  mon::begin("size", pol<P>::s, type_name<R>::s, nullptr);
  mon::seen(3);
  struct Three {
    R a, b, c;
  };
  if (sizeof(raw_fraction<R>) != 2 * sizeof(R))
    mon::fail("size", "a raw fraction has %zu bytes", sizeof(raw_fraction<R>));
  if (sizeof(fraction<R, P>) != 2 * sizeof(R))
    mon::fail("size", "a fraction has %zu bytes", sizeof(fraction<R, P>));
  if (sizeof(ieme::mixed_number<R, R, P>) != sizeof(Three))
    mon::fail("size", "a mixed number has %zu bytes", sizeof(ieme::mixed_number<R, R, P>));
  mon::done();
}

// none of the operations can throw, and says so
template <class R, class P> static void never_throws()
{
  using F = fraction<R, P>;
  using M = ieme::mixed_number<R, R, P>;
  mon::begin("noexcept", pol<P>::s, type_name<R>::s, nullptr);
  auto nx = [](const char* what, bool b) {
    mon::seen();
    if (!b)
      mon::fail("noexcept", "%s is not noexcept", what);
  };
#define NX(...) nx(#__VA_ARGS__, noexcept(__VA_ARGS__))
  F f(R(1), R(2)), g = f;
  F const c = f;
  raw_fraction<R> w(R(1), R(2));
  M m(R(1), f), n = m;
  M const k = m;
  R const v = R(3);
  NX(F()), NX(F(v)), NX(F(v, v)), NX(F(w)), NX(F(c)), NX(F(std::move(g))), NX(f = c), NX(f = v), NX(fraction<long long, P>(c));
  NX(raw_fraction<R>()), NX(raw_fraction<R>(v, v)), NX(raw_fraction<long long>(w));
  if constexpr (ri<R>.sg)
    nx("-c", noexcept(-c)), nx("-k", noexcept(-k)), nx("abs(c)", noexcept(abs(c))), nx("normalize_signs(c)", noexcept(normalize_signs(c)));
  NX(+c), NX(f += c), NX(f -= c), NX(f *= c), NX(f /= c), NX(f %= c), NX(f += v), NX(f -= v), NX(f *= v), NX(f /= v), NX(f %= v);
  NX(c + c), NX(c - c), NX(c * c), NX(c / c), NX(c % c), NX(c + v), NX(c - v), NX(c * v), NX(c / v), NX(c % v);
  NX(v + c), NX(v - c), NX(v * c), NX(v / c), NX(v % c);
  NX(c == c), NX(c != c), NX(c < c), NX(c <= c), NX(c > c), NX(c >= c), NX(c == v), NX(c < v), NX(v == c), NX(v < c);
  NX(c.num()), NX(c.den()), NX(c.raw()), NX(f.num()), NX(f.den());
  NX(reciprocal(c)), NX(reduce(c)), NX(reduce(w)), NX(trunc(c)), NX(floor(c)), NX(ceil(c)), NX(round(c));
  NX(redenominate(c, v)), NX(trunc_redenominate(c, v)), NX(floor_redenominate(c, v)), NX(ceil_redenominate(c, v));
  NX(ieme::pow<R, P>(v, 2)), NX(ieme::pow2<R, P>(2));
  NX(is_defined(c)), NX(is_undefined(c)), NX(is_positive(c)), NX(is_negative(c)), NX(is_zero(c)), NX(is_integer(c)), NX(is_reduced(c)), NX(is_proper(c));
  NX(to_float(c)), NX(to_double(c)), NX(to_long_double(c)), NX(ieme::to_fraction<R, P>(0.5f)), NX(ieme::to_fraction<R, P>(0.5));
  NX(ieme::floating_point_string_to_fraction<R, P>("1.5"));
  NX(ieme::hash(c)), NX(ieme::hash(w)), NX(ieme::hash(k)), NX(std::hash<F>()(c));
  NX(M()), NX(M(c)), NX(M(v)), NX(M(v, c)), NX(M(k)), NX(n = k), NX(F(k)), NX(+k), NX(k + k), NX(k + c), NX(c + k), NX(k + v), NX(v + k);
  NX(k.whole()), NX(k.fractional()), NX(k.as_fraction());
  // mixed representation types
  using L = std::conditional_t<ri<R>.sg, long long, unsigned long long>;
  fraction<L, P> const l(L(1), L(3));
  fraction<L, P> d(L(1), L(3));
  L const u = L(2);
  NX(c + l), NX(c - l), NX(c * l), NX(c / l), NX(c % l), NX(l + v), NX(l - v), NX(l * v), NX(l / v), NX(l % v);
  NX(u + c), NX(u - c), NX(u * c), NX(u / c), NX(u % c), NX(d += c), NX(d -= c), NX(d *= c), NX(d /= c), NX(d %= c);
  NX(d += v), NX(d -= v), NX(d *= v), NX(d /= v), NX(d %= v);
  NX(c == l), NX(c != l), NX(c < l), NX(c <= l), NX(c > l), NX(c >= l), NX(l == v), NX(l != v), NX(l < v), NX(l <= v), NX(l > v), NX(l >= v);
  NX(u == c), NX(u != c), NX(u < c), NX(u <= c), NX(u > c), NX(u >= c), NX(c != v), NX(c <= v), NX(c > v), NX(c >= v);
  NX(v != c), NX(v <= c), NX(v > c), NX(v >= c);
  ieme::mixed_number<L, R, P> const mk2(u, c);
  NX(mk2 + k), NX(k + mk2), NX(k + l), NX(l + k), NX(k + u), NX(u + k), NX(mk2.as_fraction()), NX(ieme::mixed_number<L, R, P>(l));
  // the rest of the functions of one fraction
  using ieme::round_mode;
  NX(f.numerator()), NX(f.denominator()), NX(c.numerator()), NX(c.denominator()), NX(F(std::ratio<1, 2>())), NX(fraction<R, ops::fast>(c)), NX(fraction<R, ops::safe>(c));
  NX(is_non_negative(c)), NX(is_non_positive(c)), NX(is_unit_fraction(c)), NX(is_reduced_ignore_signs(c)), NX(is_improper(c)), NX(are_identical(c, c)), NX(are_different(c, c));
  NX(is_defined(w)), NX(is_undefined(w)), NX(is_positive(w)), NX(is_negative(w)), NX(is_zero(w)), NX(is_integer(w)), NX(is_reduced(w)), NX(is_proper(w));
  NX(is_non_negative(w)), NX(is_non_positive(w)), NX(is_unit_fraction(w)), NX(is_reduced_ignore_signs(w)), NX(is_improper(w));
  NX(to_whole(c)), NX(to_whole(c, round_mode::trunc)), NX(to_whole(c, round_mode::ceil)), NX(round_redenominate(c, v)), NX(redenominate(c, v, round_mode::floor));
  NX(reduce(c, reduce_mode::ignore_signs)), NX(reduce(w, reduce_mode::ignore_signs)), NX(reduce_ignore_signs(c)), NX(reduce_ignore_signs(w)), NX(reciprocal(w));
  if constexpr (ri<R>.sg)
    nx("reduce_normalize_signs(c)", noexcept(reduce_normalize_signs(c))), nx("reduce_normalize_signs(w)", noexcept(reduce_normalize_signs(w))),
      nx("normalize_signs(w)", noexcept(normalize_signs(w)));
  NX(std::hash<raw_fraction<R>>()(w)), NX(std::hash<M>()(k));
  using Lim = ieme::limits<F>;
  using Num = std::numeric_limits<F>;
  NX(Lim::min()), NX(Lim::max()), NX(Lim::smallest()), NX(Lim::undefined()), NX(Num::min()), NX(Num::max()), NX(Num::lowest()), NX(Num::epsilon()), NX(Num::quiet_NaN());
  using LimM = ieme::limits<M>;
  using NumM = std::numeric_limits<M>;
  NX(LimM::min()), NX(LimM::max()), NX(LimM::smallest()), NX(LimM::undefined()), NX(NumM::min()), NX(NumM::max()), NX(NumM::lowest()), NX(NumM::epsilon()), NX(NumM::quiet_NaN());
  ieme::denominator_literal<false, P> const lit(2);
  NX(ieme::denominator_literal<false, P>(2)), NX(+lit), NX(-lit), NX(c / lit), NX(v / lit), NX(lit.value()), NX(ieme::literals::operator""_fr(2));
  std::chrono::seconds const span(1);
  std::chrono::steady_clock::time_point const point;
  NX(ieme::chrono::to_fractional(span)), NX(ieme::chrono::to_fractional(point));
  NX(ieme::chrono::clock_wrapper<std::chrono::steady_clock>::now());
  // and those of the policy
  NX(P::plus(w, w)), NX(P::plus(w, v)), NX(P::plus(v, w)), NX(P::minus(w, w)), NX(P::minus(w, v)), NX(P::minus(v, w));
  NX(P::multiplies(w, w)), NX(P::multiplies(w, v)), NX(P::multiplies(v, w)), NX(P::divides(w, w)), NX(P::divides(w, v)), NX(P::divides(v, w));
  NX(P::modulus(w, w)), NX(P::modulus(w, v)), NX(P::modulus(v, w));
  NX(P::equal_to(w, w)), NX(P::equal_to(w, v)), NX(P::equal_to(v, w)), NX(P::not_equal_to(w, w)), NX(P::not_equal_to(w, v)), NX(P::not_equal_to(v, w));
  NX(P::less(w, w)), NX(P::less(w, v)), NX(P::less(v, w)), NX(P::less_equal(w, w)), NX(P::less_equal(w, v)), NX(P::less_equal(v, w));
  NX(P::greater(w, w)), NX(P::greater(w, v)), NX(P::greater(v, w)), NX(P::greater_equal(w, w)), NX(P::greater_equal(w, v)), NX(P::greater_equal(v, w));
  if constexpr (ri<R>.sg)
    nx("P::negate(w)", noexcept(P::negate(w)));
  (void)m;
#undef NX
  mon::done();
}

static void time_points(mon::Env& e)
{
  for (uint64_t i = 0; e.go(i, e.count(3000, 300000)); ++i)
  {
    long const a = e.rng.range(-100000, 100000), b = e.rng.range(1, 1000);
    mon::begin("durations", nullptr, nullptr, nullptr, a, b);
    using S = ieme::chrono::seconds;
    using M = ieme::chrono::milliseconds;
    using H = ieme::chrono::hours;
    S const s {fraction<long>(a, b)};
    metered("std duration to fractional duration", step_limit(64), false, [&] { return S(std::chrono::milliseconds(a)); });
    metered("duration to another period", step_limit(64), false, [&] { return M(s); });
    metered("duration to a coarser period", step_limit(64), false, [&] { return H(s); });
    metered("duration + duration", step_limit(64), false, [&] { return s + M(fraction<long>(1, b)); });
    metered("duration < duration", step_limit(64), false, [&] { return s < M(fraction<long>(a, b)); });
    mon::done();
  }
}

int main(int argc, char** argv)
{
  return mon::main_impl(argc, argv, [](mon::Env& e) {
    int const fe = std::fegetround();
    std::locale const before;
    std::string const clocale = setlocale(LC_ALL, nullptr);
#if PART == 0
    using R = int;
    using Ps = builtin;
#elif PART == 1
    using R = long;
    using Ps = builtin;
#elif PART == 2
    using R = unsigned long;
    using Ps = few;
#elif PART == 3
    using R = long long;
    using Ps = custom;
#else
#error "unknown part"
#endif
    each(Ps {}, [&]<class P>() {
      sizes<R, P>();
      never_throws<R, P>();
    });
    go<R, Ps>(e, 1);
    texts<R, list<ops::safe_reduced_io, ops::fast>>(e);
    time_points(e);
    mon::begin("state of the process", nullptr, nullptr, nullptr);
    mon::seen(3);
    if (std::fegetround() != fe)
      mon::fail("state of the process", "the rounding mode was changed");
    if (!(std::locale() == before))
      mon::fail("state of the process", "the global locale was changed");
    if (clocale != setlocale(LC_ALL, nullptr))
      mon::fail("state of the process", "the C locale was changed");
    mon::done();
    std::locale::global(std::locale(std::locale::classic(), new Punct));
    locale_independent<R>();
    texts<R, list<ops::safe_reduced_io>>(e);
  }, 60);
}
