// C16: well-formed floating-point strings parse to their exact value.
#include "lit.hpp"

#include <memory>

using namespace fx;

static char const* kind(lit::Lit const& l)
{
  if (l.base == 10)
    return !l.has_point     ? "decimal, exponent, no point"
           : !l.has_exp     ? (!l.has_whole ? "decimal .d" : !l.has_frac ? "decimal d." : "decimal d.d")
           : !l.has_whole   ? "decimal .d with exponent"
           : !l.has_frac    ? "decimal d. with exponent"
                            : "decimal d.d with exponent";
  return !l.has_point ? "hexadecimal, no point" : !l.has_whole ? "hexadecimal .d" : !l.has_frac ? "hexadecimal d." : "hexadecimal d.d";
}

// `text` must be recognised as well-formed.  It is parsed from a buffer of
// exactly its size, and from inside a larger text that would change its value.
template <class R, class P> bool one(std::string const& text, lit::Lit const& l)
{
  Ri const r = ri<R>;
  Fr want;
  if (!lit::value(l, pol<P>::d, r, want))
  {
    mon::ood();
    return false;
  }
  mon::begin("floating_point_string_to_fraction", pol<P>::s, type_name<R>::s, nullptr, 0);
  mon::begin_text(text.data(), text.size());
  std::unique_ptr<char[]> const exactbuf(new char[text.size()]);
  memcpy(exactbuf.get(), text.data(), text.size());
  auto const res = ieme::floating_point_string_to_fraction<R, P>(std::string_view(exactbuf.get(), text.size()));
  mon::same_type<std::decay_t<decltype(res)>, fraction<R, P>>("result type");
  auto judge = [&](const char* what, auto const& v) {
    mon::seen();
    Fr const g = get(v);
    if (g.d == 0 || !eqv(g, want))
      mon::fail(what, "%s %s is %s, expected %s", what, mon::escaped((unsigned char const*)text.data(), int(text.size())).c_str(),
                sh(g).c_str(), sh(want).c_str());
    canonical(what, pol<P>::d, g);
  };
  judge("parsed", res);
  std::string const around = "7" + text + "5e3";
  judge("parsed inside a larger text",
        ieme::floating_point_string_to_fraction<R, P>(std::string_view(around).substr(1, text.size())));
  if constexpr (std::is_same_v<R, std::intmax_t> && std::is_same_v<P, ops::safe_reduced_io>)
  {
    auto const d = ieme::operator""_dec(text.c_str());
    mon::same_type<std::decay_t<decltype(d)>, fraction<std::intmax_t>>("literal type");
    judge("_dec", d);
  }
  mon::done();
  ++*mon::bucket("%s: %s", type_name<R>::s, kind(l));
  if (l.separators)
    MON_BUCKET("with digit separators");
  if (l.exp_neg)
    MON_BUCKET("negative exponent");
  if (iabs(want.n) > r.max / 2 || iabs(want.d) > r.max / 2)
    MON_BUCKET("value at the limit of the type");
  return true;
}

static std::string digits(mon::Rng& g, i128 v, int base, int minlen)
{
  std::string s;
  do
  {
    int const d = int(v % base);
    s.insert(s.begin(), d < 10 ? char('0' + d) : char((g.chance(50) ? 'a' : 'A') + d - 10));
    v /= base;
  } while (v);
  while (int(s.size()) < minlen)
    s.insert(s.begin(), '0');
  return s;
}

static std::string separate(mon::Rng& g, std::string const& s, int percent)
{
  std::string o;
  for (size_t i = 0; i < s.size(); ++i)
  {
    if (i && g.chance(percent))
      o += '\'';
    o += s[i];
  }
  return o;
}

// A well-formed literal whose parts are likely to fit r.
static std::string generate(mon::Rng& g, Ri r)
{
  int const base = g.chance(60) ? 10 : 16;
  int maxdig = 0;
  for (i128 m = r.max; m >= base; m /= base)
    ++maxdig;
  int const sep = g.chance(35) ? g.range(1, 100) : 0;
  std::string s = base == 16 ? (g.chance(50) ? "0x" : "0X") : "";
  bool point = g.chance(80);
  int const fd = point ? (g.chance(25) ? 0 : g.range(1, maxdig)) : 0;
  i128 room = r.max;
  for (int i = 0; i < fd; ++i)
    room /= base;
  bool const no_whole = point && fd > 0 && g.chance(20);
  bool const ex = base == 16 || !point || g.chance(45);
  // exponent: chosen so that the power fits, and often just fits
  int const b2 = base == 10 ? 10 : 2;
  int maxe = 0;
  for (i128 m = r.max; m >= b2; m /= b2)
    ++maxe;
  bool const neg = g.chance(50);
  int const e = ex ? (g.chance(20) ? maxe : g.chance(40) ? g.range(0, 3) : g.range(0, maxe)) : 0;
  i128 scale = 1;
  for (int i = 0; i < e; ++i)
    scale *= b2;
  // keep the whole part small enough for the product most of the time
  i128 cap = room;
  if (!neg && g.chance(80))
    cap = std::max<i128>(1, cap / scale);
  i128 w = no_whole ? 0 : g.chance(10) ? 0 : g.chance(15) ? cap - g.range(0, 2) : gen_mag(g, r, r.bits) % (cap + 1);
  if (w < 0)
    w = 0;
  if (neg && g.chance(70) && !no_whole) // smooth in the base: the product reduces
    for (int i = 0, k = g.range(0, maxdig); i < k && w * base <= cap && w; ++i)
      w *= base;
  if (!no_whole)
    s += separate(g, digits(g, w, base, g.chance(20) ? g.range(1, 24) : 1), sep);
  if (point)
    s += '.';
  if (fd)
  {
    i128 top = 1;
    for (int i = 0; i < fd; ++i)
      top *= base;
    i128 f = g.chance(15) ? 0 : g.chance(15) ? top - 1 : g.upto(top - 1);
    if (g.chance(30)) // trailing zeros
      for (int i = 0, k = g.range(1, fd); i < k; ++i)
        f = f / base * base, f = f % base == 0 && i ? f / base * base : f;
    s += separate(g, digits(g, f, base, fd), sep);
  }
  if (ex)
  {
    s += base == 10 ? (g.chance(50) ? 'e' : 'E') : (g.chance(50) ? 'p' : 'P');
    s += neg ? "-" : g.chance(30) ? "+" : "";
    s += separate(g, digits(g, e, 10, g.chance(20) ? g.range(1, 9) : 1), sep);
  }
  return s;
}

template <class R, class Ps> void random_part(mon::Env& e, double w)
{
  Ri const r = ri<R>;
  uint64_t const n = uint64_t(double(e.count(200000, 12000000)) * w);
  for (uint64_t i = 0; e.go(i, n); ++i)
  {
    std::string const s = generate(e.rng, r);
    auto const l = lit::recognise(s.data(), s.size());
    if (!l.ok)
    {
      fprintf(stderr, "harness: generator made %s\n", s.c_str());
      _exit(76);
    }
    each(Ps {}, [&]<class P>() { one<R, P>(s, l); });
  }
}

// Every well-formed literal up to a length over a small alphabet.
template <class R, class Ps> void small_part(mon::Env& e, const char* alpha, int len)
{
  int const k = int(strlen(alpha));
  std::string s;
  for (int n = 1; n <= len; ++n)
  {
    uint64_t total = 1;
    for (int i = 0; i < n; ++i)
      total *= uint64_t(k);
    s.assign(size_t(n), ' ');
    for (uint64_t i = 0; i < total; ++i)
    {
      uint64_t v = i;
      for (int j = 0; j < n; ++j, v /= uint64_t(k))
        s[size_t(j)] = alpha[v % uint64_t(k)];
      auto const l = lit::recognise(s.data(), s.size());
      if (!l.ok)
        continue;
      if (!e.go(0, 1))
        return;
      each(Ps {}, [&]<class P>() { one<R, P>(s, l); });
    }
  }
  ++mon::S->exhausted_spaces;
}

// Every number of decimal digits, each decimal place and each power that fits.
template <class R, class Ps> void structured(mon::Env& e)
{
  Ri const r = ri<R>;
  auto put = [&](std::string const& s) {
    auto const l = lit::recognise(s.data(), s.size());
    if (l.ok)
      each(Ps {}, [&]<class P>() { one<R, P>(s, l); });
  };
  std::string const top = mon::str(r.max);
  for (size_t i = 0; i <= top.size(); ++i) // the maximum with the point moved
  {
    put(top.substr(0, i) + "." + top.substr(i));
    for (int d = 0; d <= 20; ++d)
      for (char const* sg : {"e", "E-", "e+"})
        put(top.substr(0, i) + "." + top.substr(i) + sg + std::to_string(d));
  }
  for (int w = 0; w <= 120; ++w)
    for (int d = 0; d <= 64; ++d)
      for (char const* sg : {"e-", "e+", "E"})
      {
        put(std::to_string(w) + sg + std::to_string(d));
        put(std::to_string(w) + "." + sg + std::to_string(d));
        char b[32];
        snprintf(b, sizeof b, "%d.%02d", w / 10, w % 100);
        put(b + std::string(sg) + std::to_string(d));
        snprintf(b, sizeof b, "0x%x.%X", unsigned(w), unsigned(w * 7));
        put(b + std::string(sg[0] == 'e' ? "p" : "P") + (sg + 1) + std::to_string(d));
        snprintf(b, sizeof b, "0X%X", unsigned(w));
        put(b + std::string(sg[0] == 'e' ? "p" : "P") + (sg + 1) + std::to_string(d));
      }
  ++mon::S->exhausted_spaces;
  (void)e;
}

// Texts longer than any counter of 8 or 16 bits, or a deep recursion, can take.
template <class R, class Ps> void long_texts(mon::Env& e)
{
  auto put = [&](std::string const& s) {
    auto const l = lit::recognise(s.data(), s.size());
    if (!l.ok)
      return;
    MON_BUCKET("longer than fifty characters");
    each(Ps {}, [&]<class P>() { one<R, P>(s, l); });
  };
  for (int n : {50, 120, 127, 128, 129, 200, 253, 254, 255, 256, 257, 258, 511, 512, 513, 1000, 4096, 32767, 32768, 65534, 65535, 65536, 65537,
                65540, e.thorough ? 3000000 : 400000})
  {
    std::string const z(size_t(n), '0');
    std::string zs;
    for (int i = 0; i < n / 2; ++i)
      zs += "0'";
    for (std::string const& p : {z, zs})
    {
      put(p + "12.5");
      put(p + "75e-1");
      put(p + "1.5E+" + p + "1");
      put(p + "3.");
      put(".5e" + p + "1");
      put("12.25e-" + p + "2");
      put("0x" + p + "A.8p0");
      put("0X" + p + "3P-" + p + "2");
      put("0x.8p+" + p + "3");
    }
  }
  ++mon::S->exhausted_spaces;
}

// Tokens as the compiler hands them to the literal operator.
static void tokens()
{
  using namespace ieme::literals;
  auto t = [](const char* text, fraction<std::intmax_t> v, i128 n, i128 d) {
    mon::begin("_dec token", nullptr, nullptr, nullptr, n, d);
    mon::begin_text(text, strlen(text));
    exact("_dec token", get(v), {n, d});
    mon::done();
  };
#define T(tok, n, d) t(#tok, tok##_dec, n, d)
  T(0.759, 759, 1000);
  T(2.37, 237, 100);
  T(1., 1, 1);
  T(.5, 1, 2);
  T(0.0, 0, 1);
  T(1e3, 1000, 1);
  T(25e-2, 1, 4);
  T(1'000.000'1, 10000001, 10000);
  T(0x1p4, 16, 1);
  T(0x1.8p1, 3, 1);
  T(0xA.Fp-4, 175, 256);
  T(0X.8P0, 1, 2);
  T(123456789.987654321, i128(123456789987654321LL), 1000000000);
  T(9223372036854775807e0, i128(9223372036854775807LL), 1);
  T(922337203685477580.7, i128(9223372036854775807LL), 10);
  T(0x7FFFFFFFFFFFFFFFp0, i128(9223372036854775807LL), 1);
  T(000012.50, 25, 2);
  T(1E+18, i128(1000000000000000000LL), 1);
  T(1e-18, 1, i128(1000000000000000000LL));
}

int main(int argc, char** argv)
{
  return mon::main_impl(argc, argv, [](mon::Env& e) {
#if PART == 0
    random_part<long, fx::list<ops::safe_reduced_io, ops::fast, ops::safe_reduced_o>>(e, 1);
    structured<long, fx::list<ops::safe_reduced_io>>(e);
    long_texts<long, fx::list<ops::safe_reduced_io, ops::fast>>(e);
    tokens();
#elif PART == 1
    random_part<int, fx::list<ops::safe_reduced_io, ops::safe, ops::fast_reduced_i>>(e, 1);
    structured<int, fx::list<ops::safe_reduced_io>>(e);
    long_texts<int, fx::list<ops::safe_reduced_io>>(e);
#elif PART == 2
    random_part<unsigned int, fx::list<ops::safe_reduced_io, ops::fast_reduced_o>>(e, 0.5);
    random_part<unsigned long, fx::list<ops::safe_reduced_io, ops::fast_reduced_io>>(e, 0.5);
    random_part<long long, fx::list<ops::safe_reduced_io, ops::safe_reduced_i>>(e, 0.5);
    structured<unsigned long, fx::list<ops::safe_reduced_io>>(e);
#elif PART == 3
    small_part<long, fx::list<ops::safe_reduced_io>>(e, "01.e-'5+E", e.thorough ? 8 : 6);
    small_part<int, fx::list<ops::safe_reduced_io>>(e, "0x1fA.p-P'", e.thorough ? 7 : 6);
#else
#error "unknown part"
#endif
  });
}
