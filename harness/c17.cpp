// C17: malformed strings are rejected as undefined, reading only the view.
#include "lit.hpp"

#include <cctype>
#include <memory>
#include <new>

using namespace fx;

static char exact_storage[2]; // for views of length 0

template <class R, class P> void run(const char* cls, char const* p, size_t n, std::string const& text)
{
  mon::begin("floating_point_string_to_fraction", pol<P>::s, type_name<R>::s, cls, i128(n));
  mon::begin_text(text.data(), text.size());
  bool threw = false;
  Fr g {0, 0};
  try
  {
    g = get(ieme::floating_point_string_to_fraction<R, P>(std::string_view(p, n)));
  }
  catch (...)
  {
    threw = true;
  }
  mon::seen();
  if (threw)
    mon::fail("parser threw", "parsing a malformed string threw");
  if (g.d != 0)
    mon::fail("malformed accepted", "%s text %s parsed to %s, expected undefined", cls,
              mon::escaped((unsigned char const*)text.data(), int(text.size())).c_str(), sh(g).c_str());
}

// Judge one string of any kind; well-formed ones belong to C16.
template <class R, class P> void one(const char* cls, std::string const& text)
{
  auto const l = lit::recognise(text.data(), text.size());
  if (l.ok)
  {
    mon::ood();
    return;
  }
  // a buffer of exactly the size of the view: AddressSanitizer sees any byte
  // read before or after it
  std::unique_ptr<char[]> const buf(new char[text.size()]);
  memcpy(buf.get(), text.data(), text.size());
  run<R, P>(cls, text.empty() ? buf.get() : buf.get(), text.size(), text);
  mon::done();
  ++*mon::bucket("%s", cls);
  if (l.has_point)
    MON_BUCKET("has a point after its digits");
  if (l.has_exp)
    MON_BUCKET("has an exponent letter after its digits");
}

// The view ends where text that would make it well-formed begins.
template <class R, class P> void inside(std::string const& whole, size_t from, size_t n)
{
  std::string const text = whole.substr(from, n);
  if (lit::recognise(text.data(), text.size()).ok)
    return mon::ood();
  run<R, P>("part of a larger literal", whole.data() + from, n, text);
  mon::done();
  MON_BUCKET("part of a larger literal");
}

// The literal operator on malformed, NUL-terminated text: it must not produce a
// defined fraction (it throws).
static void dec(std::string const& text)
{
  if (text.find('\0') != std::string::npos || lit::recognise(text.data(), text.size()).ok)
    return;
  mon::begin("_dec", nullptr, nullptr, nullptr, 0);
  mon::begin_text(text.data(), text.size());
  bool rejected = false;
  try
  {
    rejected = get(ieme::operator""_dec(text.c_str())).d == 0;
  }
  catch (...)
  {
    rejected = true;
  }
  mon::seen();
  if (!rejected)
    mon::fail("_dec accepts", "_dec accepts malformed text");
  mon::done();
  MON_BUCKET("_dec rejects");
}

static std::string valid(mon::Rng& g)
{
  auto seq = [&](int base, int max) {
    std::string s;
    for (int i = g.range(1, max); i > 0; --i)
    {
      int const d = int(g.below(uint64_t(base)));
      s += d < 10 ? char('0' + d) : char((g.chance(50) ? 'a' : 'A') + d - 10);
      if (i > 1 && g.chance(12))
        s += '\'';
    }
    return s;
  };
  int const base = g.chance(55) ? 10 : 16;
  std::string s = base == 16 ? (g.chance(50) ? "0x" : "0X") : "";
  bool const point = g.chance(75);
  bool const whole = !point || g.chance(85);
  if (whole)
    s += seq(base, 6);
  if (point)
    s += '.';
  if (point && (!whole || g.chance(80)))
    s += seq(base, 6);
  if (base == 16 || !point || g.chance(50))
  {
    s += base == 10 ? (g.chance(50) ? 'e' : 'E') : (g.chance(50) ? 'p' : 'P');
    s += g.chance(40) ? "-" : g.chance(40) ? "+" : "";
    s += seq(10, 3);
  }
  return s;
}

static const char pool[] = "0123456789abcdefABCDEFxXpP.''--++eE \t\nfFlLuUgG_,:/iINn$\x7f";

static char any(mon::Rng& g)
{
  return g.chance(85) ? pool[g.below(sizeof pool)] : char(g.below(256)); // includes the NUL
}

static const char* mutate(mon::Rng& g, std::string& s)
{
  switch (g.below(12))
  {
    case 0:
      if (!s.empty())
        s.erase(g.below(s.size()), 1);
      return "one character removed";
    case 1:
      s.insert(g.below(s.size() + 1), 1, any(g));
      return "one character inserted";
    case 2:
      if (!s.empty())
        s[g.below(s.size())] = any(g);
      return "one character replaced";
    case 3:
      s.resize(g.below(s.size() + 1));
      return "truncated";
    case 4:
      s = s.substr(g.below(s.size() + 1));
      return "head removed";
    case 5:
      s += valid(g);
      return "two literals joined";
    case 6:
      s.insert(g.below(s.size() + 1), 1, '\'');
      return "separator inserted";
    case 7:
      s.insert(g.below(s.size() + 1), 1, '\0');
      return "NUL inserted";
    case 8:
      s.insert(g.below(s.size() + 1), 1, '.');
      return "point inserted";
    case 9:
      s.insert(g.below(s.size() + 1), 1, "eEpPxX+-"[g.below(8)]);
      return "exponent or sign inserted";
    case 10:
      s.insert(0, 1, "+- \t\n0"[g.below(6)]);
      return "something in front";
    default:
      s += "fFlLdDuU \n\0e.p'"[g.below(15)];
      return "something behind";
  }
}

template <class R, class P> void fuzz(mon::Env& e, double w)
{
  uint64_t const n = uint64_t(double(e.count(1500000, 20000000)) * w);
  for (uint64_t i = 0; e.go(i, n); ++i)
  {
    std::string s;
    const char* cls;
    switch (e.rng.below(8))
    {
      case 0: // random over the alphabet
        for (int k = e.rng.range(0, 20); k > 0; --k)
          s += any(e.rng);
        cls = "random characters";
        break;
      case 1:
        for (int k = e.rng.range(0, 40); k > 0; --k)
          s += char(e.rng.below(256));
        cls = "random bytes";
        break;
      case 2: // long
      {
        size_t const len = e.rng.below(3000);
        s.assign(len, "0'.ex5-"[e.rng.below(7)]);
        for (int k = e.rng.range(0, 3); k > 0 && !s.empty(); --k)
          s[e.rng.below(s.size())] = any(e.rng);
        cls = "long";
        break;
      }
      case 3:
      {
        s = valid(e.rng);
        std::string const whole = "'" + s + "5";
        size_t const from = e.rng.below(whole.size()), len = e.rng.below(whole.size() - from + 1);
        inside<R, P>(whole, from, len);
        continue;
      }
      default:
        s = valid(e.rng);
        cls = mutate(e.rng, s);
        while (e.rng.chance(15))
          cls = mutate(e.rng, s);
    }
    one<R, P>(cls, s);
    if (e.rng.chance(10))
      dec(s);
  }
}

// Every string up to a length over an alphabet.
template <class R, class P> void exhaustive(mon::Env& e, const char* alpha, int k, int len)
{
  std::string s;
  for (int n = 0; n <= len; ++n)
  {
    uint64_t total = 1;
    for (int i = 0; i < n; ++i)
      total *= uint64_t(k);
    s.assign(size_t(n), ' ');
    for (uint64_t i = 0; i < total; ++i)
    {
      uint64_t v = i;
      for (int j = 0; j < n; ++j, v /= uint64_t(k))
        s[size_t(j)] = alpha[v % uint64_t(k)];
      if (!e.go(i, UINT64_MAX))
        return;
      one<R, P>("every short string", s);
    }
  }
  ++mon::S->exhausted_spaces;
}

template <class R, class P> void fixed()
{
  // every byte alone, and in each place of a valid literal
  for (int c = 0; c < 256; ++c)
  {
    one<R, P>("every byte", std::string(1, char(c)));
    for (std::string base : {"1.5", "0x1.8p1", "12e3", ".5e-1"})
      for (size_t i = 0; i <= base.size(); ++i)
      {
        std::string s = base;
        s.insert(i, 1, char(c));
        one<R, P>("every byte in every place", s);
        if (i < base.size())
        {
          s = base;
          s[i] = char(c);
          one<R, P>("every byte in every place", s);
        }
      }
    for (int d = 0; d < 256; ++d)
      one<R, P>("every pair of bytes", std::string {char(c), char(d)});
  }
  ++mon::S->exhausted_spaces;
  for (int n = 1; n <= 40; ++n) // integers without point or exponent, of any length
    for (char c : {'0', '1', '9'})
    {
      one<R, P>("integer", std::string(size_t(n), c));
      one<R, P>("integer", "0x" + std::string(size_t(n), c));
      dec(std::string(size_t(n), c));
    }
  // a view with no data at all
  mon::begin("floating_point_string_to_fraction", pol<P>::s, type_name<R>::s, "default view", 0);
  if (get(ieme::floating_point_string_to_fraction<R, P>(std::string_view())).d != 0)
    mon::fail("malformed accepted", "a default constructed view is accepted");
  mon::seen();
  mon::done();
  (void)exact_storage;
}

// Texts longer than any counter of 8 or 16 bits, or a deep recursion, can take:
// what is wrong with them is far from their beginning.
template <class R, class P> void long_texts(bool thorough)
{
  for (int n : {50, 120, 127, 128, 129, 200, 253, 254, 255, 256, 257, 258, 511, 512, 513, 1000, 4096, 32767, 32768, 65534, 65535, 65536, 65537,
                65540, thorough ? 3000000 : 400000})
  {
    std::string const z(size_t(n), '0');
    std::string zs;
    for (int i = 0; i < n / 2; ++i)
      zs += "0'";
    for (std::string const& p : {z, zs})
      for (std::string const& x : {std::string(), std::string("0x")})
      {
        one<R, P>("long: integer", x + p + "1");
        one<R, P>("long: wrong at the end", x + p + "1.5x");
        one<R, P>("long: wrong at the end", x + p + "1.5'");
        one<R, P>("long: wrong at the end", x + p + "1.5" + '\0');
        one<R, P>("long: wrong at the end", x + p + "1.5.");
        one<R, P>("long: wrong in the middle", x + p + "'.5p0");
        one<R, P>("long: wrong in the middle", x + p + "g.5p0");
        one<R, P>("long: wrong in the middle", x + p + "''1.5p0");
        one<R, P>("long: wrong in the middle", x + p + "1.5p0" + p + "1x");
        one<R, P>("long: wrong in the middle", x + p + "1.5e0" + p + "1f");
        one<R, P>("long: wrong in the middle", x + p + "e" + p + "1.5");
        one<R, P>("long: wrong at the beginning", x + "'" + p + "1.5p0");
        one<R, P>("long: wrong at the beginning", "+" + x + p + "1.5p0");
        one<R, P>("long: fraction", x + "1." + p + "0'");
        one<R, P>("long: fraction", x + "1." + p + "0e");
        one<R, P>("long: exponent", x + "1.5e" + p + "1e1");
        one<R, P>("long: exponent", x + "1.5p-" + p + "a");
        one<R, P>("long: only points", x + std::string(size_t(n), '.'));
        one<R, P>("long: only separators", x + std::string(size_t(n), '\''));
        one<R, P>("long: only exponents", x + std::string(size_t(n), 'e'));
        one<R, P>("long: only blanks", x + std::string(size_t(n), ' ') + "1.5");
      }
    dec(z + "1");
    dec(z + "1.5x");
  }
  ++mon::S->exhausted_spaces;
}

int main(int argc, char** argv)
{
  return mon::main_impl(argc, argv, [](mon::Env& e) {
    static const char A[] = "01aAxX.eEpP+-' f\0g9";
#if PART == 0
    fixed<int, ops::safe_reduced_io>();
    long_texts<int, ops::safe_reduced_io>(e.thorough);
    fuzz<int, ops::safe_reduced_io>(e, 1);
#elif PART == 1
    fuzz<std::intmax_t, ops::safe_reduced_io>(e, 0.7);
    fuzz<unsigned int, ops::fast>(e, 0.4);
    fuzz<std::intmax_t, ops::fast_reduced_i>(e, 0.3);
    fixed<std::intmax_t, ops::safe>();
#elif PART == 2
    exhaustive<int, ops::safe_reduced_io>(e, A, 19, e.thorough ? 6 : 4);
    exhaustive<int, ops::safe_reduced_io>(e, "1.e-'x0p", 8, e.thorough ? 8 : 6);
#else
#error "unknown part"
#endif
  });
}
