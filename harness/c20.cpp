// C20: stream output and input round-trip and report failure.
#include "frac.hpp"

#include <fstream>
#include <iomanip>
#include <iostream>
#include <locale>
#include <sstream>
#include <vector>

using namespace fx;

template <class T, class R> static T build(Fr f) { return T(raw_fraction<R>(static_cast<R>(f.n), static_cast<R>(f.d))); }

static i128 lowest(Ri r) { return r.sg ? -r.max - 1 : 0; }

// any components at all, the lowest ones and zero denominators included
static Fr gen_components(mon::Rng& g, Ri r)
{
  auto c = [&]() -> i128 {
    if (g.chance(4))
      return lowest(r);
    return sgn_(g, r, gen_mag(g, r, g.range(1, r.bits)), 45);
  };
  return {c(), c()};
}

// A buffer that hands out its text in pieces of one character, and that can
// fail or throw after a number of characters.
struct Slow : std::streambuf {
  std::string in, out;
  size_t pos = 0, limit = SIZE_MAX;
  bool throws = false;
  char cur = 0;
  int_type underflow() override
  {
    if (gptr() < egptr())
      return traits_type::to_int_type(*gptr());
    if (pos >= limit && throws)
      throw std::runtime_error("buffer");
    if (pos >= limit || pos >= in.size())
      return traits_type::eof();
    cur = in[pos++];
    setg(&cur, &cur, &cur + 1);
    return traits_type::to_int_type(cur);
  }
  int_type overflow(int_type c) override
  {
    if (out.size() >= limit)
    {
      if (throws)
        throw std::runtime_error("buffer");
      return traits_type::eof();
    }
    if (c != traits_type::eof())
      out += char(c);
    return 1;
  }
};

static std::string text_of(Fr f) { return mon::str(f.n) + "/" + mon::str(f.d); }

static uint64_t cases = 0;

template <class T, class R> void output(const char* kind, Fr f)
{
  mon::begin("operator<<", kind, type_name<R>::s, nullptr, f.n, f.d);
  T const x = build<T, R>(f);
  std::ostringstream o;
  std::ostream& ret = (o << x);
  mon::seen(3);
  if (&ret != static_cast<std::ostream*>(&o))
    mon::fail("operator<< return", "operator<< does not return its stream");
  if (o.str() != text_of(f))
    mon::fail("operator<< text", "%s is written as \"%s\"", text_of(f).c_str(), o.str().c_str());
  if (!o.good())
    mon::fail("operator<< state", "writing %s leaves the stream in state %d", text_of(f).c_str(), int(o.rdstate()));
  // chained with other output
  o << ' ' << x << '|' << 7;
  mon::seen();
  if (o.str() != text_of(f) + " " + text_of(f) + "|7")
    mon::fail("operator<< chained", "chained output is \"%s\"", o.str().c_str());
  mon::done();
  MON_BUCKET("written");
}

static const char* const blanks[] = {" ", "\n", "\t", "  ", " \n\t ", "\r\n"};

// A sequence of fractions written and read back with the separators between.
template <class T, class R> void round_trip(mon::Env& e, const char* kind, uint64_t id)
{
  mon::Rng g(e.seed * 15485863 + id);
  Ri const r = ri<R>;
  mon::begin("round trip of a sequence", kind, type_name<R>::s, nullptr, i128(e.seed), i128(id));
  std::vector<Fr> v;
  std::vector<std::string> seps;
  std::stringstream s;
  int const n = g.range(1, 8);
  bool const tail = g.chance(50);
  if (g.chance(30))
    s << blanks[g.below(6)];
  for (int i = 0; i < n; ++i)
  {
    v.push_back(gen_components(g, r));
    seps.push_back(blanks[g.below(6)]);
    s << build<T, R>(v.back());
    if (i + 1 < n || tail)
      s << seps.back();
  }
  std::string const text = s.str();
  mon::begin_text(text.data(), text.size());
  Slow slow;
  slow.in = text;
  std::istream one_by_one(&slow);
  bool const use_slow = g.chance(40);
  std::istream& in = use_slow ? one_by_one : s;
  for (int i = 0; i < n; ++i)
  {
    T x = build<T, R>(gen_components(g, r));
    std::istream& ret = (in >> x);
    Fr const got = get(x);
    mon::seen(3);
    if (&ret != &in)
      mon::fail("operator>> return", "operator>> does not return its stream");
    if (got.n != v[size_t(i)].n || got.d != v[size_t(i)].d)
      mon::fail("round trip", "fraction %d of the text is %s, read as %s", i, text_of(v[size_t(i)]).c_str(), text_of(got).c_str());
    bool const more = i + 1 < n || tail;
    if (in.fail() || (more && !in.good()))
      mon::fail("state after reading", "reading %s leaves the stream in state %d", text_of(v[size_t(i)]).c_str(), int(in.rdstate()));
    if (more)
    {
      int const c = in.peek();
      mon::seen();
      if (c != static_cast<unsigned char>(seps[size_t(i)][0]))
        mon::fail("position after reading", "after %s the next character is %d, expected the separator %d",
                  text_of(v[size_t(i)]).c_str(), c, int(seps[size_t(i)][0]));
    }
  }
  T x = build<T, R>({1, 1});
  in >> x;
  mon::seen();
  if (!in.fail())
    mon::fail("end of text", "a fraction is read after the last one");
  mon::done();
  ++cases;
  MON_BUCKET("sequences read back");
  if (use_slow)
    MON_BUCKET("sequences read one character at a time");
}

// ------------------------------------------------------- the stream's formats

// groups digits, with its own separator
struct Grouped : std::numpunct<char> {
  char sep;
  std::string how;
  Grouped(char c, std::string h) : sep(c), how(h) {}
  char do_thousands_sep() const override { return sep; }
  std::string do_grouping() const override { return how; }
  char do_decimal_point() const override { return ','; }
};

// Each number is written, and read, as the stream writes and reads a number of
// its type: the oracle is the same stream setting with one plain number.
template <class T, class R> void formats(mon::Env& e, const char* kind, double w)
{
  Ri const r = ri<R>;
  std::vector<std::locale> locales {std::locale::classic(), std::locale(std::locale::classic(), new Grouped('.', "\3")),
                                    std::locale(std::locale::classic(), new Grouped('\'', "\1\2"))};
  static const std::ios_base::fmtflags bases[] = {std::ios_base::dec, std::ios_base::hex, std::ios_base::oct, {}};
  uint64_t const n = uint64_t(double(e.count(12000, 500000)) * w);
  for (uint64_t i = 0; e.go(i, n); ++i)
  {
    auto& g = e.rng;
    Fr const f = gen_components(g, r);
    auto fl = bases[g.below(4)];
    static const std::ios_base::fmtflags more[]
      = {std::ios_base::showpos, std::ios_base::showbase, std::ios_base::uppercase, std::ios_base::boolalpha, std::ios_base::showpoint,
         std::ios_base::unitbuf, std::ios_base::left,    std::ios_base::internal,  std::ios_base::scientific};
    for (auto m : more)
      if (g.chance(35))
        fl |= m;
    bool const skips = g.chance(85);
    if (skips)
      fl |= std::ios_base::skipws;
    size_t const li = g.below(locales.size());
    int const prec = g.range(0, 12);
    mon::begin("stream formats", kind, type_name<R>::s, nullptr, f.n, f.d, i128(fl), i128(li));
    auto set = [&](std::ios& s) {
      s.imbue(locales[li]);
      s.flags(fl);
      s.precision(prec);
      s.fill('*');
    };
    auto plain = [&](i128 v) {
      std::ostringstream o;
      set(o);
      o << static_cast<R>(v);
      return o.str();
    };
    std::string const ns = plain(f.n), ds = plain(f.d), want = ns + "/" + ds;
    std::ostringstream o;
    set(o);
    o << build<T, R>(f);
    mon::seen(2);
    if (o.str() != want)
      mon::fail("text in a format", "%s is written as \"%s\" where its numbers are written as \"%s\"", text_of(f).c_str(), o.str().c_str(), want.c_str());
    if (o.flags() != fl || o.precision() != prec || o.fill() != '*' || !o.good())
      mon::fail("format after writing", "writing %s changes the format of the stream", text_of(f).c_str());
    // does a plain number come back?
    auto back = [&](std::string const& t, i128 v, char end) {
      std::istringstream s(t + end);
      set(s);
      R x {};
      s >> x;
      return !s.fail() && i128(x) == v && s.peek() == end;
    };
    if (back(ns, f.n, '/') && back(ds, f.d, ' '))
    {
      std::string const text = (skips && g.chance(50) ? " " : "") + want + " ";
      std::istringstream s(text);
      set(s);
      T x = build<T, R>({1, 1});
      s >> x;
      Fr const got = get(x);
      mon::seen(3);
      if (s.fail() || got.n != f.n || got.d != f.d)
        mon::fail("reading in a format", "\"%s\" is read as %s (state %d)", text.c_str(), text_of(got).c_str(), int(s.rdstate()));
      if (s.peek() != ' ')
        mon::fail("position in a format", "after \"%s\" the next character is %d", want.c_str(), s.peek());
      if (s.flags() != fl || s.precision() != prec || s.fill() != '*')
        mon::fail("format after reading", "reading %s changes the format of the stream", text_of(f).c_str());
      MON_BUCKET("read back in the format of the stream");
    }
    mon::done();
    MON_BUCKET("written in the format of the stream");
  }
}

// -------------------------------------------------------------- malformed text

// 1: certainly has no number, or no '/', or no number after it; 2: a number is
// beyond the representation; 0: a number, '/', a number with nothing in
// between; -1: not judged
static int classify(std::string const& t, Ri r, Fr& f)
{
  size_t i = 0;
  auto space = [&] {
    while (i < t.size() && (t[i] == ' ' || (t[i] >= 9 && t[i] <= 13)))
      ++i;
  };
  auto number = [&](i128& v) { // 1 no number, 0 in range, 2 out of range, -1 negative for an unsigned type
    size_t j = i;
    bool const neg = j < t.size() && t[j] == '-';
    if (j < t.size() && (t[j] == '-' || t[j] == '+'))
      ++j;
    if (j >= t.size() || t[j] < '0' || t[j] > '9')
      return 1;
    v = 0;
    int digits = 0;
    for (; j < t.size() && t[j] >= '0' && t[j] <= '9'; ++j)
    {
      if (v <= i128(1) << 100)
        v = v * 10 + (t[j] - '0');
      ++digits;
    }
    i = j;
    if (neg)
      v = -v;
    if (v > r.max || v < -r.max - (r.sg ? 1 : 0))
      return 2;
    if (!r.sg && neg)
      return -1;
    return 0;
  };
  i128 n, d;
  space();
  int a = number(n);
  if (a == 1 || a == 2)
    return a;
  if (t.find('/', i) == std::string::npos)
    return 1;
  bool const direct = t[i] == '/';
  i = t.find('/', i) + 1;
  space();
  int const b = number(d);
  if (b == 1 || b == 2)
    return b;
  if (a == -1 || b == -1 || !direct)
    return -1;
  f = {n, d};
  return 0;
}

template <class T, class R> void read_text(const char* kind, const char* cls, std::string const& text, int mask, bool slowly)
{
  mon::begin("operator>>", kind, type_name<R>::s, cls, mask, slowly);
  mon::begin_text(text.data(), text.size());
  Fr want {0, 1};
  int const k = classify(text, ri<R>, want);
  std::istringstream s(text);
  Slow slow;
  slow.in = text;
  std::istream one_by_one(&slow);
  std::istream& in = slowly ? one_by_one : static_cast<std::istream&>(s);
  in.exceptions(std::ios_base::iostate(mask));
  T x = build<T, R>({1, 2});
  bool threw = false;
  try
  {
    in >> x;
  }
  catch (std::ios_base::failure const&)
  {
    threw = true;
  }
  catch (...)
  {
    threw = true;
    mon::fail("operator>> exception", "reading threw something else than std::ios_base::failure");
  }
  mon::seen(2);
  // an exceptions mask with eofbit may report the end of the text first
  if (k >= 1 && !in.fail() && !(threw && in.eof()))
    mon::fail("malformed text accepted", "reading %s does not set failbit, got %s",
              mon::escaped((unsigned char const*)text.data(), int(text.size())).c_str(), text_of(get(x)).c_str());
  if (k == 0 && (in.fail() || get(x).n != want.n || get(x).d != want.d) && !threw)
    mon::fail("well-formed text", "reading %s gives %s (state %d)", mon::escaped((unsigned char const*)text.data(), int(text.size())).c_str(),
              text_of(get(x)).c_str(), int(in.rdstate()));
  bool const asked = (int(in.rdstate()) & mask) != 0;
  if (threw != asked)
    mon::fail("exception mask", "state %d, exceptions mask %d, but the call %s", int(in.rdstate()), mask,
              threw ? "threw" : "did not throw");
  mon::done();
  ++*mon::bucket("read: %s%s", k == 1 ? "must fail" : k == 2 ? "beyond the type, must fail" : k == 0 ? "well-formed" : "not judged", mask ? ", exceptions on" : "");
  if (threw)
    MON_BUCKET("exceptions caught");
}

static const char pool[] = "0123456789/-+ \t\nabx.'e\0";

template <class T, class R> void malformed(mon::Env& e, const char* kind, double w)
{
  Ri const r = ri<R>;
  static const int masks[] = {0, 0, int(std::ios_base::failbit), int(std::ios_base::failbit | std::ios_base::badbit),
                              int(std::ios_base::eofbit), int(std::ios_base::eofbit | std::ios_base::failbit | std::ios_base::badbit)};
  auto all = [&](std::string const& t, const char* cls) {
    for (int m : masks)
      for (bool s : {false, true})
        read_text<T, R>(kind, cls, t, m, s);
  };
  for (const char* t : {"", " ", "\n", "abc", "/", "/3", " /3", "-", "-/4", "+", "3", "3 ", "3 4", "3x", "3.5", "3/", "3/ ", "3/x",
                        "3/-", "3/+", "3//4", "3/ /", "x3/4", "--3/4", "+-3/4", "3/--4", "3/4", "-3/4", "3/-4", "0/0", "3/4/5",
                        "3/4x", "\n\n 5/6", "007/08", "+3/+4", ".5/2", "3/.5", "'3/4"})
    all(t, "table");
  ++mon::S->exhausted_spaces;
  // every short text over a small alphabet
  static const char A[] = "0-/ 1x+";
  int const len = e.thorough ? 6 : 4;
  for (int n = 0; n <= len; ++n)
  {
    uint64_t total = 1;
    for (int i = 0; i < n; ++i)
      total *= 7;
    for (uint64_t i = 0; i < total; ++i)
    {
      std::string t(size_t(n), ' ');
      uint64_t v = i;
      for (auto& c : t)
        c = A[v % 7], v /= 7;
      read_text<T, R>(kind, "every short text", t, (i & 1) ? int(std::ios_base::failbit) : 0, i & 2);
    }
  }
  ++mon::S->exhausted_spaces;
  uint64_t const n = uint64_t(double(e.count(60000, 2500000)) * w);
  for (uint64_t i = 0; e.go(i, n); ++i)
  {
    auto& g = e.rng;
    std::string t;
    const char* cls;
    switch (g.below(7))
    {
      case 6:
      {
        // around the ends of the type, and of wider ones
        auto number = [&] {
          i128 const v = g.chance(30) ? r.max : i128(1) << g.range(r.bits, 90);
          return sgn_(g, ri<long>, g.chance(50) ? v + g.range(-3, 9) : v + i128(g.u() & 0xffffffff), 45);
        };
        t = mon::str(g.chance(60) ? number() : i128(g.range(0, 9))) + "/" + mon::str(g.chance(60) ? number() : i128(g.range(1, 9)));
        cls = "beyond the type";
        break;
      }
      case 0:
        for (int k = g.range(0, 16); k > 0; --k)
          t += char(g.below(256));
        cls = "random bytes";
        break;
      case 1:
        for (int k = g.range(0, 16); k > 0; --k)
          t += pool[g.below(sizeof pool - 1)];
        cls = "random characters";
        break;
      case 2:
        t = text_of(gen_components(g, r));
        t.resize(g.below(t.size() + 1));
        cls = "truncated";
        break;
      case 3:
        t = text_of(gen_components(g, r));
        if (!t.empty())
          t[g.below(t.size())] = pool[g.below(sizeof pool - 1)];
        cls = "one character changed";
        break;
      case 4:
        t = text_of(gen_components(g, r));
        t.insert(g.below(t.size() + 1), 1, pool[g.below(sizeof pool - 1)]);
        cls = "one character inserted";
        break;
      default:
        t = std::string(size_t(g.range(0, 600)), "0/- 9x"[g.below(6)]) + text_of(gen_components(g, r));
        cls = "long";
    }
    read_text<T, R>(kind, cls, t, masks[g.below(6)], g.chance(30));
  }
}

// -------------------------------------------------------------- failing buffers

template <class T, class R> void faults(mon::Env& e, const char* kind, double w)
{
  Ri const r = ri<R>;
  uint64_t const n = uint64_t(double(e.count(15000, 800000)) * w);
  for (uint64_t i = 0; e.go(i, n); ++i)
  {
    auto& g = e.rng;
    Fr const f = gen_components(g, r);
    std::string const full = text_of(f);
    Slow b;
    b.in = full;
    b.limit = g.below(full.size() + 2);
    b.throws = g.chance(50);
    int const mask = g.chance(50) ? int(std::ios_base::badbit) | (g.chance(50) ? int(std::ios_base::failbit) : 0) : 0;
    bool const writing = g.chance(50);
    mon::begin(writing ? "write to a failing buffer" : "read from a failing buffer", kind, type_name<R>::s, b.throws ? "throwing" : "failing", f.n,
               f.d, i128(b.limit), mask);
    bool threw = false;
    if (writing)
    {
      std::ostream o(&b);
      o.exceptions(std::ios_base::iostate(mask));
      T const x = build<T, R>(f);
      try
      {
        o << x;
      }
      catch (...)
      {
        threw = true;
      }
      mon::seen(3);
      bool const complete = b.limit >= full.size();
      if (complete ? !o.good() : !o.fail())
        mon::fail("state after a failed write", "%zu of %zu characters accepted, the stream is in state %d", b.out.size(), full.size(), int(o.rdstate()));
      if (full.compare(0, b.out.size(), b.out) != 0 || (complete && b.out != full))
        mon::fail("text of a failed write", "\"%s\" was written of \"%s\"", b.out.c_str(), full.c_str());
      if (threw != ((int(o.rdstate()) & mask) != 0))
        mon::fail("exception of a failed write", "state %d, mask %d, but the call %s", int(o.rdstate()), mask, threw ? "threw" : "did not throw");
    }
    else
    {
      std::istream in(&b);
      in.exceptions(std::ios_base::iostate(mask));
      T x = build<T, R>({1, 2});
      try
      {
        in >> x;
      }
      catch (...)
      {
        threw = true;
      }
      mon::seen(2);
      size_t const slash = full.find('/');
      // up to the '/' or the sign after it, there is no denominator yet
      bool const cannot = b.limit <= slash + 1;
      if (cannot && !in.fail())
        mon::fail("state after a failed read", "a buffer of %zu characters of %s gives a fraction", b.limit, full.c_str());
      if (threw && !b.throws && (int(in.rdstate()) & mask) == 0)
        mon::fail("exception of a failed read", "state %d, mask %d, but the call threw", int(in.rdstate()), mask);
      if (!threw && (int(in.rdstate()) & mask) != 0)
        mon::fail("exception of a failed read", "state %d, mask %d, but the call did not throw", int(in.rdstate()), mask);
    }
    mon::done();
    MON_BUCKET("failing buffers");
    if (b.throws)
      MON_BUCKET("throwing buffers");
    if (threw)
      MON_BUCKET("exceptions caught from failing buffers");
  }
  // a stream that has already failed stays failed and untouched
  for (int k = 0; k < 50; ++k)
  {
    Fr const f = gen_components(e.rng, r);
    mon::begin("stream already failed", kind, type_name<R>::s, nullptr, f.n, f.d);
    std::stringstream s;
    s << build<T, R>(f);
    s.setstate(std::ios_base::failbit);
    s << build<T, R>(f);
    T x = build<T, R>({1, 2});
    s >> x;
    mon::seen(2);
    if (!s.fail() || s.str() != text_of(f))
      mon::fail("failed stream", "a failed stream was written to or became good");
    s.clear();
    s >> x;
    if (s.fail() || get(x).n != f.n || get(x).d != f.d)
      mon::fail("cleared stream", "after clear() %s reads as %s", text_of(f).c_str(), text_of(get(x)).c_str());
    mon::done();
  }
}

template <class T, class R> void all(mon::Env& e, const char* kind, double w)
{
  Ri const r = ri<R>;
  int const k = int(std::min<i128>(r.max, 40)), lo = r.sg ? -k : 0;
  for (int n = lo; n <= k; ++n)
    for (int d = lo; d <= k; ++d)
      output<T, R>(kind, {n, d});
  ++mon::S->exhausted_spaces;
  uint64_t const n = uint64_t(double(e.count(20000, 1500000)) * w);
  for (uint64_t i = 0; e.go(i, n); ++i)
    output<T, R>(kind, gen_components(e.rng, r));
  uint64_t const h = uint64_t(double(e.count(20000, 1200000)) * w);
  for (uint64_t i = 0; e.go(i, h); ++i)
    round_trip<T, R>(e, kind, i);
  formats<T, R>(e, kind, w);
  malformed<T, R>(e, kind, w);
  faults<T, R>(e, kind, w);
}

int main(int argc, char** argv)
{
  return mon::main_impl(argc, argv, [](mon::Env& e) {
#if PART == 0
    all<fraction<int, ops::safe_reduced_io>, int>(e, "fraction safe_reduced_io", 1);
    all<fraction<long, ops::fast>, long>(e, "fraction fast", 1);
#elif PART == 1
    all<raw_fraction<int>, int>(e, "raw_fraction", 1);
    all<raw_fraction<unsigned long>, unsigned long>(e, "raw_fraction", 1);
#elif PART == 2
    all<fraction<unsigned int, ops::safe>, unsigned int>(e, "fraction safe", 0.6);
    all<fraction<long long, ops::fast_reduced_io>, long long>(e, "fraction fast_reduced_io", 0.6);
    all<fraction<short, ops::safe_reduced_o>, short>(e, "fraction safe_reduced_o", 0.6);
#else
#error "unknown part"
#endif
  });
}
