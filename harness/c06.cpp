// C06: overflow headroom of the safe and of the input-reducing policies.
#include "frac.hpp"

using namespace fx;

template <class P, class R> struct Judge {
  static constexpr Ri r = ri<R>;

  template <class Do> static bool one(const char* name, Op op, Fr a, bool aw, Fr b, bool bw, Do&& run)
  {
    Fr want;
    if (!domain(pol<P>::d, op, a, aw, b, bw, r, want))
    {
      mon::ood();
      return false;
    }
    mon::begin(name, pol<P>::s, type_name<R>::s, nullptr, a.n, a.d, b.n, b.d);
    if (op == CMP)
    {
      int const got = run(0), s = int(want.n);
      int const exp = (s == 0) | (s != 0) << 1 | (s < 0) << 2 | (s <= 0) << 3 | (s > 0) << 4 | (s >= 0) << 5;
      mon::seen(6);
      if (got != exp)
        mon::fail(name, "%s (policy %s) of %s and %s: relations ==,!=,<,<=,>,>= are 0x%x, expected 0x%x", name, pol<P>::s,
                  sh(a).c_str(), sh(b).c_str(), got, exp);
    }
    else
    {
      Fr got;
      run(&got);
      exact(name, got, want);
      canonical(name, pol<P>::d, got);
    }
    mon::done();
    // would the textbook formula on the operands as given have overflowed?
    i128 s, t, den;
    bool const hard = op == MUL || op == DIV ? !(domain({false, false, false, false, false}, op, a, aw, b, bw, r, want))
                                             : !scaled(false, a, b, r, s, t, den);
    static uint64_t* const bk[2] = {mon::bucket("%s %s %s", name, pol<P>::s, type_name<R>::s),
                                    mon::bucket("%s %s %s, plain formula overflows", name, pol<P>::s, type_name<R>::s)};
    ++*bk[hard];
    return true;
  }

  template <class X, class Y> static int rel(X const& x, Y const& y)
  {
    return (x == y) | (x != y) << 1 | (x < y) << 2 | (x <= y) << 3 | (x > y) << 4 | (x >= y) << 5;
  }

#define ARITH(expr) [&](auto out) { if constexpr (!std::is_same_v<decltype(out), int>) *out = get(expr); return 0; }
#define RELS(x, y) [&](auto out) { if constexpr (std::is_same_v<decltype(out), int>) return rel(x, y); else return 0; }

  static void pair(Fr a, Fr b)
  {
    auto const x = mk<R, P>(a);
    auto const y = mk<R, P>(b);
    one("frac+frac", ADD, a, false, b, false, ARITH(x + y));
    one("frac-frac", SUB, a, false, b, false, ARITH(x - y));
    one("frac%frac", MOD, a, false, b, false, ARITH(x % y));
    one("frac?frac", CMP, a, false, b, false, RELS(x, y));
    if constexpr (pol<P>::d.in)
    {
      one("frac*frac", MUL, a, false, b, false, ARITH(x * y));
      one("frac/frac", DIV, a, false, b, false, ARITH(x / y));
    }
  }
  static void whole(Fr a, i128 w)
  {
    if constexpr (pol<P>::d.in)
    {
      auto const x = mk<R, P>(a);
      R const v = static_cast<R>(w);
      Fr const b {w, 1};
      one("frac+whole", ADD, a, false, b, true, ARITH(x + v));
      one("frac-whole", SUB, a, false, b, true, ARITH(x - v));
      one("frac*whole", MUL, a, false, b, true, ARITH(x * v));
      one("frac/whole", DIV, a, false, b, true, ARITH(x / v));
      one("frac%whole", MOD, a, false, b, true, ARITH(x % v));
      one("frac?whole", CMP, a, false, b, true, RELS(x, v));
      one("whole+frac", ADD, b, true, a, false, ARITH(v + x));
      one("whole-frac", SUB, b, true, a, false, ARITH(v - x));
      one("whole*frac", MUL, b, true, a, false, ARITH(v * x));
      one("whole/frac", DIV, b, true, a, false, ARITH(v / x));
      one("whole%frac", MOD, b, true, a, false, ARITH(v % x));
      one("whole?frac", CMP, b, true, a, false, RELS(v, x));
    }
  }
};

// denominators with a large common factor, numerators at the edge of what the
// least common denominator allows
static void gen_lcd(mon::Rng& g, Ri r, Fr& a, Fr& b)
{
  i128 p = g.range(1, 9), q = g.range(1, 9);
  if (g.chance(30))
    p = 1 + gen_mag(g, r, g.range(1, r.bits / 3));
  if (g.chance(30))
    q = 1 + gen_mag(g, r, g.range(1, r.bits / 3));
  i128 const c = igcd(p, q);
  i128 const lc = p / c * q;
  i128 f = r.max / lc; // f*lcm(p,q) just fits
  if (f < 1)
    f = 1;
  switch (g.below(4))
  {
    case 0: break;
    case 1: f = std::max<i128>(1, f - g.range(0, 5)); break;
    case 2: f = 1 + g.upto(f - 1); break;
    default: f = 1 + gen_mag(g, r, r.bits) % f;
  }
  a.d = f * p;
  b.d = f * q;
  i128 const gg = igcd(a.d, b.d);
  i128 const ka = b.d / gg, kb = a.d / gg;
  auto num = [&](i128 k, i128 share) {
    i128 const top = r.max / k / share;
    switch (g.below(5))
    {
      case 0: return std::max<i128>(0, top - g.range(0, 2));
      case 1: return i128(g.range(0, 3)) % (top + 1);
      case 2: return i128(g.upto(top));
      case 3: return std::min<i128>(top, iabs(g.chance(50) ? a.d : b.d));
      default: return gen_mag(g, r, r.bits) % (top + 1);
    }
  };
  i128 const share = g.range(1, 2);
  a.n = sgn_(g, r, num(ka, share), 45);
  b.n = sgn_(g, r, num(kb, share), 45);
  if (r.sg && g.chance(25))
    a = {-a.n, -a.d};
  if (r.sg && g.chance(25))
    b = {-b.n, -b.d};
  if (g.chance(15)) // equal or nearly equal values at scale
  {
    b.n = ka ? a.n * ka / std::max<i128>(1, kb) : a.n;
    b.n += g.range(-1, 1);
    if (iabs(b.n) > r.max)
      b.n = 0;
  }
  if (!r.sg)
    a.n = iabs(a.n), b.n = iabs(b.n);
}

// operands that are small once reduced, given with huge unreduced components
static Fr blow_up(mon::Rng& g, Ri r, Fr f)
{
  Fr const q = red(f, false);
  i128 const m = std::max(iabs(q.n), iabs(q.d));
  i128 k = r.max / m;
  if (k > 1 && g.chance(50))
    k = 1 + g.upto(k - 1);
  if (k < 1)
    k = 1;
  k = r.sg && g.chance(30) ? -k : k;
  return {q.n * k, q.d * k};
}

#include "parts1.hpp"

template <class R, class Ps> void go1(mon::Env& e, double w)
{
  Ri const r = ri<R>;
  each_landmark_pair(e, r, r, [&](Fr a, Fr b) {
    each(Ps {}, [&]<class P>() {
      if constexpr (pol<P>::d.safe || pol<P>::d.in)
        Judge<P, R>::pair(a, b);
      if constexpr (pol<P>::d.in)
        if (b.d == 1)
          Judge<P, R>::whole(a, b.n);
    });
  });
  uint64_t const n = uint64_t(double(e.count(60000, 4000000)) * w);
  for (uint64_t i = 0; e.go(i, n); ++i)
  {
    Fr a, b;
    gen_lcd(e.rng, r, a, b);
    each(Ps {}, [&]<class P>() {
      if constexpr (pol<P>::d.safe)
        Judge<P, R>::pair(a, b);
    });
    // input-reducing policies on unreduced forms
    Fr c, d;
    switch (e.rng.below(3))
    {
      case 0: c = a, d = b; break;
      case 1: gen_pair(e.rng, r, c, d); break;
      default: gen_pair_mul(e.rng, r, c, d);
    }
    i128 const wh = gen_whole(e.rng, r, red(c, false));
    Fr const cu = e.rng.chance(85) ? blow_up(e.rng, r, c) : c, du = e.rng.chance(70) ? blow_up(e.rng, r, d) : d;
    shape(cu, du, r);
    each(Ps {}, [&]<class P>() {
      if constexpr (pol<P>::d.in)
      {
        Judge<P, R>::pair(cu, du);
        Judge<P, R>::pair(c, d);
        Judge<P, R>::whole(cu, wh);
      }
    });
  }
}

int main(int argc, char** argv) { return mon::main_impl(argc, argv, all_parts1); }
