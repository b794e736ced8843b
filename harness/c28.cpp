// C28: a policy written by the user decides all arithmetic.
#include "frac.hpp"

using namespace fx;

// ------------------------------------------------------- the users' policies
//
// What each function of the policies does, in terms of 128-bit components; the
// policies below and the oracle both use it, the library is in between.

// wraps where 128 bits do not suffice
static constexpr i128 sum(i128 x, i128 y) { return i128(static_cast<unsigned __int128>(x) + static_cast<unsigned __int128>(y)); }

// exact, in wide integers, reduced, positive denominator
static constexpr Fr wide_op(Op op, Fr a, Fr b, Ri r)
{
  a = red(a, true);
  b = red(b, true);
  if (a.d == 0 || b.d == 0 || ((op == DIV || op == MOD) && b.n == 0))
    return {1, 0};
  Fr v {};
  switch (op)
  {
    case ADD: v = {sum(a.n * b.d, b.n * a.d), a.d * b.d}; break;
    case SUB: v = {sum(a.n * b.d, -(b.n * a.d)), a.d * b.d}; break;
    case MUL: v = {a.n * b.n, a.d * b.d}; break;
    case DIV: v = {a.n * b.d, a.d * b.n}; break;
    default: v = {(a.n * b.d) % (b.n * a.d), a.d * b.d}; break;
  }
  v = red(v, true);
  return within(v, r) ? v : Fr {2, 0};
}

// lossy: halves both components until they fit; the remainder is floored; a
// negative is written with its sign in the denominator; the left operand decides
// where sums and products have their sign, so the order of operands matters; a
// negative denominator costs something, so how operands are normalised matters
static constexpr Fr lossy_op(Op op, Fr a, Fr b, Ri r)
{
  Fr v {};
  switch (op)
  {
    case ADD: v = {sum(a.n * b.d, b.n * a.d), a.d * b.d}; break;
    case SUB: v = {sum(a.n * b.d, -(b.n * a.d)), a.d * b.d}; break;
    case MUL: v = {a.n * b.n, a.d * b.d}; break;
    case DIV: v = {a.n * b.d, a.d * b.n}; break;
    default:
    {
      i128 const s = a.n * b.d, t = b.n * a.d;
      v = t == 0 ? Fr {3, 0} : Fr {s - floordiv(s, t) * t, a.d * b.d};
    }
  }
  if (a.d < 0 && (op == ADD || op == MUL))
    v = {-v.n, -v.d};
  v.n = sum(v.n, i128(a.d < 0) + 3 * i128(b.d < 0));
  if (!r.sg && v.n < 0)
    v.n = 0;
  while (!within(v, r))
    v = {v.n / 2, v.d / 2};
  return v;
}

// undefined is above everything and equal to itself
static constexpr int order(Fr a, Fr b)
{
  if (a.d == 0 || b.d == 0)
    return int(a.d == 0) - int(b.d == 0);
  return cmpv(a, b);
}

// by components: an order of what is written, not of the values
static constexpr int strict(Fr a, Fr b)
{
  auto three_way = [](i128 x, i128 y) { return int(x > y) - int(x < y); };
  if (a.d == 0)
    a.n = 0;
  if (b.d == 0)
    b.n = 0;
  return a.n == b.n ? three_way(a.d, b.d) : three_way(a.n, b.n);
}

template <class R> static constexpr Fr in(raw_fraction<R> const& f) { return {i128(f.numerator), i128(f.denominator)}; }
template <class R> static constexpr Fr in(R const& w) { return {i128(w), 1}; }
template <class R> static constexpr raw_fraction<R> out(Fr f) { return {static_cast<R>(f.n), static_cast<R>(f.d)}; }

// written out, as the built-in policies are: three forms of each function
template <Fr (*OP)(Op, Fr, Fr, Ri), int (*ORDER)(Fr, Fr), bool SIGN_BELOW> struct own {
  ~own() = delete;
#define FORMS(type, name, expr)                                                                                        \
  template <class R> static constexpr type name(raw_fraction<R> const& a, raw_fraction<R> const& b) noexcept { expr; } \
  template <class R> static constexpr type name(raw_fraction<R> const& a, R const& b) noexcept { expr; }               \
  template <class R> static constexpr type name(R const& a, raw_fraction<R> const& b) noexcept { expr; }
  template <class R> static constexpr raw_fraction<R> negate(raw_fraction<R> const& a) noexcept
  {
    return SIGN_BELOW ? raw_fraction<R> {a.numerator, static_cast<R>(-a.denominator)}
                      : raw_fraction<R> {static_cast<R>(-a.numerator), a.denominator};
  }
  FORMS(raw_fraction<R>, plus, return out<R>(OP(ADD, in(a), in(b), ri<R>)))
  FORMS(raw_fraction<R>, minus, return out<R>(OP(SUB, in(a), in(b), ri<R>)))
  FORMS(raw_fraction<R>, multiplies, return out<R>(OP(MUL, in(a), in(b), ri<R>)))
  FORMS(raw_fraction<R>, divides, return out<R>(OP(DIV, in(a), in(b), ri<R>)))
  FORMS(raw_fraction<R>, modulus, return out<R>(OP(MOD, in(a), in(b), ri<R>)))
  FORMS(bool, equal_to, return ORDER(in(a), in(b)) == 0)
  FORMS(bool, not_equal_to, return ORDER(in(a), in(b)) != 0)
  FORMS(bool, less, return ORDER(in(a), in(b)) < 0)
  FORMS(bool, less_equal, return ORDER(in(a), in(b)) <= 0)
  FORMS(bool, greater, return ORDER(in(a), in(b)) > 0)
  FORMS(bool, greater_equal, return ORDER(in(a), in(b)) >= 0)
};
using own_wide = own<wide_op, order, false>;
using own_lossy = own<lossy_op, strict, true>;
using lossy_in = ops::reduced_input<own_lossy>;
using lossy_in_norm = ops::reduced_input<own_lossy, reduce_mode::normalize_signs>;
using lossy_out = ops::reduced_output<own_lossy>;
using lossy_out_ign = ops::reduced_output<own_lossy, reduce_mode::ignore_signs>;
using lossy_io = ops::reduced_input<ops::reduced_output<own_lossy, reduce_mode::normalize_signs>, reduce_mode::ignore_signs>;
using wide_in = ops::reduced_input<own_wide>;

// how a policy is described to the oracle
struct Desc {
  const char* s;
  Fr (*op)(Op, Fr, Fr, Ri);
  int (*order)(Fr, Fr);
  bool below, in, in_norm, out, out_norm;
  int bit;
};
template <class P> constexpr Desc desc {};
template <> constexpr Desc desc<own_wide> {"own_wide", wide_op, order, false, false, false, false, false, 0};
template <> constexpr Desc desc<own_lossy> {"own_lossy", lossy_op, strict, true, false, false, false, false, 1};
template <> constexpr Desc desc<lossy_in> {"reduced_input<own_lossy>", lossy_op, strict, true, true, false, false, false, 2};
template <> constexpr Desc desc<lossy_in_norm> {"reduced_input<own_lossy, normalize>", lossy_op, strict, true, true, true, false, false, 3};
template <> constexpr Desc desc<lossy_out> {"reduced_output<own_lossy>", lossy_op, strict, true, false, false, true, true, 4};
template <> constexpr Desc desc<lossy_out_ign> {"reduced_output<own_lossy, ignore>", lossy_op, strict, true, false, false, true, false, 5};
template <> constexpr Desc desc<lossy_io> {"reduced_input<reduced_output<own_lossy>>", lossy_op, strict, true, true, false, true, true, 6};
template <> constexpr Desc desc<wide_in> {"reduced_input<own_wide>", wide_op, order, false, true, false, false, false, 7};
using all_own = list<own_wide, own_lossy, lossy_in, lossy_in_norm, lossy_out, lossy_out_ign, lossy_io, wide_in>;

// ------------------------------------------------------------------ monitors

template <class P, class L, class R> struct Judge {
  using C = std::common_type_t<L, R>;
  static constexpr Ri r = ri<C>;
  static constexpr Desc D = desc<P>;

  static Fr expected(Op op, Fr a, bool aw, Fr b, bool bw, Ri rr)
  {
    if (D.in && !aw)
      a = red(a, D.in_norm);
    if (D.in && !bw)
      b = red(b, D.in_norm);
    Fr v = D.op(op, a, b, rr);
    return D.out ? red(v, D.out_norm) : v;
  }
  static bool same(Fr got, Fr want)
  {
    // an undefined value's numerator says nothing once it has been reduced
    if (want.d == 0)
      return got.d == 0 && (D.in || D.out || got.n == want.n);
    return got.n == want.n && got.d == want.d;
  }
  template <class Do> static void one(const char* name, Op op, Fr a, bool aw, Fr b, bool bw, Ri rr, Do&& run)
  {
    Fr const want = expected(op, a, aw, b, bw, rr);
    mon::begin(name, D.s, type_name<L>::s, type_name<R>::s, a.n, a.d, b.n, b.d);
    auto const res = run();
    mon::seen();
    Fr const got = get(res);
    if (!same(got, want))
      mon::fail(name, "%s [%s]: %s with %s gives %s, the policy gives %s", name, D.s, sh(a).c_str(), sh(b).c_str(),
                sh(got).c_str(), sh(want).c_str());
    mon::done();
    static uint64_t* const bk[2] = {mon::bucket("%s %s %s,%s", name, D.s, type_name<L>::s, type_name<R>::s),
                                    mon::bucket("%s %s: result not representable exactly", name, D.s)};
    ++*bk[0];
    Fr t;
    if (a.d && b.d && !domain(Pol {false, false, false, false, false}, op, a, false, b, false, rr, t))
      ++*bk[1];
  }
  template <class X, class Y> static void relations(const char* name, Fr a, bool aw, Fr b, bool bw, X const& x, Y const& y)
  {
    if (D.in && !aw)
      a = red(a, D.in_norm);
    if (D.in && !bw)
      b = red(b, D.in_norm);
    int const c = D.order(a, b);
    mon::begin(name, D.s, type_name<L>::s, type_name<R>::s, a.n, a.d, b.n, b.d);
    auto j = [&](const char* w, bool got, bool want) {
      mon::seen();
      if (got != want)
        mon::fail(w, "%s %s [%s]: of %s and %s is %d, the policy says %d", name, w, D.s, sh(a).c_str(), sh(b).c_str(), got, want);
    };
    j("==", x == y, c == 0);
    j("!=", x != y, c != 0);
    j("<", x < y, c < 0);
    j("<=", x <= y, c <= 0);
    j(">", x > y, c > 0);
    j(">=", x >= y, c >= 0);
    mon::done();
    static uint64_t* const bk = mon::bucket("%s %s %s,%s", name, D.s, type_name<L>::s, type_name<R>::s);
    ++*bk;
  }

  static void pair(Fr a, Fr b)
  {
    auto const x = mk<L, P>(a);
    auto const y = mk<R, P>(b);
    one("frac+frac", ADD, a, false, b, false, r, [&] { return x + y; });
    one("frac-frac", SUB, a, false, b, false, r, [&] { return x - y; });
    one("frac*frac", MUL, a, false, b, false, r, [&] { return x * y; });
    one("frac/frac", DIV, a, false, b, false, r, [&] { return x / y; });
    one("frac%frac", MOD, a, false, b, false, r, [&] { return x % y; });
    relations("fractions", a, false, b, false, x, y);
    if (within(b, ri<L>) && (ri<L>.sg || (a.n >= 0 && a.d >= 0)))
    {
      // compound assignment works in the type of its left operand
      auto z = x;
      one("frac+=frac", ADD, a, false, b, false, ri<L>, [&] { return z += y; });
      z = x;
      one("frac-=frac", SUB, a, false, b, false, ri<L>, [&] { return z -= y; });
      z = x;
      one("frac*=frac", MUL, a, false, b, false, ri<L>, [&] { return z *= y; });
      z = x;
      one("frac/=frac", DIV, a, false, b, false, ri<L>, [&] { return z /= y; });
      z = x;
      one("frac%=frac", MOD, a, false, b, false, ri<L>, [&] { return z %= y; });
    }
    if constexpr (ri<L>.sg)
    {
      mon::begin("negate", D.s, type_name<L>::s, nullptr, a.n, a.d);
      Fr v = D.in ? red(a, D.in_norm) : a;
      v = D.below ? Fr {v.n, -v.d} : Fr {-v.n, v.d};
      if (D.out)
        v = red(v, D.out_norm);
      Fr const got = get(-x);
      mon::seen();
      if (!same(got, v) && !(v.d == 0 && got.d == 0))
        mon::fail("negate", "-(%s) [%s] is %s, the policy gives %s", sh(a).c_str(), D.s, sh(got).c_str(), sh(v).c_str());
      mon::done();
    }
  }
  static void whole_right(Fr a, i128 w)
  {
    auto const x = mk<L, P>(a);
    R const v = static_cast<R>(w);
    Fr const b {w, 1};
    one("frac+whole", ADD, a, false, b, true, r, [&] { return x + v; });
    one("frac-whole", SUB, a, false, b, true, r, [&] { return x - v; });
    one("frac*whole", MUL, a, false, b, true, r, [&] { return x * v; });
    one("frac/whole", DIV, a, false, b, true, r, [&] { return x / v; });
    one("frac%whole", MOD, a, false, b, true, r, [&] { return x % v; });
    if constexpr (std::is_same_v<L, R>)
    {
      // a denominator literal stands for its whole number
      using Literal = ieme::denominator_literal<false, P>;
      Literal const lit(static_cast<unsigned long long>(iabs(w)));
      if (w >= 0)
        one("frac/literal", DIV, a, false, b, true, r, [&] { return x / lit; });
      else
        one("frac/-literal", DIV, a, false, b, true, r, [&] { return x / -lit; });
    }
    relations("fraction and whole", a, false, b, true, x, v);
    if (within(w, ri<L>))
    {
      auto z = x;
      one("frac+=whole", ADD, a, false, b, true, ri<L>, [&] { return z += v; });
      z = x;
      one("frac-=whole", SUB, a, false, b, true, ri<L>, [&] { return z -= v; });
      z = x;
      one("frac*=whole", MUL, a, false, b, true, ri<L>, [&] { return z *= v; });
      z = x;
      one("frac/=whole", DIV, a, false, b, true, ri<L>, [&] { return z /= v; });
      z = x;
      one("frac%=whole", MOD, a, false, b, true, ri<L>, [&] { return z %= v; });
    }
  }
  static void whole_left(i128 w, Fr b)
  {
    auto const y = mk<R, P>(b);
    L const v = static_cast<L>(w);
    Fr const a {w, 1};
    one("whole+frac", ADD, a, true, b, false, r, [&] { return v + y; });
    one("whole-frac", SUB, a, true, b, false, r, [&] { return v - y; });
    one("whole*frac", MUL, a, true, b, false, r, [&] { return v * y; });
    one("whole/frac", DIV, a, true, b, false, r, [&] { return v / y; });
    one("whole%frac", MOD, a, true, b, false, r, [&] { return v % y; });
    relations("whole and fraction", a, true, b, false, v, y);
  }
};

template <class L, class R> void go(mon::Env& e, double weight)
{
  using C = std::common_type_t<L, R>;
  Ri la = ri<L>, ra = ri<R>;
  la.sg = la.sg && ri<C>.sg;
  ra.sg = ra.sg && ri<C>.sg;
  auto all = [&](Fr a, Fr b, i128 wl, i128 wr, uint64_t which = ~0ull) {
    each(all_own {}, [&]<class P>() {
      if (!(which >> desc<P>.bit & 1))
        return;
      Judge<P, L, R>::pair(a, b);
      Judge<P, L, R>::whole_right(a, wr);
      Judge<P, L, R>::whole_left(wl, b);
    });
  };
  each_landmark_pair(e, la, ra, [&](Fr a, Fr b) { all(a, b, a.n, b.n, e.thorough ? ~0ull : e.rng.u() & e.rng.u()); }, true);
  uint64_t const n = uint64_t(double(e.count(9000, 1500000)) * weight);
  for (uint64_t i = 0; e.go(i, n); ++i)
  {
    auto& g = e.rng;
    Ri both = la.bits < ra.bits ? la : ra;
    both.sg = la.sg && ra.sg;
    Fr a, b;
    g.chance(60) ? gen_pair(g, both, a, b) : gen_pair_mul(g, both, a, b);
    if (g.chance(50))
      a = gen_any(g, la);
    if (g.chance(50))
      b = gen_any(g, ra);
    a = clampfr(a, la);
    b = clampfr(b, ra);
    if (g.chance(4))
      a.d = 0;
    if (g.chance(4))
      b.d = 0;
    i128 const wl = sgn_(g, la, gen_mag(g, la, g.range(1, la.bits)), 40);
    i128 const wr = sgn_(g, ra, gen_mag(g, ra, g.range(1, ra.bits)), 40);
    all(a, b, wl, wr);
  }
}

int main(int argc, char** argv)
{
  return mon::main_impl(argc, argv, [](mon::Env& e) {
#if PART == 0
    go<int, int>(e, 1);
#elif PART == 1
    go<long, long>(e, 1);
#elif PART == 2
    go<int, long>(e, 0.7);
#elif PART == 3
    go<unsigned int, unsigned int>(e, 0.7);
#elif PART == 4
    go<int, unsigned int>(e, 0.7);
#elif PART == 5
    go<long, int>(e, 0.7);
#elif PART == 6
    go<unsigned int, long>(e, 0.7);
#elif PART == 7
    go<long long, int>(e, 0.7);
#elif PART == 8 // optional: neither type is the common one
  go<short, signed char>(e, 0.5);
#else
#error "unknown part"
#endif
  });
}
