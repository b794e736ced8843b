// C05: reduction is canonical; output-reducing policies deliver it.
#include "frac.hpp"

using namespace fx;

// Fractions whose reduced form has a denominator the type cannot represent:
// only the mode that ignores signs, and the question, are in range.
template <class R, class P> void unrepresentable(Fr a)
{
  auto const x = mk<R, P>(a);
  auto const X = x.raw();
  auto ign = [&](const char* n, auto f) {
    mon::begin(n, pol<P>::s, type_name<R>::s, nullptr, a.n, a.d);
    Fr const g = get(f());
    mon::seen();
    if (g.d == 0 || !eqv(g, a) || igcd(g.n, g.d) != 1)
      mon::fail(n, "%s of %s (policy %s, %s) gave %s", n, sh(a).c_str(), pol<P>::s, type_name<R>::s, sh(g).c_str());
    mon::done();
  };
  ign("reduce(ignore)", [&] { return reduce(x, reduce_mode::ignore_signs); });
  ign("reduce_ignore_signs", [&] { return reduce_ignore_signs(x); });
  ign("raw reduce(ignore)", [&] { return reduce(X, reduce_mode::ignore_signs); });
  ign("raw reduce_ignore_signs", [&] { return reduce_ignore_signs(X); });
  mon::begin("is_reduced", pol<P>::s, type_name<R>::s, nullptr, a.n, a.d);
  mon::seen(2);
  if (is_reduced(x) || is_reduced(X))
    mon::fail("is_reduced", "is_reduced(%s) is true", sh(a).c_str());
  mon::done();
  MON_BUCKET("reduced form is not representable");
}

template <class R, class P> void unary(Fr a, i128 k)
{
  using ieme::are_identical;
  auto const x = mk<R, P>(a);
  auto const X = x.raw();
  Fr const q = red(a, true);
  auto bad = [&](const char* n, Fr g) {
    mon::fail(n, "%s of %s (policy %s, %s) gave %s, expected %s", n, sh(a).c_str(), pol<P>::s, type_name<R>::s,
              sh(g).c_str(), sh(q).c_str());
  };
  auto norm = [&](const char* n, auto f) {
    mon::begin(n, pol<P>::s, type_name<R>::s, nullptr, a.n, a.d);
    Fr const g = get(f());
    mon::seen();
    if (g.n != q.n || g.d != q.d)
      bad(n, g);
    mon::done();
  };
  auto ign = [&](const char* n, auto f) {
    mon::begin(n, pol<P>::s, type_name<R>::s, nullptr, a.n, a.d);
    Fr const g = get(f());
    mon::seen();
    if (g.d == 0 || !eqv(g, a) || igcd(g.n, g.d) != 1)
      bad(n, g);
    mon::done();
  };
  norm("reduce", [&] { return reduce(x); });
  norm("reduce(normalize)", [&] { return reduce(x, reduce_mode::normalize_signs); });
  norm("reduce_normalize_signs", [&] { return reduce_normalize_signs(x); });
  norm("reduce twice", [&] { return reduce(reduce(x)); });
  norm("reduce after ignoring", [&] { return reduce(reduce_ignore_signs(x)); });
  norm("raw reduce", [&] { return reduce(X); });
  norm("raw reduce(normalize)", [&] { return reduce(X, reduce_mode::normalize_signs); });
  norm("raw reduce_normalize_signs", [&] { return reduce_normalize_signs(X); });
  ign("reduce(ignore)", [&] { return reduce(x, reduce_mode::ignore_signs); });
  ign("reduce_ignore_signs", [&] { return reduce_ignore_signs(x); });
  ign("raw reduce(ignore)", [&] { return reduce(X, reduce_mode::ignore_signs); });
  ign("raw reduce_ignore_signs", [&] { return reduce_ignore_signs(X); });

  mon::begin("is_reduced", pol<P>::s, type_name<R>::s, nullptr, a.n, a.d);
  bool const want = a.n == q.n && a.d == q.d;
  bool const g1 = is_reduced(x), g2 = is_reduced(X), g3 = is_reduced(reduce(x)),
             g4 = is_reduced(mk<R, P>(q));
  mon::seen(4);
  if (g1 != want || g2 != want || !g3 || !g4)
    mon::fail("is_reduced", "is_reduced(%s) = %d/%d (raw), expected %d; of its reduced form %d %d", sh(a).c_str(), g1, g2,
              want, g3, g4);
  mon::done();
  // other representations of the same value reduce to the same components
  i128 const m = std::max(iabs(q.n), q.d);
  i128 kk = k % (ri<R>.max / m + 1);
  if (kk == 0)
    kk = 1;
  Fr const b {q.n * kk, q.d * kk};
  mon::begin("equal values, identical reduced forms", pol<P>::s, type_name<R>::s, nullptr, a.n, a.d, b.n, b.d);
  auto const ra = reduce(x), rb = reduce(mk<R, P>(b));
  mon::seen();
  if (!are_identical(ra, rb) || get(ra).n != get(rb).n || get(ra).d != get(rb).d)
    mon::fail("equal values, identical reduced forms", "%s and %s reduce to %s and %s", sh(a).c_str(), sh(b).c_str(),
              sh(get(ra)).c_str(), sh(get(rb)).c_str());
  mon::done();
  if (want)
    MON_BUCKET("already reduced");
  else if (igcd(a.n, a.d) == 1)
    MON_BUCKET("only the sign differs");
  else
    MON_BUCKET("common factor");
  if (m > 1 && iabs(kk) > 1)
    MON_BUCKET("other representation differs");
}

// results of every operator under output-reducing policies
template <class P, class L, class R> struct Out {
  using C = std::common_type_t<L, R>;
  static constexpr Ri r = ri<C>;
  template <class Do> static void one(const char* name, Op op, Fr a, bool aw, Fr b, bool bw, Do&& run)
  {
    Fr want;
    if (!domain(pol<P>::d, op, a, aw, b, bw, r, want))
      return mon::ood();
    mon::begin(name, pol<P>::s, type_name<L>::s, type_name<R>::s, a.n, a.d, b.n, b.d);
    auto const res = run();
    exact(name, get(res), want);
    canonical(name, pol<P>::d, get(res));
    mon::seen();
    if (pol<P>::d.out_norm && !is_reduced(res))
      mon::fail(name, "%s: is_reduced(%s) is false", name, sh(get(res)).c_str());
    mon::done();
    static uint64_t* const bk = mon::bucket("%s %s %s,%s", name, pol<P>::s, type_name<L>::s, type_name<R>::s);
    ++*bk;
  }
  static void pair(Fr a, Fr b, i128 wr, i128 wl)
  {
    if constexpr (pol<P>::d.out)
    {
      auto const x = mk<L, P>(a);
      auto const y = mk<R, P>(b);
      R const v = static_cast<R>(wr);
      L const u = static_cast<L>(wl);
      one("frac+frac", ADD, a, false, b, false, [&] { return x + y; });
      one("frac-frac", SUB, a, false, b, false, [&] { return x - y; });
      one("frac*frac", MUL, a, false, b, false, [&] { return x * y; });
      one("frac/frac", DIV, a, false, b, false, [&] { return x / y; });
      one("frac%frac", MOD, a, false, b, false, [&] { return x % y; });
      one("frac+whole", ADD, a, false, {wr, 1}, true, [&] { return x + v; });
      one("frac-whole", SUB, a, false, {wr, 1}, true, [&] { return x - v; });
      one("frac*whole", MUL, a, false, {wr, 1}, true, [&] { return x * v; });
      one("frac/whole", DIV, a, false, {wr, 1}, true, [&] { return x / v; });
      one("frac%whole", MOD, a, false, {wr, 1}, true, [&] { return x % v; });
      one("whole+frac", ADD, {wl, 1}, true, b, false, [&] { return u + y; });
      one("whole-frac", SUB, {wl, 1}, true, b, false, [&] { return u - y; });
      one("whole*frac", MUL, {wl, 1}, true, b, false, [&] { return u * y; });
      one("whole/frac", DIV, {wl, 1}, true, b, false, [&] { return u / y; });
      one("whole%frac", MOD, {wl, 1}, true, b, false, [&] { return u % y; });
      if constexpr (std::is_same_v<L, R>)
      {
        // the quotient by a denominator literal
        using Literal = ieme::denominator_literal<false, P>;
        if (wr >= 0)
        {
          Literal const lit(static_cast<unsigned long long>(wr));
          one("frac/literal", DIV, a, false, {wr, 1}, true, [&] { return x / lit; });
        }
        else
        {
          Literal const lit(static_cast<unsigned long long>(-wr));
          one("frac/-literal", DIV, a, false, {wr, 1}, true, [&] { return x / -lit; });
        }
      }
      if (ri<L>.sg || a.n == 0)
      {
        mon::begin("negate", pol<P>::s, type_name<L>::s, nullptr, a.n, a.d);
        auto const res = -x;
        exact("negate", get(res), {-a.n, a.d});
        canonical("negate", pol<P>::d, get(res));
        mon::done();
      }
    }
  }
};

template <class L, class R, class Ps> void random_pairs(mon::Env& e, uint64_t n)
{
  using C = std::common_type_t<L, R>;
  Ri la = ri<L>, ra = ri<R>;
  la.sg = la.sg && ri<C>.sg;
  ra.sg = ra.sg && ri<C>.sg;
  for (uint64_t i = 0; e.go(i, n); ++i)
  {
    Fr a, b;
    Ri g = la.bits < ra.bits ? la : ra;
    g.sg = la.sg && ra.sg;
    e.rng.chance(60) ? gen_pair(e.rng, g, a, b) : gen_pair_mul(e.rng, g, a, b);
    a = clampfr(a, la);
    b = clampfr(b, ra);
    Ri cw = ri<C>;
    cw.sg = la.sg && ra.sg;
    i128 const wr = clampfr({gen_whole(e.rng, cw, a), 1}, ra).n;
    i128 const wl = clampfr({gen_whole(e.rng, cw, b), 1}, la).n;
    i128 const k = sgn_(e.rng, la, 1 + gen_mag(e.rng, la, e.rng.range(1, la.bits - 1)), 40);
    each(Ps {}, [&]<class P>() {
      Out<P, L, R>::pair(a, b, wr, wl);
      if constexpr (std::is_same_v<L, R>)
        if ((i & 3) == 0)
        {
          unary<L, P>(a, k);
          unary<L, P>(b, k);
        }
    });
  }
}

#include "parts.hpp"

template <class L, class R, class Ps> void go(mon::Env& e, double w)
{
  if constexpr (std::is_same_v<L, R>)
  {
    int const k = e.thorough ? 60 : 12, lo = ri<L>.sg ? -k : 0;
    for (int n = lo; n <= k; ++n)
      for (int d = lo; d <= k; ++d)
        if (d)
          each(Ps {}, [&]<class P>() { unary<L, P>({n, d}, ri<L>.sg ? -7 : 7); });
    ++mon::S->exhausted_spaces;
    each_landmark(ri<L>, false, [&](Fr a) { each(Ps {}, [&]<class P>() { unary<L, P>(a, ri<L>.sg ? -3 : 3); }); });
    each_lowest(e, ri<L>, false, e.count(1000, 50000), [&](Fr a) {
      bool const fits = holds(red(a, true), ri<L>);
      each(Ps {}, [&]<class P>() { fits ? unary<L, P>(a, -3) : unrepresentable<L, P>(a); });
    });
  }
  {
    using C = std::common_type_t<L, R>;
    Ri la = ri<L>, ra = ri<R>;
    la.sg = la.sg && ri<C>.sg;
    ra.sg = ra.sg && ri<C>.sg;
    each_landmark_pair(e, la, ra, [&](Fr a, Fr b) {
      each(Ps {}, [&]<class P>() { Out<P, L, R>::pair(a, b, b.n, a.n); });
    });
  }
  random_pairs<L, R, Ps>(e, uint64_t(double(e.count(45000, 3000000)) * w));
}

int main(int argc, char** argv) { return mon::main_impl(argc, argv, all_parts); }
