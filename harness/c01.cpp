// C01: + - * / are exact, every policy, type and operand form.
#include "frac.hpp"

using namespace fx;

template <class P, class L, class R> struct Judge {
  using C = std::common_type_t<L, R>;
  static constexpr Ri r = ri<C>;

  template <class Do> static void
  one(const char* name, Op op, Fr a, bool aw, Fr b, bool bw, Do&& run)
  {
    Fr want;
    if (!domain(pol<P>::d, op, a, aw, b, bw, r, want))
    {
      mon::ood();
      return;
    }
    mon::begin(name, pol<P>::s, type_name<L>::s, type_name<R>::s, a.n, a.d, b.n, b.d);
    auto const res = run();
    mon::same_type<std::decay_t<decltype(res)>, fraction<C, P>>("result type");
    exact(name, get(res), want);
    mon::done(!(a.n == 0 && b.n == 0));
    static uint64_t* const bk
      = mon::bucket("%s %s %s,%s", name, pol<P>::s, type_name<L>::s, type_name<R>::s);
    ++*bk;
  }

  static void unchanged(const char* n, Fr a, Fr now)
  {
    mon::seen();
    if (a.n != now.n || a.d != now.d)
      mon::fail(n, "operand changed from %s to %s", sh(a).c_str(), sh(now).c_str());
  }

  // a in L's range, b in R's range; wa/wb whole numbers of those types
  static void pair(Fr a, Fr b)
  {
    fraction<L, P> const x = mk<L, P>(a);
    fraction<R, P> const y = mk<R, P>(b);
    one("frac+frac", ADD, a, false, b, false, [&] { return x + y; });
    one("frac-frac", SUB, a, false, b, false, [&] { return x - y; });
    one("frac*frac", MUL, a, false, b, false, [&] { return x * y; });
    one("frac/frac", DIV, a, false, b, false, [&] { return x / y; });
    unchanged("left operand", a, get(x));
    unchanged("right operand", b, get(y));
  }
  static void whole_right(Fr a, i128 w)
  {
    fraction<L, P> const x = mk<L, P>(a);
    R const v = static_cast<R>(w);
    Fr const b {w, 1};
    one("frac+whole", ADD, a, false, b, true, [&] { return x + v; });
    one("frac-whole", SUB, a, false, b, true, [&] { return x - v; });
    one("frac*whole", MUL, a, false, b, true, [&] { return x * v; });
    one("frac/whole", DIV, a, false, b, true, [&] { return x / v; });
    unchanged("left operand", a, get(x));
  }
  static void whole_left(i128 w, Fr b)
  {
    fraction<R, P> const y = mk<R, P>(b);
    L const v = static_cast<L>(w);
    Fr const a {w, 1};
    one("whole+frac", ADD, a, true, b, false, [&] { return v + y; });
    one("whole-frac", SUB, a, true, b, false, [&] { return v - y; });
    one("whole*frac", MUL, a, true, b, false, [&] { return v * y; });
    one("whole/frac", DIV, a, true, b, false, [&] { return v / y; });
    unchanged("right operand", b, get(y));
  }
};

template <class L, class R, class Ps> void random_pairs(mon::Env& e, uint64_t n)
{
  using C = std::common_type_t<L, R>;
  // operands must fit their own type, and be non-negative if the common one is
  // unsigned
  Ri la = ri<L>, ra = ri<R>;
  la.sg = la.sg && ri<C>.sg;
  ra.sg = ra.sg && ri<C>.sg;
  Ri const lo = la.bits < ra.bits ? la : ra;
  for (uint64_t i = 0; e.go(i, n); ++i)
  {
    Fr a, b;
    bool const addish = e.rng.chance(60);
    // values near the limits of the narrower type, or of the common one
    Ri g = e.rng.chance(50) ? lo : ri<C>;
    g.sg = la.sg && ra.sg;
    addish ? gen_pair(e.rng, g, a, b) : gen_pair_mul(e.rng, g, a, b);
    a = clampfr(a, la);
    b = clampfr(b, ra);
    shape(a, b, ri<C>);
    Ri cw = ri<C>;
    cw.sg = la.sg && ra.sg;
    i128 const wr = clampfr({gen_whole(e.rng, cw, a), 1}, ra).n;
    i128 const wl = clampfr({gen_whole(e.rng, cw, b), 1}, la).n;
    each(Ps {}, [&]<class P>() {
      Judge<P, L, R>::pair(a, b);
      Judge<P, L, R>::whole_right(a, wr);
      Judge<P, L, R>::whole_left(wl, b);
    });
  }
}

// every pair of fractions with components in [-k, k]
template <class R, class Ps> void exhaustive(mon::Env& e, int k)
{
  int const lo = ri<R>.sg ? -k : 0;
  uint64_t it = 0;
  for (int an = lo; an <= k; ++an)
    for (int ad = lo; ad <= k; ++ad)
      for (int bn = lo; bn <= k; ++bn)
        for (int bd = lo; bd <= k; ++bd)
        {
          if (!ad || !bd)
            continue;
          if (!e.go(it++, UINT64_MAX))
            return;
          each(Ps {}, [&]<class P>() {
            Judge<P, R, R>::pair({an, ad}, {bn, bd});
            if (bd == 1)
              Judge<P, R, R>::whole_right({an, ad}, bn);
            if (ad == 1)
              Judge<P, R, R>::whole_left(an, {bn, bd});
          });
        }
  ++mon::S->exhausted_spaces;
}

#include "parts.hpp"

template <class L, class R, class Ps> void go(mon::Env& e, double w)
{
  if constexpr (std::is_same_v<L, R>)
    exhaustive<L, Ps>(e, e.thorough ? 9 : ri<L>.sg ? 4 : 7);
  {
    using C = std::common_type_t<L, R>;
    Ri la = ri<L>, ra = ri<R>;
    la.sg = la.sg && ri<C>.sg;
    ra.sg = ra.sg && ri<C>.sg;
    each_landmark_pair(e, la, ra, [&](Fr a, Fr b) {
      each(Ps {}, [&]<class P>() {
        Judge<P, L, R>::pair(a, b);
        if (b.d == 1)
          Judge<P, L, R>::whole_right(a, b.n);
        if (a.d == 1)
          Judge<P, L, R>::whole_left(a.n, b);
      });
    });
  }
  random_pairs<L, R, Ps>(e, uint64_t(double(e.count(110000, 5000000)) * w));
}

int main(int argc, char** argv) { return mon::main_impl(argc, argv, all_parts); }
