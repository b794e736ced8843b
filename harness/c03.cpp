// C03: comparisons are the exact order of the rational values.
#include "frac.hpp"

#include <map>
#include <set>

using namespace fx;

template <class P, class L, class R> struct Judge {
  using C = std::common_type_t<L, R>;
  static constexpr Ri r = ri<C>;

  template <class X, class Y>
  static void one(const char* name, Fr a, bool aw, Fr b, bool bw, X const& x, Y const& y)
  {
    Fr want;
    if (!domain(pol<P>::d, CMP, a, aw, b, bw, r, want))
    {
      mon::ood();
      return;
    }
    int const s = int(want.n);
    // the domain's answer and the general oracle must agree (self check)
    if (s != cmpv(a, b))
    {
      fprintf(stderr, "oracle disagreement\n");
      _exit(76);
    }
    mon::begin(name, pol<P>::s, type_name<L>::s, type_name<R>::s, a.n, a.d, b.n, b.d);
    bool const eq = x == y, ne = x != y, lt = x < y, le = x <= y, gt = x > y, ge = x >= y;
    mon::seen(6);
    auto j = [&](const char* op, bool got, bool exp) {
      if (got != exp)
        mon::fail(name, "%s (policy %s): %s %s %s is %d, expected %d", name, pol<P>::s,
                  sh(a).c_str(), op, sh(b).c_str(), got, exp);
    };
    j("==", eq, s == 0);
    j("!=", ne, s != 0);
    j("<", lt, s < 0);
    j("<=", le, s <= 0);
    j(">", gt, s > 0);
    j(">=", ge, s >= 0);
    mon::done(!(a.n == 0 && b.n == 0));
    static uint64_t* const bk[3] = {
      mon::bucket("%s %s %s,%s less", name, pol<P>::s, type_name<L>::s, type_name<R>::s),
      mon::bucket("%s %s %s,%s equal", name, pol<P>::s, type_name<L>::s, type_name<R>::s),
      mon::bucket("%s %s %s,%s greater", name, pol<P>::s, type_name<L>::s, type_name<R>::s)};
    ++*bk[s + 1];
  }
  static void pair(Fr a, Fr b)
  {
    fraction<L, P> const x = mk<L, P>(a);
    fraction<R, P> const y = mk<R, P>(b);
    one("frac?frac", a, false, b, false, x, y);
  }
  static void whole_right(Fr a, i128 w)
  {
    fraction<L, P> const x = mk<L, P>(a);
    R const v = static_cast<R>(w);
    one("frac?whole", a, false, {w, 1}, true, x, v);
  }
  static void whole_left(i128 w, Fr b)
  {
    fraction<R, P> const y = mk<R, P>(b);
    L const v = static_cast<L>(w);
    one("whole?frac", {w, 1}, true, b, false, v, y);
  }
};

template <class L, class R, class Ps> void random_pairs(mon::Env& e, uint64_t n)
{
  using C = std::common_type_t<L, R>;
  Ri la = ri<L>, ra = ri<R>;
  la.sg = la.sg && ri<C>.sg;
  ra.sg = ra.sg && ri<C>.sg;
  Ri const lo = la.bits < ra.bits ? la : ra;
  for (uint64_t i = 0; e.go(i, n); ++i)
  {
    Fr a, b;
    Ri g = e.rng.chance(50) ? lo : ri<C>;
    g.sg = la.sg && ra.sg;
    gen_pair(e.rng, g, a, b);
    if (e.rng.chance(15)) // b one step from a
    {
      b = a;
      (e.rng.chance(50) ? b.n : b.d) += e.rng.range(-1, 1);
    }
    a = clampfr(a, la);
    b = clampfr(b, ra);
    shape(a, b, ri<C>);
    Ri cw = ri<C>;
    cw.sg = la.sg && ra.sg;
    i128 const wr = clampfr({gen_whole(e.rng, cw, a), 1}, ra).n;
    i128 const wl = clampfr({gen_whole(e.rng, cw, b), 1}, la).n;
    Fr a2 = a;
    if (e.rng.chance(25)) // exactly integer valued
      {
      i128 v;
      if (mul(wr, a.d, v))
        a2 = clampfr({v, a.d}, la);
    }
    Fr b2 = b;
    if (e.rng.chance(25))
      {
      i128 v;
      if (mul(wl, b.d, v))
        b2 = clampfr({v, b.d}, ra);
    }
    each(Ps {}, [&]<class P>() {
      Judge<P, L, R>::pair(a, b);
      Judge<P, L, R>::whole_right(a2, wr);
      Judge<P, L, R>::whole_left(wl, b2);
    });
  }
}

template <class R, class Ps> void exhaustive(mon::Env& e, int k)
{
  int const lo = ri<R>.sg ? -k : 0;
  uint64_t it = 0;
  for (int an = lo; an <= k; ++an)
    for (int ad = lo; ad <= k; ++ad)
      for (int bn = lo; bn <= k; ++bn)
        for (int bd = lo; bd <= k; ++bd)
        {
          if (!ad || !bd)
            continue;
          if (!e.go(it++, UINT64_MAX))
            return;
          each(Ps {}, [&]<class P>() {
            Judge<P, R, R>::pair({an, ad}, {bn, bd});
            if (bd == 1)
              Judge<P, R, R>::whole_right({an, ad}, bn);
            if (ad == 1)
              Judge<P, R, R>::whole_left(an, {bn, bd});
          });
        }
  ++mon::S->exhausted_spaces;
}

// Sorting and ordered containers over mixed representations, against the oracle.
template <class R, class P> void containers(mon::Env& e, uint64_t n)
{
  Ri const r = ri<R>;
  for (uint64_t i = 0; e.go(i, n); ++i)
  {
    std::vector<Fr> v;
    int const k = e.rng.range(2, 40);
    int const bits = r.bits / 2 - 1;
    for (int j = 0; j < k; ++j)
    {
      Fr f = e.rng.chance(40) ? gen_small(e.rng, r, 6) : clampfr(gen_fr(e.rng, r, bits, bits), r);
      if (iabs(f.n) >> bits)
        f.n %= i128(1) << bits;
      if (iabs(f.d) >> bits)
        f.d = 1 + iabs(f.d) % 1000;
      v.push_back(f);
    }
    mon::begin("std::sort / std::map", pol<P>::s, type_name<R>::s, nullptr, k, v[0].n, v[0].d, v[1].n, v[1].d);
    std::vector<fraction<R, P>> s;
    std::map<fraction<R, P>, int> m;
    for (auto& f : v)
    {
      s.push_back(mk<R, P>(f));
      ++m[mk<R, P>(f)];
    }
    std::sort(s.begin(), s.end());
    for (size_t j = 1; j < s.size(); ++j)
    {
      mon::seen();
      if (cmpv(get(s[j - 1]), get(s[j])) > 0)
        mon::fail("sort order", "sorted sequence has %s before %s",
                  sh(get(s[j - 1])).c_str(), sh(get(s[j])).c_str());
    }
    // number of distinct values
    std::vector<Fr> u;
    for (auto& f : v)
      u.push_back(red(f, true));
    std::sort(u.begin(), u.end(), [](Fr a, Fr b) { return cmpv(a, b) < 0; });
    size_t distinct = 0;
    for (size_t j = 0; j < u.size(); ++j)
      distinct += j == 0 || cmpv(u[j - 1], u[j]) != 0;
    mon::seen();
    if (distinct != m.size())
      mon::fail("map size", "map holds %zu keys, %zu distinct values were inserted", m.size(), distinct);
    mon::done();
    static uint64_t* const bk = mon::bucket("sort/map %s %s", pol<P>::s, type_name<R>::s);
    ++*bk;
  }
}

#include "parts.hpp"

template <class L, class R, class Ps> void go(mon::Env& e, double w)
{
  if constexpr (std::is_same_v<L, R>)
  {
    exhaustive<L, Ps>(e, e.thorough ? 10 : ri<L>.sg ? 4 : 7);
    if constexpr (sizeof(L) >= 4)
      each(Ps {}, [&]<class P>() { containers<L, P>(e, e.count(1500, 60000)); });
  }
  {
    using C = std::common_type_t<L, R>;
    Ri la = ri<L>, ra = ri<R>;
    la.sg = la.sg && ri<C>.sg;
    ra.sg = ra.sg && ri<C>.sg;
    each_landmark_pair(e, la, ra, [&](Fr a, Fr b) {
      each(Ps {}, [&]<class P>() {
        Judge<P, L, R>::pair(a, b);
        if (b.d == 1)
          Judge<P, L, R>::whole_right(a, b.n);
        if (a.d == 1)
          Judge<P, L, R>::whole_left(a.n, b);
      });
    });
  }
  random_pairs<L, R, Ps>(e, uint64_t(double(e.count(140000, 7000000)) * w));
}

int main(int argc, char** argv) { return mon::main_impl(argc, argv, all_parts); }
