// C12: queries.
#include "frac.hpp"

using namespace fx;

template <class R, class P> void one(Fr a, Fr b)
{
  using namespace ieme;
  auto const x = mk<R, P>(a);
  raw_fraction<R> const X = x.raw();
  Fr const q = red(a, true);
  bool const def = a.d != 0;
  int const s = !def ? 0 : q.n < 0 ? -1 : q.n > 0;
  mon::begin("queries", pol<P>::s, type_name<R>::s, nullptr, a.n, a.d);
  auto j = [&](const char* n, bool got, bool rawgot, bool want) {
    mon::seen(2);
    if (got != want || rawgot != want)
      mon::fail(n, "%s(%s) [%s, %s] is %d (raw: %d), expected %d", n, sh(a).c_str(), pol<P>::s, type_name<R>::s, got,
                rawgot, want);
  };
#define Q(name, want) j(#name, name(x), name(X), want)
  Q(is_defined, def);
  Q(is_undefined, !def);
  Q(is_positive, def && s > 0);
  Q(is_negative, def && s < 0);
  Q(is_zero, def && s == 0);
  Q(is_non_negative, def && s >= 0);
  Q(is_non_positive, def && s <= 0);
  Q(is_integer, def && a.n % (def ? a.d : 1) == 0);
  Q(is_unit_fraction, def && a.n != 0 && a.d % (a.n ? a.n : 1) == 0);
  Q(is_reduced, def && a.n == q.n && a.d == q.d);
  Q(is_reduced_ignore_signs, def && igcd(a.n, a.d) == 1);
  if (def)
  {
    Q(is_proper, iabs(a.n) < iabs(a.d));
    Q(is_improper, iabs(a.n) >= iabs(a.d));
  }
  bool const same = a.n == b.n && a.d == b.d;
  auto const y = mk<R, P>(b);
  auto const z = mk<R, ops::fast_reduced_o>(b);
  raw_fraction<R> const Y = y.raw();
  j("are_identical", are_identical(x, y), are_identical(X, Y), same);
  j("are_different", are_different(x, y), are_different(X, Y), !same);
  j("are_identical across policies", are_identical(x, z), are_identical(z, x), same);
  j("are_different across policies", are_different(x, z), are_different(z, x), !same);
  j("are_identical with itself", are_identical(x, x), are_identical(X, X), true);
  mon::done();
  static uint64_t* const bk[4] = {mon::bucket("%s %s undefined", pol<P>::s, type_name<R>::s),
                                  mon::bucket("%s %s defined", pol<P>::s, type_name<R>::s),
                                  mon::bucket("%s %s negative denominator", pol<P>::s, type_name<R>::s),
                                  mon::bucket("%s %s identical pair", pol<P>::s, type_name<R>::s)};
  ++*bk[def];
  if (a.d < 0)
    ++*bk[2];
  if (same)
    ++*bk[3];
}

#include "parts1.hpp"

template <class R, class Ps> void go1(mon::Env& e, double w)
{
  Ri const r = ri<R>;
  int const k = int(std::min<i128>(r.max, e.thorough ? 200 : 40)), lo = r.sg ? -k : 0;
  for (int n = lo; n <= k; ++n)
    for (int d = lo; d <= k; ++d)
      each(Ps {}, [&]<class P>() { one<R, P>({n, d}, {d, n}); });
  ++mon::S->exhausted_spaces;
  each_landmark(r, true, [&](Fr a) { each(Ps {}, [&]<class P>() { one<R, P>(a, {a.d, a.n}); }); });
  each_lowest(e, r, true, e.count(2000, 100000), [&](Fr a) {
    each(Ps {}, [&]<class P>() { one<R, P>(a, {a.d, a.n}); });
  });
  uint64_t const n = uint64_t(double(e.count(350000, 14000000)) * w);
  for (uint64_t i = 0; e.go(i, n); ++i)
  {
    Fr a = clampfr(gen_any(e.rng, r), r), b = a;
    switch (e.rng.below(8))
    {
      case 0: a.d = 0; break;
      case 1: // unit fractions and multiples
      {
        i128 const m = 1 + gen_mag(e.rng, r, r.bits / 2), t = 1 + gen_mag(e.rng, r, r.bits / 2 - 1);
        a = {m, m * t};
        if (e.rng.chance(50))
          std::swap(a.n, a.d);
        if (e.rng.chance(30))
          a.n += e.rng.range(-1, 1);
        a.n = sgn_(e.rng, r, a.n, 40);
        a.d = sgn_(e.rng, r, a.d, 40);
        a = clampfr(a, r);
        break;
      }
      case 2: a.n = sgn_(e.rng, r, iabs(a.d) + e.rng.range(-1, 1), 50); a = clampfr(a, r); break;
      default: break;
    }
    switch (e.rng.below(5))
    {
      case 0: b = a; break;
      case 1: b = {a.n, a.d}; b.n += e.rng.range(-1, 1); b = clampfr(b, r); break;
      case 2: if (r.sg) b = {-a.n, -a.d}; break;
      case 3: b = red(a, true); break;
      default: break;
    }
    each(Ps {}, [&]<class P>() { one<R, P>(a, b); });
  }
}

int main(int argc, char** argv) { return mon::main_impl(argc, argv, all_parts1); }
