// C10: negation, abs, reciprocal and sign normalisation.
#include "frac.hpp"

using namespace fx;

template <class R, class P> void one(Fr a)
{
  Ri const r = ri<R>;
  auto const x = mk<R, P>(a);
  auto const X = x.raw();
  auto run = [&](const char* n, auto f, auto j) {
    mon::begin(n, pol<P>::s, type_name<R>::s, nullptr, a.n, a.d);
    Fr const g = get(f());
    mon::seen();
    if (!j(g))
      mon::fail(n, "%s(%s) [%s, %s] = %s", n, sh(a).c_str(), pol<P>::s, type_name<R>::s, sh(g).c_str());
    mon::done();
  };
  auto val = [](Fr want) { return [want](Fr g) { return g.d != 0 && eqv(g, want); }; };
  auto same = [](Fr want) { return [want](Fr g) { return g.n == want.n && g.d == want.d; }; };
  bool const positive_form = a.d > 0;
  Fr const q = red(a, true);
  bool const low = a.n < -r.max || a.d < -r.max;
  if (a.n >= -r.max && a.d < -r.max && holds(q, r) && holds(red({-a.n, a.d}, true), r))
    run("negate over the lowest denominator", [&] { return -x; }, val({-a.n, a.d}));
  if (low)
    MON_BUCKET("a lowest component");
  if (!low && (r.sg || a.n == 0))
  {
    run("negate", [&] { return -x; }, val({-a.n, a.d}));
    run("negate twice", [&] { return -(-x); }, val(a));
    run("minus plus identity", [&] { return -(+x); }, val({-a.n, a.d}));
  }
  if (!low)
  {
  run("abs", [&] { return abs(x); }, val({iabs(q.n), q.d}));
  run("abs twice", [&] { return abs(abs(x)); }, val({iabs(q.n), q.d}));
  }
  run("unary plus", [&] { return +x; }, same(a));
  auto nsg = [&](Fr g) { return g.d > 0 && iabs(g.n) == iabs(a.n) && iabs(g.d) == iabs(a.d) && eqv(g, a); };
  if (a.d > 0 || !low)
  {
  run("normalize_signs", [&] { return normalize_signs(x); }, nsg);
  run("raw normalize_signs", [&] { return normalize_signs(X); }, nsg);
  run("normalize_signs twice", [&] { return normalize_signs(normalize_signs(x)); }, nsg);
  }
  if (a.n != 0)
  {
    run("reciprocal", [&] { return reciprocal(x); }, val({a.d, a.n}));
    run("raw reciprocal", [&] { return reciprocal(X); }, val({a.d, a.n}));
  }
  run("reciprocal twice", [&] { return reciprocal(reciprocal(x)); }, same(a));
  run("raw reciprocal twice", [&] { return reciprocal(reciprocal(X)); }, same(a));
  mon::seen();
  if (get(x).n != a.n || get(x).d != a.d)
    mon::fail("operand", "operand changed");
  static uint64_t* const bk[6] = {
    mon::bucket("%s %s negative", pol<P>::s, type_name<R>::s), mon::bucket("%s %s zero", pol<P>::s, type_name<R>::s),
    mon::bucket("%s %s positive", pol<P>::s, type_name<R>::s),
    mon::bucket("%s %s negative, sign in denominator", pol<P>::s, type_name<R>::s),
    mon::bucket("%s %s zero over negative", pol<P>::s, type_name<R>::s),
    mon::bucket("%s %s positive, both negative", pol<P>::s, type_name<R>::s)};
  ++*bk[(q.n < 0 ? 0 : q.n == 0 ? 1 : 2) + (positive_form ? 0 : 3)];
}

#include "parts1.hpp"

template <class R, class Ps> void go1(mon::Env& e, double w)
{
  Ri const r = ri<R>;
  int const k = int(std::min<i128>(r.max, e.thorough ? 250 : 40)), lo = r.sg ? -k : 0;
  for (int n = lo; n <= k; ++n)
    for (int d = lo; d <= k; ++d)
      if (d)
        each(Ps {}, [&]<class P>() { one<R, P>({n, d}); });
  ++mon::S->exhausted_spaces;
  each_landmark(r, false, [&](Fr a) { each(Ps {}, [&]<class P>() { one<R, P>(a); }); });
  each_lowest(e, r, false, e.count(500, 30000), [&](Fr a) { each(Ps {}, [&]<class P>() { one<R, P>(a); }); });
  uint64_t const n = uint64_t(double(e.count(120000, 7000000)) * w);
  for (uint64_t i = 0; e.go(i, n); ++i)
  {
    Fr const a = clampfr(gen_any(e.rng, r), r);
    each(Ps {}, [&]<class P>() { one<R, P>(a); });
  }
}

int main(int argc, char** argv) { return mon::main_impl(argc, argv, all_parts1); }
