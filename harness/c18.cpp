// C18: mixed numbers keep the exact value in normal form.
#include "frac.hpp"

using namespace fx;
using ieme::mixed_number;

template <class W, class F, class P> struct Mx {
  using M = mixed_number<W, F, P>;
  static constexpr Ri rw = ri<W>, rf = ri<F>;
};

static i128 sgn(i128 v) { return v < 0 ? -1 : v > 0; }

// whole + n/d as one fraction; fits 128 bits for components up to 64 bits
static bool joined(i128 w, Fr f, Fr& out)
{
  i128 p;
  if (!mul(w, f.d, p) || __builtin_add_overflow(p, f.n, &p))
    return false;
  out = {p, f.d};
  return true;
}

// The whole part of the normal form of v (magnitudes of v up to 2^127)
static i128 whole_of(Fr v) { return v.n / v.d; }

template <class M> static void judge(const char* what, M const& m, Fr want)
{
  i128 const w = i128(m.whole());
  Fr const f = get(m.fractional());
  mon::seen(2);
  auto text = [&] { return mon::str(w) + " & " + sh(f); };
  if (f.d == 0)
  {
    mon::fail(what, "%s: %s is undefined, expected the value %s", what, text().c_str(), sh(want).c_str());
    return;
  }
  Fr j;
  if (!joined(w, f, j) || !eqv(j, want))
    mon::fail(what, "%s: %s, expected the value %s", what, text().c_str(), sh(want).c_str());
  i128 const s = sgn(f.n) * sgn(f.d);
  if (iabs(f.n) >= iabs(f.d))
    mon::fail(what, "%s: the fractional part of %s is not below 1", what, text().c_str());
  if (s * sgn(w) < 0)
    mon::fail(what, "%s: the parts of %s have opposite signs", what, text().c_str());
}

template <class M> static void judge_undefined(const char* what, M const& m)
{
  mon::seen();
  if (get(m.fractional()).d != 0)
    mon::fail(what, "%s: %s & %s is defined", what, mon::str(i128(m.whole())).c_str(), sh(get(m.fractional())).c_str());
}

// Does value v fit a mixed number <W, F> built through trunc and subtraction?
template <class W, class F> static bool fits(Fr v, Ri rsrc)
{
  return v.d != 0 && within(v, rsrc) && within(whole_of(v), ri<W>) && within(v.d, ri<F>);
}

template <class W, class F, class P> static void back(mixed_number<W, F, P> const& m, Fr want)
{
  using C = std::common_type_t<W, F>;
  Fr exp;
  if (!domain(pol<P>::d, ADD, {i128(m.whole()), 1}, true, get(m.fractional()), false, ri<C>, exp))
    return mon::ood();
  auto const a = m.as_fraction();
  mon::same_type<std::decay_t<decltype(a)>, fraction<C, P>>("result type");
  exact("as_fraction", get(a), want);
  fraction<C, P> const b = m;
  exact("conversion to fraction", get(b), want);
  if (!(get(a).n == get(b).n && get(a).d == get(b).d))
    mon::fail("conversion to fraction", "as_fraction and the conversion differ");
}

template <class W, class F, class P> static bool make(i128 w, Fr f, mixed_number<W, F, P>& out, Fr& value)
{
  Ri const rw = ri<W>, rf = ri<F>;
  if (!within(w, rw) || !within(f, rf) || f.d == 0)
    return false;
  i128 const t = whole_of(f);
  if (!within(t, rw) || !within(w + t, rw))
    return false;
  if (!joined(w, f, value) || !within(whole_of(value), rw))
    return false;
  if (!rw.sg && value.n != 0 && sgn(value.n) != sgn(value.d))
    return false;
  out = mixed_number<W, F, P>(static_cast<W>(w), mk<F, P>(f));
  return true;
}

template <class W, class F, class P> void construct(i128 w, Fr f)
{
  mon::begin("mixed_number(whole, fraction)", pol<P>::s, type_name<W>::s, type_name<F>::s, w, f.n, f.d);
  mixed_number<W, F, P> m;
  Fr v;
  if (!make<W, F, P>(w, f, m, v))
    return mon::ood();
  judge("construction", m, v);
  back(m, v);
  judge("unary plus", +m, v);
  if (ri<W>.sg)
  {
    auto const n = -m;
    judge("negation", n, {-v.n, v.d});
    judge("double negation", -n, v);
    back(n, {-v.n, v.d});
  }
  auto const copy = m;
  m = mixed_number<W, F, P>();
  judge("copy", copy, v);
  judge("default", m, {0, 1});
  mon::done();
  static uint64_t* const bk[5] = {mon::bucket("%s %s %s: improper fraction absorbed", pol<P>::s, type_name<W>::s, type_name<F>::s),
                                  mon::bucket("%s %s %s: signs repaired", pol<P>::s, type_name<W>::s, type_name<F>::s),
                                  mon::bucket("%s %s %s: already normal", pol<P>::s, type_name<W>::s, type_name<F>::s),
                                  mon::bucket("%s %s %s: whole at the edge", pol<P>::s, type_name<W>::s, type_name<F>::s),
                                  mon::bucket("%s %s %s: negative denominator", pol<P>::s, type_name<W>::s, type_name<F>::s)};
  i128 const s = sgn(f.n) * sgn(f.d);
  if (iabs(f.n) >= iabs(f.d))
    ++*bk[0];
  if (s * sgn(w) < 0)
    ++*bk[1];
  if (iabs(f.n) < iabs(f.d) && s * sgn(w) >= 0)
    ++*bk[2];
  if (iabs(w) > ri<W>.max - 3)
    ++*bk[3];
  if (f.d < 0)
    ++*bk[4];
}

template <class W, class F, class P, class O> void from_fraction(Fr f)
{
  mon::begin("mixed_number(fraction)", pol<P>::s, type_name<W>::s, type_name<O>::s, f.n, f.d);
  if (!within(f, ri<O>) || !(fits<W, F>(f, ri<O>)) || !within(whole_of(f), ri<O>))
    return mon::ood();
  mixed_number<W, F, P> const m = mk<O, P>(f); // implicit
  judge("from a fraction", m, f);
  back(m, f);
  using Q = std::conditional_t<std::is_same_v<P, ops::fast>, ops::safe_reduced_o, ops::fast>;
  mixed_number<W, F, P> const e(mk<O, Q>(f)); // explicit, another policy
  judge("from a fraction of another policy", e, f);
  mon::done();
  static uint64_t* const bk = mon::bucket("%s %s %s: from fraction of %s", pol<P>::s, type_name<W>::s, type_name<F>::s, type_name<O>::s);
  ++*bk;
}

// The value of (whole sum) + (fraction sum), or out of domain.
template <class W, class F> static bool sum(Pol p, i128 w1, Fr f1, i128 w2, Fr f2, Fr& out)
{
  Ri const rw = ri<W>, rf = ri<F>;
  Fr s;
  if (!within(w1, rw) || !within(w2, rw) || !within(w1 + w2, rw))
    return false;
  if (!domain(p, ADD, f1, false, f2, false, rf, s) || !within(s, rf))
    return false;
  i128 const t = s.n / s.d;
  return within(w1 + w2 + t, rw) && joined(w1 + w2, s, out) && within(whole_of(out), rw);
}

template <class W1, class F1, class W2, class F2, class P> void add(i128 w1, Fr f1, i128 w2, Fr f2)
{
  using W = std::common_type_t<W1, W2>;
  using F = std::common_type_t<F1, F2>;
  mon::begin("mixed + mixed", pol<P>::s, type_name<W1>::s, type_name<F2>::s, w1, f1.n, f1.d, w2, f2.n, f2.d);
  mixed_number<W1, F1, P> a;
  mixed_number<W2, F2, P> b;
  Fr va, vb, v;
  if (!make<W1, F1, P>(w1, f1, a, va) || !make<W2, F2, P>(w2, f2, b, vb))
    return mon::ood();
  if (sum<W, F>(pol<P>::d, i128(a.whole()), get(a.fractional()), i128(b.whole()), get(b.fractional()), v))
  {
    auto const r = a + b;
    mon::same_type<std::decay_t<decltype(r)>, mixed_number<W, F, P>>("result type");
    judge("mixed + mixed", r, v);
    judge("left operand of +", a, va);
    judge("right operand of +", b, vb);
    judge("mixed + mixed, swapped", b + a, v);
    mon::done();
    static uint64_t* const bk = mon::bucket("%s %s,%s + %s,%s", pol<P>::s, type_name<W1>::s, type_name<F1>::s, type_name<W2>::s, type_name<F2>::s);
    ++*bk;
  }
  else
    mon::ood();
  // with a fraction, on either side
  if (within(f2, ri<F2>) && f2.d != 0 && fits<F2, F2>(f2, ri<F2>))
  {
    using WF = std::common_type_t<W1, F2>;
    mixed_number<F2, F2, P> const mf = mk<F2, P>(f2);
    judge("fraction as mixed", mf, f2);
    if (sum<WF, F>(pol<P>::d, i128(a.whole()), get(a.fractional()), i128(mf.whole()), get(mf.fractional()), v))
    {
      mon::begin("mixed + fraction", pol<P>::s, type_name<W1>::s, type_name<F2>::s, w1, f1.n, f1.d, f2.n, f2.d);
      auto const f = mk<F2, P>(f2);
      auto const r = a + f;
      mon::same_type<std::decay_t<decltype(r)>, mixed_number<WF, F, P>>("result type");
      judge("mixed + fraction", r, v);
      judge("fraction + mixed", f + a, v);
      mon::done();
      static uint64_t* const bk = mon::bucket("%s %s,%s + fraction of %s", pol<P>::s, type_name<W1>::s, type_name<F1>::s, type_name<F2>::s);
      ++*bk;
    }
  }
  // with a whole number, on either side
  if (within(w2, ri<W2>))
  {
    i128 const s = i128(a.whole()) + w2;
    if (within(s, ri<W>) && joined(s, get(a.fractional()), v) && within(whole_of(v), ri<W>)
        && (ri<W>.sg || sgn(v.n) * sgn(v.d) >= 0))
    {
      mon::begin("mixed + whole", pol<P>::s, type_name<W1>::s, type_name<W2>::s, w1, f1.n, f1.d, w2);
      auto const r = a + static_cast<W2>(w2);
      mon::same_type<std::decay_t<decltype(r)>, mixed_number<W, F1, P>>("result type");
      judge("mixed + whole", r, v);
      judge("whole + mixed", static_cast<W2>(w2) + a, v);
      mon::done();
      static uint64_t* const bk = mon::bucket("%s %s,%s + whole %s", pol<P>::s, type_name<W1>::s, type_name<F1>::s, type_name<W2>::s);
      ++*bk;
    }
  }
}

template <class W, class F, class P> void undefined(i128 w, i128 n, i128 w2, Fr f2)
{
  // components small enough that no product of two leaves the type
  if (!within(w, ri<W>) || !within(n, ri<F>))
    return;
  mon::begin("undefined mixed number", pol<P>::s, type_name<W>::s, type_name<F>::s, w, n, w2, f2.n, f2.d);
  fraction<F, P> const u = mk<F, P>({n, 0});
  mixed_number<W, F, P> const a(u), b(static_cast<W>(w), u);
  judge_undefined("from an undefined fraction", a);
  judge_undefined("whole and undefined fraction", b);
  mixed_number<W, F, P> c;
  Fr v;
  bool const have = make<W, F, P>(w2, f2, c, v);
  for (auto const& m : {a, b})
  {
    judge_undefined("+undefined", +m);
    mon::seen(2);
    if (get(m.as_fraction()).d != 0)
      mon::fail("as_fraction of undefined", "as_fraction of an undefined mixed number is defined");
    if (ri<W>.sg)
      judge_undefined("-undefined", -m);
    judge_undefined("undefined + undefined", m + m);
    judge_undefined("undefined + whole", m + W(1));
    judge_undefined("whole + undefined", W(1) + m);
    judge_undefined("undefined mixed + undefined fraction", m + u);
    judge_undefined("undefined fraction + undefined mixed", u + m);
    if (have)
    {
      judge_undefined("undefined + mixed", m + c);
      judge_undefined("mixed + undefined", c + m);
      judge_undefined("mixed + undefined fraction", c + u);
      judge_undefined("undefined fraction + mixed", u + c);
      if (within(f2, ri<F>))
      {
        judge_undefined("undefined mixed + fraction", m + mk<F, P>(f2));
        judge_undefined("fraction + undefined mixed", mk<F, P>(f2) + m);
      }
    }
  }
  mon::done();
  static uint64_t* const bk = mon::bucket("%s %s %s: undefined", pol<P>::s, type_name<W>::s, type_name<F>::s);
  ++*bk;
}

// a running total of mixed numbers, fractions and wholes against an exact model
template <class P> void history(mon::Env& e, uint64_t id)
{
  mon::Rng g(e.seed * 7919 + id);
  mon::begin("history of additions", pol<P>::s, nullptr, nullptr, i128(e.seed), i128(id));
  mixed_number<long, long, P> t;
  i128 n = 0; // total in 1/5040
  int const steps = g.range(5, 60);
  for (int i = 0; i < steps; ++i)
  {
    static const int dens[] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 14, 15, 16, 18, 20, 5040, 2520, 840, 63};
    int const d = dens[g.below(20)];
    long const k = g.range(-2000, 2000);
    i128 const dv = i128(k) * 5040 / d;
    if (dv * d != i128(k) * 5040)
      continue;
    switch (g.below(6))
    {
      case 0: t = t + mixed_number<long, long, P>(fraction<long, P>(k, d)); n += dv; break;
      case 1: t = fraction<long, P>(k, d) + t; n += dv; break;
      case 2: t = t + fraction<long, P>(-k, -d); n += dv; break;
      case 3: t = k + t; n += i128(k) * 5040; break;
      case 4: t = -t; n = -n; break;
      default: t = mixed_number<long, long, P>(k, fraction<long, P>(-k, d)) + t; n += i128(k) * 5040 - dv;
    }
    // keep the representation bounded under the policies that do not reduce
    if (!pol<P>::d.out)
      t = mixed_number<long, long, P>(t.whole(), reduce(t.fractional()));
    judge("history", t, {n, 5040});
  }
  mon::done();
  static uint64_t* const bk = mon::bucket("%s: histories", pol<P>::s);
  ++*bk;
}

template <class W, class F, class Ps> void all(mon::Env& e, double weight)
{
  Ri const rw = ri<W>, rf = ri<F>;
  // everything small
  int const k = e.thorough ? 14 : 7;
  int const lw = rw.sg ? -4 : 0, lf = rf.sg ? -k : 0;
  for (int w = lw; w <= 4; ++w)
    for (int n = lf; n <= k; ++n)
      for (int d = lf; d <= k; ++d)
        each(Ps {}, [&]<class P>() {
          if (d == 0)
            return undefined<W, F, P>(w, n, n % 3 < 0 ? 0 : n % 3, {1, 2});
          construct<W, F, P>(w, {n, d});
          from_fraction<W, F, P, F>({n, d});
          for (int v = rw.sg ? -2 : 0; v <= 2; ++v)
            add<W, F, W, F, P>(w, {n, d}, v, {w, n ? n : 1});
        });
  ++mon::S->exhausted_spaces;
  uint64_t const N = uint64_t(double(e.count(160000, 3500000)) * weight);
  for (uint64_t i = 0; e.go(i, N); ++i)
  {
    auto& g = e.rng;
    Fr a, b;
    gen_pair(g, rf, a, b);
    if (g.chance(15)) // just below, at and above one
      a.n = sgn_(g, rf, iabs(a.d) + g.range(-1, 1), 50), a = clampfr(a, rf);
    auto whole = [&] {
      i128 w = gen_mag(g, rw, g.chance(50) ? rw.bits / 2 : rw.bits);
      if (g.chance(10))
        w = rw.max - g.range(0, 3);
      return sgn_(g, rw, w, 45);
    };
    i128 const w1 = whole(), w2 = g.chance(30) ? sgn_(g, rw, g.range(0, 3), 50) : whole();
    // parts that fit W and F, of a fraction whose components need not
    Fr wide;
    int const db = g.range(2, rf.bits);
    wide.d = std::max<i128>(2, gen_mag(g, rf, db));
    i128 const f = g.chance(50) ? i128(g.range(2, 12)) : 1; // not always reduced
    wide.n = gen_mag(g, rw, g.range(1, std::max(2, std::min(rw.bits, 61 - db)))) * wide.d + i128(g.u() % uint64_t(wide.d));
    if (within(wide.d * f, rf))
      wide.n *= f, wide.d *= f;
    wide.n = sgn_(g, rw.sg ? rf : rw, wide.n, 45);
    if (rw.sg && rf.sg && g.chance(30))
      wide = {-wide.n, -wide.d};
    each(Ps {}, [&]<class P>() {
      construct<W, F, P>(w1, a);
      from_fraction<W, F, P, F>(a);
      from_fraction<W, F, P, W>(clampfr(a, rw));
      add<W, F, W, F, P>(w1, a, w2, b);
      if (i % 4 == 0)
        from_fraction<W, F, P, std::conditional_t<ri<W>.sg && ri<F>.sg, long, unsigned long>>(wide);
      if (i % 16 == 0)
      {
        int const hb = rf.bits / 2 - 1;
        undefined<W, F, P>(sgn_(g, rw, gen_mag(g, rw, std::min(hb, rw.bits / 2 - 1)), 40), sgn_(g, rf, gen_mag(g, rf, hb), 40),
                           sgn_(g, rw, g.range(0, 9), 40), gen_small(g, rf, 50));
      }
    });
  }
}

template <class W1, class F1, class W2, class F2, class Ps> void cross(mon::Env& e, double weight)
{
  uint64_t const N = uint64_t(double(e.count(60000, 3500000)) * weight);
  for (uint64_t i = 0; e.go(i, N); ++i)
  {
    auto& g = e.rng;
    Fr a, b, t;
    gen_pair(g, ri<F1>, a, t);
    gen_pair(g, ri<F2>, t, b);
    i128 const w1 = sgn_(g, ri<W1>, gen_mag(g, ri<W1>, g.range(1, ri<W1>.bits)), 45);
    i128 const w2 = sgn_(g, ri<W2>, gen_mag(g, ri<W2>, g.range(1, ri<W2>.bits)), 45);
    if (g.chance(50))
      b.d = a.d, b = clampfr(b, ri<F2>);
    each(Ps {}, [&]<class P>() { add<W1, F1, W2, F2, P>(w1, a, w2, b); });
  }
}

int main(int argc, char** argv)
{
  return mon::main_impl(argc, argv, [](mon::Env& e) {
#if PART == 0
    all<int, int, fx::builtin>(e, 1);
#elif PART == 1
    all<long, long, fx::builtin>(e, 1);
#elif PART == 2
    all<int, long, fx::few>(e, 1);
    all<long, int, fx::few>(e, 1);
#elif PART == 3
    all<unsigned int, unsigned int, fx::builtin>(e, 0.5);
    all<unsigned long, unsigned long, fx::few>(e, 0.5);
    all<long long, long long, fx::list<safe_oi, fast_out_ign>>(e, 0.5);
    all<int, int, fx::custom>(e, 0.5);
#elif PART == 4
    cross<int, int, long, long, fx::few>(e, 1);
    cross<int, long, long, int, fx::few>(e, 1);
    cross<long, long, int, int, fx::few>(e, 1);
    uint64_t const n = e.count(4000, 300000);
    for (uint64_t i = 0; e.go(i, n); ++i)
      each(fx::builtin {}, [&]<class P>() { history<P>(e, i); });
#else
#error "unknown part"
#endif
  });
}
