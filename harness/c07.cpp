// C07: compound assignment is the binary operation, at any point of a history.
#include "frac.hpp"

using namespace fx;

template <class L, class R, class P> struct Judge {
  static constexpr Ri r = ri<L>;
  // `x op= y` computes in L; y's value must fit L
  template <class Do> static void
  one(const char* name, Op op, Fr a, Fr b, bool bw, Do&& run)
  {
    Fr want;
    if (!within(b, r) || !domain(pol<P>::d, op, a, false, b, bw, r, want))
      return mon::ood();
    mon::begin(name, pol<P>::s, type_name<L>::s, type_name<R>::s, a.n, a.d, b.n, b.d);
    auto x = mk<L, P>(a);
    auto* const ret = run(x);
    mon::seen();
    if (ret != &x)
      mon::fail(name, "%s does not return a reference to its left operand", name);
    exact(name, get(x), want);
    canonical(name, pol<P>::d, get(x));
    mon::done();
    static uint64_t* const bk = mon::bucket("%s %s %s,%s", name, pol<P>::s, type_name<L>::s, type_name<R>::s);
    ++*bk;
  }
  static void pair(Fr a, Fr b)
  {
    auto const y = mk<R, P>(b);
    one("frac+=frac", ADD, a, b, false, [&](auto& x) { return &(x += y); });
    one("frac-=frac", SUB, a, b, false, [&](auto& x) { return &(x -= y); });
    one("frac*=frac", MUL, a, b, false, [&](auto& x) { return &(x *= y); });
    one("frac/=frac", DIV, a, b, false, [&](auto& x) { return &(x /= y); });
    one("frac%=frac", MOD, a, b, false, [&](auto& x) { return &(x %= y); });
    mon::seen();
    if (i128(y.numerator()) != b.n || i128(y.denominator()) != b.d)
      mon::fail("right operand", "right operand changed from %s to %s", sh(b).c_str(), sh(get(y)).c_str());
  }
  static void whole(Fr a, i128 w)
  {
    R const v = static_cast<R>(w);
    Fr const b {w, 1};
    one("frac+=whole", ADD, a, b, true, [&](auto& x) { return &(x += v); });
    one("frac-=whole", SUB, a, b, true, [&](auto& x) { return &(x -= v); });
    one("frac*=whole", MUL, a, b, true, [&](auto& x) { return &(x *= v); });
    one("frac/=whole", DIV, a, b, true, [&](auto& x) { return &(x /= v); });
    one("frac%=whole", MOD, a, b, true, [&](auto& x) { return &(x %= v); });
    mon::seen();
    if (i128(v) != w)
      mon::fail("right operand", "whole right operand changed");
  }
  // the right operand is the left one, or a reference to one of its components
  static void alias(Fr a)
  {
    if constexpr (std::is_same_v<L, R>)
    {
      one("x+=x", ADD, a, a, false, [](auto& x) { return &(x += x); });
      one("x-=x", SUB, a, a, false, [](auto& x) { return &(x -= x); });
      one("x*=x", MUL, a, a, false, [](auto& x) { return &(x *= x); });
      one("x/=x", DIV, a, a, false, [](auto& x) { return &(x /= x); });
      one("x%=x", MOD, a, a, false, [](auto& x) { return &(x %= x); });
      Fr const n {a.n, 1}, d {a.d, 1};
      one("x+=x.numerator()", ADD, a, n, true, [](auto& x) { return &(x += x.numerator()); });
      one("x-=x.num()", SUB, a, n, true, [](auto& x) { return &(x -= x.num()); });
      one("x*=x.numerator()", MUL, a, n, true, [](auto& x) { return &(x *= x.numerator()); });
      one("x/=x.raw().numerator", DIV, a, n, true, [](auto& x) { return &(x /= x.raw().numerator); });
      one("x%=x.numerator()", MOD, a, n, true, [](auto& x) { return &(x %= x.numerator()); });
      one("x+=x.denominator()", ADD, a, d, true, [](auto& x) { return &(x += x.denominator()); });
      one("x-=x.raw().denominator", SUB, a, d, true, [](auto& x) { return &(x -= x.raw().denominator); });
      one("x*=x.denominator()", MUL, a, d, true, [](auto& x) { return &(x *= x.denominator()); });
      one("x/=x.den()", DIV, a, d, true, [](auto& x) { return &(x /= x.den()); });
      one("x%=x.denominator()", MOD, a, d, true, [](auto& x) { return &(x %= x.denominator()); });
    }
  }
};

// A history of operators and assignments on a few variables, against a model
// holding exact rationals.
template <class R, class P> void history(mon::Env& e)
{
  Ri const r = ri<R>;
  constexpr Pol p = pol<P>::d;
  mon::Rng g(e.rng.u());
  uint64_t const seed = g.s;
  constexpr int nv = 3;
  fraction<R, P> v[nv];
  Fr m[nv];
  for (int i = 0; i < nv; ++i)
  {
    m[i] = gen_small(g, r, 9);
    v[i] = mk<R, P>(m[i]);
  }
  int const len = g.range(5, 70);
  mon::begin("history", pol<P>::s, type_name<R>::s, nullptr, i128(seed), len, m[0].n, m[0].d);
  int steps = 0;
  for (int t = 0; t < len; ++t)
  {
    int const i = int(g.below(nv)), j = int(g.below(nv)), k = int(g.below(nv));
    Fr const a = get(v[i]), b = get(v[j]);
    Fr want;
    Op const op = Op(g.below(5));
    i128 wv = g.range(1, 9);
    if (r.sg && g.chance(40))
      wv = -wv;
    R const w = static_cast<R>(wv);
    int const form = int(g.below(6));
    bool ok = true;
    int dst = i;
    switch (form)
    {
      case 0: // v[i] op= v[j]
        ok = domain(p, op, a, false, b, false, r, want);
        if (ok)
          switch (op)
          {
            case ADD: v[i] += v[j]; break;
            case SUB: v[i] -= v[j]; break;
            case MUL: v[i] *= v[j]; break;
            case DIV: v[i] /= v[j]; break;
            default: v[i] %= v[j];
          }
        break;
      case 1: // v[i] op= whole
        ok = domain(p, op, a, false, {wv, 1}, true, r, want);
        if (ok)
          switch (op)
          {
            case ADD: v[i] += w; break;
            case SUB: v[i] -= w; break;
            case MUL: v[i] *= w; break;
            case DIV: v[i] /= w; break;
            default: v[i] %= w;
          }
        break;
      case 2: // v[k] = v[i] op v[j]
        ok = domain(p, op, a, false, b, false, r, want);
        dst = k;
        if (ok)
          switch (op)
          {
            case ADD: v[k] = v[i] + v[j]; break;
            case SUB: v[k] = v[i] - v[j]; break;
            case MUL: v[k] = v[i] * v[j]; break;
            case DIV: v[k] = v[i] / v[j]; break;
            default: v[k] = v[i] % v[j];
          }
        break;
      case 3: // v[k] = whole op v[i]
        ok = domain(p, op, {wv, 1}, true, a, false, r, want);
        dst = k;
        if (ok)
          switch (op)
          {
            case ADD: v[k] = w + v[i]; break;
            case SUB: v[k] = w - v[i]; break;
            case MUL: v[k] = w * v[i]; break;
            case DIV: v[k] = w / v[i]; break;
            default: v[k] = w % v[i];
          }
        break;
      case 4: // unary
        dst = k;
        want = a;
        switch (g.below(5))
        {
          case 0:
            if (r.sg || a.n == 0)
              v[k] = -v[i], want = {-a.n, a.d};
            else
              ok = false;
            break;
          case 1: v[k] = reduce(v[i]); break;
          case 2: v[k] = normalize_signs(v[i]); break;
          case 3:
            if (a.n)
              v[k] = reciprocal(v[i]), want = {a.d, a.n};
            else
              ok = false;
            break;
          default:
            v[k] = v[i];
        }
        break;
      default: // start small again, or scale without changing the value
        want = gen_small(g, r, 12);
        v[i] = mk<R, P>(want);
    }
    if (!ok)
      continue;
    ++steps;
    // the model works on exact values, never on what the library returned
    Fr ex = red(want, true);
    if (form <= 3)
    {
      Fr const x = form == 3 ? Fr {wv, 1} : m[i];
      Fr const y = form == 1 ? Fr {wv, 1} : form == 3 ? m[i] : m[j];
      // m[] are reduced rationals with 64-bit components, so these fit
      i128 n1, n2, dd;
      bool fit = true;
      switch (op)
      {
        case ADD:
        case SUB:
          fit = mul(x.n, y.d, n1) && mul(y.n, x.d, n2) && mul(x.d, y.d, dd) && iabs(n1) < (i128(1) << 125)
                && iabs(n2) < (i128(1) << 125);
          if (fit)
            ex = red({op == ADD ? n1 + n2 : n1 - n2, dd}, true);
          break;
        case MUL: fit = mul(x.n, y.n, n1) && mul(x.d, y.d, dd); if (fit) ex = red({n1, dd}, true); break;
        case DIV: fit = mul(x.n, y.d, n1) && mul(x.d, y.n, dd); if (fit) ex = red({n1, dd}, true); break;
        default:
          fit = mul(x.n, y.d, n1) && mul(y.n, x.d, n2) && mul(x.d, y.d, dd);
          if (fit)
            ex = red({n1 % n2, dd}, true);
      }
    }
    m[dst] = ex;
    mon::seen();
    Fr const got = get(v[dst]);
    if (got.d == 0 || !eqv(got, m[dst]))
    {
      mon::fail("history", "after %d steps a variable is %s, the same chain over the rationals gives %s (op %d, form %d)",
                steps, sh(got).c_str(), sh(m[dst]).c_str(), int(op), form);
      break;
    }
    // variables not assigned keep their value
    for (int q = 0; q < nv; ++q)
      if (q != dst)
      {
        mon::seen();
        if (!eqv(get(v[q]), m[q]))
          mon::fail("history", "an unrelated variable changed to %s", sh(get(v[q])).c_str());
      }
  }
  mon::done(steps > 3);
  static uint64_t* const bk[3]
    = {mon::bucket("history %s %s up to 10 steps", pol<P>::s, type_name<R>::s),
       mon::bucket("history %s %s 11-30 steps", pol<P>::s, type_name<R>::s),
       mon::bucket("history %s %s over 30 steps", pol<P>::s, type_name<R>::s)};
  ++*bk[steps <= 10 ? 0 : steps <= 30 ? 1 : 2];
}

#include "parts.hpp"

template <class L, class R, class Ps> void go(mon::Env& e, double w)
{
  Ri la = ri<L>, ra = ri<R>;
  {
    using C = std::common_type_t<L, R>;
    Ri ll = la, rr = ra;
    ll.sg = ll.sg && ri<C>.sg;
    rr.sg = rr.sg && ri<C>.sg;
    each_landmark_pair(e, ll, rr, [&](Fr a, Fr b) {
      each(Ps {}, [&]<class P>() {
        Judge<L, R, P>::pair(a, b);
        if (b.d == 1)
          Judge<L, R, P>::whole(a, b.n);
        if (b.n == 1 && b.d == 1)
          Judge<L, R, P>::alias(a);
      });
    });
  }
  uint64_t const n = uint64_t(double(e.count(45000, 3000000)) * w);
  for (uint64_t i = 0; e.go(i, n); ++i)
  {
    Fr a, b;
    Ri g = la.bits < ra.bits ? la : ra;
    g.sg = la.sg && ra.sg;
    e.rng.chance(60) ? gen_pair(e.rng, g, a, b) : gen_pair_mul(e.rng, g, a, b);
    a = clampfr(a, la);
    b = clampfr(b, ra);
    // a signed left operand with an unsigned right one stays non-negative:
    // the operator's own common type is the left one, but the conversion is
    // only value preserving for what fits
    Ri cw = ra;
    i128 const wr = clampfr({gen_whole(e.rng, la.bits < cw.bits ? la : cw, a), 1}, ra).n;
    each(Ps {}, [&]<class P>() {
      Judge<L, R, P>::pair(a, b);
      Judge<L, R, P>::whole(a, wr);
      Judge<L, R, P>::alias(a);
      if constexpr (std::is_same_v<L, R> && sizeof(L) >= 4)
        if ((i & 7) == 0)
          history<L, P>(e);
    });
  }
}

int main(int argc, char** argv) { return mon::main_impl(argc, argv, all_parts); }
