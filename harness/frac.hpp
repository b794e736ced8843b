// Fraction-specific part of the monitors: policy descriptions, the exact
// oracle, the domain of each property, and operand generators.  Only the public
// interface of the library is used.
#ifndef VERIF_FRAC_HPP
#define VERIF_FRAC_HPP

#include <ieme/ieme.hpp>

#include "mon.hpp"

#include <algorithm>
#include <limits>
#include <type_traits>

namespace fx {

using mon::i128;
using mon::u128;

namespace ops = ieme::ops;
using ieme::fraction;
using ieme::raw_fraction;
using ieme::reduce_mode;

// ------------------------------------------------------------------ names

template <class T> struct type_name;
#define FX_TYPE(T)                                                             \
  template <> struct type_name<T> { static constexpr const char* s = #T; };
FX_TYPE(signed char)
FX_TYPE(unsigned char)
FX_TYPE(short)
FX_TYPE(unsigned short)
FX_TYPE(int)
FX_TYPE(unsigned int)
FX_TYPE(long)
FX_TYPE(unsigned long)
FX_TYPE(long long)
FX_TYPE(unsigned long long)

// ------------------------------------------------------------------ policies

// user-composed policies, as the documentation of the policy templates allows
using safe_in_norm = ops::reduced_input<ops::safe, reduce_mode::normalize_signs>;
using fast_out_ign = ops::reduced_output<ops::fast, reduce_mode::ignore_signs>;
using safe_oi = ops::reduced_output<ops::reduced_input<ops::safe>>;
using fast_io_norm
  = ops::reduced_input<ops::reduced_output<ops::fast,
                                           reduce_mode::normalize_signs>,
                       reduce_mode::normalize_signs>;
using safe_out_ign = ops::reduced_output<ops::safe, reduce_mode::ignore_signs>;

struct Pol {
  bool safe;     // core: least common denominator, or plain cross products
  bool in;       // some layer reduces inputs
  bool in_norm;  // ... and normalises their signs
  bool out;      // some layer reduces outputs
  bool out_norm; // ... and normalises their signs
};

template <class P> struct pol;
#define FX_POL(T, S, I, IN, O, ON)                                             \
  template <> struct pol<T> {                                                  \
    static constexpr const char* s = #T;                                       \
    static constexpr Pol d {S, I, IN, O, ON};                                  \
  };
FX_POL(ops::safe, true, false, false, false, false)
FX_POL(ops::safe_reduced_i, true, true, false, false, false)
FX_POL(ops::safe_reduced_o, true, false, false, true, true)
FX_POL(ops::safe_reduced_io, true, true, false, true, true)
FX_POL(ops::fast, false, false, false, false, false)
FX_POL(ops::fast_reduced_i, false, true, false, false, false)
FX_POL(ops::fast_reduced_o, false, false, false, true, true)
FX_POL(ops::fast_reduced_io, false, true, false, true, true)
FX_POL(safe_in_norm, true, true, true, false, false)
FX_POL(fast_out_ign, false, false, false, true, false)
FX_POL(safe_oi, true, true, false, true, true)
FX_POL(fast_io_norm, false, true, true, true, true)
FX_POL(safe_out_ign, true, false, false, true, false)

template <class... P> struct list {};
using safe_family
  = list<ops::safe, ops::safe_reduced_i, ops::safe_reduced_o, ops::safe_reduced_io>;
using fast_family
  = list<ops::fast, ops::fast_reduced_i, ops::fast_reduced_o, ops::fast_reduced_io>;
using builtin = list<ops::safe,
                     ops::safe_reduced_i,
                     ops::safe_reduced_o,
                     ops::safe_reduced_io,
                     ops::fast,
                     ops::fast_reduced_i,
                     ops::fast_reduced_o,
                     ops::fast_reduced_io>;
using custom = list<safe_in_norm, fast_out_ign, safe_oi, fast_io_norm, safe_out_ign>;
// a representative of each core and of each reduction, where all are too many
using few = list<ops::safe, ops::safe_reduced_io, ops::fast, ops::fast_reduced_i>;

template <class F, class... P> void each(list<P...>, F&& f) { (f.template operator()<P>(), ...); }

// ------------------------------------------------------------------ numbers

struct Ri { // what a representation type can hold
  i128 max;
  int bits;
  bool sg;
};

template <class R>
constexpr Ri ri {i128(std::numeric_limits<R>::max()),
                 std::numeric_limits<R>::digits,
                 std::numeric_limits<R>::is_signed};

struct Fr { // components as the user sees them
  i128 n, d;
};

constexpr i128 iabs(i128 x) { return x < 0 ? -x : x; }

constexpr i128 igcd(i128 a, i128 b)
{
  a = iabs(a);
  b = iabs(b);
  // 64-bit fast path
  while (b > i128(UINT64_MAX) || a > i128(UINT64_MAX))
  {
    if (!b)
      return a;
    i128 const t = a % b;
    a = b;
    b = t;
  }
  uint64_t x = uint64_t(a), y = uint64_t(b);
  while (y)
  {
    uint64_t const t = x % y;
    x = y;
    y = t;
  }
  return i128(x);
}

constexpr bool within(i128 v, Ri r) { return v <= r.max && (r.sg ? v >= -r.max : v >= 0); }
constexpr bool within(Fr f, Ri r) { return within(f.n, r) && within(f.d, r); }

constexpr bool mul(i128 a, i128 b, i128& o) { return !__builtin_mul_overflow(a, b, &o); }
constexpr bool mulw(i128 a, i128 b, i128& o, Ri r)
{
  return !__builtin_mul_overflow(a, b, &o) && within(o, r);
}

constexpr Fr red(Fr f, bool norm) // model of reduction, for domains and oracles
{
  if (f.d == 0)
    return {0, 0};
  i128 const g = igcd(f.n, f.d);
  Fr r {f.n / g, f.d / g};
  if (norm && r.d < 0)
    r = {-r.n, -r.d};
  return r;
}

// a/b == c/d for defined values with components up to 65 bits
constexpr bool eqv(Fr x, Fr y)
{
  Fr const a = red(x, true), b = red(y, true);
  return a.n == b.n && a.d == b.d;
}

// sign of x - y, components up to 64 bits
constexpr int cmpv(Fr x, Fr y)
{
  x = red(x, true);
  y = red(y, true);
  auto sgn = [](i128 v) { return v < 0 ? -1 : v > 0; };
  if (sgn(x.n) != sgn(y.n))
    return sgn(x.n) < sgn(y.n) ? -1 : 1;
  u128 const l = u128(iabs(x.n)) * u128(iabs(y.d));
  u128 const r = u128(iabs(y.n)) * u128(iabs(x.d));
  int const m = l < r ? -1 : l > r;
  return x.n < 0 ? -m : m;
}

constexpr i128 floordiv(i128 a, i128 b)
{
  i128 const q = a / b;
  return q - ((a % b != 0) && ((a < 0) != (b < 0)));
}

// ------------------------------------------------------------------ domain

enum Op { ADD, SUB, MUL, DIV, MOD, CMP };

// The two numerators over the policy's common denominator, and that
// denominator; false if one does not fit.
constexpr bool scaled(bool safe, Fr a, Fr b, Ri r, i128& s, i128& t, i128& den)
{
  if (safe)
  {
    i128 const g = igcd(a.d, b.d);
    if (!mulw(iabs(a.d) / g, iabs(b.d), den, r))
      return false;
    return mulw(den / a.d, a.n, s, r) && mulw(den / b.d, b.n, t, r);
  }
  return mulw(a.d, b.d, den, r) && mulw(a.n, b.d, s, r) && mulw(b.n, a.d, t, r);
}

// Is `a op b` in the domain of policy p, and what is its exact value?
// a_whole / b_whole: that operand is a whole number (its d is 1).
// For CMP the "value" is the sign of a - b as n/1.
constexpr bool
domain(Pol p, Op op, Fr a, bool a_whole, Fr b, bool b_whole, Ri r, Fr& out)
{
  if (p.in)
  {
    if (!a_whole)
      a = red(a, p.in_norm);
    if (!b_whole)
      b = red(b, p.in_norm);
  }
  if (!within(a, r) || !within(b, r))
    return false;
  if (a.d == 0 || b.d == 0)
    return false;
  i128 s = 0, t = 0, den = 0;
  switch (op)
  {
    case MUL:
      if (!mulw(a.n, b.n, s, r) || !mulw(a.d, b.d, t, r))
        return false;
      out = {s, t};
      break;
    case DIV:
      if (b.n == 0)
        return false;
      if (!mulw(a.n, b.d, s, r) || !mulw(a.d, b.n, t, r))
        return false;
      out = {s, t};
      break;
    case ADD:
    case SUB:
    case MOD:
    case CMP:
      if (op == MOD && b.n == 0)
        return false;
      // with a whole operand both families multiply by the other denominator
      if (!scaled(p.safe && !a_whole && !b_whole, a, b, r, s, t, den))
        return false;
      if (op == ADD)
        out = {s + t, den};
      else if (op == SUB)
        out = {s - t, den};
      else if (op == MOD)
        out = {s % t, den};
      else
      {
        i128 const diff = den < 0 ? t - s : s - t;
        out = {diff < 0 ? -1 : diff > 0, 1};
        return true;
      }
      if (!within(out, r))
        return false;
      break;
  }
  return true;
}

// ------------------------------------------------------------------ generators

inline i128 gen_mag(mon::Rng& g, Ri r, int maxbits)
{
  if (maxbits > r.bits)
    maxbits = r.bits;
  if (maxbits <= 0)
    return 0;
  i128 v;
  i128 const cap = maxbits == r.bits ? r.max : (i128(1) << maxbits) - 1;
  switch (g.below(12))
  {
    case 0:
    case 1:
      v = g.range(0, 16);
      break;
    case 2:
    case 3:
    case 4:
      v = g.upto((i128(1) << g.range(1, maxbits)) - 1);
      break;
    case 5:
      v = (i128(1) << g.range(0, maxbits)) + g.range(-2, 2);
      break;
    case 6:
    {
      static const int pr[] = {2, 2, 2, 3, 3, 5, 5, 7, 10, 11, 13, 60, 100};
      v = 1;
      for (int i = g.range(1, 24); i > 0; --i)
      {
        int const q = pr[g.below(13)];
        if (v * q > cap)
          break;
        v *= q;
      }
      break;
    }
    case 7:
      v = cap - g.range(0, 3);
      break;
    case 8:
    {
      i128 s = i128(1) << (maxbits / 2);
      while (s * s <= cap)
        s += s / 8 + 1;
      while (s * s > cap)
        s -= s / 64 + 1;
      v = s + g.range(-3, 3);
      break;
    }
    case 9:
      v = cap / g.range(1, 12) + g.range(-1, 1);
      break;
    case 10:
    {
      v = 1;
      for (int i = g.range(0, 19); i > 0 && v * 10 <= cap; --i)
        v *= 10;
      v *= g.range(1, 9);
      break;
    }
    default:
      v = g.upto(cap);
  }
  if (v < 0)
    v = 0;
  if (v > cap)
    v = cap;
  return v;
}

inline i128 sgn_(mon::Rng& g, Ri r, i128 v, int percent)
{
  return r.sg && g.chance(percent) ? -v : v;
}

// A defined fraction with components of magnitude up to `bits` bits.
inline Fr gen_fr(mon::Rng& g, Ri r, int nbits, int dbits)
{
  Fr f;
  f.d = gen_mag(g, r, dbits);
  if (f.d == 0)
    f.d = 1;
  switch (g.below(8))
  {
    case 0: // integer valued, or next to it
    {
      i128 const k = gen_mag(g, r, std::max(1, nbits - dbits));
      f.n = k * f.d + g.range(-1, 1);
      break;
    }
    case 1: // next to a half
      f.n = f.d * g.range(0, 9) + f.d / 2 + g.range(-1, 1);
      break;
    case 2: // unreduced
    {
      i128 const k = 1 + gen_mag(g, r, std::max(1, std::min(nbits, dbits) / 2));
      f.n = gen_mag(g, r, nbits) / k * k;
      f.d = std::max<i128>(1, f.d / k) * k;
      break;
    }
    default:
      f.n = gen_mag(g, r, nbits);
  }
  if (f.n < 0)
    f.n = -f.n;
  if (f.n > r.max)
    f.n %= r.max;
  if (f.d > r.max || f.d <= 0)
    f.d = 1;
  f.n = sgn_(g, r, f.n, 45);
  f.d = sgn_(g, r, f.d, 30);
  return f;
}

inline Fr gen_any(mon::Rng& g, Ri r)
{
  return gen_fr(g, r, g.range(1, r.bits), g.range(1, r.bits));
}

inline Fr gen_small(mon::Rng& g, Ri r, int lim)
{
  Fr f {g.range(0, lim), g.range(1, lim)};
  f.n = sgn_(g, r, f.n, 45);
  f.d = sgn_(g, r, f.d, 30);
  return f;
}

inline Fr clampfr(Fr f, Ri r)
{
  auto c = [&](i128 v) {
    if (!r.sg && v < 0)
      v = -v;
    if (iabs(v) > r.max)
      v = v % (r.max / 2 + 1);
    return v;
  };
  f = {c(f.n), c(f.d)};
  if (f.d == 0)
    f.d = 1;
  return f;
}

// A pair of operands, aimed at being in the domain of additive operations and
// comparisons (cross products or least-common-denominator forms that fit).
inline void gen_pair(mon::Rng& g, Ri r, Fr& a, Fr& b)
{
  int const B = r.bits;
  switch (g.below(12))
  {
    case 0:
      a = gen_small(g, r, 12);
      b = gen_small(g, r, 12);
      break;
    case 1:
    case 2: // cross products fit
    {
      int const d1 = g.range(1, B - 2);
      int const d2 = g.range(1, std::max(1, B - 1 - d1));
      a = gen_fr(g, r, std::max(1, B - 1 - d2), d1);
      b = gen_fr(g, r, std::max(1, B - 1 - d1), d2);
      break;
    }
    case 3:
    case 4: // denominators share a factor; scaled numerators up to the limit
    {
      int const gb = g.range(0, B - 2);
      i128 const f = 1 + gen_mag(g, r, gb);
      int const left = std::max(1, (B - gb) / 2);
      i128 const x = 1 + gen_mag(g, r, g.range(1, left));
      i128 const y = 1 + gen_mag(g, r, g.range(1, left));
      a.d = f * x;
      b.d = f * y;
      i128 const gg = igcd(a.d, b.d);
      i128 const ka = b.d / gg, kb = a.d / gg; // lcm/a.d, lcm/b.d
      auto num = [&](i128 k) -> i128 {
        i128 const top = r.max / std::max<i128>(1, k);
        switch (g.below(4))
        {
          case 0:
            return top - g.range(0, 2);
          case 1:
            return top / 2 + g.range(-1, 1);
          default:
            return gen_mag(g, r, B) % (top + 1);
        }
      };
      a.n = sgn_(g, r, num(ka), 45);
      b.n = sgn_(g, r, num(kb), 45);
      a.d = sgn_(g, r, a.d, 25);
      b.d = sgn_(g, r, b.d, 25);
      break;
    }
    case 5: // same denominator
      a = gen_any(g, r);
      b = gen_any(g, r);
      b.d = g.chance(70) ? a.d : -a.d;
      break;
    case 6: // the same value in another representation
    {
      a = gen_fr(g, r, B / 2, B / 2);
      Fr const q = red(a, true);
      i128 const m = std::max(iabs(q.n), q.d);
      i128 k = 1 + gen_mag(g, r, std::max(1, B / 2 - 2)) % std::max<i128>(1, r.max / m);
      if (k * m > r.max)
        k = 1;
      b = {q.n * k, q.d * k};
      if (g.chance(40) && r.sg)
        b = {-b.n, -b.d};
      if (g.chance(30))
        b.n += g.range(-1, 1);
      break;
    }
    case 7: // neighbours: |a.n b.d - b.n a.d| = 1, from a continued fraction
    {
      i128 p0 = 0, q0 = 1, p1 = 1, q1 = g.range(0, 3);
      i128 const lim = i128(1) << std::max(1, B / 2 - g.range(0, B / 2 - 1));
      for (int i = 0; i < 60; ++i)
      {
        i128 const k = 1 + i128(g.below(g.chance(70) ? 3 : 40));
        i128 const p2 = k * p1 + p0, q2 = k * q1 + q0;
        if (p2 > lim || q2 > lim)
          break;
        p0 = p1, q0 = q1, p1 = p2, q1 = q2;
      }
      a = {p0, q0 ? q0 : 1};
      b = {p1, q1 ? q1 : 1};
      if (g.chance(50))
        std::swap(a, b);
      if (r.sg && g.chance(40))
        a.n = -a.n, b.n = -b.n;
      if (r.sg && g.chance(30))
        a = {-a.n, -a.d};
      if (r.sg && g.chance(30))
        b = {-b.n, -b.d};
      break;
    }
    case 8: // one is zero, or one of the components is 1
      a = gen_fr(g, r, B / 2, B / 2);
      b = gen_fr(g, r, B / 2, B / 2);
      switch (g.below(4))
      {
        case 0:
          a.n = 0;
          break;
        case 1:
          b.n = 0;
          break;
        case 2:
          a.d = 1;
          break;
        default:
          b.d = r.sg ? -1 : 1;
      }
      break;
    case 9: // unreduced operands that only fit after reduction
    {
      gen_pair(g, r, a, b);
      Fr* const f = g.chance(50) ? &a : &b;
      Fr const q = red(*f, false);
      i128 const m = std::max(iabs(q.n), iabs(q.d));
      i128 const k = r.max / m;
      *f = {q.n * k, q.d * k};
      break;
    }
    default:
      a = gen_any(g, r);
      b = gen_any(g, r);
  }
  a = clampfr(a, r);
  b = clampfr(b, r);
}

// A pair aimed at products and quotients that fit.
inline void gen_pair_mul(mon::Rng& g, Ri r, Fr& a, Fr& b)
{
  int const B = r.bits;
  if (g.chance(20))
    return gen_pair(g, r, a, b);
  int const n1 = g.range(1, B - 1), d1 = g.range(1, B - 1);
  // a.n*b.n and a.d*b.d fit, or a.n*b.d and a.d*b.n do
  bool const quot = g.chance(50);
  int const bn = std::max(1, B - (quot ? d1 : n1)), bd = std::max(1, B - (quot ? n1 : d1));
  a = gen_fr(g, r, n1, d1);
  b = gen_fr(g, r, bn, bd);
  if (g.chance(20)) // exactly at the limit
  {
    i128& x = quot ? b.d : b.n;
    if (a.n)
    {
      x = r.max / iabs(a.n);
      if (g.chance(30))
        x = -x;
    }
  }
  a = clampfr(a, r);
  b = clampfr(b, r);
}

// A whole number related to f so that f (op) w is interesting and in range.
inline i128 gen_whole(mon::Rng& g, Ri r, Fr f)
{
  i128 w;
  i128 const room = r.max / std::max<i128>(1, iabs(f.d));
  switch (g.below(8))
  {
    case 0:
      w = g.range(0, 5);
      break;
    case 1:
    case 2:
      w = f.d ? floordiv(f.n, f.d) + g.range(-1, 2) : 0;
      break;
    case 3:
      w = room - g.range(0, 2);
      break;
    case 4: // products with the numerator fit
    {
      i128 const q = r.max / std::max<i128>(1, iabs(f.n));
      w = g.chance(50) ? q : gen_mag(g, r, r.bits) % (q + 1);
      break;
    }
    case 5:
      w = f.n / 2 + g.range(-1, 1);
      break;
    default:
      w = gen_mag(g, r, r.bits) % (room + 1);
  }
  w = sgn_(g, r, w, 35);
  if (!r.sg && w < 0)
    w = -w;
  if (iabs(w) > r.max)
    w = w % (r.max / 2 + 1);
  return w;
}

// ------------------------------------------------------------------ landmarks

// Magnitudes at which the behaviour of machine arithmetic changes: every power
// of two and its neighbours, the maximum, its parts and its root, powers of ten.
inline std::vector<i128> landmarks(Ri r)
{
  std::vector<i128> v;
  for (i128 k : {0, 1, 2, 3, 5, 6, 7, 10, 12, 60, 100, 1000})
    v.push_back(k);
  for (int k = 2; k <= r.bits; ++k)
    for (int j = -1; j <= 1; ++j)
      v.push_back((i128(1) << k) + j);
  for (i128 k : {1, 2, 3, 4, 5, 6, 7, 10, 100})
    for (int j = -2; j <= 1; ++j)
      v.push_back(r.max / k + j);
  for (i128 k = 10; k <= r.max; k *= 10)
    v.push_back(k);
  i128 s = 1;
  while (s * s <= r.max)
    s *= 2;
  i128 lo = s / 2;
  while (lo + 1 < s)
  {
    i128 const m = (lo + s) / 2;
    (m * m <= r.max ? lo : s) = m;
  }
  for (int j = -1; j <= 2; ++j)
    v.push_back(lo + j);
  std::sort(v.begin(), v.end());
  v.erase(std::unique(v.begin(), v.end()), v.end());
  v.erase(std::remove_if(v.begin(), v.end(), [&](i128 x) { return x < 0 || x > r.max; }), v.end());
  return v;
}

template <class F> void each_landmark(Ri r, bool zero_denominators, F f)
{
  auto const v = landmarks(r);
  static uint64_t* const bk = mon::bucket("fractions of two landmark components");
  for (i128 n : v)
    for (i128 d : v)
      if (d != 0 || zero_denominators)
        for (int s = 0; s < (r.sg ? 4 : 1); ++s)
        {
          if (((s & 1) && n == 0) || ((s & 2) && d == 0))
            continue;
          ++*bk;
          f(Fr {s & 1 ? -n : n, s & 2 ? -d : d});
        }
  ++mon::S->exhausted_spaces;
}

// Fractions with a component that is the lowest value, whose magnitude the type
// cannot represent: against the landmarks and against random components.
constexpr bool holds(i128 v, Ri r) { return v <= r.max && v >= (r.sg ? -r.max - 1 : 0); }
constexpr bool holds(Fr f, Ri r) { return holds(f.n, r) && holds(f.d, r); }

template <class F> void each_lowest(mon::Env& e, Ri r, bool zero_denominators, uint64_t random, F f)
{
  if (!r.sg)
    return;
  static uint64_t* const bk = mon::bucket("fractions with a lowest component");
  i128 const low = -r.max - 1;
  auto both = [&](i128 v) {
    ++*bk;
    f(Fr {v, low});
    if (v != 0 || zero_denominators)
      f(Fr {low, v});
  };
  both(low);
  for (i128 v : landmarks(r))
  {
    both(v);
    if (v != 0)
      both(-v);
  }
  for (uint64_t i = 0; i < random; ++i)
  {
    i128 v = gen_mag(e.rng, r, e.rng.range(1, r.bits));
    if (e.rng.chance(50))
      v <<= e.rng.below(uint64_t(r.bits));
    if (v > r.max)
      v %= r.max;
    both(e.rng.chance(50) ? v : -v);
  }
  ++mon::S->exhausted_spaces;
}

// a few of them, for pairs
inline std::vector<i128> few_landmarks(Ri r, bool thorough)
{
  i128 const h = i128(1) << (r.bits / 2);
  std::vector<i128> v {0, 1, 2, 3, h, r.max / 2 + 1, r.max - 1, r.max};
  if (thorough)
    for (i128 k : {i128(6), h - 1, h + 1, h / 2, r.max / 2, r.max / 3})
      v.push_back(k);
  std::sort(v.begin(), v.end());
  v.erase(std::unique(v.begin(), v.end()), v.end());
  v.erase(std::remove_if(v.begin(), v.end(), [&](i128 x) { return x < 0 || x > r.max; }), v.end());
  return v;
}

template <class F> void each_landmark_pair(mon::Env& e, Ri rl, Ri rr, F f, bool zero_denominators = false)
{
  auto const a = few_landmarks(rl, e.thorough), b = few_landmarks(rr, e.thorough);
  static uint64_t* const bk = mon::bucket("pairs of landmark components");
  uint64_t it = 0;
  for (i128 n : a)
    for (i128 d : a)
      for (i128 m : b)
        for (i128 c : b)
          for (int s = 0; s < 16; ++s)
          {
            if ((!zero_denominators && (d == 0 || c == 0)) || (!rl.sg && (s & 3)) || (!rr.sg && (s & 12)) || ((s & 1) && n == 0)
                || ((s & 4) && m == 0) || ((s & 2) && d == 0) || ((s & 8) && c == 0))
              continue;
            if (!e.go(it++, UINT64_MAX))
              return;
            ++*bk;
            f(Fr {s & 1 ? -n : n, s & 2 ? -d : d}, Fr {s & 4 ? -m : m, s & 8 ? -c : c});
          }
  ++mon::S->exhausted_spaces;
}

template <class R, class P> fraction<R, P> mk(Fr f)
{
  return fraction<R, P>(static_cast<R>(f.n), static_cast<R>(f.d));
}

template <class R, class P> Fr get(fraction<R, P> const& f)
{
  return {i128(f.numerator()), i128(f.denominator())};
}

template <class R> Fr get(raw_fraction<R> const& f)
{
  return {i128(f.numerator), i128(f.denominator)};
}

inline std::string sh(Fr f) { return mon::str(f.n) + "/" + mon::str(f.d); }

// Buckets of sign/shape classes of the operands actually executed.
inline void shape(Fr a, Fr b, Ri r)
{
  auto cls = [](Fr f) {
    return (f.n == 0 ? 0 : f.n < 0 ? 1 : 2) * 2 + (f.d < 0);
  };
  static uint64_t* t[6][6];
  int const i = cls(a), j = cls(b);
  static const char* nm[] = {"0/+", "0/-", "-/+", "-/-", "+/+", "+/-"};
  if (!t[i][j])
    t[i][j] = mon::bucket("signs %s with %s", nm[i], nm[j]);
  ++*t[i][j];
  i128 const m = std::max(std::max(iabs(a.n), iabs(a.d)), std::max(iabs(b.n), iabs(b.d)));
  if (m > r.max / 2)
    MON_BUCKET("a component above half the maximum");
  else if (m * m > r.max)
    MON_BUCKET("a component above the square root of the maximum");
  else
    MON_BUCKET("small components");
  if (igcd(a.n, a.d) > 1 || igcd(b.n, b.d) > 1)
    MON_BUCKET("unreduced operand");
  if (igcd(a.d, b.d) > 1)
    MON_BUCKET("denominators share a factor");
}

// Judge a result that must be exactly `want` (defined).
inline bool exact(const char* what, Fr got, Fr want)
{
  mon::seen();
  if (got.d == 0)
  {
    mon::fail(what, "%s: result undefined (%s), expected %s", what, sh(got).c_str(), sh(want).c_str());
    return false;
  }
  if (!eqv(got, want))
  {
    mon::fail(what, "%s: got %s, expected value %s", what, sh(got).c_str(), sh(want).c_str());
    return false;
  }
  return true;
}

// Judge canonicity of an output-reducing policy's result.
inline void canonical(const char* what, Pol p, Fr got)
{
  if (!p.out || got.d == 0)
    return;
  mon::seen();
  if (igcd(got.n, got.d) != 1)
    mon::fail(what, "%s: %s is not reduced", what, sh(got).c_str());
  if (p.out_norm && got.d < 0)
    mon::fail(what, "%s: %s has a negative denominator", what, sh(got).c_str());
}

} // namespace fx

#endif
