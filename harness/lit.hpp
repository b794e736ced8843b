// The grammar of C++ floating literals without suffix, written down
// independently of the library, and the exact value of what it accepts.
#ifndef VERIF_LIT_HPP
#define VERIF_LIT_HPP

#include "frac.hpp"

#include <string>

namespace lit {

using mon::i128;

struct Num {
  i128 v = 0;
  bool big = false; // above 2^100
  int digits = 0;
  void push(int base, int d)
  {
    ++digits;
    if (big)
      return;
    v = v * base + d;
    if (v > (i128(1) << 100))
      big = true;
  }
};

struct Lit {
  bool ok = false;
  int base = 10;
  Num whole, frac, exp;
  bool has_whole = false, has_point = false, has_frac = false, has_exp = false, exp_neg = false, separators = false;
};

struct Reader {
  unsigned char const* p;
  unsigned char const* e;
  bool sep = false;

  static int digit(int c, int base)
  {
    int d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : 99;
    return d < base ? d : -1;
  }
  int peek() const { return p < e ? *p : -1; }
  // digit ( '? digit )* ; false: no digit here.  A separator that is not
  // followed by a digit is left unread.
  bool sequence(int base, Num& n)
  {
    int d = digit(peek(), base);
    if (d < 0)
      return false;
    for (;;)
    {
      n.push(base, d);
      ++p;
      if (p < e && *p == '\'' && p + 1 < e && digit(p[1], base) >= 0)
      {
        ++p;
        sep = true;
      }
      d = digit(peek(), base);
      if (d < 0)
        return true;
    }
  }
};

inline Lit recognise(void const* s, size_t n)
{
  Lit r;
  Reader in {static_cast<unsigned char const*>(s), static_cast<unsigned char const*>(s) + n};
  if (n >= 2 && in.p[0] == '0' && (in.p[1] == 'x' || in.p[1] == 'X'))
  {
    r.base = 16;
    in.p += 2;
  }
  r.has_whole = in.sequence(r.base, r.whole);
  if (in.peek() == '.')
  {
    r.has_point = true;
    ++in.p;
    r.has_frac = in.sequence(r.base, r.frac);
  }
  if (!r.has_whole && !r.has_frac)
    return r;
  int const c = in.peek();
  if (r.base == 10 ? (c == 'e' || c == 'E') : (c == 'p' || c == 'P'))
  {
    ++in.p;
    r.has_exp = true;
    if (in.peek() == '+' || in.peek() == '-')
      r.exp_neg = *in.p++ == '-';
    if (!in.sequence(10, r.exp))
      return r;
  }
  if (in.p != in.e)
    return r;
  if (r.base == 10 ? !(r.has_point || r.has_exp) : !r.has_exp)
    return r;
  r.separators = in.sep;
  r.ok = true;
  return r;
}

// base^e, or false above r.max
inline bool power(i128 base, i128 e, fx::Ri r, i128& out)
{
  out = 1;
  if (e > 130)
    return false;
  for (i128 i = 0; i < e; ++i)
    if (!fx::mulw(out, base, out, r))
      return false;
  return true;
}

// Is the value of a well-formed literal in the domain of the property for this
// policy and representation type, and what is it?
inline bool value(Lit const& l, fx::Pol p, fx::Ri r, fx::Fr& out)
{
  if (l.whole.big || l.frac.big || l.exp.big)
    return false;
  if (!fx::within(l.whole.v, r) || !fx::within(l.frac.v, r) || l.exp.v > 2147483647)
    return false;
  i128 fden, pw;
  if (!power(l.base, l.frac.digits, r, fden))
    return false;
  if (!power(l.base == 10 ? 10 : 2, l.exp.v, r, pw))
    return false;
  fx::Fr sum;
  if (!fx::domain(p, fx::ADD, {l.whole.v, 1}, true, {l.frac.v, fden}, false, r, sum))
    return false;
  if (p.out)
    sum = fx::red(sum, p.out_norm);
  fx::Fr const scale = l.exp_neg ? fx::Fr {1, pw} : fx::Fr {pw, 1};
  return fx::domain(p, fx::MUL, sum, false, scale, false, r, out);
}

} // namespace lit

#endif
