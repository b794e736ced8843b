// What a program can observe about mixing policies: which expressions between
// fractions of two types are usable.  Included by programs mixing.py writes.
#include <ieme/ieme.hpp>

#include <cstdio>
#include <type_traits>

// a user's own policy; everything is delegated
namespace own {
struct policy {
  ~policy() = delete;
  template <class R> static constexpr ieme::raw_fraction<R> negate(ieme::raw_fraction<R> const& v) noexcept { return ieme::ops::safe::negate(v); }
#define OWN(T, name)                                                                                                   \
  template <class R> static constexpr T name(ieme::raw_fraction<R> const& l, ieme::raw_fraction<R> const& r) noexcept  \
  {                                                                                                                    \
    return ieme::ops::safe::name(l, r);                                                                                \
  }                                                                                                                    \
  template <class R> static constexpr T name(ieme::raw_fraction<R> const& l, R const& r) noexcept                      \
  {                                                                                                                    \
    return ieme::ops::safe::name(l, r);                                                                                \
  }                                                                                                                    \
  template <class R> static constexpr T name(R const& l, ieme::raw_fraction<R> const& r) noexcept                      \
  {                                                                                                                    \
    return ieme::ops::safe::name(l, r);                                                                                \
  }
  OWN(ieme::raw_fraction<R>, plus)
  OWN(ieme::raw_fraction<R>, minus)
  OWN(ieme::raw_fraction<R>, multiplies)
  OWN(ieme::raw_fraction<R>, divides)
  OWN(ieme::raw_fraction<R>, modulus)
  OWN(bool, equal_to)
  OWN(bool, not_equal_to)
  OWN(bool, less)
  OWN(bool, less_equal)
  OWN(bool, greater)
  OWN(bool, greater_equal)
#undef OWN
};
} // namespace own

static long judged = 0, bad = 0, refused = 0, accepted = 0;

static void wrong(const char* what, const char* a, const char* b)
{
  ++bad;
  std::printf("MISMATCH %s: %s and %s\n", what, a, b);
}

// every usable expression is reported; the driver then builds and runs it
static void observe(const char* what, bool usable, const char* a, const char* b)
{
  ++judged;
  ++(usable ? accepted : refused);
  if (usable)
    std::printf("USABLE\t%s\t%s\t%s\n", what, a, b);
}

#define EXPRESSIONS                                                                                                    \
  E(plus, +) E(minus, -) E(multiplies, *) E(divides, /) E(modulus, %) E(plus_assign, +=) E(minus_assign, -=)           \
  E(multiplies_assign, *=) E(divides_assign, /=) E(modulus_assign, %=) E(equal, ==) E(not_equal, !=) E(less, <)        \
  E(less_equal, <=) E(greater, >) E(greater_equal, >=)

#define E(name, op) template <class A, class B> concept name = requires(A& a, B const& b) { a op b; };
EXPRESSIONS
#undef E

template <class A, class B> void mixed_policies(const char* a, const char* b)
{
#define E(name, op) observe(#op, name<A, B>, a, b);
  EXPRESSIONS
#undef E
  observe("implicit conversion", std::is_convertible_v<B, A>, a, b);
  observe("assignment", std::is_assignable_v<A&, B const&>, a, b);
  // the explicit conversion exists, keeps both components, and its result mixes
  using rep = typename B::rep_type;
  for (int n = std::is_signed_v<rep> ? -6 : 0; n <= 6; ++n)
    for (int d : {1, 2, 4, 9, 0, std::is_signed_v<rep> && std::is_signed_v<typename A::rep_type> ? -4 : 8})
    {
      if (!std::is_signed_v<typename A::rep_type> && n < 0)
        continue;
      B const from(static_cast<rep>(n), static_cast<rep>(d));
      auto const to = static_cast<A>(from);
      static_assert(std::is_same_v<decltype(to), A const>);
      ++judged;
      if (static_cast<long>(to.num()) != n || static_cast<long>(to.den()) != d)
        wrong("explicit conversion changes the components", a, b);
      A const same(static_cast<typename A::rep_type>(n), static_cast<typename A::rep_type>(d));
      ++judged;
      if ((to == same) != (d != 0))
        wrong("the result of an explicit conversion does not mix with its like", a, b);
    }
}

// fractions of one policy do mix, or nothing above would mean anything
template <class A, class B> void one_policy(const char* a, const char* b)
{
#define E(name, op)                                                                                                    \
  ++judged;                                                                                                            \
  if (!name<A, B>)                                                                                                     \
    wrong("fractions of one policy cannot be used with " #op, a, b);
  EXPRESSIONS
#undef E
  ++judged;
  if (!std::is_convertible_v<B, A>)
    wrong("fractions of one policy do not convert", a, b);
}

template <class A, class B> void mixed_numbers(const char* a, const char* b)
{
  observe("plus", plus<A, B>, a, b);
  observe("implicit conversion", std::is_convertible_v<B, A>, a, b);
  observe("assignment", std::is_assignable_v<A&, B const&>, a, b);
}
