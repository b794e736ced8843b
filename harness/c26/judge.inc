// Included after the header under test, and without any header of its own, so
// that it cannot supply an include the library forgot.
extern "C" int printf(char const*, ...);
static int bad_ = 0, judged_ = 0;
static void is_(char const* what, bool ok)
{
  ++judged_;
  if (!ok)
  {
    ++bad_;
    printf("MISMATCH %s\n", what);
  }
}
#define IS(...) is_(#__VA_ARGS__, (__VA_ARGS__))
// the value n/d; with COMPONENTS (for documented results) that very fraction
template <class F> static void fr_(char const* what, F const& f, long long n, long long d)
{
  ++judged_;
#ifdef COMPONENTS
  if (f.num() != n || f.den() != d)
#else
  if (f.den() == 0 || (long long)f.num() * d != (long long)f.den() * n)
#endif
  {
    ++bad_;
    printf("MISMATCH %s is %lld/%lld, not %lld/%lld\n", what, (long long)f.num(), (long long)f.den(), n, d);
  }
}
#define FR(n, d, ...) fr_(#__VA_ARGS__, (__VA_ARGS__), n, d)
template <class F> static void raw_(char const* what, F const& f, long long n, long long d)
{
  ++judged_;
  if (f.numerator != n || f.denominator != d)
  {
    ++bad_;
    printf("MISMATCH %s is %lld/%lld, not %lld/%lld\n", what, (long long)f.numerator, (long long)f.denominator, n, d);
  }
}
#define RAW(n, d, ...) raw_(#__VA_ARGS__, (__VA_ARGS__), n, d)
#define DONE                                                                                                           \
  printf("JUDGED %d BAD %d\n", judged_, bad_);                                                                         \
  return bad_ != 0;
