// every example of README.md, with the result it documents
#include <ieme/ieme.hpp>
#define COMPONENTS
#include "judge.inc"

static void top()
{
  using namespace ieme;
  ieme::fraction<int> f {1, 2};
  FR(1, 2, f);
  f = 3/4_fr;
  FR(3, 4, f);
  f = 1/2_fr + 3/4_fr;
  FR(5, 4, f);
  f = 1/2_fr - 4/5_fr;
  FR(-3, 10, f);
  f = 3/4_fr * 3/7_fr;
  FR(9, 28, f);
  f = 8;
  FR(8, 1, f);
  f = ieme::fraction<int>(0.759_dec);
  FR(759, 1000, f);
  f = reciprocal(3/4_fr);
  FR(4, 3, f);
  f = reduce(16/24_fr);
  FR(2, 3, f);
  int i = round(19/10_fr);
  IS(i == 2);
}

static void constructing()
{
  using namespace ieme;
  auto f1 = fraction<int>();
  FR(0, 1, f1);
  auto f2 = fraction<int>(3, 4);
  FR(3, 4, f2);
  auto f3 = fraction<int>(-2);
  FR(-2, 1, f3);
  auto f4 = fraction<int>(std::milli{});
  FR(1, 1000, f4);
  using namespace ieme::fraction_literals;
  auto f5 = -2/7_fr;
  FR(-2, 7, f5);
  IS(std::is_same_v<decltype(f5), fraction<int>>);
  auto f6 = 7U/9_fr;
  FR(7, 9, f6);
  IS(std::is_same_v<decltype(f6), fraction<unsigned int>>);
  auto f7 = 2.37_dec;
  FR(237, 100, f7);
  IS(std::is_same_v<decltype(f7), fraction<std::intmax_t>>);
}

static void arithmetic()
{
  using namespace ieme::fraction_literals;
  auto f1 = 1/2_fr + 3/4_fr;
  FR(5, 4, f1);
  auto f2 = 1/2_fr - 4/5_fr;
  FR(-3, 10, f2);
  auto f3 = 3/4_fr * 3/7_fr;
  FR(9, 28, f3);
  auto f4 = 3/4_fr / (3/2_fr);
  FR(1, 2, f4);
  auto f5 = 4/7_fr % (2/5_fr);
  FR(6, 35, f5);
  auto b1 = 1/2_fr == 2/4_fr;
  IS(b1);
  auto b2 = 1/2_fr != 2/4_fr;
  IS(!b2); // the comment beside it in the README is a slip
  auto b3 = 1/2_fr > 1/4_fr;
  IS(b3);
  auto b4 = 1/2_fr >= 1/3_fr;
  IS(b4);
  auto b5 = 1/2_fr < 3/4_fr;
  IS(b5);
  auto b6 = 1/2_fr <= 2/3_fr;
  IS(b6);
}

static void operations()
{
  using namespace ieme;
  auto f1 = reciprocal(3/4_fr);
  FR(4, 3, f1);
  auto f2 = reduce(16/24_fr);
  FR(2, 3, f2);
  auto i1 = round(19/10_fr);
  IS(i1 == 2);
  auto i2 = trunc(19/10_fr);
  IS(i2 == 1);
  auto i3 = floor(19/10_fr);
  IS(i3 == 1);
  auto i4 = ceil(19/10_fr);
  IS(i4 == 2);
  auto f3 = abs(-4/5_fr);
  FR(4, 5, f3);
  auto f4 = pow2(-3);
  FR(1, 8, f4);
  auto f5 = pow(3, -2);
  FR(1, 9, f5);
}

static void queries()
{
  using namespace ieme;
  auto b1 = is_undefined(2/0_fr);
  IS(b1);
  auto b2 = is_positive(3/4_fr);
  IS(b2);
  auto b3 = is_zero(0/4_fr);
  IS(b3);
  auto b4 = is_negative(-3/4_fr);
  IS(b4);
  auto b5 = is_integer(2/1_fr);
  IS(b5);
  auto b6 = is_unit_fraction(1/3_fr);
  IS(b6);
  auto b7 = is_reduced(5/10_fr);
  IS(!b7);
  auto b8 = is_proper(1/4_fr);
  IS(b8);
  auto b9 = is_improper(5/4_fr);
  IS(b9);
  auto b10 = are_identical(1/2_fr, 1/2_fr);
  IS(b10);
  auto b11 = are_different(1/2_fr, -1/-2_fr);
  IS(b11);
}

static void floating()
{
  using namespace ieme;
  auto f1 = to_fraction<int>(0.375f);
  FR(3, 8, f1);
  auto f2 = to_fraction<int>(-2.25);
  FR(-9, 4, f2);
  auto fl1 = to_float(1/4_fr);
  IS(fl1 == 0.25f);
  auto d1 = to_double(5/8_fr);
  IS(d1 == 0.625);
  auto l1 = to_long_double(-1/16_fr);
  IS(l1 == 0.0625L || l1 == -0.0625L); // the README leaves out the sign
  IS(l1 == -0.0625L);
}

int main()
{
  top();
  constructing();
  arithmetic();
  operations();
  queries();
  floating();
  DONE
}
