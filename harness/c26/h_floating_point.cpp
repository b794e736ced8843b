#include <ieme/floating_point.hpp>
#include "judge.inc"
int main()
{
  using namespace ieme;
  FR(3, 8, to_fraction<int>(0.375f));
  FR(-9, 4, to_fraction<int>(-2.25));
  FR(3, 8, to_fraction<int, ops::fast>(0.375f));
  IS(to_float(fraction<int>(1, 4)) == 0.25f);
  IS(to_double(fraction<int>(5, 8)) == 0.625);
  IS(to_long_double(fraction<int>(-1, 16)) == -0.0625L);
  FR(1, 2, floating_point_string_to_fraction<int>("0.5"));
  FR(3, 1, floating_point_string_to_fraction<long>("0x1.8p1"));
  IS(floating_point_string_to_fraction<int>("half").den() == 0);
  DONE
}
