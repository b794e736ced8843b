#include <ieme/math_utilities.hpp>
#include "judge.inc"
int main()
{
  namespace mu = ieme::math_utilities;
  IS(mu::abs(-3) == 3);
  IS(mu::pow2(10) == 1024);
  IS(mu::pow(3L, 4L) == 81);
  DONE
}
