#include <ieme/fraction_literals.hpp>
#include "judge.inc"
using namespace ieme::fraction_literals;
int main()
{
  FR(-2, 7, -2 / 7_fr);
  FR(7, 9, 7U / 9_fr);
  FR(1, -2, 1 / -2_fr);
  FR(1, 2, 1 / +2_fr);
  FR(237, 100, 2.37_dec);
  FR(3, 1, 0x1.8p1_dec);
  FR(1, 6, (1 / 2_fr) / 3_fr);
  {
    using namespace ieme;
    FR(3, 8, 3 / 8_fr);
  }
  {
    using namespace ieme::literals;
    FR(3, 8, 3 / 8_fr);
  }
  DONE
}
