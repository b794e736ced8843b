#include <ieme/fraction_math.hpp>
#include "judge.inc"
int main()
{
  using namespace ieme;
  using F = fraction<int>;
  FR(4, 3, reciprocal(F(3, 4)));
  FR(2, 3, reduce(F(16, 24)));
  FR(2, 3, reduce_normalize_signs(F(-16, -24)));
  FR(-2, -3, reduce_ignore_signs(F(-16, -24)));
  FR(-1, 2, normalize_signs(F(1, -2)));
  IS(abs(F(-4, 5)) == F(4, 5));
  IS(round(F(19, 10)) == 2);
  IS(trunc(F(19, 10)) == 1);
  IS(floor(F(-19, 10)) == -2);
  IS(ceil(F(19, 10)) == 2);
  IS(to_whole(F(19, 10)) == 2);
  IS(to_whole(F(19, 10), round_mode::trunc) == 1);
  FR(2, 4, redenominate(F(1, 2), 4));
  FR(1, 3, trunc_redenominate(F(1, 2), 3));
  FR(2, 3, ceil_redenominate(F(1, 2), 3));
  FR(1, 3, floor_redenominate(F(1, 2), 3));
  FR(4, 4, round_redenominate(F(9, 10), 4));
  FR(1, 8, pow2<int>(-3));
  FR(1, 8, pow2(-3));
  FR(1, 9, pow(3, -2));
  DONE
}
