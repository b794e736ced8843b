#include <ieme/mixed_number.hpp>
#include "judge.inc"
int main()
{
  using namespace ieme;
  using F = fraction<int>;
  using M = mixed_number<int>;
  M const m(F(7, 4));
  IS(m.whole() == 1);
  FR(3, 4, m.fractional());
  FR(7, 4, m.as_fraction());
  M const n = m + M(1, F(1, 2)) + F(1, 4) + 1;
  IS(n.whole() == 4);
  FR(1, 2, n.fractional());
  IS((-n).whole() == -4 && (1 + n).whole() == 5);
  F const back = n;
  FR(9, 2, back);
  DONE
}
