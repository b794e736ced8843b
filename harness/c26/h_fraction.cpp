#include <ieme/fraction.hpp>
#include "judge.inc"
#include <sstream>
int main()
{
  using F = ieme::fraction<int>;
  FR(0, 1, F());
  FR(-2, 1, F(-2));
  F const a {1, 2}, b {3, 4};
  FR(5, 4, a + b);
  FR(-1, 4, a - b);
  FR(3, 8, a * b);
  FR(2, 3, a / b);
  FR(1, 2, a % b);
  FR(-1, 2, -a);
  FR(1, 2, +a);
  F c = a;
  c += b;
  c -= 1;
  c *= 2;
  c /= F(1, 3);
  c %= 1;
  FR(1, 2, c);
  IS(a < b && a <= b && b > a && b >= a && a != b && a == F(2, 4));
  IS(1 > a && a < 1 && F(2, 2) == 1);
  FR(1, 1000, F(std::milli()));
  std::ostringstream o;
  o << a << ' ' << ieme::fraction<long>(b);
  IS(o.str() == "1/2 3/4");
  std::istringstream i("7/-9");
  i >> c;
  FR(7, -9, c);
  DONE
}
