#include <ieme/limits.hpp>
#include "judge.inc"
int main()
{
  using namespace ieme;
  using F = fraction<int>;
  IS(limits<F>::min() <= F(-2147483647) && limits<F>::max() >= F(2147483647));
  IS(limits<F>::smallest() > F(0) && limits<F>::undefined() != limits<F>::undefined());
  IS(std::numeric_limits<F>::is_specialized && std::numeric_limits<F>::is_exact);
  IS(std::numeric_limits<F>::max() == limits<F>::max() && std::numeric_limits<F>::lowest() == limits<F>::min());
  using M = mixed_number<int>;
  IS(limits<M>::max().whole() == 2147483647);
  IS(is_undefined(limits<M>::undefined().fractional()));
  IS(std::numeric_limits<M>::is_specialized);
  DONE
}
