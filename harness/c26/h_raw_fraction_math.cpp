#include <ieme/raw_fraction_math.hpp>
#include "judge.inc"
int main()
{
  using R = ieme::raw_fraction<int>;
  RAW(2, 3, ieme::reduce(R {16, 24}));
  RAW(-2, 3, ieme::reduce(R {16, -24}));
  RAW(2, -3, ieme::reduce_ignore_signs(R {16, -24}));
  RAW(-2, 3, ieme::reduce_normalize_signs(R {16, -24}));
  RAW(-2, 3, ieme::reduce(R {16, -24}, ieme::reduce_mode::normalize_signs));
  RAW(4, 3, ieme::reciprocal(R {3, 4}));
  RAW(-1, 2, ieme::normalize_signs(R {1, -2}));
  DONE
}
