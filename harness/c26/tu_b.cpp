#include <ieme/ieme.hpp>
#include <ieme/numbers.hpp>
#include "judge.inc"
#include "all.inc"
int judged_b(int k, int* bad)
{
  all_facilities(k);
  auto const f = &ieme::literals::fraction_literals::operator""_fr;
  auto const g = &ieme::literals::fraction_literals::operator""_dec;
  IS((1 / f(2)).den() == 2 && g("0.25").den() == 4);
  *bad = bad_;
  return judged_;
}
ieme::fraction<int> shared_value_b(ieme::mixed_number<int> const& m) { return m.as_fraction(); }
