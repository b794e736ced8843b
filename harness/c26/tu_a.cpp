#include <ieme/ieme.hpp>
#include <ieme/ieme.hpp>
#include "judge.inc"
#include "all.inc"
int judged_b(int k, int* bad);
ieme::fraction<int> shared_value_b(ieme::mixed_number<int> const&);
int main()
{
  all_facilities(3);
  int bad = 0;
  judged_ += judged_b(5, &bad);
  bad_ += bad;
  IS(ieme::are_identical(shared_value_b(ieme::mixed_number<int>(2, ieme::fraction<int>(1, 3))), ieme::fraction<int>(7, 3)));
  // functions that are not templates must be usable from every unit
  auto const f = &ieme::literals::fraction_literals::operator""_fr;
  auto const g = &ieme::literals::fraction_literals::operator""_dec;
  IS((1 / f(2)).den() == 2 && g("0.25").den() == 4);
  DONE
}
