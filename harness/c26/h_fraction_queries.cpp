#include <ieme/fraction_queries.hpp>
#include "judge.inc"
int main()
{
  using namespace ieme;
  using F = fraction<unsigned>;
  using G = fraction<long>;
  IS(is_undefined(F(2, 0)) && is_defined(F(2, 1)));
  IS(is_positive(F(3, 4)) && is_zero(F(0, 4)) && is_negative(G(-3, 4)));
  IS(is_non_negative(F(3, 4)) && is_non_positive(G(3, -4)));
  IS(is_integer(F(2, 1)) && is_unit_fraction(F(1, 3)));
  IS(!is_reduced(F(5, 10)) && is_reduced(F(1, 2)) && is_reduced_ignore_signs(G(1, -2)));
  IS(is_proper(F(1, 4)) && is_improper(F(5, 4)));
  IS(are_identical(F(1, 2), F(1, 2)) && are_different(G(1, 2), G(-1, -2)));
  DONE
}
