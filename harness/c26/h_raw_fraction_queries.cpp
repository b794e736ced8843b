#include <ieme/raw_fraction_queries.hpp>
#include "judge.inc"
int main()
{
  using namespace ieme;
  using R = raw_fraction<long>;
  IS(is_defined(R {1, 2}));
  IS(is_undefined(R {1, 0}));
  IS(is_positive(R {-1, -2}));
  IS(is_negative(R {1, -2}));
  IS(is_zero(R {0, 5}));
  IS(is_non_negative(R {0, 5}));
  IS(is_non_positive(R {0, 5}));
  IS(is_integer(R {6, 3}));
  IS(is_unit_fraction(R {2, 4}));
  IS(is_proper(R {1, 4}));
  IS(is_improper(R {5, 4}));
  IS(is_reduced(R {1, 4}));
  IS(!is_reduced(R {2, 4}));
  IS(is_reduced_ignore_signs(R {1, -4}));
  IS(are_identical(R {1, 2}, R {1, 2}));
  IS(are_different(R {1, 2}, R {2, 4}));
  DONE
}
