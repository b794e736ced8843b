#include <ieme/ops.hpp>
#include "judge.inc"
template <class P> static void some()
{
  using R = ieme::raw_fraction<int>;
  R const s = P::plus(R {1, 2}, R {3, 4});
  IS(s.numerator * 4 == s.denominator * 5);
  R const m = P::multiplies(R {3, 4}, 2);
  IS(m.numerator * 2 == m.denominator * 3);
  R const q = P::divides(1, R {3, 4});
  IS(q.numerator * 3 == q.denominator * 4);
  R const d = P::minus(R {1, 2}, R {3, 4});
  IS(d.numerator * -4 == d.denominator);
  R const r = P::modulus(R {7, 4}, R {1, 2});
  IS(r.numerator * 4 == r.denominator);
  R const n = P::negate(R {1, 2});
  IS(n.numerator * -2 == n.denominator);
  IS(P::equal_to(R {1, 2}, R {2, 4}) && P::not_equal_to(R {1, 2}, 1) && P::less(R {1, 3}, R {1, 2}) && P::greater(1, R {1, 2}));
  IS(P::less_equal(R {1, 2}, R {1, 2}) && P::greater_equal(R {1, 2}, R {1, 2}));
}
int main()
{
  using namespace ieme::ops;
  some<safe>();
  some<safe_reduced_i>();
  some<safe_reduced_o>();
  some<safe_reduced_io>();
  some<fast>();
  some<fast_reduced_i>();
  some<fast_reduced_o>();
  some<fast_reduced_io>();
  some<defaults>();
  some<reduced_input<fast, ieme::reduce_mode::normalize_signs>>();
  some<reduced_output<safe, ieme::reduce_mode::ignore_signs>>();
  DONE
}
