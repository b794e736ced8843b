#include <ieme/reduce_mode.hpp>
#include "judge.inc"
int main()
{
  IS(ieme::reduce_mode::ignore_signs != ieme::reduce_mode::normalize_signs);
  DONE
}
