#include <ieme/ieme.hpp>
#include "judge.inc"
#include "all.inc"
int main()
{
  all_facilities(1);
  DONE
}
