#include <ieme/raw_fraction.hpp>
#include "judge.inc"
#include <sstream>
int main()
{
  ieme::raw_fraction<int> const z, h {1, 2};
  RAW(0, 0, z);
  RAW(1, 2, h);
  ieme::raw_fraction<long> const w = h;
  RAW(1, 2, w);
  std::ostringstream o;
  o << h;
  IS(o.str() == "1/2");
  std::istringstream i("-3/4");
  ieme::raw_fraction<long> r;
  i >> r;
  RAW(-3, 4, r);
  IS(bool(i));
  DONE
}
