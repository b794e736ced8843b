#include <ieme/hash.hpp>
#include "judge.inc"
#include <map>
#include <unordered_map>
#include <unordered_set>
int main()
{
  using F = ieme::fraction<int>;
  IS(std::hash<F>()(F(1, 2)) == std::hash<F>()(F(2, 4)));
  IS(ieme::hash(F(1, 2)) == ieme::hash(F(-1, -2)));
  using R = ieme::raw_fraction<int>;
  IS(std::hash<R>()(R {1, 2}) == ieme::hash(R {1, 2}));
  using M = ieme::mixed_number<int>;
  IS(std::hash<M>()(M(F(3, 2))) == ieme::hash(M(1, F(1, 2))));
  std::unordered_set<F> s {F(1, 2), F(2, 4), F(1, 3)};
  IS(s.size() == 2);
  std::unordered_map<F, int> m;
  m[F(1, 2)] = 1;
  m[F(-2, -4)] = 2;
  IS(m.size() == 1 && m.at(F(3, 6)) == 2);
  DONE
}
